// LockFreeFifoSpsc and LockFreeFifoSpscDyn used by one thread: a bounded queue that refuses when full.
// vf-bound: sizes 1, 2, 4 (and 3, 5 for the dynamic one); elements of 1, 4 and 12 bytes; every fill, start position of the counters anywhere in the 64-bit range (fixed size) or within one buffer length of 0 and of the wrap (dynamic), then 2-3 (quick) / 4 (thorough) arbitrary operations; one history through every fill of 512 and 300 (thorough: 131072 and 65600) elements of any value
// vf-assume: the dynamic FIFO's capacity is a power of two when its 64-bit counters wrap around
#include "big.h"
#include "own.h"
#include "ref.h"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

template<typename B, typename T, size_t M>
void same(B &b, Seq<T, M> &r, size_t cap) {
	vf_assert(b.num_filled() == r.n, "num_filled is the number of elements held");
	vf_assert(b.num_free() == cap - r.n, "num_free is the room left");
	vf_assert(b.empty() == (r.n == 0), "empty exactly when nothing is held");
	vf_assert(b.full() == (r.n == cap), "full exactly when the capacity is reached");
	vf_assert(b.max_size() == cap, "max_size is the capacity");
	vf_observe(b.num_filled());
}

template<typename B, typename T, size_t M>
void put(B &b, Seq<T, M> &r, size_t cap, const char *n) {
	T x = mk<T>(n);
	bool ok = b.put(x);
	vf_assert(ok == (r.n < cap), "put is accepted exactly when there is room");
	if (r.n < cap)
		r.push_back(x);
}

template<typename B, typename T, size_t M>
void take(B &b, Seq<T, M> &r, int how) {
	if (how == 0) {
		auto o = b.get();
		vf_assert(o.has_value() == (r.n > 0), "get yields a value exactly when one is held");
		if (r.n && o.has_value()) {
			vf_assert(*o == r.front(), "get returns the oldest element");
			vf_observe(ob(*o));
		}
	} else if (how == 1) {
		T t = mk<T>("t"), before = t;
		bool ok = b.get_move(t);
		vf_assert(ok == (r.n > 0), "get_move succeeds exactly when an element is held");
		vf_assert(t == (r.n ? r.front() : before), "get_move returns the oldest element, and leaves the target alone when empty");
	} else if (how == 2) {
		T t = b.get_or_default();
		vf_assert(t == (r.n ? r.front() : T{}), "get_or_default returns the oldest element or a default");
	} else
		b.remove_first();
	if (r.n)
		r.pop_front();
}

template<typename B, typename T, size_t M>
void history(B &b, Seq<T, M> &r, size_t cap, int steps, bool offset) {
	for (int s = 0; s < steps; s++) {
		switch (sym_fork("op", 0, offset ? 6 : 5)) {
			case 0:
				put(b, r, cap, "x");
				break;
			case 1:
				take(b, r, 0);
				break;
			case 2:
				take(b, r, 1);
				break;
			case 3:
				take(b, r, 2);
				break;
			case 4:
				take(b, r, 3);
				break;
			case 5:
				b.reset();
				r.clear();
				break;
			case 6: {
				// skip ahead so that only the newest elements remain
				size_t k = sym_fork("keep", 0, r.n);
				b.set_read_offset(k);
				while (r.n > k)
					r.pop_front();
				break;
			}
		}
		same(b, r, cap);
		vf_merge(s + 1);
	}
	for (size_t i = 0; i <= cap; i++)
		take(b, r, 0);
	same(b, r, cap);
}

template<typename T, size_t N>
void fixed(int steps) {
	LockFreeFifoSpsc<T, N> b;
	Seq<T, N> r;
	same(b, r, N);
	size_t rot = sym_fork("rot", 0, N - 1);
	for (size_t i = 0; i < rot; i++) {
		put(b, r, N, "rotated");
		take(b, r, 0);
	}
	size_t fill = sym_fork("fill", 0, N);
	for (size_t i = 0; i < fill; i++)
		put(b, r, N, "filled");
	same(b, r, N);
	vf_merge(0);
	history(b, r, N, steps, true);
}
VF_HARNESS(ff_u8_4) { fixed<uint8_t, 4>(VF_THOROUGH ? 4 : 2); }
VF_HARNESS(ff_u32_2) { fixed<uint32_t, 2>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(ff_wide_8) { fixed<Wide, 8>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(ff_u32_1) { fixed<uint32_t, 1>(VF_THOROUGH ? 5 : 3); }

// the counters are free running: anywhere in their range, including across the wrap, the queue behaves the same
template<typename T, size_t N>
void anywhere(int steps) {
	LockFreeFifoSpsc<T, N> b;
	Seq<T, N> r;
	size_t base = sym<size_t>("base");
	size_t k = sym_fork("slot", 0, N - 1);
	size_t p = base * N + k;
	b.set_read_pos(p);
	b.set_write_pos(p);
	same(b, r, N);
	size_t fill = sym_fork("fill", 0, N);
	for (size_t i = 0; i < fill; i++)
		put(b, r, N, "filled");
	same(b, r, N);
	vf_merge(0);
	history(b, r, N, steps, false);
}
VF_HARNESS(ff_any_u8_4) { anywhere<uint8_t, 4>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(ff_any_u32_2) { anywhere<uint32_t, 2>(VF_THOROUGH ? 4 : 2); }

template<typename T, size_t M>
void dyn(size_t cap, int steps, size_t start) {
	LockFreeFifoSpscDyn<T> b{cap};
	Seq<T, M> r;
	same(b, r, cap);
	b.set_read_pos(start);
	b.set_write_pos(start);
	size_t rot = sym_fork("rot", 0, cap - 1);
	for (size_t i = 0; i < rot; i++) {
		put(b, r, cap, "rotated");
		take(b, r, 0);
	}
	size_t fill = sym_fork("fill", 0, cap);
	for (size_t i = 0; i < fill; i++)
		put(b, r, cap, "filled");
	same(b, r, cap);
	vf_merge(0);
	history(b, r, cap, steps, start == 0);
}
VF_HARNESS(dyn_u8_3) { dyn<uint8_t, 3>(3, VF_THOROUGH ? 4 : 2, 0); }
VF_HARNESS(dyn_wide_5) { dyn<Wide, 5>(5, VF_THOROUGH ? 3 : 2, 0); }
VF_HARNESS(dyn_u32_1) { dyn<uint32_t, 1>(1, 3, 0); }
VF_HARNESS(dyn_wrap_u32_4) { dyn<uint32_t, 4>(4, VF_THOROUGH ? 3 : 2, (size_t)0 - (size_t)2); }
// with a capacity that does not divide 2^64, the slot sequence jumps when the counters wrap
VF_HARNESS(dyn_wrap_u32_3) {
	LockFreeFifoSpscDyn<uint32_t> b{3};
	b.set_read_pos((size_t)0 - (size_t)2);
	b.set_write_pos((size_t)0 - (size_t)2);
	uint32_t x[3];
	bool ok = true;
	for (auto &e : x) {
		e = sym<uint32_t>("x");
		ok = ok & b.put(e);
	}
	for (auto &e : x) {
		auto g = b.get();
		ok = ok & g.has_value() & (g.value_or(0) == e);
	}
	vf_assert(ok, "three elements put across the counter wrap of a capacity-3 dynamic FIFO come out unchanged");
}

// resize to another capacity empties the queue and changes the capacity; to the same capacity changes nothing
VF_HARNESS(dyn_resize) {
	LockFreeFifoSpscDyn<uint32_t> b{3};
	Seq<uint32_t, 5> r;
	size_t cap = 3;
	for (int s = 0; s < 3; s++) {
		size_t fill = sym_fork("fill", 0, 2);
		for (size_t i = 0; i < fill; i++)
			put(b, r, cap, "x");
		size_t c = sym_fork("cap", 1, 5);
		b.resize(c);
		if (c != cap)
			r.clear();
		cap = c;
		same(b, r, cap);
		vf_merge(s);
	}
	history(b, r, cap, 1, false);
}

// constructors: prefilled storage and a fixed delay
VF_HARNESS(ff_ctor) {
	uint32_t src[4];
	for (auto &x : src)
		x = sym<uint32_t>("src");
	LockFreeFifoSpsc<uint32_t, 4> b{std::span<uint32_t, 4>{src}};
	size_t h = sym_fork("head", 0, 4);
	b.set_write_pos(h);
	vf_assert(b.num_filled() == h, "the write position fixes the delay");
	for (size_t i = 0; i < h; i++) {
		uint32_t x = sym<uint32_t>("x");
		if (i + h < 4) {
			vf_assert(b.put(x), "there is room");
		}
		auto g = b.get();
		vf_assert(g.has_value() && *g == src[i], "the span constructor fills the storage element by element");
	}
}
VF_HARNESS(ff_delay) {
	size_t h = sym_fork("head", 0, 4);
	LockFreeFifoSpsc<uint16_t, 4> b{h};
	LockFreeFifoSpscDyn<uint16_t> c{4, h};
	vf_assert(b.num_filled() == h && c.num_filled() == h, "constructing with an offset sets the delay");
	for (size_t i = 0; i < 6; i++) {
		if (h > 0) {
			auto g = b.get();
			auto k = c.get();
			vf_assert(g.has_value() && k.has_value(), "a delayed element is available");
			if (i < h)
				vf_assert(*g == 0 && *k == 0, "the delay is filled with default values");
		}
		uint16_t x = sym<uint16_t>("x");
		bool p = b.put(x), q = c.put(x);
		vf_assert(p == (h > 0 || i < 4) && q == p, "put is accepted while there is room");
	}
}

// resizing a queue whose elements are objects of their own
VF_HARNESS(dyn_resize_own) {
	LockFreeFifoSpscDyn<Own> b{2};
	size_t cap = 2;
	for (int s = 0; s < 2; s++) {
		size_t c = sym_fork("cap", 1, 4);
		b.resize(c);
		cap = c;
		vf_assert(b.max_size() == cap, "max_size is the capacity");
		uint8_t x[4];
		size_t n = sym_fork("n", 0, cap);
		for (size_t i = 0; i < n; i++) {
			x[i] = sym<uint8_t>("x");
			vf_assert(b.put(Own{x[i]}), "put is accepted exactly when there is room");
		}
		vf_assert(b.full() == (n == cap) && b.num_filled() == n, "the room is what is left");
		for (size_t i = 0; i < n; i++) {
			auto g = b.get();
			vf_assert(g.has_value() && g->get() == x[i], "get returns the oldest element");
		}
	}
	vf_reach("end");
}

// set_read_offset: the last elements put come again, if that many were ever put
template<typename B>
void rewind(B &b, size_t cap) {
	uint32_t x[4];
	size_t n = sym_fork("n", 0, cap), gone = sym_fork("gone", 0, n), k = sym_fork("offset", 0, cap);
	for (size_t i = 0; i < n; i++) {
		x[i] = sym<uint32_t>("x");
		b.put(x[i]);
	}
	for (size_t i = 0; i < gone; i++)
		b.remove_first();
	b.set_read_offset(k);
	size_t have = k <= n ? k : n - gone;
	vf_assert(b.num_filled() == have, "the read position is the offset behind the write position, or stays where it was");
	for (size_t i = 0; i < have; i++) {
		auto g = b.get();
		vf_assert(g.has_value() && *g == x[n - have + i], "the last elements put come again");
	}
	vf_assert(b.empty(), "nothing else is held");
	vf_observe(have);
}
VF_HARNESS(ff_rewind) {
	LockFreeFifoSpsc<uint32_t, 4> b;
	rewind(b, 4);
}
VF_HARNESS(dyn_rewind) {
	LockFreeFifoSpscDyn<uint32_t> b{3};
	rewind(b, 3);
}

// more elements than a small counter holds
template<typename B>
void big(B &b, size_t N) {
	Big r;
	vf_progress(2000 * N);
	auto same = [&] {
		vf_assert(b.num_filled() == r.held() && b.num_free() == N - r.held(), "num_filled and num_free count the elements held");
		vf_assert(b.empty() == (r.held() == 0) && b.full() == (r.held() == N), "empty and full agree with the contents");
	};
	auto put = [&] {
		bool ok = b.put(r.at(r.in));
		vf_assert(ok == (r.held() < N), "put is accepted exactly when there is room");
		r.in += ok;
		same();
	};
	auto get = [&] {
		vf_assert(b.get().value_or(~r.at(r.out)) == r.at(r.out), "get returns the oldest element");
		r.out++;
		same();
	};
	same();
	for (size_t i = 0; i < N / 2 + 9; i++)
		put();
	for (size_t i = 0; i < N / 2; i++)
		get();
	while (r.held() < N)
		put();
	put();
	for (size_t i = 0; i < N; i++)
		get();
	vf_observe(r.seed);
}
VF_HARNESS(fifo_big) {
	constexpr size_t N = VF_THOROUGH ? 131072 : 512;
	static LockFreeFifoSpsc<uint32_t, N> b;
	big(b, N);
}
VF_HARNESS(dyn_big) {
	constexpr size_t N = VF_THOROUGH ? 65600 : 300;
	LockFreeFifoSpscDyn<uint32_t> b{N};
	big(b, N);
}
