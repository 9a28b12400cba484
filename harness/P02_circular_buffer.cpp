// CircularBuffer and CircularBufferOpt against a bounded queue that drops its oldest element when full.
// vf-bound: sizes 1, 2, 4 and 8; elements of 1, 4 and 12 bytes and of a class that tracks its own address and moves; every (read position, fill) state, then 2 (quick) / 3 (thorough) arbitrary operations; one history through every fill of 512 elements of any value, and 131072 elements through set_head
#include "big.h"
#include "ref.h"
#include <cstring>
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"

template<typename B>
constexpr bool is_opt = false;
template<typename T, size_t N>
constexpr bool is_opt<CircularBufferOpt<T, N>> = true;

template<typename B, typename T, size_t N>
void same(B &b, Seq<T, N> &r) {
	vf_assert(b.count() == r.n, "count is the number of elements held");
	vf_assert(b.num_filled() == r.n, "num_filled is the number of elements held");
	vf_assert(b.empty() == (r.n == 0), "empty exactly when nothing is held");
	vf_assert(b.full() == (r.n == N), "full exactly when the capacity is reached");
	vf_assert(b.max_size() == N && b.max_capacity() == N, "capacity is constant");
	if constexpr (!is_opt<B>) {
		for (size_t i = 0; i < r.n; i++)
			vf_assert(b.peek(i) == r.d[i], "peek(i) sees the i-th oldest element");
		if (r.n)
			vf_assert(b.first() == r.d[0], "first is the oldest element");
	}
	vf_observe(b.count());
}

template<typename B, typename T, size_t N>
void take(B &b, Seq<T, N> &r) {
	auto got = b.get();
	if constexpr (is_opt<B>) {
		vf_assert(got.has_value() == (r.n > 0), "get yields a value exactly when one is held");
		if (r.n && got.has_value()) {
			vf_assert(*got == r.front(), "get returns the oldest element");
			vf_observe(ob(*got));
		}
	} else {
		vf_assert(got == (r.n ? r.front() : T{}), "get returns the oldest element, or a default when empty");
		vf_observe(ob(got));
	}
	if (r.n)
		r.pop_front();
}

template<typename B, typename T, size_t N>
void history(int steps) {
	B b;
	Seq<T, N> r;
	same(b, r);
	size_t rot = sym_fork("rot", 0, N - 1), fill = sym_fork("fill", 0, N);
	for (size_t i = 0; i < rot; i++) {
		T x = mk<T>("rotated");
		b.put(x);
		r.push_back(x);
		take(b, r);
	}
	for (size_t i = 0; i < fill; i++) {
		T x = mk<T>("filled");
		b.put(x);
		r.push_back(x);
	}
	same(b, r);
	vf_merge(0);
	for (int s = 0; s < steps; s++) {
		switch (sym_fork("op", 0, 3)) {
			case 0: {
				T x = mk<T>("x");
				b.put(x);
				if (r.n == N)
					r.pop_front();
				r.push_back(x);
				break;
			}
			case 1:
				take(b, r);
				break;
			case 2:
				b.remove_first();
				if (r.n)
					r.pop_front();
				break;
			case 3:
				b.reset();
				r.clear();
				break;
		}
		same(b, r);
		vf_merge(s + 1);
	}
	// drain: everything still held comes out in order
	for (size_t i = 0; i <= N; i++)
		take(b, r);
	same(b, r);
}

VF_HARNESS(cb_u8_4) { history<CircularBuffer<uint8_t, 4>, uint8_t, 4>(VF_THOROUGH ? 4 : 2); }
VF_HARNESS(cb_u32_2) { history<CircularBuffer<uint32_t, 2>, uint32_t, 2>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(cb_wide_8) { history<CircularBuffer<Wide, 8>, Wide, 8>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(cb_own_4) { history<CircularBuffer<Own, 4>, Own, 4>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(cbopt_own_4) { history<CircularBufferOpt<Own, 4>, Own, 4>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(cb_u32_1) { history<CircularBuffer<uint32_t, 1>, uint32_t, 1>(3); }
VF_HARNESS(cbopt_u8_4) { history<CircularBufferOpt<uint8_t, 4>, uint8_t, 4>(VF_THOROUGH ? 4 : 2); }
VF_HARNESS(cbopt_u32_8) { history<CircularBufferOpt<uint32_t, 8>, uint32_t, 8>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(cbopt_wide_2) { history<CircularBufferOpt<Wide, 2>, Wide, 2>(VF_THOROUGH ? 5 : 3); }

// set_head(h) on a fresh buffer gives a fixed delay of h elements between put and get
template<typename B, typename T, size_t N>
void delay() {
	B b;
	size_t h = sym_fork("delay", 1, N - 1);
	std::array<T, N> init;
	for (auto &x : init)
		x = mk<T>("init");
	bool filled = sym_fork("prefill", 0, 1);
	if (filled)
		b.fill_buffer(init);
	else {
		T v = mk<T>("fillval");
		b.fill_buffer(v);
		for (auto &x : init)
			x = v;
	}
	b.set_head(h);
	Seq<T, N + 1> r;
	for (size_t i = 0; i < h; i++)
		r.push_back(init[i]);
	vf_assert(b.count() == h, "set_head fixes the number of elements between put and get");
	for (size_t i = 0; i < N + 2; i++) {
		T x = mk<T>("x");
		b.put(x);
		r.push_back(x);
		T got;
		if constexpr (is_opt<B>) {
			auto o = b.get();
			vf_assert(o.has_value(), "a delayed element is available");
			got = o.value_or(T{});
		} else
			got = b.get();
		vf_assert(got == r.front(), "elements come out in order after the fixed delay, starting with the fill value");
		r.pop_front();
		vf_observe(ob(got));
	}
}
VF_HARNESS(cb_delay_u8) { delay<CircularBuffer<uint8_t, 4>, uint8_t, 4>(); }
VF_HARNESS(cb_delay_u32) { delay<CircularBuffer<uint32_t, 8>, uint32_t, 8>(); }
VF_HARNESS(cbopt_delay_u8) { delay<CircularBufferOpt<uint8_t, 4>, uint8_t, 4>(); }
VF_HARNESS(cbopt_delay_u32) { delay<CircularBufferOpt<uint32_t, 8>, uint32_t, 8>(); }

// more elements than a small counter holds: every fill level, overwriting, and draining from beyond the first lap
template<typename B, size_t N>
void big() {
	static B b;
	Big r;
	auto same = [&] {
		vf_assert(b.count() == r.held() && b.num_filled() == r.held(), "count is the number of elements held");
		vf_assert(b.empty() == (r.held() == 0) && b.full() == (r.held() == N), "empty and full agree with the contents");
		if constexpr (!is_opt<B>)
			if (r.held())
				vf_assert(b.first() == r.at(r.out) && b.peek(r.held() - 1) == r.at(r.in - 1) && b.peek(r.held() / 2) == r.at(r.out + r.held() / 2), "first and peek see the elements in order");
	};
	auto put = [&] {
		b.put(r.make());
		r.out += r.held() > N;
		same();
	};
	auto get = [&] {
		uint32_t x;
		if constexpr (is_opt<B>)
			x = b.get().value_or(0);
		else
			x = b.get();
		vf_assert(x == r.at(r.out++), "get returns the oldest element");
		same();
	};
	same();
	for (size_t i = 0; i < N / 2 + 9; i++)
		put();
	for (size_t i = 0; i < N / 2; i++)
		get();
	for (size_t i = 0; i < N + 3; i++)
		put();
	for (size_t i = 0; i < N; i++)
		get();
	vf_observe(r.seed);
}
VF_HARNESS(cb_big) { big<CircularBuffer<uint32_t, 512>, 512>(); }
VF_HARNESS(cbopt_big) { big<CircularBufferOpt<uint32_t, 512>, 512>(); }
// and more than 16 bits count
template<typename B, size_t N>
void huge() {
	static B b;
	uint32_t v = sym<uint32_t>("v"), x = sym<uint32_t>("x");
	vf_progress(2000000);
	b.fill_buffer(v);
	size_t h = sym_fork("at", 0, 1) ? N - 1 : 65536 + 3;
	b.set_head(h);
	vf_assert(b.count() == h && !b.empty() && !b.full(), "set_head fixes the number of elements held");
	b.put(x);
	vf_assert(b.count() == h + 1 && b.full() == (h + 1 == N), "put adds one element");
	if constexpr (is_opt<B>)
		vf_assert(b.get().value_or(~v) == v, "get returns the oldest element");
	else {
		vf_assert(b.get() == v, "get returns the oldest element");
		vf_assert(b.peek(h - 1) == x, "peek sees the newest element");
	}
	vf_assert(b.count() == h, "get removes one element");
	vf_observe(v);
}
VF_HARNESS(cb_huge) { huge<CircularBuffer<uint32_t, 131072>, 131072>(); }
VF_HARNESS(cbopt_huge) { huge<CircularBufferOpt<uint32_t, 131072>, 131072>(); }
