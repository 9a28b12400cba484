// CircularStack against a bounded stack that loses its bottom element when full.
// vf-bound: capacities 1, 3, 4 and 5; elements of 1, 4 and 12 bytes and of a class that tracks its own address and moves; every fill and rotation of the storage, then 3 (quick) / 5 (thorough) arbitrary operations; one history through every fill of 300 elements of any value
#include "big.h"
#include "ref.h"
#include "util/circular_stack.hh"

template<typename T, size_t N>
void same(CircularStack<T, (int)N> &b, Seq<T, N> &r) {
	vf_assert(b.size() == r.n, "size is the number of elements held");
	vf_assert(b.empty() == (r.n == 0), "empty exactly when nothing is held");
	vf_assert(b.max_size() == N, "capacity is constant");
	auto t = b.back();
	vf_assert(t.has_value() == (r.n > 0), "back yields a value exactly when one is held");
	if (r.n && t.has_value()) {
		vf_assert(*t == r.back(), "back is the newest element");
		vf_observe(ob(*t));
	}
	vf_observe(b.size());
}

template<typename T, size_t N>
void push(CircularStack<T, (int)N> &b, Seq<T, N> &r, const char *n) {
	T x = mk<T>(n);
	b.push_back(x);
	if (r.n == N)
		r.erase(0);
	r.push_back(x);
}

template<typename T, size_t N>
void pop(CircularStack<T, (int)N> &b, Seq<T, N> &r) {
	auto t = b.pop_back();
	vf_assert(t.has_value() == (r.n > 0), "pop_back yields a value exactly when one is held");
	if (r.n) {
		if (t.has_value())
			vf_assert(*t == r.back(), "pop_back removes the newest element");
		r.pop_back();
	}
}

template<typename T, size_t N>
void history(int steps) {
	CircularStack<T, (int)N> b;
	Seq<T, N> r;
	same(b, r);
	// any number of pushes (up to twice around), then any number of pops
	size_t pushes = sym_fork("pushes", 0, 2 * N + 1), pops = sym_fork("pops", 0, N);
	for (size_t i = 0; i < pushes; i++)
		push(b, r, "p");
	for (size_t i = 0; i < pops; i++)
		pop(b, r);
	same(b, r);
	vf_merge(0);
	for (int s = 0; s < steps; s++) {
		switch (sym_fork("op", 0, 3)) {
			case 0:
				push(b, r, "x");
				break;
			case 1:
				pop(b, r);
				break;
			case 2: {
				T x = b.pop_back_or_zero();
				vf_assert(x == (r.n ? r.back() : T{}), "pop_back_or_zero removes the newest element, or returns a default when empty");
				if (r.n)
					r.pop_back();
				break;
			}
			case 3:
				b.clear();
				r.clear();
				break;
		}
		same(b, r);
		vf_merge(s + 1);
	}
	for (int i = 0; i <= N; i++)
		pop(b, r);
	same(b, r);
}
VF_HARNESS(cs_u8_4) { history<uint8_t, 4>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(cs_u32_3) { history<uint32_t, 3>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(cs_wide_5) { history<Wide, 5>(VF_THOROUGH ? 4 : 3); }
VF_HARNESS(cs_own_3) { history<Own, 3>(VF_THOROUGH ? 4 : 3); }
VF_HARNESS(cs_u32_1) { history<uint32_t, 1>(4); }

// more elements than a small counter holds
VF_HARNESS(cs_big) {
	constexpr size_t N = 300;
	CircularStack<uint32_t, N> b;
	Big r;
	// values are numbered by push; after a pop the next push repeats the number
	auto push = [&] {
		b.push_back(r.make());
		r.out += r.held() > N;
		vf_assert(b.size() == r.held() && !b.empty(), "size is the number of elements held");
		vf_assert(b.back().value_or(~r.at(r.in - 1)) == r.at(r.in - 1), "back is the newest element");
	};
	auto pop = [&] {
		r.in--;
		vf_assert(b.pop_back().value_or(~r.at(r.in)) == r.at(r.in), "pop_back removes the newest element");
		vf_assert(b.size() == r.held() && b.empty() == (r.held() == 0), "size is the number of elements held");
	};
	for (size_t i = 0; i < N + 140; i++)
		push();
	for (size_t i = 0; i < N - 3; i++)
		pop();
	for (size_t i = 0; i < N; i++)
		push();
	for (size_t i = 0; i < N; i++)
		pop();
	vf_observe(r.seed);
}
