// New readings marked ready by one thread (or interrupt) and taken by another through FilteredInterpArray.
// vf-bound: two threads; arrays of 1 and 2 channels of 4-byte values (any value); up to 3 (quick) / 4 (thorough) markings and as many calls taking them, every interleaving and every execution the C++ memory model allows without cycles in program order and reads-from
// vf-assume: one thread marks and one takes; raw readings that change while they may be read are relaxed atomics
#include "vf.h"
#include <new>
#include "util/filtered_interp_array.hh"

template<typename T>
struct Pass {
	T last{};
	T add_val(T x) { return last = x; }
};

template<typename T, size_t N, int Tag>
struct S {
	static constexpr unsigned M = 4;
	using Q = FilteredInterpArray<N, Pass<T>, T>;
	alignas(Q) static inline unsigned char store[sizeof(Q)];
	static inline Q *q;
	static inline std::atomic<T> raw[N];
	static inline T plain[N];
	static inline T item[M][N];
	static inline unsigned marked, taken;
	static inline T seen[N];

	static void make() {
		q = new (store) Q;
		for (auto &m : item)
			for (auto &i : m)
				i = sym<T>("item");
	}
	static void mark(unsigned n) {
		for (unsigned k = 0; k < n; k++) {
			for (unsigned c = 0; c < N; c++)
				raw[c].store(item[k][c], std::memory_order_relaxed);
			q->mark_new_data_ready();
		}
		marked = n;
	}
	static bool take1() {
		unsigned n = 0;
		q->add_new_readings([&n](unsigned c) {
			vf_assert(c == n, "channels are read once each, in order");
			n++;
			return seen[c % N] = raw[c % N].load(std::memory_order_relaxed);
		});
		vf_assert(n == 0 || n == N, "all channels are read or none");
		return n;
	}
	static void take(unsigned n) {
		unsigned t = 0;
		for (unsigned k = 0; k < n; k++)
			t += take1();
		taken = t;
	}
	static void last() {
		bool more = take1();
		vf_assert(taken + more <= marked, "readings are taken at most once for each marking");
		vf_assert(taken + more >= 1, "marked readings are taken");
		for (unsigned c = 0; c < N; c++)
			vf_assert(seen[c] == item[marked - 1][c], "the readings marked last are not lost");
		vf_assert(!take1(), "nothing is taken when nothing was marked");
		q->set_num_updates(1);
		q->get_interp_values([](unsigned c, T v) { vf_assert(v == item[marked - 1][c % N], "the readings taken become the target"); });
	}
	// readings which stay while they may be read need not be atomic
	static void mark_plain() {
		for (unsigned c = 0; c < N; c++)
			plain[c] = item[0][c];
		q->mark_new_data_ready();
	}
	static void take_plain(unsigned n) {
		unsigned t = 0;
		for (unsigned k = 0; k < n; k++)
			q->add_new_readings([&t](unsigned c) {
				t++;
				vf_assert(plain[c % N] == item[0][c % N], "who takes readings sees what was there when they were marked");
				return plain[c % N];
			});
		taken = t;
	}
	static void last_plain() { vf_assert(taken == 0 || taken == N, "readings are taken at most once for each marking"); }
};

#define SCEN(name, ty, init, p, c, fin)                                                                                                      \
	extern "C" void vfi_##name() { using s = ty; init; }                                                                                 \
	extern "C" void vft_##name##_0() { using s = ty; p; }                                                                                \
	extern "C" void vft_##name##_1() { using s = ty; c; }                                                                                \
	extern "C" void vff_##name() { using s = ty; fin; }
#define _ ,
#define U32 uint32_t

// vf-scenarios: quick
SCEN(one, S<U32 _ 1 _ 0>, s::make(), s::mark(1), s::take(2), s::last())
SCEN(two, S<U32 _ 1 _ 1>, s::make(), s::mark(2), s::take(2), s::last())
SCEN(two_2ch, S<U32 _ 2 _ 0>, s::make(), s::mark(2), s::take(2), s::last())
SCEN(three, S<U32 _ 1 _ 2>, s::make(), s::mark(3), s::take(3), s::last())
SCEN(plain, S<U32 _ 1 _ 3>, s::make(), s::mark_plain(), s::take_plain(2), s::last_plain())
SCEN(plain_2ch, S<U32 _ 2 _ 3>, s::make(), s::mark_plain(), s::take_plain(3), s::last_plain())
// vf-scenarios: thorough
SCEN(t_four, S<U32 _ 1 _ 4>, s::make(), s::mark(4), s::take(4), s::last())
SCEN(t_three_2ch, S<U32 _ 2 _ 4>, s::make(), s::mark(3), s::take(3), s::last())
