// ThreadSafePool used by two and three threads.
// vf-bound: two threads (three in two scenarios); pools of 1, 2 and 3 entries of 4 and 8 bytes of any value; one or two create-use-destroy rounds of each thread (three in the thorough tier), every interleaving and every execution the C++ memory model (release/acquire, relaxed, seq_cst) allows without cycles in program order and reads-from
// vf-assume: that create succeeds while there is room is asked of interleavings; the other assertions of weaker executions too
// vf-assume: clear() does not run at the same time as another operation
#include "vf.h"
#include <new>
#include "util/thread_safe_pool.hh"

struct Pair {
	uint32_t a, b;
	bool operator==(const Pair &o) const { return vf_and(a == o.a, b == o.b); }
};

template<typename T>
static T mk(const char *n) {
	if constexpr (std::is_same_v<T, Pair>)
		return {sym<uint32_t>(n), sym<uint32_t>(n)};
	else
		return sym<T>(n);
}

template<typename T, size_t N, int Tag>
struct S {
	using Q = cpputil::ThreadSafePool<T, N>;
	alignas(Q) static inline unsigned char store[sizeof(Q)];
	static inline Q *q;
	static inline T v[3];
	static inline unsigned slot[3]; // what each thread still holds, N if nothing
	static inline unsigned count[3];

	static void make() {
		q = new (store) Q();
		for (auto &i : v)
			i = mk<T>("v");
		for (auto &i : slot)
			i = N;
	}
	// slot 0 in use, holding v[0]
	static void make_used() {
		make();
		auto i = q->create();
		vf_assume(i.has_value() && *i == 0);
		(*q)[0] = v[0];
	}
	// create, use, destroy; room says whether there must be an entry for this thread
	static void rounds(unsigned me, int n, bool room) {
		for (int k = 0; k < n; k++) {
			auto i = q->create();
			vf_assert(i.has_value() || !room, "~create succeeds while fewer entries than the capacity can be in use");
			if (!i)
				continue;
			vf_assert(*i < N, "an index is inside the pool");
			if (*i >= N)
				continue;
			(*q)[*i] = v[me];
			vf_assert(q->is_used(*i), "an entry stays in use until it is destroyed");
			vf_assert((*q)[*i] == v[me], "an entry belongs to the thread that created it until it is destroyed");
			vf_assert(q->destroy(*i), "the owner's destroy succeeds");
		}
	}
	static void all_free() {
		for (size_t i = 0; i < N; i++)
			vf_assert(!q->is_used(i), "every entry is free again after its destruction");
	}
	static void hold(unsigned me, int n) {
		unsigned c = 0;
		for (int k = 0; k < n; k++)
			if (auto i = q->create()) {
				(*q)[*i] = v[me];
				slot[me] = (unsigned)*i;
				c++;
			}
		count[me] = c;
	}
	static void held(unsigned attempts) {
		unsigned c = count[0] + count[1] + count[2];
		vf_assert(c == (attempts < N ? attempts : N), "exactly as many creations succeed as there are entries");
		for (unsigned a = 0; a < 3; a++) {
			if (slot[a] == N)
				continue;
			vf_assert(q->is_used(slot[a]), "what a thread created is in use");
			vf_assert((*q)[slot[a]] == v[a], "threads hold different entries");
			for (unsigned b = 0; b < a; b++)
				vf_assert(slot[a] != slot[b], "no entry is handed out twice");
		}
	}
	static void destroy0(unsigned me) { count[me] = q->destroy(0); }
	static void once() {
		vf_assert(count[0] + count[1] + count[2] == 1, "one entry is destroyed once");
		vf_assert(!q->is_used(0), "a destroyed entry is not in use");
	}
	static void give_up() {
		vf_assert((*q)[0] == v[0], "an entry keeps its value until it is destroyed");
		count[0] = q->destroy(0);
	}
	static void take_over() {
		if (auto i = q->create()) {
			(*q)[*i] = v[1];
			slot[1] = (unsigned)*i;
		}
	}
	static void taken() {
		vf_assert(count[0] == 1, "the owner's destroy succeeds");
		if (slot[1] != N)
			vf_assert((*q)[slot[1]] == v[1], "an entry belongs to the thread that created it until it is destroyed");
	}
	static void write_and_give_up() {
		(*q)[0] = v[1];
		q->destroy(0);
	}
	static void look() {
		if (!q->is_used(0))
			vf_assert((*q)[0] == v[1], "who sees an entry free sees what its owner left there");
	}
	static void nop() {}
};

#define SCEN(name, ty, init, p, c, fin)                                                                                                      \
	extern "C" void vfi_##name() { using s = ty; init; }                                                                                 \
	extern "C" void vft_##name##_0() { using s = ty; p; }                                                                                \
	extern "C" void vft_##name##_1() { using s = ty; c; }                                                                                \
	extern "C" void vff_##name() { using s = ty; fin; }
#define SCEN3(name, ty, init, p, c, d, fin)                                                                                                  \
	extern "C" void vfi_##name() { using s = ty; init; }                                                                                 \
	extern "C" void vft_##name##_0() { using s = ty; p; }                                                                                \
	extern "C" void vft_##name##_1() { using s = ty; c; }                                                                                \
	extern "C" void vft_##name##_2() { using s = ty; d; }                                                                                \
	extern "C" void vff_##name() { using s = ty; fin; }
#define _ ,
#define U32 uint32_t

// vf-scenarios: quick
SCEN(excl_1, S<U32 _ 1 _ 0>, s::make(), s::rounds(0, 2, false), s::rounds(1, 2, false), s::all_free())
SCEN(excl_2, S<Pair _ 2 _ 0>, s::make(), s::rounds(0, 2, true), s::rounds(1, 2, true), s::all_free())
SCEN3(excl_2_3, S<U32 _ 2 _ 1>, s::make(), s::rounds(0, 1, false), s::rounds(1, 1, false), s::rounds(2, 1, false), s::all_free())
SCEN3(excl_3_3, S<U32 _ 3 _ 0>, s::make(), s::rounds(0, 1, true), s::rounds(1, 1, true), s::rounds(2, 1, true), s::all_free())
SCEN(hold_2, S<U32 _ 2 _ 2>, s::make(), s::hold(0, 1), s::hold(1, 1), s::held(2))
SCEN(hold_1, S<U32 _ 1 _ 1>, s::make(), s::hold(0, 1), s::hold(1, 2), s::held(3))
SCEN3(hold_3, S<Pair _ 3 _ 1>, s::make(), s::hold(0, 1), s::hold(1, 1), s::hold(2, 1), s::held(3))
SCEN(destroy_once, S<U32 _ 1 _ 2>, s::make_used(), s::destroy0(0), s::destroy0(1), s::once())
SCEN3(destroy_once3, S<U32 _ 2 _ 3>, s::make_used(), s::destroy0(0), s::destroy0(1), s::destroy0(2), s::once())
SCEN(handover, S<Pair _ 1 _ 3>, s::make_used(), s::give_up(), s::take_over(), s::taken())
SCEN(handover2, S<U32 _ 2 _ 4>, s::make_used(), s::give_up(), s::take_over(), s::taken())
SCEN(seen_free, S<Pair _ 1 _ 4>, s::make_used(), s::write_and_give_up(), s::look(), s::nop())
// vf-scenarios: thorough
SCEN(t_excl_1, S<U32 _ 1 _ 5>, s::make(), s::rounds(0, 3, false), s::rounds(1, 3, false), s::all_free())
SCEN(t_excl_2, S<U32 _ 2 _ 5>, s::make(), s::rounds(0, 3, true), s::rounds(1, 3, true), s::all_free())
SCEN3(t_excl_3, S<U32 _ 3 _ 5>, s::make(), s::rounds(0, 2, true), s::rounds(1, 1, true), s::rounds(2, 1, true), s::all_free())
