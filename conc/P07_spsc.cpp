// The lock-free FIFOs used by a producer thread and a consumer thread.
// vf-bound: two threads; queues of 1, 2 and 4 (fixed) and 1, 2 and 3 (dynamic) elements of 4 and 8 bytes of any value; the counters start at 0, anywhere (size 2) or at the wrap, with 0-2 elements held; up to 3 (quick) / 4 (thorough) operations of each thread, every interleaving and every execution the C++ memory model (release/acquire, relaxed, seq_cst) allows without cycles in program order and reads-from
// vf-assume: reset() is called by the consumer; set_read_pos, set_write_pos, set_read_offset, resize and the constructors run before the threads start
#include "vf.h"
#include <new>
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

struct Pair {
	uint32_t a, b;
	bool operator==(const Pair &o) const { return vf_and(a == o.a, b == o.b); }
};

template<typename T>
static T mk(const char *n) {
	if constexpr (std::is_same_v<T, Pair>)
		return {sym<uint32_t>(n), sym<uint32_t>(n)};
	else
		return sym<T>(n);
}

// One scenario: a queue, the items the producer puts in order, and what each side has done.
template<typename Q, typename T, int Tag>
struct S {
	static constexpr unsigned N = 4;
	alignas(Q) static inline unsigned char store[sizeof(Q)];
	static inline Q *q;
	static inline T item[N];
	static inline unsigned accepted, popped;

	template<typename... A>
	static void make(A... a) {
		q = new (store) Q(a...);
		for (auto &i : item)
			i = mk<T>("item");
	}
	static void at(size_t pos) {
		q->set_write_pos(pos);
		q->set_read_pos(pos);
	}
	// start with k items in the queue
	static void prefill(unsigned k) {
		for (unsigned i = 0; i < k; i++)
			q->put(item[i]);
		accepted = k;
	}
	// put the items in order, trying again what was refused
	static void produce(int tries, unsigned upto = N) {
		unsigned i = accepted;
		for (int t = 0; t < tries; t++)
			if (i < upto && q->put(item[i]))
				i++;
		accepted = i;
	}
	static void produce_room(int tries) {
		unsigned i = accepted;
		for (int t = 0; t < tries; t++)
			if (i < N) {
				size_t room = q->num_free();
				vf_assert(room <= q->max_size(), "the room the producer sees is at most the capacity");
				bool ok = q->put(item[i]);
				vf_assert(ok || room == 0, "put succeeds when the producer has seen room");
				if (ok)
					i++;
			}
		accepted = i;
	}
	static void produce_full(int tries) {
		unsigned i = accepted;
		for (int t = 0; t < tries; t++)
			if (i < N) {
				bool full = q->full();
				bool ok = q->put(item[i]);
				vf_assert(ok || full, "put succeeds when the producer has seen the queue not full");
				if (ok)
					i++;
			}
		accepted = i;
	}
	static void got(unsigned &n, const T &x) {
		vf_assert(n < N && x == item[n], "elements come out once each, whole, in the order put");
		n++;
	}
	static void consume(int tries, unsigned n0 = 0) {
		unsigned n = n0;
		for (int t = 0; t < tries; t++)
			if (auto x = q->get())
				got(n, *x);
		popped = n;
	}
	static void consume_move(int tries) {
		unsigned n = 0;
		for (int t = 0; t < tries; t++) {
			T x{};
			if (q->get_move(x))
				got(n, x);
		}
		popped = n;
	}
	static void consume_seen(int tries) {
		unsigned n = 0;
		for (int t = 0; t < tries; t++) {
			size_t have = q->num_filled();
			vf_assert(have <= q->max_size(), "the count the consumer sees is at most the capacity");
			auto x = q->get();
			vf_assert(x.has_value() || have == 0, "get succeeds when the consumer has seen an element");
			if (x)
				got(n, *x);
		}
		popped = n;
	}
	static void consume_empty(int tries) {
		unsigned n = 0;
		for (int t = 0; t < tries; t++)
			if (!q->empty())
				got(n, q->get_or_default());
		popped = n;
	}
	// drop the first, take the next
	static void consume_drop(int tries) {
		unsigned n = 0;
		for (int t = 0; t < tries; t++) {
			if (t % 2 == 0) {
				if (!q->empty()) {
					q->remove_first();
					n++;
				}
			} else if (auto x = q->get())
				got(n, *x);
		}
		popped = n;
	}
	// take one, discard whatever is there, take what comes later
	static void consume_reset() {
		unsigned n = 0;
		if (auto x = q->get())
			got(n, *x);
		q->reset();
		if (auto x = q->get()) {
			bool any = false;
			for (unsigned k = n; k < N; k++)
				any = vf_or(any, *x == item[k]);
			vf_assert(any, "after a reset the consumer still gets elements that were put, whole");
		}
	}
	// after both: the rest is there, in order, and the room is what is left
	static void rest() {
		vf_assert(q->num_filled() == accepted - popped, "no element is lost or invented");
		unsigned n = popped;
		vf_assert(q->full() == (accepted - popped == q->max_size()), "full agrees with the elements held");
		for (unsigned i = popped; i < accepted; i++) {
			auto x = q->get();
			vf_assert(x.has_value(), "an element that was accepted can be taken");
			if (x)
				got(n, *x);
		}
		vf_assert(!q->get().has_value(), "nothing is left after the accepted elements");
	}
	static void nop() {}
};

#define SCEN(name, ty, init, p, c, fin)                                                                                                      \
	extern "C" void vfi_##name() { using s = ty; init; }                                                                                 \
	extern "C" void vft_##name##_0() { using s = ty; p; }                                                                                \
	extern "C" void vft_##name##_1() { using s = ty; c; }                                                                                \
	extern "C" void vff_##name() { using s = ty; fin; }

template<typename T, size_t N, int Tag>
using F = S<LockFreeFifoSpsc<T, N>, T, Tag>;
template<typename T, int Tag>
using D = S<LockFreeFifoSpscDyn<T>, T, Tag>;
#define U32 uint32_t
#define _ ,

// vf-scenarios: quick
SCEN(fix1, F<U32 _ 1 _ 0>, s::make(), s::produce(3), s::consume(3), s::rest())
SCEN(fix2_pair, F<Pair _ 2 _ 0>, s::make(), s::produce(3), s::consume(3), s::rest())
SCEN(fix2_wrap, F<U32 _ 2 _ 1>, s::make(); s::at(SIZE_MAX), s::produce_full(3), s::consume_empty(3), s::rest())
SCEN(fix2_any, F<U32 _ 2 _ 2>, s::make(); s::at(sym<size_t>("pos")), s::produce(2), s::consume(2), s::rest())
SCEN(fix2_room, F<U32 _ 2 _ 3>, s::make(); s::prefill(1), s::produce_room(3), s::consume_seen(3), s::rest())
SCEN(fix2_drop, F<U32 _ 2 _ 4>, s::make(); s::prefill(2), s::produce(2), s::consume_drop(3), s::rest())
SCEN(fix1_move, F<Pair _ 1 _ 1>, s::make(); s::prefill(1), s::produce(3), s::consume_move(3), s::rest())
SCEN(fix2_reset, F<U32 _ 2 _ 5>, s::make(); s::prefill(1), s::produce(3), s::consume_reset(), s::nop())
SCEN(fix4, F<U32 _ 4 _ 0>, s::make(); s::at(2); s::prefill(1), s::produce(3), s::consume(3), s::rest())
SCEN(dyn1, D<U32 _ 0>, s::make(1), s::produce(3), s::consume(3), s::rest())
SCEN(dyn2_pair, D<Pair _ 0>, s::make(2), s::produce(3), s::consume(3), s::rest())
SCEN(dyn2_wrap, D<U32 _ 1>, s::make(2); s::at(SIZE_MAX), s::produce_full(3), s::consume_empty(3), s::rest())
SCEN(dyn3_room, D<U32 _ 2>, s::make(3); s::prefill(2), s::produce_room(3), s::consume_seen(3), s::rest())
SCEN(dyn2_drop, D<U32 _ 3>, s::make(2); s::prefill(2), s::produce(2), s::consume_drop(3), s::rest())
SCEN(dyn1_move, D<Pair _ 1>, s::make(1); s::prefill(1), s::produce(3), s::consume_move(3), s::rest())
SCEN(dyn2_reset, D<U32 _ 4>, s::make(2); s::prefill(1), s::produce(3), s::consume_reset(), s::nop())
// vf-scenarios: thorough
SCEN(t_fix2, F<U32 _ 2 _ 6>, s::make(), s::produce(4), s::consume(4), s::rest())
SCEN(t_fix1, F<U32 _ 1 _ 2>, s::make(), s::produce(4), s::consume(4), s::rest())
SCEN(t_dyn3, D<U32 _ 5>, s::make(3), s::produce(4), s::consume(4), s::rest())
SCEN(t_fix2_any, F<U32 _ 2 _ 7>, s::make(); s::at(sym<size_t>("pos")), s::produce(3), s::consume(3), s::rest())
