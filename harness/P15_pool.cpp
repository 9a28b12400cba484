// ThreadSafePool from one thread: hands out the first free index, and destroys what is in use, once.
// vf-bound: pools of 1, 2 and 3 entries; histories of 5 (quick) / 7 (thorough) arbitrary create / destroy / write / clear calls; destroy and is_used are given every 64-bit index; one history of 600 entries
#include "vf.h"
#include "util/thread_safe_pool.hh"

template<typename T, size_t N>
static void history(int steps) {
	cpputil::ThreadSafePool<T, N> p;
	const auto &cp = p;
	bool used[N]{}, known[N]{}; // a new pool's entries hold no value yet
	T val[N]{};
	vf_assert(p.size() == N, "size is the capacity");
	for (int s = 0; s < steps; s++) {
		switch (sym_fork("op", 0, 4)) {
			case 0: {
				size_t first = 0;
				while (first < N && used[first])
					first++;
				auto i = p.create();
				vf_assert(i.has_value() == (first < N), "create succeeds exactly while an entry is free");
				if (i) {
					vf_assert(*i == first, "create hands out the first free entry");
					used[first] = true;
				}
				break;
			}
			case 1: {
				size_t idx = sym_fork("idx", 0, N);
				if (idx == N) {
					idx = sym<size_t>("far");
					vf_assume(idx >= N);
					vf_assert(!p.destroy(idx), "an index outside the pool is not destroyed");
					vf_assert(!p.is_used(idx), "an index outside the pool is not in use");
				} else {
					vf_assert(p.destroy(idx) == used[idx], "destroy tells whether the entry was in use");
					used[idx] = false;
				}
				break;
			}
			case 2: {
				size_t idx = sym_fork("at", 0, N - 1);
				val[idx] = sym<T>("v");
				p[idx] = val[idx];
				known[idx] = true;
				break;
			}
			case 3: {
				p.clear();
				for (size_t i = 0; i < N; i++) {
					used[i] = false;
					val[i] = T{};
					known[i] = true;
				}
				break;
			}
			default:
				break;
		}
		for (size_t i = 0; i < N; i++) {
			vf_assert(p.is_used(i) == used[i], "is_used tells which entries are handed out");
			if (used[i] && known[i])
				vf_assert(cp[i] == val[i], "an entry in use keeps its value");
		}
		vf_merge(s + 1);
	}
}

#if VF_THOROUGH
#define STEPS 7
#else
#define STEPS 5
#endif
VF_HARNESS(one) { history<uint32_t, 1>(STEPS); }
VF_HARNESS(two) { history<uint8_t, 2>(STEPS); }
VF_HARNESS(three) { history<uint32_t, 3>(STEPS); }

// more entries than 8 bits count
VF_HARNESS(big) {
	vf_progress(100000000);
	constexpr size_t N = 600;
	static cpputil::ThreadSafePool<uint32_t, N> p;
	uint32_t v = sym<uint32_t>("v");
	bool order = true, one = true;
	for (size_t i = 0; i < N; i++) {
		auto c = p.create();
		order = order && c.has_value() && *c == i;
		p[i] = v ^ (uint32_t)i;
		one = one && p.is_used(i) && (i + 1 >= N || !p.is_used(i + 1));
	}
	vf_assert(order, "create hands out the first free entry");
	vf_assert(one, "is_used tells which entries are handed out");
	vf_assert(!p.create().has_value(), "create succeeds exactly while an entry is free");
	const size_t idx[] = {44, 255, 256, 300, N - 1};
	size_t a = idx[sym_fork("a", 0, 4)], b = idx[sym_fork("b", 0, 4)];
	vf_assume(a != b);
	vf_assert(p.destroy(a) && p.destroy(b) && !p.destroy(a), "destroy tells whether the entry was in use");
	vf_assert(!p.destroy(N) && !p.destroy(N + 256), "an index outside the pool is not destroyed");
	bool rest = true, kept = true;
	for (size_t i = 0; i < N; i++) {
		rest = rest && p.is_used(i) == (i != a && i != b);
		if (i != a && i != b)
			kept = kept & (p[i] == (v ^ (uint32_t)i));
	}
	vf_assert(rest, "is_used tells which entries are handed out");
	vf_assert(kept, "an entry in use keeps its value");
	auto c = p.create(), d = p.create(), e = p.create();
	vf_assert(c && *c == (a < b ? a : b) && d && *d == (a < b ? b : a) && !e, "create hands out the first free entry");
	p.clear();
	rest = true;
	for (size_t i = 0; i < N; i++)
		rest = rest && !p.is_used(i);
	vf_assert(rest, "clear frees every entry");
	vf_observe(a);
}
