// Pool: live objects are distinct, at most MaxEntries, and only live objects can be destroyed.
// vf-bound: pools of 1, 3 and 4 entries; histories of 5 (quick) / 7 (thorough) arbitrary create / create_for_overwrite / destroy calls, with destroy given any entry, null, or a foreign pointer; 300 entries all live
#include "big.h"
#include "vf.h"
#include "util/pool.hh"

struct Thing {
	uint32_t v = 0xABCD;
	uint8_t tag = 7;
};

template<typename T, size_t N>
void history(int steps, T dflt, T (*mkv)()) {
	cpputil::Pool<T, N> p;
	T *ptr[N]{}; // live objects, in no particular order
	T val[N]{};
	bool live[N]{};
	T foreign{};
	T *last_freed = nullptr;
	size_t n = 0;
	for (int s = 0; s < steps; s++) {
		uint64_t op = sym_fork("op", 0, 4);
		if (op <= 1) {
			T *q = op ? p.create_for_overwrite() : p.create();
			vf_assert((q != nullptr) == (n < N), "creation succeeds exactly while fewer than MaxEntries objects are live");
			if (q) {
				bool distinct = true;
				for (size_t i = 0; i < N; i++)
					if (live[i] && ptr[i] == q)
						distinct = false;
				vf_assert(distinct, "a new object does not share storage with a live one");
				if (op == 0)
					vf_assert(__builtin_memcmp(q, &dflt, 1) == 0 && *q == dflt, "create yields a default-constructed object");
				*q = mkv();
				for (size_t i = 0; i < N; i++)
					if (!live[i]) {
						live[i] = true;
						ptr[i] = q;
						val[i] = *q;
						break;
					}
				n++;
			}
		} else if (op == 2) {
			size_t i = sym_fork("which", 0, N - 1);
			if (live[i]) {
				vf_assert(p.destroy(ptr[i]), "a live object can be destroyed");
				last_freed = ptr[i];
				live[i] = false;
				n--;
			}
		} else if (op == 3) {
			vf_assert(!p.destroy(nullptr), "null is not an object of the pool");
			vf_assert(!p.destroy(&foreign), "a foreign pointer is not an object of the pool");
		} else if (last_freed) {
			bool is_live = false;
			for (size_t i = 0; i < N; i++)
				if (live[i] && ptr[i] == last_freed)
					is_live = true;
			if (!is_live)
				vf_assert(!p.destroy(last_freed), "an object that is not live cannot be destroyed again");
		}
		bool kept = true;
		for (size_t i = 0; i < N; i++)
			if (live[i])
				kept = kept & (*ptr[i] == val[i]);
		vf_assert(kept, "live objects keep their contents");
		vf_observe(n);
		for (size_t i = 0; i < N; i++)
			if (!live[i]) {
				ptr[i] = nullptr;
				val[i] = T{};
			}
		vf_merge(s);
	}
	vf_reach("end");
}
inline bool operator==(const Thing &a, const Thing &b) {
	return (a.v == b.v) & (a.tag == b.tag);
}
VF_HARNESS(pool_thing_3) {
	history<Thing, 3>(VF_THOROUGH ? 8 : 6, Thing{}, [] { return Thing{sym<uint32_t>("v"), 1}; });
}
VF_HARNESS(pool_u8_4) {
	history<uint8_t, 4>(VF_THOROUGH ? 9 : 7, 0, [] { return sym<uint8_t>("v"); });
}
VF_HARNESS(pool_u32_1) {
	history<uint32_t, 1>(VF_THOROUGH ? 7 : 5, 0, [] { return sym<uint32_t>("v"); });
}

// more entries than a small counter holds
VF_HARNESS(pool_big) {
	constexpr size_t N = 300;
	static cpputil::Pool<uint32_t, N> p;
	Big r;
	vf_progress(10000000);
	uint32_t *at[N];
	for (size_t i = 0; i < N; i++) {
		at[i] = i & 1 ? p.create() : p.create_for_overwrite();
		vf_assert(at[i] != nullptr, "creation succeeds while fewer than MaxEntries objects are live");
		*at[i] = r.make();
	}
	vf_assert(!p.create() && !p.create_for_overwrite(), "creation fails when MaxEntries objects are live");
	bool eq = true;
	for (size_t i = 0; i < N; i++)
		eq = vf_and(eq, *at[i] == r.at(i));
	vf_assert(eq, "live objects do not share storage");
	for (size_t i : {size_t(299), size_t(256), size_t(44), size_t(0)}) {
		vf_assert(p.destroy(at[i]) && !p.destroy(at[i]), "a live object is destroyed once");
		vf_assert(p.create() == at[i] && *at[i] == 0 && !p.create(), "its entry, and no other, can be used again");
	}
	vf_observe(r.seed);
}
