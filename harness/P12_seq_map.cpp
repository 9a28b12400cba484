// SeqMap against a list of slots, keys and values arbitrary.
// vf-bound: MaxSize 1, 2 and 3; every fill by insert/overwrite, then 2 (quick) / 3 (thorough) arbitrary operations with any keys (equal or not) and values, integers and a class that tracks its own address and moves; one history evicting 263 times from a map of 260
#include "big.h"
#include "ref.h"
#include "util/seq_map.hh"

template<typename K, typename V, size_t N>
struct Model {
	K k[N]{};
	V v[N]{};
	size_t n = 0, oldest = 0;
	// index of the first slot with this key, or n; forks on key equality
	size_t find(K key) {
		for (size_t i = 0; i < n; i++)
			if (k[i] == key)
				return i;
		return n;
	}
};

template<typename K, typename V, size_t N>
void history(int steps) {
	SeqMap<K, V, N> m;
	Model<K, V, N> r;
	size_t pre = sym_fork("pre", 0, N);
	for (int s = -(int)pre; s < steps; s++) {
		int op = s < 0 ? 0 : (int)sym_fork("op", 0, 5);
		K key = sym<K>("key");
		V val = mk<V>("val");
		switch (op) {
			case 0: {
				bool ok = m.insert(key, val);
				vf_assert(ok == (r.n < N), "insert succeeds exactly when there is room");
				if (r.n < N) {
					r.k[r.n] = key;
					r.v[r.n++] = val;
				}
				break;
			}
			case 1: {
				V *p = m.overwrite(key, val);
				size_t i = r.find(key);
				if (i < r.n)
					r.v[i] = val;
				else if (r.n < N) {
					i = r.n++;
					r.k[i] = key;
					r.v[i] = val;
				} else {
					i = r.oldest;
					r.oldest = (r.oldest + 1) % N;
					r.k[i] = key;
					r.v[i] = val;
				}
				vf_assert(p != nullptr && p == m.get(key), "overwrite returns where the key's value is stored");
				vf_assert(*p == val, "overwrite stores the value");
				break;
			}
			case 2: {
				V *p = m.get(key);
				size_t i = r.find(key);
				vf_assert((p != nullptr) == (i < r.n), "get finds exactly the keys that were stored");
				if (p && i < r.n) {
					vf_assert(*p == r.v[i], "get finds the key's value");
					*p = val;
					r.v[i] = val;
				}
				break;
			}
			case 3:
				m.remove_last();
				if (r.n)
					r.n--;
				break;
			case 4: {
				bool ok = m.remove(key);
				size_t i = r.find(key);
				vf_assert(ok == (i < r.n), "remove reports whether the key was there");
				if (i < r.n) {
					r.k[i] = K{};
					r.v[i] = V{};
				}
				break;
			}
			case 5:
				vf_assert(m.key_exists(key) == (r.find(key) < r.n), "key_exists is true for exactly the stored keys");
				break;
		}
		for (size_t i = r.n; i < N; i++) {
			r.k[i] = K{};
			r.v[i] = V{};
		}
		vf_assert(m.size() == r.n, "size is the number of slots in use");
		// every stored slot is still found under its key, with the value of the first slot holding that key
		if (s >= 0) {
			for (size_t i = 0; i < r.n; i++) {
				V *p = m.get(r.k[i]);
				size_t j = r.find(r.k[i]);
				vf_assert(p != nullptr, "stored keys are found");
				if (p)
					vf_assert(*p == r.v[j], "stored keys keep their values");
			}
			vf_merge(s);
		}
		vf_observe(m.size());
	}
	vf_reach("end");
}
VF_HARNESS(sm_u8_u32_3) { history<uint8_t, uint32_t, 3>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(sm_u8_own_2) { history<uint8_t, Own, 2>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(sm_u32_u8_2) { history<uint32_t, uint8_t, 2>(VF_THOROUGH ? 4 : 3); }
VF_HARNESS(sm_int_u16_1) { history<int, uint16_t, 1>(VF_THOROUGH ? 5 : 3); }

// round robin: on a full map, new keys replace the slots one after the other, oldest first
VF_HARNESS(sm_roundrobin) {
	SeqMap<uint8_t, uint16_t, 3> m;
	uint8_t k[7];
	uint16_t v[7];
	for (int i = 0; i < 7; i++) {
		k[i] = sym<uint8_t>("k");
		v[i] = sym<uint16_t>("v");
		for (int j = 0; j < i; j++)
			vf_assume(k[i] != k[j]);
	}
	for (int i = 0; i < 7; i++) {
		auto *p = m.overwrite(k[i], v[i]);
		vf_assert(p && *p == v[i], "overwrite stores the value");
		for (int j = 0; j <= i; j++) {
			auto *q = m.get(k[j]);
			vf_assert((q != nullptr) == (j > i - 3), "exactly the newest MaxSize keys are kept");
			if (q)
				vf_assert(*q == v[j], "kept keys keep their values");
		}
	}
}

// more slots than a small counter holds
VF_HARNESS(map_big) {
	constexpr size_t N = 260;
	static SeqMap<uint16_t, uint32_t, N> m;
	Big r;
	vf_progress(10000000);
	for (size_t i = 0; i < N; i++) {
		vf_assert(m.size() == i, "size is the number of slots in use");
		vf_assert(m.insert((uint16_t)i, r.make()), "insert succeeds exactly when there is room");
	}
	vf_assert(m.size() == N && !m.insert(9999, 0), "insert succeeds exactly when there is room");
	// evict everything, oldest first, and a few of the new ones
	for (size_t i = 0; i < N + 3; i++) {
		uint32_t *p = m.overwrite((uint16_t)(1000 + i), r.make());
		vf_assert(p && *p == r.at(N + i), "overwrite stores the value");
		vf_assert(m.size() == N, "a full map stays full");
		vf_assert(!m.key_exists((uint16_t)(i < N ? i : 1000 + i - N)), "the oldest key makes room");
		uint16_t next = (uint16_t)(i + 1 < N ? i + 1 : 1000 + i + 1 - N);
		if (i % 50 == 0 || i > N - 6) {
			uint32_t *q = m.get(next);
			vf_assert(q && *q == r.at(next < 1000 ? next : next - 1000 + N), "every other key keeps its value");
		}
	}
	vf_assert(m.get((uint16_t)(1000 + N - 1)) && *m.get((uint16_t)(1000 + N - 1)) == r.at(2 * N - 1), "every other key keeps its value");
	vf_observe(r.seed);
}
