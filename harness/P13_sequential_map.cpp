// SequentialMap against an ordered list of unique keys.
// vf-bound: N 1, 2, 3; every fill, then 2 (quick) / 3 (thorough) arbitrary operations with any keys (equal or not) and values, integers and a class that tracks its own address and moves
#include "ref.h"
#include <utility>
#include "util/sequential_map.hh"

template<typename K, typename V, size_t N>
void history(int steps) {
	using M = SequentialMap<K, V, N>;
	M m;
	const M &cm = m;
	K rk[N]{};
	V rv[N]{};
	size_t n = 0;
	auto rfind = [&](K key) {
		for (size_t i = 0; i < n; i++)
			if (rk[i] == key)
				return i;
		return n;
	};
	size_t pre = sym_fork("pre", 0, N);
	for (int s = -(int)pre; s < steps; s++) {
		int op = s < 0 ? 0 : (int)sym_fork("op", 0, 5);
		K key = sym<K>("key");
		V val = mk<V>("val");
		switch (op) {
			case 0: {
				auto [it, ok] = m.insert({key, val});
				size_t i = rfind(key);
				vf_assert(ok == (i == n && n < N), "insert adds exactly the keys that are new and fit");
				if (i < n) {
					vf_assert(it == m.begin() + i, "insert points to the existing entry");
				} else if (n < N) {
					rk[n] = key;
					rv[n++] = val;
					vf_assert(it == m.begin() + (n - 1), "insert points to the new entry");
					vf_assert(it->first == key && it->second == val, "insert stores the key and the value");
				} else
					vf_assert(it == m.end(), "insert into a full map yields end");
				break;
			}
			case 1: {
				size_t i = rfind(key);
				if (i < n || n < N) {
					V &ref = m[key];
					if (i < n)
						vf_assert(ref == rv[i], "operator[] yields the stored value");
					else
						rk[n++] = key;
					ref = val;
					rv[i] = val;
					vf_assert(m[key] == val, "a value assigned through operator[] is stored");
				}
				break;
			}
			case 2: {
				size_t e = m.erase(key);
				size_t i = rfind(key);
				vf_assert(e == (i < n ? 1u : 0u), "erase reports how many entries it removed");
				if (i < n) {
					for (size_t k = i; k + 1 < n; k++) {
						rk[k] = rk[k + 1];
						rv[k] = rv[k + 1];
					}
					n--;
				}
				break;
			}
			case 3: {
				size_t i = rfind(key);
				vf_assert(cm[key] == (i < n ? rv[i] : V{}), "reading a missing key of a const map yields a default value");
				vf_assert(m.contains(key) == (i < n), "contains is true for exactly the stored keys");
				break;
			}
			case 4: {
				size_t i = rfind(key);
				auto it = m.find(key);
				auto cit = cm.find(key);
				vf_assert((it == m.end()) == (i == n) && (cit == cm.end()) == (i == n), "find yields end for exactly the missing keys");
				if (i < n)
					vf_assert(it->second == rv[i] && cit->second == rv[i], "find yields the stored value");
				break;
			}
			case 5:
				m.clear();
				n = 0;
				break;
		}
		for (size_t i = n; i < N; i++) {
			rk[i] = K{};
			rv[i] = V{};
		}
		vf_assert(m.size() == n && m.empty() == (n == 0) && m.is_full() == (n == N) && m.max_size() == N, "size, empty and is_full agree with the contents");
		vf_assert((size_t)(cm.end() - cm.begin()) == n, "iteration covers the entries");
		bool eq = true;
		for (size_t i = 0; i < n; i++)
			eq = eq & ((cm.begin() + i)->first == rk[i]) & ((cm.begin() + i)->second == rv[i]);
		vf_assert(eq, "entries keep their keys, values and insertion order");
		vf_observe(m.size());
		if (s >= 0)
			vf_merge(s);
	}
	vf_reach("end");
}
VF_HARNESS(sq_u8_u32_3) { history<uint8_t, uint32_t, 3>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(sq_u8_own_2) { history<uint8_t, Own, 2>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(sq_u32_u8_2) { history<uint32_t, uint8_t, 2>(VF_THOROUGH ? 4 : 3); }
VF_HARNESS(sq_int_u16_1) { history<int, uint16_t, 1>(VF_THOROUGH ? 5 : 3); }

// a full map never grows past its capacity, whatever key operator[] is given
VF_HARNESS(sq_overflow) {
	SequentialMap<uint8_t, uint16_t, 2> m;
	uint8_t a = sym<uint8_t>("a"), b = sym<uint8_t>("b"), c = sym<uint8_t>("c");
	vf_assume(a != b && b != c && a != c);
	uint16_t va = sym<uint16_t>("va"), vb = sym<uint16_t>("vb"), vc = sym<uint16_t>("vc");
	m[a] = va;
	m[b] = vb;
	m[c] = vc;
	vf_assert(m.size() == 2, "operator[] on a full map does not grow it");
	vf_assert(m[a] == va, "operator[] on a full map leaves the other entries alone");
	vf_observe(m[a]);
}
