// Partition: every element in exactly one part, the parts balanced greedily.
// vf-bound: 1, 2 and 3 parts, up to 4 (quick) / 5 (thorough) elements (2 / 3 with three parts and initial sums), every value of 16 bits in 32-bit or 3 bits in float sums, every initial sum; 260 elements of fixed values
// vf-assume: sums fit their type; at most as many initial sums as parts
#include "vf.h"
#include <algorithm>
#include <array>
#include <functional>
#include "util/partition.hh"

template<unsigned NP, unsigned MaxE, typename T>
void part(size_t lo, size_t hi, bool with_init, unsigned bits) {
	size_t n = sym_fork("n", lo, hi);
	T v[8], init[NP];
	for (size_t i = 0; i < n; i++)
		v[i] = (T)vf_sym("v", bits);
	size_t ni = with_init ? sym_fork("ni", 0, NP) : 0;
	for (size_t i = 0; i < NP; i++)
		init[i] = i < ni ? (T)vf_sym("init", bits) : T{};
	Partition<NP, MaxE, T> p;
	if (sym_fork("again", 0, 1)) {
		// an earlier result is discarded
		T w[2] = {T{3}, T{5}};
		p.calc_partitions(std::span<T>(w, MaxE < 2 ? MaxE : 2));
	}
	p.calc_partitions(std::span<T>(v, n), std::span<const T>(init, ni));
	size_t kept = n < MaxE ? n : MaxE;
	unsigned count[8] = {};
	T sum[NP], least[NP];
	bool used[NP];
	for (size_t k = 0; k < NP; k++) {
		sum[k] = init[k];
		used[k] = p.parts[k].size() > 0;
		least[k] = T{};
		for (size_t j = 0; j < p.parts[k].size(); j++) {
			unsigned id = p.parts[k][j];
			vf_assert(id < kept, "parts hold indices of the elements");
			count[vf_concrete(id)]++;
			sum[k] += v[id];
			least[k] = j == 0 || v[id] < least[k] ? v[id] : least[k];
		}
	}
	for (size_t i = 0; i < kept; i++)
		vf_assert(count[i] == 1, "every element is in exactly one part");
	for (size_t a = 0; a < NP; a++)
		for (size_t b = 0; b < NP; b++)
			if (used[a])
				vf_assert(sum[a] - least[a] <= sum[b], "no part would still be the fullest without its smallest element");
	vf_observe(count[0]);
	vf_reach("end");
}
constexpr size_t E = VF_THOROUGH ? 5 : 4;
VF_HARNESS(two) { part<2, 5, unsigned>(0, E, false, 16); }
VF_HARNESS(two_init) { part<2, 5, unsigned>(0, E - 1, true, 16); }
VF_HARNESS(three) { part<3, 5, unsigned>(0, E, false, 16); }
VF_HARNESS(three_init) { part<3, 5, int>(2, VF_THOROUGH ? 3 : 2, true, 16); }
VF_HARNESS(one) { part<1, 3, unsigned>(0, 3, true, 16); }
VF_HARNESS(over_full) { part<2, 2, unsigned>(2, 4, false, 16); }
VF_HARNESS(floats) { part<2, 4, float>(0, 3, false, 3); }
VF_HARNESS(constructed) {
	unsigned v[3] = {sym<uint16_t>("v"), sym<uint16_t>("v"), sym<uint16_t>("v")};
	Partition<2, 4> p{std::span<unsigned>(v, 3)}, q;
	q.calc_partitions(std::span<unsigned>(v, 3));
	for (int k = 0; k < 2; k++) {
		vf_assert(p.parts[k].size() == q.parts[k].size(), "construction partitions as calc_partitions does");
		for (size_t j = 0; j < p.parts[k].size(); j++)
			vf_assert(p.parts[k][j] == q.parts[k][j], "construction partitions as calc_partitions does");
	}
	vf_reach("end");
}

// more elements than a small counter holds
VF_HARNESS(part_big) {
	constexpr size_t N = 260;
	static unsigned v[N];
	for (size_t i = 0; i < N; i++)
		v[i] = (unsigned)(N - i);
	static Partition<2, 300, unsigned> p;
	p.calc_partitions(std::span<unsigned>{v});
	bool seen[N]{};
	unsigned sum[2]{};
	for (int k = 0; k < 2; k++)
		for (unsigned id : p.parts[k]) {
			vf_assert(id < N && !seen[id], "every element is in exactly one part");
			seen[id] = true;
			sum[k] += (unsigned)(N - id);
		}
	vf_assert(p.parts[0].size() + p.parts[1].size() == N, "every element is in exactly one part");
	vf_assert(sum[0] <= sum[1] + 1 && sum[1] <= sum[0] + 1, "the sums are balanced");
	vf_observe(sum[0]);
}
