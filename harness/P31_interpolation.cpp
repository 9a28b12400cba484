// InterpArray, LookupTable, InterpParam* and the table functions of MathTools: positions never leave the table, values are those between the neighbouring entries.
// vf-source: util/math_tables.cc
// vf-bound: InterpArray: sizes 3, 4, 5, positions on a grid of 1/4 (quick) / 1/16 (thorough) up to two turns either way, any 3-bit entries; LookupTable: every position on a grid of 1/4 / 1/16, a table of 513 points, and for index safety every float in range with every float bounds; table functions: arguments up to +-10 / +-40 (sin, cos, tan), +-7 / +-20 (pow2), every float (setPitchMultiple, audioFreqToNorm)
// vf-assume: no NaN; LookupTable bounds below 1e18 with min < max
#include "vf.h"
#include <array>
#include "util/interp_array.hh"
#include "util/interp_param.hh"
#include "util/lookup_table.hh"
#include "util/math.hh"

static void note(float f) {
	vf_observe(f >= 0);
}

template<unsigned N, typename P>
void wrap() {
	InterpArray<float, N, P> a;
	int32_t d[N];
	for (unsigned i = 0; i < N; i++) {
		d[i] = (int32_t)sym_range("d", 0, 7) - 4;
		a.set(i, (float)d[i]);
		vf_assert(a[i] == (float)d[i] && a.get(i) == (float)d[i], "entries are stored and read back");
	}
	constexpr int F = VF_THOROUGH ? 16 : 4; // positions k/F
	constexpr int S = F * N, turns = 2;
	int k = (int)sym_fork("k", 0, 2 * turns * S) - turns * S;
	int r = ((k % S) + S) % S;
	int i = r / F, f = r % F, j = (i + 1) % (int)N;
	float want = (float)(d[i] * (F - f) + d[j] * f) / (float)F;
	P pos = (P)k / (P)F;
	float got = a.interp_by_index_wrap(pos);
	vf_assert(got == want, "a position wraps around and gives the value between its neighbours");
	if (N == 4) {
		vf_assert(a.interp_wrap(pos / (P)4) == want, "a phase wraps around at every whole turn");
		vf_assert(a.closest_wrap(pos / (P)4) == (float)d[i], "the closest entry is the one at or before the phase");
	}
	if (k >= 0 && k <= S - F) {
		vf_assert(a.interp_by_index(pos) == want, "inside the array, positions need no wrapping");
		if (N == 5)
			vf_assert(a.interp(pos / (P)4) == want, "phase 0 is the first entry and phase 1 the last");
		if (N == 5)
			vf_assert(a.closest(pos / (P)4) == (float)d[i], "the closest entry is the one at or before the phase");
	}
	note(got);
}
VF_HARNESS(wrap_3) { wrap<3, float>(); }
VF_HARNESS(wrap_4) { wrap<4, float>(); }
VF_HARNESS(wrap_5) { wrap<5, float>(); }
VF_HARNESS(wrap_4_double) { wrap<4, double>(); }

// any float position up to a few turns: nothing outside the array is read
VF_HARNESS(wrap_any) {
	InterpArray<float, 4> a;
	for (unsigned i = 0; i < 4; i++)
		a.set(i, 1.f);
	float x = sym<float>("x");
	vf_assume(x > -16.f && x < 16.f);
	note(a.interp_by_index_wrap(x));
	note(a.interp_wrap(x / 4.f));
	note(a.closest_wrap(x / 4.f));
	if (x >= 0.f && x <= 1.f) {
		note(a.interp(x));
		note(a.closest(x));
	}
	vf_reach("end");
}

template<size_t N>
void table(int lo, int hi) {
	std::array<float, N> pts;
	int32_t d[N];
	for (size_t i = 0; i < N; i++) {
		d[i] = (int32_t)sym_range("d", 0, 7) - 4;
		pts[i] = (float)d[i];
	}
	LookupTable<N> t{(float)lo, (float)hi, pts};
	constexpr int F = VF_THOROUGH ? 16 : 4;
	int k = (int)sym_fork("k", 0, F * (hi - lo) + 4 * F) + F * lo - 2 * F;
	float got = t.lookup((float)k / (float)F);
	// hi - lo and N - 1 are powers of two
	int num = (k - F * lo) * (int)(N - 1), den = F * (hi - lo);
	int i = num <= 0 ? 0 : num / den;
	float want;
	if (num <= 0)
		want = (float)d[0];
	else if (i >= (int)N - 1)
		want = (float)d[N - 1];
	else
		want = (float)(d[i] * den + (d[i + 1] - d[i]) * (num - i * den)) / (float)den;
	vf_assert(got == want, "the value is that of the nearest points, linearly between them, and of the end points outside the range");
	vf_assert(t((float)k / (float)F) == got, "calling the table looks the value up");
	note(got);
}
VF_HARNESS(table_2) { table<2>(0, 1); }
VF_HARNESS(table_5) { table<5>(-2, 2); }
VF_HARNESS(table_9) { table<9>(3, 7); }
// more points than a byte counts
VF_HARNESS(table_big) {
	static std::array<float, 513> pts;
	int32_t a = (int32_t)sym_range("a", 0, 15), b = (int32_t)sym_range("b", 0, 15);
	size_t i = sym_fork("i", 0, 3);
	const size_t at[] = {40, 255, 256, 400};
	for (size_t k = 0; k < pts.size(); k++)
		pts[k] = 100.f;
	pts[at[i]] = (float)a;
	pts[at[i] + 1] = (float)b;
	LookupTable<513> t{0.f, 512.f, pts};
	vf_assert(t((float)at[i]) == (float)a && t((float)at[i] + 1.f) == (float)b && t((float)at[i] + 2.f) == 100.f, "each point is at its place");
	vf_assert(t((float)at[i] + 0.5f) == (float)(a + b) / 2.f, "the value is that of the nearest points, linearly between them");
	note(t((float)at[i] + 0.5f));
}
VF_HARNESS(table_any) {
	std::array<float, 4> pts{1.f, 1.f, 1.f, 1.f};
	float lo = sym<float>("lo"), hi = sym<float>("hi"), x = sym<float>("x");
	vf_assume(vf_and(vf_and(lo > -1e18f, hi < 1e18f), lo < hi));
	vf_assume(x == x);
	LookupTable<4> t{lo, hi, pts};
	float got = t.lookup(x);
	note(got);
	vf_reach("end");
}
struct Range {
	static constexpr float min = -1.f;
	static constexpr float max = 3.f;
};
VF_HARNESS(generated) {
	constexpr auto t = LookupTable<9>::generate<Range>([](float x) { return x * 2.f; });
	int k = (int)sym_fork("k", 0, 8);
	float x = -1.f + (float)k * 0.5f;
	vf_assert(t(x) == x * 2.f, "a generated table holds the function's values at evenly spaced points from min to max");
	vf_assert(t(-5.f) == -2.f && t(9.f) == 6.f, "outside the range the end values are given");
}

// stepping to a target
VF_HARNESS(stepping) {
	constexpr int n = 4;
	int32_t q = (int32_t)sym_range("q", 0, 2000) - 1000, q2 = (int32_t)sym_range("q2", 0, 2000) - 1000;
	InterpParam<int32_t, n> a;
	InterpParamVar<int32_t> b;
	InterpParamVariable<int32_t> c{n};
	vf_assert(a.cur_val == 0 && c.cur_val == 0 && c.target_val == 0, "values start at zero");
	vf_assert(c.get_num_updates() == n, "the number of updates is the one given");
	vf_assert(a.next() == 0 && b.next() == 0 && c.next() == 0 && a.get_step_size() == 0 && b.get_step_size() == 0 && c.get_step_size() == 0, "values stay until there is a new one");
	InterpParamVariable<int32_t> d;
	vf_assert(d.get_num_updates() == 256 && d.next() == 0, "the default is 256 updates");
	for (int round = 0; round < 2; round++) {
		int32_t from = round ? q * n : 0, to = (round ? q2 : q) * n;
		a.set_new_value(to);
		b.set_new_value(to, n);
		c.set_new_value(to);
		for (int i = 1; i <= n; i++) {
			int32_t want = from + (to - from) / n * i;
			vf_assert(a.next() == want && b.next() == want && c.next() == want, "a new value is reached in equal steps over the number of updates");
		}
		vf_assert(a.get_step_size() == (to - from) / n && b.get_step_size() == (to - from) / n && c.get_step_size() == (to - from) / n, "the step is the distance over the number of updates");
		vf_assert(b.snap_to_target() == to && c.target_val == to, "the target is the value last set");
	}
	b.set_new_value(77, 0);
	vf_assert(b.snap_to_target() == 77 && b.snap_to_target() == 77, "snapping goes to the target at once");
	c.set_num_updates(2);
	vf_assert(c.get_num_updates() == 2, "the number of updates can be changed");
	int32_t at = c.cur_val;
	c.set_new_value(at + 2 * q);
	vf_assert(c.next() == at + q && c.next() == at + 2 * q, "the changed number of updates applies to the next value");
	vf_observe(at);
}

// the table functions
VF_HARNESS(fn_sin) {
	float x = sym<float>("x");
	constexpr float lim = VF_THOROUGH ? 40.f : 10.f;
	vf_assume(x > -lim && x < lim);
	size_t which = sym_fork("which", 0, 5);
	switch (which) {
		case 0: MathTools::sin(x); break;
		case 1: MathTools::cos(x); break;
		case 2: MathTools::cos_close(x); break;
		case 3: MathTools::tan(x); break;
		case 4: MathTools::tan_close(x); break;
		case 5: MathTools::sin01(x / 8.f); break;
	}
	vf_reach("end");
}
VF_HARNESS(fn_pow2) {
	float x = sym<float>("x");
	constexpr float lim = VF_THOROUGH ? 20.f : 7.f;
	vf_assume(x > -lim && x < lim);
	MathTools::pow2(x);
	vf_reach("end");
}
VF_HARNESS(fn_pow2_steps) {
	int k = (int)sym_fork("k", 0, 40) - 20;
	float want = 1.f;
	for (int i = 0; i < k; i++)
		want *= 32.f;
	for (int i = 0; i > k; i--)
		want /= 32.f;
	float got = MathTools::pow2(5.f * (float)k);
	vf_assert(got == want, "pow2 is exact at multiples of 5 over the whole float range");
	note(got);
}
VF_HARNESS(fn_pitch) {
	float x = sym<float>("x");
	vf_assume(x == x);
	MathTools::setPitchMultiple(x);
	MathTools::audioFreqToNorm(x);
	vf_reach("end");
}

VF_HARNESS(fn_pow2_extreme) {
	float x = sym<float>("x");
	vf_assume(x <= -150.f || x >= 128.f);
	float y = MathTools::pow2(x);
	vf_assert(y == (x < 0.f ? 0.f : INFINITY), "beyond the float range pow2 is 0 or infinity");
	vf_observe(x < 0.f);
}
