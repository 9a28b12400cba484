// Signal statistics, the portable NEON stand-ins, and MemTest.
// vf-bound: statistics: every sequence of 4 (quick) / 6 (thorough) updates, every float (minimum and maximum), values of 5 bits with exact coefficients (average); NEON: lanes with every float for data movement, 4-bit values for arithmetic; MemTest: blocks of 0 to 6 / 16 words
// vf-assume: no NaN
#include "vf.h"
#include <array>
#include <type_traits>
#include "util/analyzed_signal.hh"
#include "util/mem_test.hh"
#include "util/soft_neon.hh"

constexpr int N = VF_THOROUGH ? 6 : 4;

template<typename T, typename Meter>
void peaks(Meter &m, bool can_reset) {
	T lo{}, hi{};
	bool any = false;
	for (int i = 0; i < N; i++) {
		if (can_reset && i == 2 && sym_fork("reset", 0, 1)) {
			if constexpr (requires { m.reset(); })
				m.reset();
			any = false;
		}
		T v = sym<T>("v");
		vf_assume(v == v);
		m.update(v);
		if (!any) {
			lo = hi = v;
			any = true;
		} else {
			lo = v < lo ? v : lo;
			hi = v > hi ? v : hi;
		}
		if (std::is_floating_point_v<T>) {
			// infinities are past the initial values
			vf_assume(v > -std::numeric_limits<float>::infinity());
			vf_assume(v < std::numeric_limits<float>::infinity());
		}
		vf_assert(m.min == lo, "the minimum is the lowest value seen");
		vf_assert(m.max == hi, "the maximum is the highest value seen");
	}
	vf_observe(any);
	vf_reach("end");
}
VF_HARNESS(peak_float) {
	PeakMeter<float> m;
	peaks<float>(m, true);
}
VF_HARNESS(peak_i32) {
	PeakMeter<int32_t> m;
	peaks<int32_t>(m, true);
}
VF_HARNESS(peak_u8) {
	PeakMeter<uint8_t> m;
	peaks<uint8_t>(m, true);
}
static float grid(const char *n) {
	return (float)((int)vf_sym(n, 5) - 16);
}
VF_HARNESS(analyzed) {
	AnalyzedSignal<4> s;
	float iir = 0.f, lo = 0.f, hi = 0.f;
	bool any = false;
	for (int i = 0; i < 3; i++) {
		if (sym_fork("op", 0, 2) == 0) {
			float v = grid("r");
			s.reset_to(v);
			iir = lo = hi = v;
			any = true;
		} else {
			float v = grid("v");
			s.update(v);
			iir = iir * 0.75f + v * 0.25f;
			lo = !any || v < lo ? v : lo;
			hi = !any || v > hi ? v : hi;
			any = true;
		}
		vf_assert(s.min == lo && s.max == hi, "minimum and maximum are those since the reset, the reset value included");
		vf_assert(s.iir == iir && s.avg == iir, "the average moves to the input by its coefficient");
		vf_observe(lo < hi);
	}
	vf_reach("end");
}

static float32x4_t any4(const char *n) {
	return {sym<float>(n), sym<float>(n), sym<float>(n), sym<float>(n)};
}
static bool same(float a, float b) {
	uint32_t x, y;
	__builtin_memcpy(&x, &a, 4);
	__builtin_memcpy(&y, &b, 4);
	return x == y;
}
VF_HARNESS(lanes) {
	float32x4_t a = any4("a");
	for (int i = 0; i < 4; i++)
		vf_assume(a.v[i] == a.v[i]);
	float32x4_t l = vld1q_f32(a.v);
	float32x2_t lo = vget_low_f32(a), hi = vget_high_f32(a);
	for (unsigned i = 0; i < 4; i++) {
		vf_assert(same(l[i], a.v[i]), "loading keeps every lane");
		vf_assert(same(vget_lane_f32(i < 2 ? lo : hi, i % 2), a.v[i]), "the halves hold the lanes in order");
		vf_assert(same(vdupq_n_f32(a.v[1])[i], a.v[1]), "a duplicated value is in every lane");
	}
	const float32x4_t ca = a;
	a[2] = 5.f;
	vf_assert(a.v[2] == 5.f && same(a.v[1], ca[1]), "lanes are written by index");
	vf_reach("end");
}
VF_HARNESS(vmax) {
	float32x4_t a = any4("a"), b = any4("b"), m = vmaxq_f32(a, b);
	for (unsigned i = 0; i < 4; i++) {
		vf_assume(a.v[i] == a.v[i]);
		vf_assume(b.v[i] == b.v[i]);
		vf_assert(m.v[i] == (a.v[i] > b.v[i] ? a.v[i] : b.v[i]), "each lane is the larger one");
	}
	vf_reach("end");
}
VF_HARNESS(neon_arith) {
	float32x4_t a, b, d;
	int x[4], y[4], z[4];
	for (int i = 0; i < 4; i++) {
		a.v[i] = (float)(x[i] = (int)vf_sym("a", 4) - 8);
		b.v[i] = (float)(y[i] = (int)vf_sym("b", 4) - 8);
		d.v[i] = (float)(z[i] = (int)vf_sym("d", 4) - 8);
	}
	float32x4_t p = vmulq_f32(a, b), s = vsubq_f32(a, b), old = d, r = vmlaq_f32(d, a, b);
	float32x2_t ps = vpadd_f32(vget_low_f32(a), vget_high_f32(b));
	(void)old;
	for (int i = 0; i < 4; i++) {
		vf_assert(p.v[i] == (float)(x[i] * y[i]), "lanes are multiplied");
		vf_assert(s.v[i] == (float)(x[i] - y[i]), "lanes are subtracted");
		vf_assert(r.v[i] == (float)(z[i] + x[i] * y[i]), "the product is added to each lane");
		vf_assert(d.v[i] == r.v[i], "the destination is updated");
	}
	vf_assert(ps.v[0] == (float)(x[0] + x[1]) && ps.v[1] == (float)(y[2] + y[3]), "neighbours are added pairwise");
	vf_reach("end");
}

VF_HARNESS(memtest) {
	size_t n = sym_fork("n", 0, VF_THOROUGH ? 16 : 6);
	uint32_t *mem = new uint32_t[n ? n : 1];
	for (size_t i = 0; i < n; i++)
		mem[i] = sym<uint32_t>("m");
	vf_assert(MemTest::check(mem, mem + n), "working memory passes");
	bool differ = true;
	for (size_t i = 0; i + 1 < n; i++)
		differ = differ && mem[i] != mem[i + 1];
	vf_assert(differ, "neighbouring words are tested with different values");
	delete[] mem;
	// addresses: nothing between them is touched when there is nothing
	uint32_t from = sym<uint32_t>("from"), to = sym<uint32_t>("to");
	vf_assume(to < from);
	vf_assert(!MemTest::check(from, to), "a block that ends before it starts fails");
	vf_reach("end");
}
