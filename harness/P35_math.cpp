// Arithmetic helpers of MathTools against their mathematical definitions.
// vf-bound: comparisons, differences, byte swaps, powers of two, fast-math classification: every value of each type; map_value and integer interpolation: every 8-bit (quick) / 10-bit (thorough) value over several ranges; wrap: values up to 6 / 20 spans away; ipow: every base, exponents up to 6; float interpolation and faster_sine: grids of 1/16
// vf-assume: signed results fit their type; in_min < in_max; min <= max
#include "vf.h"
#include "util/math.hh"
namespace M = MathTools;

template<typename T>
void compare() {
	T a = sym<T>("a"), lo = sym<T>("lo"), hi = sym<T>("hi");
	vf_assert(M::max(a, lo) == vf_select(a > lo, a, lo), "max is the larger value");
	vf_assert(M::min(a, lo) == vf_select(a < lo, a, lo), "min is the smaller value");
	vf_assume(lo <= hi);
	T c = M::constrain(a, lo, hi);
	vf_assert(c >= lo && c <= hi, "a constrained value is in its range");
	vf_assert(c == (T)vf_select(a < lo, lo, vf_select(a > hi, hi, a)), "a value in range is kept, others go to the nearest end");
	vf_observe(c);
}
VF_HARNESS(compare_i32) { compare<int32_t>(); }
VF_HARNESS(compare_u8) { compare<uint8_t>(); }
VF_HARNESS(compare_u64) { compare<uint64_t>(); }
VF_HARNESS(compare_i16) { compare<int16_t>(); }
VF_HARNESS(constrain_float) {
	float a = sym<float>("a"), lo = sym<float>("lo"), hi = sym<float>("hi");
	vf_assume(lo <= hi);
	vf_assume(a == a);
	float c = M::constrain(a, lo, hi);
	vf_assert(c >= lo && c <= hi, "a constrained value is in its range");
	vf_assert(vf_implies(vf_and(a >= lo, a <= hi), c == a), "a value in range is kept");
	vf_assert(vf_implies(a < lo, c == lo), "a value below goes to the low end");
	vf_assert(vf_implies(a > hi, c == hi), "a value above goes to the high end");
	vf_assert(M::f_abs(a) >= 0.f && (M::f_abs(a) == a || M::f_abs(a) == -a), "f_abs is the magnitude");
	vf_observe(c > 0.f);
}

template<typename T>
void differences() {
	T a = sym<T>("a"), b = sym<T>("b");
	if (std::is_signed_v<T>) {
		// the difference fits
		vf_assume(a >= 0);
		vf_assume(b >= 0);
	}
	T want = (T)vf_select(a > b, a - b, b - a);
	vf_assert(M::abs_diff(a, b) == want, "abs_diff is the distance");
	vf_assert(M::diff(a, b) == want, "diff is the distance");
	T x = sym<T>("x");
	if (std::is_signed_v<T>)
		vf_assume(x >= 0);
	auto r = M::between(x, a, b);
	if (x >= a && x <= b) {
		vf_assert(r.has_value(), "a value within is between");
		vf_assert(*r == (T)(x - a), "between gives the offset from the low end");
	} else
		vf_assert(!r.has_value(), "a value outside is not between");
	vf_observe(want);
}
VF_HARNESS(diff_u8) { differences<uint8_t>(); }
VF_HARNESS(diff_u32) { differences<uint32_t>(); }
VF_HARNESS(diff_u64) { differences<uint64_t>(); }
VF_HARNESS(diff_i32) { differences<int32_t>(); }
VF_HARNESS(diff_neg) {
	int32_t a = (int32_t)sym_range("a", 0, 2000000000) - 1000000000, b = (int32_t)sym_range("b", 0, 2000000000) - 1000000000;
	vf_assert(M::abs_diff(a, b) == (int32_t)vf_select(a > b, a - b, b - a), "abs_diff is the distance");
	vf_assert(M::diff(a, b) == (int32_t)vf_select(a > b, a - b, b - a), "diff is the distance");
	vf_observe(a);
}

static unsigned bits(uint64_t v) {
	unsigned n = 0;
	for (int i = 0; i < 64; i++)
		n += (unsigned)(v >> i & 1);
	return n;
}
VF_HARNESS(pow2_test) {
	uint32_t v = sym<uint32_t>("v");
	vf_assert(M::is_power_of_2(v) == (bits(v) == 1), "a power of 2 has exactly one bit");
	vf_observe(v);
}
VF_HARNESS(log2) {
	uint32_t v = sym<uint32_t>("v");
	unsigned l = M::log2_floor(v);
	vf_assert(l < 32, "the logarithm is a bit number");
	vf_assert(vf_implies(v != 0, (v >> l) == 1), "log2_floor is the number of the highest bit");
	vf_assert(vf_implies(v == 0, l == 0), "the logarithm of 0 is given as 0");
	vf_assert(M::Log2<1>::val == 0 && M::Log2<2>::val == 1 && M::Log2<3>::val == 1 && M::Log2<64>::val == 6 && M::Log2<1023>::val == 9 && M::Log2<0x80000000u>::val == 31, "Log2 is the number of the highest bit");
	vf_observe(l);
}
template<typename T>
void next_pow2() {
	T v = sym<T>("v");
	T n = M::next_power_of_2(v);
	constexpr T top = (T)((T)1 << (sizeof(T) * 8 - 1));
	if (v > top)
		vf_assert(n == 0, "a power that does not fit is given as 0");
	else {
		vf_assert(n != 0 && (n & (T)(n - 1)) == 0, "the result is a power of 2");
		vf_assert(n >= v, "the result is not below the value");
		vf_assert(n == 1 || (T)(n >> 1) < v, "no smaller power is enough");
	}
	vf_observe(n);
}
VF_HARNESS(next_u8) { next_pow2<uint8_t>(); }
VF_HARNESS(next_u16) { next_pow2<uint16_t>(); }
VF_HARNESS(next_u32) { next_pow2<uint32_t>(); }
VF_HARNESS(next_u64) { next_pow2<uint64_t>(); }
VF_HARNESS(ipow) {
	uint32_t a = (uint32_t)vf_sym("a", 8);
	unsigned e = (unsigned)sym_fork("e", 0, VF_THOROUGH ? 4 : 3);
	uint32_t want = 1;
	for (unsigned i = 0; i < e; i++)
		want *= a;
	vf_assert(M::ipow(a, e) == want, "ipow is the repeated product");
	unsigned k = (unsigned)sym_fork("k", 0, 31);
	vf_assert(M::ipow(2, k) == 1u << k, "powers of 2 are exact");
	vf_assert(M::bipolar_type_range(int8_t{}) == 127 && M::bipolar_type_range(int16_t{}) == 32767 && M::bipolar_type_range(int32_t{}) == 0x7FFFFFFF, "the bipolar range of a type is its highest value");
	vf_observe(want);
}

template<uint32_t Max>
void wrap_max() {
	uint32_t v = (uint32_t)sym_range("v", 0, Max * (VF_THOROUGH ? 20 : 6));
	vf_assert(M::wrap<Max>(v) == v % Max, "wrapping takes off whole spans");
	vf_observe(v % Max);
}
VF_HARNESS(wrap_1) { wrap_max<1>(); }
VF_HARNESS(wrap_7) { wrap_max<7>(); }
VF_HARNESS(wrap_4096) { wrap_max<4096>(); }
VF_HARNESS(wrap_range) {
	static const int lo[4] = {1, -3, 0, -100}, hi[4] = {2, 4, 0, 155};
	size_t r = sym_fork("range", 0, 3);
	int a = lo[r], b = hi[r], span = b - a + 1;
	int v = a - 3 * span + (int)sym_range("v", 0, 6 * (uint64_t)span);
	int w = M::wrap<int>(v, a, b);
	vf_assert(w >= a && w <= b, "a wrapped value is in its range");
	vf_assert((v - w) % span == 0, "wrapping moves by whole spans");
	vf_assert(vf_implies(vf_and(v >= a, v <= b), w == v), "a value in range is kept");
	vf_observe(w);
}

VF_HARNESS(plateaus) {
	int32_t c = (int32_t)sym_range("center", 0, 2000) - 1000, v = sym<int32_t>("v");
	uint32_t w = (uint32_t)sym_range("width", 0, 5000);
	vf_assume(v > -2000000000);
	vf_assume(v < 2000000000);
	int32_t h = (int32_t)w / 2;
	int32_t want = (int32_t)vf_select(v > c + h, v - (c + h), vf_select(v < c - h, v - (c - h), 0));
	vf_assert(M::plateau(v, w, c) == want, "inside the plateau the result is 0, outside the distance to its edge");
	int32_t z = (int32_t)vf_select(v > 30, v - 30, vf_select(v < -30, v + 30, 0));
	vf_assert(M::plateau<60u>(v, 0) == z, "the plateau of a fixed width");
	vf_observe(want);
}
VF_HARNESS(swaps) {
	uint16_t h = sym<uint16_t>("h"), g = sym<uint16_t>("g");
	uint32_t w = sym<uint32_t>("w");
	vf_assert(M::swap_bytes16(h) == __builtin_bswap16(h), "the two bytes are swapped");
	vf_assert(M::swap_bytes32(w) == __builtin_bswap32(w), "the four bytes are reversed");
	vf_assert(M::swap_bytes_and_combine(h, g) == ((uint32_t)__builtin_bswap16(h) << 16 | __builtin_bswap16(g)), "both halves are swapped and joined");
	vf_observe(w);
}
VF_HARNESS(classify) {
	float f = sym<float>("f");
	uint32_t u;
	__builtin_memcpy(&u, &f, 4);
	bool special = (u & 0x7F800000) == 0x7F800000;
	vf_assert(M::is_finite_fastmath(f) == !special, "finite means neither infinite nor NaN");
	vf_assert(M::is_inf_fastmath(f) == ((u & 0x7FFFFFFF) == 0x7F800000), "infinite means infinite");
	vf_observe(special);
}

template<uint32_t PM>
void interp_int() {
	constexpr int B = VF_THOROUGH ? 10 : 8;
	int a = (int)vf_sym("a", B) - (1 << (B - 1)), b = (int)vf_sym("b", B) - (1 << (B - 1));
	int p = (int)sym_range("phase", 0, PM);
	int v = M::interpolate<PM>(a, b, p);
	int x = b * p + a * ((int)PM - p);
	// within one of the exact value, towards zero
	vf_assert(v * (int)PM - x < (int)PM && x - v * (int)PM < (int)PM, "the result is the weighted mean, within one");
	vf_assert(vf_implies(p == 0, v == a), "phase 0 is the first value");
	vf_assert(vf_implies(p == (int)PM, v == b), "the full phase is the other value");
	vf_observe(v);
}
VF_HARNESS(interp_16) { interp_int<16>(); }
VF_HARNESS(interp_10) { interp_int<10>(); }
VF_HARNESS(interp_4096) {
	int a = (int)sym_fork("a", 0, 4) * 1000 - 2000, b = (int)vf_sym("b", 12) - 2048;
	int p = (int)sym_fork("phase", 0, 8) * 512;
	int v = M::interpolate<4096>(a, b, p);
	int x = b * p + a * (4096 - p);
	vf_assert(v == x / 4096, "the result is the weighted mean");
	vf_observe(v);
}
VF_HARNESS(interp_float) {
	float a = (float)((int)vf_sym("a", 5) - 16), b = (float)((int)vf_sym("b", 5) - 16);
	size_t k = sym_fork("phase", 0, VF_THOROUGH ? 16 : 8);
	float p = (float)k / (VF_THOROUGH ? 16.f : 8.f);
	float want = a + (b - a) * p; // exact on this grid
	vf_assert(M::interpolate(a, b, p) == want, "the mean weighted by the phase");
	vf_assert(M::interpolate3(a, b, p) == want, "the mean weighted by the phase");
	vf_observe(a < b);
}

VF_HARNESS(map_int) {
	static const int im[3] = {0, -10, 5}, ix[3] = {255, 10, 6}, om[3] = {0, 100, -7}, ox[3] = {1000, -100, 1000};
	size_t in = sym_fork("in", 0, 2), out = sym_fork("out", 0, 2);
	int x = im[in] + (int)sym_range("x", 0, (uint64_t)(ix[in] - im[in]));
	int v = M::map_value(x, im[in], ix[in], om[out], ox[out]);
	int lo = om[out] < ox[out] ? om[out] : ox[out], hi = om[out] < ox[out] ? ox[out] : om[out];
	vf_assert(v >= lo && v <= hi, "a value within the input range maps into the output range");
	vf_assert(vf_implies(x == im[in], v == om[out]), "the low end maps to the low end");
	vf_assert(vf_implies(x == ix[in], v == ox[out]), "the high end maps to the high end");
	int num = (x - im[in]) * (ox[out] - om[out]), den = ix[in] - im[in];
	int d = (v - om[out]) * den - num;
	vf_assert(d < den && -d < den, "in between the mapping is linear, within one");
	vf_observe(v);
}
VF_HARNESS(map_float) {
	float x = (float)vf_sym("x", 6);
	float v = M::map_value(x, 0.f, 64.f, -1.f, 1.f);
	vf_assert(v == x / 32.f - 1.f, "the mapping is linear");
	vf_observe(v > 0.f);
}

static int next_rand;
extern "C" int rand() noexcept {
	return next_rand;
}
VF_HARNESS(random) {
	next_rand = (int)sym_range("rand", 0, RAND_MAX);
	int lo = -5, hi = 10;
	int v = M::randomNumber<int>(lo, hi);
	vf_assert(v >= lo && v <= hi, "a random number is within its ends");
	vf_assert(vf_implies(next_rand == 0, v == lo), "the low end occurs");
	vf_assert(vf_implies(next_rand == RAND_MAX, v == hi), "the high end occurs");
	vf_observe(v);
}
VF_HARNESS(parabola) {
	uint32_t k = (uint32_t)sym_range("x", 0, VF_THOROUGH ? 64 : 16);
	float x = (float)k / (VF_THOROUGH ? 64.f : 16.f);
	float s = M::faster_sine(x);
	vf_assert(s >= -1.f && s <= 1.f, "the approximate sine is between -1 and 1");
	if (x < 0.5f)
		vf_assert(s <= 0.f, "the first half of a cycle is not positive");
	else
		vf_assert(s >= 0.f, "the second half of a cycle is not negative");
	vf_assert(M::faster_sine(1.f - x) == -s, "the halves mirror each other");
	vf_assert(M::faster_sine(0.25f) == -1.f && M::faster_sine(0.75f) == 1.f && M::faster_sine(0.5f) == 0.f, "the peaks are exact");
	vf_observe(s > 0.f);
}
