// The math tables, and the functions of MathTools that read them, against the functions they stand for.
// vf-bound: every entry of the six tables; sin, cos, tan, their "close" forms and pow2 at arguments in steps of 1/64 (sin01 1/256, pow2 1/32), 17 of them around 0 (quick) or all from -8 to 8 (pow2 -16 to 16, sin01 -2 to 2) (thorough); setPitchMultiple in steps of 1/64 from -1 to 1, audioFreqToNorm every 39 Hz from 20 Hz to 20 kHz (both every second part of that in the quick tier, audioFreqToNorm up to 1.9 kHz)
// vf-assume: reference values from Python's math module; errors allowed: 1.5e-6 (sine entries) to 6e-6 absolute, 2e-6 to 4e-6 relative for exponentials, 1e-5 for audioFreqToNorm against the straight lines between entries, the error of the straight line between entries for tan (nothing is asked where it is above 8)
// vf-source: util/math_tables.cc
#include "vf.h"
#include "P43_ref.h"
#include "util/math.hh"

// any number from lo to hi
static int any(const char *n, int lo, int hi) {
	int i = sym<int>(n);
	vf_assume(i >= lo && i <= hi);
	return i;
}
static void in(float v, float lo, float hi, const char *msg) {
	vf_assert(vf_and(v >= lo, v <= hi), msg);
}
template<typename T>
static void entries(const T &table, const float *lo, const float *hi) {
	int i = any("i", 0, 2047);
	in(table[i], lo[i], hi[i], "every entry of the table is the value of the function");
}
VF_HARNESS(table_sin) { entries(sinTable, t_sin_lo, t_sin_hi); }
VF_HARNESS(table_tan) { entries(tanTable, t_tan_lo, t_tan_hi); }
VF_HARNESS(table_exp5) { entries(exp5Table, t_exp5_lo, t_exp5_hi); }
VF_HARNESS(table_exp10) { entries(exp10Table, t_exp10_lo, t_exp10_hi); }
VF_HARNESS(table_log) { entries(logTable, t_log_lo, t_log_hi); }
VF_HARNESS(table_pow9) { entries(pow9Table, t_pow9_lo, t_pow9_hi); }

#if VF_THOROUGH
static constexpr int parts = 16, width = 64, from = 0;
#else
static constexpr int parts = 1, width = 16, from = 504;
#endif
// f(x) for x in steps of 1/d
template<typename F>
static void over(F f, float d, const float *lo, const float *hi) {
	int base = from + width * (int)sym_fork("part", 0, parts - 1);
	int i = any("i", 0, width);
	in(f((float)(i + (base - 512)) / d), (lo + base)[i], (hi + base)[i], "the result is within its error of the function");
}
VF_HARNESS(fn_sin) { over([](float x) { return MathTools::sin(x); }, 64.f, f_sin_lo, f_sin_hi); }
VF_HARNESS(fn_cos) { over([](float x) { return MathTools::cos(x); }, 64.f, f_cos_lo, f_cos_hi); }
VF_HARNESS(fn_cos_close) { over([](float x) { return MathTools::cos_close(x); }, 64.f, f_cosc_lo, f_cosc_hi); }
VF_HARNESS(fn_tan) { over([](float x) { return MathTools::tan(x); }, 64.f, f_tan_lo, f_tan_hi); }
VF_HARNESS(fn_tan_close) { over([](float x) { return MathTools::tan_close(x); }, 64.f, f_tanc_lo, f_tanc_hi); }
VF_HARNESS(fn_pow2) { over([](float x) { return MathTools::pow2(x); }, 32.f, f_pow2_lo, f_pow2_hi); }
VF_HARNESS(fn_sin01) { over([](float x) { return MathTools::sin01(x); }, 256.f, f_sin01_lo, f_sin01_hi); }

VF_HARNESS(fn_pitch) {
	int base = 32 * (int)sym_fork("part", 0, 3);
	int i = any("i", 0, VF_THOROUGH ? 32 : 16);
	float x = (float)(i + (base - 64)) / 64.f;
	in(MathTools::setPitchMultiple(x), (f_pitch_lo + base)[i], (f_pitch_hi + base)[i], "the pitch multiple is 32 to the argument");
}
VF_HARNESS(fn_norm) {
	int base = 32 * (int)sym_fork("part", 0, VF_THOROUGH ? 15 : 1);
	int i = any("i", 0, VF_THOROUGH ? 31 : 15);
	float x = (float)(20 + 39 * (base + i));
	in(MathTools::audioFreqToNorm(x), (f_norm_lo + base)[i], (f_norm_hi + base)[i], "the logarithm of the frequency from 0 (20 Hz) to 1 (20 kHz)");
}
