// AudioFrame: scaling between samples of any width and floats, sign extension, and the saturation helpers.
// vf-bound: every sample word and every float for scaleInput, scaleOutput (signed) and sign extension, in 8 sample formats; unsigned scaleOutput: every float for 8 bits, a grid of 1/32 / 1/128 for 12 and 16 bits, every float at and beyond full scale for 24 and 32 bits; saturation: every int32_t and every width
// vf-assume: floats are not NaN
#include "vf.h"
#include "util/audio_frame.hh"

template<typename T, int Bits>
void signed_frame() {
	using F = AudioFrame<T, Bits>;
	constexpr double K = (double)(int64_t{1} << (Bits - 1));
	// in
	T raw = sym<T>("raw");
	int64_t v = (int64_t)((uint64_t)(int64_t)raw << (64 - Bits)) >> (64 - Bits); // the low bits, sign extended
	F f;
	f.chan[0] = (T)0;
	f.chan[1] = raw;
	vf_assert(F::sign_extend(raw) == v, "the sample is the used bits, sign extended");
	vf_assert(f.sign_extend_chan(1) == v, "each channel is sign extended");
	float in = f.scale_input_chan(1);
	vf_assert(in >= -1.f && in <= 1.f, "an input is between -1 and 1");
	vf_assert(in == (float)v / (float)K, "an input is the sample over full scale");
	vf_assert(F::scaleInput((T)0) == 0.f, "zero is zero");
	if (Bits <= 24)
		vf_assert(F::scaleOutput(in) == v, "a sample survives the way to float and back");
	vf_observe(v);
}
template<typename T, int Bits>
void signed_out() {
	using F = AudioFrame<T, Bits>;
	constexpr double K = (double)(int64_t{1} << (Bits - 1));
	float x = sym<float>("x");
	vf_assume(x == x);
	double d = (double)x * K;
	F f;
	f.chan[0] = (T)7;
	f.set_scaled_output(1, x);
	int64_t k = f.chan[1];
	if (d >= K - 1)
		vf_assert(k == (int64_t{1} << (Bits - 1)) - 1, "outputs saturate at the highest sample of the used bits");
	else if (d <= -K)
		vf_assert(k == -(int64_t{1} << (Bits - 1)), "outputs saturate at the lowest sample of the used bits");
	else
		vf_assert(k == (int64_t)d, "an output is the float times full scale, towards zero");
	vf_assert(f.chan[0] == 7, "other channels are untouched");
	vf_observe(k);
}
VF_HARNESS(in_i32_24) { signed_frame<int32_t, 24>(); }
VF_HARNESS(out_i32_24) { signed_out<int32_t, 24>(); }
VF_HARNESS(in_i32_32) { signed_frame<int32_t, 32>(); }
VF_HARNESS(out_i32_32) { signed_out<int32_t, 32>(); }
VF_HARNESS(in_i32_16) { signed_frame<int32_t, 16>(); }
VF_HARNESS(out_i32_16) { signed_out<int32_t, 16>(); }
VF_HARNESS(in_i32_20) { signed_frame<int32_t, 20>(); }
VF_HARNESS(out_i32_20) { signed_out<int32_t, 20>(); }
VF_HARNESS(in_i16_16) { signed_frame<int16_t, 16>(); }
VF_HARNESS(out_i16_16) { signed_out<int16_t, 16>(); }
VF_HARNESS(in_i16_12) { signed_frame<int16_t, 12>(); }
VF_HARNESS(out_i16_12) { signed_out<int16_t, 12>(); }
VF_HARNESS(in_i8_8) { signed_frame<int8_t, 8>(); }
VF_HARNESS(out_i8_8) { signed_out<int8_t, 8>(); }
VF_HARNESS(in_i8_5) { signed_frame<int8_t, 5>(); }
VF_HARNESS(out_i8_5) { signed_out<int8_t, 5>(); }

template<typename T, int Bits>
void unsigned_out() {
	using F = AudioFrame<T, Bits>;
	constexpr uint32_t top = (uint32_t)((uint64_t{1} << Bits) - 1);
	bool grid = Bits > 8 && sym_fork("grid", 0, 1);
	float x = grid ? (float)(int)vf_sym("x", VF_THOROUGH ? 8 : 6) * (VF_THOROUGH ? 0.0078125f : 0.03125f) - 1.f : sym<float>("x");
	vf_assume(x == x);
	T v = F::scaleOutput(x);
	vf_assert(v <= top, "an unsigned output fits the used bits");
	if (x <= -1.f)
		vf_assert(v == 0, "-1 and below are zero");
	else if (x >= 1.f)
		vf_assert(v == (T)top, "1 and above are the highest sample");
	else if (Bits <= 8 || (Bits <= 16 && grid)) {
		double want = ((double)x + 1.0) * 0.5 * (double)top;
		vf_assert((double)v <= want + 0.01 && (double)v >= want - 1.01, "an unsigned output maps -1..1 evenly, rounded down");
	}
	vf_observe(v);
}
VF_HARNESS(out_u8) { unsigned_out<uint8_t, 8>(); }
VF_HARNESS(out_u16) { unsigned_out<uint16_t, 16>(); }
VF_HARNESS(out_u32_12) { unsigned_out<uint32_t, 12>(); }
VF_HARNESS(out_u32_24) { unsigned_out<uint32_t, 24>(); }
VF_HARNESS(out_u32) { unsigned_out<uint32_t, 32>(); }

VF_HARNESS(saturate) {
	int32_t v = sym<int32_t>("v");
	uint32_t b = (uint32_t)sym_fork("bits", 0, 32);
	if (b > 0) {
		int64_t hi = (int64_t{1} << (b - 1)) - 1, lo = -hi - 1;
		vf_assert(MathTools::signed_saturate(v, b) == vf_select(v > hi, hi, vf_select(v < lo, lo, v)), "signed saturation keeps a value within so many bits");
	}
	if (b < 32) {
		int64_t hi = (int64_t{1} << b) - 1;
		vf_assert(MathTools::unsigned_saturate(v, b) == vf_select(v > hi, hi, vf_select(v < 0, 0, v)), "unsigned saturation keeps a value within so many bits");
	}
	vf_observe(v);
}
