// Averaging filters, slew filters and the filtered interpolation array over every history of inputs.
// vf-bound: window sizes 1, 2, 4, 8; every sequence of 2*Size+1 inputs of the declared bit width; ResizingOversampler: sizes 1..4, up to 3 inputs and then 3 (quick) / 4 (thorough) operations, 8-bit inputs; HysteresisFilter: sequences of 2 / 3 inputs on a grid of 1/64; FilteredInterpArray: 1 or 2 channels of integers, 6 / 8 operations after setting the update count; windows of 512 and 300 over two unknown values among known ones; update periods of 300 and 513 / 65600
#include "vf.h"
#include <array>
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"

template<unsigned Size, typename T, unsigned Bits>
void moving() {
	MovingAverage<Size, T, Bits> f;
	uint64_t in[2 * Size + 1];
	vf_assert(f.val() == 0, "the average starts at zero");
	for (size_t i = 0; i < 2 * Size + 1; i++) {
		in[i] = vf_sym("in", Bits);
		T got = f.add_val((T)in[i]);
		uint64_t sum = 0;
		for (size_t k = i + 1 < Size ? 0 : i + 1 - Size; k <= i; k++)
			sum += in[k];
		vf_assert(got == (T)(sum / Size), "the value is the average of the last Size inputs, rounded down");
		vf_assert(f.val() == got, "val repeats the last result");
		vf_observe(got);
	}
}
VF_HARNESS(moving_1) { moving<1, unsigned, 12>(); }
VF_HARNESS(moving_2) { moving<2, uint8_t, 8>(); }
VF_HARNESS(moving_4) { moving<4, unsigned, 12>(); }
VF_HARNESS(moving_4_wide) { moving<4, unsigned, 30>(); }
VF_HARNESS(moving_8_u16) { moving<8, uint16_t, 16>(); }

template<unsigned Size, typename T, unsigned Bits>
void oversample() {
	Oversampler<Size, T, Bits> f;
	SmoothOversampler<Size, T, Bits> s;
	uint64_t sum = 0, last = 0;
	float lastf = 0;
	for (size_t i = 0; i < 2 * Size + 1; i++) {
		T in = (T)vf_sym("in", Bits);
		sum += in;
		T got = f.add_val(in);
		float gotf = s.add_val(in);
		if ((i + 1) % Size == 0) {
			last = sum / Size;
			lastf = (float)(uint32_t)sum / (float)Size;
			sum = 0;
		}
		vf_assert(got == (T)last && f.val() == (T)last, "every Size inputs the value becomes their average, rounded down, and is held in between");
		vf_assert(fbits_of(gotf) == fbits_of(lastf) && fbits_of(s.val()) == fbits_of(lastf), "every Size inputs the value becomes their average and is held in between");
		vf_observe(got);
	}
}
VF_HARNESS(over_1) { oversample<1, unsigned, 12>(); }
VF_HARNESS(over_2) { oversample<2, uint8_t, 8>(); }
VF_HARNESS(over_4) { oversample<4, uint16_t, 16>(); }
VF_HARNESS(over_8) { oversample<8, unsigned, 12>(); }
VF_HARNESS(smooth_3) {
	SmoothOversampler<3, uint16_t, 12> s;
	uint32_t sum = 0;
	float last = 0;
	for (size_t i = 0; i < 7; i++) {
		uint16_t in = (uint16_t)vf_sym("in", 12);
		sum += in;
		float got = s.add_val(in);
		if ((i + 1) % 3 == 0) {
			last = (float)sum / 3.f;
			sum = 0;
		}
		vf_assert(got == last && s.val() == last, "every Size inputs the value becomes their average and is held in between");
		vf_observe(got == last);
	}
}

VF_HARNESS(resizing) {
	uint32_t size = (uint32_t)sym_fork("size", 1, 4);
	ResizingOversampler f{size}, other;
	uint32_t sum = 0, n = 0;
	float val = 0;
	size_t fill = sym_fork("fill", 0, 3);
	for (size_t st = 0; st < fill + (VF_THOROUGH ? 4 : 3); st++) {
		switch (st < fill ? 0 : sym_fork("op", 0, 3)) {
			case 0: {
				uint8_t in = sym<uint8_t>("in");
				float got = f.add_val(in);
				sum += in;
				if (++n >= size) {
					val = (float)sum / (float)size;
					sum = n = 0;
				}
				vf_assert(got == val, "add_val returns the held average");
				break;
			}
			case 1:
				size = (uint32_t)sym_fork("size", 1, 4);
				f.set_size(size);
				if (n >= size) {
					val = (float)sum / (float)n;
					sum = n = 0;
				}
				break;
			case 2:
				f.reset();
				sum = n = 0;
				val = 0;
				break;
			case 3:
				other = f;
				f = other;
				break;
		}
		vf_assert(f.val() == val, "the value is the average of the last full group of inputs, or of those collected when the size shrinks");
		vf_observe(fbits_of(val) == 0);
	}
	vf_reach("end");
}

VF_HARNESS(plain) {
	NoFilter<int32_t> f;
	CascadingFilter<unsigned, Oversampler<2>, MovingAverage<2>> c;
	vf_assert(f.val() == 0, "no filter starts at zero");
	unsigned held = 0, sum = 0, last = 0;
	for (int i = 0; i < 5; i++) {
		int32_t x = sym<int32_t>("x");
		vf_assert(f.add_val(x) == x && f.val() == x, "no filter passes every input through");
		unsigned in = (unsigned)vf_sym("in", 12);
		sum += in;
		if (i & 1) {
			held = sum / 2;
			sum = 0;
		}
		vf_assert(c.add_val(in) == held, "inputs go to the first filter");
		if (sym_fork("read", 0, 1)) {
			vf_assert(c.val() == (held + last) / 2, "reading feeds the second filter with the value of the first");
			last = held;
		}
		vf_observe(held);
	}
	vf_reach("end");
}

VF_HARNESS(slew) {
	// dead band of 1/8: the output moves only as far as needed to stay within it
	HysteresisFilter<1, 8> f;
	vf_assert(f.val() == 0.f, "the filter starts at zero");
	int32_t state = 0; // in 1/64
	for (int i = 0; i < (VF_THOROUGH ? 3 : 2); i++) {
		int32_t x = (int32_t)sym_range("x", 0, 255) - 128;
		float got = f.add_val((float)x / 64.f);
		int32_t d = x - state;
		int32_t over = (int32_t)vf_select(d > 8, (uint64_t)(int64_t)(d - 8), vf_select(d < -8, (uint64_t)(int64_t)(d + 8), 0));
		state += over;
		vf_assert(got == (float)state / 64.f, "the output stays put inside the dead band and follows at its edge outside");
		vf_assert(f.val() == got, "val repeats the output");
		vf_observe(fbits_of(got));
	}
}
VF_HARNESS(quadratic) {
	QuadraticOnePoleLp<4> f;
	int32_t x = (int32_t)sym_range("x", 0, 255) - 128; // in 1/64
	float got = f.add_val((float)x / 64.f);
	int32_t sq = (int32_t)vf_select(x < 0, (uint64_t)(int64_t)(-x * x), (uint64_t)(int64_t)(x * x));
	vf_assert(got == (float)sq / 16384.f, "a step is the square of the distance, divided, towards the input");
	vf_assert(f.val() == got, "val repeats the output");
	vf_observe(fbits_of(got));
}

template<size_t N>
void interp_array() {
	FilteredInterpArray<N, NoFilter<int32_t>, int32_t> a;
	vf_assert(a.size() == N, "size is the number of channels");
	uint32_t period = 256, count = 0;
	int32_t cur[N]{}, target[N]{}, step[N]{};
	bool ready = false;
	for (int st = -1; st < (VF_THOROUGH ? 8 : 6); st++) {
		switch (st < 0 ? 3 : sym_fork("op", 0, st == 2 ? 3 : 2)) {
			case 0:
				a.mark_new_data_ready();
				ready = true;
				break;
			case 1: {
				int32_t r[N];
				unsigned reads = 0, order = 0;
				a.add_new_readings([&](unsigned i) {
					order |= i != reads++;
					return r[i] = (int32_t)sym_range("r", 0, 4000) - 2000;
				});
				vf_assert(reads == (ready ? N : 0) && !order, "each channel is read once when new data is ready, and not otherwise");
				if (ready) {
					if (count)
						period = count;
					for (size_t i = 0; i < N; i++) {
						target[i] = r[i];
						if (period)
							step[i] = (r[i] - cur[i]) / (int32_t)period;
					}
					count = 0;
					ready = false;
				}
				break;
			}
			case 2: {
				count++;
				unsigned outs = 0;
				bool ok = true;
				int32_t got[N];
				a.get_interp_values([&](unsigned i, int32_t v) {
					ok = ok && i == outs++ && i < N;
					got[i] = v;
				});
				vf_assert(ok && outs == N, "each channel is written once, in order");
				for (size_t i = 0; i < N; i++) {
					cur[i] = count >= period ? target[i] : cur[i] + step[i];
					vf_assert(got[i] == cur[i], "values move in equal steps and arrive exactly at the target after as many updates as the previous period had");
					vf_observe(got[i]);
				}
				break;
			}
			case 3:
				period = (uint32_t)sym_fork("period", 0, 3);
				a.set_num_updates(period);
				break;
		}
	}
	vf_reach("end");
}
VF_HARNESS(interp_array_1) { interp_array<1>(); }
VF_HARNESS(interp_array_2) { interp_array<2>(); }

// windows longer than a small counter holds
VF_HARNESS(big_windows) {
	static MovingAverage<512, unsigned, 12> m;
	static Oversampler<512, unsigned, 12> o;
	static SmoothOversampler<300, unsigned, 12> s;
	static ResizingOversampler z{300};
	unsigned a = (unsigned)sym_range("a", 0, 4095), b = (unsigned)sym_range("b", 0, 4095);
	// 7 everywhere but for the 101st input and the 401st
	auto at = [&](unsigned i) { return i == 100 ? a : i == 400 ? b : 7u; };
	auto total = [&](unsigned from, unsigned to) { // [from, to)
		bool ha = from <= 100 && to > 100, hb = from <= 400 && to > 400;
		return 7 * (to - from - ha - hb) + (ha ? a : 0) + (hb ? b : 0);
	};
	unsigned last = 0;
	float lastf = 0;
	for (unsigned i = 0; i < 1030; i++) {
		unsigned x = at(i);
		vf_assert(m.add_val(x) == total(i < 512 ? 0 : i - 511, i + 1) / 512, "the value is the average of the last Size inputs, rounded down");
		if (i % 512 == 511)
			last = total(i - 511, i + 1) / 512;
		vf_assert(o.add_val(x) == last, "the value changes after every Size inputs, to their average");
		if (i % 300 == 299)
			lastf = (float)total(i - 299, i + 1) / 300.f;
		vf_assert(s.add_val(x) == lastf, "the value changes after every Size inputs, to their average");
		if (i < 600) {
			if (i == 100 || i == 400)
				x = 9;
			vf_assert(z.add_val((float)x) == (i < 299 ? 0.f : (7 * 299 + 9) / 300.f), "the value changes after every Size inputs, to their average");
		}
	}
	vf_observe(a);
}

// update periods longer than a small counter holds: set, then measured
static void long_periods(uint32_t set, uint32_t run) {
	vf_progress(100000000);
	FilteredInterpArray<1, NoFilter<uint32_t>, uint32_t> a;
	uint32_t v1 = (uint32_t)sym_range("v", 0, 4000), v2 = v1 + (uint32_t)sym_range("rise", 0, 4000);
	auto update = [&](uint32_t v) {
		a.mark_new_data_ready();
		a.add_new_readings([&](unsigned) { return v; });
	};
	auto next = [&] {
		uint32_t r = 0;
		a.get_interp_values([&](unsigned, uint32_t v) { r = v; });
		return r;
	};
	a.set_num_updates(set);
	update(v1);
	uint32_t cur = 0, step = v1 / set;
	for (uint32_t i = 1; i <= run; i++) {
		cur = i >= set ? v1 : cur + step;
		uint32_t got = next();
		if (i == 1 || i == 45 || i == 256 || (i & 0x7FFF) == 0 || i + 1 == set || i >= run - 1)
			vf_assert(got == cur, "values move in equal steps and arrive exactly at the target after as many updates as were set");
	}
	update(v2);
	step = (v2 - cur) / run;
	for (uint32_t i = 1; i <= run + 2; i++) {
		cur = i >= run ? v2 : cur + step;
		uint32_t got = next();
		if (i == 1 || i == 74 || i == 256 || (i & 0x7FFF) == 0 || i + 1 >= run)
			vf_assert(got == cur, "values move in equal steps and arrive exactly at the target after as many updates as the previous period had");
	}
	vf_observe(cur);
}
VF_HARNESS(long_period) { long_periods(300, 330); }
VF_HARNESS(longer_period) { long_periods(VF_THOROUGH ? 65600 : 513, VF_THOROUGH ? 65601 : 258); }
