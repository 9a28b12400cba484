// Oscillators, phase accumulators, down counters and one-shots over every phase, frequency and history.
// vf-source: util/math_tables.cc
// vf-bound: every 32-bit phase and frequency, 3 (quick) / 5 (thorough) updates; float frequencies and one-shot widths on exact grids; SineOscillator: phases in steps of 1/2 table position around the ends of the quarters (quick) / of 1/16 around the ends of the 16th parts (thorough) of a cycle
// vf-assume: periods above zero; update rates 48000, 1000 and 1024
#include "vf.h"
#include <type_traits>
#include "util/oscs.hh"

constexpr int N = VF_THOROUGH ? 5 : 3;

// triangle of a phase
static uint32_t tri(uint32_t p) {
	return (uint32_t)vf_select(p < 0x80000000u, 2 * p, 0xFFFFFFFFu - 2 * p);
}

template<int Rate>
void triangle() {
	constexpr uint32_t unit = 0xFFFFFFFFu / Rate;
	uint32_t f = sym<uint32_t>("freq"), ph = 0, inc = f * unit;
	TriangleOscillator<Rate> o{f}, idle;
	idle.update();
	vf_assert(idle.val() == 0, "an oscillator without a frequency stands still");
	vf_assert(o.val() == 0, "the phase starts at zero");
	for (int i = 0; i < N; i++) {
		size_t op = sym_fork("op", 0, 5);
		switch (op) {
			case 0:
				o.update();
				ph += inc;
				break;
			case 1:
				ph += inc;
				vf_assert(o.process() == tri(ph), "processing advances the phase and gives the value");
				break;
			case 2:
				ph = sym<uint32_t>("phase");
				o.set_phase(ph);
				break;
			case 3: {
				uint32_t g = sym<uint32_t>("freq");
				if (sym_fork("signed", 0, 1))
					o.set_frequency((int)g);
				else
					o.set_frequency(g);
				inc = g * unit;
				break;
			}
			case 4: {
				// half steps of a frequency
				uint32_t h = (uint32_t)sym_fork("half", 0, 4);
				o.set_frequency((float)h * 0.5f);
				inc = (uint32_t)((uint64_t)h * unit / 2);
				// the float of freq_units may round
				break;
			}
			case 5: {
				uint32_t s = sym<uint32_t>("sec");
				vf_assume(s > 0);
				o.set_period_sec(s);
				inc = unit / s;
				break;
			}
		}
		if (op == 4)
			break;
		vf_assert(o.val() == tri(ph), "the value rises from 0 to the maximum in half a cycle and falls back in the other");
		vf_observe(o.val());
	}
	vf_reach("end");
}
VF_HARNESS(tri_48000) { triangle<48000>(); }
VF_HARNESS(tri_1000) { triangle<1000>(); }

// increments from a period or a float frequency, seen through the phase after one update
template<int Rate>
void triangle_rates() {
	constexpr uint32_t unit = 0xFFFFFFFFu / Rate;
	TriangleOscillator<Rate> o;
	uint32_t ms = (uint32_t)sym_range("ms", 1, 5000);
	o.set_period_ms(ms);
	o.update();
	// one cycle per period: the phase per update is max / rate / seconds, within one unit in 1/2^20
	uint64_t want = (uint64_t)unit * 1000 / ms;
	uint64_t got = o.val() / 2; // rising half as long as the period is more than two updates
	if (want < 0x7FFFFFFF) {
		uint64_t slack = want / 1000000 + 2;
		vf_assert(got + slack >= want && got <= want + slack, "a period in milliseconds sets one cycle per period");
	}
	vf_observe(got);
}
VF_HARNESS(tri_period_48000) { triangle_rates<48000>(); }
VF_HARNESS(tri_period_1000) { triangle_rates<1000>(); }
// seconds, minutes, days
template<int Rate>
void triangle_long() {
	constexpr uint32_t unit = 0xFFFFFFFFu / Rate;
	static const uint32_t periods[] = {5001, 32768, 65535, 65536, 70001, 100000, 3600000, 4294968, 86400000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
	TriangleOscillator<Rate> o;
	uint32_t ms = periods[sym_fork("ms", 0, 11)];
	o.set_period_ms(ms);
	o.update();
	uint64_t want = (uint64_t)unit * 1000 / ms;
	uint64_t got = o.val() / 2;
	uint64_t slack = want / 1000000 + 1;
	vf_assert(got + slack >= want && got <= want + slack, "a long period in milliseconds sets one cycle per period");
	vf_observe(got);
}
VF_HARNESS(tri_long_48000) { triangle_long<48000>(); }
VF_HARNESS(tri_long_10) { triangle_long<10>(); }
VF_HARNESS(tri_float) {
	TriangleOscillator<1024> o; // unit 2^22 - 1: exact as a float
	uint32_t q = (uint32_t)sym_fork("quarter", 0, 16);
	o.set_frequency((float)q * 0.25f);
	o.update();
	uint64_t want = (uint64_t)q * (0xFFFFFFFFu / 1024) / 4;
	uint64_t got = o.val() / 2;
	vf_assert(got + 1 >= want && got <= want + 1, "a float frequency sets the same rate as an integer one");
	TriangleOscillator<1024> p;
	p.set_phase(sym<uint32_t>("phase"));
	float v = p.process_float();
	vf_assert(v >= 0.f && v <= 1.f, "float values are between 0 and 1");
	vf_assert(v == (float)p.val() / 4294967295.f, "the float value is the integer value over its maximum");
	vf_observe(got);
}

template<int Rate>
void accum() {
	constexpr uint32_t unit = 0xFFFFFFFFu / Rate;
	uint32_t f = sym<uint32_t>("freq"), ph = 0, inc = f * unit;
	PhaseAccum<Rate> o{f};
	RampOscillator<Rate> idle;
	vf_assert(idle.process() == 0 && idle.process() == 0, "an accumulator without a frequency stands still");
	for (int i = 0; i < N; i++) {
		switch (sym_fork("op", 0, 4)) {
			case 0:
				o.update();
				ph += inc;
				break;
			case 1:
				ph += inc;
				vf_assert((sym_fork("cap", 0, 1) ? o.Process() : o.process()) == ph, "processing advances the phase and gives it");
				break;
			case 2:
				ph = sym<uint32_t>("phase");
				o.set_phase(ph);
				break;
			case 3: {
				uint32_t g = sym<uint32_t>("freq");
				o.set_frequency(g);
				inc = g * unit;
				break;
			}
			case 4: {
				ph += inc;
				float v = o.process_float();
				vf_assert(v >= 0.f && v <= 1.f, "the float phase is between 0 and 1");
				break;
			}
		}
		vf_assert(o.val() == ph, "the phase advances by frequency x full scale / rate at each update, wrapping around");
		vf_observe(o.val());
	}
	vf_reach("end");
}
VF_HARNESS(accum_48000) { accum<48000>(); }
VF_HARNESS(accum_1000) { accum<1000>(); }

VF_HARNESS(sine) {
	// stand still at any phase
	uint32_t idx = VF_THOROUGH ? (uint32_t)(sym_fork("octant", 0, 15) * 128 + sym_fork("near", 0, 3) + 2046) % 2048 : (uint32_t)(sym_fork("quarter", 0, 3) * 512 + sym_fork("near", 0, 1) + 2047) % 2048;
	uint32_t ph = idx << 21 | (uint32_t)vf_sym("fine", VF_THOROUGH ? 4 : 1) << (VF_THOROUGH ? 17 : 20);
	SineOscillator<48000> o;
	o.set_phase(ph);
	float b = o.process_bipolar();
	vf_assert(b >= -1.f && b <= 1.f, "the sine is between -1 and 1");
	float u = o.process_unipolar();
	vf_assert(u >= 0.f && u <= 1.f, "the unipolar sine is between 0 and 1");
	o.set_phase(ph);
	uint32_t v = o.process();
	double dv = (double)v / 4294967296.0, du = (double)u;
	vf_assert(dv - du < 1e-6 && du - dv < 1e-6, "the integer value is the unipolar value at full scale");
	vf_observe(v >= 0x80000000u);
}
VF_HARNESS(sine_halves) {
	uint32_t k = (uint32_t)sym_fork("part", 0, VF_THOROUGH ? 63 : 7);
	uint32_t ph = k * (VF_THOROUGH ? 1u << 25 : 1u << 28) + (1u << 22) + ((uint32_t)vf_sym("fine", 1) << 20);
	SineOscillator<48000> o;
	o.set_phase(ph);
	float b = o.process_bipolar();
	vf_assert(b > 0.f, "the first half of a cycle is positive");
	o.set_phase(ph + 0x80000000u);
	float c = o.process_bipolar();
	vf_assert(c < 0.f, "the second half of a cycle is negative");
	vf_observe(b > 0.5f);
}
VF_HARNESS(sine_rate) {
	// val and process advance by the frequency
	uint32_t k = (uint32_t)sym_fork("k", 0, 3);
	SineOscillator<1024> o{k}, p;
	p.set_frequency(k);
	p.set_phase(0);
	RampOscillator<1024> r{k};
	for (int i = 0; i < 3; i++) {
		uint32_t ph = r.process();
		SineOscillator<1024> still;
		still.set_phase(ph);
		float want = still.process_bipolar();
		vf_assert(o.process_bipolar() == want, "the sine advances as a ramp of the same frequency does");
		o.set_phase(ph);
		vf_assert(p.process_bipolar() == want, "the sine advances as a ramp of the same frequency does");
	}
	vf_reach("end");
}

VF_HARNESS(down) {
	using D = DownCounter<48000>;
	constexpr uint32_t unit = 0xFFFFFFFFu / 48000;
	D d;
	uint32_t ph = 0xFFFFFFFFu, inc = 0xFFFFFFFFu;
	vf_assert(d.val() == ph, "the counter starts full");
	for (int i = 0; i < N + 1; i++) {
		switch (sym_fork("op", 0, 3)) {
			case 0:
				d.update();
				ph = (uint32_t)vf_select(inc == 0 || ph <= inc, 0, ph - inc);
				break;
			case 1:
				d.reset();
				ph = 0xFFFFFFFFu;
				break;
			case 2: {
				uint32_t f = sym<uint32_t>("freq");
				d.set_frequency(f);
				inc = f * unit;
				break;
			}
			case 3:
				ph = sym<uint32_t>("phase");
				d.set_phase(ph);
				break;
		}
		vf_assert(d.val() == ph, "each update takes off the increment and stops at zero; no increment empties it");
		vf_observe(d.val());
	}
	vf_reach("end");
}
VF_HARNESS(down_period) {
	DownCounter<1024> d;
	uint32_t ms = (uint32_t)sym_fork("ms", 1, 4) * 125; // exact in binary fractions of a second
	d.set_period_ms(ms);
	d.reset();
	uint32_t n = 0;
	while (d.val() && n < 2000) {
		d.update();
		n++;
	}
	uint32_t want = ms * 1024 / 1000;
	vf_assert(n + 1 >= want && n <= want + 1, "the counter runs out after its period");
	vf_observe(n);
}

// any other period: what one update takes off is full scale over the updates in the period
template<unsigned R>
void down_any() {
	static const uint32_t periods[] = {1, 7, 999, 1000, 1001, 1500, 4999, 32768, 65535, 65536, 70001, 100000, 3600000, 86400000, 0x7FFFFFFF, 0x80000000u};
	DownCounter<R> d;
	uint32_t ms = periods[sym_fork("ms", 0, 15)];
	vf_assume((uint64_t)ms * R > 2000 && (uint64_t)(0xFFFFFFFFu / R) * 1000 > ms); // at least two updates, and one unit per update
	d.set_period_ms(ms);
	d.reset();
	d.update();
	uint64_t got = 0xFFFFFFFFu - d.val(), want = (uint64_t)(0xFFFFFFFFu / R) * 1000 / ms;
	uint64_t slack = want / 100000 + 1;
	vf_assert(got + slack >= want && got <= want + slack, "an update takes off its part of the period");
	vf_observe(got >> 12);
}
VF_HARNESS(down_any_1000) { down_any<1000>(); }
VF_HARNESS(down_any_10) { down_any<10>(); }
VF_HARNESS(down_any_48000) { down_any<48000>(); }

// a period shorter than an update runs out in at most one update
template<unsigned R>
void down_short() {
	DownCounter<R> d;
	uint32_t ms = sym_range("ms", 0, 1023);
	vf_assume(ms * R < 1000);
	d.set_period_ms(ms);
	d.reset();
	d.update();
	vf_assert(d.val() == 0, "a period shorter than an update runs out in one update");
	vf_observe(ms);
}
VF_HARNESS(down_short_64) { down_short<64>(); }
VF_HARNESS(down_short_750) { down_short<750>(); }

VF_HARNESS(one_shot) {
	OneShot s{16.f};
	vf_assert(!s.update(), "nothing happens before a start");
	float bad[] = {0.f, -1.f};
	s.set_update_rate_hz(bad[sym_fork("bad", 0, 1)]); // ignored
	uint32_t rate = 16;
	for (int round = 0; round < 2; round++) {
		uint32_t k = (uint32_t)sym_fork("k", 0, round ? 2 : 6); // width in 1/32 s
		if (round && sym_fork("faster", 0, 1)) {
			rate = 32;
			s.set_update_rate_hz(32.f);
		}
		uint32_t n = rate == 32 ? k : (k + 1) / 2;
		s.start((float)k / 32.f);
		uint32_t run = (uint32_t)sym_fork("run", 0, round ? 3 : 7);
		for (uint32_t i = 0; i < run; i++)
			vf_assert(s.update() == (i < n), "the pulse is on for the first updates covering its width, and then off");
		if (sym_fork("stop", 0, 1)) {
			s.stop();
			vf_assert(!s.update(), "a stopped pulse is off");
		}
		vf_observe(n);
	}
	vf_reach("end");
}

// fewer than one update a second
VF_HARNESS(one_shot_slow) {
	OneShot s = sym_fork("how", 0, 1) ? OneShot{0.25f} : OneShot{};
	s.set_update_rate_hz(0.25f);
	uint32_t k = (uint32_t)sym_fork("k", 0, 10); // width in s
	s.start((float)k);
	for (uint32_t i = 0; i < 4; i++)
		vf_assert(s.update() == (i < (k + 3) / 4), "a slow pulse is on for the first updates covering its width");
	vf_reach("end");
}
