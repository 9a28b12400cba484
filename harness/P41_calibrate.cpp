// Calibrator and VoctCalibrator: calibration recovers the line through the measurements.
// vf-bound: Calibrator: slopes 1/4, 1, -2, 8, 3, -5 through points 1 or 4 apart, queries over 5-bit (quick) / 8-bit (thorough) integers; VoctCalibrator<float> and <int>: histories of 4 / 5 recordings at notes C0, C1, C3 and None with any 3-bit (float) / 5-bit (int) measurements, and exact lines of any 2-bit / 4-bit slope and offset
// vf-assume: distinct measurements where a slope is taken
#include "vf.h"
#include <type_traits>
#include <utility>
#include "util/calibrator.hh"
#include "util/voct_calibrator.hh"

constexpr unsigned B = VF_THOROUGH ? 8 : 5;
static float num(const char *n) {
	return (float)((int)vf_sym(n, B) - (1 << (B - 1)));
}
VF_HARNESS(line) {
	static const float slopes[6] = {0.25f, 1.f, -2.f, 8.f, 3.f, -5.f};
	static const float targets[3] = {-3.f, 0.f, 5.f}, lows[3] = {0.f, -4.f, 2.5f};
	float s = slopes[sym_fork("slope", 0, 5)];
	float d = (float)(1 << 2 * sym_fork("dist", 0, 1)) * (sym_fork("down", 0, 1) ? -1.f : 1.f);
	float ml = lows[sym_fork("measured", 0, 2)];
	bool p2 = s != 3.f && s != -5.f;
	// on other slopes the lower target is a multiple of the slope: everything stays exact
	float tl = targets[sym_fork("target", 0, 2)] * (p2 ? 1.f : s);
	float th = tl + s * d, mh = ml + d;
	Calibrator c;
	switch (sym_fork("how", 0, 3)) {
		case 0:
			c.calibrate_chan(tl, th, ml, mh);
			break;
		case 1:
			c.calibrate_chan({tl, th}, {ml, mh});
			break;
		case 2:
			c = Calibrator({tl, th}, {ml, mh});
			break;
		case 3:
			c.set_slope_offset(s, ml - tl / s);
			break;
	}
	vf_assert(c.slope() == s, "the slope is that of the line through the points");
	vf_assert(c.adjust(ml) == tl && c.adjust(mh) == th, "adjusting maps the measurements onto their targets");
	vf_assert(c.reverse_calibrate(tl) == ml && c.reverse_calibrate(th) == mh, "reversing maps the targets onto their measurements");
	float x = num("x"), y = s * (x - ml) + tl;
	vf_assert(c.adjust(x) == y, "adjusting is linear");
	vf_assert(c.reverse_calibrate(y) == x, "reversing undoes adjusting");
	vf_observe(x > 1.f);
}
VF_HARNESS(fresh) {
	Calibrator c;
	float x = num("x");
	vf_assert(c.adjust(x) == x && c.reverse_calibrate(x) == x, "a fresh calibrator changes nothing");
	Calibrator e{2.f, 3.f};
	vf_assert(e.slope() == 2.f && e.offset() == 3.f && e.adjust(x) == (x - 3.f) * 2.f, "slope and offset are those given");
	vf_observe(x > 0.f);
}

template<typename T>
void voct_line() {
	using V = VoctCalibrator<T>;
	using Note = typename V::Note;
	static const int notes[4] = {0, 1, 3, 10};
	constexpr unsigned W = std::is_integral_v<T> ? 4 : 2;
	T s = (T)((int)vf_sym("slope", W) - (1 << (W - 1))), o = (T)((int)vf_sym("offset", W) - (1 << (W - 1)));
	vf_assume(s != 0);
	V v;
	vf_assert(v.slope() == 0 && v.offset() == 0, "a fresh calibrator has slope and offset 0");
	if (sym_fork("junk", 0, 1)) {
		// earlier measurements, forgotten
		v.record_measurement(Note::C0, (T)1);
		v.record_measurement(Note::C5, (T)77);
		v.reset();
		vf_assert(v.slope() == 0 && v.offset() == 0, "reset forgets slope and offset");
	}
	int n = std::is_integral_v<T> ? (int)sym_fork("n", 2, 3) : 2;
	int last = -1;
	for (int i = 0; i < n; i++) {
		int k = notes[sym_fork("note", 0, 3)];
		if (k == last)
			vf_stop();
		v.record_measurement((Note)k, (T)(o + s * (T)k));
		if (sym_fork("none", 0, 1))
			v.record_measurement(Note::None, (T)99);
		last = k;
	}
	vf_assert(v.slope() == s, "measurements on a line give its slope");
	vf_assert(v.offset() == o, "measurements on a line give its offset");
	vf_observe(n);
}
VF_HARNESS(voct_line_float) { voct_line<float>(); }
VF_HARNESS(voct_line_int) { voct_line<int>(); }

// any measurements: the latest two give the slope, C0 the offset
template<typename T>
void voct_any() {
	using V = VoctCalibrator<T>;
	using Note = typename V::Note;
	V v;
	if (sym_fork("junk", 0, 1)) {
		// earlier measurements, forgotten: what follows starts afresh
		v.record_measurement(Note::C1, (T)3);
		v.record_measurement(Note::C5, (T)77);
		v.reset();
	}
	T m[2] = {}, slope{}, offset{};
	int note[2] = {}, n = 0;
	bool c0 = false;
	for (int i = 0; i < (VF_THOROUGH ? 5 : 4); i++) {
		static const int notes[4] = {0, 1, 3, 11};
		int k = notes[sym_fork("note", 0, 3)];
		T x = (T)((int)vf_sym("m", std::is_integral_v<T> ? 5 : 3));
		v.record_measurement((Note)k, x);
		if (k == 11)
			continue;
		note[0] = note[1];
		m[0] = m[1];
		note[1] = k;
		m[1] = x;
		n++;
		if (k == 0) {
			c0 = true;
			offset = x;
		}
		vf_assert(vf_implies(c0, v.offset() == offset), "once C0 is measured, its measurement is the offset");
		if (n >= 2 && note[0] != note[1] && (note[1] - note[0] == 2 || note[0] - note[1] == 2 || std::is_integral_v<T> || note[1] - note[0] == 1 || note[0] - note[1] == 1)) {
			vf_assume(m[0] != m[1]);
			slope = (T)((m[0] - m[1]) / (T)(note[0] - note[1]));
			vf_assert(v.slope() == slope, "the slope is that between the latest two different notes");
		}
		if (n < 2)
			vf_assert(v.slope() == 0 && vf_implies(!c0, v.offset() == 0), "one measurement gives no slope, and no offset unless it is C0");
	}
	vf_reach("end");
}
VF_HARNESS(voct_any_int) { voct_any<int>(); }
VF_HARNESS(voct_any_float) { voct_any<float>(); }
