// Edge and change detectors, Schmitt triggers and hysteresis gates over every sequence of inputs.
// vf-bound: detectors: every sequence of 6 (quick) / 9 (thorough) inputs; Schmitt triggers and hysteresis: every float (NaN and infinities included) for Schmitt thresholds and inputs and hysteresis_feedback, sequences of 3 / 4 inputs; hysteresis_gate: thresholds and inputs on a grid of 1/256 / 1/4096
#include "vf.h"
#include "util/change_detector.hh"
#include "util/edge_detector.hh"
#include "util/math.hh"
#include "util/schmitt_trigger.hh"

constexpr int N = VF_THOROUGH ? 9 : 6;

VF_HARNESS(edge_state) {
	EdgeStateDetector d;
	bool last = false, now = false;
	for (int i = 0; i < N; i++) {
		size_t op = sym_fork("op", 0, 2);
		if (op == 2) {
			d.reset();
			last = now = false;
		} else {
			d.update(op);
			last = now;
			now = op;
		}
		vf_assert(d.is_high() == now, "the state is the last one given");
		vf_assert(d.changed() == (last != now), "changed tells whether the last two states differ");
		vf_assert(d.went_high() == (!last && now) && d.went_low() == (last && !now), "edges are reported by direction");
		vf_assert(d.staying_high() == (last && now) && d.staying_low() == (!last && !now), "steady states are reported");
		vf_observe(d.changed());
		vf_merge(i);
	}
}
VF_HARNESS(edges) {
	RisingEdgeDetector r;
	FallingEdgeDetector f;
	bool last = false;
	for (int i = 0; i < N; i++) {
		bool s = sym_fork("s", 0, 1);
		vf_assert(r.update(s) == (s && !last), "a rising edge is reported exactly when the input goes high");
		vf_assert(f.update(s) == (!s && last), "a falling edge is reported exactly when the input goes low");
		last = s;
		vf_observe(s);
		vf_merge(i);
	}
}
VF_HARNESS(changes) {
	ChangeDetector d;
	bool last = false, pending = false;
	for (int i = 0; i < N; i++) {
		size_t op = sym_fork("op", 0, 2);
		if (op == 2) {
			vf_assert(d.changed() == pending, "changed is true exactly when the state has changed since it was last asked");
			pending = false;
		} else {
			d.update(op);
			pending = pending || (bool)op != last;
			last = op;
		}
		vf_observe(pending);
		vf_merge(i);
	}
	vf_assert(d.changed() == pending, "changed is true exactly when the state has changed since it was last asked");
	vf_assert(!d.changed(), "a change is reported once");
}

VF_HARNESS(schmitt) {
	float lo = sym<float>("lo"), hi = sym<float>("hi");
	cpputil::SchmittTrigger t{lo, hi};
	cpputil::RisingSchmittTrigger r{lo, hi};
	bool high = false, rose = false, fell = false;
	for (int i = 0; i < (VF_THOROUGH ? 4 : 3); i++) {
		float v = sym<float>("v");
		t.process(v);
		bool up = r.update(v);
		bool was = high;
		if (!was && v > hi)
			high = true;
		else if (was && v < lo)
			high = false;
		vf_assert(t.is_high() == high, "the output goes high above the high threshold, low below the low one, and otherwise stays");
		vf_assert(up == (!was && high), "a rising trigger is reported once, when the output goes high");
		if (!was && high)
			rose = true, fell = false;
		if (was && !high)
			fell = true, rose = false;
		vf_observe(high);
	}
	vf_assert(t.just_went_high() == rose && t.just_went_low() == fell, "the last edge is pending");
}
VF_HARNESS(schmitt_default) {
	cpputil::SchmittTrigger t;
	cpputil::RisingSchmittTrigger r;
	for (int i = 0; i < 2; i++) {
		float v = sym<float>("v");
		bool was = t.is_high();
		t.process(v);
		bool want = was ? !(v < 0.4f) : v > 0.6f;
		vf_assert(t.is_high() == want, "the default thresholds are 0.4 and 0.6");
		vf_assert(r.update(v) == (want && !was), "the default thresholds are 0.4 and 0.6");
		vf_observe(want);
	}
}
VF_HARNESS(hysteresis_gate) {
	constexpr int G = VF_THOROUGH ? 4096 : 256;
	uint32_t a = sym_range("off", 0, G), b = sym_range("on", 0, G), x = sym_range("v", 0, G);
	vf_assume(b >= a);
	float off = (float)a / G, on = (float)b / G, v = (float)x / G;
	bool was = sym_fork("was", 0, 1);
	float out = MathTools::hysteresis_gate(off, on, was ? 1.f : 0.f, v);
	vf_assert(out == 0.f || out == 1.f, "the output is 0 or 1");
	// a margin of rounding around the thresholds
	constexpr float e = 1e-6f;
	if (!was) {
		vf_assert(vf_implies(x == b, out == 0.f), "an input equal to the turn-on threshold does not exceed it");
		vf_assert(vf_implies(v > on + e, out == 1.f), "an input above the turn-on threshold turns the gate on");
		vf_assert(vf_implies(v < on - e, out == 0.f), "an input below the turn-on threshold does not turn the gate on");
	} else {
		vf_assert(vf_implies(x == a, out == 1.f), "an input equal to the turn-off threshold is not below it");
		vf_assert(vf_implies(v > off + e, out == 1.f), "an input above the turn-off threshold does not turn the gate off");
		vf_assert(vf_implies(v < off - e, out == 0.f), "an input below the turn-off threshold turns the gate off");
	}
	vf_observe(out == 1.f);
}
VF_HARNESS(hysteresis_feedback) {
	float fb = sym<float>("fb"), th = sym<float>("th"), v = sym<float>("v");
	vf_assume(fb >= 0.f && fb <= 1.f && th >= 0.f && th <= 1.f && v >= 0.f && v <= 1.f);
	bool was = sym_fork("was", 0, 1);
	float out = MathTools::hysteresis_feedback(fb, th, was ? 1.f : 0.f, v);
	vf_assert(out == 0.f || out == 1.f, "the output is 0 or 1");
	if (!was)
		vf_assert((out == 1.f) == (v > th), "off: the input must exceed the threshold");
	else
		vf_assert((out == 1.f) == (v + fb > th), "on: the feedback is added before comparing");
	vf_observe(out == 1.f);
}
