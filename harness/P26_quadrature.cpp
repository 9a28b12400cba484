// QuadratureEncoder: motion is reported exactly at the end of each full step, whatever the sequence of readings.
// vf-bound: every sequence of 6 (quick) / 9 (thorough) readings of the two pins from construction, repeated readings included; normal and inverted decoders
#include "vf.h"
#include "util/quadrature_encoder.hh"

template<bool Invert>
void sequence(int steps) {
	using Enc = QuadratureEncoder<Invert>;
	Enc e;
	// the last four distinct readings as (a, b), oldest first; power-on counts as both low
	bool ha[4]{}, hb[4]{};
	for (int i = 0; i < steps; i++) {
		bool a = sym_fork("a", 0, 1), b = sym_fork("b", 0, 1);
		auto m = e.get_motion(a, b);
		if (a == ha[3] && b == hb[3]) {
			vf_assert(m == Enc::None, "an unchanged reading is no motion");
			continue;
		}
		for (int k = 0; k < 3; k++)
			ha[k] = ha[k + 1], hb[k] = hb[k + 1];
		ha[3] = a, hb[3] = b;
		// clockwise: pin a returns first, then b: (1,0) (0,0) (0,1) (1,1); inverted pins: all complemented
		auto is = [&](bool a0, bool b0, bool a1, bool b1, bool a2, bool b2, bool a3, bool b3) {
			auto eq = [&](int k, bool x, bool y) { return ha[k] == (x != Invert) && hb[k] == (y != Invert); };
			return eq(0, a0, b0) && eq(1, a1, b1) && eq(2, a2, b2) && eq(3, a3, b3);
		};
		bool cw = is(1, 0, 0, 0, 0, 1, 1, 1), ccw = is(0, 1, 0, 0, 1, 0, 1, 1);
		vf_assert(m == (cw ? Enc::CW : ccw ? Enc::CCW : Enc::None), "a step is reported exactly when its last four readings complete the cycle in that direction");
		vf_observe((uint64_t)(int64_t)m);
		if (cw)
			vf_reach("cw");
		if (ccw)
			vf_reach("ccw");
	}
	vf_reach("end");
}
VF_HARNESS(quad_normal) { sequence<false>(VF_THOROUGH ? 9 : 6); }
VF_HARNESS(quad_inverted) { sequence<true>(VF_THOROUGH ? 9 : 6); }

// a turn without bounce: one report per detent, in the direction turned, at the detent
VF_HARNESS(rotation) {
	using Enc = QuadratureEncoder<>;
	static const bool A[4] = {1, 1, 0, 0}, B[4] = {1, 0, 0, 1};
	Enc e;
	e.get_motion(true, true);
	int q = 0;
	for (int i = 0; i < (VF_THOROUGH ? 6 : 4); i++) {
		int dir = sym_fork("dir", 0, 1) ? 1 : -1;
		for (int k = 0; k < 4; k++) {
			q += dir;
			int m = (int)e.get_motion(A[q & 3], B[q & 3]);
			int want = dir;
			vf_assert(m == (k == 3 ? want : 0), "turning from detent to detent reports exactly one step, in the direction turned");
			for (size_t rep = sym_fork("repeat", 0, 1); rep; rep--)
				vf_assert(e.get_motion(A[q & 3], B[q & 3]) == Enc::None, "an unchanged reading is no motion");
		}
		vf_observe((uint64_t)q);
		vf_merge(i);
	}
}
