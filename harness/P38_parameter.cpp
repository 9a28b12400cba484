// LatchedParam, Parameter, RefParameter and RotaryMotion over every history.
// vf-bound: every history of 4 (quick) / 5 (thorough) operations (float: 3 / 4), every 8-bit and 16-bit integer value, float values on a grid of 1/8
// vf-assume: signed distances fit their type
#include "vf.h"
#include "util/parameter.hh"
#include "util/rotary_motion.hh"

constexpr int N = VF_THOROUGH ? 5 : 4;

template<typename T, unsigned Num, unsigned Den, int Steps = N, typename Gen>
void latched(Gen gen) {
	LatchedParam<T, Num, Den> p;
	T val{0};
	bool changed = false;
	for (int i = 0; i < Steps; i++) {
		switch (sym_fork("op", 0, 3)) {
			case 0: {
				T v = gen();
				T d = v > val ? v - val : val - v;
				bool far = d >= T(Num) / T(Den);
				vf_assert(p.store_changed(v) == far, "a new value is taken exactly when it is at least the minimum change away");
				if (far) {
					val = v;
					changed = true;
				}
				break;
			}
			case 1:
				vf_assert(p.did_change() == changed, "a change is reported once");
				changed = false;
				break;
			case 2:
				val = gen();
				p = val;
				break;
			case 3: {
				LatchedParam<T, Num, Den> q;
				q = p;
				vf_assert(q.did_change() == changed, "a copy takes over value and change");
				vf_assert((T)q == val, "a copy takes over value and change");
				break;
			}
		}
		vf_assert((T)p == val, "the value is the last one taken");
		vf_observe(changed);
	}
	vf_reach("end");
}
VF_HARNESS(latched_u8) { latched<uint8_t, 4, 1>([] { return sym<uint8_t>("v"); }); }
VF_HARNESS(latched_u32) { latched<uint32_t, 1000, 1>([] { return sym<uint32_t>("v"); }); }
VF_HARNESS(latched_i16) { latched<int, 7, 2>([] { return (int)sym<int16_t>("v"); }); }
VF_HARNESS(latched_float) { latched<float, 1, 4, N - 1>([] { return (float)((int)vf_sym("v", 3) - 4) * 0.125f; }); }

template<typename T>
void param() {
	T init = sym<T>("init");
	bool def = sym_fork("default", 0, 1);
	Parameter<T> p = def ? Parameter<T>{} : Parameter<T>{init};
	T val = def ? T{0} : init;
	bool changed = true; // a fresh parameter counts as changed
	for (int i = 0; i < N; i++) {
		switch (sym_fork("op", 0, 2)) {
			case 0: {
				T v = sym<T>("v");
				if (sym_fork("assign", 0, 1))
					p = v;
				else
					p.setValue(v);
				changed = vf_or(changed, v != val);
				val = v;
				break;
			}
			case 1:
				vf_assert(p.isChanged() == changed, "a parameter reports once that it was set to a different value");
				changed = false;
				break;
			case 2: {
				Parameter<T> q = p;
				vf_assert(q.getValue() == val, "a copy has the value");
				break;
			}
		}
		vf_assert(p.getValue() == val, "the value is the last one set");
		vf_assert((T)p == val, "the value is the last one set");
		vf_observe(changed);
	}
	vf_reach("end");
}
VF_HARNESS(param_u16) { param<uint16_t>(); }
VF_HARNESS(param_i32) { param<int32_t>(); }

VF_HARNESS(ref_param) {
	int32_t outer = sym<int32_t>("init"), val = outer, seen = 0;
	RefParameter<int32_t> p{outer};
	for (int i = 0; i < N; i++) {
		switch (sym_fork("op", 0, 3)) {
			case 0:
				val = sym<int32_t>("v");
				p.setValue(val);
				break;
			case 1:
				val = sym<int32_t>("v");
				p = val;
				break;
			case 2: // set from outside
				val = outer = sym<int32_t>("v");
				break;
			case 3:
				vf_assert(p.isChanged() == (val != seen), "a change is reported when the value differs from that at the last report");
				seen = val;
				break;
		}
		vf_assert(p.getValue() == val, "the parameter is the value referred to");
		vf_assert((int32_t)p == val, "the parameter is the value referred to");
		vf_assert(outer == val, "the value referred to is the parameter");
		vf_observe(val);
	}
	vf_reach("end");
}

VF_HARNESS(rotary) {
	RotaryMotion r[2];
	int32_t pos[2] = {0, 0}, mot[2] = {0, 0};
	for (int i = 0; i < N; i++) {
		size_t k = sym_fork("which", 0, 1);
		switch (sym_fork("op", 0, 3)) {
			case 0: { // the encoder moves
				int32_t m = sym<int16_t>("m");
				RotaryMotion in{0, m};
				r[k].add_motion(in);
				vf_assert(in.motion == m, "adding leaves the source alone");
				pos[k] += m;
				mot[k] += m;
				break;
			}
			case 1:
				vf_assert(r[k].use_motion() == mot[k], "using gives the motion since it was last used");
				mot[k] = 0;
				break;
			case 2:
				r[k].transfer_motion(r[1 - k]);
				pos[k] += mot[1 - k];
				mot[k] += mot[1 - k];
				mot[1 - k] = 0;
				break;
			case 3:
				r[k].add_motion(r[1 - k]);
				pos[k] += mot[1 - k];
				mot[k] += mot[1 - k];
				break;
		}
		for (int j = 0; j < 2; j++) {
			vf_assert(r[j].motion == mot[j], "motion is neither lost nor doubled");
			vf_assert(r[j].abs_pos == pos[j], "the position is the sum of all motion");
		}
		vf_observe(mot[k]);
	}
	vf_reach("end");
}
