// Toggler, TogglerCompact, TogglerCounter, Debouncer and DebouncerCounter over every sequence of samples and queries.
// vf-bound: Toggler and TogglerCompact: from every state, histories of 3 (quick) / 5 (thorough) operations over two togglers; TogglerCounter: every history of 4 / 6 operations, and steady runs of 300 / 70000 samples; Debouncer patterns over 3 to 6 samples wide, every sequence of 7 / 10 samples, and the default 12-sample debouncer over every sequence of 14 / 17 samples; patterns 9, 20 and 32 samples wide over a steady run, a pulse of 1-3 samples, a run of 1-32 and 3 more
// vf-assume: samples are 0 or 1
#include "vf.h"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"

struct Model {
	bool high = false, rose = false, fell = false;
};

template<typename T>
static void check_state(T &t, const Model &m) {
	vf_assert(t.is_high() == m.high && t.is_pressed() == m.high && (bool)t == m.high, "the state is that of the last sample or registered edge");
}
template<typename T>
static void drain(T t, Model m) {
	vf_assert(t.is_just_pressed() == m.rose, "a rising edge is reported exactly when one is pending");
	vf_assert(t.just_went_low() == m.fell, "a falling edge is reported exactly when one is pending");
	vf_assert(!t.just_went_high() && !t.is_just_released(), "an event is reported once");
	check_state(t, m);
}

// any reachable state: the two events are independent of the state
template<typename T>
static void any_state(T &t, Model &m) {
	bool rose = sym_fork("rose", 0, 1), fell = sym_fork("fell", 0, 1), high = sym_fork("high", 0, 1);
	if (rose && fell) {
		t.register_state(true);
		t.register_state(false);
	} else if (rose)
		t.register_rising_edge();
	else if (fell)
		t.register_falling_edge();
	t.set_state_no_events(high);
	m = Model{high, rose, fell};
}

template<typename T>
void history(int steps) {
	T t[2];
	Model m[2];
	drain(t[0], m[0]);
	any_state(t[0], m[0]);
	any_state(t[1], m[1]);
	for (int st = 0; st < steps; st++) {
		size_t op = sym_fork("op", 0, 14);
		T &a = t[0], &b = t[1];
		Model &x = m[0], &y = m[1];
		switch (op) {
			case 0:
			case 1: {
				bool s = sym_fork("s", 0, 1);
				if (op)
					a.process(s);
				else
					a.register_state(s);
				if (s && !x.high)
					x.rose = true;
				if (!s && x.high)
					x.fell = true;
				x.high = s;
				break;
			}
			case 2:
				a.register_rising_edge();
				x = Model{true, true, false};
				break;
			case 3:
				a.register_falling_edge();
				x = Model{false, false, true};
				break;
			case 4:
				vf_assert(a.is_just_pressed() == x.rose, "a rising edge is reported exactly when one is pending");
				x.rose = false;
				break;
			case 5:
				vf_assert(a.just_went_high() == x.rose, "a rising edge is reported exactly when one is pending");
				x.rose = false;
				break;
			case 6:
				vf_assert(a.is_just_released() == x.fell, "a falling edge is reported exactly when one is pending");
				x.fell = false;
				break;
			case 7:
				vf_assert(a.just_went_low() == x.fell, "a falling edge is reported exactly when one is pending");
				x.fell = false;
				break;
			case 8:
				a.clear_events();
				x.rose = x.fell = false;
				break;
			case 9:
				a.reset();
				x = Model{};
				break;
			case 10: {
				uint32_t s = sym_fork("s", 0, 2);
				a.set_state_no_events(s);
				x.high = s;
				break;
			}
			case 11:
				a.copy_state(b);
				x = y;
				break;
			case 12:
				a = b;
				x = y;
				break;
			case 13:
			case 14:
				if (op == 13)
					a.update_state(b);
				else
					a.transfer_events(b);
				if (y.fell)
					x.fell = true;
				else if (y.rose)
					x.rose = true;
				x.high = y.high;
				if (op == 14)
					y.rose = y.fell = false;
				break;
		}
		check_state(t[0], m[0]);
		check_state(t[1], m[1]);
		vf_observe(m[0].high);
		vf_merge(st);
	}
	drain(t[0], m[0]);
	drain(t[1], m[1]);
	vf_reach("end");
}
VF_HARNESS(toggler) { history<Toggler>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(toggler_compact) { history<TogglerCompact>(VF_THOROUGH ? 5 : 3); }

VF_HARNESS(toggler_counter) {
	TogglerCounter t;
	Model m;
	uint32_t count = 0;
	vf_assert(t.steady_state_count() == 0, "the count starts at zero");
	for (int st = 0; st < (VF_THOROUGH ? 6 : 4); st++) {
		size_t op = sym_fork("op", 0, 4);
		switch (op) {
			case 0:
			case 1: {
				bool s = sym_fork("s", 0, 1);
				if (op)
					t.process(s);
				else
					t.register_state(s);
				count = s == m.high ? count + 1 : 0;
				m.rose |= s && !m.high;
				m.fell |= !s && m.high;
				m.high = s;
				break;
			}
			case 2:
				t.reset_count();
				count = 0;
				break;
			case 3:
				t.reset();
				m = Model{};
				break;
			case 4:
				t.clear_events();
				m.rose = m.fell = false;
				break;
		}
		vf_assert(t.steady_state_count() == count, "the count is the number of samples since the last change");
		check_state(t, m);
		vf_observe(count);
	}
	drain(t, m);
	vf_reach("end");
}

VF_HARNESS(toggler_counter_long) {
	TogglerCounter t;
	bool s = sym_fork("s", 0, 1);
	t.process(s);
	uint32_t c = t.steady_state_count();
	vf_assert(c == (s ? 0 : 1), "the count is the number of samples since the last change");
	for (uint32_t i = 1; i <= (VF_THOROUGH ? 70000 : 300); i++) {
		t.process(s);
		vf_assert(t.steady_state_count() == c + i, "the count is the number of samples since the last change");
	}
	vf_observe(t.steady_state_count());
}

template<typename D, uint32_t Rise, uint32_t Fall, uint32_t Mask, bool Raw, bool Counter>
void debounce(int steps, bool pre) {
	D d;
	Model m;
	uint32_t seen = 0, count = 0;
	drain(static_cast<Toggler &>(d), m);
	for (int i = 0; i < steps; i++) {
		bool s = sym_fork("s", 0, 1);
		seen = (seen << 1 | s) & Mask;
		d.register_state(s);
		if (seen == (Rise & Mask)) {
			m = Model{true, true, false};
			count = 0;
		} else if (seen == (Fall & Mask)) {
			m = Model{false, false, true};
			count = 0;
		} else {
			if (!Raw)
				m.high = s;
			count++;
		}
		check_state(d, m);
		if constexpr (Counter)
			vf_assert(d.steady_state_ctr == count, "the count is the number of samples since the last edge");
		// events may be taken after any sample, or left pending
		if (pre && m.rose && sym_fork("take", 0, 1)) {
			vf_assert(d.is_just_pressed(), "the rising edge is reported when the last samples match its pattern");
			m.rose = false;
		}
		if (pre && m.fell && sym_fork("take", 0, 1)) {
			vf_assert(d.is_just_released(), "the falling edge is reported when the last samples match its pattern");
			m.fell = false;
		}
		vf_observe(m.high);
		vf_merge(i);
	}
	drain(static_cast<Toggler &>(d), m);
	vf_reach("end");
}
constexpr int N = VF_THOROUGH ? 10 : 7;
VF_HARNESS(debounce_4) { debounce<Debouncer<0b0001, 0b1110, 0b1111>, 1, 14, 15, false, false>(N, true); }
VF_HARNESS(debounce_4_raw) { debounce<Debouncer<0b0001, 0b1110, 0b1111, true>, 1, 14, 15, true, false>(N, true); }
VF_HARNESS(debounce_5) { debounce<Debouncer<0b00111, 0b11000, 0b11111, true>, 7, 24, 31, true, false>(N, true); }
VF_HARNESS(debounce_mask) { debounce<Debouncer<0b0011, 0xFFFFFFFC, 0b0111, true>, 3, 4, 7, true, false>(N, true); }
VF_HARNESS(debounce_count_3) { debounce<DebouncerCounter<0b001, 0b110, 0b111>, 1, 6, 7, false, true>(N, true); }
VF_HARNESS(debounce_count_6_raw) { debounce<DebouncerCounter<0b000111, 0b111000, 0b111111, true>, 7, 56, 63, true, true>(N, true); }
VF_HARNESS(debounce_default) { debounce<Debouncer<>, 1, 0xFFE, 0xFFF, false, false>(VF_THOROUGH ? 17 : 14, false); }
VF_HARNESS(debounce_default_raw) { debounce<Debouncer<1, 0xFFFFFFFE, 0xFFF, true>, 1, 0xFFE, 0xFFF, true, false>(VF_THOROUGH ? 17 : 14, false); }

// patterns wider than 8 and 16 bits: a steady run, a run of the other level, noise
template<typename D, unsigned W, bool Counter>
static void wide() {
	constexpr uint32_t Mask = W == 32 ? 0xFFFFFFFF : (1u << (W % 32)) - 1;
	D d;
	bool first = sym_fork("first", 0, 1);
	size_t n1 = sym_fork("n1", W - 2, W), n2 = sym_fork("n2", 1, 3);
	uint32_t seen = 0, count = 0;
	auto sample = [&](bool s) {
		seen = (seen << 1 | s) & Mask;
		d.register_state(s);
		count++;
		bool rise = seen == 1, fall = seen == (0xFFFFFFFE & Mask);
		vf_assert(d.is_just_pressed() == rise, "the rising edge is reported exactly when the last samples match its pattern");
		vf_assert(d.is_just_released() == fall, "the falling edge is reported exactly when the last samples match its pattern");
		if (rise || fall)
			count = 0;
		vf_assert(d.is_high() == s, "the state is that of the last sample");
		if constexpr (Counter)
			vf_assert(d.steady_state_ctr == count, "the count is the number of samples since the last edge");
		vf_observe(d.is_high());
	};
	for (size_t i = 0; i < n1; i++)
		sample(first);
	for (size_t i = 0; i < n2; i++)
		sample(!first);
	size_t back = sym_fork("n3", 1, W);
	for (size_t i = 0; i < back; i++)
		sample(first);
	for (int i = 0; i < 3; i++)
		sample(sym_fork("s", 0, 1));
	vf_reach("end");
}
VF_HARNESS(wide_9) { wide<Debouncer<1, 0xFFFFFFFE, 0x1FF>, 9, false>(); }
VF_HARNESS(wide_20) { wide<Debouncer<1, 0xFFFFFFFE, 0xFFFFF>, 20, false>(); }
VF_HARNESS(wide_32) { wide<Debouncer<1, 0xFFFFFFFE, 0xFFFFFFFF>, 32, false>(); }
VF_HARNESS(wide_count_20) { wide<DebouncerCounter<1, 0xFFFFFFFE, 0xFFFFF>, 20, true>(); }

VF_HARNESS(debounce_counter_long) {
	DebouncerCounter<0b001, 0b110, 0b111> d;
	bool s = sym_fork("s", 0, 1);
	vf_progress(10000000);
	for (int i = 0; i < 3; i++)
		d.register_state(s);
	uint32_t c = d.steady_state_ctr;
	vf_assert(c == (s ? 2 : 3), "the count is the number of samples since the last edge");
	for (uint32_t i = 1; i <= (VF_THOROUGH ? 70000 : 300); i++) {
		d.register_state(s);
		vf_assert(d.steady_state_ctr == c + i, "the count is the number of samples since the last edge");
	}
	vf_observe(d.steady_state_ctr);
}
