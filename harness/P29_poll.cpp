// PollEvent and PollChange at any clock value, wrap-around included, and any spacing of polls.
// vf-bound: PollEvent over uint8_t, uint16_t, uint32_t, uint64_t and long clocks, PollChange over its unsigned clock: every period, every start, sequences of 3 (quick) / 5 (thorough) polls at any increasing times
// vf-assume: successive polls are less than one full turn of the clock apart; signed clocks do not overflow
#include "vf.h"
#include <limits>
#include <type_traits>
#include "util/poll_change.hh"
#include "util/poll_event.hh"

constexpr int N = VF_THOROUGH ? 5 : 3;

template<typename T>
void event() {
	using U = std::make_unsigned_t<T>;
	T period = sym<T>("period");
	if (std::is_signed_v<T>)
		vf_assume(period > 0);
	PollEvent<T> p{period};
	// time since the last action, which starts at clock 0
	T now = 0;
	U since = 0;
	bool lapped = false;
	for (int i = 0; i < N; i++) {
		U dt = sym<U>("dt");
		if constexpr (std::is_signed_v<T>)
			vf_assume(dt <= (U)(std::numeric_limits<T>::max() - now));
		else // not a whole turn of the clock without an action
			vf_assume((U)(since + dt) >= since);
		now = (T)(now + dt);
		since = (U)(since + dt);
		int fired = 0;
		p.poll(now, [&] { fired++; });
		bool due = since >= (U)period;
		vf_assert(fired == (due ? 1 : 0), "the action runs once when at least the period has passed since it last ran, and not before");
		if (fired)
			since = 0;
		vf_observe(fired);
	}
	vf_reach("end");
}
VF_HARNESS(event_u8) { event<uint8_t>(); }
VF_HARNESS(event_u16) { event<uint16_t>(); }
VF_HARNESS(event_u32) { event<uint32_t>(); }
VF_HARNESS(event_u64) { event<uint64_t>(); }
VF_HARNESS(event_long) { event<long>(); }

VF_HARNESS(change) {
	unsigned period = sym<unsigned>("period");
	PollChange p{period};
	unsigned now = 0, since = 0;
	bool state = false, changed = false, forced = false;
	for (int i = 0; i < N + 1; i++) {
		size_t op = sym_fork("op", 0, 4);
		if (op == 0) {
			vf_assert(p.take_change() == changed, "a change is reported exactly when one was seen since it was last taken");
			changed = false;
		} else if (op == 1) {
			p.reset();
			changed = true;
		} else if (op == 2) {
			p.force_next_poll();
			forced = true;
		} else {
			unsigned dt = sym<unsigned>("dt");
			vf_assume(since + dt >= since);
			now += dt;
			since += dt;
			bool s = sym_fork("s", 0, 1);
			int asked = 0;
			if (op == 3)
				p.poll(now, s);
			else
				p.poll(now, [&] { asked++; return s; });
			bool due = forced || since >= period;
			if (op == 4)
				vf_assert(asked == (due ? 1 : 0), "the state is asked for exactly when the period has passed or the poll is forced");
			if (due) {
				changed = changed || s != state;
				state = s;
				since = 0;
				forced = false;
			}
		}
		vf_observe(changed);
	}
	vf_assert(p.take_change() == changed, "a change is reported exactly when one was seen since it was last taken");
	vf_assert(!p.take_change(), "a change is reported once");
	vf_reach("end");
}
