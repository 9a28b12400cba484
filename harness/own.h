#pragma once
#include "vf.h"

// Has to be copied and moved by its own operations: it knows where it is, and loses its value when moved from.
struct Own {
	uint8_t v = 0;
	Own *self = this;
	Own() = default;
	explicit Own(uint8_t x)
		: v{x} {
	}
	Own(const Own &o)
		: v{o.get()} {
	}
	Own(Own &&o)
		: v{o.get()} {
		o.lose();
	}
	Own &operator=(const Own &o) {
		v = o.get();
		return *this;
	}
	Own &operator=(Own &&o) {
		v = o.get();
		if (this != &o)
			o.lose();
		return *this;
	}
	void lose() {
		v = (uint8_t)~v;
	}
	uint8_t get() const {
		vf_assert(self == this, "elements are copied and moved by their own operations");
		return v;
	}
	bool operator==(const Own &o) const {
		return get() == o.get();
	}
};

