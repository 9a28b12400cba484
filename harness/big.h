// Containers with more elements than 8 (or 16) bits count: one history through every fill, all elements unknown.
#pragma once
#include "vf.h"

struct Big {
	uint32_t seed = sym<uint32_t>("seed");
	size_t in = 0, out = 0; // elements made so far, elements gone so far
	// the k-th element: all differ
	uint32_t at(size_t k) const {
		return seed ^ ((uint32_t)k * 2654435761u);
	}
	uint32_t make() {
		return at(in++);
	}
	size_t held() const {
		return in - out;
	}
};
