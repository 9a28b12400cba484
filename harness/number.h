// A 32-bit value made of its decimal digits, so that no division is needed to know them.
#pragma once
#include "vf.h"

// a value with a chosen number of digits, made of its digits, so that no division is needed to know them
struct Number {
	int32_t value;
	size_t n;
	uint8_t d[10]; // most significant first
	bool neg;
};
static Number number() {
	Number x;
	x.n = sym_fork("digits", 1, 10);
	x.neg = sym_fork("neg", 0, 1);
	uint32_t m = 0;
	uint64_t wide = 0;
	for (size_t i = 0; i < x.n; i++) {
		x.d[i] = (uint8_t)sym_range("d", 0, 9);
		if (i == 0)
			vf_assume(x.n == 1 || x.d[0] > 0);
		m = m * 10 + x.d[i];
		if (x.n == 10)
			wide = wide * 10 + x.d[i];
	}
	if (x.n == 10)
		vf_assume(wide <= (x.neg ? 0x80000000u : 0x7FFFFFFFu));
	if (x.neg)
		vf_assume(x.n > 1 || x.d[0] > 0);
	x.value = x.neg ? (int32_t)(0u - m) : (int32_t)m;
	return x;
}

