// int_to_str, int_to_str_chop, num_digits: decimal text of every 32-bit value in every buffer size.
// vf-bound: every int32_t value; buffers of 0..13 characters
#include "number.h"
#include "util/int_to_str.hh"
#include "util/int_to_str.cc"

static const uint32_t pow10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};

// number of digits, by comparison only; forks
static size_t digits(uint32_t m) {
	size_t n = 1;
	while (n < 10 && m >= pow10[n])
		n++;
	return n;
}

VF_HARNESS(whole) {
	Number x = number();
	size_t need = x.n + x.neg + 1;
	size_t size = sym_fork("size", 0, 13);
	char *buf = new char[size];
	for (size_t i = 0; i < size; i++)
		buf[i] = 0x7F;
	bool ok = int_to_str(x.value, std::span<char>{buf, size});
	vf_assert(ok == (size >= need), "the conversion succeeds exactly when sign, digits and terminator fit");
	if (ok) {
		if (x.neg)
			vf_assert(buf[0] == '-', "a negative value starts with -");
		for (size_t i = 0; i < x.n; i++)
			vf_assert(buf[i + x.neg] == (char)('0' + x.d[i]), "every digit is written in order");
		vf_assert(buf[need - 1] == 0, "the text is terminated");
		for (size_t i = need; i < size; i++)
			vf_assert(buf[i] == 0x7F, "nothing after the terminator is written");
		vf_observe(buf[0]);
	}
	delete[] buf;
}

VF_HARNESS(chop) {
	Number x = number();
	size_t size = sym_fork("size", 0, 13);
	char *buf = new char[size];
	for (size_t i = 0; i < size; i++)
		buf[i] = 0x7F;
	int_to_str_chop(x.value, std::span<char>{buf, size});
	if (size >= 2) {
		size_t room = size - 1 - x.neg;
		size_t k = x.n < room ? x.n : room; // digits kept: the least significant ones
		if (x.neg)
			vf_assert(buf[0] == '-', "the sign is preserved");
		for (size_t i = 0; i < k; i++)
			vf_assert(buf[i + x.neg] == (char)('0' + x.d[x.n - k + i]), "the least significant digits that fit are written in order");
		vf_assert(buf[k + x.neg] == 0, "the chopped text is terminated");
		for (size_t i = k + x.neg + 1; i < size; i++)
			vf_assert(buf[i] == 0x7F, "nothing after the terminator of the chopped text is written");
		vf_observe(buf[0]);
	}
	delete[] buf;
}

VF_HARNESS(count) {
	uint32_t v = sym<uint32_t>("v");
	vf_assert(num_digits(v) == digits(v), "num_digits is the number of decimal digits");
	vf_observe(num_digits(v));
}
