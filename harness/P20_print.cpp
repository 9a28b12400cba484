// print: decimal, hexadecimal and text output, character by character.
// vf-bound: every int32_t; every 32-bit hex value; every text of up to 6 characters (string views with embedded NULs and without terminator included); sequences of up to 4 arguments
#include "number.h"
#include <string_view>
#include "util/print.hh"

static char out[64];
static size_t n;
static void sink(const char c) {
	out[n++] = c;
}

static void expect(size_t &at, char c, bool &ok) {
	ok = ok & (out[at] == c);
	at++;
}

VF_HARNESS(decimal) {
	Number x = number();
	n = 0;
	print<sink>(x.value);
	vf_assert(n == x.n + x.neg, "an integer prints as its sign and digits, no more");
	if (x.neg)
		vf_assert(out[0] == '-', "a negative integer starts with -");
	for (size_t i = 0; i < x.n; i++)
		vf_assert(out[i + x.neg] == (char)('0' + x.d[i]), "every digit of an integer is printed in order");
	vf_observe(out[0]);
}

static char hexdigit(uint8_t d) {
	return (char)vf_select(d < 10, '0' + d, 'A' + d - 10);
}
VF_HARNESS(hex) {
	size_t k = sym_fork("digits", 1, 8);
	uint8_t d[8];
	uint32_t v = 0;
	for (size_t i = 0; i < k; i++) {
		d[i] = (uint8_t)sym_range("d", 0, 15);
		if (i == 0)
			vf_assume(k == 1 || d[0] > 0);
		v = v * 16 + d[i];
	}
	n = 0;
	print<sink>(Hex{v});
	vf_assert(n == k, "a hex value prints without leading zeros");
	for (size_t i = 0; i < k; i++)
		vf_assert(out[i] == hexdigit(d[i]), "every hex digit is printed in order, in upper case");
	vf_observe(out[0]);
}

VF_HARNESS(text) {
	size_t len = sym_fork("len", 0, VF_THOROUGH ? 10 : 6);
	char *s = new char[len + 1];
	for (size_t i = 0; i < len; i++) {
		s[i] = sym<char>("c");
		vf_assume(s[i] != 0);
	}
	s[len] = 0;
	n = 0;
	if (sym_fork("unsigned", 0, 1))
		print<sink>((const unsigned char *)s);
	else
		print<sink>((const char *)s);
	vf_assert(n == len, "a C string prints up to its terminator");
	for (size_t i = 0; i < len; i++)
		vf_assert(out[i] == s[i], "the characters of a C string are printed in order");
	delete[] s;
}

VF_HARNESS(view) {
	size_t len = sym_fork("len", 0, VF_THOROUGH ? 10 : 6);
	char *s = new char[len]; // no terminator: reading one is an error
	for (size_t i = 0; i < len; i++)
		s[i] = sym<char>("c");
	n = 0;
	print<sink>(std::string_view{s, len});
	vf_assert(n == len, "a string view prints exactly its characters");
	for (size_t i = 0; i < len; i++)
		vf_assert(out[i] == s[i], "the characters of a string view are printed in order");
	delete[] s;
}

VF_HARNESS(sequence) {
	char a = (char)sym_range("a", 1, 127), b = sym<char>("b");
	char s[2] = {a, 0};
	char v[1] = {b};
	uint8_t d = (uint8_t)sym_range("d", 1, 9), h = (uint8_t)sym_range("h", 1, 15);
	n = 0;
	print<sink>((const char *)s, (int32_t)d, std::string_view{v, 1}, Hex{h}, (const char *)s);
	bool ok = true;
	size_t at = 0;
	expect(at, a, ok);
	expect(at, '0' + d, ok);
	expect(at, b, ok);
	expect(at, hexdigit(h), ok);
	expect(at, a, ok);
	vf_assert(n == at, "several arguments print one after the other");
	vf_assert(ok, "several arguments print in order");
}
