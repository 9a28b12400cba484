// Version: parsing of any text view, ordering and host compatibility.
// vf-bound: every text of up to 5 (quick) / 7 (thorough) characters, and major.minor.revision with numbers of up to 11 / 20 digits with an optional -suffix; views end where their memory ends; every pair of versions for the order; texts of up to 300 dots
// vf-assume: no white space or + sign in the text; C locale; what follows a third dot does not matter to the numbers
#include "vf.h"
#include "util/version_tools.hh"
using VersionUtil::Version;

VF_HARNESS(any_text) {
	size_t n = sym_fork("n", 0, VF_THOROUGH ? 7 : 5);
	char *t = new char[n];
	// kinds of characters: digit, dot, dash, other
	uint32_t field[8]{};
	bool dash = false, number = true;
	size_t dots = 0;
	for (size_t i = 0; i < n; i++) {
		switch (sym_fork("kind", 0, 3)) {
			case 0: {
				uint8_t d = (uint8_t)sym_range("d", 0, 9);
				t[i] = (char)('0' + d);
				if (number)
					field[dots] = field[dots] * 10 + d;
				break;
			}
			case 1:
				t[i] = '.';
				dots++;
				number = true;
				dash = false;
				break;
			case 2:
				t[i] = '-';
				dash = true;
				number = false;
				break;
			case 3: {
				char c = sym<char>("c");
				vf_assume(vf_or(vf_and(c >= 'a', c <= 'z'), vf_or(c == '_', c == 0)));
				t[i] = c;
				number = false;
				break;
			}
		}
	}
	Version v{std::string_view(t, n)};
	vf_assert(v.major == vf_select(field[0] <= 255, field[0], 0), "the first number is the major version (0 if missing or too big)");
	vf_assert(v.minor == vf_select(field[1] <= 255, field[1], 0), "the second number is the minor version");
	vf_assert(v.revision == vf_select(field[2] <= 255, field[2], 0), "the third number is the revision");
	vf_assert(v.is_normal == !dash, "a dash after the last number marks a pre-release");
	vf_observe(v.major);
	delete[] t;
}

VF_HARNESS(long_numbers) {
	size_t k = sym_fork("digits", 1, VF_THOROUGH ? 20 : 11);
	size_t which = sym_fork("which", 0, 2);
	bool suffix = sym_fork("suffix", 0, 1);
	size_t n = 0, len = k + 4 + (suffix ? 3 : 0);
	char *t = new char[len];
	bool big = false; // more than 255
	uint32_t x = 0;
	for (size_t f = 0; f < 3; f++) {
		if (f)
			t[n++] = '.';
		if (f == which)
			for (size_t i = 0; i < k; i++) {
				uint32_t d = (uint32_t)sym_range("d", 0, 9);
				t[n++] = (char)('0' + d);
				x = (uint32_t)vf_select(big, 0, x * 10 + d);
				big = big | (x > 255);
			}
		else
			t[n++] = (char)('1' + f);
	}
	if (suffix) {
		t[n++] = '-';
		t[n++] = 'r';
		t[n++] = '2';
	}
	Version v{std::string_view(t, n)};
	uint8_t got[3] = {v.major, v.minor, v.revision};
	for (size_t f = 0; f < 3; f++)
		if (f == which)
			vf_assert(got[f] == vf_select(big, 0, x), "a number of any length is taken exactly, or ignored when above 255");
		else
			vf_assert(got[f] == f + 1, "the other numbers are unaffected");
	vf_assert(v.is_normal == !suffix, "a suffix marks a pre-release");
	vf_observe(got[which]);
	delete[] t;
}

static Version any(const char *) {
	Version v{sym<uint8_t>("major"), sym<uint8_t>("minor"), sym<uint8_t>("rev")};
	v.is_normal = sym<bool>("normal");
	return v;
}
static uint32_t rank(Version const &v) {
	return (uint32_t)v.major << 17 | (uint32_t)v.minor << 9 | (uint32_t)v.revision << 1 | (v.is_normal ? 1 : 0);
}
VF_HARNESS(order) {
	Version a = any("a"), b = any("b");
	uint32_t x = rank(a), y = rank(b);
	vf_assert((a < b) == (x < y), "versions are ordered by major, minor, revision, and a pre-release before its release");
	vf_assert((a > b) == (x > y) && a.is_later(b) == (x > y), "later means greater");
	vf_assert((a <= b) == (x <= y) && (a >= b) == (x >= y), "<= and >= agree with <");
	vf_assert((a == b) == (x == y) && (a != b) == (x != y), "equal means every part is equal");
	vf_observe(a < b);
}
VF_HARNESS(host) {
	Version a = any("a"), b = any("b");
	vf_assert(a.can_host_version(b) == (a.major == b.major && a.minor >= b.minor), "a host takes the same major and an equal or lower minor version");
	Version d;
	vf_assert(d.major == 0 && d.minor == 0 && d.revision == 0 && d.is_normal, "a default version is 0.0.0");
	Version e{a.major, a.minor, a.revision};
	vf_assert(e.major == a.major && e.minor == a.minor && e.revision == a.revision && e.is_normal, "the numbers given are the numbers held");
	vf_observe(a.can_host_version(b));
}

// any number of dots: only the first three numbers count
VF_HARNESS(many_dots) {
	vf_progress(10000000);
	const size_t dots[] = {3, 255, 256, 257, 258, 300};
	size_t n = dots[sym_fork("dots", 0, 5)], len = 1 + 2 + 2 + (n - 2) + 1;
	bool dash = sym_fork("dash", 0, 1);
	len += dash;
	char *t = new char[len];
	for (size_t i = 0; i < len; i++)
		t[i] = '.';
	uint8_t d[4];
	for (auto &x : d)
		x = (uint8_t)sym_range("d", 0, 9);
	for (int i = 0; i < 3; i++)
		t[2 * i] = (char)('0' + d[i]);
	t[len - 1 - dash] = (char)('0' + d[3]);
	if (dash)
		t[len - 1] = '-';
	Version v{std::string_view(t, len)};
	vf_assert(v.major == d[0] && v.minor == d[1] && v.revision == d[2], "the first three numbers are the version, whatever follows");
	vf_assert(v.is_normal == !dash, "a dash after the last number marks a pre-release");
	vf_observe(v.major);
	delete[] t;
}
