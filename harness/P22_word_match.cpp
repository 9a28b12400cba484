// less_ci, equal_ci and contains_word against character-by-character definitions.
// vf-bound: less_ci / equal_ci: any two texts of up to 4 (quick) / 6 (thorough) bytes, every byte value; contains_word: names of up to 5 / 7 characters, words of up to 3 characters, every ASCII character including NUL
// vf-assume: C locale
#include "vf.h"
#include <string>
#include <string_view>
#include "util/contains_word.hh"
#include "util/string_compare.hh"

static uint8_t lower(uint8_t c) {
	return (uint8_t)vf_select(vf_and(c >= 'A', c <= 'Z'), c + 32, c);
}
static char *text(size_t len) {
	char *p = new char[len];
	for (size_t i = 0; i < len; i++)
		p[i] = sym<char>("c");
	return p;
}

constexpr size_t M = VF_THOROUGH ? 6 : 4;

VF_HARNESS(equal) {
	size_t la = sym_fork("la", 0, M), lb = sym_fork("lb", 0, M);
	char *a = text(la), *b = text(lb);
	bool got = equal_ci(std::string_view(a, la), std::string_view(b, lb));
	bool eq = la == lb;
	for (size_t i = 0; i < la && i < lb; i++)
		eq = eq & (lower(a[i]) == lower(b[i]));
	vf_assert(got == eq, "equal_ci ignores only the case of letters");
	vf_observe(got);
}

VF_HARNESS(less) {
	size_t la = sym_fork("la", 0, M), lb = sym_fork("lb", 0, M);
	char *a = text(la), *b = text(lb);
	bool got = less_ci(std::string_view(a, la), std::string_view(b, lb));
	// from the last character backwards: the order of what follows decides while the characters are equal
	bool lt = la < lb;
	for (size_t i = la < lb ? la : lb; i-- > 0;) {
		uint8_t x = lower(a[i]), y = lower(b[i]);
		lt = (x < y) | ((x == y) & lt);
	}
	vf_assert(got == lt, "less_ci orders as the lower-case texts do");
	vf_observe(got);
}

static void word(size_t n, size_t w) {
	std::string name(n, ' '), wd(w, ' ');
	for (size_t i = 0; i < n; i++) {
		name[i] = sym<char>("n");
		vf_assume(name[i] >= 0);
	}
	for (size_t i = 0; i < w; i++) {
		wd[i] = sym<char>("w");
		vf_assume(wd[i] >= 0);
	}
	bool ref = false;
	for (size_t i = 0; i + w <= n; i++) {
		bool m = true;
		for (size_t j = 0; j < w; j++)
			m = m & (lower(name[i + j]) == lower(wd[j]));
		if (i)
			m = m & (name[i - 1] == ' ');
		if (i + w < n)
			m = m & (name[i + w] == ' ');
		ref = ref | m;
	}
	bool got = contains_word(name, wd);
	vf_assert(got == ref, "the word is found exactly when it stands between spaces or ends of the name");
	vf_observe(got);
	if (got)
		vf_reach("found");
}
VF_HARNESS(word_0) { word(sym_fork("n", 0, VF_THOROUGH ? 5 : 4), 0); }
VF_HARNESS(word_1) { word(sym_fork("n", 0, VF_THOROUGH ? 6 : 5), 1); }
VF_HARNESS(word_2) { word(sym_fork("n", 0, VF_THOROUGH ? 6 : 5), 2); }
VF_HARNESS(word_3) { word(sym_fork("n", 0, VF_THOROUGH ? 7 : 5), 3); }
