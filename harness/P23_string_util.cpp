// ReplaceString::replace_all and tokenize_string against definitions over whole texts.
// vf-bound: texts of up to 4 (quick) / 6 (thorough) characters; search texts of up to 2, replacements of up to 3 characters; up to 3 delimiters; every character value
#include "vf.h"
#include <string>
#include <string_view>
#include <vector>
#include "util/string_util.hh"

static std::string text(size_t len) {
	std::string s(len, ' ');
	for (size_t i = 0; i < len; i++)
		s[i] = sym<char>("c");
	return s;
}
static void same(const char *a, size_t n, std::string const &s, const char *msg) {
	bool ok = s.size() == n;
	if (ok)
		for (size_t i = 0; i < n; i++)
			ok = ok & (s[i] == a[i]);
	vf_assert(ok, msg);
}

static void replace(size_t n, size_t f, size_t r) {
	std::string t = text(n), find = text(f), repl = text(r);
	char out[64];
	size_t m = 0;
	for (size_t i = 0; i < n;) {
		bool hit = f > 0 && i + f <= n;
		for (size_t j = 0; j < f && hit; j++)
			hit = t[i + j] == find[j]; // forks: the shape of the result depends on it
		if (hit) {
			for (size_t j = 0; j < r; j++)
				out[m++] = repl[j];
			i += f;
		} else
			out[m++] = t[i++];
	}
	ReplaceString s(t);
	ReplaceString &self = s.replace_all(find, repl);
	same(out, m, s.str, "every occurrence, left to right, is replaced once; replacements are not searched again");
	vf_assert(&self == &s, "calls chain on the same object");
	vf_observe(m);
	vf_reach("end");
}
constexpr size_t TL = VF_THOROUGH ? 6 : 4;
VF_HARNESS(replace_none) { replace(sym_fork("n", 0, TL), 0, sym_fork("r", 0, 3)); }
VF_HARNESS(replace_1_0) { replace(sym_fork("n", 0, TL), 1, 0); }
VF_HARNESS(replace_1_1) { replace(sym_fork("n", 0, TL), 1, 1); }
VF_HARNESS(replace_1_3) { replace(sym_fork("n", 0, TL), 1, sym_fork("r", 2, 3)); }
VF_HARNESS(replace_2_1) { replace(sym_fork("n", 0, TL), 2, sym_fork("r", 0, 1)); }
VF_HARNESS(replace_2_3) { replace(sym_fork("n", 0, TL), 2, sym_fork("r", 2, 3)); }

static void tokenize(bool standard, size_t d, size_t n) {
	std::string delims = standard ? std::string(",") : text(d);
	char *t = new char[n];
	for (size_t i = 0; i < n; i++)
		t[i] = sym<char>("t");
	std::vector<std::string> tokens;
	size_t had = sym_fork("had", 0, 1);
	if (had)
		tokens.push_back("x");
	if (standard)
		tokenize_string(std::string_view(t, n), tokens);
	else
		tokenize_string(std::string_view(t, n), tokens, delims);
	size_t k = had;
	for (size_t i = 0; i < n;) {
		size_t len = 0;
		while (i + len < n) {
			bool del = false;
			for (size_t j = 0; j < delims.size(); j++)
				del = del | (t[i + len] == delims[j]);
			if (del)
				break;
			len++;
		}
		if (len) {
			vf_assert(k < tokens.size(), "every non-empty run between delimiters is a token");
			same(t + i, len, tokens[k], "tokens are the runs between delimiters, in order");
			k++;
		}
		i += len + 1;
	}
	vf_assert(k == tokens.size(), "there are no other tokens");
	if (had)
		same("x", 1, tokens[0], "tokens are appended");
	vf_observe(k);
	delete[] t;
	vf_reach("end");
}
VF_HARNESS(tokens_default) { tokenize(true, 0, sym_fork("n", 0, TL)); }
VF_HARNESS(tokens_none) { tokenize(false, 0, sym_fork("n", 0, TL)); }
VF_HARNESS(tokens_1) { tokenize(false, 1, sym_fork("n", 0, TL)); }
VF_HARNESS(tokens_2) { tokenize(false, 2, sym_fork("n", 0, TL)); }
VF_HARNESS(tokens_3) { tokenize(false, 3, sym_fork("n", 0, TL - 1)); }
