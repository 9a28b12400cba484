// StaticString<N>: always null-terminated inside its storage, holds the longest prefix of what was copied into it.
// vf-bound: capacities 0, 1, 3, 4, 8; source texts of up to 6 (quick) / 9 (thorough) characters, every character value; histories of 3 / 4 copies and clears from C strings, string views (unterminated or with embedded NULs), and other StaticStrings, volatile destinations included; strings of 255 to 319 characters in a capacity of 300
#include "vf.h"
#include "util/static_string.hh"

constexpr size_t MAXT = VF_THOROUGH ? 9 : 6;

struct Guarded {
	uint8_t before[8];
};

// any characters; len of them are not NUL, and what follows (when term) is a NUL
static char *text(size_t len, bool term) {
	char *p = new char[len + term];
	for (size_t i = 0; i < len; i++) {
		p[i] = sym<char>("c");
		vf_assume(p[i] != 0);
	}
	if (term)
		p[len] = 0;
	return p;
}

template<size_t N>
static void check(const StaticString<N> &s, const char *model, size_t n) {
	vf_assert(s.length() == n && s.size() == n, "length is the number of characters held");
	vf_assert(s.available() == N - n, "available is what still fits");
	vf_assert(N == StaticString<N>::capacity, "capacity is the template argument");
	vf_assert(s.c_str()[n] == 0, "the text is terminated");
	bool same = true;
	for (size_t i = 0; i < n; i++)
		same = same & (s.data()[i] == model[i]);
	vf_assert(same, "the longest prefix that fits is held, in order");
	vf_assert((size_t)(s.end() - s.begin()) == n, "iteration covers exactly the text");
	auto &w = const_cast<StaticString<N> &>(s);
	vf_assert(w.begin() == s.begin() && w.end() == s.end(), "iteration covers exactly the text");
	std::string_view v = s;
	vf_assert(v.size() == n, "conversion to string_view covers exactly the text");
	const char *p = s;
	vf_assert(p == s.c_str() && p == v.data(), "conversions refer to the text itself");
}

template<size_t N>
void history(int steps) {
	char model[N + 1];
	size_t n = 0;
	StaticString<N> *s = nullptr;
	for (int st = 0; st < steps; st++) {
		size_t op = sym_fork("op", 0, s ? 7 : 2);
		size_t len = sym_fork("len", 0, op == 7 ? 0 : MAXT);
		bool term = op == 1 || op == 3 || op == 5;
		char *t = op == 7 || op == 0 ? nullptr : text(len, term);
		size_t fit = len < N ? len : N;
		size_t hole = len;
		if ((op == 2 || op == 4) && len) {
			// a NUL inside a view ends the text
			hole = sym_fork("hole", 0, len);
			if (hole < len)
				t[hole] = 0;
		}
		switch (op) {
			case 0:
				if (s)
					s->clear();
				else
					s = new StaticString<N>;
				fit = 0;
				break;
			case 1:
				delete s;
				s = new StaticString<N>(t);
				break;
			case 2:
				delete s;
				s = new StaticString<N>(std::string_view(t, len));
				fit = hole < N ? hole : N;
				break;
			case 3: s->copy(t); break;
			case 4:
				s->copy(std::string_view(t, len));
				fit = hole < N ? hole : N;
				break;
			case 5: {
				StaticString<N> volatile *v = s;
				v->copy(t);
				break;
			}
			case 6: {
				// from another StaticString, smaller or larger
				if (sym_fork("other", 0, 1)) {
					StaticString<2> o(std::string_view(t, len));
					s->copy(o);
					fit = fit < 2 ? fit : 2;
				} else {
					StaticString<12> o(std::string_view(t, len));
					size_t how = sym_fork("how", 0, 2);
					if (how == 0)
						s->copy(o);
					else if (how == 1) {
						StaticString<N> volatile *v = s;
						v->copy(o);
					} else {
						StaticString<N> volatile *v = s;
						StaticString<12> volatile const &ov = o;
						v->copy(ov);
					}
				}
				break;
			}
			case 7: {
				StaticString<N> c = *s; // plain copy
				check(c, model, n);
				fit = n;
				break;
			}
		}
		if (op != 7) {
			n = fit;
			for (size_t i = 0; i < n; i++)
				model[i] = t[i];
		}
		delete[] t;
		check(*s, model, n);
		vf_observe(n ? s->data()[0] : 0);
		// normalise what is beyond the terminator
		for (size_t i = n + 1; i < N + 1; i++)
			const_cast<char *>(s->c_str())[i] = 0, model[i] = 0;
		vf_merge(st);
	}
	delete s;
	vf_reach("end");
}
VF_HARNESS(text_0) { history<0>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(text_1) { history<1>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(text_4) { history<4>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(text_8) { history<8>(VF_THOROUGH ? 3 : 2); }

// comparison of any two texts
template<size_t A, size_t B>
void compare() {
	size_t la = sym_fork("la", 0, A), lb = sym_fork("lb", 0, B);
	char *a = text(la, true), *b = text(lb, true);
	StaticString<A> x(a);
	StaticString<B> y(b);
	// whatever the bytes after the terminators
	for (size_t i = la + 1; i < A + 1; i++)
		const_cast<char *>(x.data())[i] = sym<char>("junk");
	for (size_t i = lb + 1; i < B + 1; i++)
		const_cast<char *>(y.data())[i] = sym<char>("junk");
	bool eq = la == lb;
	for (size_t i = 0; i < la && i < lb; i++)
		eq = eq & (a[i] == b[i]);
	vf_assert((x == y) == eq, "strings compare equal exactly when their texts are");
	vf_assert(x.is_equal(b) == eq, "is_equal compares the whole text");
	vf_observe(eq);
	delete[] a;
	delete[] b;
}
VF_HARNESS(compare_same) { compare<4, 4>(); }
VF_HARNESS(compare_other) { compare<3, 5>(); }

// longer than a small counter holds
VF_HARNESS(str_big) {
	constexpr size_t N = 300;
	static char text[N + 20];
	uint8_t seed = sym<uint8_t>("seed");
	vf_assume(seed < 128);
	for (size_t i = 0; i < N + 19; i++)
		text[i] = (char)(128 + ((seed + i * 7) & 127)); // never 0
	for (size_t len : {size_t(255), size_t(256), size_t(257), N, N + 19}) {
		char keep = text[len];
		text[len] = 0;
		size_t n = len < N ? len : N;
		StaticString<N> a{(const char *)text}, b{std::string_view{text, len}};
		vf_assert(a.length() == n && b.size() == n && a.available() == N - n, "the length is that of the longest prefix that fits");
		vf_assert(memcmp(a.data(), text, n) == 0 && memcmp(b.data(), text, n) == 0 && a.data()[n] == 0 && b.data()[n] == 0, "the longest prefix that fits is held, terminated");
		vf_assert(a == b && (n == len) == a.is_equal(text), "equal strings are equal");
		text[len] = keep;
	}
	vf_observe(seed);
}
