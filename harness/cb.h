// An independent encoder of the compact binary format [key][data-size][data], little endian, nested objects by
// their encoded contents, and a random program of fields and objects to encode.
#pragma once
#include "vf.h"
#include <array>
#include <span>

constexpr size_t CBMAX = 96;

struct Out {
	uint8_t d[CBMAX]{};
	size_t n = 0;
	void byte(uint8_t b) {
		d[n++] = b;
	}
	void le(uint64_t v, size_t bytes) {
		for (size_t i = 0; i < bytes; i++)
			byte((uint8_t)(v >> (8 * i)));
	}
};

struct __attribute__((packed)) Pt {
	uint16_t x;
	uint8_t y;
};

enum Op { F8, F16, F32, FPT, RAW, OBJ, END };

// one step of a program: what to write, under which key, with which data
struct Step {
	int op = END;
	uint64_t key = 0;
	uint32_t val = 0;
	size_t len = 0; // RAW
	uint8_t raw[3]{};
};

template<typename K>
struct KeyOf {
	static K make(uint64_t k) {
		return (K)k;
	}
	static void ref(Out &o, uint64_t k) {
		o.le(k, sizeof(K));
	}
};
// text keys are up to the first NUL, the rest is padding written as 0
template<size_t N>
struct KeyOf<const char[N]> {
	static void ref(Out &o, uint64_t k) {
		bool end = false;
		for (size_t i = 0; i < N; i++) {
			uint8_t c = (uint8_t)(k >> (8 * i));
			end = vf_or(end, c == 0);
			o.byte(vf_select(end, 0, c));
		}
	}
};

template<typename K>
struct Key {
	K k;
	Key(uint64_t v)
		: k{KeyOf<K>::make(v)} {
	}
	K get() const {
		return k;
	}
};
template<size_t N>
struct Key<const char[N]> {
	char c[N];
	Key(uint64_t v) {
		for (size_t i = 0; i < N; i++)
			c[i] = (char)(v >> (8 * i));
	}
	const char *get() const {
		return c;
	}
};

template<typename K, typename S, size_t M>
size_t ref_encode(const std::array<Step, M> &p, Out &o) {
	size_t at[M + 1]{}, depth = 0;
	for (auto &s : p) {
		if (s.op == END) {
			if (depth) {
				depth--;
				size_t n = o.n - at[depth] - sizeof(S);
				for (size_t i = 0; i < sizeof(S); i++)
					o.d[at[depth] + i] = (uint8_t)((uint64_t)n >> (8 * i));
			}
			continue;
		}
		KeyOf<K>::ref(o, s.key);
		switch (s.op) {
			case F8:
				o.le(1, sizeof(S));
				o.le(s.val, 1);
				break;
			case F16:
				o.le(2, sizeof(S));
				o.le(s.val, 2);
				break;
			case F32:
				o.le(4, sizeof(S));
				o.le(s.val, 4);
				break;
			case FPT:
				o.le(3, sizeof(S));
				o.le(s.val, 3);
				break;
			case RAW:
				o.le(s.len, sizeof(S));
				for (size_t i = 0; i < s.len; i++)
					o.byte(s.raw[i]);
				break;
			case OBJ:
				at[depth++] = o.n;
				o.le(0, sizeof(S));
				break;
		}
	}
	return o.n;
}

template<typename K, typename W>
void write_step(W &w, const Step &s) {
	Key<K> k{s.key};
	switch (s.op) {
		case F8:
			w.field(k.get(), (uint8_t)s.val);
			break;
		case F16:
			w.field(k.get(), (int16_t)s.val);
			break;
		case F32:
			w.field(k.get(), (uint32_t)s.val);
			break;
		case FPT:
			w.field(k.get(), Pt{(uint16_t)s.val, (uint8_t)(s.val >> 16)});
			break;
		case RAW:
			w.raw(k.get(), std::span<const uint8_t>(s.raw, s.len));
			break;
	}
}

// any program of M steps in which objects are closed by the end; ops outside the chosen set are not generated
template<typename K, size_t M>
std::array<Step, M> program(size_t maxdepth, bool strict) {
	std::array<Step, M> p;
	size_t depth = 0;
	for (size_t i = 0; i < M; i++) {
		Step &s = p[i];
		s.op = (int)sym_fork("op", 0, END);
		if (s.op == OBJ) {
			vf_assume(depth < maxdepth);
			depth++;
		} else if (s.op == END) {
			if (depth)
				depth--;
			else if (strict)
				continue; // a no-op at top level
		}
		if (s.op != END)
			s.key = vf_sym("key", sizeof(K) * 8);
		if (s.op == RAW) {
			s.len = sym_fork("len", 0, 3);
			for (size_t j = 0; j < s.len; j++)
				s.raw[j] = sym<uint8_t>("raw");
		} else if (s.op != END && s.op != OBJ)
			s.val = sym<uint32_t>("val");
	}
	vf_assume(depth == 0);
	return p;
}
