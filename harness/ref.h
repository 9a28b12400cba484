// Reference containers used by the harnesses: plain bounded sequences.
#pragma once
#include "vf.h"
#include "own.h"

template<typename T, size_t N>
struct Seq {
	T d[N]{};
	size_t n = 0;

	void push_back(T x) { d[n++] = x; }
	T front() const { return d[0]; }
	T back() const { return d[n - 1]; }
	void pop_front() {
		for (size_t i = 0; i + 1 < n; i++)
			d[i] = d[i + 1];
		n--;
		d[n] = T{};
	}
	void pop_back() {
		n--;
		d[n] = T{};
	}
	void insert(size_t at, T x) {
		for (size_t i = n; i > at; i--)
			d[i] = d[i - 1];
		d[at] = x;
		n++;
	}
	void erase(size_t at) {
		for (size_t i = at; i + 1 < n; i++)
			d[i] = d[i + 1];
		n--;
		d[n] = T{};
	}
	void clear() {
		while (n)
			pop_back();
	}
};

// a 12-byte element: catches byte/element confusions
struct Wide {
	uint32_t a = 0, b = 0, c = 0;
	bool operator==(const Wide &) const = default;
};

template<typename T>
inline T mk(const char *n) {
	return sym<T>(n);
}
template<>
inline Wide mk<Wide>(const char *n) {
	uint32_t x = sym<uint32_t>(n);
	return Wide{x, x + 1, x ^ 7};
}
template<>
inline Own mk<Own>(const char *n) {
	return Own{sym<uint8_t>(n)};
}
template<typename T>
inline uint64_t ob(T x) {
	return (uint64_t)x;
}
inline uint64_t ob(Wide x) {
	return x.a;
}
inline uint64_t ob(const Own &x) {
	return x.get();
}
