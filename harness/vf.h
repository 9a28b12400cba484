// Interface between a harness and the two ways it is run:
//  * symbolically: the vf_* calls are intercepted by engine/sym.py while it executes the LLVM IR of this file
//  * natively: harness/vf_native.cpp supplies them, reading the symbolic inputs from a replay file
#pragma once
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C" {
uint64_t vf_sym(const char *name, int bits);
void vf_assume(bool c);
void vf_assert(bool c, const char *msg);
void vf_observe(uint64_t v);
// a path may take this many steps more before it counts as one that does not end
void vf_progress(uint64_t steps);
// join all paths that are here (with equal tag): paths whose concrete memory contents differ stay separate
void vf_merge(uint64_t tag);
// join all paths that are here, whatever they hold
void vf_merge_all(uint64_t tag);
void vf_reach(const char *msg);
uint64_t vf_concrete(uint64_t v);
[[noreturn]] void vf_stop();
uint64_t vf_select(bool c, uint64_t a, uint64_t b);
bool vf_and(bool a, bool b);
bool vf_or(bool a, bool b);
}

#define VF_HARNESS(name) extern "C" void vfh_##name()

template<typename T>
inline T sym(const char *name) {
	static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
	if constexpr (std::is_same_v<T, bool>)
		return (bool)(vf_sym(name, 1) & 1);
	else if constexpr (std::is_same_v<T, float>)
		return std::bit_cast<float>((uint32_t)vf_sym(name, 32));
	else if constexpr (std::is_same_v<T, double>)
		return std::bit_cast<double>((uint64_t)vf_sym(name, 64));
	else
		return (T)vf_sym(name, sizeof(T) * 8);
}

// unsigned value in [lo, hi]
inline uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi) {
	int bits = 1;
	while (bits < 64 && (hi >> bits))
		bits++;
	uint64_t v = vf_sym(name, bits);
	vf_assume(v >= lo && v <= hi);
	return v;
}

// value in [lo, hi] made concrete: one path per value
inline uint64_t sym_fork(const char *name, uint64_t lo, uint64_t hi) {
	return vf_concrete(sym_range(name, lo, hi));
}

inline bool vf_isnan(float f) {
	return f != f;
}
inline uint32_t fbits_of(float f) {
	return std::bit_cast<uint32_t>(f);
}

// branch-free implication / conjunction keep assertions from forking paths
#define vf_implies(a, b) vf_or(!(a), (b))
