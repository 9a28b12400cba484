// PaddedAligned, SmallestUnsignedInt and SmallestSignedInt, overloaded.
// vf-bound: PaddedAligned of 12 types of 1 to 300 bytes at alignments 4 to 4096, arrays of 3, every value; smallest integers for ranges around every power of two, every value of the range; overloaded visits of variants of 4 alternatives, every value
// vf-assume: SmallestSignedInt ranges below 2^62 in magnitude (its range computation does not compile beyond)
#include "vf.h"
#include "util/overloaded.hh"
#include "util/padded_aligned.hh"
#include "util/smallest_integer.hh"
#include <string_view>
#include <variant>

template<size_t N>
struct Bytes {
	uint8_t b[N];
};

template<typename T, size_t A>
void padded() {
	using PA = PaddedAligned<T, A>;
	constexpr size_t N = sizeof(T);
	static PA blk[3];
	static uint8_t zero[N];
	vf_assert(alignof(PA) % A == 0, "it is aligned wherever it is put");
	vf_assert(sizeof(PA) % A == 0, "the end is as aligned as the start");
	vf_assert(sizeof(PA) >= N && sizeof(PA) < N + A, "no more than the padding is added");
	PA local;
	vf_assert(memcmp(&static_cast<T &>(local), zero, N) == 0, "data starts as zero");
	for (auto &p : blk) {
		auto at = reinterpret_cast<uintptr_t>(&p());
		vf_assert(at % A == 0 && (at - reinterpret_cast<uintptr_t>(&p)) % A == 0, "data starts at a multiple of the alignment");
		vf_assert(at >= reinterpret_cast<uintptr_t>(&p) && at + N <= reinterpret_cast<uintptr_t>(&p + 1), "data is inside its block");
		vf_assert(&static_cast<T &>(p) == &p() && &p.data == &p(), "every access is to the same data");
	}
	auto line = [](int i) { return reinterpret_cast<uintptr_t>(&blk[i]()) / A; };
	vf_assert(line(1) >= line(0) + (N + A - 1) / A && line(2) >= line(1) + (N + A - 1) / A, "neighbours share no aligned block");
	uint8_t want[3][N];
	for (int i = 0; i < 3; i++) {
		for (size_t k = 0; k < N; k++)
			want[i][k] = k < 4 || k + 2 > N ? sym<uint8_t>("d") : (uint8_t)k;
		memcpy(&blk[i](), want[i], N);
	}
	want[1][0] = sym<uint8_t>("n");
	T &mid = blk[1];
	memcpy(&mid, want[1], N);
	for (int i = 0; i < 3; i++) {
		T &r = blk[i];
		vf_assert(memcmp(&r, want[i], N) == 0, "data is what was last written to it");
	}
	vf_observe(want[1][0]);
}
VF_HARNESS(padded_small) {
	padded<uint8_t, 4>();
	padded<uint16_t, 8>();
	padded<uint32_t, 4>();
	padded<uint64_t, 64>();
}
VF_HARNESS(padded_struct) {
	padded<Bytes<3>, 4>();
	padded<Bytes<31>, 32>();
	padded<Bytes<33>, 32>();
	padded<Bytes<63>, 64>();
	padded<Bytes<100>, 16>();
}
VF_HARNESS(padded_wide) {
	padded<uint8_t, 128>();
	padded<Bytes<300>, 256>();
	padded<Bytes<40>, 4096>();
}
VF_HARNESS(padded_exact) {
	padded<Bytes<32>, 32>();
	padded<Bytes<64>, 64>();
	padded<Bytes<64>, 16>();
}

template<uint64_t Max, size_t Size>
void unsigned_holds() {
	using T = typename SmallestUnsignedInt<Max>::type;
	uint64_t v = sym<uint64_t>("v");
	vf_assume(v <= Max);
	vf_assert(uint64_t(T(v)) == v, "every value up to the maximum survives");
	vf_assert(std::is_unsigned_v<T> && sizeof(T) == Size, "it is the smallest");
	vf_observe(v);
}
VF_HARNESS(unsigned_8) {
	unsigned_holds<0, 1>();
	unsigned_holds<1, 1>();
	unsigned_holds<0x80, 1>();
	unsigned_holds<0xff, 1>();
}
VF_HARNESS(unsigned_16) {
	unsigned_holds<0x100, 2>();
	unsigned_holds<0x8000, 2>();
	unsigned_holds<0xffff, 2>();
}
VF_HARNESS(unsigned_32) {
	unsigned_holds<0x10000, 4>();
	unsigned_holds<0x80000000u, 4>();
	unsigned_holds<0xffffffffu, 4>();
}
VF_HARNESS(unsigned_64) {
	unsigned_holds<0x100000000u, 8>();
	unsigned_holds<0x8000000000000000u, 8>();
	unsigned_holds<~uint64_t(0), 8>();
}

template<int64_t Min, int64_t Max, size_t Size>
void signed_holds() {
	using T = typename SmallestSignedInt<Min, Max>::type;
	int64_t v = sym<int64_t>("v");
	vf_assume(vf_and(v >= Min, v <= Max));
	vf_assert(int64_t(T(v)) == v, "every value of the range survives");
	vf_assert(std::is_signed_v<T> && sizeof(T) == Size, "it is the smallest");
	vf_observe((uint64_t)v);
}
VF_HARNESS(signed_8) {
	signed_holds<0, 0, 1>();
	signed_holds<0, 127, 1>();
	signed_holds<-128, 0, 1>();
	signed_holds<-128, 127, 1>();
	signed_holds<-100, -50, 1>();
}
VF_HARNESS(signed_16) {
	signed_holds<0, 128, 2>();
	signed_holds<-1, 255, 2>();
	signed_holds<-129, 127, 2>();
	signed_holds<-32768, 32767, 2>();
	signed_holds<-32768, -32768, 2>();
	signed_holds<0, 32767, 2>();
}
VF_HARNESS(signed_32) {
	signed_holds<0, 32768, 4>();
	signed_holds<-32769, 0, 4>();
	signed_holds<-1, 65535, 4>();
	signed_holds<-(int64_t(1) << 31), (int64_t(1) << 31) - 1, 4>();
}
VF_HARNESS(signed_64) {
	signed_holds<0, (int64_t(1) << 31), 8>();
	signed_holds<-(int64_t(1) << 31) - 1, 5, 8>();
	signed_holds<-(int64_t(1) << 61), (int64_t(1) << 61), 8>();
}

// around every power of two
constexpr uint64_t around(size_t i) { // i = 4 * bits + which
	const uint64_t p = uint64_t(1) << (i / 4);
	return i % 4 == 0 ? p - 1 : i % 4 == 1 ? p : i % 4 == 2 ? p | 1 : p | p >> 1;
}
constexpr size_t bytes_for(uint64_t max) {
	return max >> 32 ? 8 : max >> 16 ? 4 : max >> 8 ? 2 : 1;
}
template<size_t... I>
void all_unsigned(std::index_sequence<I...>) {
	uint64_t v = sym<uint64_t>("v");
	bool held = true, size = true;
	auto one = [&]<size_t K>() {
		constexpr uint64_t Max = around(K);
		using T = typename SmallestUnsignedInt<Max>::type;
		held = vf_and(held, vf_or(v > Max, uint64_t(T(v)) == v));
		size = size && sizeof(T) == bytes_for(Max);
	};
	(one.template operator()<I>(), ...);
	vf_assert(size, "it is the smallest");
	vf_assert(held, "every value up to the maximum survives");
	vf_observe(v);
}
VF_HARNESS(unsigned_powers) { all_unsigned(std::make_index_sequence<256>{}); }

template<size_t... I>
void all_signed(std::index_sequence<I...>) {
	int64_t v = sym<int64_t>("v");
	bool held = true, size = true;
	auto one = [&]<int64_t Min, int64_t Max>() {
		using T = typename SmallestSignedInt<Min, Max>::type;
		held = vf_and(held, vf_or(vf_or(v < Min, v > Max), int64_t(T(v)) == v));
		constexpr int64_t m = -(Min + 1) > Max ? -(Min + 1) : Max;
		size = size && sizeof(T) == (m < 0 ? 1 : bytes_for(uint64_t(m) << 1));
	};
	(one.template operator()<0, (int64_t)around(I)>(), ...);
	(one.template operator()<-(int64_t)around(I), 0>(), ...);
	(one.template operator()<-(int64_t)around(I), (int64_t)around(I)>(), ...);
	(one.template operator()<-(int64_t)around(I / 2), (int64_t)around(I)>(), ...);
	vf_assert(size, "it is the smallest");
	vf_assert(held, "every value of the range survives");
	vf_observe((uint64_t)v);
}
VF_HARNESS(signed_powers) { all_signed(std::make_index_sequence<244>{}); }

VF_HARNESS(overloaded_visit) {
	struct Pair {
		uint16_t a, b;
	};
	using V = std::variant<uint8_t, int32_t, float, Pair>;
	uint32_t x = sym<uint32_t>("x");
	int which = (int)sym_fork("which", 0, 3);
	V v;
	if (which == 0)
		v = (uint8_t)x;
	else if (which == 1)
		v = (int32_t)x;
	else if (which == 2)
		v = std::bit_cast<float>(x);
	else
		v = Pair{(uint16_t)x, (uint16_t)(x >> 16)};
	int calls = 0, called = -1;
	uint64_t got = std::visit(overloaded{
								  [&](uint8_t y) -> uint64_t { calls++; called = 0; return y; },
								  [&](int32_t y) -> uint64_t { calls++; called = 1; return (uint32_t)y; },
								  [&](float y) -> uint64_t { calls++; called = 2; return std::bit_cast<uint32_t>(y); },
								  [&](Pair const &y) -> uint64_t { calls++; called = 3; return y.a | (uint32_t)y.b << 16; },
							  },
							  v);
	vf_assert(calls == 1 && called == which, "exactly the alternative's own function is called");
	vf_assert(got == (which == 0 ? (uint8_t)x : x), "with its value, and its result comes back");
	int other = 0;
	std::visit(overloaded{[&](float) { other = 1; }, [&](auto const &) { other = 2; }}, v);
	vf_assert(other == (which == 2 ? 1 : 2), "a generic function takes what no other does");
	vf_observe(got);
}
