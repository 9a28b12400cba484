// bitfield and OR, ByteBlock, zip, countzip and enumerate.
// vf-bound: every value of 8, 16 and 32-bit enums and integers; ByteBlock programs of 4 (quick) / 5 (thorough) writes; containers of 0 to 4 elements in every combination of sizes, every element value; containers of 300 elements
#include "vf.h"
#include <array>
#include <concepts>
#include <vector>
#include "util/bitfield.hh"
#include "util/byte_block.hh"
#include "util/countzip.hh"
#include "util/zip.hh"

enum class E8 : uint8_t { A = 1 };
enum class E16 : uint16_t { A = 1 };
enum E32 : uint32_t { A = 1 };

template<typename En, typename U>
void bits() {
	U a = sym<U>("a"), b = sym<U>("b"), c = sym<U>("c");
	En ea = (En)a, eb = (En)b, ec = (En)c;
	vf_assert(bitfield(ea) == a, "one value is its number");
	vf_assert(bitfield(ea, eb) == (U)(a | b), "values are or-ed together");
	vf_assert(bitfield(ea, eb, ec) == (U)(a | b | c), "values are or-ed together");
	vf_assert(bitfield(a) == a, "an integer is itself");
	vf_assert(bitfield(a, b, c) == (U)(a | b | c), "integers are or-ed together");
	vf_assert(OR({ea, eb, ec}) == (U)(a | b | c), "a list is or-ed together");
	vf_assert(OR<En>({ea}) == a, "a list of one is its number");
	vf_assert(OR<En>({}) == 0, "an empty list is 0");
	vf_assert(val(ea) == a, "val is the number");
	vf_observe(a | b | c);
}
VF_HARNESS(bits_u8) { bits<E8, uint8_t>(); }
VF_HARNESS(bits_u16) { bits<E16, uint16_t>(); }
VF_HARNESS(bits_u32) { bits<E32, uint32_t>(); }

VF_HARNESS(byte_block) {
	ByteBlock blk;
	uint8_t want[32];
	size_t n = 0;
	for (int i = 0; i < (VF_THOROUGH ? 5 : 4); i++) {
		switch (sym_fork("op", 0, 3)) {
			case 0: {
				uint8_t x = sym<uint8_t>("x");
				if (i & 1)
					blk.print(x);
				else
					blk.printU8(x);
				want[n++] = x;
				break;
			}
			case 1: {
				uint16_t x = sym<uint16_t>("x");
				if (i & 1)
					blk.print(x);
				else
					blk.printU16LE(x);
				for (int k = 0; k < 2; k++)
					want[n++] = (uint8_t)(x >> 8 * k);
				break;
			}
			case 2: {
				uint32_t x = sym<uint32_t>("x");
				if (i & 1)
					blk.print(x);
				else
					blk.printU32LE(x);
				for (int k = 0; k < 4; k++)
					want[n++] = (uint8_t)(x >> 8 * k);
				break;
			}
			case 3: {
				size_t len = sym_fork("len", 0, 2);
				uint8_t raw[2] = {sym<uint8_t>("x"), sym<uint8_t>("x")};
				blk.printRaw(raw, len);
				for (size_t k = 0; k < len; k++)
					want[n++] = raw[k];
				break;
			}
		}
		vf_assert(blk.data.size() == n, "every write appends its bytes");
		bool same = true;
		for (size_t k = 0; k < n; k++)
			same = vf_and(same, blk.data[k] == want[k]);
		vf_assert(same, "bytes are in order, little-endian");
	}
	vf_reach("end");
}

VF_HARNESS(zips) {
	size_t la = sym_fork("la", 0, 4), lb = sym_fork("lb", 0, 3);
	std::vector<uint16_t> a(la), b(lb);
	uint16_t va[4], vb[3];
	for (size_t i = 0; i < la; i++)
		va[i] = a[i] = sym<uint16_t>("a");
	for (size_t i = 0; i < lb; i++)
		vb[i] = b[i] = sym<uint16_t>("b");
	size_t n = la < lb ? la : lb, i = 0;
	for (auto [x, y] : zip(a, b)) {
		vf_assert(i < n, "iteration ends with the shortest container");
		vf_assert(x == va[i] && y == vb[i], "each step gives the corresponding elements");
		y = (uint16_t)(x + 1);
		i++;
	}
	vf_assert(i == n, "iteration reaches the end of the shortest container");
	for (size_t k = 0; k < lb; k++)
		vf_assert(b[k] == (k < n ? (uint16_t)(va[k] + 1) : vb[k]), "elements are given by reference");
	// by hand, with both increments
	if (n >= 2) {
		auto z = zip(a, b);
		auto it = z.begin();
		auto before = it++;
		vf_assert(std::get<0>(*before) == a[0] && std::get<0>(*it) == a[1] && std::get<1>(*it) == b[1], "the post-increment gives the position before");
		vf_assert(it != before && before == z.begin(), "iterators compare by position");
		auto &same = ++before;
		vf_assert(&same == &before && before == it, "the pre-increment gives the position after");
	}
	vf_observe(n);
}
VF_HARNESS(countzips) {
	std::array<uint8_t, 3> a{sym<uint8_t>("a"), sym<uint8_t>("a"), sym<uint8_t>("a")};
	size_t lb = sym_fork("lb", 0, 4);
	std::vector<uint32_t> b(lb);
	for (size_t i = 0; i < lb; i++)
		b[i] = sym<uint32_t>("b");
	const std::vector<uint32_t> old = b;
	size_t n = lb < 3 ? lb : 3, i = 0;
	for (auto [k, x, y, z] : countzip(a, b, old)) {
		vf_assert(k == i, "the count is the position");
		vf_assert(i < n, "iteration ends with the shortest container");
		vf_assert(x == a[i] && z == old[i], "each step gives the corresponding elements");
		y = z + x;
		i++;
	}
	vf_assert(i == n, "iteration reaches the end of the shortest container");
	for (size_t k = 0; k < lb; k++)
		vf_assert(b[k] == (k < n ? old[k] + a[k] : old[k]), "elements are given by reference");
	i = 0;
	for (auto [k, y] : enumerate(b)) {
		vf_assert(k == i && y == b[i], "enumerate gives position and element");
		i++;
	}
	vf_assert(i == lb, "enumerate covers the container");
	// by hand, with both increments
	auto z = countzip(a, b);
	auto it = z.begin();
	if (lb >= 2) {
		auto before = it++;
		vf_assert(std::get<0>(*before) == 0 && std::get<0>(*it) == 1, "the post-increment gives the position before");
		vf_assert(std::get<1>(*before) == a[0] && std::get<2>(*it) == b[1], "the post-increment gives the position before");
		vf_assert(it != before && before == z.begin(), "iterators compare by position");
	}
	vf_observe(n);
}

// more elements than a small counter holds
VF_HARNESS(zip_big) {
	constexpr size_t N = 300;
	static std::array<uint32_t, N> a;
	static std::array<uint32_t, N + 1> b;
	uint32_t s = sym<uint32_t>("s");
	for (size_t i = 0; i < N; i++) {
		a[i] = s + (uint32_t)i;
		b[i] = s ^ (uint32_t)i;
	}
	size_t i = 0;
	for (auto [k, x, y] : countzip(a, b)) {
		vf_assert(k == i && i < N, "the count is the position");
		vf_assert(x == s + (uint32_t)i && y == (s ^ (uint32_t)i), "each step gives the corresponding elements");
		i++;
	}
	vf_assert(i == N, "iteration ends with the shortest container");
	i = 0;
	for (auto [k, x] : enumerate(a)) {
		vf_assert(k == i && x == s + (uint32_t)i, "enumerate gives position and element");
		i++;
	}
	vf_assert(i == N, "enumerate covers the container");
	vf_observe(s);
}
