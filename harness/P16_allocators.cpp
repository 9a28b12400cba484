// MonotonicAllocator: disjoint blocks inside the arena, refusal only when the space is not there.
// AlignedAllocator: the block requested from the system covers n objects and is a multiple of the alignment, for every n.
// vf-bound: arenas of 0..8 bytes (real arrays) and of any 64-bit size (address arithmetic only), 4 requests of any 64-bit size; AlignedAllocator: every 64-bit n, element sizes 1, 8 and 12, alignments 16, 32 and 64; an arena of 70000 bytes filled past 65535
#include "vf.h"
#include <span>
#include "util/aligned_allocator.hh"
#include "util/monotonic_allocator.hh"

VF_HARNESS(mono) {
	uint8_t arena[8] = {1, 1, 1, 1, 1, 1, 1, 1};
	size_t N = sym_fork("N", 0, 8);
	MonotonicAllocator a{std::span<uint8_t>{arena, N}};
	vf_assert(a.total_size() == N && a.free_space() == N, "a new allocator offers the whole arena");
	size_t used = 0;
	for (int i = 0; i < (VF_THOROUGH ? 5 : 3); i++) {
		if (sym_fork("op", 0, 3) == 0) {
			a.reset();
			used = 0;
		} else {
			size_t sz = sym<size_t>("size");
			if (sz <= 8)
				sz = vf_concrete(sz);
			else
				sz = sym_fork("huge", 0, 1) ? ~(size_t)0 - sym_fork("minus", 0, 8) : 9;
			uint8_t *p = a.allocate(sz);
			bool fits = sz <= N - used;
			if (sz > 0)
				vf_assert((p != nullptr) == fits, "allocation succeeds exactly when the free space suffices");
			if (p && sz > 0) {
				vf_assert(p >= arena && p + sz <= arena + N, "blocks lie inside the arena");
				vf_assert((size_t)(p - arena) >= used, "blocks do not overlap earlier ones");
				p[0] = p[sz - 1] = 1; // the whole block is really there
			}
			if (fits)
				used += sz;
		}
		vf_assert(a.free_space() == N - used, "free_space is what has not been handed out");
		vf_assert(a.total_size() == N, "total_size is constant");
		vf_observe(a.free_space());
		vf_merge(i);
	}
	vf_reach("end");
}

// same, for an arena of any size: nothing is dereferenced
VF_HARNESS(mono_any) {
	uint8_t byte;
	size_t N = sym_range("N", 0, (1ull << 62));
	MonotonicAllocator a{std::span<uint8_t>{&byte, N}};
	size_t used = 0;
	for (int i = 0; i < 3; i++) {
		size_t sz = sym<size_t>("size");
		uint8_t *p = a.allocate(sz);
		bool fits = sz <= N - used;
		vf_assume(sz > 0);
		vf_assert((p != nullptr) == fits, "any request that fits succeeds and any that does not is refused");
		if (fits) {
			vf_assert((uintptr_t)p - (uintptr_t)&byte == used, "blocks are handed out back to back");
			used += sz;
		}
		vf_assert(a.free_space() == N - used, "free_space is the arena size minus what was handed out");
	}
	vf_reach("end");
}

// the system allocator is a stand-in that records the request
static size_t asked_align, asked_size;
static int asked;
static char block_[64];
static void *volatile block = block_; // opaque: the system allocator is declared to return fresh memory
extern "C" void *aligned_alloc(size_t al, size_t sz) noexcept {
	asked++;
	asked_align = al;
	asked_size = sz;
	return block;
}

template<size_t S>
struct Sized {
	char c[S];
};

template<size_t S, size_t A>
void aligned() {
	AlignedAllocator<Sized<S>, A> al;
	size_t n = sym<size_t>("n");
	asked = 0;
	auto *p = al.allocate(n);
	if (n == 0)
		vf_assert(p == nullptr, "an empty request yields null");
	if (p) {
		vf_assert(asked == 1 && (void *)p == block, "the block comes from the system allocator");
		vf_assert(asked_align == A, "the block has the requested alignment");
		vf_assert((asked_size & (A - 1)) == 0, "the block size is a multiple of the alignment");
		vf_assert(n <= (SIZE_MAX / S) && asked_size >= n * S, "the block covers all n objects");
		vf_assert(asked_size - n * S < A, "the block is padded by less than the alignment");
		vf_observe(asked_size);
	} else
		vf_assert(n == 0 || n > (SIZE_MAX - 2 * A) / S, "only an impossible request is refused");
	AlignedAllocator<Sized<S>, A> other;
	vf_assert(al == other && !(al != other), "all allocators of a type can free each other's blocks");
}
VF_HARNESS(al_8_64) { aligned<8, 64>(); }
VF_HARNESS(al_1_16) { aligned<1, 16>(); }
VF_HARNESS(al_12_32) { aligned<12, 32>(); }
VF_HARNESS(al_16_64) { aligned<16, 64>(); }

VF_HARNESS(mono_big) {
	static uint8_t arena[70000];
	MonotonicAllocator a{std::span<uint8_t>{arena}};
	size_t used = 0;
	for (size_t n : {size_t(250), size_t(20), size_t(65000), size_t(300), size_t(1)}) {
		uint8_t *p = a.allocate(n);
		vf_assert(p == arena + used, "blocks are handed out back to back");
		used += n;
		vf_assert(a.free_space() == sizeof arena - used && a.total_size() == sizeof arena, "free_space is what has not been handed out");
	}
	size_t n = sym<size_t>("n");
	vf_assume(n > 0);
	vf_assert((a.allocate(n) != nullptr) == (n <= sizeof arena - used), "allocation succeeds exactly when the free space suffices");
	vf_observe(n);
}
