// CircularBufferAccess and CircularBufferBlock: positions, wrapping and contents for every position and block length.
// vf-bound: buffers of 1, 3, 4 and 8 elements; elements of 1, 2, 4 and 12 bytes; block lengths 0..size; any 32-bit start position for CircularBufferBlock; blocks at chosen positions in buffers of 300 and 600 (quick) / 65540 (thorough) and block buffers of 512 and 1024 / 131072 elements
// vf-assume: integer samples of at most 16 bits (CircularBufferAccess blends through float); block length at most the buffer size
#include "ref.h"
#include <array>
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"

template<typename T, size_t N>
void access(int steps) {
	std::array<T, N> mem, ref;
	for (size_t i = 0; i < N; i++)
		mem[i] = ref[i] = sym<T>("init");
	CircularBufferAccess<std::array<T, N>> b{mem};
	vf_assert(b.size() == N && b.rd_pos() == 0 && b.wr_pos() == 0, "a new buffer starts at position 0");
	size_t rd = sym_fork("rd", 0, N - 1), wr = sym_fork("wr", 0, N - 1);
	b.rd_pos(rd);
	b.wr_pos(wr);
	for (int s = 0; s < steps; s++) {
		size_t len = sym_fork("len", 0, N);
		std::array<T, N> blk{};
		switch (sym_fork("op", 0, 7)) {
			case 0: {
				bool w = b.read(std::span<T>(blk.data(), len));
				for (size_t i = 0; i < len; i++)
					vf_assert(blk[i] == ref[(rd + i) % N], "read returns the elements in order from the read position");
				vf_assert(w == (rd + len >= N), "read reports whether it passed the end");
				rd = (rd + len) % N;
				break;
			}
			case 1: {
				for (size_t i = 0; i < len; i++) {
					blk[i] = sym<T>("x");
					ref[(wr + i) % N] = blk[i];
				}
				bool w = b.write(std::span<const T>(blk.data(), len));
				vf_assert(w == (wr + len >= N), "write reports whether it passed the end");
				wr = (wr + len) % N;
				break;
			}
			case 2: {
				bool w = b.read_reverse(std::span<T>(blk.data(), len));
				for (size_t i = 0; i < len; i++)
					vf_assert(blk[i] == ref[(rd + N - i) % N], "read_reverse returns the elements backwards from the read position");
				vf_assert(w == (len > rd), "read_reverse reports whether it passed the beginning");
				rd = (rd + N - len) % N;
				break;
			}
			case 3: {
				for (size_t i = 0; i < len; i++) {
					blk[i] = sym<T>("x");
					ref[(wr + N - i) % N] = blk[i];
				}
				bool w = b.write_reverse(std::span<const T>(blk.data(), len));
				vf_assert(w == (len > wr), "write_reverse reports whether it passed the beginning");
				wr = (wr + N - len) % N;
				break;
			}
			case 4: {
				size_t m = sym_fork("marker", 0, N - 1);
				bool c = b.read_check_crossed(std::span<T>(blk.data(), len), m);
				bool e = false;
				for (size_t i = 0; i < len; i++)
					e |= (rd + i) % N == m;
				vf_assert(c == e, "read_check_crossed reports whether the marked element was read");
				for (size_t i = 0; i < len; i++)
					vf_assert(blk[i] == ref[(rd + i) % N], "read_check_crossed reads like read");
				rd = (rd + len) % N;
				break;
			}
			case 5: {
				size_t m = sym_fork("marker", 0, N - 1);
				bool c = b.read_reverse_check_crossed(std::span<T>(blk.data(), len), m);
				bool e = false;
				for (size_t i = 1; i <= len; i++)
					e |= (rd + N - i) % N == m;
				vf_assert(c == e, "read_reverse_check_crossed reports whether the read position reached the marker");
				for (size_t i = 0; i < len; i++)
					vf_assert(blk[i] == ref[(rd + N - i) % N], "read_reverse_check_crossed reads like read_reverse");
				rd = (rd + N - len) % N;
				break;
			}
			case 6: {
				size_t m = sym_fork("marker", 0, N - 1);
				for (size_t i = 0; i < len; i++) {
					blk[i] = sym<T>("x");
					ref[(wr + i) % N] = blk[i];
				}
				bool c = b.write_check_crossed(std::span<const T>(blk.data(), len), m);
				bool e = false;
				for (size_t i = 1; i <= len; i++)
					e |= (wr + i) % N == m;
				vf_assert(c == e, "write_check_crossed reports whether the write position reached the marker");
				wr = (wr + len) % N;
				break;
			}
			case 7:
				b.clear();
				for (auto &x : ref)
					x = 0;
				break;
		}
		vf_assert(b.rd_pos() == rd, "the read position moves by the block length and wraps");
		vf_assert(b.wr_pos() == wr, "the write position moves by the block length and wraps");
		bool eq = true;
		for (size_t i = 0; i < N; i++)
			eq = eq & (mem[i] == ref[i]);
		vf_assert(eq, "exactly the written elements change");
		vf_observe(b.rd_pos() * 16 + b.wr_pos());
		vf_merge(s);
	}
	vf_reach("end");
}
VF_HARNESS(acc_i16_3) { access<int16_t, 3>(VF_THOROUGH ? 3 : 2); }
VF_HARNESS(acc_u8_4) { access<uint8_t, 4>(VF_THOROUGH ? 2 : 1); }
VF_HARNESS(acc_i16_1) { access<int16_t, 1>(3); }

// a crossfaded write stays between the old and the new sample
VF_HARNESS(acc_phase) {
	std::array<int16_t, 4> mem{};
	int16_t old = sym<int16_t>("old"), x = sym<int16_t>("x");
	mem[2] = old;
	CircularBufferAccess<std::array<int16_t, 4>> b{mem, 2};
	vf_assert(b.wr_pos() == 2, "the initial offset is the first write position");
	const int16_t blk[1] = {x};
	if (sym_fork("full", 0, 1)) {
		b.write(blk, 0.f);
		vf_assert(mem[2] == old, "a write with phase 0 leaves the old sample");
	} else {
		b.write(blk, 1.f);
		vf_assert(mem[2] == x, "a write with phase 1 stores the new sample");
	}
	vf_observe((uint16_t)mem[2]);
}

template<typename T, size_t N>
void block() {
	CircularBufferBlock<T, N> b;
	std::array<T, N> ref;
	for (size_t i = 0; i < N; i++)
		b.data[i] = ref[i] = mk<T>("init");
	vf_assert(b.size() == N, "size is the number of elements");
	for (int s = 0; s < 2; s++) {
		unsigned pos = sym<unsigned>("pos");
		size_t k = vf_concrete(pos % N);
		size_t len = sym_fork("len", 0, N);
		T blk[N];
		for (size_t i = 0; i < len; i++) {
			blk[i] = mk<T>("x");
			ref[(k + i) % N] = blk[i];
		}
		b.write(std::span<const T>(blk, len), pos);
		bool eq = true;
		for (size_t i = 0; i < N; i++)
			eq = eq & (b.data[i] == ref[i]);
		vf_assert(eq, "the block lands at the position modulo the size, wrapping, and nothing else changes");
		vf_observe(ob(b.data[0]));
		vf_merge(s);
	}
}
VF_HARNESS(blk_u8_8) { block<uint8_t, 8>(); }
VF_HARNESS(blk_u32_4) { block<uint32_t, 4>(); }
VF_HARNESS(blk_wide_2) { block<Wide, 2>(); }
VF_HARNESS(blk_u16_1) { block<uint16_t, 1>(); }

// more elements than 8 or 16 bits count
template<size_t N>
void access_big() {
	vf_progress(20000000);
	static std::array<int16_t, N> mem;
	CircularBufferAccess<std::array<int16_t, N>> b{mem};
	vf_assert(b.size() == N, "size is the number of elements");
	const size_t starts[] = {254, N - 2, N - 1};
	size_t p = starts[sym_fork("start", 0, 2)];
	bool rev = sym_fork("rev", 0, 1);
	int16_t in[4], out[4];
	for (auto &x : in)
		x = sym<int16_t>("x");
	b.wr_pos(p);
	b.rd_pos(p);
	vf_assert(b.wr_pos() == p && b.rd_pos() == p, "the positions are the ones set");
	if (rev) {
		bool w = b.write_reverse(in);
		bool r = b.read_reverse(out);
		vf_assert(!w && !r, "no end was passed");
		vf_assert(b.wr_pos() == p - 4 && b.rd_pos() == p - 4, "the positions move by the block length");
		for (size_t i = 0; i < 4; i++)
			vf_assert(mem[p - i] == in[i], "the elements land below the position");
	} else {
		bool w = b.write(in);
		bool r = b.read(out);
		vf_assert(w == (p + 4 >= N) && r == w, "write and read report whether they passed the end");
		vf_assert(b.wr_pos() == (p + 4) % N && b.rd_pos() == (p + 4) % N, "the positions move by the block length and wrap");
		for (size_t i = 0; i < 4; i++)
			vf_assert(mem[(p + i) % N] == in[i], "the elements land from the position, wrapping");
	}
	for (size_t i = 0; i < 4; i++)
		vf_assert(out[i] == in[i], "reading from the same position returns the written elements");
	b.clear();
	bool z = true;
	for (size_t i = 0; i < N; i++)
		z = z & (mem[i] == 0);
	vf_assert(z, "clear zeroes every element");
	vf_observe(b.rd_pos());
}
VF_HARNESS(acc_big) { access_big<300>(); }
VF_HARNESS(acc_huge) { access_big<VF_THOROUGH ? 65540 : 600>(); }

template<typename T, size_t N>
void block_big(size_t len) {
	vf_progress(20000000);
	static CircularBufferBlock<T, N> b;
	static T blk[N];
	const size_t starts[] = {0, 200, N / 2 + 3, N - 1};
	size_t k = starts[sym_fork("start", 0, 3)];
	T a = sym<T>("first"), z = sym<T>("last"), m = sym<T>("mid");
	for (size_t i = 0; i < N; i++)
		b.data[i] = 7;
	for (size_t i = 0; i < len; i++)
		blk[i] = (T)(i * 31 + 1);
	blk[0] = a;
	blk[len / 2] = m;
	blk[len - 1] = z;
	b.write(std::span<const T>(blk, len), (unsigned)(N * sym_fork("turns", 0, 1) + k));
	bool eq = true;
	for (size_t i = 0; i < N; i++)
		eq = eq & (b.data[(k + i) % N] == (i < len ? blk[i] : (T)7));
	vf_assert(eq, "the block lands at the position modulo the size, wrapping, and nothing else changes");
	vf_observe(b.data[k]);
}
VF_HARNESS(blk_big_u16) { block_big<uint16_t, 512>(sym_fork("long", 0, 1) ? 400 : 5); }
VF_HARNESS(blk_huge_u8) { block_big<uint8_t, VF_THOROUGH ? 131072 : 1024>(sym_fork("long", 0, 1) ? 700 : 5); }
