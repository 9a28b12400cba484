// Writing more than the output buffer holds: no byte outside it is touched, what fits is right, and the full size is reported.
// vf-bound: key types uint8_t, uint16_t, char[3]; size types uint8_t, uint16_t, uint32_t; every program of 3 (quick) / 4 (thorough) steps, objects unclosed, over-closed or nested deeper than MaxDepth (1, 2 and 8) included; every buffer size from 0 to the full encoding and beyond; raw data of chosen lengths up to 65999 bytes into buffers of 0, 7 and 300
#include "cb.h"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

template<typename K, typename S, unsigned D, size_t M>
void overflow() {
	std::array<Step, M> p;
	for (size_t i = 0; i < M; i++) {
		Step &s = p[i];
		s.op = (int)sym_fork("op", 0, END);
		vf_assume(s.op != F8 && s.op != FPT);
		if (s.op != END)
			s.key = vf_sym("key", sizeof(K) * 8);
		if (s.op == RAW) {
			s.len = sym_fork("len", 0, 2);
			vf_assume(s.len != 1);
			for (size_t j = 0; j < s.len; j++)
				s.raw[j] = sym<uint8_t>("raw");
		} else if (s.op != END && s.op != OBJ)
			s.val = sym<uint32_t>("val");
	}
	// the reference: sizes of objects that are too deep, or never closed, stay 0
	Out o;
	size_t at[M + 1]{}, depth = 0;
	for (auto &s : p) {
		if (s.op == END) {
			if (depth) {
				depth--;
				if (depth < D) {
					size_t n = o.n - at[depth] - sizeof(S);
					for (size_t i = 0; i < sizeof(S); i++)
						o.d[at[depth] + i] = (uint8_t)((uint64_t)n >> (8 * i));
				}
			}
			continue;
		}
		if (s.op == OBJ) {
			KeyOf<K>::ref(o, s.key);
			at[depth++] = o.n;
			o.le(0, sizeof(S));
			continue;
		}
		std::array<Step, 1> one{s};
		ref_encode<K, S>(one, o);
	}
	size_t size = sym_fork("size", 0, o.n + 1);
	uint8_t *buf = new uint8_t[size + 1];
	for (size_t i = 0; i <= size; i++)
		buf[i] = 0x5A;
	CompactBinaryWriter<K, S, D> w{std::span<uint8_t>(buf, size)};
	for (auto &s : p) {
		if (s.op == OBJ) {
			Key<K> k{s.key};
			w.begin_object(k.get());
		} else if (s.op == END)
			w.end_object();
		else
			write_step<K>(w, s);
	}
	vf_assert(w.size() == o.n, "size is the number of bytes the whole encoding needs");
	bool eq = true;
	for (size_t i = 0; i < size && i < o.n; i++)
		eq = eq & (buf[i] == o.d[i]);
	vf_assert(eq, "the bytes that fit are those of the whole encoding");
	vf_assert(buf[size] == 0x5A && (size <= o.n || buf[o.n] == 0x5A), "nothing outside the buffer or past the end is written");
	delete[] buf;
	vf_observe(w.size());
}
VF_HARNESS(ovf_u8_u8) { overflow<uint8_t, uint8_t, 2, VF_THOROUGH ? 4 : 3>(); }
VF_HARNESS(ovf_u16_u32) { overflow<uint16_t, uint32_t, 8, VF_THOROUGH ? 4 : 3>(); }
VF_HARNESS(ovf_u8_u16_d1) { overflow<uint8_t, uint16_t, 1, VF_THOROUGH ? 4 : 3>(); }
VF_HARNESS(ovf_text_u8) { overflow<const char[3], uint8_t, 8, 2>(); }

// deeper than MaxDepth: begin / end in any order
VF_HARNESS(ovf_depth) {
	uint8_t buf[32]{};
	constexpr unsigned D = 2;
	CompactBinaryWriter<uint8_t, uint8_t, D> w{std::span<uint8_t>(buf, 20)};
	size_t depth = 0, at[12]{}, n = 0;
	uint8_t ref[32]{};
	for (int i = 0; i < (VF_THOROUGH ? 10 : 8); i++) {
		uint8_t k = sym<uint8_t>("k");
		if (sym_fork("close", 0, 1)) {
			w.end_object();
			if (depth) {
				depth--;
				if (depth < D)
					ref[at[depth]] = (uint8_t)(n - at[depth] - 1);
			}
		} else {
			w.begin_object(k);
			ref[n] = k;
			at[depth++] = n + 1;
			ref[n + 1] = 0;
			n += 2;
		}
	}
	bool eq = true;
	for (size_t i = 0; i < 32; i++)
		eq = eq & (buf[i] == (i < 20 ? ref[i] : 0));
	vf_assert(eq, "objects within the supported depth get their size however deep the nesting goes");
	vf_assert(w.size() == n, "deep nesting does not change the size");
}

// the serializer: same guarantee for every buffer size
template<typename K, typename S>
void ser() {
	uint64_t k1 = vf_sym("k1", sizeof(K) * 8), k2 = vf_sym("k2", sizeof(K) * 8);
	uint32_t v = sym<uint32_t>("v");
	uint8_t raw[2] = {sym<uint8_t>("r0"), sym<uint8_t>("r1")};
	auto desc = [&](auto &s) {
		Key<K> a{k1}, b{k2};
		s.field(a.get(), (uint16_t)v);
		s.object(b.get(), [&](auto &t) {
			t.raw(a.get(), std::span<const uint8_t>(raw, 2));
			t.object(b.get(), [&](auto &u) { u.field(a.get(), v); });
		});
		s.field(b.get(), (uint8_t)v);
	};
	std::array<Step, 7> p;
	const int ops[7] = {F16, OBJ, RAW, OBJ, F32, END, END};
	const bool second[7] = {false, true, false, true, false, false, false};
	for (int i = 0; i < 7; i++) {
		p[i].op = ops[i];
		p[i].key = second[i] ? k2 : k1;
		p[i].val = v;
	}
	p[2].len = 2;
	p[2].raw[0] = raw[0];
	p[2].raw[1] = raw[1];
	Out o;
	ref_encode<K, S>(p, o);
	std::array<Step, 1> last;
	last[0].op = F8;
	last[0].key = k2;
	last[0].val = v;
	ref_encode<K, S>(last, o);
	size_t size = sym_fork("size", 0, o.n + 1);
	uint8_t *buf = new uint8_t[size + 1];
	for (size_t i = 0; i <= size; i++)
		buf[i] = 0x5A;
	size_t n = CompactBinarySerializer<K, S>::serialize(std::span<uint8_t>(buf, size), desc);
	vf_assert(n == o.n, "serialize returns the number of bytes the whole encoding needs");
	bool eq = true;
	for (size_t i = 0; i < size && i < o.n; i++)
		eq = eq & (buf[i] == o.d[i]);
	vf_assert(eq, "the serialized bytes that fit are those of the whole encoding");
	vf_assert(buf[size] == 0x5A && (size <= o.n || buf[o.n] == 0x5A), "serialize writes nothing outside the buffer or past the end");
	delete[] buf;
	vf_observe(n);
}
VF_HARNESS(ser_u8_u8) { ser<uint8_t, uint8_t>(); }
VF_HARNESS(ser_u32_u16) { ser<uint32_t, uint16_t>(); }

// more bytes than 8 or 16 bits count, most of them past the end of the buffer
VF_HARNESS(ovf_far) {
	vf_progress(100000000);
	static uint8_t data[66000];
	const size_t lens[] = {252, 300, 65531, 65999}, sizes[] = {0, 7, 300};
	size_t len = lens[sym_fork("len", 0, 3)], size = sizes[sym_fork("size", 0, 2)];
	vf_assume(VF_THOROUGH || len < 1000 || (size == 300) == (len == 65531));
	data[0] = sym<uint8_t>("first");
	uint8_t v = sym<uint8_t>("v");
	auto desc = [&](auto &s) {
		s.raw(1, std::span<const uint8_t>(data, len));
		s.object(2, [&](auto &t) { t.field(3, v); });
	};
	const size_t all = 5 + len + 5 + 6;
	uint8_t *a = new uint8_t[size], *b = new uint8_t[size]; // exact: any access outside is an error
	CompactBinaryWriter<uint8_t, uint32_t> w{std::span<uint8_t>(a, size)};
	w.raw(1, std::span<const uint8_t>(data, len));
	w.begin_object(2);
	w.field(3, v);
	w.end_object();
	vf_assert(w.size() == all, "size is the number of bytes the whole encoding needs");
	vf_assert((CompactBinarySerializer<uint8_t, uint32_t>::serialize(std::span<uint8_t>(b, size), desc)) == all, "serialize returns the number of bytes the whole encoding needs");
	bool eq = true;
	for (size_t i = 0; i < size; i++) {
		uint8_t x = i == 0 ? 1 : i < 5 ? (uint8_t)(len >> (8 * (i - 1))) : i < 5 + len ? data[i - 5] : 0;
		if (i >= 5 + len) {
			const uint8_t tail[11] = {2, 6, 0, 0, 0, 3, 1, 0, 0, 0, v};
			x = i < all ? tail[i - 5 - len] : 0;
		}
		if (i < all)
			eq = eq & (a[i] == x) & (b[i] == x);
	}
	vf_assert(eq, "the bytes that fit are those of the whole encoding");
	delete[] a;
	delete[] b;
	vf_observe(w.size());
}
