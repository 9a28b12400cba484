// CompactBinaryWriter, CompactBinarySerializer (serialize, measure, stream) and CompactBinaryParser agree on the format.
// vf-bound: key types uint8_t, uint16_t, uint32_t, an enum and char[3]; size types uint8_t, uint16_t, uint32_t; every program of 3 (quick; 2 with text keys) / 4 (thorough) steps out of 1/2/4-byte fields, a 3-byte struct, raw data of 0-3 bytes, and nested objects, and three deeper fixed nestings; every key and every data value; raw data and objects of chosen lengths up to 65999 bytes
// vf-assume: data sizes fit the size type; objects are closed
#include "cb.h"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

constexpr size_t STEPS = VF_THOROUGH ? 4 : 3;

// writes the program from step i up to the matching END, nesting through the serializer's callables
template<typename K, size_t M, typename S>
void describe(S &s, const std::array<Step, M> &p, size_t i, size_t depth) {
	for (; i < M; i++) {
		if (p[i].op == END) {
			if (depth)
				return;
			continue;
		}
		if (p[i].op != OBJ) {
			write_step<K>(s, p[i]);
			continue;
		}
		Key<K> k{p[i].key};
		s.object(k.get(), [&](auto &sub) { describe<K>(sub, p, i + 1, 1); });
		// skip to the matching end
		size_t d = 1;
		while (d) {
			i++;
			if (p[i].op == OBJ)
				d++;
			if (p[i].op == END)
				d--;
		}
	}
}

template<typename K, typename S, size_t M>
void formats(size_t maxdepth) {
	auto p = program<K, M>(maxdepth, true);
	Out o;
	size_t n = ref_encode<K, S>(p, o);

	uint8_t w[CBMAX]{};
	CompactBinaryWriter<K, S> wr{std::span<uint8_t>(w, n)};
	for (auto &s : p) {
		if (s.op == OBJ) {
			Key<K> k{s.key};
			wr.begin_object(k.get());
		} else if (s.op == END)
			wr.end_object();
		else
			write_step<K>(wr, s);
	}
	vf_assert(wr.size() == n, "the writer's size is the length of the encoding");
	bool eq = true;
	for (size_t i = 0; i < n; i++)
		eq = eq & (w[i] == o.d[i]);
	vf_assert(eq, "the writer produces [key][size][data] in little endian, objects sized by their contents");

	using Ser = CompactBinarySerializer<K, S>;
	auto desc = [&](auto &s) { describe<K>(s, p, 0, 0); };
	uint8_t z[CBMAX]{};
	size_t sn = Ser::serialize(std::span<uint8_t>(z, n), desc);
	vf_assert(sn == n, "serialize returns the length of the encoding");
	eq = true;
	for (size_t i = 0; i < n; i++)
		eq = eq & (z[i] == o.d[i]);
	vf_assert(eq, "the serializer produces the same bytes as the writer");
	vf_assert(Ser::measure(desc) == n, "measure is the length of the encoding");

	uint8_t t[CBMAX]{};
	size_t tn = 0;
	size_t ret = Ser::stream(desc, [&](std::span<const uint8_t> b) {
		for (auto x : b)
			t[tn++] = x;
	});
	vf_assert(ret == n && tn == n, "stream emits and returns the length of the encoding");
	eq = true;
	for (size_t i = 0; i < n; i++)
		eq = eq & (t[i] == o.d[i]);
	vf_assert(eq, "the streamed bytes are the same as the written ones");
	vf_observe(n);
	vf_observe(w[0]);
}
enum class EKey : uint16_t { A, B };

VF_HARNESS(fmt_u8_u8) { formats<uint8_t, uint8_t, STEPS>(3); }
VF_HARNESS(fmt_u16_u16) { formats<uint16_t, uint16_t, STEPS>(3); }
VF_HARNESS(fmt_enum_u32) { formats<EKey, uint32_t, STEPS>(3); }
VF_HARNESS(fmt_text_u16) { formats<const char[3], uint16_t, 2>(3); }

// objects around objects and fields, in a fixed order of opening and closing
template<typename K, typename S>
void nested() {
	std::array<Step, 7> p;
	int shape = (int)sym_fork("shape", 0, 2);
	const int shapes[3][7] = {
		{OBJ, F16, OBJ, F8, END, FPT, END},
		{OBJ, OBJ, OBJ, RAW, END, END, END},
		{F32, OBJ, END, OBJ, RAW, END, F8},
	};
	for (size_t i = 0; i < 7; i++) {
		p[i].op = shapes[shape][i];
		if (p[i].op != END) {
			p[i].key = vf_sym("key", sizeof(K) * 8);
			p[i].val = sym<uint32_t>("val");
		}
		if (p[i].op == RAW) {
			p[i].len = sym_fork("len", 0, 3);
			for (auto &b : p[i].raw)
				b = sym<uint8_t>("raw");
		}
	}
	Out o;
	size_t n = ref_encode<K, S>(p, o);
	uint8_t w[CBMAX]{}, z[CBMAX]{};
	CompactBinaryWriter<K, S> wr{std::span<uint8_t>(w, n)};
	for (auto &s : p) {
		if (s.op == OBJ) {
			Key<K> k{s.key};
			wr.begin_object(k.get());
		} else if (s.op == END)
			wr.end_object();
		else
			write_step<K>(wr, s);
	}
	auto desc = [&](auto &s) { describe<K>(s, p, 0, 0); };
	using Ser = CompactBinarySerializer<K, S>;
	size_t sn = Ser::serialize(std::span<uint8_t>(z, n), desc);
	vf_assert(wr.size() == n && sn == n && Ser::measure(desc) == n, "writer, serializer and measure agree on the length of nested objects");
	bool eq = true;
	for (size_t i = 0; i < n; i++)
		eq = eq & (w[i] == o.d[i]) & (z[i] == o.d[i]);
	vf_assert(eq, "nested objects are encoded with the size of their contents at every level");
	vf_observe(n);
}
VF_HARNESS(nest_u8_u8) { nested<uint8_t, uint8_t>(); }
VF_HARNESS(nest_u32_u16) { nested<uint32_t, uint16_t>(); }

// what the writer wrote, the parser finds: the first entry with the key, at the top level and inside an object
template<typename K, typename S>
void roundtrip() {
	uint8_t w[CBMAX]{};
	CompactBinaryWriter<K, S> wr{std::span<uint8_t>(w)};
	uint64_t k1 = vf_sym("k1", sizeof(K) * 8), k2 = vf_sym("k2", sizeof(K) * 8), k3 = vf_sym("k3", sizeof(K) * 8), k4 = vf_sym("k4", sizeof(K) * 8);
	uint32_t v1 = sym<uint32_t>("v1");
	uint16_t v2 = sym<uint16_t>("v2");
	int8_t v3 = sym<int8_t>("v3");
	Pt v4{sym<uint16_t>("v4x"), sym<uint8_t>("v4y")};
	wr.field(Key<K>{k1}.get(), v1);
	wr.begin_object(Key<K>{k2}.get());
	wr.field(Key<K>{k1}.get(), v2);
	wr.field(Key<K>{k3}.get(), v3);
	wr.end_object();
	wr.field(Key<K>{k3}.get(), v2);
	wr.field(Key<K>{k4}.get(), v4);
	CompactBinaryParser<K, S> ps{std::span<const uint8_t>(w, wr.size())};
	Key<K> q1{k1}, q2{k2}, q3{k3}, q4{k4};
	auto g1 = ps.template get<uint32_t>(q1.get());
	vf_assert(g1.has_value() && g1.value_or(0) == v1, "a field comes back with the value written");
	vf_assert(!ps.template get<uint16_t>(q1.get()).has_value(), "a field does not come back as a type of another size");
	vf_assert(ps.get_size(q1.get()) == 4, "a field has the size of its type");
	bool d12 = k1 != k2, d13 = k1 != k3, d23 = k2 != k3;
	if (d12 && d13 && d23) {
		auto node = ps.get_node(q2.get());
		CompactBinaryParser<K, S> sub{node};
		auto a = sub.template get<uint16_t>(q1.get());
		auto b = sub.template get<int8_t>(q3.get());
		vf_assert(a.has_value() && a.value_or(0) == v2, "a field inside an object comes back");
		vf_assert(b.has_value() && b.value_or(0) == v3, "a later field inside an object comes back");
		auto c = ps.template get<uint16_t>(q3.get());
		vf_assert(c.has_value() && c.value_or(0) == v2, "an object is skipped over as one entry");
		if (k4 != k1 && k4 != k2 && k4 != k3) {
			auto d = ps.template get<Pt>(q4.get());
			vf_assert(d.has_value() && d->x == v4.x && d->y == v4.y, "a struct comes back with the value written");
			vf_assert(!sub.template get<uint16_t>(q4.get()).has_value() && sub.get_size(q4.get()) == 0, "a key that is not there is not found");
			vf_reach("all keys distinct");
		}
	}
	vf_observe(wr.size());
}
VF_HARNESS(rt_u8_u8) { roundtrip<uint8_t, uint8_t>(); }
VF_HARNESS(rt_u16_u16) { roundtrip<uint16_t, uint16_t>(); }
VF_HARNESS(rt_u32_u8) { roundtrip<uint32_t, uint8_t>(); }

// text keys: equal up to their NUL means the same entry, whatever follows
VF_HARNESS(rt_text) {
	using K = const char[3];
	uint8_t w[CBMAX]{};
	CompactBinaryWriter<K, uint8_t> wr{std::span<uint8_t>(w)};
	char a[3], b[3], q[3];
	for (size_t i = 0; i < 3; i++) {
		a[i] = sym<char>("a");
		b[i] = sym<char>("b");
		q[i] = sym<char>("q");
	}
	uint16_t v = sym<uint16_t>("v");
	uint8_t u = sym<uint8_t>("u");
	wr.field(a, v);
	wr.field(b, u);
	auto eq = [](const char *x, const char *y) {
		bool same = true, ended = false;
		for (int i = 0; i < 3; i++) {
			same = vf_and(same, vf_or(ended, x[i] == y[i]));
			ended = vf_or(ended, vf_and(x[i] == 0, y[i] == 0));
		}
		return same;
	};
	CompactBinaryParser<K, uint8_t> ps{std::span<const uint8_t>(w, wr.size())};
	bool qa = eq(q, a), qb = eq(q, b);
	auto r = ps.get<uint16_t>(q);
	auto s = ps.get<uint8_t>(q);
	vf_assert(r.has_value() == qa, "a text key finds exactly the entry with the same text");
	if (r.has_value())
		vf_assert(*r == v, "the entry found by text has the value written");
	vf_assert(s.has_value() == vf_and(!qa, qb), "a text key finds the second entry when it does not match the first");
	if (s.has_value())
		vf_assert(*s == u, "the second entry found by text has the value written");
}

// data longer than one size byte can tell
VF_HARNESS(big_u8_u16) {
	static uint8_t data[700], w[800], z[800];
	const size_t lens[] = {0, 254, 255, 256, 257, 700};
	size_t len = lens[sym_fork("len", 0, 5)];
	uint8_t first = sym<uint8_t>("first"), last = sym<uint8_t>("last"), after = sym<uint8_t>("after");
	if (len) {
		data[0] = first;
		data[len - 1] = last;
	}
	std::span<const uint8_t> d{data, len};
	CompactBinaryWriter<uint8_t, uint16_t> wr{std::span<uint8_t>(w)};
	wr.begin_object(1);
	wr.raw(2, d);
	wr.end_object();
	wr.field(3, after);
	size_t n = CompactBinarySerializer<uint8_t, uint16_t>::serialize(z, [&](auto &s) {
		s.object(1, [&](auto &t) { t.raw(2, d); });
		s.field(3, after);
	});
	vf_assert(wr.size() == len + 10 && n == len + 10, "long data is written whole");
	vf_assert(memcmp(w, z, len + 10) == 0, "writer and serializer agree on long data");
	CompactBinaryParser<uint8_t, uint16_t> ps{std::span<const uint8_t>(w, n)};
	auto node = ps.get_node(1);
	vf_assert(node.size() == len + 3, "a long object is found whole");
	CompactBinaryParser<uint8_t, uint16_t> sub{node};
	auto raw = sub.get_node(2);
	vf_assert(raw.size() == len && sub.get_size(2) == len, "long data is found whole");
	if (len)
		vf_assert(raw[0] == data[0] && raw[len - 1] == data[len - 1], "long data comes back as written");
	auto a = ps.get<uint8_t>(3);
	vf_assert(a.has_value() && *a == after, "the entry after a long object is found");
}

// positions and lengths beyond 8 and 16 bits: data, an object of data, a field
template<typename S>
static void far(bool wide) {
	vf_progress(100000000);
	static uint8_t data[66000], w[200000], z[200000];
	const size_t lens[] = {1, 300, 65533, 65536, 65999};
	size_t i1 = sym_fork("before", 0, wide ? 4 : 1), i2 = sym_fork("inside", 0, wide ? 4 : 1);
	if (wide && !VF_THOROUGH)
		vf_assume((i1 == 1 && i2 == 3) || (i1 == 2 && i2 == 1));
	size_t n1 = lens[i1], n2 = lens[i2];
	uint8_t first = sym<uint8_t>("first"), after = sym<uint8_t>("after"), in = sym<uint8_t>("in");
	data[0] = first;
	constexpr size_t H = 1 + sizeof(S);
	CompactBinaryWriter<uint8_t, S> wr{std::span<uint8_t>(w)};
	auto desc = [&](auto &s) {
		s.raw(1, std::span<const uint8_t>(data, n1));
		s.object(2, [&](auto &t) {
			t.raw(3, std::span<const uint8_t>(data, n2));
			t.object(4, [&](auto &u) { u.field(5, in); });
		});
		s.field(6, after);
	};
	wr.raw(1, std::span<const uint8_t>(data, n1));
	wr.begin_object(2);
	wr.raw(3, std::span<const uint8_t>(data, n2));
	wr.begin_object(4);
	wr.field(5, in);
	wr.end_object();
	wr.end_object();
	wr.field(6, after);
	size_t inner = H + n2 + H + H + 1, all = H + n1 + H + inner + H + 1;
	vf_assert(wr.size() == all, "long contents are written whole");
	vf_assert((CompactBinarySerializer<uint8_t, S>::measure(desc)) == all, "long contents are measured whole");
	size_t n = CompactBinarySerializer<uint8_t, S>::serialize(z, desc);
	vf_assert(n == all, "long contents are serialized whole");
	size_t streamed = 0;
	size_t m = CompactBinarySerializer<uint8_t, S>::stream(desc, [&](std::span<const uint8_t> b) { streamed += b.size(); });
	vf_assert(m == all && streamed == all, "long contents are streamed whole");
	vf_assert(memcmp(w, z, all) == 0, "writer and serializer agree on long contents");
	CompactBinaryParser<uint8_t, S> ps{std::span<const uint8_t>(w, n)};
	auto raw = ps.get_node(1);
	vf_assert(raw.size() == n1 && raw.data() == w + H && raw[0] == first, "long data is found whole");
	auto node = ps.get_node(2);
	vf_assert(node.size() == inner && node.data() == w + H + n1 + H, "a long object behind long data is found whole");
	CompactBinaryParser<uint8_t, S> sub{node};
	vf_assert(sub.get_size(3) == n2 && sub.get_node(3)[0] == first, "long data in the object is found whole");
	CompactBinaryParser<uint8_t, S> deep{sub.get_node(4)};
	auto i = deep.template get<uint8_t>(5);
	vf_assert(i.has_value() && *i == in, "the object behind long data has its field");
	auto a = ps.template get<uint8_t>(6);
	vf_assert(a.has_value() && *a == after, "the entry after a long object is found");
	vf_assert(!ps.template get<uint8_t>(7).has_value(), "an absent key is not found");
	vf_observe(n);
}
VF_HARNESS(far_u16) { far<uint16_t>(false); }
VF_HARNESS(far_u32) { far<uint32_t>(true); }
