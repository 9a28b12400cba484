// CompactBinaryParser on any bytes whatever: it agrees with a reference reading of the format and stays inside the blob.
// vf-bound: every blob of up to 10 bytes (quick) / 13 bytes (thorough) for 1-byte keys and sizes, 9-20 / 12-24 bytes for wider ones; key types uint8_t, uint16_t, char[2], char[3]; size types uint8_t, int8_t, uint16_t, int16_t, uint32_t, uint64_t; every key looked up; two entries around a gap of chosen lengths up to 66000 bytes
#include "vf.h"
#include <span>
#include "util/compact_binary_parser.hh"

static uint8_t *blob;
static size_t len;

static void any_blob(size_t max) {
	len = sym_fork("len", 0, max);
	blob = new uint8_t[len]; // exactly as long as the blob: any access outside is an error
	for (size_t i = 0; i < len; i++)
		blob[i] = sym<uint8_t>("byte");
}

struct Found {
	bool ok = false;
	uint64_t size = 0; // as read, zero extended
	size_t at = 0;
};

template<typename S>
static uint64_t read_size(size_t at) {
	uint64_t v = 0;
	for (size_t i = 0; i < sizeof(S); i++)
		v |= (uint64_t)blob[at + i] << (8 * i);
	return v;
}

// the first entry whose key matches, walking entry by entry; entries must start inside the blob
template<typename S, typename Match>
static Found find(size_t ksize, Match match) {
	Found f;
	size_t at = 0;
	constexpr size_t ssize = sizeof(S);
	constexpr bool sg = std::is_signed_v<S>;
	while (len - at >= ksize + ssize) {
		size_t data = at + ksize + ssize;
		if (data == len)
			break; // nothing follows the header: same as an absent entry
		uint64_t s = read_size<S>(at + ksize);
		if (match(at)) {
			f.ok = true;
			f.size = s;
			f.at = data;
			return f;
		}
		bool neg = sg && (s >> (8 * ssize - 1)) & 1;
		if (neg || s >= len - data)
			break;
		at = vf_concrete(data + s);
	}
	return f;
}

template<typename T, typename S, typename PK, typename P>
static void check_get(P &p, PK key, Found f) {
	auto g = p.template get<T>(key);
	bool fits = f.ok && f.size == sizeof(T) && len - f.at >= sizeof(T);
	vf_assert(g.has_value() == fits, "a value is returned exactly when an entry of that key and size lies inside the blob");
	if (g.has_value()) {
		uint64_t v = 0;
		for (size_t i = 0; i < sizeof(T); i++)
			v |= (uint64_t)blob[f.at + i] << (8 * i);
		vf_assert((uint64_t)*g == v, "the value is the entry's data in little endian");
		vf_reach("value found");
	}
}

template<typename K, typename S, typename PK, typename Match>
static void lookups(PK key, size_t ksize, Match match) {
	CompactBinaryParser<K, S> p{std::span<const uint8_t>(blob, len)};
	Found f = find<S>(ksize, match);
	check_get<uint8_t, S>(p, key, f);
	check_get<uint16_t, S>(p, key, f);
	check_get<uint32_t, S>(p, key, f);
	vf_assert((std::make_unsigned_t<S>)p.get_size(key) == (f.ok ? (std::make_unsigned_t<S>)f.size : 0), "get_size is the size stored with the key, or 0");
	auto node = p.get_node(key);
	bool neg = std::is_signed_v<S> && (f.size >> (8 * sizeof(S) - 1)) & 1;
	bool whole = f.ok && !neg && f.size <= len - f.at;
	vf_assert(node.size() == (whole ? f.size : 0), "get_node covers the entry's data when all of it lies inside the blob, and is empty otherwise");
	if (node.size()) {
		vf_assert(node.data() == blob + f.at, "get_node starts at the entry's data");
		vf_reach("node found");
	}
	vf_observe(node.size());
}

template<typename K, typename S>
static void numeric(size_t max) {
	any_blob(max);
	K key = sym<K>("key");
	lookups<K, S>(key, sizeof(K), [&](size_t at) {
		uint64_t k = 0;
		for (size_t i = 0; i < sizeof(K); i++)
			k |= (uint64_t)blob[at + i] << (8 * i);
		return k == key;
	});
	delete[] blob;
}
VF_HARNESS(p_u8_u8) { numeric<uint8_t, uint8_t>(VF_THOROUGH ? 13 : 10); }
VF_HARNESS(p_u8_i8) { numeric<uint8_t, int8_t>(VF_THOROUGH ? 12 : 9); }
VF_HARNESS(p_u16_u16) { numeric<uint16_t, uint16_t>(VF_THOROUGH ? 17 : 13); }
VF_HARNESS(p_u8_i16) { numeric<uint8_t, int16_t>(VF_THOROUGH ? 15 : 11); }
VF_HARNESS(p_u8_u32) { numeric<uint8_t, uint32_t>(VF_THOROUGH ? 15 : 11); }
VF_HARNESS(p_u8_u64) { numeric<uint8_t, uint64_t>(VF_THOROUGH ? 24 : 20); }

template<size_t N, typename S>
static void text(size_t max) {
	any_blob(max);
	char key[N];
	for (auto &c : key)
		c = sym<char>("key");
	lookups<const char[N], S>((const char *)key, N, [&](size_t at) {
		for (size_t i = 0; i < N; i++) {
			if (blob[at + i] != (uint8_t)key[i])
				return false;
			if (key[i] == 0)
				return true;
		}
		return true;
	});
	delete[] blob;
}
VF_HARNESS(p_c2_u8) { text<2, uint8_t>(VF_THOROUGH ? 11 : 8); }
VF_HARNESS(p_c3_u16) { text<3, uint16_t>(VF_THOROUGH ? 15 : 11); }

// entries beyond 255 and 65535 bytes
template<typename S>
static void far(size_t from, size_t to) {
	vf_progress(100000000);
	const size_t lens[] = {253, 256, 260, 65529, 65532, 65533, 65536, 66000};
	size_t skip = lens[sym_fork("skip", from, to)];
	constexpr size_t H = 1 + sizeof(S);
	len = H + skip + H + 2;
	blob = new uint8_t[len]{};
	blob[0] = sym<uint8_t>("key");
	uint8_t *e = blob + H + skip;
	e[0] = sym<uint8_t>("key");
	uint64_t stored = sym_fork("cut", 0, 1) ? skip + H + 1 : skip; // past the header of the second entry, or exact
	vf_assume(stored == (S)stored);
	for (size_t i = 0; i < sizeof(S); i++) {
		blob[1 + i] = (uint8_t)(stored >> (8 * i));
		e[1 + i] = sym<uint8_t>("size");
	}
	e[H] = sym<uint8_t>("data");
	e[H + 1] = sym<uint8_t>("data");
	uint8_t key = sym<uint8_t>("lookup");
	lookups<uint8_t, S>(key, 1, [&](size_t at) { return blob[at] == key; });
	delete[] blob;
}
VF_HARNESS(far_u16) { far<uint16_t>(0, 4); }
VF_HARNESS(far_u32) { far<uint32_t>(0, 7); }
