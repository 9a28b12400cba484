// Rectangles and polygon convexity.
// vf-bound: rectangles: every coordinate of 31 bits with left <= right and top <= bottom; polygons: 3 to 5 points, two of them anywhere on a grid of 4x4 or 8x8 (quick) / 16x16 or 32x32 (thorough), the others at its corners or middle, 8-bit, 32-bit and 64-bit points; float: one point anywhere on a 4x4 grid of quarters
// vf-assume: widths, heights and cross products fit their types
#include "vf.h"
#include <array>
#include "util/geometry.hh"

static int32_t coord(const char *n) {
	int32_t v = sym<int32_t>(n);
	vf_assume(v >= -0x40000000);
	vf_assume(v < 0x40000000);
	return v;
}
static RectC rect(const char *n) {
	RectC r{coord(n), coord(n), coord(n), coord(n)};
	vf_assume(r.left <= r.right);
	vf_assume(r.top <= r.bottom);
	return r;
}
VF_HARNESS(intersect) {
	RectC a = rect("a"), b = rect("b");
	// some coordinate lies in both
	auto overlap = [](int32_t l1, int32_t h1, int32_t l2, int32_t h2) {
		int32_t lo = (int32_t)vf_select(l1 > l2, l1, l2), hi = (int32_t)vf_select(h1 < h2, h1, h2);
		return lo <= hi;
	};
	bool x = overlap(a.left, a.right, b.left, b.right), y = overlap(a.top, a.bottom, b.top, b.bottom);
	vf_assert(a.x_intersects(b) == x, "rectangles intersect in x exactly when some x lies in both");
	vf_assert(a.y_intersects(b) == y, "rectangles intersect in y exactly when some y lies in both");
	vf_assert(a.is_intersecting(b) == vf_and(x, y), "rectangles intersect exactly when some point lies in both");
	vf_assert(b.is_intersecting(a) == a.is_intersecting(b), "intersecting goes both ways");
	vf_observe(x);
}
VF_HARNESS(extent) {
	RectC a = rect("a");
	vf_assert(a.width() == a.right - a.left && a.height() == a.bottom - a.top, "the size is the distance of the edges");
	Rect r{a.left, a.top, a.width(), a.height()};
	vf_assert(r.right() == a.right && r.bottom() == a.bottom, "the edges follow from corner and size");
	// centers, rounded
	auto mid = [](int32_t c, int32_t l, int32_t h) {
		int64_t d = 2 * (int64_t)c - ((int64_t)l + h);
		return d <= 1 && d >= -1;
	};
	vf_assert(mid(a.center_x(), a.left, a.right) && mid(a.center_y(), a.top, a.bottom), "the center is halfway, within a half");
	vf_assert(mid(r.center_x(), a.left, a.right) && mid(r.center_y(), a.top, a.bottom), "the center is halfway, within a half");
	vf_observe(a.left);
}

template<typename T>
struct Pt {
	T x, y;
};
// the first `fixed` points are chosen from a few positions, the others are anywhere
template<typename T, int N>
void polygon(int bits, T scale, int fixed, size_t choices) {
	const int top = (1 << bits) - 1;
	std::array<Pt<T>, N> p;
	int64_t X[N], Y[N];
	for (int i = 0; i < N; i++) {
		if (i < fixed) {
			static const size_t places[5] = {3, 4, 1, 2, 0};
			size_t k = places[i ? sym_fork("point", 0, choices - 1) : VF_THOROUGH ? sym_fork("point", 0, 1) : 0];
			X[i] = k == 4 ? top / 2 : k & 1 ? top : 0;
			Y[i] = k == 4 ? top / 2 : k & 2 ? top : 0;
		} else {
			X[i] = (int64_t)vf_sym("x", (unsigned)bits);
			Y[i] = (int64_t)vf_sym("y", (unsigned)bits);
		}
		p[(size_t)i] = {(T)((T)X[i] * scale), (T)((T)Y[i] * scale)};
	}
	bool pos = false, neg = false;
	for (int i = 0; i < N; i++) {
		int a = (i + 1) % N, b = (i + 2) % N;
		int64_t c = (X[a] - X[i]) * (Y[b] - Y[i]) - (Y[a] - Y[i]) * (X[b] - X[i]);
		pos = vf_or(pos, c > 0);
		neg = vf_or(neg, c < 0);
	}
	bool got = is_poly_concave<Pt<T>>(std::span<const Pt<T>>(p));
	vf_assert(got == vf_and(pos, neg), "a polygon is concave exactly when it turns both ways");
	vf_observe(got);
}
constexpr int B = VF_THOROUGH ? 4 : 2;
VF_HARNESS(tri_u8) { polygon<uint8_t, 3>(B + 1, 1, 1, 5); }
VF_HARNESS(quad_u8) { polygon<uint8_t, 4>(B + 1, 1, 2, 5); }
VF_HARNESS(quad_i32) { polygon<int32_t, 4>(B, 1024, 2, 5); }
VF_HARNESS(quad_i64) { polygon<int64_t, 4>(B, 65536, 2, 5); }
VF_HARNESS(tri_float) { polygon<float, 3>(2, 0.25f, 2, VF_THOROUGH ? 5 : 2); }
VF_HARNESS(quad_float) { polygon<float, 4>(2, 0.25f, 3, VF_THOROUGH ? 5 : 2); }
VF_HARNESS(penta_i32) { polygon<int32_t, 5>(B, 1, 3, 4); }
VF_HARNESS(few) {
	std::array<Pt<int>, 2> p{{{sym<int>("x"), sym<int>("y")}, {sym<int>("x"), sym<int>("y")}}};
	size_t n = sym_fork("n", 0, 2);
	vf_assert(!is_poly_concave<Pt<int>>(std::span<const Pt<int>>(p.data(), n)), "fewer than three points are not concave");
	vf_observe(n);
}
