// Color arithmetic, blending, RGB565 conversions, HSV conversion and the animated RGB LED.
// vf-bound: every 8-bit channel value, every phase byte, every RGB565 word; every HSV saturation and value at 3 (quick) / 15 (thorough) hues in each of the 6 regions; float phases and brightness in steps of 1/8 (quick) / 1/16 (thorough), channel bytes 0..31 and 224..255; LED histories of 4 (quick) / 5 (thorough) operations with every color byte
// vf-assume: float phases are within 0..1; RGB565 from floats: every float but NaN
#include "vf.h"
#include <bit>
#include <concepts>
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"
#include "util/rgbled.hh"

using u8 = uint8_t;
struct C3 {
	u8 r, g, b;
	C3(const char *n)
		: r(sym<u8>(n))
		, g(sym<u8>(n))
		, b(sym<u8>(n)) {
	}
	Color color() const {
		return Color(r, g, b);
	}
};
static bool is(Color c, int r, int g, int b) {
	return vf_and(c.red() == r, vf_and(c.green() == g, c.blue() == b));
}
static int sat(int v) {
	return (int)vf_select(v > 255, 255, v);
}

VF_HARNESS(arith) {
	C3 a("a"), b("b");
	Color ca = a.color(), cb = b.color();
	vf_assert(is(ca, a.r, a.g, a.b), "a color holds its three channels");
	vf_assert(is(ca + cb, sat(a.r + b.r), sat(a.g + b.g), sat(a.b + b.b)), "addition saturates each channel");
	vf_assert(is(ca.combine(cb), sat(a.r + b.r), sat(a.g + b.g), sat(a.b + b.b)), "combine saturates each channel");
	vf_assert(is(ca.blend(cb), a.r / 2 + b.r / 2, a.g / 2 + b.g / 2, a.b / 2 + b.b / 2), "an even blend is the sum of the halves");
	bool eq = vf_and(a.r == b.r, vf_and(a.g == b.g, a.b == b.b));
	vf_assert((ca == cb) == eq, "colors are equal exactly when every channel is");
	vf_assert((ca != cb) == !eq, "colors are different exactly when a channel is");
	vf_assert(is(Color{}, 0, 0, 0), "a default color is black");
	vf_observe(ca.red());
}
VF_HARNESS(adjust) {
	C3 a("a"), j("j");
	Color c = a.color().adjust(Color::Adjustment{j.r, j.g, j.b});
	vf_assert(is(c, sat(a.r * j.r / 128), sat(a.g * j.g / 128), sat(a.b * j.b / 128)), "an adjustment scales each channel by 1/128ths and saturates");
	vf_observe(c.red());
}

static void blend_byte(int which) {
	u8 ph = sym<u8>("phase");
	u8 a[3] = {11, 22, 33}, b[3] = {201, 2, 103};
	a[which] = sym<u8>("a");
	b[which] = sym<u8>("b");
	Color c = Color(a[0], a[1], a[2]).blend(Color(b[0], b[1], b[2]), ph);
	int v = which == 0 ? c.red() : which == 1 ? c.green() : c.blue();
	int x = b[which] * ph + a[which] * (255 - ph);
	vf_assert(vf_and(v * 255 <= x, x < v * 255 + 255), "a byte blend is the weighted mean, rounded down");
	vf_observe(v);
}
VF_HARNESS(blend_r) { blend_byte(0); }
VF_HARNESS(blend_g) { blend_byte(1); }
VF_HARNESS(blend_b) { blend_byte(2); }
VF_HARNESS(blend_u32) {
	C3 a("a"), b("b");
	uint32_t ph = sym<uint32_t>("phase");
	Color c = a.color().blend(b.color(), ph);
	int w = (int)(ph >> 24);
	auto mix = [&](int x, int y) { return (x * (256 - w) + y * w) / 256; };
	vf_assert(is(c, mix(a.r, b.r), mix(a.g, b.g), mix(a.b, b.b)), "a 32-bit blend is the mean weighted by the top byte of the phase, rounded down");
	vf_assert(vf_implies(w == 0, is(c, a.r, a.g, a.b)), "phase 0 is the first color");
	vf_observe(c.green());
}
static u8 edge_byte(const char *n) {
	uint64_t v = vf_sym(n, 5);
	return (u8)(sym_fork("high", 0, 1) ? v + 224 : v);
}
VF_HARNESS(blend_float) {
	constexpr int S = VF_THOROUGH ? 16 : 8;
	u8 a = edge_byte("a"), b = (u8)(a ^ 0xE7);
	size_t k = sym_fork("phase", 0, S);
	Color c = Color(a, 1, b).blend(Color(b, 1, a), (float)k / (float)S);
	int x = a * (int)(S - k) + b * (int)k;
	vf_assert(is(c, x / S, 1, (b * (int)(S - k) + a * (int)k) / S), "a float blend is the weighted mean, rounded down");
	Color d = Color(a, b, 255) * ((float)k / (float)S);
	vf_assert(is(d, a * (int)k / S, b * (int)k / S, 255 * (int)k / S), "multiplication scales every channel");
	vf_observe(c.red());
}

VF_HARNESS(rgb565) {
	uint16_t w = sym<uint16_t>("rgb565");
	Color c(w);
	vf_assert(is(c, (w >> 11) * 8, (w >> 5 & 63) * 4, (w & 31) * 8), "a color from RGB565 holds its top bits");
	vf_assert(c.Rgb565() == w, "RGB565 survives the way to a color and back");
	C3 a("a");
	vf_assert(a.color().Rgb565() == (a.r / 8 << 11 | a.g / 4 << 5 | a.b / 8), "RGB565 keeps the top 5, 6 and 5 bits");
	RGB565 p(a.r, a.g, a.b);
	uint16_t want = (uint16_t)(a.r / 8 << 11 | a.g / 4 << 5 | a.b / 8);
	vf_assert(p.raw() == want, "raw is the RGB565 word");
	vf_assert((uint16_t)p == want, "the conversion is the RGB565 word");
	vf_assert(vf_and(p.red() == (a.r & 0xF8), vf_and(p.green() == (a.g & 0xFC), p.blue() == (a.b & 0xF8))), "channels come back without their low bits");
	RGB565 q;
	vf_assert(q.raw() == 0, "a default RGB565 is black");
	q = w;
	vf_assert(q.raw() == w, "a raw word is taken as it is");
	uint32_t high = (uint32_t)vf_sym("top", 8) << 24;
	RGB565 s(uint32_t{(uint32_t)a.r << 16 | (uint32_t)a.g << 8 | a.b | high});
	vf_assert(s.raw() == want, "RGB888 is taken by its channels");
	vf_observe(want);
}
VF_HARNESS(rgb565_float) {
	float r = sym<float>("r"), g = sym<float>("g"), b = sym<float>("b");
	vf_assume(r == r);
	vf_assume(g == g);
	vf_assume(b == b);
	RGB565 p(r, g, b);
	// k is the largest whole step not above the scaled value, kept in range
	auto ok = [](int k, float scaled, int top) {
		return vf_and(vf_or(k == 0, (float)k <= scaled), vf_or(k == top, (float)(k + 1) > scaled));
	};
	vf_assert(ok(p.r, r * 32.f, 31), "red is the float in 32nds, kept in range");
	vf_assert(ok(p.g, g * 64.f, 63), "green is the float in 64ths, kept in range");
	vf_assert(ok(p.b, b * 32.f, 31), "blue is the float in 32nds, kept in range");
	vf_observe(p.g);
}
VF_HARNESS(blend565) {
	uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b");
	int w = (int)sym_fork("alpha", 0, 32); // 32nds
	int al = w * 8 - 4 + (int)vf_sym("low", 3);
	vf_assume(al >= 0);
	vf_assume(al <= 255);
	uint16_t c = Color::blend(a, b, (u8)al);
	auto mix = [&](int x, int y) { return (x * (32 - w) + y * w) / 32; };
	vf_assert((c >> 11) == mix(a >> 11, b >> 11), "red is the mean in 32nds, rounded down");
	vf_assert((c >> 5 & 63) == mix(a >> 5 & 63, b >> 5 & 63), "green is the mean in 32nds, rounded down");
	vf_assert((c & 31) == mix(a & 31, b & 31), "blue is the mean in 32nds, rounded down");
	vf_observe(c);
}
VF_HARNESS(blend565_float) {
	uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b");
	size_t k = sym_fork("alpha", 0, 16);
	float f = (float)k / 16.f;
	u8 al = (u8)(k * 255 / 16);
	vf_assert(Color::blend(a, b, f) == Color::blend(a, b, al), "a float alpha blends as the same alpha byte");
	vf_assert(Color::slow_blend(a, b, f) == Color{a}.blend(Color{b}, al).Rgb565(), "the slow blend mixes the full channels");
	vf_observe(al);
}

// hue regions of 43 steps; within one, the middle channel rises or falls from the lowest to the highest
static void hsv(size_t region) {
	int k = VF_THOROUGH ? (int)sym_fork("step", 0, 14) * 3 : (int)sym_fork("step", 0, 2) * (int)(18 + region % 2 * 3);
	u8 h = (u8)(region * 43 + (size_t)k);
	if (region * 43 + (size_t)k > 255)
		vf_stop();
	u8 s = sym<u8>("s"), v = sym<u8>("v");
	Color c = HSVColor{h, s, v};
	int ch[3] = {c.red(), c.green(), c.blue()};
	// index of the highest, middle and lowest channel
	static const int hi[6] = {0, 1, 1, 2, 2, 0}, mid[6] = {1, 0, 2, 1, 0, 2}, lo[6] = {2, 2, 0, 0, 1, 1};
	int H = ch[hi[region]], M = ch[mid[region]], L = ch[lo[region]];
	vf_assert(H == v, "the strongest channel of a hue is its value");
	vf_assert(vf_and(L <= M, M <= H), "the other channels follow the order of the hue");
	vf_assert(vf_implies(s == 0, vf_and(M == v, L == v)), "no saturation is grey");
	int ideal = v * (255 - s); // 255 times the lowest channel
	vf_assert(vf_and(L * 255 <= ideal, ideal <= (L + 2) * 255), "saturation sets the weakest channel, within two");
	int step = h - (int)region * 43; // 0..42
	int up = region % 2 ? 43 - step : step;
	// middle channel: lowest + (highest - lowest) * up / 43
	int m43 = L * 43 + (H - L) * up;
	vf_assert(vf_and(M * 43 <= m43 + 4 * 43, m43 <= M * 43 + 4 * 43), "the middle channel moves evenly across the region, within four");
	vf_observe(M);
}
VF_HARNESS(hsv_0) { hsv(0); }
VF_HARNESS(hsv_1) { hsv(1); }
VF_HARNESS(hsv_2) { hsv(2); }
VF_HARNESS(hsv_3) { hsv(3); }
VF_HARNESS(hsv_4) { hsv(4); }
VF_HARNESS(hsv_5) { hsv(5); }

static int shown[3];
template<int I>
struct Led {
	void set(u8 v) const {
		shown[I] = v;
	}
};
template<unsigned Rate>
void led() {
	constexpr uint32_t unit = 0xFFFFFFFFu / Rate;
	constexpr int STEPS = VF_THOROUGH ? 5 : 4;
	using Rgb = MixedRgbLed<Led<0>, Led<1>, Led<2>, Rate>;
	Rgb l;
	Color base = Colors::off, flash = Colors::white, breathe = Colors::red;
	Color::Adjustment adj{128, 128, 128};
	bool smooth = false;
	// the flash starts on in a fresh LED, for one update
	uint32_t fl = 0xFFFFFFFFu, finc = 0xFFFFFFFFu, br = 0, binc = 0;
	bool first = true;
	for (int i = 0; i < STEPS; i++) {
		switch (sym_fork("op", 0, i == STEPS - 1 ? 0 : 5)) {
			case 0: {
				l.update_animation();
				br += binc;
				fl = fl > finc ? fl - finc : 0;
				Color c = base;
				uint32_t tri = br > 0x7FFFFFFFu ? 0xFFFFFFFFu - 2 * br : 2 * br;
				if (fl)
					c = smooth ? base.blend(flash, fl) : flash;
				else if (tri)
					c = base.blend(breathe, tri);
				c = c.adjust(adj);
				vf_assert(vf_and(shown[0] == c.red(), vf_and(shown[1] == c.green(), shown[2] == c.blue())),
						  "the LED shows the flash while it lasts, or else the breathing color over the base color, calibrated");
				if (!first)
					vf_reach("shown");
				break;
			}
			case 1:
				base = C3("base").color();
				l.set_base_color(base);
				break;
			case 2: {
				Color c = C3("add").color();
				if (sym_fork("blend", 0, 1)) {
					l.blend_base_color(c);
					base = base.blend(c);
				} else {
					l.add_base_color(c);
					base = base.combine(c);
				}
				break;
			}
			case 3: {
				flash = C3("flash").color();
				static const float ms[3] = {1.f, 125.f, 4000.f};
				static const uint32_t incs[3] = {1000, 8, 0};
				size_t k = sym_fork("ms", 0, 2);
				smooth = sym_fork("fade", 0, 1);
				if (smooth)
					l.fade_once_ms(flash, ms[k]);
				else
					l.flash_once_ms(flash, ms[k]);
				fl = 0xFFFFFFFFu;
				// exact for these: unit is 2^32 / 2^n - 1
				finc = k == 2 ? unit / 4 : (uint64_t)unit * incs[k] > 0xFFFFFFFFu ? 0xFFFFFFFFu : unit * incs[k];
				first = false;
				break;
			}
			case 4: {
				breathe = C3("breathe").color();
				l.breathe(breathe, (float)Rate / 4.f);
				binc = unit * (Rate / 4);
				if (sym_fork("reset", 0, 1)) {
					l.reset_breathe();
					binc = br = 0;
				}
				break;
			}
			case 5:
				if (sym_fork("cal", 0, 1)) {
					adj = {sym<u8>("adj"), 128, sym<u8>("adj")};
					l.set_color_calibration(adj);
				} else {
					// shown directly
					C3 c("direct");
					l.set_color(c.color());
					vf_assert(vf_and(shown[0] == c.r, vf_and(shown[1] == c.g, shown[2] == c.b)), "a color is shown as it is");
					u8 bright = sym<u8>("bright");
					l.set_color(c.color(), bright);
					vf_assert(vf_and(shown[0] == c.r * bright / 256, vf_and(shown[1] == c.g * bright / 256, shown[2] == c.b * bright / 256)), "brightness scales every channel");
					vf_stop();
				}
				break;
		}
	}
}
VF_HARNESS(led_1024) { led<1024>(); }
VF_HARNESS(led_256) { led<256>(); }
VF_HARNESS(led_float_brightness) {
	RgbLed<Led<0>> l;
	u8 a = edge_byte("a");
	size_t k = sym_fork("bright", 0, 8);
	l.set_color(Color(a, 8, a), (float)k / 8.f);
	vf_assert(shown[0] == a * (int)k / 8, "brightness scales the channel");
	vf_observe(shown[0]);
}
// a flash of any length lasts that long
VF_HARNESS(flash_length) {
	MixedRgbLed<Led<0>, Led<1>, Led<2>, 64> l;
	uint32_t ms = (uint32_t)sym_fork("n", 1, VF_THOROUGH ? 24 : 12) * 250;
	l.flash_once_ms(Colors::white, (float)ms);
	uint32_t n = 0;
	for (;; n++) {
		l.update_animation();
		if (!shown[0] || n > 64 * 7)
			break;
	}
	uint32_t want = ms * 64 / 1000;
	vf_assert(n + 2 >= want && n <= want + 2, "a flash lasts as long as asked for");
	vf_observe(n);
}
