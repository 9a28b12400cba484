// InputBuffer keeps the first max_size values put; OutputBuffer hands out its contents once, then defaults.
// vf-bound: sizes 1, 3 and 5; elements of 1, 4 and 12 bytes and of a class that tracks its own address and moves; any fill, then 4 (quick) / 6 (thorough) arbitrary operations; 300 (thorough: 65600) elements of any value filled and handed out twice
#include "big.h"
#include "ref.h"
#include "util/input_output_buffer.hh"

template<typename T, size_t N>
void input(int steps) {
	InputBuffer<T, N> b;
	T ref[N]{};
	size_t n = 0;
	size_t pre = sym_fork("pre", 0, N + 1);
	for (int s = -(int)pre; s < steps; s++) {
		if (s < 0 || sym_fork("op", 0, 1) == 0) {
			T x = mk<T>("x");
			b.put(x);
			if (n < N)
				ref[n++] = x;
		} else {
			b.reset();
			n = 0;
		}
		vf_assert(b.full() == (n == N), "full exactly when max_size values have been put since the last reset");
		vf_assert(b.size() == N, "size is constant");
		vf_assert((size_t)(b.end() - b.begin()) == N && b.data() == &*b.begin(), "data, begin and end cover the whole buffer");
		bool eq = true;
		for (size_t i = 0; i < n; i++)
			eq = eq & (b.data()[i] == ref[i]);
		vf_assert(eq, "the first max_size values put are stored in order and never overwritten");
		vf_observe(ob(b.data()[0]));
		if (s >= 0)
			vf_merge(s);
	}
}
template<typename T, size_t N>
void output(int steps) {
	OutputBuffer<T, N> b;
	T ref[N]{};
	size_t n = 0;
	for (size_t i = 0; i < N; i++)
		b.data()[i] = ref[i] = mk<T>("c");
	vf_assert((size_t)(b.end() - b.begin()) == N && b.data() == &*b.begin() && b.size() == N, "data, begin and end cover the whole buffer");
	size_t pre = sym_fork("pre", 0, N + 1);
	for (int s = -(int)pre; s < steps; s++) {
		if (s < 0 || sym_fork("op", 0, 1) == 0) {
			T x = b.get();
			vf_assert(x == (n < N ? ref[n] : T{}), "get hands out the contents in order, then defaults");
			if (n < N)
				n++;
			vf_observe(ob(x));
		} else {
			b.reset();
			n = 0;
		}
		vf_assert(b.full() == (n == N), "full exactly when everything has been handed out");
		if (s >= 0)
			vf_merge(s);
	}
}
VF_HARNESS(in_u8_3) { input<uint8_t, 3>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(in_wide_5) { input<Wide, 5>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(in_u32_1) { input<uint32_t, 1>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(in_own_3) { input<Own, 3>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(out_own_3) { output<Own, 3>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(out_u8_3) { output<uint8_t, 3>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(out_wide_5) { output<Wide, 5>(VF_THOROUGH ? 6 : 4); }
VF_HARNESS(out_u32_1) { output<uint32_t, 1>(VF_THOROUGH ? 6 : 4); }

// more elements than a small counter holds
template<size_t N>
void big() {
	static InputBuffer<uint32_t, N> in;
	static OutputBuffer<uint32_t, N> out;
	Big r;
	vf_progress(1000 * N);
	for (int lap = 0; lap < 2; lap++) {
		for (size_t i = 0; i < N; i++) {
			vf_assert(!in.full(), "not full before max_size elements are put");
			in.put(r.at(i + lap));
		}
		vf_assert(in.full(), "full exactly when max_size elements have been put");
		in.put(0);
		bool eq = true;
		for (size_t i = 0; i < N; i++)
			eq = vf_and(eq, in.data()[i] == r.at(i + lap));
		vf_assert(eq, "the first max_size elements put are stored in order");
		in.reset();
		for (size_t i = 0; i < N; i++)
			out.data()[i] = r.at(i + lap);
		for (size_t i = 0; i < N; i++) {
			vf_assert(!out.full(), "not full before everything is handed out");
			vf_assert(out.get() == r.at(i + lap), "get hands out the contents in order");
		}
		vf_assert(out.full() && out.get() == 0, "then defaults");
		out.reset();
	}
	vf_observe(r.seed);
}
VF_HARNESS(io_big) { big<VF_THOROUGH ? 65600 : 300>(); }
