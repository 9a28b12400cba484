// FixedVector against a reference sequence, from an arbitrary reachable state, any operation with any arguments.
// vf-bound: capacities 1, 3 and 4; element types uint8_t, uint32_t, a 12-byte struct and a class that tracks its own address and moves; prefix: any number of pushes, then 2 (quick) / 3 (thorough) arbitrary operations with arguments over their full range
#include "vf.h"
#include "own.h"
#include "util/fixed_vector.hh"

struct Wide {
	uint32_t a = 0, b = 0, c = 0;
	bool operator==(const Wide &) const = default;
};

template<typename T>
T mk(const char *n);
template<>
Own mk<Own>(const char *n) {
	return Own{sym<uint8_t>(n)};
}
template<>
uint8_t mk<uint8_t>(const char *n) {
	return sym<uint8_t>(n);
}
template<>
uint32_t mk<uint32_t>(const char *n) {
	return sym<uint32_t>(n);
}
template<>
Wide mk<Wide>(const char *n) {
	uint32_t x = sym<uint32_t>(n);
	return Wide{x, x + 1, x ^ 7};
}
static uint64_t ob(uint8_t x) {
	return x;
}
static uint64_t ob(uint32_t x) {
	return x;
}
static uint64_t ob(const Own &x) {
	return x.get();
}
static uint64_t ob(Wide x) {
	return x.a;
}

template<typename T, size_t N>
struct Ref {
	T d[N];
	size_t n = 0;
};

template<typename T, size_t N>
void same(FixedVector<T, N> &v, Ref<T, N> &r) {
	vf_assert(v.size() == r.n, "size equals the number of elements held");
	vf_assert(v.max_size() == N, "capacity is constant");
	vf_assert(v.available() == N - r.n, "available is capacity minus size");
	vf_assert((size_t)(v.end() - v.begin()) == r.n, "iteration covers exactly the held elements");
	vf_assert(v.span().size() == r.n, "span covers exactly the held elements");
	bool eq = true;
	for (size_t i = 0; i < N; i++)
		eq = eq & ((i >= r.n) | (v[i] == r.d[i]));
	vf_assert(eq, "elements keep their values and order");
	const auto &cv = v;
	bool eq2 = true;
	for (size_t i = 0; i < N; i++)
		eq2 = eq2 & ((i >= r.n) | (cv.begin()[i] == r.d[i]));
	vf_assert(eq2, "const iteration sees the same elements");
	vf_assert(cv.back() == (r.n ? r.d[r.n - 1] : T{}), "back is the last element or a default value");
	vf_observe(v.size());
	vf_observe(ob(v.back()));
}

// any unsigned: the values up to N one by one, the larger ones as one symbolic value
template<size_t N>
unsigned index() {
	unsigned i = sym<unsigned>("idx");
	if (i <= N)
		i = vf_concrete(i);
	return i;
}

template<typename T, size_t N>
void history(int steps) {
	FixedVector<T, N> v;
	Ref<T, N> r;
	for (size_t i = 0; i < N; i++)
		r.d[i] = T{};
	size_t pre = sym_fork("pre", 0, N);
	for (size_t i = 0; i < N; i++) {
		T x = mk<T>("p");
		if (i < pre) {
			vf_assert(v.push_back(x), "push to a non-full vector succeeds");
			r.d[r.n++] = x;
		}
	}
	vf_merge(100);
	for (int s = 0; s < steps; s++) {
		switch (sym_fork("op", 0, 9)) {
			case 0: {
				T x = mk<T>("x");
				bool ok = v.push_back(x);
				vf_assert(ok == (r.n < N), "push_back succeeds exactly when there is room");
				if (r.n < N)
					r.d[r.n++] = x;
				break;
			}
			case 1: {
				T x = v.pop_back();
				T e = r.n ? r.d[r.n - 1] : T{};
				vf_assert(x == e, "pop_back returns the last element or a default value");
				if (r.n)
					r.n--;
				break;
			}
			case 2: {
				unsigned i = index<N>();
				T x = mk<T>("x");
				v.insert(i, x);
				if (r.n < N && i <= r.n) {
					for (size_t k = N - 1; k > 0; k--)
						if (k > i)
							r.d[k] = r.d[k - 1];
					r.d[i] = x;
					r.n++;
				}
				break;
			}
			case 3: {
				unsigned i = index<N>();
				v.erase(i);
				if (i < r.n) {
					for (size_t k = i; k + 1 < r.n; k++)
						r.d[k] = r.d[k + 1];
					r.n--;
				}
				break;
			}
			case 4: {
				size_t a = sym_fork("first", 0, r.n), b = sym_fork("last", 0, r.n);
				v.erase(&*v.begin() + a, &*v.begin() + b);
				if (b > a) {
					for (size_t k = a; k + (b - a) < r.n; k++)
						r.d[k] = r.d[k + (b - a)];
					r.n -= b - a;
				}
				break;
			}
			case 5: {
				size_t n = sym<size_t>("num");
				if (n <= N)
					n = vf_concrete(n);
				T x = mk<T>("x");
				bool ok = v.resize(n, x);
				vf_assert(ok == (n <= N), "resize reports whether the requested size fits");
				size_t m = n < N ? n : N;
				for (size_t k = 0; k < N; k++)
					if (k >= r.n && k < m)
						r.d[k] = x;
				r.n = m;
				break;
			}
			case 6: {
				size_t n = sym<size_t>("num");
				if (n <= N)
					n = vf_concrete(n);
				bool ok = v.resize_for_overwrite(n);
				vf_assert(ok == (n <= N), "resize_for_overwrite reports whether the requested size fits");
				size_t m = n < N ? n : N;
				for (size_t k = 0; k < N; k++)
					if (k >= r.n && k < m)
						r.d[k] = v[k];
				r.n = m;
				break;
			}
			case 7: {
				T x = mk<T>("x");
				size_t i = v.push_back_for_overwrite();
				vf_assert(i == r.n, "push_back_for_overwrite returns the new index, or the capacity when full");
				if (r.n < N) {
					v[i] = x;
					r.d[r.n++] = x;
				}
				break;
			}
			case 8:
				v.clear();
				r.n = 0;
				break;
			case 9: {
				// a copy is independent and equal
				auto w = v;
				same(w, r);
				w.push_back(mk<T>("x"));
				w.erase(0u);
				break;
			}
		}
		for (size_t k = r.n; k < N; k++)
			r.d[k] = T{};
		same(v, r);
		vf_merge(s);
	}
	vf_reach("history end");
}

VF_HARNESS(fv_u8_3) {
	history<uint8_t, 3>(VF_THOROUGH ? 3 : 2);
}
VF_HARNESS(fv_u32_4) {
	history<uint32_t, 4>(VF_THOROUGH ? 3 : 2);
}
VF_HARNESS(fv_wide_3) {
	history<Wide, 3>(VF_THOROUGH ? 3 : 2);
}
VF_HARNESS(fv_own_3) {
	history<Own, 3>(VF_THOROUGH ? 3 : 2);
}
VF_HARNESS(fv_u32_1) {
	history<uint32_t, 1>(3);
}

VF_HARNESS(fv_ctor) {
	uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"), c = sym<uint32_t>("c");
	FixedVector<uint32_t, 5> v{a, b, c};
	vf_assert(v.size() == 3, "element constructor sets the size");
	vf_assert((v[0] == a) & (v[1] == b) & (v[2] == c), "element constructor keeps the values in order");
	const FixedVector<uint32_t, 5> w{a, b};
	vf_assert(w.size() == 2 && w[1] == b && w.back() == b && w.span().size() == 2, "const vector reads its elements");
	vf_observe(v.back());
}
