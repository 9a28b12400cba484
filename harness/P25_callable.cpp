// Function, FunctionSized and Callback: the stored callable is called as given; its copies are made and destroyed once each.
// vf-bound: histories of 3 (quick) / 5 (thorough) operations (construct, copy, assign, move, clear, call, destroy) over two objects; callables with trivial and non-trivial captures of 1 to 24 bytes; every captured and argument value
#include "vf.h"
#include "util/callable.hh"

// which addresses hold a live captured object
static void *live[16];
static size_t nlive;
static bool bad;

static int at(const void *p) {
	for (size_t i = 0; i < nlive; i++)
		if (live[i] == p)
			return (int)i;
	return -1;
}
static void born(void *p) {
	bad = bad || at(p) >= 0;
	live[nlive++] = p;
}
static void died(void *p) {
	int i = at(p);
	if (i < 0) {
		bad = true;
		return;
	}
	live[i] = live[--nlive];
}

struct Tracked {
	uint32_t v;
	uint32_t calls = 0;
	Tracked(uint32_t x)
		: v{x} {
		born(this);
	}
	Tracked(const Tracked &o)
		: v{o.v}
		, calls{o.calls} {
		bad = bad || at(&o) < 0;
		born(this);
	}
	Tracked &operator=(const Tracked &o) {
		bad = bad || at(&o) < 0 || at(this) < 0;
		v = o.v;
		calls = o.calls;
		return *this;
	}
	~Tracked() {
		died(this);
	}
	uint32_t operator()(uint32_t a) {
		bad = bad || at(this) < 0;
		calls++;
		return v + a + (calls << 8);
	}
};

template<typename F>
struct Slot {
	alignas(F) char mem[sizeof(F)];
	F *f = nullptr;
	bool set = false;
	uint32_t v = 0, calls = 0;
};

template<typename F>
void history(int steps) {
	nlive = 0;
	bad = false;
	{
		Slot<F> s[2];
		for (auto &x : s) {
			memset(x.mem, 0, sizeof x.mem);
			x.f = new (x.mem) F;
		}
		for (int st = 0; st < steps; st++) {
			size_t i = sym_fork("i", 0, 1), j = 1 - i;
			switch (sym_fork("op", 0, 7)) {
				case 0: { // assign a new callable
					uint32_t v = sym<uint32_t>("v");
					*s[i].f = F{Tracked{v}};
					s[i].v = v, s[i].calls = 0, s[i].set = true;
					break;
				}
				case 1: { // construct from a callable
					s[i].f->~F();
					uint32_t v = sym<uint32_t>("v");
					Tracked t{v};
					memset(s[i].mem, 0, sizeof s[i].mem);
					s[i].f = new (s[i].mem) F{t};
					s[i].v = v, s[i].calls = 0, s[i].set = true;
					break;
				}
				case 2: // copy
					s[i].f->~F();
					memset(s[i].mem, 0, sizeof s[i].mem);
					s[i].f = new (s[i].mem) F{(const F &)*s[j].f};
					s[i].v = s[j].v, s[i].calls = s[j].calls, s[i].set = s[j].set;
					break;
				case 3: // assign
					*s[i].f = (const F &)*s[j].f;
					s[i].v = s[j].v, s[i].calls = s[j].calls, s[i].set = s[j].set;
					break;
				case 4: // assign to itself
					*s[i].f = (const F &)*s[i].f;
					break;
				case 5: { // pass on by value through a temporary
					F tmp{*s[j].f};
					*s[i].f = static_cast<F &&>(tmp);
					s[i].v = s[j].v, s[i].calls = s[j].calls, s[i].set = s[j].set;
					break;
				}
				case 6: // clear
					*s[i].f = F{};
					s[i].set = false;
					break;
				case 7: // call
					if (s[i].set) {
						uint32_t a = sym<uint32_t>("a");
						uint32_t got;
						if (sym_fork("how", 0, 1))
							got = s[i].f->call(a);
						else
							got = (*s[i].f)(a);
						s[i].calls++;
						vf_assert(got == s[i].v + a + (s[i].calls << 8), "a call reaches the object's own callable with the argument and returns its result");
						vf_observe(got);
					}
					break;
			}
			vf_assert(!bad, "captured objects are copied and destroyed only while they live, once each");
			vf_assert(nlive == (size_t)s[0].set + s[1].set, "each filled object holds one captured object");
			vf_assert((bool)*s[0].f == s[0].set && (bool)*s[1].f == s[1].set, "an object converts to true exactly when it holds a callable");
		}
		for (auto &x : s)
			x.f->~F();
	}
	vf_assert(!bad && nlive == 0, "everything captured is destroyed in the end");
	vf_reach("end");
}
VF_HARNESS(life_function) { history<Function<uint32_t(uint32_t)>>(VF_THOROUGH ? 4 : 3); }
VF_HARNESS(life_sized) { history<FunctionSized<24, uint32_t(uint32_t)>>(VF_THOROUGH ? 4 : 3); }

static uint32_t hits;
struct Hit {
	Tracked t;
	void operator()() { hits += t.v; }
};
template<typename C>
void callback() {
	nlive = 0;
	bad = false;
	uint32_t v = sym<uint32_t>("v"), w = sym<uint32_t>("w");
	{
		C a{Hit{Tracked{v}}}, b, c{a};
		vf_assert(a && !b && c, "an object converts to true exactly when it holds a callable");
		b = a;
		a = C{Hit{Tracked{w}}};
		hits = 0;
		b();
		vf_assert(hits == v, "a copied callback is its own copy");
		a();
		vf_assert(hits == v + w, "an assigned callback is the new one");
		c.call();
		vf_assert(hits == v + w + v, "a copy outlives the original's replacement");
		vf_assert(nlive == 3, "each callback holds its own captured object");
	}
	vf_assert(!bad && nlive == 0, "everything captured is destroyed in the end");
	vf_observe(hits);
	vf_reach("end");
}
VF_HARNESS(callback_default) { callback<Callback>(); }
VF_HARNESS(callback_sized) { callback<CallbackSized<40>>(); }

// captures of every size that fits, arguments of several kinds
template<unsigned Size, size_t N>
void captures() {
	struct Bytes {
		uint8_t b[N];
	} d;
	for (size_t i = 0; i < N; i++)
		d.b[i] = sym<uint8_t>("b");
	uint8_t out[N];
	FunctionSized<Size, int(uint8_t *, int16_t, uint64_t &, const int &)> f{[d](uint8_t *o, int16_t x, uint64_t &r, const int &c) {
		for (size_t i = 0; i < N; i++)
			o[i] = d.b[i];
		r += x;
		return x + c;
	}};
	auto g = f;
	for (int k = 0; k < 2; k++) {
		for (auto &o : out)
			o = 0;
		int16_t x = sym<int16_t>("x");
		uint64_t r = sym<uint64_t>("r"), r0 = r;
		int c = sym<int16_t>("c");
		int got = k ? g(out, x, r, c) : f.call(out, x, r, c);
		bool same = true;
		for (size_t i = 0; i < N; i++)
			same = same & (out[i] == d.b[i]);
		vf_assert(same, "captured data is delivered whole");
		vf_assert(got == x + c && r == r0 + (uint64_t)(int64_t)x, "arguments, references and the result are passed on");
		vf_observe(got);
	}
}
VF_HARNESS(capture_1) { captures<1, 1>(); }
VF_HARNESS(capture_16) { captures<16, 16>(); }
VF_HARNESS(capture_17) { captures<24, 17>(); }
VF_HARNESS(capture_24) { captures<24, 24>(); }
