// Runs one scenario natively, its threads taking turns at atomic operations as a replay file says.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

static std::map<std::string, uint64_t> inputs;
static std::vector<int> turns;
static bool linger; // let the others go on right after an atomic operation, and wait before going on oneself
static volatile unsigned cur;
static volatile bool ended[8], left;
static thread_local int tid = -1;
static thread_local bool holding;
static thread_local std::map<std::string, int> counters;

#define QUIET __attribute__((noinline, no_sanitize("thread")))

QUIET static double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

QUIET static void pause_us(long us) {
	double e = now() + us * 1e-6;
	while (now() < e)
		__builtin_ia32_pause();
}

QUIET static void pass() {
	if (holding) {
		holding = false;
		__sync_synchronize();
		cur = cur + 1;
	}
}

extern "C" QUIET void vf_turn() {
	if (tid < 0)
		return;
	pass();
	double e = now() + 0.3;
	for (;;) {
		unsigned c = cur;
		if (c >= turns.size())
			return;
		int w = turns[c];
		if (w == tid)
			break;
		if (ended[w])
			__sync_val_compare_and_swap(&cur, c, c + 1);
		if (left || now() > e) {
			left = true; // the execution has left the schedule
			return;
		}
		__builtin_ia32_pause();
	}
	holding = true;
}

// either the thread goes on alone until its next atomic operation, or the others go first
extern "C" QUIET void vf_after() {
	if (tid >= 0 && linger) {
		pass();
		pause_us(3000);
	}
}

static void finish(int code) {
	fflush(stdout);
	_exit(code);
}

extern "C" {
uint64_t vf_sym(const char *name, int bits) {
	std::string key = std::string(name) + (tid >= 0 ? "@" + std::to_string(tid) : "");
	key += "#" + std::to_string(counters[key]++);
	auto it = inputs.find(key);
	uint64_t v = it == inputs.end() ? 0 : it->second;
	if (bits < 64)
		v &= (1ull << bits) - 1;
	return v;
}
void vf_assume(bool c) {
	if (!c) {
		printf("ASSUME-FALSE\n");
		finish(77);
	}
}
void vf_assert(bool c, const char *msg) {
	if (!c) {
		printf("ASSERT-FAILED %s\n", msg);
		finish(99);
	}
}
void vf_observe(uint64_t) {}
void vf_merge(uint64_t) {}
void vf_merge_all(uint64_t) {}
void vf_reach(const char *) {}
uint64_t vf_concrete(uint64_t v) { return v; }
void vf_stop() { finish(0); }
uint64_t vf_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vf_and(bool a, bool b) { return a && b; }
bool vf_or(bool a, bool b) { return a || b; }
const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_thread_leaks=0"; }
}

struct vf_scen {
	const char *name;
	void (*init)();
	int n;
	void (*fn[4])();
	void (*final)();
};
extern vf_scen vf_scens[];

int main(int argc, char **argv) {
	if (argc < 3)
		return 2;
	linger = argc > 3;
	if (FILE *f = fopen(argv[2], "r")) {
		char name[256];
		unsigned long long v;
		char line[512];
		while (fgets(line, sizeof line, f)) {
			if (line[0] == '%')
				continue;
			if (sscanf(line, "turn %llu", &v) == 1)
				turns.push_back((int)v);
			else if (sscanf(line, "%255s %llu", name, &v) == 2)
				inputs[name] = v;
		}
		fclose(f);
	}
	for (vf_scen *s = vf_scens; s->name; s++)
		if (!strcmp(s->name, argv[1])) {
			s->init();
			std::vector<std::thread> th;
			for (int i = 0; i < s->n; i++)
				th.emplace_back([s, i] {
					tid = i;
					s->fn[i]();
					pass();
					ended[i] = true;
				});
			for (auto &t : th)
				t.join();
			if (s->final)
				s->final();
			printf("DONE\n");
			finish(0);
		}
	return 2;
}
