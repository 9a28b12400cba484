// Native side of the harness interface: replays one assignment against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <unistd.h>

static std::map<std::string, uint64_t> inputs;
static std::map<std::string, int> counters;
static FILE *obs;

static void finish(int code) {
	fflush(stdout);
	_exit(code);
}

extern "C" {
uint64_t vf_sym(const char *name, int bits) {
	std::string key = std::string(name) + "#" + std::to_string(counters[name]++);
	auto it = inputs.find(key);
	uint64_t v = it == inputs.end() ? 0 : it->second;
	if (bits < 64)
		v &= (1ull << bits) - 1;
	return v;
}
void vf_assume(bool c) {
	if (!c) {
		printf("ASSUME-FALSE\n");
		finish(77);
	}
}
void vf_assert(bool c, const char *msg) {
	if (!c) {
		printf("ASSERT-FAILED %s\n", msg);
		finish(99);
	}
}
void vf_progress(uint64_t) {}
void vf_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void vf_merge(uint64_t) {}
void vf_merge_all(uint64_t) {}
void vf_reach(const char *) {}
uint64_t vf_concrete(uint64_t v) { return v; }
void vf_stop() {
	printf("DONE\n");
	finish(0);
}
uint64_t vf_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vf_and(bool a, bool b) { return a && b; }
bool vf_or(bool a, bool b) { return a || b; }
}

struct vf_entry {
	const char *name;
	void (*fn)();
};
extern vf_entry vf_table[];

extern "C" const char *__asan_default_options() { return "exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
extern "C" const char *__ubsan_default_options() { return "exitcode=97:halt_on_error=1:print_stacktrace=0"; }

int main(int argc, char **argv) {
	if (argc < 3)
		return 2;
	if (FILE *f = fopen(argv[2], "r")) {
		char name[256];
		unsigned long long v;
		char line[512];
		while (fgets(line, sizeof line, f)) {
			if (line[0] == '%')
				continue;
			if (sscanf(line, "%255s %llu", name, &v) == 2)
				inputs[name] = v;
		}
		fclose(f);
	}
	for (vf_entry *e = vf_table; e->name; e++)
		if (!strcmp(e->name, argv[1])) {
			e->fn();
			printf("DONE\n");
			finish(0);
		}
	fprintf(stderr, "no such harness\n");
	return 2;
}
