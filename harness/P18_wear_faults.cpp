// WearLevel and WearLeveler when the storage refuses: failed writes, failed erases and failed reads.
// vf-bound: blocks of 3 (quick) / 4 (thorough) cells with any contents; histories of 3 / 5 writes, each with any fault, restarts, failing reads and cells that become unreadable
// vf-assume: a failed operation leaves a cell as it was, blank, or failing validation
#include "wl.h"
#include <new>

template<typename W>
void history(int steps) {
	Flash f;
	flash = &f;
	any_contents(f);
	alignas(W) char mem[sizeof(W)];
	W *w = new (mem) W{f};
	for (int s = 0; s < steps; s++) {
		uint64_t op = sym_fork("op", 0, 3);
		if (op == 2) {
			memset(mem, 0, sizeof mem);
			w = new (mem) W{f};
			check_read(*w, f);
		} else if (op == 3) {
			// a cell that cannot be read any more counts as one that holds nothing
			size_t c = sym_fork("unreadable", 0, CELLS - 1);
			if (f.kind[c] != VALID)
				vf_stop();
			f.broken[c] = true;
			check_read(*w, f);
		} else if (op == 1) {
			// reads that deliver nothing are never reported as data
			f.read_fault = true;
			Rec r{0x22222222, ~0x22222222u};
			bool ok = w->read(r);
			f.read_fault = false;
			vf_assert(!ok, "a read that the storage refuses is not reported as data");
			check_read(*w, f);
		} else {
			uint32_t x = sym<uint32_t>("x");
			bool junk = sym_fork("invalid", 0, 1);
			Rec d{x, junk ? x : ~x};
			int n = f.newest();
			uint32_t before = n >= 0 ? f.val[n] : 0;
			f.erases = f.writes = 0;
			f.faults = true;
			bool ok = w->write(d);
			vf_assert(f.erases <= 1, "a write erases at most once");
			vf_assert(f.writes <= 1, "a write tries one cell");
			f.faults = false;
			bool wf = f.write_fault != 0, ef = f.erase_fault != 0 && f.erases;
			f.write_fault = f.erase_fault = 0;
			vf_assert(ok == (f.writes == 1 && !wf), "write reports exactly whether the data was stored");
			vf_assert((f.writes == 1) == !ef, "a write is refused only when the block cannot be erased");
			int m = f.newest();
			if (ok && !junk)
				vf_assert(m >= 0 && f.val[m] == x, "what was written is the newest valid data");
			if (!f.erases && !(ok && !junk))
				vf_assert(m == n && (n < 0 || f.val[n] == before), "a failed or invalid write keeps the previous data");
			check_read(*w, f);
		}
		f.erases = f.writes = 0;
		f.last_written = CELLS;
		vf_observe((uint64_t)f.newest());
		vf_merge(s);
	}
	vf_reach("end");
}
VF_HARNESS(fault_level) { history<UseLevel>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(fault_leveler) { history<UseLeveler>(VF_THOROUGH ? 5 : 3); }
