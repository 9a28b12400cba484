// WearLevel and WearLeveler across restarts and power loss at any storage operation, torn writes and interrupted erases included.
// vf-bound: blocks of 3 (quick) / 4 (thorough) cells with any contents (each cell blank, valid with any value, or invalid); histories of 3 / 5 writes, reads and restarts with power loss at any storage operation; blocks of 300 cells written around twice, with restarts
// vf-assume: an interrupted write leaves the cell blank or failing validation; an interrupted erase leaves each cell unchanged, blank or failing validation
#include "big.h"
#include "wl.h"
#include <new>

template<typename W>
void history(int steps) {
	Flash f;
	flash = &f;
	any_contents(f);
	alignas(W) char mem[sizeof(W)];
	W *w = new (mem) W{f};
	check_read(*w, f);
	for (int s = 0; s < steps; s++) {
		if (sym_fork("op", 0, 1)) {
			// power on again: a new instance over whatever is in the block
			memset(mem, 0, sizeof mem);
			w = new (mem) W{f};
			check_read(*w, f);
		} else {
			uint32_t x = sym<uint32_t>("x");
			Rec d{x, ~x};
			int n = f.newest();
			bool full = true;
			for (int i = n + 1; i < (int)CELLS; i++)
				full &= f.kind[i] != BLANK;
			uint32_t before = n >= 0 ? f.val[n] : 0;
			f.erases = f.writes = 0;
			f.power = (int)sym_fork("power", 0, 2) - 1; // no loss, at the first operation, at the second
			bool crash = f.power >= 0;
			bool ok = w->write(d);
			bool died = f.dead;
			f.dead = false;
			f.power = -1;
			if (died) {
				vf_assert(!ok, "an interrupted write is not reported as done");
				memset(mem, 0, sizeof mem);
				w = new (mem) W{f};
				int m = f.newest();
				if (!full)
					vf_assert(m == n && (n < 0 || f.val[n] == before), "power loss while writing to a free cell keeps the previous data");
				check_read(*w, f);
				vf_reach(full ? "lost power around an erase" : "lost power while writing");
			} else {
				vf_assert(ok, "a write succeeds when the storage works");
				int m = f.newest();
				vf_assert(m >= 0 && f.val[m] == x, "what was written is the newest valid data");
				vf_assert(f.erases == (full ? 1 : 0), "the block is erased only when no free cell is left, and once");
				vf_assert(f.writes == 1, "one cell is written");
				check_read(*w, f);
				if (crash)
					vf_reach("power budget unused");
			}
		}
		f.erases = f.writes = 0;
		f.last_written = CELLS;
		vf_observe((uint64_t)f.newest());
		vf_merge(s);
	}
	vf_reach("end");
}
VF_HARNESS(rec_level) { history<UseLevel>(VF_THOROUGH ? 5 : 3); }
VF_HARNESS(rec_leveler) { history<UseLeveler>(VF_THOROUGH ? 5 : 3); }

// more cells than a small counter holds
constexpr size_t MANY = 300;
struct ManyCells {
	Rec cell[MANY];
	unsigned erases = 0;
	bool bad = false;
};
static ManyCells many;
struct ManyStatic {
	using data_t = Rec;
	static constexpr size_t cell_nr_ = MANY;
	static constexpr size_t NumCells = MANY;
	bool rd(Rec &d, size_t c) {
		many.bad |= c >= MANY;
		if (c >= MANY)
			return false;
		d = many.cell[c];
		return true;
	}
	bool wr(const Rec &d, size_t c) {
		many.bad |= c >= MANY || many.cell[c < MANY ? c : 0].validate();
		if (c < MANY)
			many.cell[c] = d;
		return true;
	}
	bool read(Rec &d, size_t c) { return rd(d, c); }
	bool write(const Rec &d, size_t c) { return wr(d, c); }
	bool read(Rec *d, size_t c) { return rd(*d, c); }
	bool write(const Rec *d, size_t c) { return wr(*d, c); }
	bool erase() {
		many.erases++;
		for (auto &c : many.cell)
			c = Rec{};
		return true;
	}
	bool is_writeable(size_t c) { return c < MANY && !many.cell[c].validate(); }
};
template<typename W>
void big() {
	Big r;
	for (auto &c : many.cell)
		c = Rec{};
	many.erases = 0;
	for (size_t i = 0; i < MANY; i++) {
		if (i < 270)
			many.cell[i] = Rec{r.at(i), ~r.at(i)};
	}
	r.in = 270;
	W w;
	Rec d;
	vf_assert(w.read(d) && d.v == r.at(269), "read returns the newest valid data");
	for (size_t i = 270; i < 2 * MANY + 5; i++) {
		uint32_t x = r.make();
		if (i % 100 == 55)
			w.~W(), new (&w) W{};
		vf_assert(w.write(Rec{x, ~x}), "a write succeeds when the storage works");
		vf_assert(w.read(d) && d.v == x, "what was written is the newest valid data");
		vf_assert(many.erases == i / MANY, "the block is erased only when no free cell is left");
		vf_assert(many.cell[i % MANY].v == x && !many.bad, "cells are used in turn, and none outside the block");
	}
	vf_observe(r.seed);
}
VF_HARNESS(level_big) { big<WearLevel<ManyStatic>>(); }
VF_HARNESS(leveler_big) { big<WearLeveler<ManyStatic>>(); }
