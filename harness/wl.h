// A flash block model for WearLevel / WearLeveler: cells are blank, hold valid data, or hold something that fails
// validation. Power can go at any operation; operations can be told to fail.
#pragma once
#include "vf.h"
#include "util/wear_level.hh"

constexpr size_t CELLS = VF_THOROUGH ? 4 : 3;

struct Rec {
	uint32_t v = 0xFFFFFFFF;
	uint32_t check = 0xFFFFFFFF;
	bool validate() const {
		return check == ~v;
	}
};

enum Kind { BLANK, VALID, JUNK };

struct Flash {
	Kind kind[CELLS]{};
	uint32_t val[CELLS]{};
	bool broken[CELLS]{}; // cannot be read until it is written or erased
	bool out_of_range = false, overwrote = false;
	int erases = 0, writes = 0;
	size_t last_written = CELLS;
	// faults
	int write_fault = 0; // 1: fails without effect, 2: fails leaving junk
	int erase_fault = 0; // 1: fails without effect, 2: fails leaving junk everywhere, 3: fails after erasing the upper cells
	bool faults = false; // writes and erases may fail: each decides when it is reached
	bool read_fault = false; // reads fail and deliver nothing
	// power: number of storage operations that still complete; the one that does not has its own partial effect
	int power = -1;
	bool dead = false;

	bool tick() {
		if (dead)
			return false;
		if (power == 0) {
			dead = true;
			return false;
		}
		if (power > 0)
			power--;
		return true;
	}
	Rec get(size_t c) const {
		if (kind[c] == VALID)
			return Rec{val[c], ~val[c]};
		if (kind[c] == JUNK)
			return Rec{val[c], val[c]};
		return Rec{};
	}
	void set(size_t c, Kind k, uint32_t v) {
		kind[c] = k;
		broken[c] = false;
		val[c] = v;
	}
	bool read(Rec *d, size_t c) {
		if (dead)
			return false;
		if (c >= CELLS) {
			out_of_range = true;
			return false;
		}
		if (read_fault || broken[c])
			return false;
		*d = get(c);
		return true;
	}
	bool write(const Rec *d, size_t c) {
		if (c >= CELLS) {
			out_of_range = true;
			return false;
		}
		bool was_dead = dead;
		if (!tick()) {
			// power goes while writing: nothing written, or torn
			if (!was_dead && sym_fork("torn", 0, 1))
				set(c, JUNK, 0);
			return false;
		}
		writes++;
		last_written = c;
		overwrote |= kind[c] != BLANK;
		if (faults)
			write_fault = (int)sym_fork("write_fault", 0, 2);
		if (write_fault) {
			if (write_fault == 2)
				set(c, JUNK, 0);
			return false;
		}
		if (d->validate())
			set(c, VALID, d->v);
		else
			set(c, JUNK, d->v);
		return true;
	}
	bool erase() {
		bool was_dead = dead;
		if (!tick()) {
			// power goes while erasing: every cell keeps its data, is blank or is junk
			if (!was_dead)
				for (size_t i = 0; i < CELLS; i++) {
					size_t k = sym_fork("partial", 0, 2);
					if (k)
						set(i, k == 1 ? BLANK : JUNK, 0);
				}
			return false;
		}
		erases++;
		if (faults)
			erase_fault = (int)sym_fork("erase_fault", 0, 3);
		if (erase_fault) {
			for (size_t i = 0; i < CELLS; i++)
				if (erase_fault == 2)
					set(i, JUNK, 0);
				else if (erase_fault == 3 && i >= 1)
					set(i, BLANK, 0);
			return false;
		}
		for (size_t i = 0; i < CELLS; i++)
			set(i, BLANK, 0);
		return true;
	}
	bool is_writeable(size_t c) {
		return !dead && c < CELLS && kind[c] == BLANK;
	}
	// the newest valid data in the block (that can be read)
	int newest() const {
		for (int i = CELLS; i-- > 0;)
			if (kind[i] == VALID && !broken[i])
				return i;
		return -1;
	}
};

static Flash *flash;

struct StaticStore {
	using data_t = Rec;
	static constexpr size_t cell_nr_ = CELLS;
	bool read(Rec &d, size_t c) { return flash->read(&d, c); }
	bool write(const Rec &d, size_t c) { return flash->write(&d, c); }
	bool erase() { return flash->erase(); }
	bool is_writeable(size_t c) { return flash->is_writeable(c); }
};

struct RefStore {
	using data_t = Rec;
	static constexpr size_t NumCells = CELLS;
	Flash &f;
	RefStore(Flash &fl)
		: f{fl} {
	}
	bool read(Rec *d, size_t c) { return f.read(d, c); }
	bool write(const Rec *d, size_t c) { return f.write(d, c); }
	bool erase() { return f.erase(); }
	bool is_writeable(size_t c) { return f.is_writeable(c); }
};

struct UseLevel : WearLevel<StaticStore> {
	UseLevel(Flash &) {
	}
};
struct UseLeveler : WearLeveler<RefStore> {
	UseLeveler(Flash &f)
		: WearLeveler<RefStore>{f} {
	}
};

// arbitrary earlier contents of the block
static void any_contents(Flash &f) {
	for (size_t i = 0; i < CELLS; i++) {
		Kind k = (Kind)sym_fork("cell", 0, 2);
		f.set(i, k, k == VALID ? sym<uint32_t>("old") : 0);
	}
}

// what read() gives is the newest valid data in the block
template<typename W>
void check_read(W &w, Flash &f) {
	Rec r{0x11111111, ~0x11111111u}; // what the caller had before looks valid
	if (sym_fork("callerdata", 0, 1))
		r = Rec{0, 0};
	bool ok = w.read(r);
	int n = f.newest();
	vf_assert(ok == (n >= 0), "read succeeds exactly when the block holds valid data");
	if (ok && n >= 0)
		vf_assert(r.validate() && r.v == f.val[n], "read returns the newest valid data");
	vf_assert(!f.out_of_range, "no cell outside the block is read or written");
	vf_assert(!f.overwrote, "only blank cells are written");
}
