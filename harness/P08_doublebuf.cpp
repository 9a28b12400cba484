// DoubleBufferStream: what is accepted is transmitted once, in order, one transmission at a time, from stable memory.
// vf-bound: buffers of 2 (uint32_t) and 3 (uint8_t) elements; histories of 5 (quick) / 7 (thorough) arbitrary calls; words of 0..size+1 elements with any contents; the transmit function may itself transmit one more word
// vf-assume: the transmit function accepts what it is given (its refusal is reported to the caller but leaves the stream busy); single-threaded use, as documented
#include "ref.h"
#include "util/doublebuf_stream.hh"

template<typename T, size_t N>
struct Wire {
	int starts = 0;
	const T *ptr = nullptr;
	size_t len = 0;
	T sent[N]{};
	bool busy = false;
	bool overlap = false;
	bool again = false; // the transmit function queues one more word
	bool again_ok = false;
	T more{};
};

template<typename T, size_t N>
void history(int steps) {
	Wire<T, N> w;
	DoubleBufferStream<T, N> *self = nullptr;
	DoubleBufferStream<T, N> s{[&w, &self](std::span<T> d) {
		w.starts++;
		w.overlap |= w.busy;
		w.busy = true;
		w.ptr = d.data();
		w.len = d.size();
		for (size_t i = 0; i < d.size() && i < N; i++)
			w.sent[i] = d[i];
		if (w.again)
			w.again_ok = self->transmit(std::span<T>(&w.more, 1));
		return true;
	}};
	self = &s;
	Seq<T, N> flying, pending;
	bool busy = false;
	for (int k = 0; k < steps; k++) {
		int before = w.starts;
		w.again = sym_fork("again", 0, 1);
		w.more = sym<T>("more");
		if (sym_fork("op", 0, 1) == 0) {
			size_t len = sym_fork("len", 0, N + 1);
			T word[N + 1];
			for (size_t i = 0; i < len; i++)
				word[i] = sym<T>("x");
			bool fits = pending.n + len <= N;
			bool ok = s.transmit(std::span<T>(word, len));
			vf_assert(ok == fits, "transmit accepts a word exactly when the waiting buffer has room for all of it");
			if (fits)
				for (size_t i = 0; i < len; i++)
					pending.push_back(word[i]);
			if (fits && !busy) {
				vf_assert(w.starts == before + 1, "an idle stream starts transmitting at once");
				flying = pending;
				pending.clear();
				busy = true;
				if (w.again) {
					vf_assert(w.again_ok, "the transmit function can queue more while it runs");
					pending.push_back(w.more);
				}
			} else
				vf_assert(w.starts == before, "a busy stream queues without starting a transmission");
		} else {
			if (busy)
				w.busy = false;
			s.tx_done_callback();
			if (busy && pending.n) {
				vf_assert(w.starts == before + 1, "queued data is transmitted as soon as the previous transmission is done");
				flying = pending;
				pending.clear();
				if (w.again) {
					vf_assert(w.again_ok, "the transmit function can queue more while it runs");
					pending.push_back(w.more);
				}
			} else {
				vf_assert(w.starts == before, "nothing is transmitted when nothing is queued");
				busy = false;
				flying.clear();
			}
		}
		vf_assert(!w.overlap, "transmissions never overlap");
		vf_assert(w.busy == busy, "the stream knows whether a transmission is in progress");
		if (busy) {
			vf_assert(w.len == flying.n, "a transmission carries exactly the queued data");
			for (size_t i = 0; i < flying.n; i++) {
				vf_assert(w.sent[i] == flying.d[i], "data is transmitted in the order it was accepted");
				vf_assert(w.ptr[i] == flying.d[i], "the memory being transmitted does not change until it is done");
			}
		}
		w.starts = 0;
		if (!busy) {
			w.ptr = nullptr;
			w.len = 0;
		}
		vf_observe(flying.n * 8 + pending.n);
		vf_merge(k);
	}
	vf_reach("end");
}
VF_HARNESS(db_u8_3) { history<uint8_t, 3>(VF_THOROUGH ? 8 : 5); }
VF_HARNESS(db_u32_2) { history<uint32_t, 2>(VF_THOROUGH ? 9 : 6); }
