// Native replay of a schedule: std::atomic in the code under test is replaced by a wrapper that performs the same operation with
// the same memory order on a real std::atomic, but only when the schedule gives the calling thread its turn. The waiting is
// invisible to ThreadSanitizer, which therefore sees exactly the synchronisation the code asks for.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#define VF_INL __attribute__((always_inline))
extern "C" void vf_turn();
extern "C" void vf_after();
struct vf_op {
	VF_INL vf_op() { vf_turn(); }
	VF_INL ~vf_op() { vf_after(); }
};

namespace std
{
template<typename T>
struct vf_atomic {
	atomic<T> a;
	using value_type = T;
	static constexpr bool is_always_lock_free = atomic<T>::is_always_lock_free;
	constexpr vf_atomic() noexcept = default;
	constexpr vf_atomic(T v) noexcept
		: a(v) {
	}
	vf_atomic(const vf_atomic &) = delete;
	vf_atomic &operator=(const vf_atomic &) = delete;
	bool is_lock_free() const { return a.is_lock_free(); }
	VF_INL T load(memory_order o = memory_order_seq_cst) const { vf_op g; return a.load(o); }
	VF_INL void store(T v, memory_order o = memory_order_seq_cst) { vf_op g; a.store(v, o); }
	VF_INL T exchange(T v, memory_order o = memory_order_seq_cst) { vf_op g; return a.exchange(v, o); }
	VF_INL bool compare_exchange_strong(T &e, T v, memory_order o = memory_order_seq_cst) { vf_op g; return a.compare_exchange_strong(e, v, o); }
	VF_INL bool compare_exchange_weak(T &e, T v, memory_order o = memory_order_seq_cst) { vf_op g; return a.compare_exchange_strong(e, v, o); }
	VF_INL bool compare_exchange_strong(T &e, T v, memory_order s, memory_order f) { vf_op g; return a.compare_exchange_strong(e, v, s, f); }
	VF_INL bool compare_exchange_weak(T &e, T v, memory_order s, memory_order f) { vf_op g; return a.compare_exchange_strong(e, v, s, f); }
	VF_INL T fetch_add(T v, memory_order o = memory_order_seq_cst) requires(!is_same_v<T, bool>) { vf_op g; return a.fetch_add(v, o); }
	VF_INL T fetch_sub(T v, memory_order o = memory_order_seq_cst) requires(!is_same_v<T, bool>) { vf_op g; return a.fetch_sub(v, o); }
	VF_INL T fetch_and(T v, memory_order o = memory_order_seq_cst) requires(!is_same_v<T, bool>) { vf_op g; return a.fetch_and(v, o); }
	VF_INL T fetch_or(T v, memory_order o = memory_order_seq_cst) requires(!is_same_v<T, bool>) { vf_op g; return a.fetch_or(v, o); }
	VF_INL T fetch_xor(T v, memory_order o = memory_order_seq_cst) requires(!is_same_v<T, bool>) { vf_op g; return a.fetch_xor(v, o); }
	VF_INL operator T() const { return load(); }
	VF_INL T operator=(T v) { return store(v), v; }
	VF_INL T operator++() requires(!is_same_v<T, bool>) { return fetch_add(1) + 1; }
	VF_INL T operator++(int) requires(!is_same_v<T, bool>) { return fetch_add(1); }
	VF_INL T operator--() requires(!is_same_v<T, bool>) { return fetch_sub(1) - 1; }
	VF_INL T operator--(int) requires(!is_same_v<T, bool>) { return fetch_sub(1); }
	VF_INL T operator+=(T v) requires(!is_same_v<T, bool>) { return fetch_add(v) + v; }
	VF_INL T operator-=(T v) requires(!is_same_v<T, bool>) { return fetch_sub(v) - v; }
};
} // namespace std
#define atomic vf_atomic
