From 46750201a11ed5fb9cf8d694fa4bd056b2547d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 01/44] fix: CircularBuffer::first() did not compile (bound a
 non-const reference to const storage)

---
 util/circular_buffer.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..efa762a 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include "util/math.hh"
 #include <array>
+#include <cstring>
 
 template<class T, size_t max_size_>
 class CircularBuffer {
@@ -45,7 +46,7 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	const T &first() const {
 		return buf_[tail_];
 	}
 
-- 
2.43.0


From 280c787b4367fab2546fb6e8248498a708e12bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 02/44] fix: CircularBufferOpt::fill_buffer counted bytes
 instead of elements

---
 util/circular_buffer_opt.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..e0f027f 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include "util/math.hh"
 #include <array>
+#include <cstring>
 #include <optional>
 
 // Same as CircularBuffer but returns std::optional<T> for get()
@@ -95,11 +96,12 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		for (auto &el : buf_)
+			el = val;
 	}
 
 	// Alias for count()
-- 
2.43.0


From fd828c01396a51c6f9fdcb3ef5839adde2b3ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 03/44] fix: CircularBufferBlock::write counted bytes instead
 of elements

---
 util/circular_buffer_block.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..464c176 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::memcpy(&*begin, block.data(), block.size() * sizeof(T));
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::memcpy(&*begin, block.data(), space_avail * sizeof(T));
+			std::memcpy(data.data(), block.data() + space_avail, (block.size() - space_avail) * sizeof(T));
 		}
 	}
 
-- 
2.43.0


From 6de2c9a3750aba5f3fba102d7c7ad7d71c3cd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 04/44] fix: LockFreeFifoSpsc span constructor copied bytes
 instead of elements

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..31c15fa 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -2,6 +2,7 @@
 #include "util/math.hh"
 #include <array>
 #include <atomic>
+#include <cstring>
 #include <optional>
 #include <span>
 
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 88804e0e9f9e60fd6146b066253f64e52e738ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 05/44] fix: SPSC FIFO consumer read the head without acquire
 ordering (data race on the element)

---
 util/lockfree_fifo_spsc.hh     | 6 +++---
 util/lockfree_fifo_spsc_dyn.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 31c15fa..27408ce 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -67,7 +67,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -81,7 +81,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -99,7 +99,7 @@ public:
 	void remove_first() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail != head_.load(std::memory_order_relaxed))
+		if (tmp_tail != head_.load(std::memory_order_acquire))
 			tail_.store(++tmp_tail, std::memory_order_release);
 	}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..d94ed4a 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -118,7 +118,7 @@ public:
 	void remove_first() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail != head_.load(std::memory_order_relaxed))
+		if (tmp_tail != head_.load(std::memory_order_acquire))
 			tail_.store(++tmp_tail, std::memory_order_release);
 	}
 
-- 
2.43.0


From d761537763df85cc86cd0938fb52a85889ba98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 06/44] fix: CompactBinaryParser::get_node accepted a node
 whose size overflows offset + size

---
 util/compact_binary_parser.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..695512a 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -67,7 +67,7 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		if (static_cast<size_t>(sz) <= blob.size() - offset)
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From 0880d04bfd9f83dd6322f3dc46d802f0e964ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 07/44] fix: SequentialMap const operator[] returned a dangling
 reference for a missing key

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..72286a2 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT not_found{};
+		return not_found;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From 1551de4e2018744f386048889c07def5eb7e52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 08/44] fix: SequentialMap::insert dropped the value

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 72286a2..2880e1e 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -50,7 +50,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From c6deb2aa9f131c49c6e12fd54e90aa5678785fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 09/44] fix: MonotonicAllocator refused an allocation of
 exactly the free space

---
 util/monotonic_allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index ac81066..354e137 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -10,8 +10,8 @@ public:
 
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
-		if (bytesRemaining > size) {
-			auto result = &arena[offset];
+		if (bytesRemaining >= size) {
+			auto result = arena.data() + offset;
 			offset += size;
 
 			return result;
-- 
2.43.0


From 2dad6ba182727920e2a53f97f8a688cdea910dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 10/44] fix: AlignedAllocator::allocate overflowed the byte
 count for huge n and returned a too-small block

---
 util/aligned_allocator.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..fbd37b1 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,9 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (static_cast<std::size_t>(-1) - Alignment) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From b683d276dc45663b538bf05a8a6d69c018aeec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 11/44] fix: WearLevel and WearLeveler read() validated data
 the storage had failed to read

---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From 493199d14be535006f05824bc9c6e161c0bf0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 12/44] fix: WearLevel and WearLeveler lost track of the last
 valid cell when an erase failed

---
 util/wear_level.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..5df34a7 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -64,7 +64,7 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
@@ -111,8 +111,10 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					cell_ = Storage::cell_nr_;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From a6a8b1dcb703db6fd14503c5bb4afa5f534272b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 13/44] fix: int_to_str and int_to_str_chop dropped zero digits
 and misprinted powers of ten

---
 util/int_to_str.cc | 52 +++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..6e1fc2d 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,10 +19,11 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, unsigned avail, bool &started) {
+	if (started || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		started = true;
 		return avail > Log10<Place>() ? '0' + dig : 0;
 	}
 	return 0;
@@ -45,26 +46,27 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	unsigned val = value;
+	bool started = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,10 +77,11 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &started) {
+	if (started || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		started = true;
 		return '0' + dig;
 	}
 	return 0;
@@ -118,26 +121,27 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		return false;
 
 	unsigned val = value;
+	bool started = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From ce7a54487f56a14025988670b5b09bdcde7a2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 14/44] fix: int_to_str overflowed on INT32_MIN and wrote
 outside a too-small buffer for 0

---
 util/int_to_str.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 6e1fc2d..ec34027 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -43,9 +43,8 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	unsigned len = 0;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
 	}
-	unsigned val = value;
+	unsigned val = value < 0 ? 0u - value : value;
 	bool started = false;
 
 	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
@@ -108,19 +107,20 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
 	}
 
-	auto num_dig = num_digits(value);
+	unsigned val = value < 0 ? 0u - value : value;
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
 	bool started = false;
 
 	if (char dig = _digit<1000000000>(val, started); dig)
-- 
2.43.0


From 1772d4ac9c6bc8b31bc6c0958684d2463455a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 15/44] fix: printone(string_view) ignored the length of the
 view

---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..5d5507b 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From c3297c89d42f8cda375e2b9745377b7f70b49918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 16/44] fix: printone(int32_t) overflowed on INT32_MIN

---
 util/print.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index 5d5507b..199bb06 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -51,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = 0u - val;
 	} else
 		uval = val;
 
-- 
2.43.0


From e81b32da886758e03e833d96d92f24b8eb869920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 17/44] fix: StaticString<0>::copy(string_view) wrote past the
 end of its storage

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From ec1cdbd906d1ceafc15c024b6ac413f65359dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 18/44] fix: ReplaceString::replace_all skipped matches or
 searched its own replacements

---
 util/string_util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..aee19fa 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -17,7 +17,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From b3d49f85ea00279bc58757877c6cacd696218d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 19/44] fix: ReplaceString::replace_all never returned for an
 empty search text

---
 util/string_util.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string_util.hh b/util/string_util.hh
index aee19fa..d0d249c 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -10,6 +10,8 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
-- 
2.43.0


From 71184bc1c285ee8124edb3f2230de3172dba0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 20/44] fix: Version read past the end of an unterminated view
 and wrapped huge numbers

---
 util/version_tools.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..1748c47 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -1,6 +1,6 @@
 #pragma once
+#include <charconv>
 #include <cstdint>
-#include <cstdlib>
 #include <string_view>
 
 namespace VersionUtil
@@ -46,7 +46,16 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
+			// The view need not be null-terminated, so only look at the token itself
+			const auto start = token.find_first_not_of(" \t\n\v\f\r");
+			if (start != std::string_view::npos)
+				token.remove_prefix(start);
+			if (token.starts_with('+'))
+				token.remove_prefix(1);
+
+			// Anything that's not a number, or is out of range, leaves num at 0
+			unsigned num = 0;
+			std::from_chars(token.data(), token.data() + token.size(), num);
 			set_field(i++, num);
 
 			if (pos == std::string_view::npos) {
-- 
2.43.0


From fe396c04f7429ddf917ebb7ac2bed6c15b93eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 21/44] fix: copying a Function or Callback copied its captures
 bytewise and destroyed them twice

---
 util/callable.hh | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..cb7835b 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -26,13 +26,32 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(const FunctionSized &other)
+		: m_callback{other.m_callback}
+		, m_manage{other.m_manage} {
+		if (m_manage)
+			m_manage(&m_data[0], &other.m_data[0]);
+	}
+
+	FunctionSized &operator=(const FunctionSized &other) {
+		if (this != &other) {
+			if (m_manage)
+				m_manage(&m_data[0], nullptr);
+			m_callback = other.m_callback;
+			m_manage = other.m_manage;
+			if (m_manage)
+				m_manage(&m_data[0], &other.m_data[0]);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
 	}
 
 	Ret call(Args... args) {
@@ -58,17 +77,22 @@ private:
 	}
 
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, const void *copy_from) {
+		if (copy_from) {
+			new (object) Callable(*reinterpret_cast<const Callable *>(copy_from));
+		} else {
+			Callable &callable = *reinterpret_cast<Callable *>(object);
+			callable.~Callable();
+		}
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	// Copies the callable from copy_from into object, or destroys object if copy_from is null
+	using Manager = void (*)(void *object, const void *copy_from);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From a1304a3e3b06c99c1a45bd96231216608631f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 22/44] fix: hysteresis_gate turned on halfway between its
 thresholds instead of above turn_on

---
 util/math.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..68eb1a3 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -336,11 +336,8 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
-	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
-	return test_signal > threshold ? 1.f : 0.f;
+	float threshold = last_output > 0.5f ? turn_off_thresh : turn_on_thresh;
+	return new_input > threshold ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0


From 5c689d4b2a8e0710031e084742e201a9016747e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 23/44] fix: PollEvent skipped its action when the clock
 wrapped but last_poll + period did not

---
 util/poll_event.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..e95cd85 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -10,7 +11,11 @@ struct PollEvent {
 		bool expired = false;
 
 		// Handle overflow
-		if (now < last_poll) {
+		if constexpr (std::is_unsigned_v<TimeT>) {
+			// the time elapsed is right even if now has wrapped around
+			if (TimeT(now - last_poll) >= period)
+				expired = true;
+		} else if (now < last_poll) {
 			if (now >= TimeT(last_poll + period)) {
 				expired = true;
 			}
-- 
2.43.0


From ffa1a05ceb68f87fde2f438f113168d24b8fb2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 24/44] fix: PollChange::force_next_poll did nothing while the
 clock was below update_ticks

---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..5f1dc6c 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_update = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_update || now - last_update_time >= update_ticks) {
+			force_update = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_update || now - last_update_time >= update_ticks) {
+			force_update = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_update = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From e374f01038003abb1509dba6773fb448ea32e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 25/44] fix: interpolate<PhaseMax> of integers gave garbage for
 negative values (unsigned division)

---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 68eb1a3..399a91e 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,8 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	constexpr auto phase_max = static_cast<int32_t>(PhaseMax);
+	return ((in2 * phase) + in1 * (phase_max - phase)) / phase_max;
 }
 
 template<class T>
-- 
2.43.0


From 1f7408e60fe879843cd733ef00ee8fe62b6d4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 26/44] fix: pow2 read outside its table for negative exponents

---
 util/math.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index 399a91e..57b82f3 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -275,6 +275,10 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 static inline constexpr float pow2(float x) {
 	x = x / 5.0f;
 	float res = 1.f;
+	while (x < 0.f) {
+		res /= 32.f;
+		x += 1.f;
+	}
 	for (;;) {
 		if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
-- 
2.43.0


From 9fe62bd3adb6c4a7f28bcbdd6bd128f7773f7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 27/44] fix: InterpArray wrapping lookups converted negative
 positions to unsigned (undefined behaviour in sin, cos, tan)

---
 util/interp_array.hh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..bc581be 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include <array>
+#include <cmath>
 
 template<typename T, unsigned int Size, typename PhaseT = float>
 struct InterpArray {
@@ -23,8 +24,9 @@ struct InterpArray {
 
 	// Return an interpolated value where index = 0 and index = Size are the first element
 	constexpr T interp_by_index_wrap(const PhaseT index) const {
-		unsigned int idx0 = static_cast<unsigned int>(index);
-		const auto phase = index - static_cast<PhaseT>(idx0);
+		const PhaseT pos = wrap_position(index);
+		unsigned int idx0 = static_cast<unsigned int>(pos);
+		const auto phase = pos - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
 			idx0 -= Size;
 		const unsigned int idx1 = (idx0 == (Size - 1)) ? 0 : idx0 + 1;
@@ -64,7 +66,7 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		auto idx = static_cast<unsigned int>(wrap_position(phase * Size));
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
@@ -77,4 +79,13 @@ struct InterpArray {
 		const auto idx = static_cast<unsigned int>(phase * (Size - 1));
 		return data[idx];
 	}
+
+private:
+	// Brings positions that cannot be converted to an unsigned int (negative or huge) into the array
+	static constexpr PhaseT wrap_position(PhaseT pos) {
+		if (pos >= PhaseT(0) && pos < PhaseT(0x80000000u))
+			return pos;
+		pos -= PhaseT(Size) * std::floor(pos / PhaseT(Size));
+		return pos >= PhaseT(0) && pos <= PhaseT(Size) ? pos : PhaseT(0);
+	}
 };
-- 
2.43.0


From 8f93ecf90777ee5d80f2c18fdc2f2d68272dcc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 28/44] fix: TriangleOscillator::set_period_ms divided by zero
 for periods under one second

---
 util/oscs.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..38de096 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,8 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		// Not period_ms / 1000: that's 0 for periods shorter than a second
+		increment_ = static_cast<uint32_t>(uint64_t{freq_units} * 1000 / period_ms);
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From 0d0cfbf72b055a17de5840773f925bf0551543a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 29/44] fix: pow2 never returned for exponents of large
 magnitude

---
 util/math.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index 57b82f3..233ea5d 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -5,6 +5,7 @@
 #include <climits>
 #include <cstdint>
 #include <cstdlib>
+#include <limits>
 #include <numeric>
 #include <optional>
 
@@ -273,6 +274,12 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 
 // Returns 2^x
 static inline constexpr float pow2(float x) {
+	// Out of the range of a float: the loops below would not end
+	if (x <= -150.f)
+		return 0.f;
+	if (x >= 128.f)
+		return std::numeric_limits<float>::infinity();
+
 	x = x / 5.0f;
 	float res = 1.f;
 	while (x < 0.f) {
-- 
2.43.0


From ed710e70540582255fa1c13ba4f926568a67c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 30/44] fix: Color addition wrapped around instead of
 saturating

---
 util/colors.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/colors.hh b/util/colors.hh
index f342251..6343fa1 100644
--- a/util/colors.hh
+++ b/util/colors.hh
@@ -5,7 +5,7 @@
 #include "cmsis_gcc.h"
 #define builtin_add_u8(x, y) __UQADD8(x, y)
 #elif defined(__USAT)
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #else
 static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	if (sat <= 31U) {
@@ -18,7 +18,7 @@ static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	}
 	return (uint32_t)val;
 }
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #endif
 
 struct Color {
-- 
2.43.0


From f7945a91bce6dcbd6bbf2f714d64ea4e40416c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 31/44] fix: RGB565 converted out-of-range floats to unsigned
 before clamping them

---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 50b9b63eb0336884542e5cb6a816d6b7c1b57803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 32/44] fix: AudioFrame::scaleOutput overflowed at full scale
 and saturated at 24 bits whatever the width

---
 util/audio_frame.hh | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..92d7b9b 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -34,16 +34,15 @@ public:
 
 		if constexpr (std::is_signed_v<SampleType>) {
 
-			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
-			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
-			}
+			const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
+			if (v >= kOutScaling)
+				return kMaxValue - 1;
+			return static_cast<SampleType>(v);
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
+			if (v >= 1.f)
+				return MathTools::ipow(2, UsedBits) - 1;
 			return v * (MathTools::ipow(2, UsedBits) - 1);
 		}
 	}
-- 
2.43.0


From 2df8fbe72a3090a92485308598b689addc0c623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 33/44] fix: AudioFrame::sign_extend read past a sample
 narrower than an int

---
 util/audio_frame.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 92d7b9b..02962c9 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -53,7 +53,7 @@ public:
 			return v;
 		else {
 			using S = struct {
-				signed Val : UsedBits;
+				std::make_signed_t<SampleType> Val : UsedBits;
 			};
 			return reinterpret_cast<const S *>(&v)->Val;
 		}
-- 
2.43.0


From 826b0d6b800e272919d326844b44342c77809542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 34/44] fix: next_power_of_2 looked at only 32 bits of a 64-bit
 value

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 233ea5d..87672dc 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -105,7 +105,7 @@ constexpr T next_power_of_2(T value) noexcept {
 	if (value == 0 || value == 1)
 		return 1;
 
-	if (is_power_of_2(value))
+	if ((value & (value - 1)) == 0)
 		return value;
 
 	value |= value >> 1;
-- 
2.43.0


From 4ac044fb7ae544c0cb080f477953fd2312933be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 35/44] fix: RectC::x_intersects missed a rectangle inside the
 other

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 513f2aac404e3e5e60923d412d3e706c5d62f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 36/44] fix: is_poly_concave truncated the first cross product
 to an int

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..a2fd925 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -87,7 +87,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From ff7f50722ac3daf911f736b539b50feb9e951bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 37/44] fix: OR() started from an uninitialized value

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..c70411d 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{0};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From 24a28d01a973f2df6eb3f3a29231770c1508000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 38/44] fix: AnalyzedSig and PeakMeter maximum ignored negative
 signals

---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From a6979f4f5eea0f81febc0aca136ff701585d017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 39/44] fix: DownCounter::set_period_ms overflowed for periods
 shorter than an update

---
 util/oscs.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 38de096..ab8c410 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -198,7 +198,8 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		const float increment = (float)freq_units / (ms / 1000.f);
+		increment_ = increment < 4294967296.f ? static_cast<uint32_t>(increment) : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From cfa566b6350610144c16a52a3fec709b9d6e6ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 40/44] fix: LED flashes lasted a whole fraction of a second,
 or not at all beyond one second

---
 util/rgbled.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..e400db3 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(static_cast<uint32_t>(ms));
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From c06383e3fb8eb1dd16e06a43f5035570dd318989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 41/44] fix: SPSC FIFO reset() released the slots without
 release ordering (data race with the producer)

---
 util/lockfree_fifo_spsc.hh     | 2 +-
 util/lockfree_fifo_spsc_dyn.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 27408ce..c918fa2 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -129,7 +129,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index d94ed4a..5411abf 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From cfdd54fbc54b83f09c752e459bd8b212b410bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 42/44] fix: ThreadSafePool const operator[] did not compile
 (bound a non-const reference to const storage)

---
 util/thread_safe_pool.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/thread_safe_pool.hh b/util/thread_safe_pool.hh
index 87b84ac..08b950d 100644
--- a/util/thread_safe_pool.hh
+++ b/util/thread_safe_pool.hh
@@ -62,7 +62,7 @@ public:
 		return data[idx];
 	}
 
-	T &operator[](size_t idx) const {
+	const T &operator[](size_t idx) const {
 		return data[idx];
 	}
 };
-- 
2.43.0


From 97d6508f4cf11caa623875b5ef9f4a476aba23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 43/44] fix: FilteredInterpArray could lose readings marked
 ready while it was taking earlier ones

---
 util/filtered_interp_array.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index 31198ef..59cda90 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -25,9 +25,8 @@ struct FilteredInterpArray {
 	// and set it as the new interpolation target.
 	// read_fn: (unsigned i) -> T
 	void add_new_readings(auto read_fn) {
-		if (_new_data_ready) {
-			_new_data_ready = false;
-
+		// exchange() sees the latest data marked ready, which a load and a later store could miss
+		if (_new_data_ready.exchange(false)) {
 			if (_update_count > 0)
 				_num_updates = _update_count;
 
-- 
2.43.0


From d8e25555c80bd7eda7c1f6df808fdff4665c7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 44/44] fix: hysteresis_gate turned off at its turn-off
 threshold instead of below it

---
 util/math.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 87672dc..b46c598 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -348,8 +348,8 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float threshold = last_output > 0.5f ? turn_off_thresh : turn_on_thresh;
-	return new_input > threshold ? 1.f : 0.f;
+	bool on = last_output > 0.5f ? new_input >= turn_off_thresh : new_input > turn_on_thresh;
+	return on ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0

