From b5bd53fa1b13a39d47b74d34d3e59b08e67d1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/59] fix: decompress inputs that are an exact multiple of
 the superblock size

The size of the last superblock was computed as decompressed % superblock_size,
which is 0 when the last superblock is full: such frames were rejected.
---
 stenos/internal/stenos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..6b096f0 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1114,6 +1114,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Compute superblock count
 	size_t super_block_remaining = decompressed % opts->superblock_size;
 	size_t super_block_count = decompressed / opts->superblock_size + (super_block_remaining ? 1 : 0);
+	if (super_block_remaining == 0)
+		// The last superblock is a full one
+		super_block_remaining = opts->superblock_size;
 
 	if (opts->threads <= 1 || super_block_count == 1) {
 		// Mono thread decompression
-- 
2.43.0


From 121e9b1643ad67b87bacae99742dc67aa766c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/59] fix: write the superblock size in the header of time
 limited frames

Time limited compression uses a non standard superblock size (header shift 255)
but the size itself was only written when a custom block shift was set, so no
time limited frame could be decompressed.
---
 stenos/internal/stenos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 6b096f0..a1260bb 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,8 +865,8 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
-		// Write custom superblock size
+	if (opts->shift == 255) {
+		// Write custom superblock size (custom block shift or time limited compression)
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
 		stenos::write_LE_32(dst, (unsigned)opts->superblock_size);
-- 
2.43.0


From 74cec9effcc8e017c013759144e7097919adf84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 03/59] fix: reserve 256 * bytesoftype bytes for the partial
 block buffer

Only 256 bytes were reserved for the partial block buffer although
block_compress_partial() writes 256 * bytesoftype bytes into it, which wrote
beyond the allocation for element sizes above 19 or so.
---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..22b116b 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype * 2);
+				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From a7838a78f4de7f37767d2ce2165a15ac9ed53988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 04/59] fix: do not read past the end of the compressed block
 in decode_rle_flat

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 22b116b..e10f8cd 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1955,7 +1955,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From 583b6ce98cf032a783f3041c483066b6edc7cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/59] fix: keep the superblock size valid for big element
 sizes and high levels

---
 stenos/internal/stenos.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index a1260bb..e7648b2 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -112,6 +112,14 @@ struct stenos_context_s
 		return (t.total_bytes - t.processed_bytes.load(std::memory_order_relaxed)) / remaining;
 	}
 
+	static STENOS_ALWAYS_INLINE int clamp_shift(size_t base_superblock_size, int max_shift) noexcept
+	{
+		// Reduce the shift until the superblock size is representable (big bytesoftype and high level)
+		while (max_shift > 0 && (base_superblock_size << (size_t)max_shift) >= STENOS_MAX_BLOCK_BYTES)
+			--max_shift;
+		return max_shift;
+	}
+
 	size_t prepare(size_t bytesoftype, size_t bytes) noexcept
 	{
 		// Prepare the compresson of given number of bytes
@@ -138,7 +146,7 @@ struct stenos_context_s
 				// Default strategy for level 9
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = (9 - 1) / 2;
+					shift = clamp_shift(new_superblock_size, (9 - 1) / 2);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
@@ -158,7 +166,7 @@ struct stenos_context_s
 				// Compute superblock size
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = level ? (level - 1) / 2 : 0;
+					shift = clamp_shift(new_superblock_size, level ? (level - 1) / 2 : 0);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
-- 
2.43.0


From 16cb5a0ea434f92be57e08e1882ccc866bd4224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 06/59] fix: a context which ran out of time must not store
 every later frame verbatim

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index e7648b2..d5747a8 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -183,9 +183,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 8c1144845c4a0953c83a3baf7a1b457ecacd5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/59] fix: stenos_reset_context must also reset the custom
 block size

---
 stenos/internal/stenos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index d5747a8..478ac44 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -252,11 +252,8 @@ void stenos_destroy_context(stenos_context* ctx)
 
 void stenos_reset_context(stenos_context* ctx)
 {
-	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
-	}
+	if (ctx)
+		ctx->reset_parameters();
 }
 
 size_t stenos_set_level(stenos_context* ctx, int level)
-- 
2.43.0


From 44fa592a339dbb3b4a7fd01f8cd67c7519236ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 08/59] fix: stenos_get_info must reject an invalid element
 size instead of dividing by zero

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 478ac44..26ecb48 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1028,6 +1028,10 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 	const uint8_t* src = (const uint8_t*)_src;
 	const uint8_t* end_src = src + bytes;
 
+	// Check bytesoftype validity
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	if STENOS_UNLIKELY (src + 8 > end_src)
 		return STENOS_ERROR_SRC_OVERFLOW;
 
-- 
2.43.0


From 34cfb4c834effe2beb4a74422e75e868d0388220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/59] fix: reject frames with an invalid superblock size on
 decompression

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 26ecb48..65a05d3 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1115,6 +1115,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Default superblock size
 		superblock_size = stenos::super_block_size(block_size) << shift;
 
+	// Check superblock size validity
+	if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
+		return STENOS_ERROR_INVALID_INPUT;
+
 	// Clear buffers
 	if (superblock_size != opts->superblock_size)
 		opts->clear_buffers();
-- 
2.43.0


From 496e9c67334839372a53fdd1532931d09cb57dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/59] fix: lost wake-up in the thread pool when several
 threads wait for it

---
 stenos/internal/tiny_pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..cc7f304 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -232,7 +232,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0; // number of threads inside wait()
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -241,7 +241,7 @@ namespace stenos
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-				if (waiting && processing == 0 && list.empty())
+				if (waiting != 0 && processing == 0 && list.empty())
 					wait_condition.notify_all();
 
 				condition.wait(lock, [this] { return (!list.empty()) || this->finish; });
@@ -284,9 +284,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From c3805513403a740cd9fe0c491fd7651ed4031d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 11/59] fix: unsynchronized read of the thread pool finish flag

---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index cc7f304..62e5279 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -237,7 +237,7 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From 19d5d9debe484b4babeea6dd5c8c5aba1f204585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 12/59] fix: use after free in the task allocator of the thread
 pool with concurrent users

---
 stenos/internal/tiny_pool.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 62e5279..dae97af 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -52,7 +52,8 @@ namespace stenos
 		struct TaskAllocation
 		{
 
-			std::atomic<TaskBuffer*> first{ nullptr };
+			std::mutex mutex; // pop() dereferences the first node, which a concurrent pop() might free or reinsert
+			TaskBuffer* first{ nullptr };
 
 			~TaskAllocation() noexcept
 			{
@@ -64,9 +65,10 @@ namespace stenos
 			TaskBuffer* pop() noexcept
 			{
 				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
-				while (f && !first.compare_exchange_strong(f, f->next))
-					;
+				std::lock_guard<std::mutex> lock(mutex);
+				auto f = first;
+				if (f)
+					first = f->next;
 				return f;
 			}
 
@@ -93,11 +95,9 @@ namespace stenos
 			{
 				// Insert the buffer in the list
 				TaskBuffer* b = (TaskBuffer*)((uint8_t*)p - sizeof(TaskBuffer));
-				auto f = first.load(std::memory_order_relaxed);
-				b->next = f;
-				while (!first.compare_exchange_strong(f, b)) {
-					b->next = f;
-				}
+				std::lock_guard<std::mutex> lock(mutex);
+				b->next = first;
+				first = b;
 			}
 
 			static STENOS_ALWAYS_INLINE TaskAllocation& instance()
-- 
2.43.0


From 58275d0e2f4b8f82628d1f3e83ebbe868113dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 13/59] fix: null dereferences when the context, task or block
 buffer allocation fails

---
 stenos/internal/block_compress.h | 2 +-
 stenos/internal/stenos.cpp       | 2 ++
 stenos/internal/tiny_pool.h      | 7 +++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index e10f8cd..7be16a1 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 65a05d3..5c12bf3 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -239,6 +239,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index dae97af..ea2722d 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -86,8 +86,9 @@ namespace stenos
 
 				// Allocate
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
-				if (res)
-					new (res) TaskBuffer{ nullptr, s };
+				if (!res)
+					return nullptr;
+				new (res) TaskBuffer{ nullptr, s };
 				return res->data();
 			}
 
@@ -179,6 +180,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 4b7e0633d1651d693974c3f827ffd5b36c197780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 14/59] fix: out of bound access to the context buffers after
 an allocation failure

---
 stenos/internal/stenos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 5c12bf3..4f54b6a 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -197,9 +197,11 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
-				thread_buffers.resize((size_t)size, nullptr);
-				tmp_buffers1.resize((size_t)size, nullptr);
+				// In case of exception, tmp_buffers2 must not be smaller than tmp_buffers1,
+				// which must not be smaller than thread_buffers.
 				tmp_buffers2.resize((size_t)size, nullptr);
+				tmp_buffers1.resize((size_t)size, nullptr);
+				thread_buffers.resize((size_t)size, nullptr);
 			}
 		}
 		catch (...) {
-- 
2.43.0


From fd667197a0a603dd41d199b8a759affc25daea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 15/59] fix: retry the creation of the thread local zstd
 context after an allocation failure

---
 stenos/internal/zstd_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 54f8d6a..c042996 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -73,7 +73,7 @@ namespace stenos
 			}
 		};
 		thread_local ZSTDContext ctx;
-		if (!ctx.ctx)
+		if (!ctx.ctx && !(ctx.ctx = ZSTD_createCCtx()))
 			return STENOS_ERROR_ALLOC;
 
 		size_t r = 0;
-- 
2.43.0


From 15d24bd16f2db7dff7926a21728b0ba10c301dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 16/59] fix: allocation failures in multithreaded compression
 and decompression

---
 stenos/internal/stenos.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 4f54b6a..f746548 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -969,8 +969,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// Pushed tasks reference local variables, wait for them
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -1007,8 +1010,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					// Pushed tasks reference local variables, wait for them
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1171,7 +1177,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
@@ -1206,8 +1218,11 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				// Pushed tasks reference local variables, wait for them
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
-- 
2.43.0


From ac72a349548cce705741761d132a155868ad4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 17/59] fix: data race on the result code of a multithreaded
 compression to a small destination

---
 stenos/internal/stenos.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index f746548..443475f 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -999,17 +999,16 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 				opts->thread_buffers[i]->dst = dst;
 				dst += opts->thread_buffers[i]->dst_size;
 				src += opts->superblock_size;
+				if STENOS_UNLIKELY (dst > dst_end) {
+					res_code = STENOS_ERROR_DST_OVERFLOW;
+					goto end;
+				}
 			}
 
 			// copy to destination in parallel
 			for (int i = 0; i < thread_count; ++i) {
 				if (!stenos::pool->push([&, i]() {
-					    if ((uint8_t*)opts->thread_buffers[i]->dst + opts->thread_buffers[i]->dst_size > dst_end) {
-						    res_code = STENOS_ERROR_DST_OVERFLOW;
-					    }
-					    else {
-						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
-					    }
+					    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 				    })) {
 					// Pushed tasks reference local variables, wait for them
 					stenos::pool->wait();
@@ -1017,9 +1016,6 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 				}
 			}
 			stenos::pool->wait();
-
-			if STENOS_UNLIKELY (res_code)
-				goto end;
 		}
 		chunks -= (size_t)thread_count;
 	}
-- 
2.43.0


From 7648617785f2cfc40f4a277ce61dd4ade9536340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 18/59] fix: integer overflow with a huge number of threads in
 time limited compression

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 443475f..638e114 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -133,7 +133,7 @@ struct stenos_context_s
 
 		if (t.nanoseconds) {
 			// try to have at least thread * 32 super block
-			size_t required_superblock_count = threads * 32;
+			size_t required_superblock_count = (size_t)threads * 32;
 			size_t required_superblock_size = bytes / required_superblock_count;
 
 			size_t block_count = required_superblock_size / block_size;
-- 
2.43.0


From 3c02b7edf1e14fa53e396614c8746915ec242ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 19/59] fix: check the source size before decoding a raw block

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7be16a1..e4910b1 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1822,6 +1822,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2119,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From 376cf2aec3c4d03401252facdbb2730c187df0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 20/59] fix: empty block data must not decode successfully to a
 non empty output

---
 stenos/internal/block_compress.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index e4910b1..9109d8e 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1796,8 +1796,10 @@ namespace stenos
 
 	static STENOS_ALWAYS_INLINE size_t block_decompress(const void* STENOS_RESTRICT _src, size_t size, size_t bytesoftype, size_t bytes, void* STENOS_RESTRICT _dst) noexcept
 	{
-		if STENOS_UNLIKELY (bytes == 0 || size == 0)
+		if STENOS_UNLIKELY (bytes == 0)
 			return 0;
+		if STENOS_UNLIKELY (size == 0)
+			return STENOS_ERROR_SRC_OVERFLOW;
 
 		const uint8_t* src = static_cast<const uint8_t*>(_src);
 		const uint8_t* saved = src;
@@ -2089,8 +2091,10 @@ namespace stenos
 
 	static STENOS_ALWAYS_INLINE size_t block_decompress_sse(const void* STENOS_RESTRICT _src, size_t size, size_t bytesoftype, size_t bytes, void* STENOS_RESTRICT _dst) noexcept
 	{
-		if STENOS_UNLIKELY (bytes == 0 || size == 0)
+		if STENOS_UNLIKELY (bytes == 0)
 			return 0;
+		if STENOS_UNLIKELY (size == 0)
+			return STENOS_ERROR_SRC_OVERFLOW;
 
 		const uint8_t* src = static_cast<const uint8_t*>(_src);
 		const uint8_t* saved = src;
-- 
2.43.0


From 2dc380c3db61829e5c6c41e256121503ef6c08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 21/59] fix: source overflow checks in the non SSE block
 decoder

---
 stenos/internal/block_compress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 9109d8e..f24b46b 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
@@ -1728,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY ((size_t)(end - src) < lines / 2 + (lines & 1))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From 60422c1ad32c34615de6757de4ea04be37650aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 22/59] fix: validate match offsets and source bounds in the LZ
 block decoder

---
 stenos/internal/lz_compress.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..6675b13 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,17 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in == end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					// Offset must be valid and inside the already decoded values
+					if STENOS_UNLIKELY (offset == 0 || (size_t)offset * Bytes > (size_t)(dst - _dst))
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From 8430c5106734ef5d24f9dfdb31ee84e169550297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 23/59] fix: reject a zstd superblock with the wrong
 decompressed size

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 638e114..6b81e07 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -703,7 +703,7 @@ namespace stenos
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
-- 
2.43.0


From 8235e0195a243d62ab1c921796adb4e0c13b7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 24/59] fix: out of bound read in the inverse delta of very
 small inputs

---
 stenos/internal/delta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/delta.cpp b/stenos/internal/delta.cpp
index 0ce4ded..ff0ec99 100644
--- a/stenos/internal/delta.cpp
+++ b/stenos/internal/delta.cpp
@@ -282,8 +282,8 @@ namespace stenos
 		const char* src = (const char*)_src;
 		char* dst = (char*)_dst;
 
-		if (bytes == 0)
-			return;
+		if (bytes < 16)
+			return delta_inv_generic(_src, _dst, bytes);
 
 		__m128i mask = _mm_setr_epi8((char)0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
 
@@ -388,8 +388,8 @@ namespace stenos
 		const char* src = (const char*)_src;
 		char* dst = (char*)_dst;
 
-		if (bytes == 0)
-			return;
+		if (bytes < 32)
+			return delta_inv_generic(_src, _dst, bytes);
 
 		const __m256i mask = _mm256_setr_epi8((char)0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
 		const __m256i shuffle = _mm256_set_m128i(_mm_set1_epi8(15), _mm_set1_epi8((char)0x80));
-- 
2.43.0


From fcddec59ec315aa93a33cc5691b099d715f8609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 25/59] fix: SSE2 unshuffle of 12 bytes elements lost the last
 element of each group and wrote past it

---
 stenos/internal/shuffle-sse2.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..87c63ff 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -363,12 +363,6 @@ static void unshuffle8_sse2(uint8_t* const dest, const uint8_t* const src, const
 	}
 }
 
-template<class... Args>
-STENOS_ALWAYS_INLINE __m128i setr_epi8(Args... values) noexcept
-{
-	return _mm_setr_epi8(std::forward<char>(values)...);
-}
-
 /* Routine optimized for unshuffling a buffer for a type size of 12 bytes. */
 /* Based on the 16-byte implementation */
 static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, const int32_t vectorizable_elements, const int32_t total_elements)
@@ -378,8 +372,6 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
-
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
 		const uint8_t* const src_for_ith_element = src + i;
@@ -431,7 +423,10 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (12 * 12)), xmm1[3]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (13 * 12)), xmm1[11]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (14 * 12)), xmm1[7]);
-		_mm_maskmoveu_si128(xmm1[15], mask, (char*)(dest + (i * bytesoftype) + (15 * 12)));
+		/* The last element of the group must not be written past its 12 bytes */
+		_mm_storel_epi64((__m128i*)(dest + (i * bytesoftype) + (15 * 12)), xmm1[15]);
+		const int32_t last = _mm_cvtsi128_si32(_mm_srli_si128(xmm1[15], 8));
+		memcpy(dest + (i * bytesoftype) + (15 * 12) + 8, &last, sizeof(last));
 	}
 }
 
-- 
2.43.0


From 1547a475f8f66b1104bdfa4b62652e8de154c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 26/59] fix: uninitialized LZ hash table made the compressed
 output depend on stack garbage

---
 stenos/internal/block_compress.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index f24b46b..34fca24 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1146,6 +1146,10 @@ namespace stenos
 		uint32_t target = 0;
 		size_t full_size = 0;
 
+		// LZ hash table, kept from one block to the next.
+		// Must be initialized as the compressed output depends on its content.
+		uint16_t lz_table[256] = {};
+
 		//__m128i input[16];
 		__m128i transpose[16];
 
@@ -1208,13 +1212,11 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
-
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
 					auto* out = anchor;
 					*out++ = __STENOS_BLOCK_LZ;
-					out = lz_compress_generic((uint8_t*)src, out, bytesoftype, full_size, buffer);
+					out = lz_compress_generic((uint8_t*)src, out, bytesoftype, full_size, lz_table);
 					if (out) {
 						dst = out;
 						goto handle_marker;
-- 
2.43.0


From 4d36a45f0da88b6ee4e42005bd0812a953478bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 27/59] fix: for_each functors returning bool received a copy
 of the elements

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..63a6080 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From 0fdedf01cbdad1e2fb843c91a0692cdc9f7af926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 28/59] fix: modifications made by for_each before an early
 stop or an exception were lost

---
 stenos/cvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 63a6080..30f16f6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2299,6 +2299,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty beforehand, as the functor might modify some elements before stopping or throwing
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2306,7 +2308,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2363,12 +2364,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty beforehand, as the functor might modify some elements before stopping or throwing
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From d6a0a29dd833077642022ed58e2d24bc5a508120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 29/59] fix: insert(pos, count, value), compression_ratio() and
 assignment of a const value wrapper did not compile

---
 stenos/cvector.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 30f16f6..aa30189 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -970,7 +970,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE auto operator=(const ValueWrapper<T>& other) -> RefWrapper&
 			{
-				set(other.value);
+				set(other.get());
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator=(ValueWrapper<T>&& other) -> RefWrapper&
@@ -1567,14 +1567,15 @@ namespace stenos
 			/// @brief Returns the compression ratio achieved by the block encoder
 			auto compression_ratio() const noexcept -> float
 			{
-				size_t decompressed_size = d_buckets.size();
-				if (d_buckets.size() && !d_buckets.back().data.find_compressed())
-					--decompressed_size;
-				decompressed_size *= block_size * sizeof(T);
+				size_t decompressed_size = 0;
 				size_t compress_size = 0;
-				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
-						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
+				for (size_t i = 0; i < d_buckets.size(); ++i) {
+					// Only consider blocks that have a compressed version
+					if (auto buffer = d_buckets[i].data.find_compressed()) {
+						decompressed_size += block_size * sizeof(T);
+						compress_size += stenos_private_block_csize(buffer);
+					}
+				}
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
@@ -2787,7 +2788,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
-- 
2.43.0


From 34fb5ba5dccab4e0d3b50bf9b47e2dae24181db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 30/59] fix: cvector never destroyed its compression context

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index aa30189..88ce6b0 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1455,7 +1455,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From e508e22fc22b6c18f2b8568c2876433d8f21843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 31/59] fix: move assignment between different allocators
 released memory with the wrong allocator

---
 stenos/cvector.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 88ce6b0..dcad711 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2593,9 +2593,25 @@ namespace stenos
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(cvector&& other) noexcept(noexcept(std::declval<cvector&>().swap(std::declval<cvector&>()))) -> cvector&
+		auto operator=(cvector&& other) noexcept(std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || detail::is_always_equal<Allocator>::value) -> cvector&
 		{
-			this->swap(other);
+			if (this != std::addressof(other)) {
+				if (get_allocator() == other.get_allocator())
+					std::swap(d_data, other.d_data);
+				else if (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value) {
+					// Destroy current content with current allocator, then steal the content of other
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = other.d_data;
+					other.d_data = nullptr;
+					move_allocator(get_allocator(), other.get_allocator());
+				}
+				else {
+					// Different allocators that cannot be exchanged: element-wise move
+					cvector tmp(std::move(other), get_allocator());
+					std::swap(d_data, tmp.d_data);
+				}
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 6a851068225bc9954b57f41f8ac2c9bd32363d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 32/59] fix: copy assignment to an empty cvector crashed, and
 exceptions destroyed the copy twice

---
 stenos/cvector.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index dcad711..7c438a3 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2624,7 +2624,8 @@ namespace stenos
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
-						destroy_internal(d_data);
+						if (d_data)
+							destroy_internal(d_data);
 						d_data = nullptr;
 					}
 				}
@@ -2635,19 +2636,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From cebca5e19799c1a977370bcb89fc235112dc03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 33/59] fix: constructors leaked the whole content when an
 exception was thrown

---
 stenos/cvector.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 7c438a3..2cbd069 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2505,8 +2505,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2514,8 +2513,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2534,8 +2532,14 @@ namespace stenos
 		{
 			if (other.size()) {
 				d_data = make_internal(alloc);
-				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				try {
+					// calling push_back is faster than resize + copy
+					other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				}
+				catch (...) {
+					destroy_internal(d_data);
+					throw;
+				}
 			}
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
@@ -2551,8 +2555,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2569,8 +2572,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From eccd3719041a038157eb9da2e9e2d56ace154a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 34/59] fix: serialization dropped a full compressed last
 block, or wrote a stale version of it

---
 stenos/cvector.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 2cbd069..edb02d3 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3073,16 +3073,17 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
-					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
+					// check if last bucket is full and compressed (and its compressed version is up to date)
+					if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+						const char* compressed = buffer->data.find_compressed();
+						size_t csize = stenos_private_block_csize(compressed);
 						if STENOS_UNLIKELY (dst + csize > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
+						memcpy(dst, compressed, csize);
 						dst += csize;
 						goto end;
 					}
@@ -3284,12 +3285,13 @@ namespace stenos
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
 				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw && raw->size == 0)
 					goto end;
 
-				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				// check if last bucket is full and compressed (and its compressed version is up to date)
+				if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+					const char* compressed = buffer->data.find_compressed();
+					oss.write(compressed, stenos_private_block_csize(compressed));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
-- 
2.43.0


From dfdd9921276f06de6a01764292e4d5c1730b03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 35/59] fix: new decompression contexts pretended to belong to
 block 0

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index edb02d3..e4f02e8 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
-- 
2.43.0


From d7fb1ee169b01dfbbd8a4cfe562855660ef7b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 36/59] fix: a failed allocation while compressing a block
 destroyed the block and corrupted the cvector

---
 stenos/cvector.hpp | 111 ++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 76 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e4f02e8..7861b92 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1593,6 +1593,14 @@ namespace stenos
 
 				const size_t max_buffers = 1;
 
+				// Start by compressing all full dirty blocks. This might throw (fine), and must be
+				// done before moving the contexts from one list to another.
+				for (auto it = d_contexts.begin(); it != d_contexts.end(); ++it) {
+					RawType* raw = *it;
+					if (raw->dirty && raw->size == elems_per_block)
+						update_compressed_buffer(raw);
+				}
+
 				for (auto it = d_contexts.begin(); it != d_contexts.end();) {
 					RawType* raw = *it++;
 
@@ -1611,24 +1619,6 @@ namespace stenos
 						continue;
 					}
 
-					// If the context is dirty, compress it
-					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress
-						size_t r = compress(raw->storage);
-						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
-
-							if (raw->buffer)
-								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
-							raw->buffer = buff;
-						}
-						memcpy(raw->buffer, compression_buffer(), r);
-					}
-
 					// Unlink this decompression context with its compressed buffer
 					if (raw->block_index != RawType::invalid_index)
 						d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
@@ -1676,41 +1666,21 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.unlock();
 			}
 
-			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
+			/// @brief Compress the values of a full decompression context and update its compressed buffer.
+			/// In case of exception the context is left unchanged: its values are still there, and still dirty.
+			void update_compressed_buffer(RawType* raw)
 			{
-				char* buff = nullptr;
-				try {
-					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
+				size_t r = compress(raw->storage);
+				if (!raw->buffer || r != stenos_private_block_csize(raw->buffer)) {
+					// Alloc new buffer (might throw), free the old one
+					RebindAlloc<char> al(*this);
+					char* buff = al.allocate(r);
+					if (raw->buffer)
+						al.deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
+					raw->buffer = buff;
 				}
-				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
-					throw;
-				}
-				return buff;
+				memcpy(raw->buffer, compression_buffer(), r);
+				raw->mark_not_dirty();
 			}
 
 			/// @brief Returns a decompression context either by creating a new one, or by reusing an existing one
@@ -1766,30 +1736,26 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
 					// find the corresponding PackBuffer, excluding front and back buckets
 					STENOS_ASSERT_DEBUG(found_bucket, "context must belong to an existing bucket");
 
-					size_t r = compress(found_raw->storage);
+					try {
+						update_compressed_buffer(found_raw);
 
-					if (r != stenos_private_block_csize(found_raw->buffer)) {
-						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
-						if (found_raw->buffer)
-							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
-						found_raw->buffer = buff;
+						// Use this opportunity to free another context if possible
+						if (!start && d_contexts.size() > d_buckets.size() / 16) {
+							RawType* raw = find_free_context(exclude, &found);
+							if (raw)
+								erase_context(raw);
+						}
 					}
-
-					memcpy(found_raw->buffer, compression_buffer(), r);
-
-					// Use this opportunity to free another context if possible
-					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
-						if (raw)
-							erase_context(raw);
+					catch (...) {
+						// The values are still in the decompression context
+						unlock(found_raw);
+						throw;
 					}
 				}
 
@@ -1827,15 +1793,8 @@ namespace stenos
 				BucketType* bucket = &d_buckets[index];
 				RawType* decompressed = bucket->load_decompressed();
 
-				// Compress
-				size_t r = compress(decompressed->storage);
-				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
-					if (decompressed->buffer)
-						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
-					decompressed->buffer = buff;
-				}
-				memcpy(decompressed->buffer, compression_buffer(), r);
+				// Compress, might throw (fine)
+				update_compressed_buffer(decompressed);
 
 				bucket->data.set(decompressed->buffer, Compressed);
 				decompressed->reset();
-- 
2.43.0


From 5bdb4b35c620361b484c6034689f7948a99e60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 37/59] fix: an unused decompression context could stay marked
 as modified after a failed append

---
 stenos/cvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 7861b92..86fa53f 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1807,16 +1807,16 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 			}
-- 
2.43.0


From 5eca88aa3a173e2346bfe6656b8f9682634eeb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 38/59] fix: resize leaked the elements constructed before an
 exception

---
 stenos/cvector.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 86fa53f..5c708b2 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2017,16 +2017,13 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2072,15 +2069,13 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
-- 
2.43.0


From 4c6a66e47ba02d6c61f6c3566a1fac2d0074823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 39/59] fix: a concurrent modification was lost when another
 thread was finishing decompressing the block

---
 stenos/cvector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5c708b2..4c01e15 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1836,11 +1836,11 @@ namespace stenos
 					raw->block_index = index;
 
 					this->decompress(pack, raw->storage);
-					char* buffer = pack->data.find_compressed();
-					pack->data.set(raw, Raw);
-					raw->buffer = buffer;
+					raw->buffer = pack->data.find_compressed();
 					raw->dirty = 0;
 					raw->size = block_size;
+					// Publish the decompressed block last: other threads might use it right away
+					pack->data.set(raw, Raw);
 					decompressed = raw;
 				}
 				return decompressed;
-- 
2.43.0


From d49cf2e2c2ee3de0a8f5113b5df0b86b65c3ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 40/59] fix: deadlock between a bulk modification and a thread
 using several references to the same block

---
 stenos/cvector.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 4c01e15..29ce109 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -333,6 +333,8 @@ namespace stenos
 			static constexpr lock_type read = 4;
 			static constexpr lock_type max_read_mask = 1ull << (sizeof(lock_type) * 8u - 1u);
 
+			static constexpr unsigned max_spins = 64;
+
 			bool failed_lock(lock_type& expect) noexcept
 			{
 				if (!(expect & (need_lock)))
@@ -378,8 +380,15 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE void lock_shared() noexcept
 			{
-				while (!try_lock_shared())
+				// Let waiting writers go first, but not forever: the calling thread might already
+				// hold the lock in shared mode (several references to the same block), in which
+				// case waiting for the writer would be a deadlock.
+				unsigned spins = 0;
+				while (!(spins < max_spins ? try_lock_shared() : force_lock_shared())) {
+					if (spins < max_spins)
+						++spins;
 					std::this_thread::yield();
+				}
 			}
 			STENOS_ALWAYS_INLINE void unlock_shared() noexcept
 			{
@@ -402,6 +411,13 @@ namespace stenos
 				return (!(content & (need_lock | write | max_read_mask)) && d_lock.compare_exchange_strong(content, content + read));
 			}
 
+			STENOS_ALWAYS_INLINE bool force_lock_shared() noexcept
+			{
+				// Same as try_lock_shared(), but ignore writers waiting for the lock
+				lock_type content = d_lock.load(std::memory_order_relaxed);
+				return (!(content & (write | max_read_mask)) && d_lock.compare_exchange_strong(content, content + read));
+			}
+
 			STENOS_ALWAYS_INLINE lock_type value() const noexcept { return d_lock.load(); }
 		};
 
-- 
2.43.0


From b22526a4ec1b2664eb9382eed0cd6a1b8d694f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 41/59] fix: running out of memory inside the codec aborted the
 program instead of throwing

---
 stenos/cvector.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 29ce109..a39e824 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1407,10 +1407,14 @@ namespace stenos
 
 			STENOS_ALWAYS_INLINE void* compression_buffer() noexcept { return get_compression_buffer<block_bytes>(); }
 
-			STENOS_ALWAYS_INLINE size_t compress(const void* in, size_t bytes = 0) noexcept
+			/// @brief Compress a block in the compression buffer.
+			/// Throws std::bad_alloc if the compression context runs out of memory.
+			STENOS_ALWAYS_INLINE size_t compress(const void* in, size_t bytes = 0)
 			{
 				std::lock_guard<SharedSpinner> lock(d_ctx_lock);
 				size_t r = stenos_private_compress_block(d_ctx, in, sizeof(T), block_bytes, bytes ? bytes : block_bytes, compression_buffer(), dst_block_bytes);
+				if STENOS_UNLIKELY (r == STENOS_ERROR_ALLOC)
+					throw std::bad_alloc();
 				if (stenos_has_error(r))
 					STENOS_ABORT("cvector: abort on compression error") // no way to recover from this
 #ifndef NDEBUG
@@ -1422,7 +1426,9 @@ namespace stenos
 				return r;
 			}
 
-			STENOS_ALWAYS_INLINE size_t decompress(BucketType* pack, void* dst) noexcept
+			/// @brief Decompress a block.
+			/// Throws std::bad_alloc if the decompression context runs out of memory.
+			STENOS_ALWAYS_INLINE size_t decompress(BucketType* pack, void* dst)
 			{
 				auto buf = pack->data.find_compressed();
 				if (!buf)
@@ -1430,6 +1436,8 @@ namespace stenos
 
 				std::lock_guard<SharedSpinner> lock(d_ctx_lock);
 				size_t r = stenos_private_decompress_block(d_ctx, buf, sizeof(T), block_bytes, stenos_private_block_csize(buf), dst, block_bytes);
+				if STENOS_UNLIKELY (r == STENOS_ERROR_ALLOC)
+					throw std::bad_alloc();
 				if (stenos_has_error(r) || r != block_bytes)
 					STENOS_ABORT("cvector: abort on decompression error")
 				return r;
@@ -1849,9 +1857,10 @@ namespace stenos
 
 					BucketType* pack = &d_buckets[index];
 					RawType* raw = make_or_find_free_context(exclude == static_cast<size_t>(-1) ? nullptr : d_buckets[exclude].load_decompressed());
-					raw->block_index = index;
 
+					// might throw, fine as the context is still unused
 					this->decompress(pack, raw->storage);
+					raw->block_index = index;
 					raw->buffer = pack->data.find_compressed();
 					raw->dirty = 0;
 					raw->size = block_size;
-- 
2.43.0


From 728205ccda9a3cc8db21729909a0e5a285f6c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 42/59] fix: accessing an element while out of memory
 terminated the program instead of throwing

---
 stenos/cvector.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a39e824..3cdb485 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -786,7 +786,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -811,7 +811,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -928,7 +928,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -1014,7 +1014,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(std::move(v.move()))
 		{
 		}
@@ -1028,7 +1028,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = std::move(v.move());
 			return *this;
@@ -1037,13 +1037,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1182,7 +1182,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1251,7 +1251,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -3223,7 +3223,7 @@ namespace std
 	///////////////////////////
 
 	template<class Compress>
-	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept
+	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other)
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}
-- 
2.43.0


From 766b209389c49fb3c3d78de10e68f5cf365d78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 43/59] fix: appending a copy of an element of the full last
 block overwrote it while copying

---
 stenos/cvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 3cdb485..89a3e29 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1837,7 +1837,8 @@ namespace stenos
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					// If the back bucket is referenced (possibly by the value to insert), its context cannot be reused
+					RawType* raw = d_buckets.back().ref_count.value() != 0 ? make_or_find_free_context(d_buckets.back().load_decompressed()) : compress_bucket(d_buckets.size() - 1);
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->mark_dirty();
-- 
2.43.0


From f925130028a0e003ff0d95a9502b84852c9e8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 44/59] fix: assigning a const reference wrapper corrupted the
 block reference counts

---
 stenos/cvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 89a3e29..57c426a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -879,6 +879,7 @@ namespace stenos
 			{
 				_bucket()->ref();
 			}
+			ConstRefWrapper& operator=(const ConstRefWrapper&) = delete;
 			STENOS_ALWAYS_INLINE ~ConstRefWrapper() noexcept { _bucket()->unref(); }
 
 			STENOS_ALWAYS_INLINE auto bucket_index() const noexcept -> size_t { return bucket; }
-- 
2.43.0


From 3e6fc9e23f55b6a4634b5298daf68bc3c5db024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 45/59] fix: data races on the modified flag and on the data
 pointer of blocks

---
 stenos/cvector.hpp | 47 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 57c426a..070d769 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -477,8 +477,7 @@ namespace stenos
 			static constexpr size_t invalid_index = std::numeric_limits<size_t>::max();
 
 			unsigned size;					// size is used for front and back buffer
-			volatile unsigned dirty;			// dirty (modified) buffer, use volatile instead of atomic (slightly better performances,
-									// and works all the time since we have an aligned 32 bit variable).
+			std::atomic<unsigned> dirty;			// dirty (modified) buffer, might be set by several threads modifying different elements
 			size_t block_index;				// block index in list of blocks
 			char* buffer;					// compressed buffer
 			alignas(alignof(T)) char storage[storage_size]; // data storage, aligned on 16 bytes at least
@@ -493,11 +492,9 @@ namespace stenos
 				// while NOY being reused for another bucket since
 				// mark_dirty() is only called when the bucket is locked.
 
-				// if (!dirty.load(std::memory_order_relaxed))
-				//	dirty.store(1, std::memory_order_relaxed);
-				dirty = 1;
+				dirty.store(1, std::memory_order_relaxed);
 			}
-			STENOS_ALWAYS_INLINE void mark_not_dirty() noexcept { dirty = 0; }
+			STENOS_ALWAYS_INLINE void mark_not_dirty() noexcept { dirty.store(0, std::memory_order_relaxed); }
 
 			template<class CompressVec>
 			STENOS_ALWAYS_INLINE void mark_dirty(CompressVec* vec) noexcept
@@ -525,7 +522,7 @@ namespace stenos
 			void reset() noexcept
 			{
 				size = 0;
-				dirty = 0;
+				mark_not_dirty();
 				block_index = invalid_index;
 				buffer = nullptr;
 			}
@@ -643,8 +640,10 @@ namespace stenos
 		template<class T, unsigned block_size>
 		class TagPointer
 		{
-			volatile uintptr_t d_ptr = 0; // Not certain volatile is mandatory
-			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr; }
+			// Might be read by other threads while a block is being decompressed
+			std::atomic<uintptr_t> d_ptr{ 0 };
+			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr.load(std::memory_order_acquire); }
+			STENOS_ALWAYS_INLINE void store(uintptr_t ptr) noexcept { d_ptr.store(ptr, std::memory_order_release); }
 
 		public:
 			constexpr TagPointer() = default;
@@ -652,15 +651,29 @@ namespace stenos
 			  : d_ptr((uintptr_t)p | type)
 			{
 			}
-			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept { return (d_ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr); }
-			STENOS_ALWAYS_INLINE char* compressed() const noexcept { return (d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : nullptr; }
+			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept
+			{
+				const uintptr_t ptr = load();
+				return (ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(ptr);
+			}
+			STENOS_ALWAYS_INLINE char* compressed() const noexcept
+			{
+				const uintptr_t ptr = load();
+				return (ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : nullptr;
+			}
 			STENOS_ALWAYS_INLINE char* find_compressed() const noexcept
 			{
-				return d_ptr ? ((d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr)->buffer) : nullptr;
+				const uintptr_t ptr = load();
+				return ptr ? ((ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(ptr)->buffer) : nullptr;
+			}
+			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { store((uintptr_t)p | type); }
+			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept
+			{
+				const uintptr_t ptr = load();
+				store(other.load());
+				other.store(ptr);
 			}
-			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr = (uintptr_t)p | type; }
-			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept { std::swap(d_ptr, other.d_ptr); }
-			STENOS_ALWAYS_INLINE operator bool() const noexcept { return d_ptr != 0; }
+			STENOS_ALWAYS_INLINE operator bool() const noexcept { return load() != 0; }
 		};
 
 		/// @brief Compressed buffer class
@@ -717,7 +730,7 @@ namespace stenos
 		{
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
-			res->dirty = 0;
+			res->mark_not_dirty();
 			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
@@ -1864,7 +1877,7 @@ namespace stenos
 					this->decompress(pack, raw->storage);
 					raw->block_index = index;
 					raw->buffer = pack->data.find_compressed();
-					raw->dirty = 0;
+					raw->mark_not_dirty();
 					raw->size = block_size;
 					// Publish the decompressed block last: other threads might use it right away
 					pack->data.set(raw, Raw);
-- 
2.43.0


From 7330d7d04401dcd0ff54c3d81b212185e096dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 46/59] fix: an element changed by an assignment that throws
 was not marked as modified

---
 stenos/cvector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 070d769..148d816 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -953,14 +953,15 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void set(const T& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = obj;
+				// Mark as dirty beforehand, as the assignment might modify the object and throw
 				raw->mark_dirty();
+				raw->at(this->bpos) = obj;
 			}
 			STENOS_ALWAYS_INLINE void set(T&& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = std::move(obj);
 				raw->mark_dirty();
+				raw->at(this->bpos) = std::move(obj);
 			}
 
 			STENOS_ALWAYS_INLINE operator const T&() const { return this->get(); }
-- 
2.43.0


From 943f0ce33c35f8b9b7aa55b506a9b8adc55fc26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 47/59] fix: reverse iterators returned a reference to a
 destroyed iterator

---
 stenos/cvector.hpp | 131 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 129 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 148d816..f92dcc8 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1358,6 +1358,133 @@ namespace stenos
 			return a.abspos >= b.abspos;
 		}
 
+		/// @brief Reverse iterator type for cvector.
+		///
+		/// cvector iterators hold the reference wrapper they return (stashing iterators). Therefore std::reverse_iterator
+		/// cannot be used as it returns a reference to a member of a temporary iterator.
+		template<class Iter>
+		class CompressedReverseIter
+		{
+			Iter d_current;	       // base iterator
+			mutable Iter d_stored; // iterator on the dereferenced element
+
+		public:
+			using iterator_type = Iter;
+			using value_type = typename Iter::value_type;
+			using reference = decltype(*std::declval<const Iter&>());
+			using pointer = typename Iter::pointer;
+			using difference_type = typename Iter::difference_type;
+			using iterator_category = std::random_access_iterator_tag;
+
+			CompressedReverseIter() = default;
+			explicit CompressedReverseIter(const Iter& it)
+			  : d_current(it)
+			{
+			}
+			template<class Other, typename std::enable_if<!std::is_same<Other, Iter>::value && std::is_convertible<const Other&, Iter>::value, bool>::type = true>
+			CompressedReverseIter(const CompressedReverseIter<Other>& other)
+			  : d_current(other.base())
+			{
+			}
+			CompressedReverseIter(const CompressedReverseIter& other)
+			  : d_current(other.d_current)
+			{
+			}
+			CompressedReverseIter& operator=(const CompressedReverseIter& other)
+			{
+				d_current = other.d_current;
+				d_stored = Iter();
+				return *this;
+			}
+
+			Iter base() const { return d_current; }
+			reference operator*() const
+			{
+				const auto diff = (d_current - d_stored) - 1;
+				if (d_stored.c() != d_current.c())
+					(d_stored = d_current) -= 1;
+				else if (diff)
+					d_stored += diff;
+				return *d_stored;
+			}
+			auto operator->() const
+			{
+				(void)**this;
+				return d_stored.operator->();
+			}
+			auto operator[](difference_type diff) const { return d_current[-diff - 1]; }
+			CompressedReverseIter& operator++()
+			{
+				--d_current;
+				return *this;
+			}
+			CompressedReverseIter operator++(int)
+			{
+				CompressedReverseIter tmp = *this;
+				--d_current;
+				return tmp;
+			}
+			CompressedReverseIter& operator--()
+			{
+				++d_current;
+				return *this;
+			}
+			CompressedReverseIter operator--(int)
+			{
+				CompressedReverseIter tmp = *this;
+				++d_current;
+				return tmp;
+			}
+			CompressedReverseIter& operator+=(difference_type diff)
+			{
+				d_current -= diff;
+				return *this;
+			}
+			CompressedReverseIter& operator-=(difference_type diff)
+			{
+				d_current += diff;
+				return *this;
+			}
+			CompressedReverseIter operator+(difference_type diff) const { return CompressedReverseIter(d_current - diff); }
+			CompressedReverseIter operator-(difference_type diff) const { return CompressedReverseIter(d_current + diff); }
+			friend CompressedReverseIter operator+(difference_type diff, const CompressedReverseIter& it) { return it + diff; }
+		};
+		template<class I1, class I2>
+		auto operator-(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return b.base() - a.base();
+		}
+		template<class I1, class I2>
+		bool operator==(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return a.base() == b.base();
+		}
+		template<class I1, class I2>
+		bool operator!=(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return a.base() != b.base();
+		}
+		template<class I1, class I2>
+		bool operator<(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return b.base() < a.base();
+		}
+		template<class I1, class I2>
+		bool operator>(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return b.base() > a.base();
+		}
+		template<class I1, class I2>
+		bool operator<=(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return b.base() <= a.base();
+		}
+		template<class I1, class I2>
+		bool operator>=(const CompressedReverseIter<I1>& a, const CompressedReverseIter<I2>& b)
+		{
+			return b.base() >= a.base();
+		}
+
 		template<unsigned block_bytes>
 		static STENOS_ALWAYS_INLINE void* get_compression_buffer() noexcept
 		{
@@ -2471,8 +2598,8 @@ namespace stenos
 		using allocator_type = Allocator;
 		using iterator = typename internal_type::iterator;
 		using const_iterator = typename internal_type::const_iterator;
-		using reverse_iterator = std::reverse_iterator<iterator>;
-		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
+		using reverse_iterator = detail::CompressedReverseIter<iterator>;
+		using const_reverse_iterator = detail::CompressedReverseIter<const_iterator>;
 		using lock_type = detail::SharedSpinner;
 
 		// Value type returned by at() and operator[]
-- 
2.43.0


From c829b413c4a15d4ee807f34a97bbd80f382c4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 48/59] fix: std::copy inside a cvector and operator-> of non
 const iterators did not compile

---
 stenos/cvector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f92dcc8..e1690bf 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -977,6 +977,7 @@ namespace stenos
 				}
 				return *this;
 			}
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return (*this) = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
@@ -1238,8 +1239,8 @@ namespace stenos
 			using value_type = typename base_type::value_type;
 			using reference = ref_type&;
 			using const_reference = const_ref_type&;
-			using pointer = value_type*;
-			using const_pointer = const value_type*;
+			using pointer = typename base_type::pointer;
+			using const_pointer = typename base_type::const_pointer;
 			using difference_type = typename Compressed::difference_type;
 			using iterator_category = std::random_access_iterator_tag;
 			using size_type = size_t;
-- 
2.43.0


From d000b53f21a436920e77dd9f124faad05953e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 49/59] fix: lack of memory in the zstd decoder was reported as
 invalid input

---
 stenos/internal/stenos.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 6b81e07..a56f53d 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -687,6 +687,12 @@ namespace stenos
 		return compress_memcpy(src, bytes, _dst, dst_size);
 	}
 
+	static STENOS_ALWAYS_INLINE size_t zstd_decompress_error(size_t r) noexcept
+	{
+		// Error code for a failed zstd decompression: lack of memory says nothing about the input
+		return ZSTD_getErrorCode(r) == ZSTD_error_memory_allocation ? STENOS_ERROR_ALLOC : STENOS_ERROR_INVALID_INPUT;
+	}
+
 	static STENOS_ALWAYS_INLINE size_t
 	decompress_generic_superblock(stenos_context_s* ctx, uint8_t code, const uint8_t* src, size_t bytesoftype, size_t csize, uint8_t* dst, size_t dsize, CBuffer*& buffer) noexcept
 	{
@@ -704,7 +710,7 @@ namespace stenos
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
 				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
-					return STENOS_ERROR_INVALID_INPUT;
+					return zstd_decompress_error(r);
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
 				// zstd on transposed input
@@ -714,7 +720,7 @@ namespace stenos
 					return STENOS_ERROR_ALLOC;
 				auto r = ZSTD_decompress(buffer->bytes, dsize, src, csize);
 				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
-					return STENOS_ERROR_INVALID_INPUT;
+					return zstd_decompress_error(r);
 				unshuffle(bytesoftype, dsize, (uint8_t*)buffer->bytes, dst);
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_DELTA_ZSTD: {
@@ -726,7 +732,7 @@ namespace stenos
 				// Decomrpess to dst
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
 				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
-					return STENOS_ERROR_INVALID_INPUT;
+					return zstd_decompress_error(r);
 				// Byte delta inverse to buffer
 				delta_inv(dst, buffer->bytes, dsize);
 				// Unshuffle to dst
@@ -740,7 +746,7 @@ namespace stenos
 				// zstd decompression
 				auto r = ZSTD_decompress(buffer->bytes, ctx->superblock_size, src, csize);
 				if STENOS_UNLIKELY (ZSTD_isError(r))
-					return STENOS_ERROR_INVALID_INPUT;
+					return zstd_decompress_error(r);
 				// block decompression
 				r = block_decompress_generic(buffer->bytes, r, bytesoftype, dsize, dst);
 				if STENOS_UNLIKELY (has_error(r))
-- 
2.43.0


From bdcb9191c13f9e6fd432bc31c2bd8d970a5f64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 50/59] fix: an element that throws while being copied into the
 iterator of assign(count) or insert(count) terminated the program

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e1690bf..1fdc869 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -231,11 +231,11 @@ namespace stenos
 		using pointer = typename alloc_traits::const_pointer;
 		using reference = const value_type&;
 
-		explicit cvalue_iterator(size_type _pos) noexcept
+		explicit cvalue_iterator(size_type _pos) noexcept(std::is_nothrow_default_constructible<T>::value)
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From 6e206357287afc2e80e19ade5cde5c9abcc25b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 51/59] fix: assigning or swapping elements of different
 cvectors read outside of the block array

---
 stenos/cvector.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 1fdc869..55d1a68 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -856,6 +856,11 @@ namespace stenos
 					decompressed = _c()->decompress_bucket(bucket, exclude);
 				return decompressed;
 			}
+			// Decompress this block while keeping the one of other, which might belong to another container
+			STENOS_ALWAYS_INLINE auto decompress_with(const ConstRefWrapper& other) const
+			{
+				return decompress_if_needed(other.c == c ? other.bucket : static_cast<size_t>(-1));
+			}
 
 			STENOS_ALWAYS_INLINE bool move_inside_block(std::ptrdiff_t val)
 			{
@@ -970,8 +975,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(const base_type& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_with(other);
+					auto raw_other = other.decompress_with(*this);
 					raw_this->mark_dirty();
 					raw_this->at(this->bpos) = raw_other->at(other.bpos);
 				}
@@ -981,8 +986,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_with(other);
+					auto raw_other = other.decompress_with(*this);
 					if (!std::is_trivially_move_assignable<T>::value)
 						raw_other->mark_dirty();
 					raw_this->mark_dirty();
@@ -1013,8 +1018,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void swap(RefWrapper& other)
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_with(other);
+					auto raw_other = other.decompress_with(*this);
 					raw_this->mark_dirty();
 					raw_other->mark_dirty();
 					std::swap(raw_this->at(this->bpos), raw_other->at(other.bpos));
-- 
2.43.0


From 7c0f59b6b4c745739338f4640334ccb023df2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 52/59] fix: resize stored a whole block on the stack, which
 overflowed with big blocks

---
 stenos/cvector.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 55d1a68..5ace762 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1566,7 +1566,8 @@ namespace stenos
 				if (stenos_has_error(r))
 					STENOS_ABORT("cvector: abort on compression error") // no way to recover from this
 #ifndef NDEBUG
-				char out[block_bytes];
+				std::unique_ptr<char[]> check(new char[block_bytes]); // might be too big for the stack
+				char* out = check.get();
 				size_t r2 = stenos_private_decompress_block(d_ctx, compression_buffer(), sizeof(T), block_bytes, r, out, bytes ? bytes : block_bytes);
 				STENOS_ASSERT_DEBUG(r2 == (bytes != 0 ? bytes : block_bytes), "");
 				STENOS_ASSERT_DEBUG(memcmp(in, out, bytes ? bytes : block_bytes) == 0, "");
@@ -2185,8 +2186,9 @@ namespace stenos
 					// fill by chunks of block_size elements
 					if (new_size > block_size) {
 
-						// temporary storage for chunks of block_size elements
-						RawType raw;
+						// temporary storage for chunks of block_size elements (might be too big for the stack)
+						std::unique_ptr<RawType> chunk(new RawType);
+						RawType& raw = *chunk;
 						raw.size = 0;
 
 						while (size() < new_size - block_size) {
@@ -2237,8 +2239,9 @@ namespace stenos
 					// fill by chunks of block_size elements
 					if (new_size > block_size) {
 
-						// temporary storage for chunks of block_size elements
-						RawType raw;
+						// temporary storage for chunks of block_size elements (might be too big for the stack)
+						std::unique_ptr<RawType> chunk(new RawType);
+						RawType& raw = *chunk;
 						raw.size = 0;
 
 						while (size() < new_size - block_size) {
-- 
2.43.0


From c42def4723340641a31cc30ed36b727337b542ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 53/59] fix: elements with extended alignment were stored in
 misaligned blocks

---
 stenos/cvector.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5ace762..21856bf 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -724,11 +724,11 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void unref() noexcept { ref_count.unlock_shared(); }
 		};
 
-		///@brief Create a raw buffer aligned on 16 bytes
+		///@brief Create a raw buffer (al must be an allocator of RawBuffer in order to respect its alignment)
 		template<class T, unsigned block_size, class Alloc>
 		static auto make_raw_buffer(Alloc al) -> RawBuffer<T, block_size>*
 		{
-			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
+			RawBuffer<T, block_size>* res = al.allocate(1);
 			res->size = 0;
 			res->mark_not_dirty();
 			res->block_index = RawBuffer<T, block_size>::invalid_index;
@@ -1692,14 +1692,14 @@ namespace stenos
 					}
 				}
 
-				RebindAlloc<char> al(*this);
+				RebindAlloc<RawType> al(*this);
 
 				// Free all decompression contexts
 				for (auto it = d_contexts.begin(); it != d_contexts.end();) {
 					auto next = it;
 					++next;
 					RawType* r = (RawType*)*it;
-					al.deallocate(reinterpret_cast<char*>(r), sizeof(RawType));
+					al.deallocate(r, 1);
 					it = next;
 				}
 
@@ -1712,7 +1712,7 @@ namespace stenos
 			/// @brief Returns a new raw buffer, might throw
 			auto make_raw() -> RawType*
 			{
-				RebindAlloc<char> al(*this);
+				RebindAlloc<RawType> al(*this);
 				return make_raw_buffer<T, block_size>(al);
 			}
 
@@ -1803,8 +1803,8 @@ namespace stenos
 					}
 					else {
 						// Free decompression context
-						RebindAlloc<char> al(*this);
-						al.deallocate(reinterpret_cast<char*>(raw), sizeof(RawType));
+						RebindAlloc<RawType> al(*this);
+						al.deallocate(raw, 1);
 					}
 				}
 
@@ -2070,8 +2070,8 @@ namespace stenos
 			void erase_context(RawType* r)
 			{
 				d_contexts.erase(r);
-				RebindAlloc<char> al(*this);
-				al.deallocate(reinterpret_cast<char*>(r), sizeof(RawType));
+				RebindAlloc<RawType> al(*this);
+				al.deallocate(r, 1);
 			}
 			void deallocate_buffer(size_t index) noexcept
 			{
-- 
2.43.0


From 660fd1d1ff27cb249abad72f171439117601701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 54/59] fix: the thread pool had no worker when the number of
 cores is unknown

---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index ea2722d..dfae484 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -270,7 +270,7 @@ namespace stenos
 				processing = 1;
 				threads.resize(1);
 			}
-			for (unsigned i = 0; i < nthreads; ++i)
+			for (size_t i = 0; i < threads.size(); ++i)
 				threads[i] = std::thread([this]() { this->do_work(); });
 		}
 		~tiny_pool() noexcept
-- 
2.43.0


From 782a6b573537c51a7242359005c29683b8b753be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 55/59] fix: compressing in a destructor at thread or program
 exit used freed thread local buffers

---
 stenos/internal/block_compress.h | 79 +++++++++++++++++++++-----------
 stenos/internal/zstd_wrapper.h   | 36 +++++++++------
 2 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 34fca24..8a5635d 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -907,42 +907,65 @@ namespace stenos
 
 	} // end namespace detail
 
-	static inline void* make_compression_buffer(size_t size) noexcept
+	/// @brief Buffer for block compression/decompression aligned on 16 bytes.
+	/// Uses a thread local buffer if possible. This is not possible anymore when called by the destructor
+	/// of another thread local (or static) object, after the destruction of the thread local buffer.
+	class CompressionBuffer
 	{
-		// Create buffer for block compression aligned on 16 bytes
-		struct CompressedBuffer
-		{
-			void* buffer;
-			size_t size;
-			CompressedBuffer()
-			  : buffer(nullptr)
-			  , size(0)
-			{
-			}
-			~CompressedBuffer()
+		void* d_buffer;
+		bool d_owned;
+
+	public:
+		explicit CompressionBuffer(size_t size) noexcept
+		{
+			// Trivially destructible: remain valid after the destruction of the guard
+			static thread_local void* buffer = nullptr;
+			static thread_local size_t buffer_size = 0;
+			static thread_local bool closed = false;
+			struct Guard
 			{
-				if (buffer)
-					stenos::aligned_free(buffer);
-			}
-		};
+				~Guard()
+				{
+					if (buffer)
+						stenos::aligned_free(buffer);
+					buffer = nullptr;
+					buffer_size = 0;
+					closed = true;
+				}
+			};
 #ifdef __clang__
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wexit-time-destructors"
 #endif
-		// Try to reuse thread local buffer if possible
-		static thread_local CompressedBuffer buf;
+			static thread_local Guard guard;
+			(void)guard;
 #ifdef __clang__
 #pragma clang diagnostic pop
 #endif
+			d_owned = closed;
+			if (closed) {
+				d_buffer = stenos::aligned_malloc(size, 16);
+				return;
+			}
 
-		if (buf.size < size) {
-			if (buf.buffer)
-				stenos::aligned_free(buf.buffer);
-			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = buf.buffer ? size : 0;
+			if (buffer_size < size) {
+				if (buffer)
+					stenos::aligned_free(buffer);
+				buffer = stenos::aligned_malloc(size, 16);
+				buffer_size = buffer ? size : 0;
+			}
+			d_buffer = buffer;
 		}
-		return buf.buffer;
-	}
+		~CompressionBuffer() noexcept
+		{
+			if (d_owned && d_buffer)
+				stenos::aligned_free(d_buffer);
+		}
+		CompressionBuffer(const CompressionBuffer&) = delete;
+		CompressionBuffer& operator=(const CompressionBuffer&) = delete;
+
+		void* get() const noexcept { return d_buffer; }
+	};
 
 	static inline size_t block_compress_partial(const void* STENOS_RESTRICT __src,
 						    size_t bytesoftype,
@@ -1134,7 +1157,8 @@ namespace stenos
 			clevel = FindCLevel(t.total_bytes, t.nanoseconds);
 		}
 
-		void* buff_src = make_compression_buffer(detail::compression_buffer_size(bytesoftype));
+		CompressionBuffer buffer(detail::compression_buffer_size(bytesoftype));
+		void* buff_src = buffer.get();
 		if STENOS_UNLIKELY (!buff_src)
 			return STENOS_ERROR_ALLOC;
 
@@ -2119,7 +2143,8 @@ namespace stenos
 			return STENOS_ERROR_SRC_OVERFLOW;
 
 		// We need a buffer for unshuffle
-		uint8_t* buf = (uint8_t*)make_compression_buffer(block_size);
+		CompressionBuffer buffer(block_size);
+		uint8_t* buf = (uint8_t*)buffer.get();
 		if STENOS_UNLIKELY (!buf)
 			return STENOS_ERROR_ALLOC;
 
diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index c042996..3f950ff 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -58,29 +58,37 @@ namespace stenos
 	// ZSTD compression with optional dictionary
 	static STENOS_ALWAYS_INLINE size_t zstd_compress_with_context(void* dst, size_t dstCapacity, const void* src, size_t srcSize, int level, ZSTD_CDict* dict = nullptr) noexcept
 	{
-		// Compress by reusing a thread local ZSTD_CCtx
-		struct ZSTDContext
+		// Compress by reusing a thread local ZSTD_CCtx.
+		// Both variables are trivially destructible, and remain valid if this function is called by the destructor
+		// of another thread local (or static) object, after the destruction of the guard.
+		static thread_local ZSTD_CCtx* ctx = nullptr;
+		static thread_local bool closed = false;
+		struct ZSTDGuard
 		{
-			ZSTD_CCtx* ctx{ nullptr };
-			ZSTDContext()
-			  : ctx(ZSTD_createCCtx())
+			~ZSTDGuard()
 			{
-			}
-			~ZSTDContext()
-			{
-				if (ctx)
-					ZSTD_freeCCtx(ctx);
+				ZSTD_freeCCtx(ctx);
+				ctx = nullptr;
+				closed = true;
 			}
 		};
-		thread_local ZSTDContext ctx;
-		if (!ctx.ctx && !(ctx.ctx = ZSTD_createCCtx()))
+		static thread_local ZSTDGuard guard;
+		(void)guard;
+
+		ZSTD_CCtx* cctx = ctx ? ctx : ZSTD_createCCtx();
+		if (!cctx)
 			return STENOS_ERROR_ALLOC;
+		if (!closed)
+			ctx = cctx;
 
 		size_t r = 0;
 		if (dict)
-			r = ZSTD_compress_usingCDict(ctx.ctx, dst, dstCapacity, src, srcSize, dict);
+			r = ZSTD_compress_usingCDict(cctx, dst, dstCapacity, src, srcSize, dict);
 		else
-			r = ZSTD_compressCCtx(ctx.ctx, dst, dstCapacity, src, srcSize, zstd_from_reduced_level(level));
+			r = ZSTD_compressCCtx(cctx, dst, dstCapacity, src, srcSize, zstd_from_reduced_level(level));
+
+		if (closed)
+			ZSTD_freeCCtx(cctx);
 
 		if (ZSTD_getErrorCode(r) == ZSTD_error_dstSize_tooSmall)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From fda1ff905070a698c8e855d35664db263f20ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 56/59] fix: using the library before its static initialization
 called a null shuffle function

---
 stenos/internal/shuffle.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/shuffle.cpp b/stenos/internal/shuffle.cpp
index d9eae49..cace386 100644
--- a/stenos/internal/shuffle.cpp
+++ b/stenos/internal/shuffle.cpp
@@ -74,8 +74,12 @@ namespace stenos
 	}
 
 	/*  The dynamically-chosen shuffle/unshuffle implementation.
-	    This is only safe to use once `implementation_initialized` is set. */
-	static shuffle_implementation_t host_implementation = get_shuffle_implementation();
+	    Initialized on first use, which might happen before the initialization of the static variables of this file. */
+	static STENOS_ALWAYS_INLINE const shuffle_implementation_t& host_implementation() noexcept
+	{
+		static const shuffle_implementation_t impl = get_shuffle_implementation();
+		return impl;
+	}
 
 	/*  Shuffle a block by dynamically dispatching to the appropriate
 	    hardware-accelerated routine at run-time. */
@@ -86,7 +90,7 @@ namespace stenos
 		if (bytesoftype == 1)
 			memcpy((void*)_dest, _src, blocksize);
 		else
-			(host_implementation.shuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
+			(host_implementation().shuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
 	}
 
 	/*  Unshuffle a block by dynamically dispatching to the appropriate
@@ -98,7 +102,7 @@ namespace stenos
 		if (bytesoftype == 1)
 			memcpy((void*)_dest, _src, blocksize);
 		else
-			(host_implementation.unshuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
+			(host_implementation().unshuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
 	}
 
 }
-- 
2.43.0


From 05d50e38780b05e96b55f34da96738bcdded8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 57/59] fix: the thread pool was used before its creation or
 after its destruction

---
 stenos/internal/stenos.cpp | 47 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index a56f53d..150e79e 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -767,16 +767,27 @@ namespace stenos
 		return dsize;
 	}
 
-	static inline stenos::tiny_pool& get_pool()
+	// Returns the static thread pool, or null once it was destroyed at program exit
+	static inline stenos::tiny_pool* get_pool()
 	{
+		// Trivially destructible, remains valid after the destruction of the pool
+		static std::atomic<bool> closed{ false };
+		struct Pool : stenos::tiny_pool
+		{
+			using stenos::tiny_pool::tiny_pool;
+			~Pool() { closed.store(true); }
+		};
+
 		// Create static thread pool
-		static stenos::tiny_pool pool(std::thread::hardware_concurrency() * 2u);
-		return pool;
+		static Pool pool(std::thread::hardware_concurrency() * 2u);
+		return closed.load() ? nullptr : &pool;
 	}
 
-	// Global thread pool used for multithreaded compression/decompression.
 	// Make sure that threads are created at program initialization.
-	static stenos::tiny_pool* pool = &get_pool();
+	static const struct InitPool
+	{
+		InitPool() { get_pool(); }
+	} init_pool;
 
 }
 
@@ -896,7 +907,9 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	if STENOS_UNLIKELY (dst > dst_end)
 		return STENOS_ERROR_DST_OVERFLOW;
 
-	if (opts->threads <= 1 || super_block_count == 1) {
+	// Global thread pool used for multithreaded compression
+	stenos::tiny_pool* pool = opts->threads > 1 ? stenos::get_pool() : nullptr;
+	if (!pool || super_block_count == 1) {
 
 		// Mono thread compression
 
@@ -949,7 +962,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 
 		// Parallel compression using a thread pool
 		for (int i = 0; i < thread_count; ++i) {
-			if (!stenos::pool->push([&, i]() {
+			if (!pool->push([&, i]() {
 				    size_t idx = (size_t)i;
 				    // Get input pointer
 				    const uint8_t* in = src + idx * opts->superblock_size;
@@ -977,11 +990,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 				    }
 			    })) {
 				// Pushed tasks reference local variables, wait for them
-				stenos::pool->wait();
+				pool->wait();
 				return STENOS_ERROR_ALLOC;
 			}
 		}
-		stenos::pool->wait();
+		pool->wait();
 
 		if (raw_memcpy) {
 			src += memcpy_size.load();
@@ -1013,15 +1026,15 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 
 			// copy to destination in parallel
 			for (int i = 0; i < thread_count; ++i) {
-				if (!stenos::pool->push([&, i]() {
+				if (!pool->push([&, i]() {
 					    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 				    })) {
 					// Pushed tasks reference local variables, wait for them
-					stenos::pool->wait();
+					pool->wait();
 					return STENOS_ERROR_ALLOC;
 				}
 			}
-			stenos::pool->wait();
+			pool->wait();
 		}
 		chunks -= (size_t)thread_count;
 	}
@@ -1143,7 +1156,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// The last superblock is a full one
 		super_block_remaining = opts->superblock_size;
 
-	if (opts->threads <= 1 || super_block_count == 1) {
+	// Global thread pool used for multithreaded decompression
+	stenos::tiny_pool* pool = opts->threads > 1 ? stenos::get_pool() : nullptr;
+	if (!pool || super_block_count == 1) {
 		// Mono thread decompression
 		if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(1)))
 			return STENOS_ERROR_ALLOC;
@@ -1217,16 +1232,16 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 		// Parallel decompress using a thread pool
 		for (int i = 0; i < thread_count; ++i) {
-			if (!stenos::pool->push([&, i]() {
+			if (!pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
 			    })) {
 				// Pushed tasks reference local variables, wait for them
-				stenos::pool->wait();
+				pool->wait();
 				return STENOS_ERROR_ALLOC;
 			}
 		}
-		stenos::pool->wait();
+		pool->wait();
 
 		// Check results
 		for (int i = 0; i < thread_count; ++i) {
-- 
2.43.0


From 4895c8bbb941d36fc8ca3d5cb43ae1681a96c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 58/59] fix: istreambuf_iterator could not be copied, moved or
 passed to algorithms and containers

---
 stenos/cvector.hpp | 48 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 21856bf..dc81cd6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3594,13 +3594,35 @@ namespace stenos
 		{
 		}
 
+		istreambuf_iterator(const istreambuf_iterator& other)
+		  : d_in(other.d_in)
+		  , d_has_value(false)
+		{
+			if (other.d_has_value) {
+				new (d_value) T(*other.value());
+				d_has_value = true;
+			}
+		}
+
 		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
+		  : d_in(other.d_in)
 		  , d_has_value(other.d_has_value)
 		{
 			if (d_has_value)
 				new (d_value) T(std::move(*other.value()));
-			other.d_in = nullptr;
+		}
+
+		istreambuf_iterator& operator=(const istreambuf_iterator& other)
+		{
+			if (this != &other) {
+				discard();
+				d_in = other.d_in;
+				if (other.d_has_value) {
+					new (d_value) T(*other.value());
+					d_has_value = true;
+				}
+			}
+			return *this;
 		}
 
 		~istreambuf_iterator() noexcept
@@ -3626,6 +3648,15 @@ namespace stenos
 			return *this;
 		}
 
+		istreambuf_iterator operator++(int)
+		{
+			if (!d_has_value)
+				read();
+			istreambuf_iterator tmp = *this;
+			increment();
+			return tmp;
+		}
+
 		bool equal(const istreambuf_iterator& right) const
 		{
 			if (!d_has_value && d_in)
@@ -3641,14 +3672,19 @@ namespace stenos
 		T* value() noexcept { return reinterpret_cast<T*>(d_value); }
 		const T* value() const noexcept { return reinterpret_cast<const T*>(d_value); }
 
+		void discard() noexcept
+		{
+			if (d_has_value) {
+				d_has_value = false;
+				value()->~T();
+			}
+		}
+
 		void increment()
 		{
 			// skip to next input element
 			if (d_in) {
-				if (d_has_value) {
-					d_has_value = false;
-					value()->~T();
-				}
+				discard();
 				if (d_in->read(d_value, sizeof(d_value))) {
 					d_has_value = true;
 					return;
-- 
2.43.0


From d5f12d2e898fc50899c748c1785290c0a6c75ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 59/59] fix: incrementing an istreambuf_iterator before its
 first reading did not skip the element

---
 stenos/cvector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index dc81cd6..901d0e6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3682,6 +3682,10 @@ namespace stenos
 
 		void increment()
 		{
+			// the current element might not have been read yet
+			if (!d_has_value)
+				read();
+
 			// skip to next input element
 			if (d_in) {
 				discard();
-- 
2.43.0

