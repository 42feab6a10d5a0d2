// Buffers whose end (or start) touches an unmapped page (plain builds) or a sanitizer red zone (ASan).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifndef VH_ASAN
#define VH_ASAN 0
#endif

namespace mem
{
	struct Arena
	{
		uint8_t* base = nullptr; // first usable byte (after the leading guard page)
		size_t cap = 0;
		bool used = false;
	};

	inline std::vector<Arena>& arenas()
	{
		static std::vector<Arena> a;
		return a;
	}

	// Fixed arenas are reused between cases: no system call per buffer.
	class GBuf
	{
		uint8_t* p_ = nullptr;
		size_t n_ = 0;
		int arena_ = -1;
		void* heap_ = nullptr;
		std::vector<uint8_t> dummy_;

	public:
		GBuf() {}
		// align_end: buffer ends at the guard page (over-run detection), otherwise it starts right behind one.
		// off: (ASan only) start offset from a 16 bytes aligned address, to vary alignment.
		explicit GBuf(size_t n, bool align_end = true, unsigned off = 0) { alloc(n, align_end, off); }
		GBuf(const GBuf&) = delete;
		GBuf& operator=(const GBuf&) = delete;
		~GBuf() { release(); }

		void release()
		{
			if (arena_ >= 0) {
				// Big arenas: give the pages back
				Arena& a = arenas()[(size_t)arena_];
				if (n_ > (8u << 20))
					madvise(a.base, a.cap, MADV_DONTNEED);
				a.used = false;
			}
			arena_ = -1;
			free(heap_);
			heap_ = nullptr;
			p_ = nullptr;
			n_ = 0;
		}

		void alloc(size_t n, bool align_end = true, unsigned off = 0)
		{
			release();
			n_ = n;
			if (VH_ASAN) {
				off &= 15;
				heap_ = malloc(n + off);
				if (n + off == 0) {
					free(heap_);
					heap_ = malloc(1);
					p_ = (uint8_t*)heap_ + 1;
					return;
				}
				p_ = (uint8_t*)heap_ + off;
				return;
			}
			const size_t page = 4096;
			size_t best = (size_t)-1;
			for (size_t i = 0; i < arenas().size(); ++i) {
				Arena& a = arenas()[i];
				if (!a.used && a.cap >= n && (best == (size_t)-1 || a.cap < arenas()[best].cap))
					best = i;
			}
			if (best != (size_t)-1 && arenas()[best].cap > 16 * (n + 65536))
				best = (size_t)-1; // do not waste a huge arena on a small buffer
			if (best == (size_t)-1) {
				size_t cap = 65536;
				while (cap < n)
					cap *= 4;
				uint8_t* m = (uint8_t*)mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (m == MAP_FAILED)
					abort();
				if (mprotect(m + page, cap, PROT_READ | PROT_WRITE) != 0)
					abort();
				arenas().push_back(Arena{ m + page, cap, false });
				best = arenas().size() - 1;
			}
			Arena& a = arenas()[best];
			a.used = true;
			arena_ = (int)best;
			p_ = align_end ? a.base + a.cap - n : a.base;
		}
		uint8_t* data() { return p_; }
		const uint8_t* data() const { return p_; }
		size_t size() const { return n_; }
	};

	inline void fill(uint8_t* p, size_t n, uint64_t seed)
	{
		uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
		size_t i = 0;
		for (; i + 8 <= n; i += 8) {
			x ^= x << 13;
			x ^= x >> 7;
			x ^= x << 17;
			memcpy(p + i, &x, 8);
		}
		for (; i < n; ++i) {
			x ^= x << 13;
			x ^= x >> 7;
			x ^= x << 17;
			p[i] = (uint8_t)x;
		}
	}
}
