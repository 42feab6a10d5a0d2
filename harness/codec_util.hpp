// Helpers shared by the codec harnesses: a drawn configuration and guarded calls of the public C API.
#pragma once
#include "pbt.hpp"
#include "mem.hpp"
#include "gen.hpp"
#include "stenos/stenos.h"
#include <memory>
#include <sched.h>

namespace cu
{
	using pbt::Case;
	using mem::GBuf;

	inline const char* errname(size_t r)
	{
		switch ((long long)r) {
			case -1:
				return "UNDEFINED";
			case -2:
				return "SRC_OVERFLOW";
			case -3:
				return "ALLOC";
			case -4:
				return "INVALID_INPUT";
			case -5:
				return "INVALID_INSTRUCTION_SET";
			case -6:
				return "DST_OVERFLOW";
			case -7:
				return "INVALID_BYTESOFTYPE";
			case -8:
				return "ZSTD_INTERNAL";
			case -9:
				return "INVALID_PARAMETER";
		}
		static char b[64];
		snprintf(b, sizeof(b), "%lld", (long long)r);
		return b;
	}

	struct Cfg
	{
		size_t bt = 1;
		int level = 1;
		int threads = 1;
		int shift = -1; // custom block size, -1: none
		bool ctx = true;
		size_t elems = 0;
		size_t bytes() const { return bt * elems; }
		int eff_level() const { return level < 0 ? 0 : level > 9 ? 9 : level; }
		size_t sb() const
		{
			size_t block = bt * 256;
			if (shift >= 0)
				return block << shift;
			size_t s = gen::default_superblock(bt);
			if (bytes() > s && eff_level() > 0) {
				int sh = (eff_level() - 1) / 2;
				while (sh > 0 && (s << sh) >= gen::MAX_BLOCK)
					--sh;
				s <<= sh;
			}
			return s;
		}
		// Enough for any outcome with this configuration.
		size_t bound() const
		{
			if (shift < 0)
				return stenos_bound(bytes());
			size_t n = bytes() / sb() + 1;
			return 12 + n * 4 + bytes();
		}
	};

	struct Opts
	{
		int max_level = 9;
		bool threads = true;
		bool custom = true;
		bool out_of_range_levels = true;
		size_t scale = 100; // percentage applied on the size caps
	};

	inline int level(Case& c, const Opts& o)
	{
		size_t k = c.pick({ 34, 26, 10, 10, 8, 6, 3, 3, 2, 2, 1 });
		// order: 1 first (the default), then the others
		static const int map[] = { 1, 2, 3, 0, 4, 5, 6, 7, 8, 9, 100 };
		int l = map[k];
		if (l == 100)
			l = o.out_of_range_levels ? c.one_of<int>({ -1, 10, -1000, 1 << 30 }) : 1;
		if (l > o.max_level && l < 10)
			l = o.max_level;
		return l;
	}

	// Size cap keeping the cost of a case moderate (high levels are slow by design).
	inline size_t size_cap(int level, const Opts& o)
	{
		size_t c = level >= 9 ? 60000 : level >= 7 ? 150000 : level >= 5 ? 300000 : 700000;
		return c * o.scale / 100;
	}

	inline Cfg config(Case& c, const Opts& o = Opts())
	{
		Cfg k;
		k.bt = gen::element_size(c);
		k.level = level(c, o);
		k.ctx = true;
		if (o.threads && c.prob(35))
			k.threads = (int)c.pick({ 0, 0, 30, 20, 15, 5, 5, 5, 10, 3, 3, 3, 3, 1, 1, 1, 3 });
		if (k.threads == 0)
			k.threads = 1;
		if (o.custom && c.prob(30)) {
			int maxs = 0;
			while (maxs < 15 && (k.bt * 256ull << (maxs + 1)) < gen::MAX_BLOCK)
				++maxs;
			k.shift = (int)std::min<uint64_t>((uint64_t)maxs, c.pick({ 30, 20, 14, 10, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1 }));
		}
		if (k.threads == 1 && k.shift < 0)
			k.ctx = !c.prob(40);
		// size
		size_t cap = size_cap(k.eff_level(), o);
		bool huge = c.rare(12);
		if (huge)
			cap *= 8;
		size_t sb_elems;
		if (k.shift >= 0)
			sb_elems = 256ull << k.shift;
		else {
			sb_elems = gen::default_superblock(k.bt) / k.bt;
			int sh = k.eff_level() ? (k.eff_level() - 1) / 2 : 0;
			if (sh && c.prob(60))
				sb_elems <<= sh;
		}
		// one full superblock must be reachable for large elements as well
		// (zstd needs a second per megabyte for some contents at level 9)
		if (cap < 3 * k.bt * 256)
			cap = std::max<size_t>(cap, std::min<size_t>(3 * k.bt * 256, k.eff_level() >= 9 ? 3u << 20 : k.eff_level() >= 7 ? 17u << 20 : 50u << 20));
		if (k.bt > 2000 && !c.prob(25))
			cap = std::min<size_t>(cap, k.bt * 40);
		k.elems = gen::elements(c, k.bt, sb_elems, cap);
		c.note("bt=%zu elems=%zu bytes=%zu level=%d threads=%d shift=%d ctx=%d", k.bt, k.elems, k.bytes(), k.level, k.threads, k.shift, (int)k.ctx);
		// classes
		size_t sb = k.sb(), n = k.bytes();
		c.label("level:" + std::to_string(k.eff_level()));
		c.label(k.bt == 1 ? "bt:1" : k.bt <= 8 ? "bt:2-8" : k.bt <= 64 ? "bt:9-64" : k.bt <= 512 ? "bt:65-512" : "bt:>512");
		c.label(n == 0                     ? "size:0"
			: n < 128                  ? "size:<128B"
			: k.elems < 256            ? "size:<1block"
			: n <= sb && n % (k.bt * 256) == 0 ? "size:whole-blocks"
			: n <= sb                  ? "size:partial-block"
						   : "size:multi-superblock");
		c.label_if(n && n % sb == 0, "size:exact-superblock-multiple");
		c.label_if(k.threads > 1 && n > sb, "multithreaded");
		c.label_if(k.shift >= 0, "custom-block-size");
		return k;
	}

	struct Ctx
	{
		stenos_context* p;
		Ctx()
		  : p(stenos_make_context())
		{
		}
		~Ctx() { stenos_destroy_context(p); }
		Ctx(const Ctx&) = delete;
		Ctx& operator=(const Ctx&) = delete;
		operator stenos_context*() { return p; }
	};

	inline void apply(stenos_context* x, const Cfg& k)
	{
		stenos_set_level(x, k.level);
		stenos_set_threads(x, k.threads);
		stenos_set_block_size(x, k.shift < 0 ? STENOS_NO_BLOCK_SHIFT : (size_t)k.shift);
	}

	inline size_t compress(const Cfg& k, const void* src, void* dst, size_t dst_size, stenos_context* x = nullptr)
	{
		if (x) {
			apply(x, k);
			return stenos_compress_generic(x, src, k.bt, k.bytes(), dst, dst_size);
		}
		if (!k.ctx)
			return stenos_compress(src, k.bt, k.bytes(), dst, dst_size, k.level);
		Ctx t;
		apply(t, k);
		return stenos_compress_generic(t, src, k.bt, k.bytes(), dst, dst_size);
	}

	// threads: 0 means the context-free function
	inline size_t decompress(int threads, const void* src, size_t bt, size_t n, void* dst, size_t dst_size)
	{
		if (threads == 0)
			return stenos_decompress(src, bt, n, dst, dst_size);
		Ctx t;
		stenos_set_threads(t, threads);
		return stenos_decompress_generic(t, src, bt, n, dst, dst_size);
	}

	inline size_t first_diff(const uint8_t* a, const uint8_t* b, size_t n)
	{
		for (size_t i = 0; i < n; ++i)
			if (a[i] != b[i])
				return i;
		return n;
	}
	inline bool same(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }

	// Frame walking (documented layout: 8 bytes header, +4 for custom block sizes, then 4 bytes per block).
	struct BlockPos
	{
		size_t at;
		uint8_t code;
		size_t csize;
	};
	inline std::vector<BlockPos> walk(const uint8_t* f, size_t n, size_t start)
	{
		std::vector<BlockPos> r;
		size_t i = start;
		while (i + 4 <= n) {
			size_t cs = f[i + 1] | (f[i + 2] << 8) | ((size_t)f[i + 3] << 16);
			r.push_back(BlockPos{ i, f[i], cs });
			i += 4 + cs;
		}
		return r;
	}
	inline void label_codes(Case& c, const uint8_t* f, size_t n)
	{
		if (n < 8)
			return;
		static const char* nm[] = { "?", "block", "zstd", "transposed-zstd", "transposed-delta-zstd", "block+zstd", "copy" };
		for (auto& b : walk(f, n, f[0] == 255 ? 12 : 8))
			if (b.code <= 6)
				c.label(std::string("coded:") + nm[b.code]);
	}

	// Guards memory behind a buffer that is larger than what the call may touch.
	inline bool all_eq(const uint8_t* p, size_t n, const uint8_t* q) { return n == 0 || memcmp(p, q, n) == 0; }
}
