// C12: frames cross instruction sets. C16: frames cross versions (the reference copy of the library).
// The builds of the library are shared objects loaded side by side; this executable links none of them.
#include "pbt.hpp"
#include "mem.hpp"
#include "gen.hpp"
#include <dlfcn.h>

typedef struct stenos_context_s stenos_context_o;

namespace
{
	using pbt::Case;
	using mem::GBuf;

	bool is_err(size_t r) { return r > (size_t)-100; }

	struct Lib
	{
		std::string name;
		bool ok = false;
		stenos_context_o* (*make)() = nullptr;
		void (*destroy)(stenos_context_o*) = nullptr;
		size_t (*set_level)(stenos_context_o*, int) = nullptr;
		size_t (*set_threads)(stenos_context_o*, int) = nullptr;
		size_t (*set_block)(stenos_context_o*, size_t) = nullptr;
		size_t (*comp)(stenos_context_o*, const void*, size_t, size_t, void*, size_t) = nullptr;
		size_t (*decomp)(stenos_context_o*, const void*, size_t, size_t, void*, size_t) = nullptr;
		size_t (*bound)(size_t) = nullptr;
		size_t (*info)(const void*, size_t, size_t, void*) = nullptr;

		template<class F>
		bool sym(void* h, F& f, const char* n)
		{
			f = (F)dlsym(h, n);
			return f != nullptr;
		}
		void load(const char* nm, const char* env)
		{
			name = nm;
			const char* p = getenv(env);
			if (!p || !*p)
				return;
			void* h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
			if (!h) {
				fprintf(stderr, "dlopen %s: %s\n", p, dlerror());
				_exit(3);
			}
			ok = sym(h, make, "stenos_make_context") && sym(h, destroy, "stenos_destroy_context") && sym(h, set_level, "stenos_set_level") && sym(h, set_threads, "stenos_set_threads") &&
			     sym(h, set_block, "stenos_set_block_size") && sym(h, comp, "stenos_compress_generic") && sym(h, decomp, "stenos_decompress_generic") && sym(h, bound, "stenos_bound") &&
			     sym(h, info, "stenos_get_info");
			if (!ok) {
				fprintf(stderr, "%s: missing functions\n", p);
				_exit(3);
			}
		}
	};

	struct Info
	{
		size_t decompressed_size, superblock_size;
	};

	std::vector<Lib>& isa()
	{
		static std::vector<Lib> v = [] {
			std::vector<Lib> r;
			static const char* n[][2] = { { "x86-64", "LIB_X64" }, { "sse4.1", "LIB_SSE41" }, { "avx2", "LIB_AVX2" }, { "native", "LIB_NATIVE" },
						      { "native without BMI2", "LIB_RUN1" }, { "native without AVX2", "LIB_RUN2" }, { "native without SSE4.1", "LIB_RUN3" }, { "native without SIMD", "LIB_RUN4" } };
			for (auto& e : n) {
				Lib l;
				l.load(e[0], e[1]);
				if (l.ok)
					r.push_back(l);
			}
			return r;
		}();
		return v;
	}
	Lib& ref()
	{
		static Lib l = [] {
			Lib r;
			r.load("reference", "LIB_REF");
			return r;
		}();
		return l;
	}

	struct In
	{
		size_t bt = 1, n = 0;
		int level = 1, threads = 1;
		size_t shift = (size_t)-1;
	};

	In draw(Case& c)
	{
		In k;
		k.bt = gen::element_size(c);
		k.level = (int)c.pick({ 6, 40, 25, 8, 6, 5, 4, 3, 2, 1 });
		if (c.prob(20))
			k.threads = (int)c.range(2, 5);
		if (c.prob(25)) {
			size_t s = c.draw(4);
			while (s && ((k.bt * 256) << s) >= gen::MAX_BLOCK)
				--s;
			k.shift = s;
		}
		size_t cap = k.level >= 7 ? 60000 : k.level >= 4 ? 150000 : 250000;
		if (c.rare(12))
			cap *= 6;
		size_t sb = k.shift != (size_t)-1 ? 256ull << k.shift : gen::default_superblock(k.bt) / k.bt;
		if (cap < 3 * k.bt * 256)
			cap = std::max<size_t>(cap, std::min<size_t>(3 * k.bt * 256, k.level >= 9 ? 3u << 20 : k.level >= 7 ? 17u << 20 : 50u << 20));
		if (k.bt > 2000 && !c.prob(20))
			cap = std::min<size_t>(cap, k.bt * 40);
		k.n = k.bt * gen::elements(c, k.bt, sb, cap);
		c.note("bt=%zu bytes=%zu level=%d threads=%d shift=%zd", k.bt, k.n, k.level, k.threads, (ssize_t)k.shift);
		c.label("level:" + std::to_string(k.level));
		c.label(k.bt == 1 ? "bt:1" : k.bt <= 8 ? "bt:2-8" : k.bt <= 64 ? "bt:9-64" : k.bt <= 512 ? "bt:65-512" : "bt:>512");
		return k;
	}

	size_t cap_of(const In& k) { return 12 + k.n + 4 * (k.n / (k.bt * 256) + 2) + 64; }

	size_t compress(Lib& l, const In& k, const uint8_t* src, uint8_t* dst, size_t cap)
	{
		stenos_context_o* x = l.make();
		l.set_level(x, k.level);
		l.set_threads(x, k.threads);
		if (k.shift != (size_t)-1)
			l.set_block(x, k.shift);
		size_t r = l.comp(x, src, k.bt, k.n, dst, cap);
		l.destroy(x);
		return r;
	}

	void check_decode(Case& c, Lib& enc, Lib& dec, const In& k, const uint8_t* src, const uint8_t* f, size_t r, int threads)
	{
		GBuf g(r, true, 1), out(k.n, true, 2);
		memcpy(g.data(), f, r);
		mem::fill(out.data(), k.n, 55);
		Info a{ 1, 1 }, b{ 2, 2 };
		size_t h1 = enc.info(g.data(), k.bt, r, &a), h2 = dec.info(g.data(), k.bt, r, &b);
		PBT_CHECK(c, h1 == h2, "%s and %s read a different header in a %s frame (%zd, %zd)", enc.name.c_str(), dec.name.c_str(), enc.name.c_str(), (ssize_t)h1, (ssize_t)h2);
		PBT_CHECK(c, is_err(h1) || (a.decompressed_size == b.decompressed_size && a.superblock_size == b.superblock_size), "%s and %s disagree on the sizes in a frame", enc.name.c_str(), dec.name.c_str());
		stenos_context_o* x = dec.make();
		dec.set_threads(x, threads);
		size_t d = dec.decomp(x, g.data(), k.bt, r, out.data(), k.n);
		dec.destroy(x);
		PBT_CHECK(c, d == k.n, "a frame made by %s gives %zd instead of %zu bytes with %s", enc.name.c_str(), (ssize_t)d, k.n, dec.name.c_str());
		for (size_t i = 0; i < k.n; ++i)
			if (out.data()[i] != src[i])
				c.fail("a frame made by %s decodes to another byte %zu of %zu with %s (got %u, expected %u; element %zu)", enc.name.c_str(), i, k.n, dec.name.c_str(), out.data()[i], src[i], i / k.bt);
	}
	void label_codes(Case& c, const uint8_t* f, size_t n)
	{
		static const char* nm[] = { "?", "block", "zstd", "transposed-zstd", "transposed-delta-zstd", "block+zstd", "copy" };
		size_t i = n && f[0] == 255 ? 12 : 8;
		while (i + 4 <= n) {
			if (f[i] <= 6)
				c.label(std::string("coded:") + nm[f[i]]);
			i += 4 + (f[i + 1] | (f[i + 2] << 8) | ((size_t)f[i + 3] << 16));
		}
	}
}

PBT_PROP(C12)
{
	auto& libs = isa();
	In k = draw(c);
	GBuf src(k.n, true, 3);
	gen::content(c, src.data(), k.bt, k.n);
	std::vector<uint8_t> f(cap_of(k));
	// all encoders when cheap, else one
	unsigned only = k.n > 120000 || k.level > 4 ? 1 + (unsigned)c.draw(libs.size()) : 0;
	bool coded = false;
	for (size_t e = 0; e < libs.size(); ++e) {
		if (only && e + 1 != only)
			continue;
		size_t r = compress(libs[e], k, src.data(), f.data(), f.size());
		PBT_CHECK(c, !is_err(r), "%s cannot compress: %zd", libs[e].name.c_str(), (ssize_t)r);
		label_codes(c, f.data(), r);
		coded = coded || r < k.n;
		for (size_t d = 0; d < libs.size(); ++d)
			check_decode(c, libs[e], libs[d], k, src.data(), f.data(), r, 1 + (int)c.draw(2));
	}
	if (k.n >= 128 && coded)
		c.nontrivial();
}

PBT_PROP(C16)
{
	auto& libs = isa();
	Lib& cur = libs[c.draw(libs.size())];
	In k = draw(c);
	GBuf src(k.n, true, 3);
	gen::content(c, src.data(), k.bt, k.n);
	std::vector<uint8_t> f(cap_of(k));
	size_t r = compress(ref(), k, src.data(), f.data(), f.size());
	PBT_CHECK(c, !is_err(r), "the reference cannot compress: %zd", (ssize_t)r);
	label_codes(c, f.data(), r);
	check_decode(c, ref(), cur, k, src.data(), f.data(), r, 1 + (int)c.draw(2));
	size_t r2 = compress(cur, k, src.data(), f.data(), f.size());
	PBT_CHECK(c, !is_err(r2), "%s cannot compress: %zd", cur.name.c_str(), (ssize_t)r2);
	check_decode(c, cur, ref(), k, src.data(), f.data(), r2, 1 + (int)c.draw(2));
	c.label("build:" + cur.name);
	if (k.n >= 128 && r < k.n)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
