// C17: what a call produces depends on its arguments alone, not on addresses, on what memory held before, on the
// thread or on what was done earlier.
#include "codec_util.hpp"
#include <malloc.h>
#include <alloca.h>
#include <thread>

using namespace cu;

namespace
{
	struct Circ
	{
		unsigned soff = 0, doff = 0; // offsets of source and destination from a 64 bytes boundary
		int stack = -1;		     // byte left on the stack below the call
		int heap = 0;		     // M_PERTURB: new memory is filled with the complement of this byte
		bool thread = false;	     // called from a new thread
		int ctx = 0;		     // 0: fresh, 1: used for something else before, 2: without context if possible
		uint64_t fill = 1;	     // previous content of the destination, bytes around the source
		bool warm = false;	     // another compression happened before on the thread
	};

	Circ draw_circ(Case& c)
	{
		Circ r;
		r.soff = (unsigned)c.draw(64);
		r.doff = (unsigned)c.draw(64);
		r.stack = c.prob(70) ? (c.prob(40) ? c.one_of<int>({ 0, 255, 0xAA, 1, 0x80 }) : 256 + (int)c.draw(600)) : -1;
		r.heap = c.prob(60) ? c.one_of<int>({ 1, 255, 0xAA, 0x55, 0x80 }) : 0;
		r.thread = c.prob(30);
		r.ctx = (int)c.pick({ 40, 40, 20 });
		r.fill = c.draw(1000);
		r.warm = c.prob(40);
		return r;
	}

	// 0..255: this byte everywhere; larger: small numbers of 2, 4 and 8 bytes, that pass for positions and sizes
	__attribute__((noinline)) void dirty_stack(int v)
	{
		if (v < 0)
			return;
		const size_t n = 192 * 1024;
		volatile uint8_t* p = (volatile uint8_t*)alloca(n);
		if (v < 256) {
			for (size_t i = 0; i < n; ++i)
				p[i] = (uint8_t)v;
			return;
		}
		unsigned width = 2u << (v % 3);
		uint64_t x = (uint64_t)v * 0x9e3779b97f4a7c15ull;
		unsigned limit = v % 2 ? 256 : 4000;
		for (size_t i = 0; i + width <= n; i += width) {
			x ^= x << 13;
			x ^= x >> 7;
			x ^= x << 17;
			unsigned w = (unsigned)((x >> 20) % limit);
			p[i] = (uint8_t)w;
			p[i + 1] = (uint8_t)(w >> 8);
			for (unsigned k = 2; k < width; ++k)
				p[i + k] = 0;
		}
	}

	struct Room
	{
		std::vector<uint8_t> m;
		uint8_t* p = nullptr;
		Room(size_t n, unsigned off, uint64_t fill)
		  : m(n + 64 + 64 + 64)
		{
			mem::fill(m.data(), m.size(), fill);
			p = (uint8_t*)(((uintptr_t)m.data() + 63) / 64 * 64) + off;
		}
	};

	// Something else of the same kind
	void other_work(stenos_context* x, uint64_t seed)
	{
		size_t bt = 1 + seed % 9, n = bt * (300 + seed % 5000);
		std::vector<uint8_t> s(n), d(stenos_bound(n));
		pbt::Rng r(seed);
		gen::fill_kind(r, (unsigned)(seed % 10), s.data(), bt, n);
		stenos_set_level(x, (int)(1 + seed % 4));
		stenos_set_threads(x, 1 + (int)(seed % 3));
		stenos_set_block_size(x, seed % 2 ? STENOS_NO_BLOCK_SHIFT : seed % 3);
		if (seed % 4 == 0)
			d.resize(n / 2 + 1); // too small
		stenos_compress_generic(x, s.data(), bt, n, d.data(), d.size());
	}

	size_t run(const Cfg& k, const Circ& z, const std::vector<uint8_t>& src, size_t cap, std::vector<uint8_t>& frame)
	{
		size_t res = 0;
		auto body = [&] {
			Room s(src.size(), z.soff, z.fill * 7 + 1), d(cap, z.doff, z.fill);
			memcpy(s.p, src.data(), src.size());
			mallopt(M_PERTURB, z.heap);
			if (z.warm) {
				Ctx w;
				other_work(w, z.fill + 5);
			}
			if (z.ctx == 2 && k.threads == 1 && k.shift < 0) {
				dirty_stack(z.stack);
				res = stenos_compress(s.p, k.bt, k.bytes(), d.p, cap, k.level);
			}
			else {
				Ctx x;
				if (z.ctx == 1)
					other_work(x, z.fill);
				apply(x, k);
				dirty_stack(z.stack);
				res = stenos_compress_generic(x, s.p, k.bt, k.bytes(), d.p, cap);
			}
			mallopt(M_PERTURB, 0);
			if (!stenos_has_error(res) && res <= cap)
				frame.assign(d.p, d.p + res);
		};
		if (z.thread)
			std::thread(body).join();
		else
			body();
		return res;
	}

	std::string circ_text(const Circ& z)
	{
		char b[256];
		snprintf(b, sizeof(b), "source at 64n+%u, destination at 64n+%u, stack %d, heap %d, %s thread%s, %s", z.soff, z.doff, z.stack, z.heap, z.thread ? "new" : "same", z.warm ? " used before" : "",
			 z.ctx == 0 ? "fresh context" : z.ctx == 1 ? "used context" : "no context");
		return b;
	}
}

PBT_PROP(C17)
{
	Opts o;
	o.scale = 60;
	Cfg k = config(c, o);
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	if (c.prob(15)) {
		// Blocks that begin with distinct numbers, which come back later: how much of a block the match finder knows
		// depends on where it looked before
		k = Cfg();
		k.bt = 4 * c.range(1, 16);
		k.level = 2;
		k.elems = 256 * c.range(1, 12);
		n = k.bytes();
		src.assign(n, 0);
		size_t w = k.bt % 8 ? 4 : 8, per = k.bt * 256 / w, first = 24 + c.draw(80);
		pbt::Rng g(c.draw(1ull << 32));
		unsigned fresh = (unsigned)c.draw(40);
		for (size_t i = 0; i < n / w; ++i) {
			size_t in = i % per;
			if (in < first || g.prob(fresh)) {
				uint64_t v = g.next();
				memcpy(&src[i * w], &v, w);
			}
			else
				memcpy(&src[i * w], &src[(i - in + g.below(in)) * w], w);
		}
		c.note("matches bt=%zu elems=%zu", k.bt, k.elems);
		c.label("content:late-matches");
	}
	else
		gen::content(c, src.data(), k.bt, n);
	// enough memory, or not
	size_t cap = k.bound();
	bool full = !c.prob(20);
	if (!full)
		cap = c.prob(50) ? c.draw(cap) : cap - c.draw(std::min<size_t>(cap, 40));
	Circ base;
	std::vector<uint8_t> f0;
	size_t r0 = run(k, base, src, cap, f0);
	c.label(stenos_has_error(r0) ? "refused" : "compressed");
	unsigned rounds = (unsigned)c.range(1, 4);
	for (unsigned i = 0; i < rounds; ++i) {
		Circ z = draw_circ(c);
		std::vector<uint8_t> f;
		size_t r = run(k, z, src, cap, f);
		PBT_CHECK(c, r == r0, "the same compression gives %s, then %s (%s)", std::string(errname(r0)).c_str(), errname(r), circ_text(z).c_str());
		PBT_CHECK(c, f == f0, "the same compression gives another frame: byte %zu of %zu (%s)", first_diff(f.data(), f0.data(), f.size()), f.size(), circ_text(z).c_str());
		c.label_if(z.thread, "new-thread");
		c.label_if(z.heap != 0, "heap-filled");
		c.label_if(z.stack >= 0, "stack-filled");
		c.label_if(z.ctx == 1, "used-context");
		c.label_if(z.soff % 8 != 0, "odd-address");
	}
	// Decoding anywhere
	if (!stenos_has_error(r0)) {
		std::vector<uint8_t> f = f0;
		bool damaged = c.prob(25) && f.size() > 8;
		if (damaged) {
			unsigned m = (unsigned)c.range(1, 3);
			for (unsigned i = 0; i < m; ++i)
				f[c.draw(f.size())] ^= (uint8_t)(1u << c.draw(8));
			if (c.prob(30))
				f.resize(1 + c.draw(f.size()));
		}
		size_t dcap = n + (c.prob(20) ? c.draw(100) : 0);
		size_t d0 = 0;
		std::vector<uint8_t> o0;
		for (unsigned i = 0; i <= rounds; ++i) {
			Circ z = i ? draw_circ(c) : Circ();
			Room s(f.size(), z.soff, z.fill * 7 + 1), d(dcap, z.doff, z.fill + i);
			if (!f.empty())
				memcpy(s.p, f.data(), f.size());
			size_t r = 0;
			auto body = [&] {
				mallopt(M_PERTURB, z.heap);
				if (z.ctx == 2) {
					dirty_stack(z.stack);
					r = stenos_decompress(s.p, k.bt, f.size(), d.p, dcap);
				}
				else {
					Ctx x;
					if (z.ctx == 1) {
						other_work(x, z.fill);
						stenos_set_threads(x, 1);
					}
					dirty_stack(z.stack);
					r = stenos_decompress_generic(x, s.p, k.bt, f.size(), d.p, dcap);
				}
				mallopt(M_PERTURB, 0);
			};
			if (z.thread)
				std::thread(body).join();
			else
				body();
			size_t got = stenos_has_error(r) ? 0 : std::min(r, dcap);
			if (i == 0) {
				d0 = r;
				o0.assign(d.p, d.p + got);
				if (!damaged) {
					PBT_CHECK(c, r == n && o0 == src, "the frame does not decode (%s)", errname(r));
				}
				else
					c.label(stenos_has_error(r) ? "damaged-refused" : "damaged-accepted");
			}
			else {
				PBT_CHECK(c, r == d0, "decoding the same frame gives %s, then %s (%s)", std::string(errname(d0)).c_str(), errname(r), circ_text(z).c_str());
				PBT_CHECK(c, same(d.p, o0.data(), got), "decoding the same frame gives other bytes: %zu of %zu (%s)", first_diff(d.p, o0.data(), got), got, circ_text(z).c_str());
			}
		}
	}
	if (n >= 128)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
