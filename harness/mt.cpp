// C08 (thread count independence) and C09 (concurrent independent contexts), with schedule perturbation.
#include "codec_util.hpp"
#include "perturb.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>

#ifdef HWC
// The size of the pool depends on the number of cores, which is 0 when it is unknown
unsigned std::thread::hardware_concurrency() noexcept { return HWC; }
#endif

using namespace cu;

namespace
{
	int thread_count(Case& c)
	{
		switch (c.pick({ 55, 25, 10, 10 })) {
			case 0:
				return (int)c.range(2, 8);
			case 1:
				return (int)c.range(9, 40);
			case 2:
				return c.one_of<int>({ 64, 100, 1000, 2147483647, 65536 });
			default:
				return c.one_of<int>({ 1, 0, -1, -2147483647 - 1 });
		}
	}

	// More than one superblock most of the time, without large amounts of data.
	Cfg mt_config(Case& c, unsigned scale, int max_level)
	{
		Cfg k;
		k.bt = gen::element_size(c);
		Opts o;
		o.max_level = max_level;
		k.level = level(c, o);
		size_t cap = (k.eff_level() >= 7 ? 40000u : k.eff_level() >= 4 ? 150000u : 500000u) * scale / 100;
		if (k.bt > 500 && c.prob(90))
			k.bt = 1 + k.bt % 60;
		if (c.prob(70)) {
			k.shift = (int)c.pick({ 50, 25, 15, 10 });
			while (k.shift > 0 && (k.bt * 256 << k.shift) * 3 > cap)
				--k.shift;
		}
		size_t se = k.shift >= 0 ? 256ull << k.shift : gen::default_superblock(k.bt) / k.bt << (k.eff_level() ? (k.eff_level() - 1) / 2 : 0);
		size_t maxsb = std::max<size_t>(2, cap / (se * k.bt));
		size_t nsb = c.prob(10) ? c.draw(2) : 1 + c.draw(std::min<size_t>(maxsb, 70));
		size_t rest = c.prob(30) ? 0 : c.prob(50) ? c.draw(se) : c.draw(20);
		k.elems = nsb * se + rest;
		if (k.bytes() > (6u << 20))
			k.elems = (6u << 20) / k.bt;
		c.note("bt=%zu elems=%zu bytes=%zu level=%d shift=%d", k.bt, k.elems, k.bytes(), k.level, k.shift);
		c.label("level:" + std::to_string(k.eff_level()));
		return k;
	}

	void set_perturb(Case& c)
	{
		perturb::seed() = c.draw(1u << 30);
		perturb::rate() = (unsigned)c.one_of<int>({ 0, 20, 50, 200, 500 });
	}
	struct Quiet
	{
		~Quiet() { perturb::rate() = 0; }
	};
	bool near_size(size_t a, size_t b) { return a <= b + b / 4 + 256 && b <= a + a / 4 + 256; }
}

PBT_PROP(C08)
{
	Quiet q;
	Cfg k = mt_config(c, c.prob(8) ? 80 : 12, c.prob(8) ? 9 : 4);
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	gen::content(c, src.data(), k.bt, n);
	set_perturb(c);
	size_t cap = k.bound();
	Cfg k1 = k, k2 = k;
	k1.threads = c.prob(60) ? 1 : thread_count(c);
	k2.threads = thread_count(c);
	c.note("threads %d/%d", k1.threads, k2.threads);
	GBuf f1(cap), f2(cap);
	std::vector<uint8_t> orig(src);
	Ctx x1, x2;
	size_t r1 = compress(k1, src.data(), f1.data(), cap, x1), r2 = compress(k2, src.data(), f2.data(), cap, x2);
	PBT_CHECK(c, !stenos_has_error(r1), "compression with %d threads fails: %s", k1.threads, errname(r1));
	PBT_CHECK(c, !stenos_has_error(r2), "compression with %d threads fails: %s", k2.threads, errname(r2));
	// Blocks at the end of a worker's buffer have less room to try the faster coders in: with very small superblocks
	// the compressed size legitimately depends on the thread count.
	if (k.sb() >= k.bt * 256 * 16)
		PBT_CHECK(c, near_size(r1, r2), "%zu bytes with %d threads, %zu bytes with %d threads", r1, k1.threads, r2, k2.threads);
	PBT_CHECK(c, src == orig, "the source was changed");
	if (k.eff_level() == 0) {
		PBT_CHECK(c, r1 == r2 && same(f1.data(), f2.data(), r1), "level 0 frames differ with the number of threads");
		c.label("level0-identical");
	}
	// decode both with different numbers of threads
	int t1 = c.prob(50) ? 1 : thread_count(c), t2 = thread_count(c);
	GBuf out(n);
	for (int i = 0; i < 4; ++i) {
		int t = i & 1 ? t2 : t1;
		const uint8_t* f = i & 2 ? f2.data() : f1.data();
		size_t r = i & 2 ? r2 : r1;
		mem::fill(out.data(), n, 31 + (uint64_t)i);
		Ctx d;
		stenos_set_threads(d, t);
		size_t s = stenos_decompress_generic(d, f, k.bt, r, out.data(), n);
		PBT_CHECK(c, s == n, "a frame made with %d threads decodes with %d threads to %s (%zu expected)", i & 2 ? k2.threads : k1.threads, t, errname(s), n);
		PBT_CHECK(c, same(out.data(), src.data(), n), "byte %zu of %zu differs (made with %d threads, decoded with %d)", first_diff(out.data(), src.data(), n), n, i & 2 ? k2.threads : k1.threads, t);
	}
	// the same outcome for destinations that are too small
	unsigned rounds = (unsigned)c.pick({ 30, 40, 30 });
	for (unsigned i = 0; i < rounds && r1 > 1; ++i) {
		size_t lo = std::min(r1, r2), s;
		bool exact = k.eff_level() == 0;
		if (exact)
			s = c.prob(40) ? r1 - 1 - c.draw(std::min<size_t>(r1, 10)) : c.draw(r1);
		else {
			s = c.draw(lo);
			if (near_size(s, lo))
				s /= 2;
			if (near_size(s, lo))
				continue;
		}
		GBuf small(s);
		mem::fill(small.data(), s, 3);
		size_t e1 = compress(k1, src.data(), small.data(), s, x1);
		size_t e2 = compress(k2, src.data(), small.data(), s, x2);
		PBT_CHECK(c, stenos_has_error(e1) && stenos_has_error(e2), "a destination of %zu bytes (frame %zu) gives %s with %d threads, %s with %d", s, r1, errname(e1), k1.threads, errname(e2), k2.threads);
		PBT_CHECK(c, e1 == e2, "a destination of %zu bytes (frame %zu) gives %s with %d threads, %s with %d", s, r1, errname(e1), k1.threads, errname(e2), k2.threads);
		c.label("small-destination");
	}
	if (n) {
		// destination too small, cut and damaged frames
		Ctx d1, d2;
		stenos_set_threads(d1, 1);
		stenos_set_threads(d2, t2);
		size_t ds = c.draw(n);
		GBuf small(ds);
		size_t e1 = stenos_decompress_generic(d1, f1.data(), k.bt, r1, small.data(), ds), e2 = stenos_decompress_generic(d2, f1.data(), k.bt, r1, small.data(), ds);
		PBT_CHECK(c, stenos_has_error(e1) && e1 == e2, "decompression into %zu of %zu bytes gives %s with 1 thread, %s with %d", ds, n, errname(e1), errname(e2), t2);
		size_t cut = c.draw(r1);
		e1 = stenos_decompress_generic(d1, f1.data(), k.bt, cut, out.data(), n), e2 = stenos_decompress_generic(d2, f1.data(), k.bt, cut, out.data(), n);
		PBT_CHECK(c, stenos_has_error(e1) && stenos_has_error(e2), "a frame cut to %zu of %zu bytes gives %s with 1 thread, %s with %d", cut, r1, errname(e1), errname(e2), t2);
		if (c.prob(50)) {
			std::vector<uint8_t> bad(f1.data(), f1.data() + r1);
			size_t at = c.draw(r1);
			bad[at] ^= (uint8_t)(1u << c.draw(8));
			std::vector<uint8_t> o1(n, 1), o2(n, 2);
			e1 = stenos_decompress_generic(d1, bad.data(), k.bt, r1, o1.data(), n), e2 = stenos_decompress_generic(d2, bad.data(), k.bt, r1, o2.data(), n);
			bool b1 = stenos_has_error(e1), b2 = stenos_has_error(e2);
			PBT_CHECK(c, b1 == b2, "a damaged frame gives %s with 1 thread, %s with %d", errname(e1), errname(e2), t2);
			if (!b1)
				PBT_CHECK(c, e1 == e2 && same(o1.data(), o2.data(), e1), "a damaged frame decodes differently with 1 and %d threads", t2);
			c.label(b1 ? "damaged:error" : "damaged:decoded");
		}
		// and the contexts still work
		size_t s = stenos_decompress_generic(d2, f2.data(), k.bt, r2, out.data(), n);
		PBT_CHECK(c, s == n && same(out.data(), src.data(), n), "after errors a context with %d threads cannot decode any more: %s", t2, errname(s));
	}
	size_t sb = k.sb();
	if (n > sb && (k1.threads > 1 || k2.threads > 1 || t2 > 1))
		c.nontrivial();
	c.label_if(n > sb, "multi-superblock");
	c.label_if(std::max(k1.threads, k2.threads) > 8, "threads:>8");
}

namespace
{
	struct Op
	{
		Cfg k;
		size_t data;      // which input
		int dthreads;
		int kind;         // 0 round trip, 1 small destination, 2 cut frame, 3 damaged frame header
		bool shared_ctx;  // the thread's own long-lived context
		size_t par;
		bool fail = false;
		size_t size = 0;
	};
	struct Gate
	{
		std::mutex m;
		std::condition_variable cv;
		unsigned n = 0;
		bool open = false;
	};

	// Runs one operation; returns an empty string or what went wrong.
	std::string run_op(const Op& o, const std::vector<uint8_t>& src, stenos_context* own, size_t* size)
	{
		size_t n = src.size();
		size_t cap = o.k.bound();
		std::vector<uint8_t> f(cap), out(n, 0x55);
		char msg[300];
		Ctx tmp;
		stenos_context* x = o.shared_ctx ? own : tmp.p;
		size_t r = o.k.ctx ? compress(o.k, src.data(), f.data(), cap, x) : compress(o.k, src.data(), f.data(), cap);
		*size = r;
		if (stenos_has_error(r)) {
			snprintf(msg, sizeof(msg), "compression of %zu bytes (bt %zu, level %d, %d threads) fails: %s", n, o.k.bt, o.k.level, o.k.threads, errname(r));
			return msg;
		}
		if (o.kind == 1 && r > 40) {
			size_t s = 12 + o.par % (r / 2 - 12 + 1);
			std::vector<uint8_t> g(s);
			size_t e = compress(o.k, src.data(), g.data(), s, x);
			if (!stenos_has_error(e))
				return "compression into a too small destination succeeds";
		}
		size_t d;
		if (o.dthreads == 0)
			d = stenos_decompress(f.data(), o.k.bt, r, out.data(), n);
		else {
			stenos_set_threads(x, o.dthreads);
			d = stenos_decompress_generic(x, f.data(), o.k.bt, r, out.data(), n);
		}
		if (d != n) {
			snprintf(msg, sizeof(msg), "decompression of %zu bytes (bt %zu, level %d, %d/%d threads) gives %s", n, o.k.bt, o.k.level, o.k.threads, o.dthreads, errname(d));
			return msg;
		}
		if (out != src) {
			snprintf(msg, sizeof(msg), "byte %zu of %zu differs (bt %zu, level %d, %d/%d threads)", first_diff(out.data(), src.data(), n), n, o.k.bt, o.k.level, o.k.threads, o.dthreads);
			return msg;
		}
		if (o.kind >= 2 && n) {
			size_t cut = o.par % r;
			size_t e;
			stenos_set_threads(x, o.dthreads);
			e = stenos_decompress_generic(x, f.data(), o.k.bt, cut, out.data(), n);
			if (!stenos_has_error(e))
				return "a cut frame decodes";
		}
		return std::string();
	}
}

PBT_PROP(C09)
{
	Quiet q;
	unsigned nthreads = (unsigned)c.pick({ 0, 0, 35, 20, 15, 5, 10, 5, 10 });
	std::vector<std::vector<uint8_t>> data;
	std::vector<std::vector<Op>> plan(nthreads);
	size_t total = 0, mt = 0;
	for (unsigned t = 0; t < nthreads; ++t) {
		unsigned ops = 1 + (unsigned)c.draw(6);
		for (unsigned i = 0; i < ops; ++i) {
			Op o;
			o.k = mt_config(c, 16, 4);
			if (o.k.bytes() > 200000)
				o.k.elems = 200000 / o.k.bt;
			o.k.ctx = !c.prob(25);
			if (o.k.ctx)
				o.k.threads = (int)c.pick({ 0, 15, 30, 20, 15, 5, 5, 5, 5 });
			else
				o.k.shift = -1;
			o.shared_ctx = c.prob(60);
			o.dthreads = (int)c.pick({ 20, 10, 30, 20, 10, 0, 0, 0, 10 });
			o.kind = (int)c.pick({ 70, 15, 15 });
			o.par = c.draw(1u << 20);
			o.data = data.size();
			data.emplace_back(o.k.bytes());
			gen::content(c, data.back().data(), o.k.bt, data.back().size());
			if (o.k.bytes() > o.k.sb() && (o.k.threads > 1 || o.dthreads > 1))
				++mt;
			total += o.k.bytes();
			plan[t].push_back(o);
		}
	}
	set_perturb(c);
	unsigned repeat = 1 + (unsigned)c.draw(3);
	c.note("%u threads, %zu bytes, repeat %u", nthreads, total, repeat);
	// alone
	for (unsigned t = 0; t < nthreads; ++t) {
		Ctx own;
		for (auto& o : plan[t]) {
			std::string m = run_op(o, data[o.data], own, &o.size);
			PBT_CHECK(c, m.empty(), "run alone: %s", m.c_str());
		}
	}
	// together
	Gate g;
	std::vector<std::string> err(nthreads);
	std::vector<std::thread> th;
	for (unsigned t = 0; t < nthreads; ++t)
		th.emplace_back([&, t]() {
			{
				std::unique_lock<std::mutex> l(g.m);
				++g.n;
				g.cv.notify_all();
				g.cv.wait(l, [&] { return g.open; });
			}
			Ctx own;
			for (unsigned k = 0; k < repeat && err[t].empty(); ++k)
				for (auto& o : plan[t]) {
					size_t s = 0;
					err[t] = run_op(o, data[o.data], own, &s);
					if (err[t].empty() && o.k.sb() >= o.k.bt * 4096 && !near_size(s, o.size))
						err[t] = "compressed size " + std::to_string(s) + ", alone " + std::to_string(o.size);
					if (!err[t].empty())
						break;
				}
		});
	{
		std::unique_lock<std::mutex> l(g.m);
		g.cv.wait(l, [&] { return g.n == nthreads; });
		g.open = true;
		g.cv.notify_all();
	}
	for (auto& t : th)
		t.join();
	for (unsigned t = 0; t < nthreads; ++t)
		PBT_CHECK(c, err[t].empty(), "thread %u of %u: %s", t, nthreads, err[t].c_str());
	c.label("app-threads:" + std::to_string(nthreads));
	if (mt >= 2)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
