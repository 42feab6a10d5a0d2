// C10 (context histories against fresh contexts) and C14 (allocation failures).
#include "codec_util.hpp"
#include "alloc.hpp"
#include "clock.hpp"
#include <functional>

using namespace cu;

namespace
{
	struct Input
	{
		size_t bt;
		std::vector<uint8_t> data;
		std::vector<uint8_t> frame; // a valid frame
	};

	// Runs f in a new thread: thread-local state of the library starts empty and is released at the end.
	void in_thread(bool fresh, const std::function<void()>& f)
	{
		if (!fresh) {
			f();
			return;
		}
		std::exception_ptr e;
		std::thread t([&] {
			try {
				f();
			}
			catch (...) {
				e = std::current_exception();
			}
		});
		t.join();
		if (e)
			std::rethrow_exception(e);
	}

	Input make_input(Case& c, size_t cap)
	{
		Input in;
		in.bt = gen::element_size(c);
		if (in.bt > 600 && c.prob(85))
			in.bt = 1 + in.bt % 64;
		cap = std::max<size_t>(cap, in.bt * 3);
		size_t blocks = in.bt * 256 <= cap ? cap / (in.bt * 256) : 0;
		size_t e;
		switch (c.pick({ 25, 25, 20, 20, 10 })) {
			case 0:
				e = c.draw(std::min<size_t>(300, cap / in.bt) + 1);
				break;
			case 1:
				e = 256 * c.draw(blocks + 1);
				break;
			case 2:
				e = c.draw(cap / in.bt + 1);
				break;
			case 3: // superblock multiples
				e = gen::default_superblock(in.bt) / in.bt * (1 + c.draw(2));
				if (e * in.bt > 300000)
					e = cap / in.bt;
				break;
			default:
				e = c.draw(3);
				break;
		}
		in.data.resize(e * in.bt);
		gen::content(c, in.data.data(), in.bt, in.data.size());
		return in;
	}

	struct Settings
	{
		int level = 1, threads = 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		uint64_t ns = 0;
		void apply(stenos_context* x) const
		{
			stenos_set_level(x, level);
			stenos_set_threads(x, threads);
			stenos_set_block_size(x, shift);
			stenos_set_max_nanoseconds(x, ns);
		}
	};
}

PBT_PROP(C10)
{
	std::vector<Input> in;
	unsigned ni = 1 + (unsigned)c.draw(3);
	for (unsigned i = 0; i < ni; ++i) {
		in.push_back(make_input(c, c.prob(25) ? 200000 : 30000));
		Input& x = in.back();
		x.frame.resize(stenos_bound(x.data.size()) + 1000);
		Ctx t;
		stenos_set_level(t, (int)c.pick({ 10, 40, 40, 10 }));
		if (c.prob(40))
			stenos_set_block_size(t, c.draw(3));
		std::vector<uint8_t> f(x.data.size() + 12 + 4 * (x.data.size() / (x.bt * 256) + 2));
		if (f.size() > x.frame.size())
			x.frame.resize(f.size());
		size_t r = stenos_compress_generic(t, x.data.data(), x.bt, x.data.size(), x.frame.data(), x.frame.size());
		x.frame.resize(stenos_has_error(r) ? 0 : r);
	}
	unsigned ops = 1 + (unsigned)c.draw(14);
	long live0 = 0, live1 = 0;
	bool mt = false;
	unsigned works = 0, fails = 0;
	std::vector<uint8_t> f1, f2, o1, o2;
	size_t biggest = 400000;
	for (auto& x : in)
		biggest = std::max(biggest, x.data.size() + x.data.size() / 4 + 5000);
	f1.reserve(biggest);
	f2.reserve(biggest);
	o1.reserve(biggest);
	o2.reserve(biggest);

	auto body = [&]() {
		std::string names;
		live0 = al::st().live.load();
		Settings m;
		stenos_context* x = stenos_make_context();
		PBT_CHECK(c, x, "no context");
		struct Del
		{
			stenos_context* p;
			~Del() { stenos_destroy_context(p); }
		};
		{
			Del del{ x };
			for (unsigned i = 0; i < ops; ++i) {
				switch (c.pick({ 40, 24, 8, 7, 6, 5, 5, 5 })) {
					case 0: { // compress
						Input& a = in[c.draw(ni)];
						size_t bt = a.bt, n = a.data.size();
						size_t sb = m.shift != STENOS_NO_BLOCK_SHIFT ? (bt * 256) << m.shift : bt * 256;
						size_t cap = n + 12 + 4 * (n / sb + 2) + 64;
						bool bad = false;
						switch (c.pick({ 72, 18, 5, 5 })) {
							case 1: // too small, far from the needed size: nothing fits in less than the header
								cap = c.prob(50) ? c.draw(12) : c.draw(n / 4 + 1);
								break;
							case 2:
								bt = c.one_of<size_t>({ 0, 65535, 65536, (size_t)-1 });
								bad = true;
								break;
							case 3:
								cap = c.draw(cap);
								break;
							default:
								break;
						}
						f1.assign(cap, 1);
						f2.assign(cap, 2);
						// time limited and one thread: both see the same readings of the clock
						bool scripted = m.ns && m.threads <= 1 && c.prob(70);
						Clock& ck = clk();
						Off off;
						if (scripted) {
							ck.mode = (unsigned)c.pick({ 35, 35, 30 });
							ck.step = c.prob(50) ? 1 + c.draw(100000) : 1 + (m.ns >> c.draw(12));
							ck.at = 1 + c.draw(30);
							ck.jump = std::min<uint64_t>(m.ns, 1ull << 60) / 8 * (1 + c.draw(9));
							ck.start(1000000000);
						}
						size_t r1 = stenos_compress_generic(x, a.data.data(), bt, n, f1.data(), cap);
						uint64_t reads = ck.n;
						ck.on = false;
						Ctx y;
						m.apply(y);
						if (scripted)
							ck.start(1000000000);
						size_t r2 = stenos_compress_generic(y, a.data.data(), bt, n, f2.data(), cap);
						ck.on = false;
						if (scripted)
							c.label_if(reads > 2, "scripted-clock");
						c.note("compress bt=%zu n=%zu cap=%zu (level %d threads %d shift %zd ns %llu) -> %s", bt, n, cap, m.level, m.threads, (ssize_t)m.shift, (unsigned long long)m.ns, errname(r1));
						bool e1 = stenos_has_error(r1), e2 = stenos_has_error(r2);
						if (m.ns == 0 || scripted) {
							PBT_CHECK(c, e1 == e2, "compress gives %s on the reused context, %s on a fresh one", std::string(errname(r1)).c_str(), std::string(errname(r2)).c_str());
							PBT_CHECK(c, r1 == r2, "compress gives %zu (%s) on the reused context, %zu on a fresh one", r1, errname(r1), r2);
							if (!e1)
								PBT_CHECK(c, same(f1.data(), f2.data(), r1), "the frame of the reused context differs at byte %zu of %zu from the one of a fresh context", first_diff(f1.data(), f2.data(), r1), r1);
						}
						else if (bad || cap >= stenos_bound(n))
							PBT_CHECK(c, e1 == e2, "time limited compress: %s on the reused context, %s on a fresh one", std::string(errname(r1)).c_str(), std::string(errname(r2)).c_str());
						if (!e1) {
							o1.assign(n, 9);
							size_t d = stenos_decompress(f1.data(), bt, r1, o1.data(), n);
							PBT_CHECK(c, d == n && same(o1.data(), a.data.data(), n), "the frame made by the reused context does not decode: %s", errname(d));
							++works;
						}
						else
							++fails;
						if (m.threads > 1)
							mt = true;
						break;
					}
					case 1: { // decompress
						Input& a = in[c.draw(ni)];
						size_t bt = a.bt, n = a.data.size(), ds = n, fs = a.frame.size();
						f1 = a.frame;
						switch (c.pick({ 60, 10, 10, 12, 8 })) {
							case 1:
								ds = c.draw(n + 1);
								break;
							case 2:
								fs = c.draw(fs + 1);
								break;
							case 3:
								if (fs)
									f1[c.draw(fs)] ^= (uint8_t)(1u << c.draw(8));
								break;
							case 4:
								bt = c.one_of<size_t>({ 0, 65535, 1 });
								break;
							default:
								break;
						}
						o1.assign(ds, 1);
						o2.assign(ds, 1);
						size_t r1 = stenos_decompress_generic(x, f1.data(), bt, fs, o1.data(), ds);
						Ctx y;
						m.apply(y);
						size_t r2 = stenos_decompress_generic(y, f1.data(), bt, fs, o2.data(), ds);
						c.note("decompress bt=%zu n=%zu frame=%zu dst=%zu (threads %d) -> %s", bt, n, fs, ds, m.threads, errname(r1));
						bool e1 = stenos_has_error(r1), e2 = stenos_has_error(r2);
						PBT_CHECK(c, e1 == e2 && (e1 || r1 == r2), "decompress gives %s on the reused context, %s on a fresh one", std::string(errname(r1)).c_str(), std::string(errname(r2)).c_str());
						if (!e1)
							PBT_CHECK(c, same(o1.data(), o2.data(), r1), "decompress of the same frame differs at byte %zu on the reused context", first_diff(o1.data(), o2.data(), r1));
						if (e1)
							++fails;
						else
							++works;
						if (m.threads > 1)
							mt = true;
						break;
					}
					case 2:
						m.level = c.prob(70) ? (int)c.range(0, 4) : c.one_of<int>({ 5, 6, -1, 9, 10, 100 });
						stenos_set_level(x, m.level);
						c.note("level %d", m.level);
						break;
					case 3:
						m.threads = c.prob(70) ? (int)c.range(1, 6) : c.one_of<int>({ 0, -3, 33 });
						stenos_set_threads(x, m.threads);
						c.note("threads %d", m.threads);
						break;
					case 4: {
						size_t s = c.prob(75) ? c.draw(5) : c.one_of<size_t>({ STENOS_NO_BLOCK_SHIFT, 15, 16, 17, 64, 1000 });
						size_t r = stenos_set_block_size(x, s);
						c.note("block size %zd", (ssize_t)s);
						if (s < 16 || s == STENOS_NO_BLOCK_SHIFT) {
							PBT_CHECK(c, !stenos_has_error(r), "block size shift %zu refused", s);
							m.shift = s;
						}
						else
							PBT_CHECK(c, stenos_has_error(r), "block size shift %zu accepted", s);
						break;
					}
					case 5:
						m.ns = c.one_of<uint64_t>({ 0, 1, 1000, 3600000000000ull, 20000, 1000000, 50000000 });
						stenos_set_max_nanoseconds(x, m.ns);
						c.note("limit %llu", (unsigned long long)m.ns);
						break;
					case 6:
						stenos_reset_context(x);
						m = Settings();
						c.note("reset");
						break;
					default: {
						size_t s = stenos_memory_footprint(x);
						PBT_CHECK(c, s > 0 && s < (1u << 30), "footprint %zu", s);
						break;
					}
				}
			}
		}
		live1 = al::st().live.load();
	};
	in_thread(true, [&] {
		// the thread-local buffers are released with the thread
		body();
	});
	c.label_if(mt, "multithreaded");
	c.label_if(fails > 0, "with-failures");
	if (works + fails >= 2)
		c.nontrivial();
}

// The memory a context gives back when it is destroyed is what stenos_memory_footprint() reported.
PBT_PROP(C19)
{
#if !VH_ASAN
	static bool once = (mallopt(M_MMAP_THRESHOLD, 1 << 28), true); // sizes of blocks are not rounded up to pages
	(void)once;
#endif
	std::vector<Input> in;
	unsigned ni = 1 + (unsigned)c.draw(3);
	for (unsigned i = 0; i < ni; ++i) {
		in.push_back(make_input(c, c.prob(40) ? 200000 : 30000));
		Input& x = in.back();
		Settings s;
		s.level = (int)c.draw(5);
		if (c.prob(40))
			s.shift = c.draw(3);
		Ctx t;
		s.apply(t);
		std::vector<uint8_t> f(x.data.size() + 12 + 4 * (x.data.size() / (x.bt * 256) + 2));
		size_t r = stenos_compress_generic(t, x.data.data(), x.bt, x.data.size(), f.data(), f.size());
		f.resize(stenos_has_error(r) ? 0 : r);
		x.frame = f;
	}
	unsigned ops = (unsigned)c.draw(8);
	stenos_context* x = stenos_make_context();
	PBT_CHECK(c, x, "no context");
	std::vector<uint8_t> f, o;
	for (unsigned i = 0; i < ops; ++i) {
		if (c.prob(60)) {
			Settings m;
			m.level = (int)c.draw(5);
			m.threads = c.prob(50) ? 1 : c.prob(90) ? (int)c.range(2, 9) : (int)c.range(10, 70);
			if (c.prob(40))
				m.shift = c.draw(4);
			if (c.prob(10))
				m.ns = c.one_of<uint64_t>({ 1, 100000, 3600000000000ull });
			m.apply(x);
			c.note("level %d threads %d shift %zd ns %llu", m.level, m.threads, (ssize_t)m.shift, (unsigned long long)m.ns);
		}
		Input& a = in[c.draw(ni)];
		size_t n = a.data.size();
		al::Guard off;
		long refuse = c.prob(12) ? (long)c.draw(10) : -1;
		size_t cap;
		size_t r;
		switch (c.pick({ 50, 40, 10 })) {
			case 0:
				f.assign(n + 16 + 4 * (n / (a.bt * 256) + 2), 1);
				cap = c.prob(85) ? f.size() : c.draw(f.size());
				if (refuse >= 0)
					al::arm(al::One, refuse);
				r = stenos_compress_generic(x, a.data.data(), a.bt, n, f.data(), cap);
				al::disarm();
				c.note("compress bt=%zu n=%zu -> %s", a.bt, n, errname(r));
				break;
			case 1:
				o.assign(n, 1);
				cap = c.prob(90) ? a.frame.size() : c.draw(a.frame.size() + 1);
				if (refuse >= 0)
					al::arm(al::One, refuse);
				r = stenos_decompress_generic(x, a.frame.data(), a.bt, cap, o.data(), n);
				al::disarm();
				c.note("decompress bt=%zu n=%zu -> %s", a.bt, n, errname(r));
				break;
			default:
				stenos_reset_context(x);
				c.note("reset");
				break;
		}
	}
	size_t fp = stenos_memory_footprint(x);
	long l0 = al::st().live.load();
	al::st().freed = 0;
	al::st().sizes = true;
	stenos_destroy_context(x);
	al::st().sizes = false;
	size_t blocks = (size_t)(l0 - al::st().live.load()), freed = (size_t)al::st().freed.load();
	c.note("footprint %zu, given back %zu bytes in %zu blocks", fp, freed, blocks);
	PBT_CHECK(c, freed <= fp + 64 * blocks && fp <= freed + 64 * blocks, "stenos_memory_footprint() is %zu, but destroying the context gives back %zu bytes in %zu blocks", fp, freed, blocks);
	c.label(blocks > 8 ? "blocks:>8" : blocks > 4 ? "blocks:5-8" : blocks > 1 ? "blocks:2-4" : "blocks:1");
	if (blocks > 1)
		c.nontrivial();
}

// Memory of a context is released with it: measured in threads of their own.
PBT_PROP(C10leak)
{
	Input a = make_input(c, 60000);
	int lv = (int)c.draw(5);
	int th = c.prob(50) ? 1 : (int)c.range(2, 5);
	size_t shift = c.prob(60) ? c.draw(3) : STENOS_NO_BLOCK_SHIFT;
	unsigned uses = (unsigned)c.draw(4);
	uint64_t what = c.draw(1u << 12);
	size_t cap = a.data.size() + 16 + 4 * (a.data.size() / (a.bt * 256) + 2);
	std::vector<uint8_t> f(cap), o(a.data.size() + 1);
	c.note("bt=%zu n=%zu level=%d threads=%d shift=%zd uses=%u", a.bt, a.data.size(), lv, th, (ssize_t)shift, uses);
	auto once = [&]() {
		stenos_context* x = stenos_make_context();
		stenos_set_level(x, lv);
		stenos_set_threads(x, th);
		stenos_set_block_size(x, shift);
		for (unsigned i = 0; i < uses; ++i) {
			size_t r = stenos_compress_generic(x, a.data.data(), a.bt, a.data.size(), f.data(), (what >> i) & 1 ? cap : cap / 3);
			if ((what >> (4 + i)) & 1)
				stenos_set_block_size(x, (what >> (8 + i)) & 1); // other buffers
			if (!stenos_has_error(r))
				stenos_decompress_generic(x, f.data(), a.bt, r, o.data(), a.data.size());
			if ((what >> (8 + i)) & 1)
				stenos_reset_context(x);
			stenos_set_threads(x, th);
		}
		stenos_destroy_context(x);
		stenos_timer* t = stenos_make_timer();
		stenos_tick(t);
		stenos_destroy_timer(t);
	};
	if (th == 1) {
		once(); // thread-local buffers of this thread
		long l0 = al::st().live.load();
		once();
		long l1 = al::st().live.load();
		PBT_CHECK(c, l0 == l1, "%ld blocks of memory are left after destroying the context", l1 - l0);
		c.label("exact");
	}
	else {
		// worker threads keep a few buffers of their own, which do not grow with the number of contexts
		auto growth = [&]() {
			long l0 = al::st().live.load();
			for (int i = 0; i < 12; ++i)
				once();
			return al::st().live.load() - l0;
		};
		growth();
		long g = growth();
		for (int k = 0; k < 6 && g >= 11; ++k)
			g = growth();
		PBT_CHECK(c, g < 11, "memory grows by %ld blocks with 12 contexts made and destroyed", g);
		c.label("growth");
	}
	if (uses)
		c.nontrivial();
}

PBT_PROP(C14)
{
	al::Guard guard;
	Input a = make_input(c, c.prob(20) ? 250000 : 40000);
	size_t n = a.data.size();
	Settings s;
	s.level = (int)c.pick({ 8, 30, 30, 12, 8, 6, 6 });
	s.threads = c.prob(55) ? 1 : (int)c.range(2, 6);
	if (c.prob(50)) {
		s.shift = c.draw(3);
		if ((a.bt * 256) << s.shift >= gen::MAX_BLOCK)
			s.shift = STENOS_NO_BLOCK_SHIFT;
	}
	if (c.prob(12))
		s.ns = c.one_of<uint64_t>({ 1, 1000000000000ull, 100000 });
	int kind = (int)c.pick({ 40, 30, 10, 10, 5 }); // compress, decompress, simple compress, simple decompress, make
	if (kind == 2 || kind == 3) {
		s.threads = 1;
		s.shift = STENOS_NO_BLOCK_SHIFT;
		s.ns = 0;
	}
	bool cold = c.prob(60);
	size_t cap = n + 12 + 4 * (n / (a.bt * 256) + 2) + 64;
	std::vector<uint8_t> out(cap), back(n), frame(cap);
	{
		Ctx t;
		s.apply(t);
		stenos_set_max_nanoseconds(t, 0);
		stenos_set_threads(t, 1);
		size_t r = stenos_compress_generic(t, a.data.data(), a.bt, n, frame.data(), cap);
		PBT_CHECK(c, !stenos_has_error(r), "compression without faults fails: %s", errname(r));
		frame.resize(r);
	}
	static const char* kn[] = { "compress", "decompress", "stenos_compress", "stenos_decompress", "make_context" };
	c.note("%s bt=%zu n=%zu level=%d threads=%d shift=%zd ns=%llu %s", kn[kind], a.bt, n, s.level, s.threads, (ssize_t)s.shift, (unsigned long long)s.ns, cold ? "cold" : "warm");
	c.label(kn[kind]);
	bool failed_one = false, reported = false;
	std::string bad;
	in_thread(cold, [&] {
		al::Guard g2;
		long l0 = al::st().live.load();
		stenos_context* x = nullptr;
		struct Del
		{
			stenos_context*& p;
			~Del()
			{
				if (p)
					stenos_destroy_context(p);
			}
		};
		auto op = [&](bool armed) -> size_t {
			(void)armed;
			switch (kind) {
				case 0:
					return stenos_compress_generic(x, a.data.data(), a.bt, n, out.data(), cap);
				case 1:
					return stenos_decompress_generic(x, frame.data(), a.bt, frame.size(), back.data(), n);
				case 2:
					return stenos_compress(a.data.data(), a.bt, n, out.data(), cap, s.level);
				case 3:
					return stenos_decompress(frame.data(), a.bt, frame.size(), back.data(), n);
				default:
					break;
			}
			stenos_context* t = stenos_make_context();
			if (!t)
				return (size_t)-3;
			stenos_destroy_context(t);
			stenos_timer* m = stenos_make_timer();
			if (!m)
				return (size_t)-3;
			stenos_destroy_timer(m);
			return 0;
		};
		auto verify = [&](size_t r) {
			if (kind == 0 || kind == 2) {
				PBT_CHECK(c, r <= cap, "%zu bytes written to %zu", r, cap);
				memset(back.data(), 0xEE, n);
				size_t d = stenos_decompress(out.data(), a.bt, r, back.data(), n);
				PBT_CHECK(c, d == n && same(back.data(), a.data.data(), n), "%s reports success after an allocation failure but the frame is wrong: %s", kn[kind], errname(d));
			}
			else if (kind == 1 || kind == 3)
				PBT_CHECK(c, r == n && same(back.data(), a.data.data(), n), "%s reports success (%zu) after an allocation failure but the data is wrong", kn[kind], r);
		};
		{
			Del del{ x };
			bool fault_make = c.prob(8);
			if (fault_make) {
				long k = (long)c.draw(3);
				al::arm(al::One, k);
				x = stenos_make_context();
				al::disarm();
			}
			if (!x)
				x = stenos_make_context();
			PBT_CHECK(c, x, "no context");
			s.apply(x);
			if (c.prob(25)) {
				// used before
				size_t r = op(false);
				PBT_CHECK(c, !stenos_has_error(r), "%s without faults fails: %s", kn[kind], errname(r));
				if (c.prob(40)) {
					stenos_set_threads(x, s.threads + 2);
				}
			}
			unsigned rounds = 1 + (unsigned)c.draw(3);
			for (unsigned i = 0; i < rounds; ++i) {
				memset(back.data(), 0x11, n);
				long k = (long)(c.prob(70) ? c.draw(12) : c.draw(60));
				switch (c.pick({ 55, 15, 15, 15 })) {
					case 0:
						c.note("request %ld fails", k);
						al::arm(al::One, k);
						break;
					case 1:
						c.note("requests fail from %ld on", k);
						al::arm(al::From, k);
						break;
					case 2: {
						size_t z = 1ull << c.draw(22);
						c.note("requests of %zu bytes and more fail", z);
						al::arm(al::Size, 0, z);
						break;
					}
					default: {
						unsigned p = (unsigned)c.range(5, 70);
						uint64_t sd = c.draw(1u << 30);
						c.note("%u%% of the requests fail", p);
						al::arm(al::Random, 0, 0, p, sd);
						break;
					}
				}
				size_t r = op(true);
				al::disarm();
				long nf = al::st().failed.load();
				if (nf)
					failed_one = true;
				bool err = stenos_has_error(r);
				c.note("%ld failures: %s", nf, errname(r));
				PBT_CHECK(c, !err || nf > 0, "%s fails with %s although every request was served", kn[kind], errname(r));
				if (err)
					reported = true;
				if (!err)
					verify(r);
				if (c.prob(50)) {
					// memory is back
					r = op(false);
					PBT_CHECK(c, !stenos_has_error(r), "after an allocation failure the context fails with %s", errname(r));
					verify(r);
				}
			}
			size_t r = op(false);
			PBT_CHECK(c, !stenos_has_error(r), "after an allocation failure the context fails with %s", errname(r));
			verify(r);
		}
		x = nullptr;
		(void)l0;
	});
	c.label(!failed_one ? "no-request-failed" : reported ? "error-reported" : "succeeded-anyway");
	if (failed_one)
		c.nontrivial();
}

// No memory is lost when requests fail.
PBT_PROP(C14leak)
{
	al::Guard guard;
	Input a = make_input(c, 40000);
	size_t n = a.data.size();
	Settings s;
	s.level = (int)c.pick({ 8, 30, 30, 12, 8 });
	s.threads = c.prob(60) ? 1 : (int)c.range(2, 5);
	if (c.prob(60))
		s.shift = c.draw(2);
	if (s.shift != STENOS_NO_BLOCK_SHIFT && ((a.bt * 256) << s.shift) >= gen::MAX_BLOCK)
		s.shift = STENOS_NO_BLOCK_SHIFT;
	size_t cap = n + 12 + 4 * (n / (a.bt * 256) + 2) + 64;
	std::vector<uint8_t> out(cap), back(n), frame(cap);
	{
		Ctx t;
		s.apply(t);
		stenos_set_threads(t, 1);
		size_t r = stenos_compress_generic(t, a.data.data(), a.bt, n, frame.data(), cap);
		PBT_CHECK(c, !stenos_has_error(r), "compression without faults fails: %s", errname(r));
		frame.resize(r);
	}
	int mode = (int)c.pick({ 60, 20, 20 });
	long k = (long)c.draw(14);
	unsigned pct = (unsigned)c.range(5, 60);
	bool dec = c.prob(50);
	c.note("%s bt=%zu n=%zu level=%d threads=%d shift=%zd mode=%d k=%ld pct=%u", dec ? "decompress" : "compress", a.bt, n, s.level, s.threads, (ssize_t)s.shift, mode, k, pct);
	long faults = 0;
	auto once = [&](uint64_t seed) {
		al::arm(mode == 0 ? al::One : mode == 1 ? al::From : al::Random, k, 0, pct, seed);
		stenos_context* x = stenos_make_context();
		if (x) {
			s.apply(x);
			size_t r = dec ? stenos_decompress_generic(x, frame.data(), a.bt, frame.size(), back.data(), n) : stenos_compress_generic(x, a.data.data(), a.bt, n, out.data(), cap);
			(void)r;
			stenos_destroy_context(x);
		}
		al::disarm();
		faults += al::st().failed.load();
	};
	if (s.threads == 1) {
		// thread-local buffers go away with the thread
		in_thread(true, [&] { once(1); });
		long l0 = al::st().live.load();
		in_thread(true, [&] { once(1); });
		in_thread(true, [&] { once(2); });
		long g = al::st().live.load() - l0;
		PBT_CHECK(c, g == 0, "%ld blocks of memory are left", g);
		c.label("exact");
	}
	else {
		auto growth = [&](uint64_t base) {
			long l0 = al::st().live.load();
			for (uint64_t i = 0; i < 12; ++i)
				once(base * 100 + i);
			return al::st().live.load() - l0;
		};
		growth(1);
		long g = growth(2);
		for (uint64_t t = 3; t < 12 && g >= 6; ++t)
			g = growth(t);
		PBT_CHECK(c, g < 6, "memory grows by %ld blocks with 12 contexts", g);
		c.label("growth");
	}
	if (faults)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
