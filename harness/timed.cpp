// C07 and C15: the library's clock readings are served by a scripted monotonic clock.
#include "codec_util.hpp"
#include "stenos/timer.hpp"
#include "clock.hpp"

using namespace cu;

namespace
{
	uint64_t start_time(Case& c)
	{
		uint64_t s = c.prob(70) ? c.draw(100000) : c.draw(1ull << 33);
		uint64_t ns = 0;
		switch (c.pick({ 30, 35, 35 })) {
			case 0:
				ns = c.draw(1000000000);
				break;
			case 1:
				ns = 999999999 - c.logsize(5000000);
				break;
			default:
				ns = c.logsize(5000000);
				break;
		}
		return s * 1000000000ull + ns;
	}
	uint64_t lognum(Case& c, unsigned bits)
	{
		unsigned b = (unsigned)c.draw(bits + 1);
		return b == 0 ? 0 : (1ull << (b - 1)) + c.draw(1ull << (b - 1));
	}
}

PBT_PROP(C07)
{
	Opts o;
	o.scale = c.prob(75) ? 20 : 60;
	o.max_level = 9;
	Cfg k = config(c, o);
	bool many = c.prob(14);
	if (many) {
		// several superblocks: with a time limit they hold at least 64 KB
		if (k.bt > 4000)
			k.bt = 1 + k.bt % 600;
		size_t se = gen::default_superblock(k.bt) / k.bt;
		k.elems = se * c.range(2, 10) + (c.prob(40) ? 0 : c.draw(se));
		c.note("changed to bt=%zu elems=%zu", k.bt, k.elems);
		c.label("size:time-limited-superblocks");
	}
	size_t n = k.bytes();
	// the limit
	uint64_t limit = 0;
	switch (many ? c.pick({ 30, 60, 10 }) : c.pick({ 35, 25, 15, 15, 5, 5 })) {
		case 0:
			limit = 1 + lognum(c, 30);
			break;
		case 1: // around the time the data needs
			limit = 1 + (uint64_t)(n * (0.01 + (double)c.draw(10000) / 100));
			break;
		case 2:
			limit = c.range(1, 1000);
			break;
		case 3:
			limit = 1000000ull * c.range(1, 100);
			break;
		case 4:
			limit = 3600ull * 1000000000ull * c.range(1, 10);
			break;
		default:
			limit = c.one_of<uint64_t>({ 1ull << 32, 1ull << 53, 1ull << 63, ~0ull, 1 });
			break;
	}
	Clock& ck = clk();
	unsigned mode = (unsigned)(many ? c.pick({ 1, 40, 40, 10, 8, 10 }) : c.pick({ 8, 34, 26, 14, 8, 10 }));
	const char* nm[] = { "frozen", "steady", "jump", "random", "stall", "real" };
	ck.mode = mode;
	ck.seed = c.draw(1u << 30);
	// number of readings to expect: a few per superblock and one per 256 elements
	uint64_t expect = 4 + n / (k.bt * 256) + 4 * (n / k.sb());
	uint64_t per = limit / expect + 1;
	ck.at = c.prob(35) ? c.range(1, 12) : 1 + c.draw(expect);
	switch (c.draw(3)) {
		case 0:
			ck.step = 1 + lognum(c, 24);
			break;
		case 1:
			ck.step = 1 + c.draw(per > (1ull << 60) ? 1ull << 60 : per * 2);
			break;
		default:
			ck.step = 1 + (per > (1ull << 50) ? 1ull << 50 : per * c.range(1, 64) / 8);
			break;
	}
	if (mode == 2) {
		if (c.prob(60))
			ck.step = c.draw(3);
		uint64_t l = std::min<uint64_t>(limit, 1ull << 61);
		ck.jump = c.prob(50) ? l + c.draw(1000) : c.prob(50) ? l - std::min<uint64_t>(l, c.draw(1 + n / 8)) : c.draw(2 * l);
	}
	if (mode == 2 && c.prob(25)) {
		ck.at = 1;
		ck.jump = std::min<uint64_t>(limit, 1ull << 61) + 1 + c.draw(100);
	}
	ck.jump = std::min<uint64_t>(ck.jump, 1ull << 62);
	ck.step = std::min<uint64_t>(ck.step, 1ull << 50);
	uint64_t t0 = start_time(c);
	if (t0 > (1ull << 61))
		t0 >>= 2;
	c.label(std::string("clock:") + nm[mode]);
	c.note("limit=%lluns clock=%s step=%llu at=%llu jump=%llu", (unsigned long long)limit, nm[mode], (unsigned long long)ck.step, (unsigned long long)ck.at, (unsigned long long)ck.jump);

	GBuf src(n, !c.prob(20), (unsigned)c.draw(16));
	gen::content(c, src.data(), k.bt, n);
	std::vector<uint8_t> orig(src.data(), src.data() + n);
	size_t bound = stenos_bound(n);
	GBuf dst(bound, true, (unsigned)c.draw(16));
	mem::fill(dst.data(), bound, 5);

	Ctx x;
	PBT_CHECK(c, x.p, "no context");
	unsigned rounds = 1 + (unsigned)c.prob(25); // the second use starts a new time budget
	for (unsigned round = 0; round < rounds; ++round) {
		apply(x, k);
		stenos_set_max_nanoseconds(x, limit);
		Off off;
		if (mode != 5)
			ck.start(t0);
		size_t r = stenos_compress_generic(x, src.data(), k.bt, n, dst.data(), bound);
		ck.on = false;
		uint64_t used = ck.t.load() - t0, reads = ck.n.load();
		PBT_CHECK(c, !stenos_has_error(r), "time limited compression of %zu bytes into the bound fails: %s", n, errname(r));
		PBT_CHECK(c, r <= bound, "%zu bytes written, bound %zu", r, bound);
		PBT_CHECK(c, same(src.data(), orig.data(), n), "the source was changed");
		stenos_info inf;
		size_t h = stenos_get_info(dst.data(), k.bt, r, &inf);
		PBT_CHECK(c, !stenos_has_error(h), "the frame cannot be inspected: %s", errname(h));
		PBT_CHECK(c, inf.decompressed_size == n, "inspection reports %zu bytes instead of %zu", inf.decompressed_size, n);
		GBuf out(n, true);
		mem::fill(out.data(), n, 77);
		int dt = (int)c.pick({ 40, 30, 0, 15, 15 });
		size_t d = decompress(dt, dst.data(), k.bt, r, out.data(), n);
		PBT_CHECK(c, d == n, "decompression of the time limited frame: %s instead of %zu", errname(d), n);
		PBT_CHECK(c, same(out.data(), orig.data(), n), "byte %zu of %zu differs", first_diff(out.data(), orig.data(), n), n);
		if (r) {
			label_codes(c, dst.data(), r);
			// Time used up right after the start: everything but the blocks in flight is stored.
			auto bl = walk(dst.data(), r, h);
			if (mode == 2 && ck.at == 1 && ck.jump > limit && n >= 128) { // at the very limit the time is not exceeded yet
				size_t inflight = 2 * (size_t)k.threads + 1;
				for (size_t i = inflight; i < bl.size(); ++i)
					PBT_CHECK(c, bl[i].code == 6, "the time was used up before block %zu, which is still compressed (kind %d)", i, bl[i].code);
				c.label_if(bl.size() > inflight, "expired-at-start");
			}
			// All the time of the world: redundant data must not be given up on.
			c.label_if(mode != 5 && used > limit, "limit-hit");
			c.label_if(mode != 5 && used <= limit && reads > 3, "limit-not-hit");
		}
		// without a limit the context must work normally again
		if (c.prob(10)) {
			stenos_set_max_nanoseconds(x, 0);
			size_t cap = k.bound();
			std::vector<uint8_t> f2(cap);
			size_t r2 = stenos_compress_generic(x, src.data(), k.bt, n, f2.data(), cap);
			PBT_CHECK(c, !stenos_has_error(r2), "unlimited compression after a limited one fails: %s", errname(r2));
			size_t d2 = decompress(0, f2.data(), k.bt, r2, out.data(), n);
			PBT_CHECK(c, d2 == n && same(out.data(), orig.data(), n), "unlimited compression after a limited one is not lossless");
		}
	}
	if (n >= 128)
		c.nontrivial();
}

PBT_PROP(C15)
{
	Clock& ck = clk();
	Off off;
	stenos_timer* t = stenos_make_timer();
	PBT_CHECK(c, t, "no timer");
	stenos::timer tt;
	unsigned rounds = 1 + (unsigned)c.draw(6);
	bool cross = false;
	for (unsigned i = 0; i < rounds; ++i) {
		uint64_t a = start_time(c);
		uint64_t d = 0;
		switch (c.pick({ 25, 25, 25, 15, 10 })) {
			case 0:
				d = lognum(c, 30);
				break;
			case 1: { // to the neighbourhood of a second boundary
				uint64_t s = c.range(0, 5) * 1000000000ull;
				d = s + (1000000000ull - a % 1000000000ull) + c.draw(5);
				d -= std::min<uint64_t>(d, c.draw(5));
				break;
			}
			case 2: // exact seconds
				d = c.range(0, 100) * 1000000000ull + c.draw(3);
				d -= std::min<uint64_t>(d, c.draw(3));
				break;
			case 3:
				d = lognum(c, 61);
				break;
			default:
				d = c.range(0, 3);
				break;
		}
		if (a + d < a || a + d > (1ull << 63))
			d = 0;
		bool cpp = c.prob(50);
		c.note("start=%llu.%09llu delta=%llu %s", (unsigned long long)(a / 1000000000ull), (unsigned long long)(a % 1000000000ull), (unsigned long long)d, cpp ? "stenos::timer" : "stenos_tock");
		ck.mode = 5;
		ck.second = d;
		ck.start(a);
		uint64_t e;
		if (cpp) {
			tt.tick();
			e = tt.tock();
		}
		else {
			stenos_tick(t);
			e = stenos_tock(t);
		}
		PBT_CHECK(c, e == d, "the clock advanced by %llu ns, the timer reports %llu", (unsigned long long)d, (unsigned long long)e);
		// later readings without a new start mark
		uint64_t prev = e, now = d;
		unsigned more = (unsigned)c.draw(6);
		for (unsigned j = 0; j < more; ++j) {
			uint64_t add = c.prob(20) ? 0 : c.prob(30) ? 1000000000ull - (a + now) % 1000000000ull : lognum(c, 36);
			if (a + now + add > (1ull << 63))
				break;
			ck.t.fetch_add(add);
			now += add;
			uint64_t f = cpp ? tt.tock() : stenos_tock(t);
			PBT_CHECK(c, f == now, "the clock advanced by %llu ns since the start mark, the timer reports %llu", (unsigned long long)now, (unsigned long long)f);
			PBT_CHECK(c, f >= prev, "the elapsed time went backwards");
			prev = f;
		}
		if (a / 1000000000ull != (a + now) / 1000000000ull)
			cross = true;
		ck.on = false;
	}
	c.label_if(cross, "second-boundary");
	if (cross)
		c.nontrivial();
	stenos_destroy_timer(t);
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
