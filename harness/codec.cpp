// Codec properties that need only the public C API: C01, C02, C03, C04, C06, C11, C13.
#include "codec_util.hpp"

using namespace cu;

static std::vector<uint8_t> scratch_copy(const GBuf& b) { return std::vector<uint8_t>(b.data(), b.data() + b.size()); }

static void verify_roundtrip(Case& c, const Cfg& k, const uint8_t* src, const uint8_t* frame, size_t r, int dthreads, const char* what)
{
	size_t n = k.bytes();
	GBuf f(r, true, 3), out(n, true, 5);
	memcpy(f.data(), frame, r);
	mem::fill(out.data(), n, 77);
	size_t d = decompress(dthreads, f.data(), k.bt, r, out.data(), n);
	PBT_CHECK(c, !stenos_has_error(d), "%s: decompression of a valid frame fails with %s (decompress threads=%d)", what, errname(d), dthreads);
	PBT_CHECK(c, d == n, "%s: decompressed size %zu instead of %zu", what, d, n);
	if (!same(out.data(), src, n)) {
		size_t i = first_diff(out.data(), src, n);
		c.fail("%s: byte %zu of %zu differs after the round trip (got %u, expected %u; element %zu, block %zu)", what, i, n, out.data()[i], src[i], i / k.bt, i / k.bt / 256);
	}
}

PBT_PROP(C01)
{
	Cfg k = config(c);
	size_t n = k.bytes();
	GBuf src(n, !c.prob(15), (unsigned)c.draw(16));
	gen::content(c, src.data(), k.bt, n);
	size_t cap = k.bound();
	GBuf dst(cap, true, 1);
	size_t r = compress(k, src.data(), dst.data(), cap);
	PBT_CHECK(c, !stenos_has_error(r), "compression into a buffer of the worst-case size fails with %s", errname(r));
	PBT_CHECK(c, r <= cap, "compressed size %zu exceeds the destination size %zu", r, cap);
	PBT_CHECK(c, n > 0 || r <= 12, "empty input gives %zu bytes", r);
	label_codes(c, dst.data(), r);
	int dt = c.prob(25) ? (int)c.range(2, 9) : (int)c.draw(2);
	verify_roundtrip(c, k, src.data(), dst.data(), r, dt, "round trip");
	if (n >= 128)
		c.nontrivial();
}

PBT_PROP(C02)
{
	Opts o;
	o.custom = false; // the bound is documented for the default block sizes
	Cfg k;
	size_t n;
	if (c.prob(40)) {
		// element sizes around 257 give the smallest superblock: most framing per byte
		k.bt = c.one_of<size_t>({ 257, 258, 260, 256, 300, 171, 129, 86, 512, 511, 65, 1, 2, 4, 513 });
		k.level = level(c, o);
		k.threads = c.prob(30) ? (int)c.range(2, 8) : 1;
		k.ctx = true;
		size_t se = gen::default_superblock(k.bt) / k.bt;
		k.elems = se * c.range(0, 6) + c.range(0, 3) * c.range(0, 40);
		if (size_cap(k.eff_level(), o) * 2 < k.bytes())
			k.level = 1;
		c.note("bt=%zu elems=%zu bytes=%zu level=%d threads=%d", k.bt, k.elems, k.bytes(), k.level, k.threads);
		c.label("aimed-at-bound");
	}
	else
		k = config(c, o);
	n = k.bytes();
	GBuf src(n, true, (unsigned)c.draw(16));
	// mostly (nearly) incompressible
	unsigned kind = (unsigned)c.pick({ 30, 40, 30 });
	if (kind == 0) {
		uint64_t s = c.draw(1ull << 32);
		pbt::Rng r(s);
		gen::fill_kind(r, 2, src.data(), k.bt, n);
		c.label("content:random");
		c.note("random seed=%llu", (unsigned long long)s);
	}
	else if (kind == 1) {
		uint64_t s = c.draw(1ull << 32);
		pbt::Rng r(s);
		gen::fill_kind(r, 9, src.data(), k.bt, n);
		c.label("content:near-random");
		c.note("near-random seed=%llu", (unsigned long long)s);
	}
	else
		gen::content(c, src.data(), k.bt, n);
	size_t bound = stenos_bound(n);
	PBT_CHECK(c, bound == stenos::compress_bound(n), "C bound %zu differs from C++ bound %zu", bound, stenos::compress_bound(n));
	PBT_CHECK(c, bound >= n && bound <= n + 12 + 4 * (n / 65792 + 1), "bound(%zu) = %zu is not raw size plus small framing", n, bound);
	GBuf dst(bound, true, 1);
	size_t r = compress(k, src.data(), dst.data(), bound);
	PBT_CHECK(c, !stenos_has_error(r), "destination of the advertised bound %zu is not enough: %s", bound, errname(r));
	PBT_CHECK(c, r <= bound, "result %zu larger than the bound %zu", r, bound);
	// raw size + header + 4 per block
	size_t blocks = n ? (n + k.sb() - 1) / k.sb() : 0;
	stenos_info inf;
	size_t g = stenos_get_info(dst.data(), k.bt, r, &inf);
	if (!stenos_has_error(g) && inf.superblock_size)
		blocks = n / inf.superblock_size + (n % inf.superblock_size ? 1 : 0);
	PBT_CHECK(c, r <= 12 + n + 4 * blocks, "result %zu larger than raw copy (%zu bytes in %zu blocks)", r, n, blocks);
	label_codes(c, dst.data(), r);
	c.label(r > n ? "expanded" : "reduced");
	verify_roundtrip(c, k, src.data(), dst.data(), r, (int)c.draw(3), "frame of bound size");
	if (n >= 128 && r * 10 > n * 8)
		c.nontrivial();
}

PBT_PROP(C03)
{
	Opts o;
	o.scale = 60;
	Cfg k = config(c, o);
	size_t n = k.bytes();
	GBuf src(n, !c.prob(20), (unsigned)c.draw(16));
	gen::content(c, src.data(), k.bt, n);
	std::vector<uint8_t> orig = scratch_copy(src);
	size_t cap = k.bound();
	// reference size
	size_t ref;
	{
		GBuf full(cap, true, 0);
		ref = compress(k, src.data(), full.data(), cap);
		PBT_CHECK(c, same(src.data(), orig.data(), n), "source modified");
		if (stenos_has_error(ref))
			ref = cap;
	}
	std::unique_ptr<Ctx> keep;
	if (c.prob(30))
		keep.reset(new Ctx());
	size_t tries = 1 + c.draw(n > 100000 ? 3 : n > 20000 ? 6 : 14);
	bool tight = false;
	for (size_t t = 0; t < tries; ++t) {
		size_t ds = 0;
		switch (c.pick({ 10, 20, 30, 12, 14, 14 })) {
			case 0:
				ds = c.range(0, 24);
				break;
			case 1:
				ds = c.draw(ref + 1);
				break;
			case 2: { // around the size actually needed
				size_t d = c.range(0, 40);
				ds = c.prob(50) ? ref + d : (ref > d ? ref - d : 0);
				break;
			}
			case 3: // around the end of some block of the frame
				ds = (size_t)((double)ref * (double)c.draw(1000) / 1000.0);
				break;
			case 4:
				ds = c.prob(50) ? n + c.range(0, 20) : (n > 20 ? n - c.range(0, 20) : n);
				break;
			default:
				ds = cap + c.range(0, 10) - (cap > 5 ? 5 : 0);
				break;
		}
		GBuf dst(ds, true, (unsigned)c.draw(16));
		mem::fill(dst.data(), ds, 5);
		c.note("dst_size=%zu (full frame %zu)", ds, ref);
		size_t r = keep ? compress(k, src.data(), dst.data(), ds, *keep) : compress(k, src.data(), dst.data(), ds);
		PBT_CHECK(c, same(src.data(), orig.data(), n), "source modified");
		if (stenos_has_error(r)) {
			c.label(std::string("result:") + errname(r));
			PBT_CHECK(c, ds < cap, "error %s although the destination has the worst-case size", errname(r));
			continue;
		}
		c.label("result:ok");
		PBT_CHECK(c, r <= ds, "returned size %zu exceeds the destination size %zu", r, ds);
		if (ds < cap)
			tight = true;
		verify_roundtrip(c, k, orig.data(), dst.data(), r, (int)c.draw(3), "frame in a small destination");
	}
	if (n >= 128 && tries > 1)
		c.nontrivial();
	c.label_if(tight, "success-below-bound");
}

PBT_PROP(C04)
{
	Opts o;
	o.scale = 60;
	Cfg k = config(c, o);
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	gen::content(c, src.data(), k.bt, n);
	size_t cap = k.bound();
	std::vector<uint8_t> full(cap);
	size_t r = compress(k, src.data(), full.data(), cap);
	if (stenos_has_error(r))
		throw pbt::Discard();
	label_codes(c, full.data(), r);
	GBuf f(r, true, (unsigned)c.draw(16));
	memcpy(f.data(), full.data(), r);
	size_t tries = 1 + c.draw(n > 100000 ? 2 : 5);
	std::unique_ptr<Ctx> keep;
	if (c.prob(30))
		keep.reset(new Ctx());
	for (size_t t = 0; t < tries; ++t) {
		size_t ds = n;
		switch (t == 0 ? 0 : c.pick({ 20, 25, 20, 20, 15 })) {
			case 0:
				ds = n;
				break;
			case 1:
				ds = n ? n - 1 - c.draw(std::min<size_t>(n, 40)) : 0;
				break;
			case 2:
				ds = c.draw(n + 1);
				break;
			case 3:
				ds = n + c.range(1, 100);
				break;
			default:
				ds = n > k.bt ? n - k.bt * c.draw(std::min<size_t>(k.elems, 300)) : 0;
				break;
		}
		int threads = c.prob(30) ? (int)c.range(2, 8) : (int)c.draw(2);
		GBuf dst(ds, !c.prob(15), (unsigned)c.draw(16));
		uint64_t seed = 1 + t;
		mem::fill(dst.data(), ds, seed);
		std::vector<uint8_t> before = scratch_copy(dst);
		c.note("dst_size=%zu dthreads=%d", ds, threads);
		size_t d;
		if (keep) {
			stenos_set_threads(*keep, threads);
			d = stenos_decompress_generic(*keep, f.data(), k.bt, r, dst.data(), ds);
		}
		else
			d = decompress(threads, f.data(), k.bt, r, dst.data(), ds);
		PBT_CHECK(c, same(f.data(), full.data(), r), "the frame was modified");
		if (ds < n) {
			PBT_CHECK(c, stenos_has_error(d), "destination of %zu bytes for %zu bytes of data: returned %zu instead of an error", ds, n, d);
			c.label("dst:too-small");
			continue;
		}
		PBT_CHECK(c, !stenos_has_error(d), "valid frame rejected: %s", errname(d));
		PBT_CHECK(c, d == n, "returned %zu instead of %zu", d, n);
		PBT_CHECK(c, same(dst.data(), src.data(), n), "wrong data at byte %zu", first_diff(dst.data(), src.data(), n));
		PBT_CHECK(c, same(dst.data() + n, before.data() + n, ds - n), "bytes behind the data were overwritten (first at +%zu)", first_diff(dst.data() + n, before.data() + n, ds - n));
		c.label(ds == n ? "dst:exact" : "dst:larger");
	}
	if (n >= 128)
		c.nontrivial();
}

PBT_PROP(C06)
{
	Opts o;
	o.scale = 60;
	Cfg k = config(c, o);
	if (k.elems == 0)
		k.elems = 1;
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	gen::content(c, src.data(), k.bt, n);
	size_t cap = k.bound();
	std::vector<uint8_t> full(cap);
	size_t r = compress(k, src.data(), full.data(), cap);
	if (stenos_has_error(r))
		throw pbt::Discard();
	label_codes(c, full.data(), r);
	auto blocks = walk(full.data(), r, full[0] == 255 ? 12 : 8);
	size_t cuts = 1 + c.draw(n > 100000 ? 6 : 24);
	for (size_t t = 0; t < cuts; ++t) {
		size_t at = 0;
		switch (c.pick({ 20, 25, 25, 15, 15 })) {
			case 0:
				at = c.draw(std::min<size_t>(r, 17));
				c.label("cut:header");
				break;
			case 1:
				at = c.draw(r);
				c.label("cut:anywhere");
				break;
			case 2: { // around a block boundary
				const BlockPos& b = blocks[c.draw(blocks.size())];
				at = b.at + c.range(0, 8);
				at = at > 3 ? at - 3 : 0;
				c.label("cut:block-boundary");
				break;
			}
			case 3:
				at = r - 1 - c.draw(std::min<size_t>(r, 20));
				c.label("cut:last-bytes");
				break;
			default: // inside the last block
				at = blocks.back().at + c.draw(r - blocks.back().at);
				c.label("cut:last-block");
				break;
		}
		if (at >= r)
			at = r - 1;
		int threads = c.prob(35) ? (int)c.range(2, 9) : (int)c.draw(2);
		GBuf f(at, true, 1), dst(n, true, 2);
		memcpy(f.data(), full.data(), at);
		mem::fill(dst.data(), n, 3);
		c.note("cut=%zu/%zu dthreads=%d", at, r, threads);
		size_t d = decompress(threads, f.data(), k.bt, at, dst.data(), n);
		PBT_CHECK(c, stenos_has_error(d), "truncated frame (%zu of %zu bytes) decodes with result %zu (original size %zu)", at, r, d, n);
	}
	if (n >= 128)
		c.nontrivial();
}

PBT_PROP(C11)
{
	Opts o;
	o.scale = 40;
	Cfg k = config(c, o);
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	gen::content(c, src.data(), k.bt, n);
	size_t cap = k.bound() + 64;
	std::vector<uint8_t> full(cap);
	bool limited = k.ctx && c.prob(20);
	size_t r;
	{
		Ctx x;
		if (limited) {
			stenos_set_max_nanoseconds(x, c.prob(50) ? 3600000000000ull : 1 + c.draw(100000));
			k.shift = -1;
			c.label("time-limited");
		}
		r = k.ctx ? compress(k, src.data(), full.data(), cap, x) : compress(k, src.data(), full.data(), cap);
	}
	if (stenos_has_error(r))
		throw pbt::Discard();
	stenos_info ref;
	memset(&ref, 0xAB, sizeof(ref));
	size_t h = 0;
	{
		GBuf f(r, true, 1);
		memcpy(f.data(), full.data(), r);
		h = stenos_get_info(f.data(), k.bt, r, &ref);
	}
	PBT_CHECK(c, !stenos_has_error(h), "inspection of a valid frame fails: %s", errname(h));
	PBT_CHECK(c, h <= 12 && h <= r && h > 0, "header length %zu", h);
	PBT_CHECK(c, ref.decompressed_size == n, "original size %zu reported as %zu", n, ref.decompressed_size);
	PBT_CHECK(c, ref.superblock_size % (k.bt * 256) == 0 && ref.superblock_size > 0 && ref.superblock_size < STENOS_MAX_BLOCK_BYTES, "block size %zu for element size %zu", ref.superblock_size, k.bt);
	if (k.shift >= 0)
		PBT_CHECK(c, ref.superblock_size == (k.bt * 256) << k.shift, "custom block size %zu reported as %zu", (k.bt * 256) << k.shift, ref.superblock_size);
	// the frame is made of exactly as many blocks
	{
		auto b = walk(full.data(), r, h);
		size_t want = n / ref.superblock_size + (n % ref.superblock_size ? 1 : 0);
		size_t end = b.empty() ? h : b.back().at + 4 + b.back().csize;
		PBT_CHECK(c, b.size() == want && end == r, "frame of %zu bytes holds %zu blocks (end %zu); reported block size %zu implies %zu", r, b.size(), end, ref.superblock_size, want);
	}
	for (size_t p = 0; p <= std::min<size_t>(r, 16); ++p) {
		GBuf f(p, true, (unsigned)p);
		memcpy(f.data(), full.data(), p);
		stenos_info i;
		memset(&i, 0xCD, sizeof(i));
		size_t g = stenos_get_info(f.data(), k.bt, p, &i);
		if (p >= h)
			PBT_CHECK(c, g == h && i.decompressed_size == n && i.superblock_size == ref.superblock_size, "prefix of %zu bytes (header %zu): result %s, size %zu, block %zu", p, h, errname(g), i.decompressed_size, i.superblock_size);
		else
			PBT_CHECK(c, stenos_has_error(g), "prefix of %zu bytes (header %zu) accepted: %zu", p, h, g);
	}
	// invalid first byte
	{
		size_t p = std::min<size_t>(r, 16);
		GBuf f(p, true, 0);
		memcpy(f.data(), full.data(), p);
		f.data()[0] = (uint8_t)c.range(5, 254);
		stenos_info i;
		size_t g = stenos_get_info(f.data(), k.bt, p, &i);
		PBT_CHECK(c, stenos_has_error(g), "header with first byte %u accepted", f.data()[0]);
	}
	if (k.threads == 1 || n > ref.superblock_size)
		c.nontrivial();
}

// ---- C13: redundant data shrinks, level 0 stores verbatim

PBT_PROP(C13)
{
	Opts o;
	o.custom = false;
	Cfg k;
	if (c.prob(25)) { // level 0
		o.max_level = 9;
		k = config(c, o);
		k.level = c.prob(80) ? 0 : -5;
		size_t n = k.bytes();
		std::vector<uint8_t> src(n);
		gen::content(c, src.data(), k.bt, n);
		std::vector<uint8_t> dst(k.bound());
		size_t r = compress(k, src.data(), dst.data(), dst.size());
		PBT_CHECK(c, !stenos_has_error(r), "level 0 fails: %s", errname(r));
		stenos_info inf;
		size_t h = stenos_get_info(dst.data(), k.bt, r, &inf);
		PBT_CHECK(c, !stenos_has_error(h), "level 0 frame not recognised");
		size_t nb = n / inf.superblock_size + (n % inf.superblock_size ? 1 : 0);
		PBT_CHECK(c, r == h + n + 4 * nb, "level 0 frame of %zu bytes for %zu bytes in %zu blocks", r, n, nb);
		for (size_t b = 0; b < nb; ++b) {
			size_t off = b * inf.superblock_size, len = std::min(inf.superblock_size, n - off);
			PBT_CHECK(c, same(dst.data() + h + b * (inf.superblock_size + 4) + 4, src.data() + off, len), "level 0: block %zu is not stored verbatim", b);
		}
		c.label("family:level0");
		if (n)
			c.nontrivial();
		return;
	}
	k.bt = c.prob(70) ? c.one_of<size_t>({ 1, 2, 3, 4, 8, 5, 6, 7, 12, 16, 24, 32, 64, 100 }) : c.range(1, 300);
	k.level = (int)c.pick({ 0, 30, 20, 10, 10, 8, 6, 5, 5, 3 });
	k.threads = c.prob(30) ? (int)c.range(2, 6) : 1;
	// a limit of more time than needed by far: the strongest compression is chosen
	uint64_t ns = c.prob(7) ? c.one_of<uint64_t>({ 100000000000ull, 1000000000000ull, 86400000000000ull }) : 0;
	size_t cap = ns ? 60000 : k.level >= 9 ? 40000 : k.level >= 7 ? 80000 : 400000;
	size_t minel = 256 * 4;
	// rare: big elements
	if (c.rare(12)) {
		k.bt = c.prob(60) ? c.one_of<size_t>({ 400, 500, 504, 512, 513, 514, 520, 600, 768, 1000, 1024, 1200, 2048 }) : c.range(300, 2500);
		k.level = std::min(k.level, 4);
		minel = 256;
		ns = 0;
		c.label("big-elements");
	}
	// rare: several megabytes at the levels with the biggest superblocks
	bool big = !ns && k.bt <= 300 && c.prob(1);
	if (big) {
		k.level = 6 + (int)c.pick({ 15, 20, 20, 45 });
		if (c.prob(50))
			k.bt = 1;
		cap = c.range(1200000, 3300000);
		minel = cap * 3 / 4 / k.bt;
	}
	k.elems = minel + c.draw(std::max<size_t>(2, cap / k.bt > minel ? cap / k.bt - minel : 2));
	if (k.elems * k.bt < 8192)
		k.elems = 8192 / k.bt + 1;
	// whole blocks or not
	if (c.prob(50))
		k.elems -= k.elems % 256;
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	uint64_t seed = c.draw(1ull << 32);
	pbt::Rng r(seed + 17);
	double limit = 1; // fraction of n allowed (plus fixed slack)
	unsigned fam = (unsigned)c.pick({ 20, 20, 20, 20, 20, big ? 50u : 20u, 20 });
	const char* name = "";
	if (fam == 5 && k.level < 3 && !ns) // levels 1 and 2 do not look for this redundancy
		fam = 4;
	if (fam == 6 && (k.bt % 4 || k.bt > 64)) // level 1 looks for it in 4 and 8 byte words only, the others choose badly now and then
		fam = 4;
	switch (fam) {
		case 0: { // constant
			name = "constant";
			gen::fill_kind(r, 0, src.data(), k.bt, n);
			limit = 0.10;
			break;
		}
		case 1: { // slowly increasing little endian integer, other bytes constant
			name = "slow-counter";
			uint64_t v = r.below(1ull << 40);
			unsigned step = (unsigned)r.range(1, 3);
			for (size_t i = 0; i < k.elems; ++i) {
				v += r.below(step + 1);
				uint8_t b[8];
				memcpy(b, &v, 8);
				memset(src.data() + i * k.bt, 0x11, k.bt);
				memcpy(src.data() + i * k.bt, b, std::min<size_t>(8, k.bt));
			}
			limit = k.bt == 1 ? 0.60 : 0.10 + 0.60 / (double)k.bt;
			break;
		}
		case 2: { // one byte of the element carries a few bits, the others are constant
			name = "narrow";
			unsigned bits = (unsigned)r.range(1, 3);
			size_t at = r.below(k.bt);
			for (size_t i = 0; i < k.elems; ++i) {
				memset(src.data() + i * k.bt, 0x42, k.bt);
				src.data()[i * k.bt + at] = (uint8_t)(0x30 + r.below(1u << bits));
			}
			limit = k.bt == 1 ? 0.75 : 0.10 + 0.75 / (double)k.bt;
			break;
		}
		case 3: { // every element repeated 64..300 times
			name = "repeated";
			size_t i = 0;
			while (i < k.elems) {
				size_t run = std::min<size_t>(k.elems - i, r.range(64, 300));
				std::vector<uint8_t> e(k.bt);
				for (auto& x : e)
					x = (uint8_t)r.next();
				while (run--)
					memcpy(src.data() + (i++) * k.bt, e.data(), k.bt);
			}
			limit = 0.45;
			break;
		}
		case 6: { // few distinct elements, the next one is always another one
			name = "dictionary";
			size_t nd = r.range(2, 12);
			std::vector<uint8_t> d(nd * k.bt);
			for (auto& x : d)
				x = (uint8_t)r.next();
			for (size_t i = 0, last = nd; i < k.elems; ++i) {
				size_t e = r.below(last == nd ? nd : nd - 1);
				e += e >= last;
				memcpy(src.data() + i * k.bt, &d[e * k.bt], k.bt);
				last = e;
			}
			limit = k.level == 1 && !ns ? 0.85 : 0.45;
			break;
		}
		case 5: { // independent symbols of a small alphabet in every byte
			name = "symbols";
			unsigned na = (unsigned)r.range(2, 40);
			uint8_t base = (uint8_t)r.range(32, 80);
			unsigned mul = r.prob(50) ? 1 : 5; // consecutive or spread values
			for (size_t i = 0; i < n; ++i)
				src[i] = (uint8_t)(base + mul * r.below(na));
			limit = std::log2((double)na) / 8 + (na < 8 ? 0.30 : 0.20);
			break;
		}
		default: { // constant with rare exceptions
			name = "sparse";
			size_t e = n / 400;
			memset(src.data(), (int)r.below(256), n);
			for (size_t i = 0; i < e; ++i)
				src[r.below(n)] = (uint8_t)r.next();
			limit = 0.35;
			break;
		}
	}
	c.note("family=%s bt=%zu elems=%zu level=%d threads=%d seed=%llu", name, k.bt, k.elems, k.level, k.threads, (unsigned long long)seed);
	std::vector<uint8_t> dst(k.bound());
	size_t rr;
	if (ns) {
		c.note("time limit %llu ns", (unsigned long long)ns);
		c.label("generous-time-limit");
		stenos_context* x = stenos_make_context();
		PBT_CHECK(c, x, "stenos_make_context gives no context");
		stenos_set_level(x, k.level);
		stenos_set_threads(x, k.threads);
		stenos_set_max_nanoseconds(x, ns);
		rr = stenos_compress_generic(x, src.data(), k.bt, n, dst.data(), dst.size());
		stenos_destroy_context(x);
	}
	else
		rr = compress(k, src.data(), dst.data(), dst.size());
	PBT_CHECK(c, !stenos_has_error(rr), "compression fails: %s", errname(rr));
	double got = (double)rr;
	if (getenv("VH_RATIO"))
		printf("ratio %s bt=%zu level=%d %.4f limit %.4f\n", name, k.bt, ns ? 99 : k.level, (got - 300) / (double)n, limit);
	PBT_CHECK(c, got <= limit * (double)n + 300, "%s data of %zu bytes (element size %zu, level %d, threads %d) compresses only to %zu bytes, expected at most %.0f", name, n, k.bt, k.level, k.threads, rr, limit * (double)n + 300);
	verify_roundtrip(c, k, src.data(), dst.data(), rr, 1, "redundant data");
	label_codes(c, dst.data(), rr);
	c.label(std::string("family:") + name);
	c.label_if(big, "megabytes");
	c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
