// C05: damaged and hostile frames.
#include "codec_util.hpp"
#include <malloc.h>
#include <zstd.h>

using namespace cu;

namespace
{
	struct Frame
	{
		std::vector<uint8_t> b;
		size_t bt = 1;
		size_t n = 0; // original size
	};

	// Small values that are likely to matter, or anything.
	uint8_t some_byte(Case& c)
	{
		switch (c.pick({ 40, 20, 20, 20 })) {
			case 0:
				return (uint8_t)c.draw(256);
			case 1:
				return c.one_of<uint8_t>({ 0, 255, 1, 127, 128, 254 });
			case 2:
				return (uint8_t)(c.draw(16) * 17);
			default:
				return (uint8_t)c.draw(16);
		}
	}

	Frame valid(Case& c)
	{
		Opts o;
		o.scale = c.prob(80) ? 8 : 30;
		Cfg k = config(c, o);
		Frame f;
		f.bt = k.bt;
		f.n = k.bytes();
		std::vector<uint8_t> src(f.n);
		gen::content(c, src.data(), k.bt, f.n);
		f.b.resize(k.bound());
		size_t r = compress(k, src.data(), f.b.data(), f.b.size());
		if (stenos_has_error(r))
			throw pbt::Discard();
		f.b.resize(r);
		return f;
	}

	void w24(std::vector<uint8_t>& v, size_t at, size_t x)
	{
		for (int i = 0; i < 3; ++i)
			if (at + i < v.size())
				v[at + i] = (uint8_t)(x >> (8 * i));
	}

	void mutate(Case& c, Frame& f, const char** what)
	{
		auto& b = f.b;
		if (b.empty())
			return;
		size_t start = b[0] == 255 ? 12 : 8;
		auto blocks = walk(b.data(), b.size(), start);
		switch (c.pick({ 14, 10, 14, 8, 8, 8, 10, 6, 6, 10, 6 })) {
			case 0: { // bit flip
				size_t at = c.draw(b.size());
				b[at] ^= (uint8_t)(1u << c.draw(8));
				*what = "bit-flip";
				break;
			}
			case 1: { // overwrite a few bytes
				size_t at = c.draw(b.size()), n = 1 + c.draw(12);
				for (size_t i = at; i < std::min(b.size(), at + n); ++i)
					b[i] = some_byte(c);
				*what = "overwrite";
				break;
			}
			case 2: { // first bytes of a block payload: method codes, line headers, bases
				if (blocks.empty())
					break;
				auto& k = blocks[c.draw(blocks.size())];
				size_t at = k.at + 4 + c.logsize(std::min<size_t>(k.csize + 1, 2 * f.bt + 64));
				for (size_t i = at; i < std::min(b.size(), at + 1 + c.draw(3)); ++i)
					b[i] = some_byte(c);
				*what = "block-payload";
				break;
			}
			case 3: { // block kind
				if (blocks.empty())
					break;
				b[blocks[c.draw(blocks.size())].at] = c.prob(80) ? (uint8_t)c.range(0, 8) : (uint8_t)c.draw(256);
				*what = "block-kind";
				break;
			}
			case 4: { // block length
				if (blocks.empty())
					break;
				auto& k = blocks[c.draw(blocks.size())];
				size_t v = 0;
				switch (c.draw(4)) {
					case 0:
						v = c.draw(1u << 24);
						break;
					case 1:
						v = k.csize + c.range(0, 40) - std::min<size_t>(k.csize, 20);
						break;
					case 2:
						v = c.draw(40);
						break;
					default:
						v = b.size() - k.at - 4 + c.draw(4);
						break;
				}
				w24(b, k.at + 1, v);
				*what = "block-length";
				break;
			}
			case 5: { // frame header: kind, size, block size
				switch (c.draw(4)) {
					case 0:
						b[0] = c.prob(70) ? c.one_of<uint8_t>({ 0, 1, 2, 3, 4, 5, 255, 254 }) : (uint8_t)c.draw(256);
						break;
					case 1: {
						uint64_t v = c.prob(60) ? f.n + c.range(0, 600) - std::min<size_t>(f.n, 300) : c.draw(1ull << 56) >> c.draw(56);
						for (size_t i = 0; i < 7 && i + 1 < b.size(); ++i)
							b[1 + i] = (uint8_t)(v >> (8 * i));
						break;
					}
					case 2: // insert a block size
						b[0] = 255;
						if (start == 8 && b.size() >= 8)
							b.insert(b.begin() + 8, 4, 0);
						/* fall through */
					default: {
						uint32_t v = c.prob(50) ? (uint32_t)(f.bt * c.range(0, 1024)) : c.prob(50) ? (uint32_t)c.draw(70) : (uint32_t)(c.draw(1ull << 32) >> c.draw(32));
						for (size_t i = 0; i < 4 && 8 + i < b.size(); ++i)
							b[8 + i] = (uint8_t)(v >> (8 * i));
						break;
					}
				}
				*what = "frame-header";
				break;
			}
			case 6: { // remove bytes of a block, length field corrected
				if (blocks.empty())
					break;
				auto& k = blocks[c.draw(blocks.size())];
				if (k.csize == 0 || k.at + 4 + k.csize > b.size())
					break;
				size_t n = 1 + c.logsize(k.csize - 1);
				size_t at = c.prob(60) ? k.csize - n : c.draw(k.csize - n + 1);
				b.erase(b.begin() + (long)(k.at + 4 + at), b.begin() + (long)(k.at + 4 + at + n));
				w24(b, k.at + 1, k.csize - n);
				*what = "block-shortened";
				break;
			}
			case 7: { // insert bytes in a block, length corrected
				if (blocks.empty())
					break;
				auto& k = blocks[c.draw(blocks.size())];
				if (k.at + 4 + k.csize > b.size())
					break;
				size_t n = 1 + c.draw(20), at = c.draw(k.csize + 1);
				std::vector<uint8_t> x(n);
				for (auto& y : x)
					y = some_byte(c);
				b.insert(b.begin() + (long)(k.at + 4 + at), x.begin(), x.end());
				w24(b, k.at + 1, k.csize + n);
				*what = "block-lengthened";
				break;
			}
			case 8: { // cut
				b.resize(c.draw(b.size()));
				*what = "cut";
				break;
			}
			case 9: { // recompress a damaged block payload so that the inner decoder sees it
				if (blocks.empty())
					break;
				auto& k = blocks[c.draw(blocks.size())];
				if ((k.code != 5 && k.code != 2 && k.code != 3 && k.code != 4) || k.at + 4 + k.csize > b.size())
					break;
				std::vector<uint8_t> in(1u << 22);
				size_t r = ZSTD_decompress(in.data(), in.size(), b.data() + k.at + 4, k.csize);
				if (ZSTD_isError(r) || r == 0)
					break;
				in.resize(r);
				unsigned muts = 1 + (unsigned)c.draw(4);
				for (unsigned i = 0; i < muts && !in.empty(); ++i) {
					switch (c.draw(5)) {
						case 0:
							in[c.draw(in.size())] = some_byte(c);
							break;
						case 1:
							in[c.draw(std::min<size_t>(in.size(), f.bt + 32))] = some_byte(c);
							break;
						case 2:
							in.resize(in.size() - std::min<size_t>(in.size(), 1 + c.draw(40)));
							break;
						case 3:
							in.resize(c.draw(in.size() + 1));
							break;
						default:
							in.resize(in.size() + 1 + c.draw(300), some_byte(c));
							break;
					}
				}
				std::vector<uint8_t> out(ZSTD_compressBound(in.size()));
				size_t z = ZSTD_compress(out.data(), out.size(), in.data(), in.size(), 1);
				if (ZSTD_isError(z))
					break;
				b.erase(b.begin() + (long)(k.at + 4), b.begin() + (long)(k.at + 4 + k.csize));
				b.insert(b.begin() + (long)(k.at + 4), out.begin(), out.begin() + (long)z);
				w24(b, k.at + 1, z);
				*what = "inner-payload";
				break;
			}
			default: { // duplicate or drop a block
				if (blocks.empty())
					break;
				auto k = blocks[c.draw(blocks.size())];
				size_t e = std::min(b.size(), k.at + 4 + k.csize);
				std::vector<uint8_t> x(b.begin() + (long)k.at, b.begin() + (long)e);
				if (c.prob(50))
					b.erase(b.begin() + (long)k.at, b.begin() + (long)e);
				else {
					auto to = blocks[c.draw(blocks.size())];
					b.insert(b.begin() + (long)std::min(b.size(), to.at), x.begin(), x.end());
				}
				*what = "block-moved";
				break;
			}
		}
	}

	// Payload of a "block" coded superblock written from scratch.
	std::vector<uint8_t> block_payload(Case& c, size_t bt, size_t bytes)
	{
		std::vector<uint8_t> p;
		size_t blocks = bytes / (bt * 256);
		auto junk = [&](size_t n) {
			uint64_t s = c.draw(1u << 20);
			pbt::Rng r(s);
			bool small = c.prob(50);
			for (size_t i = 0; i < n; ++i)
				p.push_back((uint8_t)(small ? r.below(20) : r.next()));
		};
		for (size_t b = 0; b < blocks && p.size() < (1u << 18); ++b) {
			switch (c.pick({ 50, 15, 20, 15 })) {
				case 0: { // methods per byte plane
					size_t at = p.size();
					p.resize(at + (bt + 1) / 2, 0);
					for (size_t i = 0; i < bt; ++i) {
						unsigned m = c.prob(92) ? (unsigned)c.draw(4) : (unsigned)c.draw(16);
						p[at + i / 2] |= (uint8_t)(m << (4 * (i & 1)));
						switch (m) {
							case 0:
								p.push_back((uint8_t)c.draw(256));
								break;
							default: {
								// 16 line headers then anything
								size_t h = p.size();
								p.resize(h + 8);
								for (int l = 0; l < 8; ++l)
									p[h + l] = some_byte(c);
								junk(c.draw(280));
								break;
							}
						}
						if (bt > 64 && i > 64 && c.prob(90))
							break;
					}
					break;
				}
				case 1: // raw copy, sometimes short
					p.push_back(0xFC);
					junk(c.prob(60) ? bt * 256 : c.draw(bt * 256));
					break;
				case 2: { // LZ
					p.push_back(0xFD);
					if (c.prob(65)) {
						// as an encoder would write it, except for an offset now and then, and for the number of groups
						size_t w = c.prob(92) ? (bt % 8 == 0 ? 8 : bt <= 2 || bt % 4 == 0 ? 4 : bt % 6 == 0 ? 6 : bt % 3 == 0 ? 3 : 4) : c.one_of<size_t>({ 3, 4, 6, 8 });
						size_t need = 256 * bt / w / 8, groups = need;
						switch (c.pick({ 45, 30, 25 })) {
							case 1:
								groups += c.logsize(3 * need + 40);
								break;
							case 2:
								groups = c.draw(need + 1);
								break;
						}
						pbt::Rng r(c.draw(1u << 20));
						unsigned match = (unsigned)c.range(0, 100), bad = c.prob(60) ? 0 : 5;
						size_t words = 0;
						for (size_t g = 0; g < groups && p.size() < (1u << 18); ++g) {
							uint8_t a = 0;
							for (int j = 0; j < 8; ++j)
								a |= (uint8_t)((g || j) && r.prob(match) ? 1u << j : 0);
							p.push_back(a);
							for (int j = 0; j < 8; ++j, ++words) {
								if ((a >> j) & 1) {
									size_t off = r.prob(70) ? 1 + r.below(std::min<size_t>(words, 40)) : 1 + r.below(words);
									if (bad && r.below(1000) < bad)
										off = r.prob(30) ? 0 : words + r.below(3);
									if (off > 32767)
										off = 32767;
									if (off < 128)
										p.push_back((uint8_t)off);
									else {
										p.push_back((uint8_t)((off & 127) | 128));
										p.push_back((uint8_t)(off >> 7));
									}
								}
								else
									for (size_t q = 0; q < w; ++q)
										p.push_back((uint8_t)r.next());
							}
						}
						if (c.prob(15))
							p.resize(p.size() - std::min<size_t>(p.size(), c.draw(20)));
						c.label("lz-written");
						break;
					}
					size_t groups = c.prob(50) ? (256 * bt) / 8 / 8 : c.draw(40);
					for (size_t g = 0; g < groups && p.size() < (1u << 18); ++g) {
						uint8_t a = c.prob(40) ? 255 : (uint8_t)c.draw(256);
						p.push_back(a);
						junk(c.prob(70) ? 8 : c.draw(64));
					}
					break;
				}
				default:
					p.push_back((uint8_t)c.draw(256));
					junk(c.draw(300));
					break;
			}
			if (c.prob(10))
				break;
		}
		if (bytes % (bt * 256) && c.prob(80)) {
			p.push_back(c.prob(85) ? 0xFE : (uint8_t)c.draw(256));
			junk(c.draw(bytes % (bt * 256) + 20));
		}
		return p;
	}

	Frame synthetic(Case& c)
	{
		Frame f;
		f.bt = gen::element_size(c, 700);
		size_t sb = f.bt * 256;
		bool custom = c.prob(60);
		uint8_t kind = 255;
		if (custom)
			sb = c.prob(70) ? f.bt * 256 * c.range(1, 3) : c.prob(50) ? c.range(1, 3000) : f.bt * c.range(1, 600);
		else {
			kind = (uint8_t)c.draw(5);
			sb = gen::default_superblock(f.bt) << kind;
		}
		size_t nb = c.range(1, 4);
		f.n = custom ? (nb - 1) * sb + 1 + c.draw(sb) : 1 + c.draw(std::min<size_t>(sb * 2, 200000));
		if (f.n > 3000000)
			f.n = 3000000;
		auto& b = f.b;
		b.push_back(kind);
		for (int i = 0; i < 7; ++i)
			b.push_back((uint8_t)(f.n >> (8 * i)));
		if (custom)
			for (int i = 0; i < 4; ++i)
				b.push_back((uint8_t)(sb >> (8 * i)));
		for (size_t at = 0; at < f.n && b.size() < (1u << 20); at += sb) {
			size_t len = std::min(sb, f.n - at);
			uint8_t code = (uint8_t)c.one_of<int>({ 1, 5, 1, 5, 2, 3, 4, 6, 1, 0, 7 });
			std::vector<uint8_t> p;
			if (code == 1 || code == 5)
				p = block_payload(c, f.bt, len);
			else {
				size_t m = len;
				switch (c.draw(5)) {
					case 0:
						m = c.draw(len + 1);
						break;
					case 1:
						m = len + c.range(1, 300);
						break;
					case 2:
						m = len ? len - 1 : 0;
						break;
				}
				p.resize(m);
				mem::fill(p.data(), m, c.draw(1000) + 1);
				if (c.prob(50))
					for (auto& x : p)
						x &= 3;
			}
			if (code >= 2 && code <= 5 && c.prob(90)) {
				std::vector<uint8_t> z(ZSTD_compressBound(p.size()));
				size_t r = ZSTD_compress(z.data(), z.size(), p.data(), p.size(), 1);
				z.resize(r);
				p.swap(z);
			}
			b.push_back(code);
			size_t cl = c.prob(92) ? p.size() : c.draw(1u << 24);
			for (int i = 0; i < 3; ++i)
				b.push_back((uint8_t)(cl >> (8 * i)));
			b.insert(b.end(), p.begin(), p.end());
		}
		return f;
	}

	struct Good
	{
		std::vector<uint8_t> frame, data;
		size_t bt;
	};
	const std::vector<Good>& goods()
	{
		static std::vector<Good> g;
		if (g.empty()) {
			pbt::Rng r(3);
			for (size_t bt : { 1, 3, 8, 16 })
				for (int kind : { 1, 3, 4 }) {
					Good x;
					x.bt = bt;
					x.data.resize(bt * 900);
					gen::fill_kind(r, (unsigned)kind, x.data.data(), bt, x.data.size());
					x.frame.resize(stenos_bound(x.data.size()));
					size_t s = stenos_compress(x.data.data(), bt, x.data.size(), x.frame.data(), x.frame.size(), 2);
					x.frame.resize(stenos_has_error(s) ? 0 : s);
					g.push_back(x);
				}
		}
		return g;
	}
}

PBT_PROP(C05)
{
	Frame f;
	const char* what = "none";
	goods();
	switch (c.pick({ 55, 35, 10 })) {
		case 0: {
			f = valid(c);
			unsigned n = 1 + (unsigned)c.pick({ 60, 25, 10, 5 });
			for (unsigned i = 0; i < n; ++i) {
				what = "none";
				mutate(c, f, &what);
				c.label(std::string("mutation:") + what);
				c.note("%s", what);
			}
			break;
		}
		case 1:
			f = synthetic(c);
			c.label("synthetic");
			if (c.prob(20)) {
				mutate(c, f, &what);
				c.note("%s", what);
			}
			break;
		default: {
			f.bt = gen::element_size(c);
			f.b.resize(c.logsize(4000));
			for (auto& x : f.b)
				x = (uint8_t)c.draw(256);
			if (!f.b.empty() && c.prob(70))
				f.b[0] = c.one_of<uint8_t>({ 0, 1, 4, 255 });
			for (size_t i = 3; i < 8 && i < f.b.size(); ++i)
				if (c.prob(80))
					f.b[i] = 0;
			f.n = f.b.size() >= 8 ? f.b[1] + f.b[2] * 256u + f.b[3] * 65536u : c.draw(1000);
			c.label("random-bytes");
			break;
		}
	}
	size_t bt = f.bt;
	if (c.prob(12)) {
		bt = c.prob(60) ? gen::element_size(c) : c.one_of<size_t>({ 0, 65535, 65536, 1ull << 32, (size_t)-1 });
		c.label("other-element-size");
	}
	GBuf src(f.b.size(), !c.prob(10), (unsigned)c.draw(16));
	if (!f.b.empty())
		memcpy(src.data(), f.b.data(), f.b.size());
	size_t ds = f.n;
	switch (c.pick({ 70, 10, 10, 10 })) {
		case 1:
			ds = f.n + c.draw(600);
			break;
		case 2:
			ds = c.draw(f.n + 1);
			break;
		case 3:
			ds = std::min<size_t>(f.n + 1000000, 4u << 20);
			break;
		default:
			break;
	}
	int threads = c.prob(25) ? (int)c.range(2, 6) : (int)c.draw(2);
	c.note("frame=%zuB bt=%zu dst=%zu threads=%d", f.b.size(), bt, ds, threads);

	if (const char* d = getenv("VH_DUMP")) {
		FILE* o = fopen(d, "wb");
		fwrite(f.b.data(), 1, f.b.size(), o);
		fclose(o);
	}
	stenos_info inf;
	size_t g = stenos_get_info(src.data(), bt, f.b.size(), &inf);
	if (!stenos_has_error(g))
		PBT_CHECK(c, g <= 12 && g <= f.b.size(), "inspection reports a header of %zu bytes for %zu bytes", g, f.b.size());

	Ctx x;
	stenos_set_threads(x, threads);
	GBuf dst(ds, true, (unsigned)c.draw(16));
	std::vector<uint8_t> first;
	size_t res[2];
	for (int round = 0; round < 2; ++round) {
		mallopt(M_PERTURB, round ? 0x5A : 0x21);
		mem::fill(dst.data(), ds, 11 + (uint64_t)round);
		size_t r = threads == 0 ? stenos_decompress(src.data(), bt, f.b.size(), dst.data(), ds) : stenos_decompress_generic(x, src.data(), bt, f.b.size(), dst.data(), ds);
		res[round] = r;
		PBT_CHECK(c, same(src.data(), f.b.data(), f.b.size()), "the input was modified");
		if (!stenos_has_error(r)) {
			PBT_CHECK(c, r <= ds, "reports %zu bytes in a destination of %zu", r, ds);
			PBT_CHECK(c, r == 0 || !stenos_has_error(g), "decompresses although inspection of the header fails");
			PBT_CHECK(c, r == 0 || r == inf.decompressed_size, "decompresses to %zu bytes, inspection says %zu", r, inf.decompressed_size);
			c.label("outcome:decoded");
			if (round == 0)
				first.assign(dst.data(), dst.data() + r);
			else if (!stenos_has_error(res[0]) && r == res[0])
				PBT_CHECK(c, same(first.data(), dst.data(), r), "success reported but byte %zu of %zu is not determined by the frame", first_diff(first.data(), dst.data(), r), r);
		}
		else
			c.label(std::string("outcome:") + errname(r));
		// the context still works
		auto& gd = goods();
		const Good& k = gd[c.draw(gd.size())];
		if (!k.frame.empty()) {
			std::vector<uint8_t> o(k.data.size());
			size_t d = stenos_decompress_generic(x, k.frame.data(), k.bt, k.frame.size(), o.data(), o.size());
			PBT_CHECK(c, d == k.data.size() && o == k.data, "after a damaged frame the context fails on a valid frame: %s", errname(d));
		}
	}
	mallopt(M_PERTURB, 0);
	if (f.b.size() > 12)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
