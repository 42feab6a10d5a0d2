// C21: arguments outside their range are refused or clamped and leave no trace.
#include "codec_util.hpp"
#include <climits>

using namespace cu;

namespace
{
	// Any int, often at the borders
	int any_int(Case& c)
	{
		switch (c.pick({ 40, 20, 20, 20 })) {
			case 0:
				return (int)c.range(0, 12);
			case 1:
				return -(int)c.range(1, 300);
			case 2:
				return c.one_of<int>({ INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 255, 256, 257, 265, -255, -256, 65536, 65537, 1 << 30 });
			default:
				return (int)(uint32_t)c.draw(1ull << 32);
		}
	}
	// Element sizes that are not supported: 0 or 65535 and above
	size_t bad_size(Case& c)
	{
		size_t r;
		switch (c.pick({ 30, 25, 25, 20 })) {
			case 0:
				return 0;
			case 1:
				r = 65535 + c.draw(300);
				break;
			case 2: // 256 times this leaves 64 bits, or comes back to a small number
				r = ((size_t)1 << c.range(16, 63)) + c.draw(20);
				break;
			default:
				r = (size_t)0 - 1 - c.draw(c.prob(50) ? 300 : 1ull << 40);
				break;
		}
		return r < 65535 ? 65535 : r;
	}

	struct Model
	{
		int level = 1, threads = 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
	};
}

PBT_PROP(C21)
{
	// what is and what is not an error
	{
		size_t e = (size_t)0 - 1 - c.draw(9);
		PBT_CHECK(c, stenos_has_error(e), "stenos_has_error(%s) is false", errname(e));
		size_t s = c.prob(50) ? c.draw(1ull << 62) : c.one_of<size_t>({ 0, 1, 255, 65535, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)0xffffff9cu, (size_t)1 << 32, (size_t)1 << 63, ((size_t)1 << 56) - 1, (size_t)0 - 4096 });
		PBT_CHECK(c, !stenos_has_error(s), "stenos_has_error(%zu) is true", s);
	}
	Opts o;
	o.scale = 40;
	Cfg k = config(c, o);
	size_t n = k.bytes();
	std::vector<uint8_t> src(n);
	gen::content(c, src.data(), k.bt, n);
	size_t room = stenos_bound(n) + 12 + 4 * (k.elems / 256 + 2);
	std::vector<uint8_t> frame(room);
	size_t fs = stenos_compress(src.data(), k.bt, n, frame.data(), frame.size(), 1);
	PBT_CHECK(c, !stenos_has_error(fs), "compression fails: %s", errname(fs));

	Ctx x;
	Model m;
	unsigned steps = 1 + (unsigned)c.draw(9), refused = 0, clamped = 0;
	std::vector<uint8_t> out(room), want(room);
	uint64_t fillseed = c.draw(1000);
	auto prepare = [&](size_t sz) {
		out.resize(sz);
		mem::fill(out.data(), sz, fillseed);
		want = out;
	};
	auto check_refused = [&](const char* what, size_t r, size_t bt) {
		++refused;
		PBT_CHECK(c, r == STENOS_ERROR_INVALID_BYTESOFTYPE, "%s accepts an element size of %zu (result %s)", what, bt, errname(r));
		PBT_CHECK(c, out == want, "%s refuses an element size of %zu, but writes to the destination", what, bt);
	};
	for (unsigned i = 0; i < steps; ++i) {
		switch (c.pick({ 18, 18, 18, 6, 14, 12, 8, 10, 6 })) {
			case 0: {
				int l = any_int(c);
				size_t r = stenos_set_level(x, l);
				m.level = l < 0 ? 0 : l > 9 ? 9 : l;
				clamped += m.level != l;
				c.note("set_level %d", l);
				PBT_CHECK(c, !stenos_has_error(r), "stenos_set_level(%d) gives %s", l, errname(r));
				break;
			}
			case 1: {
				int t = any_int(c);
				if (t > 64 && !c.prob(5)) // as many threads as there are superblocks
					t = 1 + t % 64;
				size_t r = stenos_set_threads(x, t);
				m.threads = t < 1 ? 1 : t;
				clamped += m.threads != t;
				c.note("set_threads %d", t);
				PBT_CHECK(c, !stenos_has_error(r), "stenos_set_threads(%d) gives %s", t, errname(r));
				break;
			}
			case 2: {
				size_t s;
				switch (c.pick({ 40, 25, 20, 15 })) {
					case 0:
						s = c.draw(5);
						break;
					case 1:
						s = c.draw(16);
						break;
					case 2:
						s = STENOS_NO_BLOCK_SHIFT;
						break;
					default:
						s = c.one_of<size_t>({ 16, 17, 23, 24, 31, 32, 55, 56, 63, 64, 65, 255, 256, 257, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, (size_t)0 - 2, (size_t)0xffffffffu });
						break;
				}
				size_t r = stenos_set_block_size(x, s);
				c.note("set_block_size %zu", s);
				if (s < 16 || s == STENOS_NO_BLOCK_SHIFT) {
					PBT_CHECK(c, !stenos_has_error(r), "stenos_set_block_size(%zu) gives %s", s, errname(r));
					m.shift = s;
				}
				else {
					PBT_CHECK(c, stenos_has_error(r), "stenos_set_block_size accepts %zu", s);
					++refused;
					c.label("refused:block-shift");
				}
				break;
			}
			case 3:
				stenos_reset_context(x);
				m = Model();
				c.note("reset");
				break;
			case 4: {
				size_t bt = bad_size(c), sz = c.prob(80) ? room : c.draw(20);
				prepare(sz);
				bool ctx = c.prob(70);
				c.note("compress element size %zu", bt);
				size_t r = ctx ? stenos_compress_generic(x, src.data(), bt, n, out.data(), sz) : stenos_compress(src.data(), bt, n, out.data(), sz, any_int(c));
				check_refused(ctx ? "stenos_compress_generic" : "stenos_compress", r, bt);
				c.label("refused:compress");
				break;
			}
			case 5: {
				size_t bt = bad_size(c), sz = c.prob(80) ? n : c.draw(n + 1);
				prepare(sz);
				bool ctx = c.prob(70);
				c.note("decompress element size %zu", bt);
				size_t r = ctx ? stenos_decompress_generic(x, frame.data(), bt, fs, out.data(), sz) : stenos_decompress(frame.data(), bt, fs, out.data(), sz);
				check_refused(ctx ? "stenos_decompress_generic" : "stenos_decompress", r, bt);
				c.label("refused:decompress");
				break;
			}
			case 6: {
				size_t bt = bad_size(c);
				stenos_info info = { 77, 78 };
				c.note("get_info element size %zu", bt);
				size_t r = stenos_get_info(frame.data(), bt, fs, &info);
				++refused;
				PBT_CHECK(c, r == STENOS_ERROR_INVALID_BYTESOFTYPE, "stenos_get_info accepts an element size of %zu (result %s)", bt, errname(r));
				PBT_CHECK(c, info.decompressed_size == 77 && info.superblock_size == 78, "stenos_get_info refuses an element size of %zu, but changes the information", bt);
				c.label("refused:info");
				break;
			}
			case 7: { // a block size that is possible, but not for this element size
				size_t s = c.draw(16), bt = c.prob(50) ? k.bt : c.range(1, 65534);
				if (((uint64_t)bt * 256 << s) < gen::MAX_BLOCK)
					bt = std::min<size_t>(65534, gen::MAX_BLOCK / (256u << s) + 1 + c.draw(50));
				if (((uint64_t)bt * 256 << s) < gen::MAX_BLOCK)
					break;
				PBT_CHECK(c, !stenos_has_error(stenos_set_block_size(x, s)), "stenos_set_block_size(%zu) fails", s);
				prepare(room);
				c.note("compress element size %zu block shift %zu", bt, s);
				size_t r = stenos_compress_generic(x, src.data(), bt, n - n % bt, out.data(), room);
				PBT_CHECK(c, stenos_has_error(r), "a block of %zu elements of %zu bytes is accepted", (size_t)256 << s, bt);
				PBT_CHECK(c, out == want, "a block of %zu elements of %zu bytes is refused, but the destination is written", (size_t)256 << s, bt);
				PBT_CHECK(c, !stenos_has_error(stenos_set_block_size(x, m.shift)), "the block size cannot be set back");
				++refused;
				c.label("refused:block-size");
				break;
			}
			default:
				stenos_destroy_context(nullptr);
				stenos_reset_context(nullptr);
				c.note("null context");
				break;
		}
	}
	// The context now behaves as one that only got the valid values
	bool possible = m.shift == STENOS_NO_BLOCK_SHIFT || ((uint64_t)k.bt * 256 << m.shift) < gen::MAX_BLOCK;
	size_t cost = m.level >= 9 ? 20000 : m.level >= 7 ? 60000 : 400000;
	if (n > cost) {
		stenos_set_level(x, 3);
		m.level = 3;
	}
	Ctx y;
	stenos_set_level(y, m.level);
	stenos_set_threads(y, m.threads);
	stenos_set_block_size(y, m.shift);
	std::vector<uint8_t> a(room), b(room);
	size_t ra = stenos_compress_generic(x, src.data(), k.bt, n, a.data(), room);
	size_t rb = stenos_compress_generic(y, src.data(), k.bt, n, b.data(), room);
	PBT_CHECK(c, ra == rb, "compression after refused calls gives %s (%zu), with the valid values alone %s (%zu)", errname(ra), ra, errname(rb), rb);
	PBT_CHECK(c, stenos_has_error(ra) == !possible, "compression with valid settings gives %s", errname(ra));
	if (possible) {
		PBT_CHECK(c, same(a.data(), b.data(), ra), "compression after refused calls gives another frame than the valid values alone (byte %zu of %zu)", first_diff(a.data(), b.data(), ra), ra);
		prepare(n);
		size_t r = stenos_decompress_generic(x, a.data(), k.bt, ra, out.data(), n);
		PBT_CHECK(c, r == n && same(out.data(), src.data(), n), "the frame does not come back: %s", errname(r));
	}
	// one-shot call with any level
	int l = any_int(c), el = l < 0 ? 0 : l > 9 ? 9 : l;
	if (n > (el >= 9 ? 20000u : el >= 7 ? 60000u : 400000u))
		l = el = 3;
	ra = stenos_compress(src.data(), k.bt, n, a.data(), room, l);
	rb = stenos_compress(src.data(), k.bt, n, b.data(), room, el);
	PBT_CHECK(c, ra == rb && !stenos_has_error(ra) && same(a.data(), b.data(), ra), "stenos_compress at level %d gives %s, at level %d %s", l, errname(ra), el, errname(rb));
	clamped += l != el;
	if (clamped)
		c.label("clamped");
	if (refused || clamped)
		c.nontrivial();
	char s[200];
	snprintf(s, sizeof(s), "bt=%zu elems=%zu steps=%u refused=%u clamped=%u", k.bt, k.elems, steps, refused, clamped);
	c.note("%s", s);
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
