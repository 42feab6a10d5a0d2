// C01: inputs beyond 2 and 4 GiB. Mostly zero pages, with islands of other content.
#include "codec_util.hpp"
using namespace cu;

PBT_PROP(C01h)
{
	const size_t G = (size_t)1 << 30;
	size_t bt = c.one_of<size_t>({ 4, 1, 8, 2, 7, 16, 255, 300 });
	int level = 1 + (int)c.draw(3);
	int threads = c.prob(60) ? (int)c.range(2, 8) : 1;
	int dthreads = c.prob(60) ? (int)c.range(2, 8) : (int)c.draw(2);
	size_t n = (c.prob(70) ? 4 * G : 2 * G) + (c.prob(50) ? c.draw(64u << 20) : c.draw(2000));
	n -= n % bt;
	c.note("bt=%zu bytes=%zu level=%d threads=%d dthreads=%d", bt, n, level, threads, dthreads);
	uint8_t* src = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t cap = stenos_bound(n);
	PBT_CHECK(c, cap > n && cap < n + n / 100 + 1000, "the bound of %zu bytes is %zu", n, cap);
	uint8_t* dst = (uint8_t*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED || dst == MAP_FAILED)
		throw pbt::Discard();
	pbt::Rng r(c.draw(1u << 30));
	for (int i = 0; i < 24; ++i) {
		size_t at = i < 4 ? 2 * G - 1000 * r.below(50) : i < 8 ? 4 * G - 1000 * r.below(50) : i < 12 ? n - 1 - r.below(100000) : r.below(n);
		size_t len = 1 + r.below(100000);
		if (at >= n)
			continue;
		len = std::min(len, n - at);
		for (size_t k = 0; k < len; ++k)
			src[at + k] = i & 1 ? (uint8_t)r.next() : (uint8_t)(k / 100);
	}
	stenos_context* x = stenos_make_context();
	stenos_set_level(x, level);
	stenos_set_threads(x, threads);
	size_t f = stenos_compress_generic(x, src, bt, n, dst, cap);
	stenos_destroy_context(x);
	PBT_CHECK(c, !stenos_has_error(f), "compression of %zu bytes fails: %s", n, errname(f));
	PBT_CHECK(c, f <= cap, "compressed size %zu beyond the bound", f);
	stenos_info info;
	size_t h = stenos_get_info(dst, bt, f, &info);
	PBT_CHECK(c, !stenos_has_error(h) && info.decompressed_size == n, "inspection reports %zu bytes instead of %zu", info.decompressed_size, n);
	uint8_t* out = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (out == MAP_FAILED)
		throw pbt::Discard();
	madvise(out, n, MADV_HUGEPAGE);
	size_t d = decompress(dthreads, dst, bt, f, out, n);
	PBT_CHECK(c, d == n, "decompression of a frame of %zu bytes gives %s (%zu)", n, errname(d), d);
	for (size_t i = 0; i < n; i += 1 << 20)
		if (memcmp(out + i, src + i, std::min<size_t>(1 << 20, n - i))) {
			size_t k = i + first_diff(out + i, src + i, std::min<size_t>(1 << 20, n - i));
			c.fail("byte %zu of %zu differs after the round trip", k, n);
		}
	munmap(out, n);
	munmap(dst, cap);
	munmap(src, n);
	c.label(n >= 4 * G ? "size:>=4GiB" : "size:>=2GiB");
	c.nontrivial();
}

// C07: so many bytes that the superblocks of a time limited compression would exceed the biggest size
PBT_PROP(C07h)
{
	const size_t M = (size_t)1 << 20;
	int threads = c.prob(30) ? 2 : 1;
	size_t bt = c.prob(50) ? c.one_of<size_t>({ 1, 2, 4, 8, 3, 100, 128, 256, 512, 1000 }) : c.range(1, 40000);
	// 32 superblocks for each thread, of 16 MiB at most
	size_t edge = 32 * (size_t)threads * gen::MAX_BLOCK, n = 0;
	switch (c.pick({ 30, 40, 30 })) {
		case 0:
			n = edge + c.draw(4 * M) - 2 * M;
			break;
		case 1:
			n = edge + c.draw(150 * M);
			break;
		default:
			n = edge - c.draw(300 * M);
			break;
	}
	n -= n % bt;
	int dthreads = c.prob(60) ? (int)c.range(2, 8) : (int)c.draw(2);
	uint64_t ns = c.prob(85) ? 1 + c.draw(1000) : c.draw(50000000) + 1;
	c.note("bt=%zu bytes=%zu threads=%d limit=%llu dthreads=%d", bt, n, threads, (unsigned long long)ns, dthreads);
	size_t cap = stenos_bound(n);
	auto get = [](size_t s) { return (uint8_t*)mmap(nullptr, s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
	uint8_t *src = get(n), *dst = get(cap);
	if (src == MAP_FAILED || dst == MAP_FAILED)
		throw pbt::Discard();
	madvise(dst, cap, MADV_HUGEPAGE);
	pbt::Rng r(c.draw(1u << 30));
	for (int i = 0; i < 40; ++i) {
		size_t at = i == 0 ? 0 : i < 4 ? n - 1 - r.below(100000) : r.below(n), len = std::min<size_t>(1 + r.below(50000), n - at);
		for (size_t k = 0; k < len; ++k)
			src[at + k] = i & 1 ? (uint8_t)r.next() : (uint8_t)(k / 100);
	}
	stenos_context* x = stenos_make_context();
	stenos_set_level(x, 1 + (int)c.draw(9));
	stenos_set_threads(x, threads);
	stenos_set_max_nanoseconds(x, ns);
	size_t f = stenos_compress_generic(x, src, bt, n, dst, cap);
	stenos_destroy_context(x);
	PBT_CHECK(c, !stenos_has_error(f), "time limited compression of %zu bytes fails: %s", n, errname(f));
	PBT_CHECK(c, f <= cap, "compressed size %zu beyond the bound", f);
	stenos_info info;
	size_t h = stenos_get_info(dst, bt, f, &info);
	PBT_CHECK(c, !stenos_has_error(h) && info.decompressed_size == n, "inspection reports %zu bytes instead of %zu", info.decompressed_size, n);
	PBT_CHECK(c, info.superblock_size > 0 && info.superblock_size < gen::MAX_BLOCK && info.superblock_size % (bt * 256) == 0, "superblocks of %zu bytes", info.superblock_size);
	uint8_t* out = get(n);
	if (out == MAP_FAILED)
		throw pbt::Discard();
	madvise(out, n, MADV_HUGEPAGE);
	size_t d = decompress(dthreads, dst, bt, f, out, n);
	PBT_CHECK(c, d == n, "decompression of a time limited frame of %zu bytes gives %s (%zu)", n, errname(d), d);
	for (size_t i = 0; i < n; i += 1 << 20)
		if (memcmp(out + i, src + i, std::min<size_t>(1 << 20, n - i)))
			c.fail("byte %zu of %zu differs after the round trip", i + first_diff(out + i, src + i, std::min<size_t>(1 << 20, n - i)), n);
	munmap(out, n);
	munmap(dst, cap);
	munmap(src, n);
	c.label(n >= edge ? "size:beyond-biggest-superblocks" : "size:hundreds-of-MB");
	c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
