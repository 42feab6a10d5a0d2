// C20: the helpers of stenos/bits.hpp against their definitions, computed bit by bit and byte by byte.
#include "pbt.hpp"
#include "mem.hpp"
#include "stenos/bits.hpp"
#include <vector>

using pbt::Case;

namespace
{
	uint64_t number(Case& c, unsigned bits)
	{
		uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
		uint64_t r = ((uint64_t)c.draw(1ull << 32) << 32) | c.draw(1ull << 32);
		switch (c.pick({ 20, 20, 15, 15, 15, 15 })) {
			case 0:
				return r & m;
			case 1: // a single bit
				return (1ull << c.draw(bits)) & m;
			case 2: // all bits from one on
				return (~0ull << c.draw(bits)) & m;
			case 3:
				return (m >> c.draw(bits)) & m;
			case 4: // sparse
				return ((1ull << c.draw(bits)) | (1ull << c.draw(bits)) | (1ull << c.draw(bits))) & m;
			default:
				return c.one_of<uint64_t>({ 0, 1, 2, 0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull }) & m;
		}
	}
	unsigned ones(uint64_t v)
	{
		unsigned n = 0;
		for (int i = 0; i < 64; ++i)
			n += (v >> i) & 1;
		return n;
	}
	unsigned lowest(uint64_t v)
	{
		for (unsigned i = 0; i < 64; ++i)
			if ((v >> i) & 1)
				return i;
		return 64;
	}
	unsigned highest(uint64_t v)
	{
		for (unsigned i = 64; i-- > 0;)
			if ((v >> i) & 1)
				return i;
		return 64;
	}
	uint64_t swapped(uint64_t v, unsigned bytes)
	{
		uint64_t r = 0;
		for (unsigned i = 0; i < bytes; ++i)
			r |= ((v >> (8 * i)) & 0xff) << (8 * (bytes - 1 - i));
		return r;
	}
	uint64_t from_le(const uint8_t* p, unsigned bytes)
	{
		uint64_t r = 0;
		for (unsigned i = 0; i < bytes; ++i)
			r |= (uint64_t)p[i] << (8 * i);
		return r;
	}
	uint64_t from_be(const uint8_t* p, unsigned bytes)
	{
		uint64_t r = 0;
		for (unsigned i = 0; i < bytes; ++i)
			r = (r << 8) | p[i];
		return r;
	}
	template<class F>
	void writes(Case& c, const char* name, unsigned bytes, bool big, uint64_t v, F f)
	{
		mem::GBuf b(bytes, c.prob(70), (unsigned)c.draw(16));
		mem::fill(b.data(), bytes, v);
		f(b.data());
		uint64_t r = big ? from_be(b.data(), bytes) : from_le(b.data(), bytes);
		PBT_CHECK(c, r == v, "%s writes %llx as %llx", name, (unsigned long long)v, (unsigned long long)r);
	}
	template<class F>
	void reads(Case& c, const char* name, unsigned bytes, bool big, F f)
	{
		mem::GBuf b(bytes, c.prob(70), (unsigned)c.draw(16));
		uint64_t v = number(c, 8 * bytes);
		for (unsigned i = 0; i < bytes; ++i)
			b.data()[i] = (uint8_t)(v >> (8 * i));
		uint64_t e = big ? from_be(b.data(), bytes) : from_le(b.data(), bytes), r = f(b.data());
		PBT_CHECK(c, r == e, "%s reads %llx instead of %llx", name, (unsigned long long)r, (unsigned long long)e);
	}
}

PBT_PROP(C20)
{
	using namespace stenos;
	uint64_t v64 = number(c, 64), w64 = number(c, 64);
	uint32_t v32 = (uint32_t)number(c, 32);
	uint16_t v16 = (uint16_t)number(c, 16);
	uint8_t v8 = (uint8_t)number(c, 8);
	c.note("%llx %llx %x %x %x", (unsigned long long)v64, (unsigned long long)w64, v32, v16, v8);
#define SAME(expr, want)                                                                                                                                                                               \
	do {                                                                                                                                                                                           \
		uint64_t got_ = (uint64_t)(expr), want_ = (uint64_t)(want);                                                                                                                            \
		PBT_CHECK(c, got_ == want_, "%s is %llx instead of %llx", #expr, (unsigned long long)got_, (unsigned long long)want_);                                                                 \
	} while (0)
	// bits
	SAME(popcnt64(v64), ones(v64));
	SAME(popcnt32(v32), ones(v32));
	SAME(popcnt16(v16), ones(v16));
	SAME(popcnt8(v8), ones(v8));
	SAME(detail::popcount64(v64), ones(v64));
	SAME(detail::popcount32(v32), ones(v32));
	if (v64) {
		SAME(bit_scan_forward_64(v64), lowest(v64));
		SAME(bit_scan_reverse_64(v64), highest(v64));
		SAME(bit_scan_forward((size_t)v64), lowest(v64));
		SAME(bit_scan_reverse((size_t)v64), highest(v64));
	}
	if (v32) {
		SAME(bit_scan_forward_32(v32), lowest(v32));
		SAME(bit_scan_reverse_32(v32), highest(v32));
	}
	SAME(bit_scan_forward_8(v8), v8 ? lowest(v8) : 8);
	SAME(bit_scan_reverse_8(v8), v8 ? highest(v8) : 8);
	// arithmetic: schoolbook multiplication with 16 bits digits
	{
		uint32_t digits[8] = {};
		for (int i = 0; i < 4; ++i) {
			uint32_t carry = 0;
			for (int j = 0; j < 4; ++j) {
				uint64_t t = (uint64_t)((v64 >> (16 * i)) & 0xffff) * ((w64 >> (16 * j)) & 0xffff) + digits[i + j] + carry;
				digits[i + j] = (uint32_t)(t & 0xffff);
				carry = (uint32_t)(t >> 16);
			}
			digits[i + 4] += carry;
		}
		uint64_t lo = 0, hi = 0, l = 1, h = 1;
		for (int i = 0; i < 4; ++i) {
			lo |= (uint64_t)digits[i] << (16 * i);
			hi |= (uint64_t)digits[i + 4] << (16 * i);
		}
		umul128(v64, w64, &l, &h);
		PBT_CHECK(c, l == lo && h == hi, "umul128 gives %llx:%llx instead of %llx:%llx", (unsigned long long)h, (unsigned long long)l, (unsigned long long)hi, (unsigned long long)lo);
	}
	// byte order
	SAME(byte_swap_16(v16), swapped(v16, 2));
	SAME(byte_swap_32(v32), swapped(v32, 4));
	SAME(byte_swap_64(v64), swapped(v64, 8));
	writes(c, "write_LE_16", 2, false, v16, [&](void* p) { write_LE_16(p, v16); });
	writes(c, "write_LE_32", 4, false, v32, [&](void* p) { write_LE_32(p, v32); });
	writes(c, "write_LE_64", 8, false, v64, [&](void* p) { write_LE_64(p, v64); });
	writes(c, "write_BE_64", 8, true, v64, [&](void* p) { write_BE_64(p, v64); });
	writes(c, "write_size_t", sizeof(size_t), false, v64, [&](void* p) { write_size_t(p, (size_t)v64); });
	reads(c, "read_LE_16", 2, false, [](const void* p) { return read_LE_16(p); });
	reads(c, "read_LE_32", 4, false, [](const void* p) { return read_LE_32(p); });
	reads(c, "read_LE_64", 8, false, [](const void* p) { return read_LE_64(p); });
	reads(c, "read_BE_16", 2, true, [](const void* p) { return read_BE_16(p); });
	reads(c, "read_BE_32", 4, true, [](const void* p) { return read_BE_32(p); });
	reads(c, "read_BE_64", 8, true, [](const void* p) { return read_BE_64(p); });
	reads(c, "read_16", 2, false, [](const void* p) { return read_16(p); });
	reads(c, "read_32", 4, false, [](const void* p) { return read_32(p); });
	reads(c, "read_64", 8, false, [](const void* p) { return read_64(p); });
	reads(c, "read_ptr_t", sizeof(void*), false, [](const void* p) { return read_ptr_t(p); });
	reads(c, "read_size_t", sizeof(size_t), false, [](const void* p) { return read_size_t(p); });
	reads(c, "read_LE_size_t", sizeof(size_t), false, [](const void* p) { return read_LE_size_t(p); });
	reads(c, "read_BE_size_t", sizeof(size_t), true, [](const void* p) { return read_BE_size_t(p); });
	// aligned memory: several blocks at once, each used entirely
	struct Block
	{
		uint8_t* p;
		size_t n, align;
		bool hand;
	};
	std::vector<Block> bl;
	unsigned m = (unsigned)c.draw(5);
	for (unsigned i = 0; i < m; ++i) {
		Block b;
		b.hand = c.prob(50);
		b.align = (size_t)1 << (b.hand ? c.draw(14) : 3 + c.draw(11));
		b.n = c.prob(50) ? c.draw(200) : c.logsize(100000);
		b.p = (uint8_t*)(b.hand ? detail::handmade_aligned_malloc(b.n, b.align) : aligned_malloc(b.n, b.align));
		if (b.n)
			PBT_CHECK(c, b.p, "no memory for %zu bytes", b.n);
		PBT_CHECK(c, (uintptr_t)b.p % b.align == 0, "%zu bytes aligned to %zu are at %p", b.n, b.align, (void*)b.p);
		mem::fill(b.p, b.n, i + 1);
		bl.push_back(b);
		c.label(b.hand ? "aligned-by-hand" : "aligned");
	}
	for (unsigned i = 0; i < m; ++i) {
		std::vector<uint8_t> e(bl[i].n);
		mem::fill(e.data(), e.size(), i + 1);
		PBT_CHECK(c, e.empty() || !memcmp(e.data(), bl[i].p, e.size()), "aligned blocks overlap");
	}
	for (unsigned i = m; i-- > 0;) {
		if (bl[i].hand)
			detail::handmade_aligned_free(bl[i].p);
		else
			aligned_free(bl[i].p);
	}
	aligned_free(nullptr);
	detail::handmade_aligned_free(nullptr);
	if (c.prob(5)) {
		void* p = detail::handmade_aligned_malloc((size_t)-1 - c.draw(23), 16);
		PBT_CHECK(c, !p, "memory of the size of the address space");
	}
	if (v64 || v32)
		c.nontrivial();
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
