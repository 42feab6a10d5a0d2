// Generators of element arrays for the codec.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cmath>

namespace gen
{
	using pbt::Case;
	using pbt::Rng;

	static const size_t MAX_BLOCK = (1u << 24) - 1;

	// Sizes documented in stenos.h: a block is 256 elements, the default superblock the largest multiple
	// of it not above 128 KiB (one block for larger elements). Only used to aim at interesting sizes.
	inline size_t default_superblock(size_t bt)
	{
		size_t b = bt * 256;
		return b > 131072 ? b : (131072 / b) * b;
	}

	// Element size: every supported value is possible, small ones dominate.
	inline size_t element_size(Case& c, size_t max_bytes_hint = 0)
	{
		size_t r = 1;
		switch (c.pick({ 30, 20, 14, 12, 4, 1 })) {
			case 0:
				r = c.one_of<size_t>({ 1, 2, 3, 4, 5, 6, 7, 8 });
				break;
			case 1:
				r = c.one_of<size_t>({ 12, 16, 24, 32, 9, 10, 11, 13, 14, 15, 17, 20, 40, 48, 64 });
				break;
			case 2:
				r = c.range(1, 64);
				break;
			case 3:
				r = c.range(1, 600); // 257 has the smallest superblock, 512 the largest regular one
				break;
			case 4:
				r = c.one_of<size_t>({ 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 2048 });
				break;
			default:
				r = c.prob(50) ? c.range(1, 65534) : c.one_of<size_t>({ 65534, 65533, 32768, 4096, 4095, 10000, 8190 });
				break;
		}
		if (max_bytes_hint && r > max_bytes_hint)
			r = 1 + r % max_bytes_hint;
		return r;
	}

	// Fill one line of 16 consecutive bytes of a plane.
	inline void line16(Rng& r, uint8_t* out, unsigned cls, uint8_t& last)
	{
		switch (cls) {
			case 0: { // constant
				uint8_t v = r.prob(50) ? last : (uint8_t)r.next();
				memset(out, v, 16);
				break;
			}
			case 1: { // arithmetic progression (wraps)
				uint8_t v = r.prob(60) ? last : (uint8_t)r.next();
				int step = (int)r.range(0, 9) - 4;
				for (int i = 0; i < 16; ++i)
					out[i] = (uint8_t)(v + step * (i + 1));
				break;
			}
			case 2: { // small range above a base
				unsigned bits = (unsigned)r.range(1, 7);
				uint8_t base = r.prob(40) ? last : (uint8_t)r.next();
				for (int i = 0; i < 16; ++i)
					out[i] = (uint8_t)(base + r.below(1u << bits));
				break;
			}
			case 3: { // random walk with bounded signed steps
				unsigned bits = (unsigned)r.range(1, 6);
				uint8_t v = last;
				for (int i = 0; i < 16; ++i) {
					v = (uint8_t)(v + r.below(1u << bits) - (r.prob(50) ? 0 : (1u << bits) / 2));
					out[i] = v;
				}
				break;
			}
			case 4: { // runs
				unsigned i = 0;
				uint8_t v = last;
				unsigned maxrun = (unsigned)r.range(1, 16);
				while (i < 16) {
					unsigned n = (unsigned)r.range(1, maxrun);
					while (n-- && i < 16)
						out[i++] = v;
					v = (uint8_t)(r.prob(50) ? v + 1 : r.next());
				}
				break;
			}
			case 5: // raw
				for (int i = 0; i < 16; ++i)
					out[i] = (uint8_t)r.next();
				break;
			case 6: { // two values
				uint8_t a = last, b = (uint8_t)r.next();
				for (int i = 0; i < 16; ++i)
					out[i] = r.prob(50) ? a : b;
				break;
			}
			case 7: { // extremes
				static const uint8_t ex[] = { 0, 255, 127, 128, 1, 254 };
				for (int i = 0; i < 16; ++i)
					out[i] = ex[r.below(6)];
				break;
			}
			default: { // constant with one exception
				memset(out, last, 16);
				out[r.below(16)] = (uint8_t)r.next();
				break;
			}
		}
		last = out[15];
	}

	// Byte-plane structured content: each (block of 256 elements, byte position) gets its own class.
	inline void planes(Rng& r, uint8_t* p, size_t bt, size_t elems, unsigned flavour)
	{
		std::vector<uint8_t> last(bt, 0);
		std::vector<uint8_t> cls(bt, 0);
		for (size_t j = 0; j < bt; ++j)
			cls[j] = (uint8_t)r.below(12);
		uint8_t tmp[256];
		for (size_t b = 0; b < elems; b += 256) {
			size_t n = std::min<size_t>(256, elems - b);
			if (r.prob(30))
				for (size_t j = 0; j < bt; ++j)
					if (r.prob(30))
						cls[j] = (uint8_t)r.below(12);
			for (size_t j = 0; j < bt; ++j) {
				unsigned c = cls[j];
				if (c == 9) // same as the previous plane
					c = j && flavour ? 9 : 0;
				if (c == 9) {
					for (size_t i = 0; i < n; ++i)
						p[(b + i) * bt + j] = p[(b + i) * bt + j - 1];
					continue;
				}
				if (c == 10) { // whole plane constant
					memset(tmp, r.prob(80) ? last[j] : (int)r.below(256), 256);
					last[j] = tmp[255];
				}
				else if (c == 11) { // mixed lines
					for (int l = 0; l < 16; ++l)
						line16(r, tmp + l * 16, (unsigned)r.below(9), last[j]);
				}
				else {
					for (int l = 0; l < 16; ++l)
						line16(r, tmp + l * 16, r.prob(90) ? c : (unsigned)r.below(9), last[j]);
				}
				if (flavour == 2 && r.prob(20)) {
					// repeat an earlier line
					size_t d = r.below(15);
					memcpy(tmp + (d + 1) * 16, tmp + d * 16, 16);
				}
				for (size_t i = 0; i < n; ++i)
					p[(b + i) * bt + j] = tmp[i];
			}
		}
	}

	inline void typed(Rng& r, uint8_t* p, size_t bt, size_t elems, unsigned flavour)
	{
		// integers following a noisy trend, stored little endian on bt bytes (other bytes: derived)
		uint64_t v = r.next() >> r.below(64);
		unsigned noise_bits = (unsigned)r.below(40);
		uint64_t step = r.next() >> r.range(20, 63);
		double f = 1.0 + (double)r.below(1000);
		unsigned hold = (unsigned)r.range(1, 40);
		for (size_t i = 0; i < elems; ++i) {
			uint64_t w = 0;
			switch (flavour) {
				case 0:
					v += step;
					w = v + (noise_bits ? r.next() >> (64 - noise_bits) : 0);
					break;
				case 1:
					f += (double)((int64_t)r.below(2001) - 1000) * 1e-3;
					if (bt >= 8)
						memcpy(&w, &f, 8);
					else {
						float g = (float)f;
						memcpy(&w, &g, 4);
					}
					break;
				case 2:
					if (i % hold == 0)
						v = r.next() >> r.below(64);
					w = v;
					break;
				default:
					v = v * 6364136223846793005ull + 1442695040888963407ull;
					w = (v >> 33) & ((1ull << (1 + noise_bits)) - 1);
					break;
			}
			uint8_t* q = p + i * bt;
			if (bt <= 8)
				memcpy(q, &w, bt);
			else {
				memcpy(q, &w, 8);
				if (flavour == 2)
					memset(q + 8, (int)(w & 0xff), bt - 8);
				else {
					uint64_t x = w;
					for (size_t k = 8; k < bt; ++k) {
						if (k % 8 == 0)
							x = flavour == 0 ? w * (k / 8 + 1) : (w >> (k % 13));
						q[k] = (uint8_t)(x >> (8 * (k % 8)));
					}
				}
			}
		}
	}

	inline void lz(Rng& r, uint8_t* p, size_t bt, size_t bytes)
	{
		// literals and copies from earlier content, at element multiples or arbitrary byte distances
		size_t i = 0;
		size_t minmatch = r.range(4, 64);
		unsigned litbits = (unsigned)r.range(1, 8);
		while (i < bytes) {
			size_t n = 1 + r.below(r.prob(70) ? 40 : 400);
			n = std::min(n, bytes - i);
			if (i == 0 || r.prob(30)) {
				for (size_t k = 0; k < n; ++k)
					p[i + k] = (uint8_t)r.below(1u << litbits);
			}
			else {
				n = std::min(n + minmatch, bytes - i);
				size_t maxd = std::min<size_t>(i, r.prob(80) ? 600 * (bt < 64 ? bt : 64) : i);
				size_t d = 1 + r.below(maxd);
				if (r.prob(60) && d > bt)
					d -= d % bt;
				if (r.prob(10))
					d = std::min<size_t>(i, r.range(1, 16));
				for (size_t k = 0; k < n; ++k)
					p[i + k] = p[i + k - d];
			}
			i += n;
		}
	}

	inline void text(Rng& r, uint8_t* p, size_t bytes)
	{
		static const char* words[] = { "the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog ", "0123456789", "\n", ", ", "compression ", "stenos ", "x", "=", "3.14159" };
		size_t i = 0;
		while (i < bytes) {
			const char* w = words[r.below(16)];
			while (*w && i < bytes)
				p[i++] = (uint8_t)*w++;
		}
	}

	// Words of the size the match finder of the block coder works with: some new, the others seen before, at a
	// near, far or very first place.
	inline void words(Rng& r, uint8_t* p, size_t bt, size_t bytes)
	{
		size_t w = r.prob(85) ? (bt % 8 == 0 ? 8 : bt % 4 == 0 || bt <= 2 ? 4 : bt % 6 == 0 ? 6 : bt % 3 == 0 ? 3 : 4) : r.range(2, 16);
		size_t window = std::max<size_t>(1, bt * 256 / w), count = bytes / w;
		unsigned fresh = (unsigned)r.range(0, 60), near = (unsigned)r.range(0, 100), first = (unsigned)r.below(30);
		// new words first and then hardly any, everywhere the same, or new words in the tail of each block
		unsigned shape = (unsigned)r.below(4);
		size_t mark = shape == 1 ? r.below(110) : window - window / (1 + r.below(16));
		for (size_t i = 0; i < count; ++i) {
			size_t in = i % window;
			unsigned pf = fresh;
			if (shape == 1)
				pf = in < mark ? 100 : fresh / 4;
			else if (shape == 2)
				pf = in < mark ? fresh / 4 : 100;
			if (i == 0 || r.prob(pf)) {
				for (size_t k = 0; k < w; ++k)
					p[i * w + k] = (uint8_t)r.next();
				continue;
			}
			size_t from;
			if (r.prob(near))
				from = i - 1 - r.below(std::min<size_t>(i, 130)); // one or two bytes of distance
			else if (r.prob(first) || in == 0)
				from = i - std::min(i, std::max<size_t>(in, 1));
			else
				from = i - 1 - r.below(in);
			memcpy(p + i * w, p + from * w, w);
		}
		for (size_t i = count * w; i < bytes; ++i)
			p[i] = (uint8_t)r.next();
	}

	// Few distinct elements in random order, sometimes another one.
	inline void dictionary(Rng& r, uint8_t* p, size_t bt, size_t elems)
	{
		size_t nd = r.range(2, 40);
		unsigned other = r.prob(50) ? 0 : (unsigned)r.below(25);
		std::vector<uint8_t> d(nd * bt);
		for (auto& x : d)
			x = (uint8_t)r.next();
		for (size_t i = 0; i < elems; ++i) {
			memcpy(p + i * bt, &d[r.below(nd) * bt], bt);
			if (other && r.prob(other))
				for (size_t k = 0; k < bt; ++k)
					p[i * bt + k] = (uint8_t)r.next();
		}
	}

	static const unsigned KINDS = 12;
	inline const char* kind_name(unsigned k)
	{
		static const char* n[KINDS] = { "constant", "planes", "random", "typed", "lz", "text", "sparse", "mixed", "bits", "near-random", "words", "dictionary" };
		return n[k];
	}

	inline void fill_kind(Rng& r, unsigned kind, uint8_t* p, size_t bt, size_t bytes, int depth = 0)
	{
		size_t elems = bytes / bt;
		switch (kind) {
			case 0: {
				std::vector<uint8_t> e(bt);
				if (r.prob(70))
					for (auto& x : e)
						x = (uint8_t)r.next();
				for (size_t i = 0; i < elems; ++i)
					memcpy(p + i * bt, e.data(), bt);
				break;
			}
			case 1:
				planes(r, p, bt, elems, (unsigned)r.below(3));
				break;
			case 2:
				for (size_t i = 0; i < bytes; ++i)
					p[i] = (uint8_t)r.next();
				break;
			case 3:
				typed(r, p, bt, elems, (unsigned)r.below(4));
				break;
			case 4:
				lz(r, p, bt, bytes);
				break;
			case 5:
				text(r, p, bytes);
				break;
			case 6: { // constant with a few modified bytes
				fill_kind(r, 0, p, bt, bytes);
				if (bytes) {
					size_t n = 1 + r.below(1 + bytes / (1 + r.below(300)));
					for (size_t i = 0; i < n; ++i)
						p[r.below(bytes)] = (uint8_t)r.next();
				}
				break;
			}
			case 7: { // segments of different kinds
				size_t i = 0;
				while (i < bytes) {
					size_t n = r.prob(50) ? 256 * bt * (1 + r.below(4)) : bt * (1 + r.below(1500));
					n = std::min(n, bytes - i);
					unsigned k = (unsigned)r.below(KINDS);
					if (k == 7 && depth > 1)
						k = 1;
					if (i && r.prob(15)) {
						// copy an earlier segment
						size_t from = r.below(i);
						from -= from % bt;
						for (size_t j = 0; j < n; ++j)
							p[i + j] = p[from + j % (i - from)];
					}
					else
						fill_kind(r, k, p + i, bt, n, depth + 1);
					i += n;
				}
				break;
			}
			case 8: { // every byte in a narrow range
				unsigned bits = (unsigned)r.range(1, 7);
				uint8_t base = (uint8_t)r.next();
				for (size_t i = 0; i < bytes; ++i)
					p[i] = (uint8_t)(base + r.below(1u << bits));
				break;
			}
			case 10:
				words(r, p, bt, bytes);
				break;
			case 11:
				dictionary(r, p, bt, elems);
				break;
			default: { // random with some redundancy: around the limit of what pays off
				for (size_t i = 0; i < bytes; ++i)
					p[i] = (uint8_t)r.next();
				size_t n = bytes / (16 + r.below(400)) + 1;
				if (bytes > 64)
					for (size_t i = 0; i < n; ++i) {
						size_t at = r.below(bytes - 33), len = r.range(2, 32);
						memset(p + at, p[at], len);
					}
				if (r.prob(50) && bt > 1) {
					// one constant plane
					size_t pl = r.below(bt);
					for (size_t i = 0; i < elems; ++i)
						p[i * bt + pl] = 7;
				}
				break;
			}
		}
	}

	// Draws the content of a buffer.
	inline unsigned content(Case& c, uint8_t* p, size_t bt, size_t bytes)
	{
		unsigned kind = (unsigned)c.pick({ 6, 34, 8, 16, 12, 4, 8, 20, 6, 8, 14, 5 });
		uint64_t seed = c.draw(1ull << 32);
		Rng r(seed * 0x9e3779b97f4a7c15ull + 99);
		fill_kind(r, kind, p, bt, bytes);
		c.label(std::string("content:") + kind_name(kind));
		c.note("content=%s seed=%llu", kind_name(kind), (unsigned long long)seed);
		return kind;
	}

	// Number of elements. unit = elements per superblock with the settings of the case; cap in bytes.
	inline size_t elements(Case& c, size_t bt, size_t sb_elems, size_t cap_bytes)
	{
		size_t cap = std::max<size_t>(cap_bytes / bt, 1);
		size_t n = 0;
		switch (c.pick({ 14, 10, 22, 20, 16, 14, 4 })) {
			case 0:
				n = c.range(0, 48);
				break;
			case 1: // around one block
				n = 256 + c.range(0, 40) - 20;
				break;
			case 2: // several blocks, with or without remainder
				n = 256 * c.range(1, 12) + (c.prob(60) ? c.range(0, 255) : 0);
				break;
			case 3:
				n = c.logsize(cap);
				break;
			case 4: // exact multiples of the superblock
				n = sb_elems * c.range(1, 4);
				break;
			case 5: { // around multiples of the superblock
				size_t k = c.range(1, 5) * sb_elems;
				size_t d = c.prob(50) ? c.range(0, 20) : c.range(0, 600);
				n = c.prob(50) ? k + d : (k > d ? k - d : k);
				break;
			}
			default:
				n = c.range(0, cap);
				break;
		}
		if (n > cap)
			n = (cap >= sb_elems && n % sb_elems == 0) ? sb_elems * std::max<size_t>(1, cap / sb_elems) : cap - (n % (cap / 2 + 1));
		return n;
	}
}
