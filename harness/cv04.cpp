// V04: serialization round trips. V05: damaged serialized data.
#define CV_PLAIN
#include "cv_types.hpp"
#include "stenos/stenos.h"
namespace
{
	using namespace cv;

	template<class C>
	void prior(Case& c, typename C::V& v, Values& vals)
	{
		// content of the target before deserialization
		size_t n = c.draw(2) ? 0 : size_near<C>(c, C::V::block_size * 3);
		for (size_t i = 0; i < n; ++i)
			v.push_back(mk<C>(C::E::norm(vals.get())));
		if (c.draw(2))
			v.shrink_to_fit();
	}

	template<class C>
	void history(Case& c, typename C::V& v, std::vector<Key>& m, Values& vals, size_t max_ops)
	{
		typedef Machine<C> Mc;
		size_t n = c.draw(max_ops + 1);
		for (size_t i = 0; i < n; ++i)
			Mc::apply(c, Mc::draw_op(c), v, m, vals);
		if (c.prob(25)) {
			// a size that is a multiple of the block size
			const size_t B = C::V::block_size;
			size_t k = (m.size() + B - 1) / B * B;
			v.resize(k);
			m.resize(k, C::E::dflt());
		}
		if (c.prob(30))
			v.shrink_to_fit();
		if (c.prob(40) && !m.empty()) {
			// reads and writes in the last block, then elsewhere
			size_t p = m.size() - 1 - c.draw(std::min<size_t>(m.size(), C::V::block_size));
			Key k = C::E::norm(vals.get());
			if (c.draw(2)) {
				v[p] = mk<C>(k);
				m[p] = k;
			}
			else
				PBT_CHECK(c, key_at<C>(v, p) == m[p], "element %zu differs before serialization", p);
			size_t q = c.draw(m.size());
			PBT_CHECK(c, key_at<C>(v, q) == m[q], "element %zu differs before serialization", q);
		}
	}

	// bytes of `v` in memory, in a block of exactly the needed size
	template<class C>
	std::vector<uint8_t> to_memory(Case& c, typename C::V& v)
	{
		typedef typename C::V V;
		size_t cap = stenos_bound(v.size() * sizeof(typename C::T)) + 64 + (v.size() / V::block_size + 2) * 64;
		std::vector<uint8_t> out(cap);
		size_t r = v.serialize(out.data(), out.size());
		PBT_CHECK(c, !stenos_has_error(r), "serialize fails with a large destination: %zd", (ssize_t)r);
		PBT_CHECK(c, r <= cap, "serialize reports %zu bytes in a destination of %zu", r, cap);
		out.resize(r);
		return out;
	}

	template<class C>
	void v04(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		Arena arena;
		typename C::A al(&arena);
		{
			std::unique_ptr<V> v;
			std::vector<Key> m;
			Values vals;
			vals.draw(c);
			Mc::CO::construct(c, v, m, vals, al, std::min<size_t>(Mc::cap(), V::block_size * 7));
			history<C>(c, *v, m, vals, 6);
			c.note("serialize %zu elements", m.size());
			unsigned how = (unsigned)c.draw(4);
			std::vector<uint8_t> bytes;
			if (how == 0 || how == 1) {
				bytes = to_memory<C>(c, *v);
				if (c.draw(2)) {
					// exact and short destinations
					size_t d = c.draw(3) == 0 ? c.draw(bytes.size()) : bytes.size() - std::min<size_t>(bytes.size(), c.draw(20));
					mem::GBuf dst(d, true, (unsigned)c.draw(32));
					size_t r = v->serialize(dst.data(), d);
					// the encoder may ask for a little room beyond the end
					if (d < bytes.size())
						PBT_CHECK(c, stenos_has_error(r), "serialize of %zu bytes into %zu bytes reports %zu", bytes.size(), d, r);
					else if (!stenos_has_error(r))
						PBT_CHECK(c, r == bytes.size() && memcmp(dst.data(), bytes.data(), r) == 0, "a second serialization differs");
				}
				V w(al);
				prior<C>(c, w, vals);
				mem::GBuf src(bytes.size(), true, (unsigned)c.draw(32));
				memcpy(src.data(), bytes.data(), bytes.size());
				size_t r = w.deserialize(src.data(), bytes.size());
				PBT_CHECK(c, !stenos_has_error(r), "deserialize fails: %zd", (ssize_t)r);
				PBT_CHECK(c, r == m.size(), "deserialize reports %zu elements instead of %zu", r, m.size());
				compare<C>(c, w, m, (unsigned)c.draw(8), "deserialized vector");
				// and goes on as a normal vector
				std::vector<Key> m2 = m;
				size_t n = c.draw(4);
				for (size_t i = 0; i < n; ++i)
					Mc::apply(c, Mc::draw_op(c), w, m2, vals);
				compare<C>(c, w, m2, (unsigned)c.draw(8), "deserialized and modified vector");
			}
			else {
				std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
				size_t lead = c.draw(3) ? 0 : c.draw(40);
				std::string junk(lead, 'x');
				ss.write(junk.data(), (std::streamsize)lead);
				size_t r = v->serialize(ss);
				PBT_CHECK(c, !stenos_has_error(r), "serialize to a stream fails: %zd", (ssize_t)r);
				// a second vector behind it
				std::unique_ptr<V> v2;
				std::vector<Key> m2;
				bool second = c.draw(2);
				size_t r2 = 0;
				if (second) {
					Mc::CO::construct(c, v2, m2, vals, al, std::min<size_t>(Mc::cap(), V::block_size * 3));
					history<C>(c, *v2, m2, vals, 3);
					r2 = v2->serialize(ss);
					PBT_CHECK(c, !stenos_has_error(r2), "second serialize to a stream fails: %zd", (ssize_t)r2);
				}
				std::string all = ss.str();
				PBT_CHECK(c, all.size() == lead + r + r2, "serialize reports %zu + %zu bytes, %zu were written", r, r2, all.size() - lead);
				bytes.assign(all.begin() + (ptrdiff_t)lead, all.begin() + (ptrdiff_t)(lead + r));
				auto direct = to_memory<C>(c, *v);
				PBT_CHECK(c, direct == bytes, "the stream form and the memory form differ");
				ss.seekg((std::streamoff)lead);
				V w(al);
				prior<C>(c, w, vals);
				size_t q = w.deserialize(ss);
				PBT_CHECK(c, !stenos_has_error(q), "deserialize from a stream fails: %zd", (ssize_t)q);
				PBT_CHECK(c, q == m.size(), "deserialize from a stream reports %zu elements instead of %zu", q, m.size());
				compare<C>(c, w, m, (unsigned)c.draw(8), "vector read from a stream");
				PBT_CHECK(c, (size_t)ss.tellg() == lead + r, "the stream is at %zd instead of %zu after the first vector", (ssize_t)ss.tellg(), lead + r);
				if (second) {
					q = w.deserialize(ss);
					PBT_CHECK(c, q == m2.size(), "the second vector of the stream gives %zd instead of %zu", (ssize_t)q, m2.size());
					compare<C>(c, w, m2, (unsigned)c.draw(8), "second vector read from a stream");
				}
			}
			// the serialized bytes are a plain frame
			std::vector<T> plain(m.size());
			stenos_info info;
			size_t h = stenos_get_info(bytes.data(), sizeof(T), bytes.size(), &info);
			PBT_CHECK(c, !stenos_has_error(h) && info.decompressed_size == m.size() * sizeof(T), "stenos_get_info gives %zu bytes instead of %zu", (size_t)info.decompressed_size, m.size() * sizeof(T));
			if (!m.empty()) {
				mem::GBuf dst(m.size() * sizeof(T), true, (unsigned)c.draw(16));
				size_t r = stenos_decompress(bytes.data(), sizeof(T), bytes.size(), dst.data(), m.size() * sizeof(T));
				PBT_CHECK(c, r == m.size() * sizeof(T), "stenos_decompress of the serialized bytes gives %zd instead of %zu", (ssize_t)r, m.size() * sizeof(T));
				memcpy((void*)plain.data(), dst.data(), r);
				for (size_t i = 0; i < m.size(); ++i)
					PBT_CHECK(c, C::E::key(plain[i]) == m[i], "element %zu of the decompressed bytes is %llx instead of %llx", i, (unsigned long long)C::E::key(plain[i]), (unsigned long long)m[i]);
			}
			// and a frame of the general encoder with the same block size is a serialized vector
			if (c.prob(50)) {
				size_t n = c.prob(20) ? c.draw(4) : c.prob(30) ? m.size() / V::block_size * V::block_size : m.size();
				n = std::min(n, m.size());
				stenos_context* x = stenos_make_context();
				struct Free
				{
					stenos_context* x;
					~Free() { stenos_destroy_context(x); }
				} fr{ x };
				int level = (int)c.draw(6), threads = c.prob(30) ? 1 + (int)c.draw(4) : 1;
				stenos_set_level(x, level);
				stenos_set_threads(x, threads);
				PBT_CHECK(c, !stenos_has_error(stenos_set_block_size(x, C::Shift)), "stenos_set_block_size(%u) fails", (unsigned)C::Shift);
				std::vector<uint8_t> frame(stenos_bound(n * sizeof(T)) + 64 + (n / V::block_size + 2) * 64);
				size_t r = stenos_compress_generic(x, plain.data(), sizeof(T), n * sizeof(T), frame.data(), frame.size());
				PBT_CHECK(c, !stenos_has_error(r), "stenos_compress_generic of %zu elements fails: %zd", n, (ssize_t)r);
				frame.resize(r);
				c.note("frame of %zu elements, level %d, %d threads", n, level, threads);
				std::vector<Key> m3(m.begin(), m.begin() + (ptrdiff_t)n);
				V w(al);
				prior<C>(c, w, vals);
				size_t q;
				bool stream = c.draw(2);
				if (stream) {
					std::stringstream ss(std::string(frame.begin(), frame.end()), std::ios::in | std::ios::binary);
					q = w.deserialize(ss);
				}
				else {
					mem::GBuf src(frame.size(), true, (unsigned)c.draw(32));
					memcpy(src.data(), frame.data(), frame.size());
					q = w.deserialize(src.data(), frame.size());
				}
				PBT_CHECK(c, q == n, "deserialize (%s) of a frame of %zu elements gives %zd", stream ? "stream" : "memory", n, (ssize_t)q);
				compare<C>(c, w, m3, (unsigned)c.draw(8), "vector read from a frame");
				size_t k = c.draw(3);
				for (size_t i = 0; i < k; ++i)
					Mc::apply(c, Mc::draw_op(c), w, m3, vals);
				compare<C>(c, w, m3, (unsigned)c.draw(8), "vector read from a frame and modified");
				c.label("from-frame");
			}
			// serialization changed nothing
			compare<C>(c, *v, m, (unsigned)c.draw(8), "vector after serialization");
			size_t n = c.draw(3);
			for (size_t i = 0; i < n; ++i)
				Mc::apply(c, Mc::draw_op(c), *v, m, vals);
			compare<C>(c, *v, m, (unsigned)c.draw(8), "vector modified after serialization");
			if (m.size() > V::block_size)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, arena.blocks.empty(), "%zu blocks are left in the allocator", arena.blocks.size());
	}

	template<class C>
	void v05(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		Arena arena;
		typename C::A al(&arena);
		{
			Values vals;
			vals.draw(c);
			std::vector<uint8_t> good, bytes;
			std::vector<Key> m;
			bool cut = false;
			unsigned kind = (unsigned)c.pick({ 30, 45, 25, 8 });
			if (kind != 3) {
				std::unique_ptr<V> v;
				Mc::CO::construct(c, v, m, vals, al, std::min<size_t>(Mc::cap(), V::block_size * 5));
				history<C>(c, *v, m, vals, 2);
				good = to_memory<C>(c, *v);
				bytes = good;
			}
			if (kind == 0) {
				// truncation
				size_t keep;
				switch (c.draw(4)) {
					case 0:
						keep = c.draw(bytes.size());
						break;
					case 1:
						keep = bytes.size() - 1 - c.draw(std::min<size_t>(bytes.size(), 8));
						break;
					case 2:
						keep = std::min<size_t>(c.draw(20), bytes.size() - 1);
						break;
					default: {
						// around a block boundary
						size_t p = 12, stop = c.draw(6);
						while (p + 4 <= bytes.size() && stop--)
							p += 4 + (bytes[p + 1] | bytes[p + 2] << 8 | bytes[p + 3] << 16);
						p = std::min(p + c.draw(7), bytes.size() + 2);
						keep = p >= 3 ? std::min(p - 3, bytes.size() - 1) : 0;
						break;
					}
				}
				bytes.resize(keep);
				cut = true;
				c.note("cut at %zu of %zu", keep, good.size());
			}
			else if (kind == 1) {
				size_t n = 1 + c.draw(4);
				for (size_t i = 0; i < n && !bytes.empty(); ++i) {
					size_t p;
					switch (c.pick({ 30, 25, 45 })) {
						case 0:
							p = c.draw(std::min<size_t>(bytes.size(), 18));
							break;
						case 1: {
							p = 12;
							size_t stop = c.draw(6);
							while (p + 4 < bytes.size() && stop--)
								p += 4 + (bytes[p + 1] | bytes[p + 2] << 8 | bytes[p + 3] << 16);
							p = std::min(p + c.draw(8), bytes.size() - 1);
							break;
						}
						default:
							p = c.draw(bytes.size());
							break;
					}
					if (c.draw(2))
						bytes[p] ^= (uint8_t)(1u << c.draw(8));
					else
						bytes[p] = (uint8_t)c.draw(256);
					c.note("byte %zu", p);
				}
			}
			else if (kind == 2) {
				// structural: another size in the header, extra bytes, removed or repeated part
				switch (c.draw(4)) {
					case 0:
						if (bytes.size() >= 12) {
							uint64_t s = c.draw(3) ? c.draw(20) * V::block_size * sizeof(T) / 2 : ((uint64_t)c.draw(1u << 28) << c.draw(29));
							for (int i = 0; i < 7; ++i)
								bytes[1 + (size_t)i] = (uint8_t)(s >> (8 * i));
						}
						break;
					case 1:
						for (uint64_t i = 0, e = 1 + c.draw(40); i < e; ++i)
							bytes.push_back((uint8_t)c.draw(256));
						break;
					case 2: {
						size_t a = c.draw(bytes.size()), n = std::min<size_t>(1 + c.draw(40), bytes.size() - a);
						bytes.erase(bytes.begin() + (ptrdiff_t)a, bytes.begin() + (ptrdiff_t)(a + n));
						break;
					}
					default: {
						size_t a = c.draw(bytes.size()), n = std::min<size_t>(1 + c.draw(40), bytes.size() - a);
						std::vector<uint8_t> part(bytes.begin() + (ptrdiff_t)a, bytes.begin() + (ptrdiff_t)(a + n));
						bytes.insert(bytes.begin() + (ptrdiff_t)a, part.begin(), part.end());
						break;
					}
				}
				c.note("structural change");
			}
			else {
				size_t n = c.draw(200);
				pbt::Rng r(c.draw(1u << 30));
				for (size_t i = 0; i < n; ++i)
					bytes.push_back((uint8_t)r.next());
				if (n >= 12 && c.draw(2)) {
					size_t s = (size_t)c.draw(4) * V::block_size * sizeof(T) + c.draw(3) * sizeof(T);
					bytes[0] = 255;
					for (int i = 0; i < 7; ++i)
						bytes[1 + (size_t)i] = (uint8_t)(s >> (8 * i));
					uint32_t b = (uint32_t)V::block_bytes;
					memcpy(&bytes[8], &b, 4);
				}
				c.note("random bytes");
			}
			if (bytes == good && !cut)
				throw pbt::Discard();
			V w(al);
			prior<C>(c, w, vals);
			size_t r;
			const char* form = "memory";
			bool stream = c.draw(2);
			if (!stream) {
				mem::GBuf src(bytes.size(), true, (unsigned)c.draw(32));
				if (!bytes.empty())
					memcpy(src.data(), bytes.data(), bytes.size());
				r = w.deserialize(src.data(), bytes.size());
			}
			else {
				form = "stream";
				std::stringstream ss(std::string(bytes.begin(), bytes.end()), std::ios::in | std::ios::binary);
				r = w.deserialize(ss);
			}
			bool ok = !stenos_has_error(r);
			c.label(ok ? "accepted" : "rejected");
			c.note("%s: %s", form, ok ? "accepted" : "rejected");
			if (cut)
				PBT_CHECK(c, !ok, "%zu of %zu serialized bytes are accepted (%s form) as %zu elements", bytes.size(), good.size(), form, r);
			if (ok)
				PBT_CHECK(c, r == w.size(), "deserialize reports %zu elements, the vector has %zu", r, w.size());
			PBT_CHECK(c, w.size() <= (1ull << 50), "absurd size after deserialization");
			if (ok && w.size() <= 200000) {
				// what the general decoder accepts must read the same
				size_t n = w.size();
				std::vector<uint8_t> raw(n * sizeof(T) + 1);
				size_t d = stenos_decompress(bytes.data(), sizeof(T), bytes.size(), raw.data(), n * sizeof(T));
				if (n && !stenos_has_error(d) && d == n * sizeof(T)) {
					const V& cvr = w;
					std::vector<T> plain(n);
					memcpy((void*)plain.data(), raw.data(), n * sizeof(T));
					for (size_t i = 0; i < n; ++i) {
						auto e = cvr[i];
						PBT_CHECK(c, memcmp(&e.get(), &plain[i], sizeof(T)) == 0, "element %zu of %zu differs from what stenos_decompress gives", i, n);
					}
				}
			}
			// the vector must stay usable
			switch (c.draw(4)) {
				case 0:
					w.clear();
					break;
				case 1: {
					// read the intact data again
					if (good.empty())
						break;
					size_t q = w.deserialize(good.data(), good.size());
					PBT_CHECK(c, q == m.size(), "intact data read after damaged data gives %zd instead of %zu", (ssize_t)q, m.size());
					compare<C>(c, w, m, (unsigned)c.draw(8), "intact data read after damaged data");
					w.clear();
					break;
				}
				case 2: {
					V x(al);
					w.swap(x);
					break;
				}
				default:
					w.clear();
					break;
			}
			if (c.draw(4)) {
				w.clear();
				std::vector<Key> m2;
				size_t n = 1 + c.draw(4);
				for (size_t i = 0; i < n; ++i)
					Mc::apply(c, Mc::draw_op(c), w, m2, vals);
				compare<C>(c, w, m2, (unsigned)c.draw(8), "vector used after damaged data");
			}
			if (bytes.size() > 12)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, arena.blocks.empty(), "%zu blocks are left in the allocator", arena.blocks.size());
	}
}
#ifdef CV05
CV_REGISTER(v05)
#else
CV_REGISTER(v04)
#endif
