// V11: memory use reflects compression.
#include "cv_types.hpp"
#include "stenos/stenos.h"
namespace
{
	using namespace cv;

	struct Codec
	{
		stenos_context* x = stenos_make_context();
		~Codec() { stenos_destroy_context(x); }
	};

	// What the codec itself makes of the blocks of the vector, and the memory its context takes for that.
	template<class C>
	struct Reference
	{
		typedef typename C::V V;
		typedef typename C::T T;
		size_t full = 0;   // full blocks
		size_t bytes = 0;  // their compressed size
		size_t ctx = 0;    // memory of the context
		static size_t one(const std::vector<uint8_t>& raw, Codec& k)
		{
			static std::vector<uint8_t> out;
			out.resize(stenos_bound(raw.size()) + 64);
			size_t r = stenos_compress_generic(k.x, raw.data(), sizeof(T), raw.size(), out.data(), out.size());
			if (stenos_has_error(r))
				return raw.size() + 64;
			return r;
		}
		static size_t context_size()
		{
			static size_t s = 0;
			if (!s) {
				// incompressible, compressible and mixed blocks, both ways
				Codec k;
				stenos_set_level(k.x, C::Level);
				stenos_set_block_size(k.x, C::Shift);
				pbt::Rng g(1);
				for (int i = 0; i < 8; ++i) {
					std::vector<uint8_t> raw(V::block_bytes);
					for (size_t j = 0; j < raw.size(); ++j)
						raw[j] = i < 2 ? (uint8_t)g.next() : i < 4 ? (uint8_t)g.below(7) : i < 6 ? (uint8_t)(j / 16 + (g.below(9) == 0)) : (uint8_t)((j % 64) * (g.below(20) != 0));
					std::vector<uint8_t> out(stenos_bound(raw.size()) + 64), back(raw.size());
					size_t r = stenos_compress_generic(k.x, raw.data(), sizeof(T), raw.size(), out.data(), out.size());
					if (!stenos_has_error(r))
						stenos_decompress_generic(k.x, out.data(), sizeof(T), r, back.data(), back.size());
				}
				s = stenos_memory_footprint(k.x);
			}
			return s;
		}
		explicit Reference(const V& v)
		{
			static Codec k;
			stenos_set_level(k.x, C::Level);
			stenos_set_block_size(k.x, C::Shift);
			std::vector<uint8_t> raw(V::block_bytes);
			full = v.size() / V::block_size;
			for (size_t b = 0; b < full; ++b) {
				size_t i = 0;
				v.for_each(b * V::block_size, (b + 1) * V::block_size, [&](const T& t) {
					memcpy(raw.data() + i * sizeof(T), (const void*)&t, sizeof(T));
					++i;
				});
				bytes += one(raw, k);
			}
			ctx = context_size();
		}
	};

	template<class C, bool Plain = std::is_trivially_copyable<typename C::T>::value>
	struct Ser
	{
		static bool apply(Case& c, typename C::V& v)
		{
			std::vector<char> buf(sizeof(typename C::T) * v.size() + v.size() / 8 + 70000);
			size_t r = v.serialize(buf.data(), buf.size());
			PBT_CHECK(c, !stenos_has_error(r), "serialize fails");
			size_t d = v.deserialize(buf.data(), r);
			PBT_CHECK(c, !stenos_has_error(d), "deserialize fails");
			c.note("serialize and deserialize");
			return true;
		}
	};
	template<class C>
	struct Ser<C, false>
	{
		static bool apply(Case&, typename C::V&) { return false; }
	};

	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		typedef std::vector<Key> M;
		const size_t B = V::block_size, BB = V::block_bytes;
		Arena arena;
		size_t done = 0, shrunk = 0, maxs = 0;
		{
			std::unique_ptr<V> v;
			M m;
			Values vals;
			vals.draw(c);
			size_t cap = Mc::cap();
			Mc::CO::construct(c, v, m, vals, typename C::A(&arena), cap);
			// decompressed blocks: at least the size of a block and a header; one of these might be the table of blocks
			auto raws = [&]() { return arena.count_of_at_least(BB + 24); };
			const size_t fixed = 1024;
			auto account = [&](const char* when) {
				size_t f = v->memory_footprint();
				size_t x = Reference<C>::context_size();
				PBT_CHECK(c, f + 64 >= arena.bytes, "%s: memory_footprint() is %zu, the allocator has given %zu bytes", when, f, arena.bytes);
				PBT_CHECK(c, f <= arena.bytes + x + x / 4 + 4096, "%s: memory_footprint() is %zu, the allocator has given %zu bytes and a codec context takes %zu", when, f, arena.bytes, x);
				float r = v->current_compression_ratio(), e = m.empty() ? 0.f : (float)(m.size() * sizeof(T)) / (float)f;
				PBT_CHECK(c, std::abs(r - e) <= 0.01f * e + 1e-6f, "%s: current_compression_ratio() is %g instead of %g", when, (double)r, (double)e);
			};
			size_t big = 0;
			switch (c.pick({ 62, 30, 8 })) {
				case 0:
					break;
				case 1:
					big = B * (4 + c.draw(cap / B - 4));
					break;
				default: // hundreds of blocks
					big = std::min(B * (64 + c.draw(320)), size_t(1500000) / sizeof(T));
					big += c.draw(3);
					break;
			}
			for (size_t i = 0; i < big; ++i) {
				Key k = E::norm(vals.get());
				v->push_back(mk<C>(k));
				m.push_back(k);
			}
			maxs = m.size();
			bool held = false; // references to many blocks were held since the last shrink_to_fit
			size_t steps = 1 + c.draw(14);
			for (size_t s = 0; s < steps; ++s) {
				const char* what = "after an operation";
				switch (c.pick({ 60, 25, 8, 7, 5 })) {
					case 0:
						if (!Mc::apply(c, Mc::draw_op(c), *v, m, vals))
							continue;
						++done;
						break;
					case 1: {
						what = "after shrink_to_fit";
						Reference<C> ref(*v);
						c.note("shrink %zu elements", m.size());
						v->shrink_to_fit();
						// one table of blocks, the codec's bytes for the full blocks, at most two decompressed blocks
						size_t nb = (m.size() + B - 1) / B;
						size_t limit = ref.bytes + ref.bytes / 32 + nb * 32 + 2 * (BB + 128) + fixed;
						PBT_CHECK(c, arena.bytes <= limit, "after shrink_to_fit %zu elements (%zu bytes, %zu full blocks that compress to %zu bytes) hold %zu bytes, at most %zu expected", m.size(), m.size() * sizeof(T), ref.full, ref.bytes, arena.bytes, limit);
						PBT_CHECK(c, raws() <= 3, "after shrink_to_fit %zu blocks of %zu are still decompressed", raws(), nb);
						float cr = v->compression_ratio();
						if (ref.full) {
							float e = (float)(ref.full * BB) / (float)ref.bytes;
							float lo = (float)(ref.full * BB) / ((float)ref.bytes + (float)ref.bytes / 32 + 8 * (float)ref.full);
							float hi = (float)(ref.full * BB) / ((float)ref.bytes - std::min<float>((float)ref.bytes * 0.95f, (float)ref.bytes / 32 + 24 * (float)ref.full));
							PBT_CHECK(c, cr >= lo * 0.99f && cr <= hi * 1.01f, "compression_ratio() is %g, the codec reaches %g", (double)cr, (double)e);
						}
						else
							PBT_CHECK(c, cr == 0, "compression_ratio() is %g without full blocks", (double)cr);
						held = false;
						++shrunk;
						break;
					}
					case 2: {
						what = "while references are held";
						if (m.empty())
							continue;
						std::vector<typename V::ref_type> refs;
						size_t n = 1 + c.draw(12);
						for (size_t i = 0; i < n; ++i) {
							size_t p = std::min(pos_near(c, m.size(), B), m.size() - 1);
							refs.push_back((*v)[p]);
							PBT_CHECK(c, E::key(refs.back().get()) == m[p], "%s: element %zu is wrong", what, p);
						}
						c.note("%zu references", n);
						account(what);
						held = true;
						break;
					}
					case 3: {
						what = "after clear";
						bool any = !m.empty(); // nothing happens to an empty vector
						v->clear();
						m.clear();
						c.note("clear");
						if (any)
							PBT_CHECK(c, arena.bytes <= fixed + (2 * std::max(cap, maxs) / B + 2) * 32, "after clear %zu bytes are still held", arena.bytes);
						held = false;
						++done;
						break;
					}
					default:
						if (!Ser<C>::apply(c, *v))
							continue;
						break;
				}
				maxs = std::max(maxs, m.size());
				if (!held)
					PBT_CHECK(c, raws() <= 5, "%s: %zu of %zu blocks are decompressed, no reference is held", what, raws(), (m.size() + B - 1) / B);
				account(what);
				if (c.draw(3) == 0 || what[6] == 's')
					compare<C>(c, *v, m, (unsigned)c.draw(8), what);
			}
			// what one expects of plain redundancy
			if (C::Level > 0 && std::is_trivially_copyable<T>::value && c.prob(30)) {
				size_t n = B * (8 + c.draw(24)) + c.draw(B);
				unsigned kind = (unsigned)c.draw(2);
				v->clear();
				m.clear();
				Key k0 = c.draw(1000);
				for (size_t i = 0; i < n; ++i) {
					Key k = E::norm(kind ? k0 + i / 4 : k0);
					v->push_back(mk<C>(k));
					m.push_back(k);
				}
				v->shrink_to_fit();
				size_t plain = n * sizeof(T);
				size_t limit = plain / (kind ? 2 : 10) + 2 * (BB + 128) + fixed + 24 * (n / B);
				c.note("%s content of %zu", kind ? "sequential" : "constant", n);
				PBT_CHECK(c, arena.bytes <= limit, "%zu bytes of %s content take %zu bytes after shrink_to_fit (at most %zu expected)", plain, kind ? "sequential" : "constant", arena.bytes, limit);
				compare<C>(c, *v, m, (unsigned)c.draw(8), "after shrink_to_fit of redundant content");
				++shrunk;
				maxs = n;
			}
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, arena.bytes == 0, "%zu bytes are left", arena.bytes);
		if (shrunk && maxs > B)
			c.nontrivial();
		c.label_if(shrunk > 0, "shrunk");
	}
}
CV_REGISTER(run)
