// V01 with blocks of several megabytes, compared with std::vector.
#include "cv.hpp"
namespace
{
	using namespace cv;

	template<class C>
	void run(Case& c)
	{
		typedef typename C::V V;
		typedef typename C::T T;
		const size_t B = V::block_size, cap = B * 3 + B / 2;
		Arena arena;
		{
			V v{ typename C::A(&arena) };
			std::vector<T> m;
			auto check = [&](const char* when) {
				PBT_CHECK(c, v.size() == m.size(), "%s: size %zu instead of %zu", when, v.size(), m.size());
				size_t i = 0, bad = m.size();
				const V& cvr = v;
				cvr.for_each(0, m.size(), [&](const T& t) {
					if (bad == m.size() && memcmp((const void*)&t, (const void*)&m[i], sizeof(T)) != 0)
						bad = i;
					++i;
				});
				PBT_CHECK(c, i == m.size(), "%s: for_each visits %zu of %zu elements", when, i, m.size());
				PBT_CHECK(c, bad == m.size(), "%s: element %zu of %zu differs (block size %zu)", when, bad, m.size(), B);
			};
			Values vals;
			vals.draw(c);
			size_t steps = 2 + c.draw(5), big = 0;
			for (size_t s = 0; s < steps; ++s) {
				size_t n;
				switch (c.draw(3)) {
					case 0:
						n = c.draw(cap + 1);
						break;
					case 1:
						n = B * c.draw(4) + c.draw(3);
						break;
					default:
						n = m.size() + c.draw(B + B / 2);
						break;
				}
				n = std::min(n, cap);
				switch (c.draw(6)) {
					case 0:
						c.note("resize %zu -> %zu", m.size(), n);
						v.resize(n);
						m.resize(n);
						break;
					case 1: {
						T t = mk<C>(C::E::norm(vals.get()));
						c.note("resize %zu -> %zu with a value", m.size(), n);
						v.resize(n, t);
						m.resize(n, t);
						break;
					}
					case 2: {
						n = std::min(n, cap - m.size());
						c.note("push %zu", n);
						for (size_t i = 0; i < n; ++i) {
							T t = mk<C>(C::E::norm(vals.get()));
							v.push_back(t);
							m.push_back(t);
						}
						break;
					}
					case 3: {
						if (m.empty())
							continue;
						for (size_t i = 0; i < 20; ++i) {
							size_t p = c.draw(m.size());
							T t = mk<C>(C::E::norm(vals.get()));
							v[p] = t;
							m[p] = t;
						}
						c.note("write");
						break;
					}
					case 4:
						v.shrink_to_fit();
						c.note("shrink");
						break;
					default: {
						V w(v, typename C::A(&arena));
						v.swap(w);
						c.note("copy");
						break;
					}
				}
				if (m.size() > 2 * B)
					++big;
				check("during the history");
			}
			if (big)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.blocks.empty(), "%zu blocks are left in the allocator", arena.blocks.size());
	}
	// the block is as big as the usual stack of a thread
	typedef Conf<double, 12, 1, true> C0;
	typedef Conf<uint64_t, 10, 2, true> C1;
	static RegEntry r0("double,1M,level1", run<C0>);
	static RegEntry r1("uint64,256k,level2", run<C1>);
}
