// V01: random histories against std::vector.
#include "cv_types.hpp"
namespace
{
	using namespace cv;
	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		Arena arena;
		typename C::A al(&arena);
		{
			std::unique_ptr<V> v;
			std::vector<Key> m;
			Values vals;
			vals.draw(c);
			Mc::CO::construct(c, v, m, vals, al, Mc::cap());
			compare<C>(c, *v, m, (unsigned)c.draw(8), "after construction");
			size_t n = 1 + c.draw(24), done = 0, maxs = 0;
			for (size_t i = 0; i < n; ++i) {
				if (c.prob(8))
					vals.draw(c);
				Op op = Mc::draw_op(c);
				if (Mc::apply(c, op, *v, m, vals)) {
					++done;
					maxs = std::max(maxs, m.size());
				}
				PBT_CHECK(c, v->size() == m.size(), "size %zu instead of %zu", v->size(), m.size());
				if (c.prob(25))
					compare<C>(c, *v, m, (unsigned)c.draw(8), "during the history");
			}
			compare<C>(c, *v, m, (unsigned)c.draw(8), "at the end");
			v->shrink_to_fit();
			compare<C>(c, *v, m, (unsigned)c.draw(8), "after shrink_to_fit");
			c.label(maxs > 3 * V::block_size ? "blocks:>3" : maxs > V::block_size ? "blocks:2-3" : "blocks:1");
			if (done >= 2 && maxs > V::block_size)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
	}
}
CV_REGISTER(run)
