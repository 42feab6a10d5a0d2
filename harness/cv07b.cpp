// V07, apart from cv07.cpp because of a known finding: element to element assignment through temporary references.
#include "cv_types.hpp"
namespace
{
	using namespace cv;

	template<class C>
	void run(Case& c)
	{
		typedef typename C::V V;
		typedef typename C::T T;
		reg().reset();
		Arena arena;
		{
			V v{ typename C::A(&arena) };
			size_t n = 2 + c.draw(V::block_size * 4);
			std::vector<Key> m;
			for (size_t i = 0; i < n; ++i) {
				v.push_back(mk<C>((Key)i));
				m.push_back((Key)i);
			}
			size_t a = c.draw(n), b = c.draw(n);
			if (a == b)
				b = (a + 1) % n;
			const char* how = "v[i] = v[j]";
			switch (c.draw(3)) {
				case 0:
					v[a] = v[b];
					break;
				case 1: {
					how = "*it = *jt";
					auto i = v.begin() + (ptrdiff_t)a, j = v.begin() + (ptrdiff_t)b;
					*i = *j;
					break;
				}
				default: {
					how = "value_type x = v[j]; v[i] = x";
					T x = v[b];
					v[a] = x;
					break;
				}
			}
			m[a] = m[b];
			c.note("%s, %zu elements", how, n);
			Key ka = C::E::key(v[a].get()), kb = C::E::key(v[b].get());
			PBT_CHECK(c, ka == m[a], "%s: the element assigned to is %llx instead of %llx", how, (unsigned long long)ka, (unsigned long long)m[a]);
			if (kb == MOVED)
				c.fail("v[i] = v[j] through temporary references moves from v[j]: the source is left empty");
			PBT_CHECK(c, kb == m[b], "%s: the source element is %llx instead of %llx", how, (unsigned long long)kb, (unsigned long long)m[b]);
			compare<C>(c, v, m, (unsigned)c.draw(8), "afterwards");
			c.nontrivial();
		}
	}
}
CV_REGISTER(run)
