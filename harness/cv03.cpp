// V03: a pool of vectors that are copied, moved, swapped and modified.
#include "cv_types.hpp"
namespace
{
	using namespace cv;

	template<class C, bool Copyable = C::E::copyable>
	struct Cp
	{
		typedef typename C::V V;
		static V* copy(const V& v) { return new V(v); }
		static V* copy(const V& v, const typename C::A& a) { return new V(v, a); }
		static void assign(V& d, const V& s) { d = s; }
		static const bool ok = true;
	};
	template<class C>
	struct Cp<C, false>
	{
		typedef typename C::V V;
		static V* copy(const V&) { return nullptr; }
		static V* copy(const V&, const typename C::A&) { return nullptr; }
		static void assign(V&, const V&) {}
		static const bool ok = false;
	};

	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef std::vector<Key> M;
		const bool prop = C::A::propagate_on_container_swap::value;
		Arena arenas[2];
		auto alloc = [&](size_t i) { return typename C::A(&arenas[i]); };
		{
			const size_t N = 4;
			std::unique_ptr<V> v[N];
			M m[N];
			size_t ar[N];	// arena of each vector
			bool known[N];	// content known (false once moved from)
			Values vals;
			vals.draw(c);
			size_t cap = std::min<size_t>(Mc::cap(), V::block_size * 6);
			bool two = c.prob(60);
			auto fresh = [&](size_t i) {
				ar[i] = two ? c.draw(2) : 0;
				known[i] = true;
				v[i].reset();
				Mc::CO::construct(c, v[i], m[i], vals, alloc(ar[i]), cap);
			};
			for (size_t i = 0; i < N; ++i)
				fresh(i);
			size_t moved = 0, copied = 0, maxs = 0;
			auto settle = [&](size_t i) {
				// a moved-from vector: any valid content; it must be usable
				size_t n = 0;
				const V& cvr = *v[i];
				cvr.for_each(0, cvr.size(), [&](const typename C::T& t) {
					(void)C::E::key(t);
					++n;
				});
				PBT_CHECK(c, n == v[i]->size(), "a moved-from vector of size %zu visits %zu elements", v[i]->size(), n);
				if (c.draw(2))
					v[i]->clear();
				else {
					m[i].clear();
					for (size_t k = 0; k < v[i]->size(); ++k)
						m[i].push_back(key_at<C>(*v[i], k));
					known[i] = true;
					return;
				}
				m[i].clear();
				known[i] = true;
			};
			size_t steps = 2 + c.draw(16);
			for (size_t s = 0; s < steps; ++s) {
				size_t a = c.draw(N), b = c.draw(N);
				if (c.prob(80) && a == b)
					b = (a + 1) % N;
				switch (c.pick({ 30, 10, 14, 10, 14, 10, 6, 10, 4 })) {
					case 0: {
						if (!known[a])
							settle(a);
						size_t n = 1 + c.draw(4);
						for (size_t i = 0; i < n; ++i)
							Mc::apply(c, Mc::draw_op(c), *v[a], m[a], vals);
						break;
					}
					case 1: // copy construction
						if (!known[a] || a == b || !Cp<C>::ok)
							continue;
						if (c.draw(2)) {
							v[b].reset(Cp<C>::copy(*v[a]));
							ar[b] = ar[a];
						}
						else {
							size_t x = two ? c.draw(2) : 0;
							v[b].reset(Cp<C>::copy(*v[a], alloc(x)));
							ar[b] = x;
						}
						m[b] = m[a];
						known[b] = true;
						++copied;
						c.note("copy construct %zu from %zu (size %zu)", b, a, m[a].size());
						break;
					case 2: // copy assignment
						if (!known[a] || !Cp<C>::ok)
							continue;
						c.note("copy assign %zu from %zu (size %zu to %zu, arenas %zu %zu)", b, a, m[a].size(), v[b]->size(), ar[a], ar[b]);
						Cp<C>::assign(*v[b], *v[a]);
						if (prop)
							ar[b] = ar[a];
						m[b] = M(m[a]);
						known[b] = true;
						++copied;
						break;
					case 3: // move construction
						if (!known[a] || a == b)
							continue;
						c.note("move construct %zu from %zu (size %zu)", b, a, m[a].size());
						if (c.draw(2)) {
							v[b].reset(new V(std::move(*v[a])));
							ar[b] = ar[a];
						}
						else {
							size_t x = two ? c.draw(2) : 0;
							v[b].reset(new V(std::move(*v[a]), alloc(x)));
							ar[b] = x;
						}
						m[b].swap(m[a]);
						known[b] = true;
						known[a] = false;
						++moved;
						break;
					case 4: // move assignment
						if (!known[a])
							continue;
						c.note("move assign %zu from %zu (size %zu to %zu, arenas %zu %zu)", b, a, m[a].size(), v[b]->size(), ar[a], ar[b]);
						if (a == b) {
							V& self = *v[a];
							*v[a] = std::move(self);
							known[a] = false;
							break;
						}
						*v[b] = std::move(*v[a]);
						if (prop)
							ar[b] = ar[a];
						m[b] = M(m[a]);
						known[b] = true;
						known[a] = false;
						++moved;
						break;
					case 5: // swap
						if (!known[a] || !known[b] || (!prop && ar[a] != ar[b]))
							continue;
						c.note("swap %zu and %zu", a, b);
						v[a]->swap(*v[b]);
						m[a].swap(m[b]);
						std::swap(ar[a], ar[b]);
						++moved;
						break;
					case 6:
						fresh(a);
						break;
					case 7:
						if (known[a]) {
							compare<C>(c, *v[a], m[a], (unsigned)c.draw(8), "vector of the pool");
							maxs = std::max(maxs, m[a].size());
						}
						break;
					default:
						v[a]->clear();
						m[a].clear();
						known[a] = true;
						break;
				}
				for (size_t i = 0; i < N; ++i) {
					PBT_CHECK(c, v[i]->get_allocator().a == &arenas[ar[i]], "vector %zu reports another allocator than expected", i);
					if (known[i])
						PBT_CHECK(c, v[i]->size() == m[i].size(), "vector %zu has size %zu instead of %zu", i, v[i]->size(), m[i].size());
				}
			}
			for (size_t i = 0; i < N; ++i) {
				if (!known[i])
					settle(i);
				if (c.prob(50)) {
					// another change in one of them must not show elsewhere
					size_t k = c.draw(N);
					if (!known[k])
						settle(k);
					Mc::apply(c, Mc::draw_op(c), *v[k], m[k], vals);
				}
				maxs = std::max(maxs, m[i].size());
			}
			for (size_t i = 0; i < N; ++i)
				compare<C>(c, *v[i], m[i], (unsigned)c.draw(8), "vector at the end");
			if (moved + copied >= 2 && maxs > V::block_size)
				c.nontrivial();
		}
		for (auto& a : arenas) {
			PBT_CHECK(c, a.error.empty(), "%s", a.error.c_str());
			PBT_CHECK(c, a.blocks.empty(), "%zu blocks are left in an allocator", a.blocks.size());
		}
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
		PBT_CHECK(c, reg().alive == 0, "%ld elements are left", reg().alive);
	}
}
CV_REGISTER(run)
