// V07: element references that live across other accesses.
#include "cv_types.hpp"
namespace
{
	using namespace cv;

	template<class C, bool Copyable = C::E::copyable>
	struct Ways
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename V::ref_type Ref;
		// copy of an element into another
		static bool copy_ref(Ref& d, const Ref& s)
		{
			d = s;
			return true;
		}
		static bool copy_cref(Ref& d, const typename V::const_ref_type& s)
		{
			d = s;
			return true;
		}
		static bool copy_value(Ref& d, const Ref& s)
		{
			T t(s.get());
			d = t;
			return true;
		}
		static bool read_value(const Ref& s, Key& k)
		{
			T t = s;
			k = C::E::key(t);
			return true;
		}
		static void write(Ref& d, Key k, unsigned way)
		{
			T t = mk<C>(k);
			if (way & 1)
				d = t;
			else
				d = std::move(t);
		}
		template<class It>
		static bool through_value_type(It it, Key k)
		{
			typename std::iterator_traits<It>::value_type x(mk<C>(k));
			*it = x;
			return true;
		}
	};
	template<class C>
	struct Ways<C, false>
	{
		typedef typename C::V V;
		typedef typename V::ref_type Ref;
		static bool copy_ref(Ref&, const Ref&) { return false; }
		static bool copy_cref(Ref&, const typename V::const_ref_type&) { return false; }
		static bool copy_value(Ref&, const Ref&) { return false; }
		static bool read_value(const Ref&, Key&) { return false; }
		static void write(Ref& d, Key k, unsigned) { d = mk<C>(k); }
		template<class It>
		static bool through_value_type(It it, Key k)
		{
			typename std::iterator_traits<It>::value_type x(mk<C>(k));
			*it = std::move(x);
			return true;
		}
	};

	template<class C>
	struct Held
	{
		typedef typename C::V V;
		std::unique_ptr<typename V::ref_type> r;
		std::unique_ptr<typename V::const_ref_type> cr;
		std::unique_ptr<typename V::iterator> it;
		size_t i = 0;
		const typename C::T* p = nullptr; // from the reference, valid while it is held
		typename C::T* w = nullptr;
	};

	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		typedef std::vector<Key> M;
		typedef Ways<C> W;
		const size_t B = V::block_size;
		Arena arena;
		size_t done = 0, maxheld = 0;
		{
			std::unique_ptr<V> v;
			M m;
			Values vals;
			vals.draw(c);
			size_t cap = std::min<size_t>(Mc::cap(), B * 9);
			Mc::CO::construct(c, v, m, vals, typename C::A(&arena), cap);
			if (c.prob(70)) {
				size_t n = std::min(cap - std::min(cap, m.size()), B * (1 + c.draw(8)) + c.draw(B));
				for (size_t i = 0; i < n; ++i) {
					Key k = E::norm(vals.get());
					v->push_back(mk<C>(k));
					m.push_back(k);
				}
			}
			if (m.empty())
				throw pbt::Discard();
			if (c.prob(40))
				v->shrink_to_fit();
			// another vector, of another size, that gives and takes elements
			V other{ typename C::A(&arena) };
			M mo;
			if (c.prob(35)) {
				size_t n = c.draw(2) ? 1 + c.draw(B * 2) : B * c.draw(16) + 1 + c.draw(B);
				n = std::min(n, Mc::cap());
				for (size_t i = 0; i < n; ++i) {
					Key k = E::norm(vals.get());
					other.push_back(mk<C>(k));
					mo.push_back(k);
				}
				if (c.draw(2))
					other.shrink_to_fit();
			}
			std::vector<Held<C>> held;
			const size_t maxh = c.draw(4) ? 6 : 60;
			auto& vec = *v;
			const V& cvec = vec;
			auto pos = [&]() { return std::min(pos_near(c, m.size(), B), m.size() - 1); };
			auto look = [&](const Held<C>& h, const char* when) {
				Key k = h.r ? E::key(h.r->get()) : h.cr ? E::key(h.cr->get()) : E::key((*(*h.it)).get());
				PBT_CHECK(c, k == m[h.i], "%s: the held reference to element %zu of %zu reads %llx instead of %llx", when, h.i, m.size(), (unsigned long long)k, (unsigned long long)m[h.i]);
				if (h.p)
					PBT_CHECK(c, E::key(*h.p) == m[h.i], "%s: the element %zu under a held reference reads %llx instead of %llx", when, h.i, (unsigned long long)E::key(*h.p), (unsigned long long)m[h.i]);
			};
			auto forget = [&]() {
				for (auto& h : held)
					h.p = nullptr;
			};
			size_t steps = 3 + c.draw(40);
			for (size_t s = 0; s < steps; ++s) {
				const char* what = "";
				switch (c.pick({ 22, 8, 20, 10, 12, 8, 6, 5, 4, 3, 6, 5, 6, 5, mo.empty() ? 0u : 15u, 4 })) {
					case 0: { // hold
						if (held.size() >= maxh)
							continue;
						Held<C> h;
						h.i = pos();
						switch (c.draw(7)) {
							case 0:
								h.r.reset(new typename V::ref_type(vec[h.i]));
								break;
							case 1:
								h.r.reset(new typename V::ref_type(vec.at(h.i)));
								break;
							case 2:
								h.r.reset(new typename V::ref_type(*(vec.begin() + (ptrdiff_t)h.i)));
								break;
							case 3:
								h.cr.reset(new typename V::const_ref_type(cvec[h.i]));
								break;
							case 4:
								h.i = c.draw(2) ? 0 : m.size() - 1;
								h.r.reset(new typename V::ref_type(h.i ? vec.back() : vec.front()));
								break;
							case 5:
								h.it.reset(new typename V::iterator(vec.begin() + (ptrdiff_t)h.i));
								break;
							default:
								h.cr.reset(new typename V::const_ref_type(*(cvec.begin() + (ptrdiff_t)h.i)));
								break;
						}
						if (c.draw(2)) {
							if (h.r)
								h.p = &h.r->get();
							else if (h.cr)
								h.p = &h.cr->get();
						}
						c.note("hold %zu%s", h.i, h.p ? " with address" : "");
						held.push_back(std::move(h));
						maxheld = std::max(maxheld, held.size());
						break;
					}
					case 1: // release
						if (held.empty())
							continue;
						{
							size_t k = c.draw(held.size());
							c.note("release %zu", held[k].i);
							look(held[k], "before release");
							held.erase(held.begin() + (ptrdiff_t)k);
						}
						break;
					case 2: { // write through a held reference
						if (held.empty())
							continue;
						auto& h = held[c.draw(held.size())];
						Key k = E::norm(vals.get());
						if (h.r)
							W::write(*h.r, k, (unsigned)c.draw(2));
						else if (h.it) {
							if (c.draw(2))
								*(*h.it) = mk<C>(k);
							else
								W::through_value_type(*h.it, k);
						}
						else
							continue;
						m[h.i] = k;
						c.note("write held %zu", h.i);
						++done;
						break;
					}
					case 3: { // element to element
						if (held.empty())
							continue;
						auto& h = held[c.draw(held.size())];
						auto& g = held[c.draw(held.size())];
						if (!h.r)
							continue;
						switch (c.draw(5)) {
							case 0:
								if (g.r && W::copy_ref(*h.r, *g.r))
									m[h.i] = Key(m[g.i]);
								break;
							case 1:
								if (g.cr && W::copy_cref(*h.r, *g.cr))
									m[h.i] = Key(m[g.i]);
								break;
							case 2:
								if (g.r && W::copy_value(*h.r, *g.r))
									m[h.i] = Key(m[g.i]);
								break;
							case 3:
								if (g.r && &g != &h) {
									using std::swap;
									swap(*h.r, *g.r);
									std::swap(m[h.i], m[g.i]);
								}
								break;
							default: {
								size_t j = pos();
								auto o = vec[j];
								h.r->swap(o);
								std::swap(m[h.i], m[j]);
								break;
							}
						}
						c.note("held %zu from %zu", h.i, g.i);
						++done;
						break;
					}
					case 4: { // writes elsewhere, no reference kept
						size_t n = 1 + c.draw(8);
						for (size_t i = 0; i < n; ++i)
							Mc::CO::write_copy(c, vec, m, pos(), E::norm(vals.get()));
						what = "after writes elsewhere";
						c.note("write %zu elsewhere", n);
						break;
					}
					case 5: { // reads elsewhere
						size_t n = 1 + c.draw(8);
						for (size_t i = 0; i < n; ++i) {
							size_t p = pos();
							Key k = c.draw(2) ? E::key(vec[p].get()) : E::key(cvec.at(p).get());
							PBT_CHECK(c, k == m[p], "element %zu of %zu reads %llx instead of %llx", p, m.size(), (unsigned long long)k, (unsigned long long)m[p]);
						}
						what = "after reads elsewhere";
						c.note("read %zu elsewhere", n);
						break;
					}
					case 6: // everything is read
						compare<C>(c, vec, m, (unsigned)(c.draw(2) ? c.draw(2) : 3 + c.draw(5)), "during the history");
						what = "after reading all";
						break;
					case 7: { // append
						size_t n = c.draw(2) ? 1 + c.draw(3) : c.draw(2 * B);
						n = std::min(n, cap - std::min(cap, m.size()));
						for (size_t i = 0; i < n; ++i) {
							Key k = E::norm(vals.get());
							vec.push_back(mk<C>(k));
							m.push_back(k);
						}
						what = "after appending";
						c.note("append %zu", n);
						break;
					}
					case 8: { // shrink: addresses are not kept, references are
						forget();
						vec.shrink_to_fit();
						what = "after shrink_to_fit";
						c.note("shrink");
						break;
					}
					case 9: { // a copy is made
						size_t n = 0;
						cvec.for_each(0, m.size(), [&](const T& t) {
							if (E::key(t) == m[n])
								++n;
						});
						PBT_CHECK(c, n == m.size(), "visiting all elements: element %zu differs", n);
						what = "after visiting";
						break;
					}
					case 10: { // visit with changes where no reference is held
						size_t a = pos() / B * B, b = std::min(m.size(), a + B * (1 + c.draw(3)));
						bool clash = false;
						for (auto& h : held)
							if (h.i / B >= a / B && h.i / B <= (b - 1) / B)
								clash = true;
						if (clash)
							continue;
						Key k = E::norm(vals.get());
						size_t i = a;
						vec.for_each(a, b, [&](T& t) {
							m[i] = E::norm(k + i);
							t = mk<C>(m[i]);
							++i;
						});
						what = "after a visit with changes";
						c.note("change [%zu, %zu)", a, b);
						break;
					}
					case 11: { // move a held iterator
						if (held.empty())
							continue;
						auto& h = held[c.draw(held.size())];
						if (!h.it)
							continue;
						size_t q = pos();
						if (c.draw(2))
							*h.it += (ptrdiff_t)q - (ptrdiff_t)h.i;
						else if (c.draw(2))
							while (h.i < q) {
								++*h.it;
								++h.i;
							}
						else
							while (h.i > q) {
								--*h.it;
								--h.i;
							}
						h.i = (size_t)(*h.it - vec.begin());
						c.note("iterator to %zu", h.i);
						PBT_CHECK(c, h.i < m.size(), "iterator moved to %zu of %zu", h.i, m.size());
						break;
					}
					case 12: { // long walk that recycles the decompressed blocks
						size_t n = 0;
						for (size_t i = c.draw(B); i < m.size(); i += B) {
							Key k = E::norm(vals.get());
							if (c.draw(2)) {
								vec[i] = mk<C>(k);
								m[i] = k;
							}
							else
								PBT_CHECK(c, E::key(vec[i].get()) == m[i], "element %zu of %zu differs", i, m.size());
							++n;
						}
						what = "after touching every block";
						c.note("touch %zu blocks", n);
						break;
					}
					case 13: { // through the move conversion
						size_t p = pos();
						auto r = vec[p];
						T t = std::move(r);
						PBT_CHECK(c, E::key(t) == m[p], "moving element %zu out gives %llx instead of %llx", p, (unsigned long long)E::key(t), (unsigned long long)m[p]);
						Key k = E::norm(c.draw(2) ? Key(m[p]) : vals.get());
						vec[p] = mk<C>(k);
						m[p] = k;
						what = "after moving out and in";
						c.note("move out and in %zu", p);
						break;
					}
					case 14: { // elements exchanged with the other vector
						size_t rounds = 1 + c.draw(4);
						for (size_t i = 0; i < rounds; ++i) {
							size_t j = std::min(pos_near(c, mo.size(), B), mo.size() - 1);
							size_t p = pos();
							auto o = other[j];
							typename V::ref_type* r = nullptr;
							std::unique_ptr<typename V::ref_type> own;
							if (!held.empty() && c.draw(2)) {
								auto& h = held[c.draw(held.size())];
								if (h.r) {
									r = h.r.get();
									p = h.i;
								}
							}
							if (!r) {
								own.reset(new typename V::ref_type(vec[p]));
								r = own.get();
							}
							switch (c.draw(6)) {
								case 0:
									if (W::copy_ref(*r, o))
										m[p] = mo[j];
									break;
								case 1:
									if (W::copy_ref(o, *r))
										mo[j] = m[p];
									break;
								case 2:
									if (W::copy_cref(*r, static_cast<const V&>(other)[j]))
										m[p] = mo[j];
									break;
								case 3:
									if (c.draw(2))
										r->swap(o);
									else
										o.swap(*r);
									std::swap(m[p], mo[j]);
									break;
								case 4: {
									T t = std::move(o);
									PBT_CHECK(c, E::key(t) == mo[j], "moving element %zu of another vector gives %llx instead of %llx", j, (unsigned long long)E::key(t), (unsigned long long)mo[j]);
									o = std::move(t);
									break;
								}
								default: {
									// moved into the other, which is given a new value
									Key k = E::norm(vals.get());
									*r = std::move(o);
									m[p] = mo[j];
									o = mk<C>(k);
									mo[j] = k;
									break;
								}
							}
							PBT_CHECK(c, E::key(o.get()) == mo[j], "element %zu of %zu of the other vector reads %llx instead of %llx", j, mo.size(), (unsigned long long)E::key(o.get()), (unsigned long long)mo[j]);
						}
						what = "after an exchange with another vector";
						c.note("exchange %zu", rounds);
						c.label("two-vectors");
						break;
					}
					default: { // conversion to a value
						if (held.empty())
							continue;
						auto& h = held[c.draw(held.size())];
						Key k;
						if (h.r && W::read_value(*h.r, k))
							PBT_CHECK(c, k == m[h.i], "a held reference to element %zu converts to %llx instead of %llx", h.i, (unsigned long long)k, (unsigned long long)m[h.i]);
						break;
					}
				}
				if (c.prob(60) || *what == 0)
					for (auto& h : held)
						look(h, what);
				PBT_CHECK(c, reg().error.empty(), "%s: %s", what, reg().error.c_str());
			}
			if (c.draw(2))
				compare<C>(c, vec, m, (unsigned)c.draw(3), "at the end, references held");
			for (auto& h : held)
				look(h, "at the end");
			held.clear();
			compare<C>(c, vec, m, (unsigned)c.draw(8), "at the end");
			vec.shrink_to_fit();
			compare<C>(c, vec, m, (unsigned)c.draw(8), "at the end, shrunk");
			if (!mo.empty()) {
				compare<C>(c, other, mo, (unsigned)c.draw(8), "the other vector");
				other.shrink_to_fit();
				compare<C>(c, other, mo, (unsigned)c.draw(8), "the other vector, shrunk");
			}
			c.label(maxheld > 10 ? "held:>10" : maxheld > 2 ? "held:3-10" : "held:0-2");
			if (done >= 1 && maxheld >= 2 && m.size() > 2 * B)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
		PBT_CHECK(c, reg().alive == 0, "%ld elements are left", reg().alive);
	}
}
CV_REGISTER(run)
