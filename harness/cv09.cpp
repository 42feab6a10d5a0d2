// V09: concurrent readers and disjoint writers of one compressed vector.
#include "cv_types.hpp"
#include "perturb_points.hpp"
#include <thread>
namespace
{
	using namespace cv;

	enum What
	{
		Read,
		CRead,
		Walk,
		CVisit,
		CVisitBack,
		Hold,
		Write,
		WalkWrite,
		Visit,
		VisitBack,
		Swap,
		Add,
		Copy,
		NWhat
	};
	struct Op
	{
		What w;
		uint32_t a, n, step;
		Key k;
	};
	struct Run
	{
		uint32_t a, b;
	};

	template<class C, bool Copyable = C::E::copyable>
	struct CopyAll
	{
		typedef typename C::V V;
		static std::string apply(const V& v, const std::vector<Key>& m, const typename C::A& al)
		{
			V w(v, al);
			if (w.size() != m.size())
				return "a copy has another size";
			size_t i = 0, bad = m.size();
			w.for_each(0, w.size(), [&](const typename C::T& t) {
				if (C::E::key(t) != m[i] && bad == m.size())
					bad = i;
				++i;
			});
			return bad == m.size() ? std::string() : "element " + std::to_string(bad) + " of a copy is wrong";
		}
	};
	template<class C>
	struct CopyAll<C, false>
	{
		typedef typename C::V V;
		static std::string apply(const V&, const std::vector<Key>&, const typename C::A&) { return std::string(); }
	};

	template<class C>
	struct Worker
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		V& v;
		std::vector<Key>& m;
		const typename C::A& al;
		bool all = false; // everything may be read
		std::vector<uint32_t> mine, readable;
		std::vector<Run> runs, rruns;
		std::vector<Op> ops;
		std::string err;

		Worker(V& v_, std::vector<Key>& m_, const typename C::A& a_)
		  : v(v_)
		  , m(m_)
		  , al(a_)
		{
		}
		void bad(const char* what, size_t i, Key got)
		{
			if (!err.empty())
				return;
			char b[200];
			snprintf(b, sizeof(b), "%s: element %zu of %zu is %llx instead of %llx", what, i, m.size(), (unsigned long long)got, (unsigned long long)m[i]);
			err = b;
		}
		void check(const char* what, size_t i, Key got)
		{
			if (got != m[i])
				bad(what, i, got);
		}
		uint32_t pick(const std::vector<uint32_t>& s, const Op& o, uint32_t j) const { return s[(o.a + (uint64_t)o.step * j) % s.size()]; }
		void one(const Op& o)
		{
			const V& cvr = v;
			switch (o.w) {
				case Read:
					for (uint32_t j = 0; j < o.n; ++j) {
						size_t i = pick(readable, o, j);
						check("read", i, E::key(v[i].get()));
					}
					break;
				case CRead:
					for (uint32_t j = 0; j < o.n; ++j) {
						size_t i = pick(readable, o, j);
						check("const read", i, j & 1 ? E::key(cvr[i].get()) : E::key(cvr.at(i).get()));
					}
					break;
				case Walk: {
					Run r = rruns[o.a % rruns.size()];
					r.b = std::min(r.b, r.a + 2000);
					size_t i = r.a;
					for (auto it = cvr.begin() + (ptrdiff_t)r.a, e = cvr.begin() + (ptrdiff_t)r.b; it != e; ++it, ++i)
						check("iteration", i, E::key((*it).get()));
					break;
				}
				case CVisit:
				case CVisitBack: {
					Run r = rruns[o.a % rruns.size()];
					uint32_t len = r.b - r.a, stop = o.step % 3 == 0 ? o.n % (len + 1) : len;
					size_t i = o.w == CVisit ? r.a : r.b, seen = 0;
					auto f = [&](const T& t) {
						if (o.w == CVisitBack)
							--i;
						check("visit", i, E::key(t));
						if (o.w == CVisit)
							++i;
						perturb_point();
						return ++seen < stop;
					};
					if (stop == 0)
						break;
					size_t got = o.w == CVisit ? cvr.for_each(r.a, r.b, f) : cvr.const_for_each_backward(r.a, r.b, f);
					(void)got;
					if (seen != stop && err.empty())
						err = "a visit ends early";
					break;
				}
				case Hold: {
					std::vector<typename V::ref_type> r;
					std::vector<typename V::const_ref_type> cr;
					std::vector<uint32_t> ri, cri;
					for (uint32_t j = 0; j < o.n; ++j) {
						uint32_t i = pick(readable, o, j);
						if ((o.k >> (j % 32)) & 1) {
							r.push_back(v[i]);
							ri.push_back(i);
						}
						else {
							cr.push_back(cvr[i]);
							cri.push_back(i);
						}
					}
					perturb_point();
					for (uint32_t j = 0; j < o.n; ++j) {
						uint32_t i = pick(readable, o, o.n + j);
						check("read while references are held", i, E::key(cvr[i].get()));
					}
					if (!mine.empty()) {
						// write through another reference while these are held
						uint32_t i = pick(mine, o, 3);
						Key k = E::norm(o.k + i);
						v[i] = mk<C>(k);
						m[i] = k;
					}
					for (size_t j = 0; j < r.size(); ++j)
						check("held reference", ri[j], E::key(r[j].get()));
					for (size_t j = 0; j < cr.size(); ++j)
						check("held const reference", cri[j], E::key(cr[j].get()));
					// released in another order than they were taken
					if (o.k & 64)
						r.clear();
					break;
				}
				case Write:
					for (uint32_t j = 0; j < o.n; ++j) {
						uint32_t i = pick(mine, o, j);
						Key k = E::norm(o.k + j);
						v[i] = mk<C>(k);
						m[i] = k;
						if (j % 4 == 3) {
							uint32_t q = pick(mine, o, j - 1);
							check("read after write", q, E::key(v[q].get()));
						}
					}
					break;
				case WalkWrite: {
					Run r = runs[o.a % runs.size()];
					r.b = std::min(r.b, r.a + 1000);
					Key k = o.k;
					size_t i = r.a;
					for (auto it = v.begin() + (ptrdiff_t)r.a, e = v.begin() + (ptrdiff_t)r.b; it != e; ++it, ++i) {
						*it = mk<C>(E::norm(k + i));
						m[i] = E::norm(k + i);
					}
					break;
				}
				case Visit:
				case VisitBack: {
					Run r = runs[o.a % runs.size()];
					uint32_t len = r.b - r.a, stop = o.step % 3 == 0 ? o.n % (len + 1) : len;
					size_t i = o.w == Visit ? r.a : r.b, seen = 0;
					if (stop == 0)
						break;
					auto f = [&](T& t) {
						if (o.w == VisitBack)
							--i;
						check("modifying visit", i, E::key(t));
						Key k = E::norm(m[i] + o.k);
						t = mk<C>(k);
						m[i] = k;
						if (o.w == Visit)
							++i;
						perturb_point();
						return ++seen < stop;
					};
					if (o.w == Visit)
						v.for_each(r.a, r.b, f);
					else
						v.for_each_backward(r.a, r.b, f);
					if (seen != stop && err.empty())
						err = "a modifying visit ends early";
					break;
				}
				case Swap:
					for (uint32_t j = 0; j + 1 < o.n; j += 2) {
						uint32_t a = pick(mine, o, j), b = pick(mine, o, j + 1);
						if (o.k & 1) {
							using std::swap;
							auto ra = v[a];
							auto rb = v[b];
							swap(ra, rb);
						}
						else
							std::iter_swap(v.begin() + (ptrdiff_t)a, v.begin() + (ptrdiff_t)b);
						std::swap(m[a], m[b]);
					}
					break;
				case Add:
					for (uint32_t j = 0; j < o.n; ++j) {
						uint32_t i = pick(mine, o, j);
						auto r = v[i];
						Key k = E::norm(E::key(r.get()) + 1);
						perturb_point();
						r = mk<C>(k);
						m[i] = E::norm(m[i] + 1);
						check("increment", i, E::key(r.get()));
					}
					break;
				case Copy:
					if (all) {
						std::string e = CopyAll<C>::apply(cvr, m, al);
						if (err.empty())
							err = e;
					}
					break;
				default:
					break;
			}
		}
		void run()
		{
			try {
				for (auto& o : ops) {
					one(o);
					if (!err.empty())
						return;
				}
			}
			catch (const std::exception& e) {
				err = std::string("exception: ") + e.what();
			}
		}
	};

	template<class C>
	void run(Case& c)
	{
		typedef typename C::V V;
		typedef typename C::E E;
		const size_t B = V::block_size;
		Arena arena;
		arena.threads = true;
		arena.hook = perturb_point;
		unsigned nt = 2 + (unsigned)c.pick({ 30, 20, 20, 10, 5, 5, 10 });
		size_t writes = 0;
		{
			typename C::A al(&arena);
			V v(al);
			Values vals;
			vals.draw(c);
			size_t nb = c.prob(30) ? 1 + c.draw(3) : 2 + c.draw(24);
			if (c.prob(10))
				nb = 20 + c.draw(40);
			size_t n = std::min<size_t>(nb * B - c.draw(2) * c.draw(B), 12000);
			std::vector<Key> m(n);
			for (auto& k : m) {
				k = E::norm(vals.get());
				v.push_back(mk<C>(k));
			}
			if (c.prob(50))
				v.shrink_to_fit();
			unsigned how = (unsigned)c.pick({ 20, 35, 25, 20 });
			// owner nt: read by everybody, written by nobody
			std::vector<uint8_t> owner(n, (uint8_t)nt);
			if (how == 1) {
				unsigned extra = (unsigned)c.draw(3); // share of the elements nobody writes
				uint32_t step = 1 + (uint32_t)c.draw(4);
				for (size_t i = 0; i < n; ++i) {
					unsigned o = (unsigned)(i / step % (nt + extra));
					owner[i] = (uint8_t)std::min(o, nt);
				}
			}
			else if (how == 2) {
				// contiguous, cut anywhere
				std::vector<size_t> cut(nt);
				for (auto& x : cut)
					x = c.draw(n + 1);
				std::sort(cut.begin(), cut.end());
				size_t o = 0;
				for (size_t i = 0; i < n; ++i) {
					while (o < nt && cut[o] <= i)
						++o;
					owner[i] = (uint8_t)o;
				}
			}
			else if (how == 3) {
				// whole blocks
				uint32_t s = (uint32_t)c.draw(1000);
				for (size_t i = 0; i < n; ++i)
					owner[i] = (uint8_t)std::min<uint64_t>(pbt::mix(s, i / B) % (nt + 1), nt);
			}
			std::vector<std::unique_ptr<Worker<C>>> w;
			for (unsigned t = 0; t < nt; ++t) {
				w.emplace_back(new Worker<C>(v, m, al));
				Worker<C>& x = *w.back();
				x.all = how == 0;
				for (size_t i = 0; i < n; ++i) {
					bool me = owner[i] == t, rd = me || owner[i] == nt;
					if (me) {
						x.mine.push_back((uint32_t)i);
						if (x.runs.empty() || x.runs.back().b != i)
							x.runs.push_back(Run{ (uint32_t)i, (uint32_t)i });
						x.runs.back().b = (uint32_t)i + 1;
					}
					if (rd) {
						x.readable.push_back((uint32_t)i);
						if (x.rruns.empty() || x.rruns.back().b != i)
							x.rruns.push_back(Run{ (uint32_t)i, (uint32_t)i });
						x.rruns.back().b = (uint32_t)i + 1;
					}
				}
				size_t ops = 2 + c.draw(12);
				for (size_t s = 0; s < ops; ++s) {
					Op o;
					o.w = (What)c.pick({ 14, 8, 5, 6, 4, 10, 16, 4, 8, 4, 8, 10, 3 });
					if (x.readable.empty() || (x.mine.empty() && o.w >= Write && o.w <= Add))
						continue;
					o.a = (uint32_t)c.draw(1u << 20);
					o.n = 1 + (uint32_t)c.draw(o.w == Hold ? (c.draw(4) ? 10 : 60) : 60);
					// neighbours, block to block, anywhere
					o.step = (uint32_t)c.one_of<int>({ 1, (int)B, (int)B / (int)nt + 1, 7919, 104729, 0 });
					o.k = c.draw(1u << 30);
					if (o.w >= Write && o.w <= Add)
						++writes;
					x.ops.push_back(o);
				}
			}
			perturb_set(c.draw(1u << 30), (unsigned)c.one_of<int>({ 0, 5, 20, 60, 200 }));
			c.note("%u threads, %zu elements in %zu blocks, sharing %u", nt, n, (n + B - 1) / B, how);
			std::atomic<unsigned> ready{ 0 };
			std::vector<std::thread> th;
			for (unsigned t = 0; t < nt; ++t)
				th.emplace_back([&, t]() {
					ready.fetch_add(1);
					while (ready.load() < nt)
						std::this_thread::yield();
					w[t]->run();
				});
			for (auto& t : th)
				t.join();
			perturb_set(0, 0);
			for (unsigned t = 0; t < nt; ++t)
				PBT_CHECK(c, w[t]->err.empty(), "thread %u of %u: %s", t, nt, w[t]->err.c_str());
			compare<C>(c, v, m, (unsigned)c.draw(8), "after the threads have ended");
			// and it goes on
			Key k = E::norm(vals.get());
			v.push_back(mk<C>(k));
			m.push_back(k);
			v.shrink_to_fit();
			compare<C>(c, v, m, (unsigned)c.draw(8), "after shrink_to_fit");
			size_t held = 0;
			(void)held;
			if (nb > 1)
				c.nontrivial();
			static const char* const names[] = { "sharing:read only", "sharing:interleaved", "sharing:ranges", "sharing:blocks" };
			c.label(names[how]);
			c.label("threads:" + std::to_string(nt));
		}
		PBT_CHECK(c, arena.wrong.load() == 0, "memory is returned twice or with another size");
		PBT_CHECK(c, arena.live.load() == 0, "%ld bytes are left", arena.live.load());
	}
}
CV_REGISTER(run)
