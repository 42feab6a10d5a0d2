// V10: elements that throw, allocators that fail, memory that runs out.
#include "cv_types.hpp"
#include "stenos/stenos.h"
long cv_live_blocks();
void cv_arm(int mode, long at);
long cv_disarm();
namespace
{
	using namespace cv;

	enum Kind
	{
		NoFault,
		ElemThrows,
		ArenaOne,
		ArenaFrom,
		MallocOne,
		MallocFrom,
	};
	struct Fault
	{
		Kind kind = NoFault;
		long at = 0;
	};
	struct Result
	{
		bool thrown = false;
		bool element = false;
		long fired = 0;
	};

	template<class C>
	struct Env
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef std::vector<Key> M;
		Case& c;
		Arena arena[2];
		long faults = 0;
		explicit Env(Case& x)
		  : c(x)
		{
		}

		Fault draw(unsigned pct)
		{
			Fault f;
			if (!c.prob(pct))
				return f;
			if (C::E::tracked)
				f.kind = (Kind)(1 + c.pick({ 50, 15, 10, 15, 10 }));
			else
				f.kind = (Kind)(2 + c.pick({ 35, 15, 35, 15 }));
			// Destroying objects in blocks coded by zstd needs memory, and destructors cannot report its
			// lack: see the known findings and cv10b.cpp.
			if (C::E::tracked && C::Level > 1 && f.kind >= MallocOne)
				f.kind = ElemThrows;
			f.at = (long)(c.prob(60) ? c.draw(6) : c.prob(80) ? c.draw(60) : c.draw(1500));
			return f;
		}

		template<class F>
		Result attempt(const Fault& f, const char* what, F&& fn)
		{
			Result r;
			switch (f.kind) {
				case ElemThrows:
					reg().arm(f.at);
					break;
				case ArenaOne:
				case ArenaFrom:
					for (auto& a : arena)
						a.arm(f.at, f.kind == ArenaFrom);
					break;
				case MallocOne:
				case MallocFrom:
					cv_arm(f.kind == MallocOne ? 1 : 2, f.at);
					break;
				default:
					break;
			}
			bool mem = false, other = false;
			try {
				fn();
			}
			catch (const Thrown&) {
				r.thrown = r.element = true;
			}
			catch (const std::bad_alloc&) {
				r.thrown = mem = true;
			}
			catch (const pbt::Failure&) {
				cv_disarm();
				throw;
			}
			catch (const std::exception&) {
				r.thrown = other = true;
			}
			switch (f.kind) {
				case ElemThrows:
					r.fired = reg().thrown;
					reg().disarm();
					break;
				case ArenaOne:
				case ArenaFrom:
					for (auto& a : arena) {
						r.fired += a.failed;
						a.disarm();
					}
					break;
				case MallocOne:
				case MallocFrom:
					r.fired = cv_disarm();
					break;
				default:
					break;
			}
			c.note("%s%s", what, r.thrown ? r.element ? " (element throws)" : " (no memory)" : r.fired ? " (survives a fault)" : "");
			PBT_CHECK(c, !other, "%s: an exception of another kind", what);
			PBT_CHECK(c, !(mem && !r.fired), "%s: bad_alloc although no request was refused", what);
			PBT_CHECK(c, !(r.fired && f.kind == ElemThrows && !r.element), "%s: the exception of the element does not reach the caller", what);
			if (r.thrown) {
				++faults;
				c.label(std::string("failed:") + what);
			}
			return r;
		}

		// the vector is a valid sequence; m becomes its content
		void adopt(V& v, M& m, const char* what)
		{
			M got;
			got.reserve(v.size());
			std::vector<uint64_t> ids;
			const V& cv_ = v;
			size_t n = cv_.for_each(0, v.size(), [&](const T& t) {
				got.push_back(C::E::key(t));
				see(ids, t);
			});
			PBT_CHECK(c, n == v.size() && got.size() == v.size(), "%s: %zu elements can be visited, size() is %zu", what, got.size(), v.size());
			std::sort(ids.begin(), ids.end());
			PBT_CHECK(c, std::adjacent_find(ids.begin(), ids.end()) == ids.end(), "%s: the same object is in the vector twice", what);
			for (size_t i = 0; i < got.size(); i += 1 + got.size() / 7)
				PBT_CHECK(c, key_at<C>(v, i) == got[i], "%s: element %zu reads differently by index", what, i);
			PBT_CHECK(c, reg().error.empty(), "%s: %s", what, reg().error.c_str());
			m.swap(got);
		}
		void same(V& v, const M& m, const char* what)
		{
			char b[100];
			snprintf(b, sizeof(b), "after a failed %s", what);
			M got;
			adopt(v, got, b);
			PBT_CHECK(c, got.size() == m.size(), "%s the size is %zu instead of %zu", b, got.size(), m.size());
			for (size_t i = 0; i < m.size(); ++i)
				PBT_CHECK(c, got[i] == m[i], "%s element %zu is %llx instead of %llx", b, i, (unsigned long long)got[i], (unsigned long long)m[i]);
		}
		void starts(V& v, const M& m, size_t n, const char* what)
		{
			char b[100];
			snprintf(b, sizeof(b), "after a failed %s", what);
			M got;
			adopt(v, got, b);
			PBT_CHECK(c, got.size() >= n, "%s the size is %zu, less than %zu", b, got.size(), n);
			for (size_t i = 0; i < n; ++i)
				PBT_CHECK(c, got[i] == m[i], "%s element %zu is %llx instead of %llx", b, i, (unsigned long long)got[i], (unsigned long long)m[i]);
		}
		static void see(std::vector<uint64_t>& ids, const Trk& t) { ids.push_back(t.id); }
		template<class X>
		static void see(std::vector<uint64_t>&, const X&)
		{
		}
	};

	// operations that need copies
	template<class C, bool Copyable = C::E::copyable>
	struct CopyFaults
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef std::vector<Key> M;

		static void step(Env<C>& e, unsigned op, V& v, M& m, V& w, M& mw, Values& vals, size_t cap, const Fault& f)
		{
			Case& c = e.c;
			const size_t B = V::block_size;
			size_t room = cap - std::min(cap, m.size());
			switch (op) {
				case 0: { // push_back(const T&)
					size_t n = std::min<size_t>(room, c.draw(2) ? 1 + c.draw(4) : c.draw(2 * B));
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					size_t done = 0;
					Result r = e.attempt(f, "push_back of a copy", [&] {
						for (; done < n; ++done)
							v.push_back(t);
					});
					m.insert(m.end(), done, k);
					if (r.fired)
						e.same(v, m, "push_back of a copy");
					break;
				}
				case 1: { // resize with a value
					size_t n = size_near<C>(c, cap);
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					Result r = e.attempt(f, "resize with a value", [&] { v.resize(n, t); });
					if (!r.thrown)
						m.resize(n, k);
					else {
						e.starts(v, m, std::min(n, m.size()), "resize with a value");
						e.adopt(v, m, "resize with a value");
					}
					break;
				}
				case 2: { // insert
					size_t p = pos_near(c, m.size(), B);
					size_t n = std::min<size_t>(room, c.draw(2) ? 1 + c.draw(4) : c.draw(B + 20));
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					unsigned way = (unsigned)c.draw(3);
					if (way == 0)
						n = std::min<size_t>(n, 1);
					M ks(n, k);
					std::vector<T> b;
					if (way == 2) {
						for (auto& x : ks)
							x = C::E::norm(vals.get());
						b = batch<C>(ks);
					}
					Result r = e.attempt(f, "insert", [&] {
						if (way == 0 && n)
							v.insert(v.cbegin() + (ptrdiff_t)p, t);
						else if (way == 1)
							v.insert(v.cbegin() + (ptrdiff_t)p, n, t);
						else if (way == 2)
							v.insert(v.cbegin() + (ptrdiff_t)p, b.begin(), b.end());
					});
					if (!r.thrown)
						m.insert(m.begin() + (ptrdiff_t)p, ks.begin(), ks.end());
					else
						e.adopt(v, m, "insert");
					break;
				}
				case 3: { // assign
					size_t n = size_near<C>(c, cap);
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					M ks(n, k);
					std::vector<T> b;
					bool range = c.draw(2);
					if (range) {
						for (auto& x : ks)
							x = C::E::norm(vals.get());
						b = batch<C>(ks);
					}
					Result r = e.attempt(f, "assign", [&] {
						if (range)
							v.assign(b.begin(), b.end());
						else
							v.assign(n, t);
					});
					if (!r.thrown)
						m = ks;
					else
						e.adopt(v, m, "assign");
					break;
				}
				case 4: { // copy construction
					std::unique_ptr<V> x;
					size_t a = c.draw(2);
					typename C::A al(&e.arena[a]);
					size_t before = e.arena[a].blocks.size();
					Result r = e.attempt(f, "copy construction", [&] { x.reset(new V(v, al)); });
					if (r.thrown)
						PBT_CHECK(c, e.arena[a].blocks.size() == before || v.get_allocator().a == &e.arena[a], "a failed copy construction leaves memory behind");
					e.same(v, m, "copy construction (source)");
					if (x)
						e.same(*x, m, "copy construction (target)");
					break;
				}
				case 5: { // copy assignment
					Result r = e.attempt(f, "copy assignment", [&] { w = v; });
					e.same(v, m, "copy assignment (source)");
					if (!r.thrown)
						e.same(w, m, "copy assignment (target)");
					e.adopt(w, mw, "copy assignment");
					break;
				}
				case 6: { // construction from values
					size_t n = size_near<C>(c, cap);
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					M ks(n, k);
					std::vector<T> b;
					unsigned way = (unsigned)c.draw(3);
					if (way == 2) {
						for (auto& x : ks)
							x = C::E::norm(vals.get());
						b = batch<C>(ks);
					}
					else if (way == 1)
						ks.assign(n, C::E::dflt());
					std::unique_ptr<V> x;
					typename C::A al(&e.arena[1]);
					e.attempt(f, "construction", [&] {
						if (way == 0)
							x.reset(new V(n, t, al));
						else if (way == 1)
							x.reset(new V(n, al));
						else
							x.reset(new V(b.begin(), b.end(), al));
					});
					if (x)
						e.same(*x, ks, "construction");
					break;
				}
				default: { // element assignment
					if (m.empty())
						break;
					size_t i = std::min(pos_near(c, m.size(), B), m.size() - 1), j = std::min(pos_near(c, m.size(), B), m.size() - 1);
					Key k = C::E::norm(vals.get());
					T t = mk<C>(k);
					unsigned way = (unsigned)c.draw(3);
					Result r = e.attempt(f, "element assignment", [&] {
						if (way == 0)
							v[i] = t;
						else if (way == 1)
							*(v.begin() + (ptrdiff_t)i) = t;
						else
							v[i] = v[j].get();
					});
					if (!r.thrown)
						m[i] = way == 2 ? Key(m[j]) : k;
					if (r.fired)
						e.same(v, m, "element assignment");
					break;
				}
			}
		}
	};
	template<class C>
	struct CopyFaults<C, false>
	{
		typedef typename C::V V;
		typedef std::vector<Key> M;
		static void step(Env<C>&, unsigned, V&, M&, V&, M&, Values&, size_t, const Fault&) {}
	};

	// serialized forms
	template<class C, bool Plain = std::is_trivially_copyable<typename C::T>::value>
	struct Serial
	{
		typedef typename C::V V;
		typedef std::vector<Key> M;
		static void step(Env<C>& e, V& v, M& m, V& w, M& mw, const Fault& f)
		{
			Case& c = e.c;
			std::vector<uint8_t> out(stenos_bound(v.size() * sizeof(typename C::T)) + 4096);
			size_t r = 0;
			bool second = c.draw(2);
			if (!second) {
				Result x = e.attempt(f, "serialize", [&] { r = v.serialize(out.data(), out.size()); });
				if (x.fired)
					e.same(v, m, "serialize");
				if (x.thrown || stenos_has_error(r)) {
					PBT_CHECK(c, x.fired, "serialize fails without a fault");
					return;
				}
			}
			else {
				r = v.serialize(out.data(), out.size());
				PBT_CHECK(c, !stenos_has_error(r), "serialize fails without a fault");
			}
			size_t d = 0;
			Result x = e.attempt(second ? f : Fault(), "deserialize", [&] { d = w.deserialize(out.data(), r); });
			if (!x.thrown && !stenos_has_error(d)) {
				PBT_CHECK(c, d == m.size(), "deserialize gives %zu elements instead of %zu", d, m.size());
				e.same(w, m, "deserialize");
				mw = m;
			}
			else {
				PBT_CHECK(c, x.fired, "deserialize fails without a fault");
				w.clear();
				mw.clear();
			}
		}
	};
	template<class C>
	struct Serial<C, false>
	{
		typedef typename C::V V;
		typedef std::vector<Key> M;
		static void step(Env<C>&, V&, M&, V&, M&, const Fault&) {}
	};

	template<class C>
	void body(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		typedef std::vector<Key> M;
		const size_t B = V::block_size;
		reg().st.reserve(1u << 21);
		reg().reset();
		Env<C> e(c);
		{
			std::unique_ptr<V> pv, pw;
			M m, mw;
			Values vals;
			vals.draw(c);
			size_t cap = std::min<size_t>(Mc::cap(), B * 7);
			Mc::CO::construct(c, pv, m, vals, typename C::A(&e.arena[0]), cap);
			pw.reset(new V(typename C::A(&e.arena[c.draw(2)])));
			V &v = *pv, &w = *pw;
			size_t steps = 1 + c.draw(14);
			for (size_t s = 0; s < steps; ++s) {
				size_t room = cap - std::min(cap, m.size());
				if (c.prob(25)) {
					Mc::apply(c, Mc::draw_op(c), v, m, vals);
				}
				else {
					Fault f = e.draw(85);
					switch (c.pick({ 45, 12, 6, 6, 8, 5, 6, 6, 6, 4, 4, 4 })) {
						case 0:
							CopyFaults<C>::step(e, (unsigned)c.draw(8), v, m, w, mw, vals, cap, f);
							break;
						case 1: { // push_back(T&&) and emplace_back
							size_t n = std::min<size_t>(room, c.draw(2) ? 1 + c.draw(4) : c.draw(2 * B));
							M ks(n);
							for (auto& x : ks)
								x = E::norm(vals.get());
							auto b = batch<C>(ks);
							size_t done = 0;
							bool emplace = c.draw(2);
							Result r = e.attempt(f, "push_back of an rvalue", [&] {
								for (; done < n; ++done)
									if (emplace)
										v.emplace_back(std::move(b[done]));
									else
										v.push_back(std::move(b[done]));
							});
							m.insert(m.end(), ks.begin(), ks.begin() + (ptrdiff_t)done);
							if (r.fired)
								e.same(v, m, "push_back of an rvalue");
							if (r.thrown && done < n)
								PBT_CHECK(c, E::key(b[done]) == ks[done], "a failed push_back consumed its argument");
							break;
						}
						case 2: { // resize
							size_t n = size_near<C>(c, cap);
							Result r = e.attempt(f, "resize", [&] { v.resize(n); });
							if (!r.thrown)
								m.resize(n, E::dflt());
							else {
								e.starts(v, m, std::min(n, m.size()), "resize");
								e.adopt(v, m, "resize");
							}
							break;
						}
						case 3: { // insert an rvalue
							size_t p = pos_near(c, m.size(), B);
							Key k = E::norm(vals.get());
							T t = mk<C>(k);
							Result r = e.attempt(f, "insert of an rvalue", [&] { v.insert(v.cbegin() + (ptrdiff_t)p, std::move(t)); });
							if (!r.thrown)
								m.insert(m.begin() + (ptrdiff_t)p, k);
							else
								e.adopt(v, m, "insert of an rvalue");
							break;
						}
						case 4: { // erase
							if (m.empty())
								continue;
							size_t a = pos_near(c, m.size(), B), b = c.draw(2) ? a + 1 : pos_near(c, m.size(), B);
							if (a > b)
								std::swap(a, b);
							b = std::min(b, m.size());
							Result r = e.attempt(f, "erase", [&] { v.erase(v.cbegin() + (ptrdiff_t)a, v.cbegin() + (ptrdiff_t)b); });
							if (!r.thrown)
								m.erase(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b);
							else
								e.adopt(v, m, "erase");
							break;
						}
						case 5: { // pop_back
							size_t n = std::min<size_t>(m.size(), c.draw(2) ? 1 : c.draw(B + B / 2)), done = 0;
							Result r = e.attempt(f, "pop_back", [&] {
								for (; done < n; ++done)
									v.pop_back();
							});
							m.resize(m.size() - done);
							if (r.fired)
								e.same(v, m, "pop_back");
							break;
						}
						case 6: { // shrink_to_fit
							Result r = e.attempt(f, "shrink_to_fit", [&] { v.shrink_to_fit(); });
							if (r.fired)
								e.same(v, m, "shrink_to_fit");
							break;
						}
						case 7: { // reads
							size_t i = m.empty() ? 0 : c.draw(m.size()), n = 0, bad = 0;
							bool all = c.draw(2);
							const V& cv_ = v;
							Result r = e.attempt(f, "read", [&] {
								if (all)
									cv_.for_each(0, m.size(), [&](const T& t) { bad += E::key(t) != m[n++]; });
								else if (!m.empty())
									bad += E::key(cv_[i].get()) != m[i];
							});
							PBT_CHECK(c, bad == 0, "wrong values are read");
							if (r.fired)
								e.same(v, m, "read");
							break;
						}
						case 8: { // element moves
							if (m.empty())
								continue;
							size_t i = std::min(pos_near(c, m.size(), B), m.size() - 1), j = std::min(pos_near(c, m.size(), B), m.size() - 1);
							Key k = E::norm(vals.get());
							T t = mk<C>(k);
							bool sw = c.draw(2);
							Result r = e.attempt(f, "element move or swap", [&] {
								if (!sw)
									v[i] = std::move(t);
								else
									std::iter_swap(v.begin() + (ptrdiff_t)i, v.begin() + (ptrdiff_t)j);
							});
							if (!r.thrown) {
								if (sw)
									std::swap(m[i], m[j]);
								else
									m[i] = k;
							}
							if (r.fired)
								e.same(v, m, "element move or swap");
							break;
						}
						case 9: { // move assignment and construction
							if (c.draw(2)) {
								Result r = e.attempt(f, "move assignment", [&] { w = std::move(v); });
								if (!r.thrown)
									e.same(w, m, "move assignment (target)");
							}
							else {
								std::unique_ptr<V> x;
								typename C::A al(&e.arena[c.draw(2)]);
								Result r = e.attempt(f, "move construction", [&] { x.reset(new V(std::move(v), al)); });
								if (!r.thrown)
									e.same(*x, m, "move construction (target)");
							}
							e.adopt(v, m, "move (source)");
							e.adopt(w, mw, "move (target)");
							break;
						}
						case 10:
							if (v.size() <= 2000)
								Serial<C>::step(e, v, m, w, mw, f);
							break;
						default: { // algorithms
							Result r = e.attempt(f, "sort", [&] { std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) {
								return E::key(a.get()) < E::key(b.get());
							}); });
							if (!r.thrown)
								std::sort(m.begin(), m.end());
							else
								e.adopt(v, m, "sort");
							break;
						}
					}
				}
				for (auto& a : e.arena)
					PBT_CHECK(c, a.error.empty(), "%s", a.error.c_str());
				PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
				if (E::tracked)
					PBT_CHECK(c, reg().alive == (long)(v.size() + w.size()), "%ld elements are alive, the vectors hold %zu", reg().alive, v.size() + w.size());
			}
			// all goes on as if nothing had happened
			size_t n = c.draw(4);
			for (size_t i = 0; i < n; ++i)
				Mc::apply(c, Mc::draw_op(c), v, m, vals);
			compare<C>(c, v, m, (unsigned)c.draw(8), "at the end");
			compare<C>(c, w, mw, (unsigned)c.draw(8), "at the end (second vector)");
		}
		for (auto& a : e.arena) {
			PBT_CHECK(c, a.error.empty(), "%s", a.error.c_str());
			PBT_CHECK(c, a.blocks.empty(), "%zu memory blocks are left after destruction", a.blocks.size());
		}
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
		PBT_CHECK(c, reg().alive == 0, "%ld elements are left after destruction", reg().alive);
		if (e.faults)
			c.nontrivial();
	}

	template<class C>
	void run(Case& c)
	{
		bool repeat = c.prob(20);
		size_t start = c.pos;
		body<C>(c);
		if (!repeat || !pbt::mirror() || c.pos > pbt::MAX_CHOICES)
			return;
		std::vector<uint64_t> choices(pbt::mirror()->choices, pbt::mirror()->choices + c.pos);
		long live[3];
		for (int i = 0; i < 3; ++i) {
			{
				Case d;
				d.replay = true;
				d.in = choices;
				d.pos = start;
				body<C>(d);
			}
			live[i] = cv_live_blocks();
		}
		PBT_CHECK(c, !(live[1] > live[0] && live[2] > live[1]), "repeating the same history leaves memory blocks behind: %ld, %ld, %ld in use", live[0], live[1], live[2]);
	}
}
CV_REGISTER(run)
