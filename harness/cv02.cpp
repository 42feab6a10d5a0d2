// V02: standard algorithms and iterator laws, against the same algorithm on std::vector.
#include "cv_types.hpp"
#include <random>
namespace
{
	using namespace cv;

	template<class C>
	struct Cmp
	{
		typedef typename C::T T;
		typedef typename C::E E;
		static const T& val(const T& t) { return t; }
		template<class W>
		static auto val(const W& t) -> decltype(static_cast<const T&>(t.get()))
		{
			return t.get();
		}
		template<class X>
		static Key key(const X& x)
		{
			return E::key(val(x));
		}
	};
	template<class C>
	struct Less
	{
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			return Cmp<C>::key(a) < Cmp<C>::key(b);
		}
	};
	template<class C>
	struct Greater
	{
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			return Cmp<C>::key(b) < Cmp<C>::key(a);
		}
	};
	template<class C>
	struct Same
	{
		Key mod;
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			return Cmp<C>::key(a) % mod == Cmp<C>::key(b) % mod;
		}
	};
	template<class C>
	struct Below
	{
		Key k, mod;
		template<class A>
		bool operator()(const A& a) const
		{
			return Cmp<C>::key(a) % mod < k;
		}
	};
	// equal keys are told apart by nothing, so a stable order needs a coarser comparison
	template<class C>
	struct Coarse
	{
		Key mod;
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			return Cmp<C>::key(a) % mod < Cmp<C>::key(b) % mod;
		}
	};

	enum
	{
		Sort,
		SortPlain,
		SortReverse,
		StableSort,
		PartialSort,
		Nth,
		Heap,
		Reverse,
		Rotate,
		Partition,
		StablePartition,
		Unique,
		RemoveIf,
		Shuffle,
		SwapRanges,
		MoveDown,
		MoveUp,
		Search,
		Counts,
		MinMax,
		Permutation,
		Readers,
		ReverseIter,
		Merge,
		ForEach,
		N_ALL,
		Fill = N_ALL,
		CopyDown,
		CopyUp,
		Transform,
		Replace,
		Generate,
		CopyOut,
		CopyIn,
		RemoveCopy,
		N_COPY
	};
	const char* const NAMES[] = { "sort",	  "sort(default order)", "sort(reverse iterators)", "stable_sort", "partial_sort", "nth_element", "heap",	  "reverse",  "rotate",
				      "partition", "stable_partition",	  "unique+erase",	     "remove_if+erase", "shuffle",   "swap_ranges", "move to the left", "move_backward", "binary search",
				      "find/count", "min/max",		  "next_permutation",	     "equal/mismatch",	"reverse iterators", "inplace_merge", "for_each", "fill", "copy to the left", "copy_backward",
				      "transform", "replace_if",	  "generate",		     "copy out",	"copy in",  "remove_copy_if" };

	template<class C, bool Copyable = C::E::copyable>
	struct CopyAlgos
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef std::vector<T> M;
		static void run(Case& c, unsigned al, V& v, M& m, ptrdiff_t a, ptrdiff_t b, Values& vals)
		{
			ptrdiff_t n = (ptrdiff_t)m.size();
			switch (al) {
				case Fill: {
					T t = mk<C>(C::E::norm(vals.get()));
					std::fill(v.begin() + a, v.begin() + b, t);
					std::fill(m.begin() + a, m.begin() + b, t);
					break;
				}
				case CopyDown: {
					ptrdiff_t d = (ptrdiff_t)c.draw((uint64_t)a + 1);
					auto r = std::copy(v.begin() + a, v.begin() + b, v.begin() + d);
					std::copy(m.begin() + a, m.begin() + b, m.begin() + d);
					PBT_CHECK(c, r - v.begin() == d + b - a, "copy returns %zd instead of %zd", (ssize_t)(r - v.begin()), (ssize_t)(d + b - a));
					break;
				}
				case CopyUp: {
					ptrdiff_t e = b + (ptrdiff_t)c.draw((uint64_t)(n - b) + 1);
					auto r = std::copy_backward(v.begin() + a, v.begin() + b, v.begin() + e);
					std::copy_backward(m.begin() + a, m.begin() + b, m.begin() + e);
					PBT_CHECK(c, r - v.begin() == e - (b - a), "copy_backward returns %zd", (ssize_t)(r - v.begin()));
					break;
				}
				case Transform: {
					auto f = [](const auto& x) { return mk<C>(C::E::norm(Cmp<C>::key(x) * 3 + 1)); };
					std::transform(v.begin() + a, v.begin() + b, v.begin() + a, f);
					std::transform(m.begin() + a, m.begin() + b, m.begin() + a, f);
					break;
				}
				case Replace: {
					Below<C> p{ 3, 7 };
					T t = mk<C>(C::E::norm(vals.get()));
					std::replace_if(v.begin() + a, v.begin() + b, p, t);
					std::replace_if(m.begin() + a, m.begin() + b, p, t);
					break;
				}
				case Generate: {
					Key k = vals.get(), k2 = k;
					std::generate(v.begin() + a, v.begin() + b, [&]() { return mk<C>(C::E::norm(k++)); });
					std::generate(m.begin() + a, m.begin() + b, [&]() { return mk<C>(C::E::norm(k2++)); });
					break;
				}
				case CopyOut: {
					std::vector<T> out, ref(m.begin() + a, m.begin() + b);
					const V& cvr = v;
					std::copy(cvr.begin() + a, cvr.begin() + b, std::back_inserter(out));
					PBT_CHECK(c, out == ref, "copy to a vector differs");
					std::vector<T> out2;
					std::reverse_copy(v.begin() + a, v.begin() + b, std::back_inserter(out2));
					std::reverse(ref.begin(), ref.end());
					PBT_CHECK(c, out2 == ref, "reverse_copy to a vector differs");
					break;
				}
				case CopyIn: {
					std::vector<T> in;
					for (ptrdiff_t i = a; i < b; ++i)
						in.push_back(mk<C>(C::E::norm(vals.get())));
					std::copy(in.begin(), in.end(), v.begin() + a);
					std::copy(in.begin(), in.end(), m.begin() + a);
					break;
				}
				default: {
					Below<C> p{ 2, 5 };
					std::vector<T> o1, o2;
					std::remove_copy_if(v.begin() + a, v.begin() + b, std::back_inserter(o1), p);
					std::remove_copy_if(m.begin() + a, m.begin() + b, std::back_inserter(o2), p);
					PBT_CHECK(c, o1 == o2, "remove_copy_if differs");
					break;
				}
			}
		}
		static void plain_sort(V& v, M& m, ptrdiff_t a, ptrdiff_t b)
		{
			std::sort(v.begin() + a, v.begin() + b);
			std::sort(m.begin() + a, m.begin() + b, [](const T& x, const T& y) { return x < y; });
		}
	};
	template<class C>
	struct CopyAlgos<C, false>
	{
		typedef typename C::V V;
		typedef std::vector<typename C::T> M;
		static void run(Case&, unsigned, V&, M&, ptrdiff_t, ptrdiff_t, Values&) {}
		static void plain_sort(V& v, M& m, ptrdiff_t a, ptrdiff_t b)
		{
			std::sort(v.begin() + a, v.begin() + b, Less<C>());
			std::sort(m.begin() + a, m.begin() + b, Less<C>());
		}
	};

	template<class C>
	std::vector<Key> keys(const std::vector<typename C::T>& m)
	{
		std::vector<Key> k;
		k.reserve(m.size());
		for (auto& x : m)
			k.push_back(C::E::key(x));
		return k;
	}

	template<class C>
	void algorithm(Case& c, typename C::V& v, std::vector<typename C::T>& m, Values& vals)
	{
		typedef typename C::T T;
		const size_t B = C::V::block_size;
		size_t a_ = pos_near(c, m.size(), B), b_ = pos_near(c, m.size(), B);
		if (c.prob(35)) {
			a_ = 0;
			b_ = m.size();
		}
		if (a_ > b_)
			std::swap(a_, b_);
		ptrdiff_t a = (ptrdiff_t)a_, b = (ptrdiff_t)b_;
		unsigned al = (unsigned)c.draw(C::E::copyable ? N_COPY : N_ALL);
		c.note("%s on [%zu, %zu) of %zu", NAMES[al], a_, b_, m.size());
		c.label(std::string("algo:") + NAMES[al]);
		const auto& cvr = v;
		Less<C> less;
		auto v1 = [&](ptrdiff_t i) { return v.begin() + i; };
		auto m1 = [&](ptrdiff_t i) { return m.begin() + i; };
		switch (al) {
			case Sort:
				if (c.draw(2)) {
					std::sort(v1(a), v1(b), less);
					std::sort(m1(a), m1(b), less);
				}
				else {
					std::sort(v1(a), v1(b), Greater<C>());
					std::sort(m1(a), m1(b), Greater<C>());
				}
				break;
			case SortPlain:
				CopyAlgos<C>::plain_sort(v, m, a, b);
				break;
			case SortReverse: {
				ptrdiff_t n = (ptrdiff_t)m.size();
				std::sort(v.rbegin() + (n - b), v.rbegin() + (n - a), less);
				std::sort(m.rbegin() + (n - b), m.rbegin() + (n - a), less);
				break;
			}
			case StableSort: {
				Coarse<C> co{ 1 + c.draw(20) };
				std::stable_sort(v1(a), v1(b), co);
				std::stable_sort(m1(a), m1(b), co);
				break;
			}
			case PartialSort: {
				ptrdiff_t mid = a + (ptrdiff_t)c.draw((uint64_t)(b - a) + 1);
				std::partial_sort(v1(a), v1(mid), v1(b), less);
				std::partial_sort(m1(a), m1(mid), m1(b), less);
				// the rest is in an unspecified order
				std::sort(v1(mid), v1(b), less);
				std::sort(m1(mid), m1(b), less);
				break;
			}
			case Nth: {
				if (a == b)
					break;
				ptrdiff_t nth = a + (ptrdiff_t)c.draw((uint64_t)(b - a));
				std::nth_element(v1(a), v1(nth), v1(b), less);
				std::nth_element(m1(a), m1(nth), m1(b), less);
				PBT_CHECK(c, C::E::key(cvr[(size_t)nth].get()) == C::E::key(m[(size_t)nth]), "nth_element gives another element");
				std::sort(v1(a), v1(nth), less);
				std::sort(m1(a), m1(nth), less);
				std::sort(v1(nth), v1(b), less);
				std::sort(m1(nth), m1(b), less);
				break;
			}
			case Heap:
				std::make_heap(v1(a), v1(b), less);
				PBT_CHECK(c, std::is_heap(v1(a), v1(b), less), "make_heap does not make a heap");
				if (b - a > 2) {
					std::pop_heap(v1(a), v1(b), less);
					std::push_heap(v1(a), v1(b), less);
				}
				std::sort_heap(v1(a), v1(b), less);
				std::sort(m1(a), m1(b), less);
				break;
			case Reverse:
				std::reverse(v1(a), v1(b));
				std::reverse(m1(a), m1(b));
				break;
			case Rotate: {
				ptrdiff_t mid = a + (ptrdiff_t)c.draw((uint64_t)(b - a) + 1);
				auto r = std::rotate(v1(a), v1(mid), v1(b));
				auto q = std::rotate(m1(a), m1(mid), m1(b));
				PBT_CHECK(c, r - v.begin() == q - m.begin(), "rotate returns position %zd instead of %zd", (ssize_t)(r - v.begin()), (ssize_t)(q - m.begin()));
				break;
			}
			case Partition: {
				Below<C> p{ c.draw(8), 7 };
				auto r = std::partition(v1(a), v1(b), p);
				auto q = std::partition(m1(a), m1(b), p);
				PBT_CHECK(c, r - v.begin() == q - m.begin(), "partition returns position %zd instead of %zd", (ssize_t)(r - v.begin()), (ssize_t)(q - m.begin()));
				break;
			}
			case StablePartition: {
				Below<C> p{ c.draw(8), 7 };
				auto r = std::stable_partition(v1(a), v1(b), p);
				auto q = std::stable_partition(m1(a), m1(b), p);
				PBT_CHECK(c, r - v.begin() == q - m.begin(), "stable_partition returns position %zd instead of %zd", (ssize_t)(r - v.begin()), (ssize_t)(q - m.begin()));
				break;
			}
			case Unique: {
				Same<C> s{ 1 + c.draw(9) };
				auto r = std::unique(v1(a), v1(b), s) - v.begin();
				auto q = std::unique(m1(a), m1(b), s) - m.begin();
				PBT_CHECK(c, r == q, "unique returns position %zd instead of %zd", (ssize_t)r, (ssize_t)q);
				v.erase(v.cbegin() + r, v.cbegin() + b);
				m.erase(m1(q), m1(b));
				break;
			}
			case RemoveIf: {
				Below<C> p{ c.draw(8), 7 };
				auto r = std::remove_if(v1(a), v1(b), p) - v.begin();
				auto q = std::remove_if(m1(a), m1(b), p) - m.begin();
				PBT_CHECK(c, r == q, "remove_if returns position %zd instead of %zd", (ssize_t)r, (ssize_t)q);
				v.erase(v.cbegin() + r, v.cbegin() + b);
				m.erase(m1(q), m1(b));
				break;
			}
			case Shuffle: {
				uint64_t s = c.draw(1u << 30);
				std::mt19937 r1((unsigned)s), r2((unsigned)s);
				std::shuffle(v1(a), v1(b), r1);
				std::shuffle(m1(a), m1(b), r2);
				break;
			}
			case SwapRanges: {
				ptrdiff_t h = (b - a) / 2;
				std::swap_ranges(v1(a), v1(a + h), v1(b - h));
				std::swap_ranges(m1(a), m1(a + h), m1(b - h));
				break;
			}
			case MoveDown: {
				ptrdiff_t d = (ptrdiff_t)c.draw((uint64_t)a + 1);
				std::move(v1(a), v1(b), v1(d));
				std::move(m1(a), m1(b), m1(d));
				// the elements moved from are in an unspecified state: drop them
				ptrdiff_t e = std::max(a, d + (b - a));
				v.erase(v.cbegin() + e, v.cbegin() + b);
				m.erase(m1(e), m1(b));
				if (!C::E::copyable || C::E::tracked)
					if (d + (b - a) < a) {
						v.erase(v.cbegin() + a, v.cbegin() + e);
						m.erase(m1(a), m1(e));
					}
				break;
			}
			case MoveUp: {
				ptrdiff_t e = b + (ptrdiff_t)c.draw((uint64_t)((ptrdiff_t)m.size() - b) + 1);
				std::move_backward(v1(a), v1(b), v1(e));
				std::move_backward(m1(a), m1(b), m1(e));
				ptrdiff_t x = std::min(b, e - (b - a));
				v.erase(v.cbegin() + a, v.cbegin() + x);
				m.erase(m1(a), m1(x));
				break;
			}
			case Search: {
				std::sort(v1(a), v1(b), less);
				std::sort(m1(a), m1(b), less);
				for (int i = 0; i < 6; ++i) {
					Key k = (b > a && c.draw(2)) ? C::E::key(m[(size_t)a + c.draw((uint64_t)(b - a))]) : C::E::norm(vals.get());
					T t = mk<C>(k);
					auto l = std::lower_bound(cvr.begin() + a, cvr.begin() + b, t, less) - cvr.begin();
					auto u = std::upper_bound(v1(a), v1(b), t, less) - v.begin();
					auto er = std::equal_range(v1(a), v1(b), t, less);
					auto l2 = std::lower_bound(m1(a), m1(b), t, less) - m.begin();
					auto u2 = std::upper_bound(m1(a), m1(b), t, less) - m.begin();
					PBT_CHECK(c, l == l2 && u == u2 && er.first - v.begin() == l2 && er.second - v.begin() == u2, "binary search gives [%zd, %zd) instead of [%zd, %zd)", (ssize_t)l, (ssize_t)u, (ssize_t)l2,
						  (ssize_t)u2);
					PBT_CHECK(c, std::binary_search(v1(a), v1(b), t, less) == (l2 != u2), "binary_search is wrong");
				}
				PBT_CHECK(c, std::is_sorted(v1(a), v1(b), less), "is_sorted is wrong");
				break;
			}
			case Counts: {
				Below<C> p{ 1, 1 + c.draw(300) };
				auto f = std::find_if(v1(a), v1(b), p) - v.begin();
				auto f2 = std::find_if(m1(a), m1(b), p) - m.begin();
				PBT_CHECK(c, f == f2, "find_if gives %zd instead of %zd", (ssize_t)f, (ssize_t)f2);
				auto n = std::count_if(cvr.begin() + a, cvr.begin() + b, p);
				auto n2 = std::count_if(m1(a), m1(b), p);
				PBT_CHECK(c, n == n2, "count_if gives %zd instead of %zd", (ssize_t)n, (ssize_t)n2);
				Same<C> s{ 1 + c.draw(5) };
				auto d = std::adjacent_find(v1(a), v1(b), s) - v.begin();
				auto d2 = std::adjacent_find(m1(a), m1(b), s) - m.begin();
				PBT_CHECK(c, d == d2, "adjacent_find gives %zd instead of %zd", (ssize_t)d, (ssize_t)d2);
				if (b - a > 3) {
					ptrdiff_t x = a + (ptrdiff_t)c.draw((uint64_t)(b - a - 2));
					auto q = std::search(v1(a), v1(b), m1(x), m1(x + 2), Same<C>{ ~0ull }) - v.begin();
					auto q2 = std::search(m1(a), m1(b), m1(x), m1(x + 2), Same<C>{ ~0ull }) - m.begin();
					PBT_CHECK(c, q == q2, "search gives %zd instead of %zd", (ssize_t)q, (ssize_t)q2);
				}
				break;
			}
			case MinMax: {
				auto x = std::min_element(v1(a), v1(b), less) - v.begin(), x2 = std::min_element(m1(a), m1(b), less) - m.begin();
				auto y = std::max_element(v1(a), v1(b), less) - v.begin(), y2 = std::max_element(m1(a), m1(b), less) - m.begin();
				PBT_CHECK(c, x == x2 && y == y2, "min_element, max_element give %zd, %zd instead of %zd, %zd", (ssize_t)x, (ssize_t)y, (ssize_t)x2, (ssize_t)y2);
				break;
			}
			case Permutation: {
				bool r = std::next_permutation(v1(a), v1(b), less), q = std::next_permutation(m1(a), m1(b), less);
				PBT_CHECK(c, r == q, "next_permutation returns %d instead of %d", r, q);
				break;
			}
			case Readers: {
				PBT_CHECK(c, std::equal(v1(a), v1(b), m1(a), Same<C>{ ~0ull }), "equal says the contents differ");
				if (b > a) {
					auto mm = std::mismatch(cvr.begin() + a, cvr.begin() + b, m1(a), Same<C>{ ~0ull });
					PBT_CHECK(c, mm.first - cvr.begin() == b, "mismatch finds a difference at %zd", (ssize_t)(mm.first - cvr.begin()));
					Key s1 = 0, s2 = 0;
					s1 = std::accumulate(v1(a), v1(b), s1, [](Key k, const auto& x) { return k * 31 + Cmp<C>::key(x); });
					s2 = std::accumulate(m1(a), m1(b), s2, [](Key k, const auto& x) { return k * 31 + Cmp<C>::key(x); });
					PBT_CHECK(c, s1 == s2, "accumulate differs");
					// element comparisons
					size_t i = (size_t)a + c.draw((uint64_t)(b - a)), j = (size_t)a + c.draw((uint64_t)(b - a));
					auto ri = cvr[i];
					auto rj = v[j];
					PBT_CHECK(c, (ri == rj) == (m[i] == m[j]) || !C::E::copyable, "comparison of elements %zu and %zu is wrong", i, j);
					PBT_CHECK(c, (ri < rj) == (m[i] < m[j]) || !C::E::copyable, "order of elements %zu and %zu is wrong", i, j);
					PBT_CHECK(c, (ri >= rj) == !(ri < rj), "order of elements %zu and %zu is inconsistent", i, j);
					PBT_CHECK(c, (ri > rj) == (rj < ri) && (ri <= rj) == !(rj < ri) && (ri != rj) == !(ri == rj), "comparisons of elements %zu and %zu are inconsistent", i, j);
				}
				break;
			}
			case ReverseIter: {
				ptrdiff_t n = (ptrdiff_t)m.size();
				auto r = v.rbegin() + (n - b);
				auto e = v.rbegin() + (n - a);
				ptrdiff_t i = b;
				for (; r != e; ++r) {
					--i;
					PBT_CHECK(c, C::E::key((*r).get()) == C::E::key(m[(size_t)i]), "reverse iteration at %zd differs", (ssize_t)i);
				}
				PBT_CHECK(c, i == a, "reverse iteration stops at %zd instead of %zd", (ssize_t)i, (ssize_t)a);
				size_t cnt = 0;
				for (auto it = cvr.crbegin(); it != cvr.crend(); it++, ++cnt)
					PBT_CHECK(c, C::E::key((*it).get()) == C::E::key(m[m.size() - 1 - cnt]), "constant reverse iteration at %zu differs", cnt);
				PBT_CHECK(c, cnt == m.size(), "constant reverse iteration visits %zu of %zu", cnt, m.size());
				Below<C> p{ 1, 1 + c.draw(50) };
				auto f = std::find_if(v.rbegin(), v.rend(), p) - v.rbegin();
				auto f2 = std::find_if(m.rbegin(), m.rend(), p) - m.rbegin();
				PBT_CHECK(c, f == f2, "find_if over reverse iterators gives %zd instead of %zd", (ssize_t)f, (ssize_t)f2);
				if (b > a) {
					// write through
					Key k = C::E::norm(vals.get());
					auto w = v.rbegin() + (n - b);
					*w = mk<C>(k);
					m[(size_t)b - 1] = mk<C>(k);
					auto w2 = e;
					--w2;
					PBT_CHECK(c, C::E::key((*w2).get()) == C::E::key(m[(size_t)a]), "reverse iterator stepped back reads another element");
					PBT_CHECK(c, C::E::key(v.rbegin()[n - b].get()) == k, "reverse iterator subscript reads another element");
				}
				break;
			}
			case Merge: {
				ptrdiff_t mid = a + (b - a) / 2;
				std::sort(v1(a), v1(mid), less);
				std::sort(m1(a), m1(mid), less);
				std::sort(v1(mid), v1(b), less);
				std::sort(m1(mid), m1(b), less);
				std::inplace_merge(v1(a), v1(mid), v1(b), less);
				std::inplace_merge(m1(a), m1(mid), m1(b), less);
				break;
			}
			case ForEach: {
				Key s1 = 0, s2 = 0;
				std::for_each(v1(a), v1(b), [&](const T& t) { s1 = s1 * 31 + C::E::key(t); });
				std::for_each(m1(a), m1(b), [&](const T& t) { s2 = s2 * 31 + C::E::key(t); });
				PBT_CHECK(c, s1 == s2, "for_each sees other elements");
				size_t n = 0;
				for (const T& t : cvr) {
					PBT_CHECK(c, C::E::key(t) == C::E::key(m[n]), "range for sees another element at %zu", n);
					++n;
				}
				PBT_CHECK(c, n == m.size(), "range for sees %zu of %zu elements", n, m.size());
				break;
			}
			default:
				CopyAlgos<C>::run(c, al, v, m, a, b, vals);
				break;
		}
	}

	// Iterators against positions, over two vectors: iterators are moved, copied, swapped and assigned across them.
	template<class C, bool Write, class It>
	void laws(Case& c, const It (&first)[2], std::vector<Key> (&at)[2], size_t B, Values& vals)
	{
		const ptrdiff_t n[2] = { (ptrdiff_t)at[0].size(), (ptrdiff_t)at[1].size() };
		It it[4] = { first[0], first[0], first[0], first[1] };
		ptrdiff_t p[4] = { 0, 0, 0, 0 };
		unsigned w[4] = { 0, 0, 0, 1 };
		auto to = [&](unsigned v) { return (ptrdiff_t)pos_near(c, (size_t)n[v], B); };
		auto key = [&](size_t i) -> Key& { return at[w[i]][(size_t)p[i]]; };
		size_t steps = 4 + c.draw(30);
		for (size_t s = 0; s < steps; ++s) {
			size_t i = c.draw(4), j = c.draw(4);
			switch (c.draw(14)) {
				case 0:
					if (p[i] < n[w[i]]) {
						It& r = ++it[i];
						PBT_CHECK(c, &r == &it[i], "++it does not return itself");
						++p[i];
					}
					break;
				case 1:
					if (p[i] > 0) {
						--it[i];
						--p[i];
					}
					break;
				case 2:
					if (p[i] < n[w[i]]) {
						It old = it[i]++;
						++p[i];
						PBT_CHECK(c, old - first[w[i]] == p[i] - 1, "it++ does not return the old position");
					}
					break;
				case 3:
					if (p[i] > 0) {
						It old = it[i]--;
						--p[i];
						PBT_CHECK(c, old - first[w[i]] == p[i] + 1, "it-- does not return the old position");
					}
					break;
				case 4: {
					ptrdiff_t q = to(w[i]);
					it[i] += q - p[i];
					p[i] = q;
					break;
				}
				case 5: {
					ptrdiff_t q = to(w[i]);
					it[i] -= p[i] - q;
					p[i] = q;
					break;
				}
				case 6: {
					ptrdiff_t q = to(w[i]);
					it[j] = it[i] + (q - p[i]);
					p[j] = q;
					w[j] = w[i];
					break;
				}
				case 7: {
					ptrdiff_t q = to(w[i]);
					it[j] = it[i] - (p[i] - q);
					p[j] = q;
					w[j] = w[i];
					break;
				}
				case 8:
					it[j] = it[i];
					p[j] = p[i];
					w[j] = w[i];
					break;
				case 9: {
					It cp(it[i]);
					PBT_CHECK(c, cp == it[i] && !(cp != it[i]), "a copied iterator is not equal");
					if (p[i] < n[w[i]])
						PBT_CHECK(c, C::E::key((*cp).get()) == key(i), "a copied iterator reads another element at %zd", (ssize_t)p[i]);
					break;
				}
				case 10: {
					ptrdiff_t q = to(w[i]);
					if (q < n[w[i]])
						PBT_CHECK(c, C::E::key(it[i][q - p[i]].get()) == at[w[i]][(size_t)q], "it[%zd] at %zd reads another element", (ssize_t)(q - p[i]), (ssize_t)p[i]);
					break;
				}
				case 11:
					std::swap(it[i], it[j]);
					std::swap(p[i], p[j]);
					std::swap(w[i], w[j]);
					break;
				case 12: {
					// a fresh iterator, maybe of the other vector, maybe at the same place
					unsigned v = (unsigned)c.draw(2);
					ptrdiff_t q = c.draw(2) ? std::min(p[i], n[v]) : to(v);
					it[i] = first[v] + q;
					p[i] = q;
					w[i] = v;
					break;
				}
				default:
					if (p[i] < n[w[i]]) {
						PBT_CHECK(c, C::E::key(*it[i].operator->()) == key(i), "-> at %zd reads another element", (ssize_t)p[i]);
						if constexpr (Write) {
							Key k = C::E::norm(vals.get());
							if (c.draw(2))
								*it[i] = mk<C>(k);
							else
								it[i][0] = mk<C>(k);
							key(i) = k;
						}
					}
					break;
			}
			for (size_t x = 0; x < 4; ++x) {
				if (p[x] < n[w[x]] && c.draw(2))
					PBT_CHECK(c, C::E::key((*it[x]).get()) == key(x), "iterator at %zd of %zd reads %llx instead of %llx", (ssize_t)p[x], (ssize_t)n[w[x]], (unsigned long long)C::E::key((*it[x]).get()),
						  (unsigned long long)key(x));
				PBT_CHECK(c, it[x] - first[w[x]] == p[x], "the iterator is at %zd instead of %zd", (ssize_t)(it[x] - first[w[x]]), (ssize_t)p[x]);
			}
			if (w[i] == w[j]) {
				PBT_CHECK(c, it[i] - it[j] == p[i] - p[j], "distance is %zd instead of %zd", (ssize_t)(it[i] - it[j]), (ssize_t)(p[i] - p[j]));
				PBT_CHECK(c, (it[i] == it[j]) == (p[i] == p[j]) && (it[i] != it[j]) == (p[i] != p[j]) && (it[i] < it[j]) == (p[i] < p[j]) && (it[i] > it[j]) == (p[i] > p[j]) && (it[i] <= it[j]) == (p[i] <= p[j]) &&
						   (it[i] >= it[j]) == (p[i] >= p[j]),
					  "comparisons of iterators at %zd and %zd are wrong", (ssize_t)p[i], (ssize_t)p[j]);
			}
		}
	}

	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		Arena arena;
		typename C::A al(&arena);
		{
			Values vals;
			vals.draw(c);
			size_t n = size_near<C>(c, std::min<size_t>(Mc::cap(), c.prob(85) ? V::block_size * 5 : V::block_size * 10));
			std::vector<T> m;
			m.reserve(n);
			V v(al);
			for (size_t i = 0; i < n; ++i) {
				Key k = C::E::norm(vals.get());
				m.push_back(mk<C>(k));
				v.push_back(mk<C>(k));
			}
			if (c.draw(2))
				v.shrink_to_fit();
			size_t steps = 1 + c.draw(3);
			for (size_t i = 0; i < steps; ++i) {
				algorithm<C>(c, v, m, vals);
				auto k = keys<C>(m);
				compare<C>(c, v, k, (unsigned)c.draw(8), "after the algorithm");
				if (c.prob(20)) {
					v.shrink_to_fit();
					compare<C>(c, v, k, (unsigned)c.draw(8), "after shrink_to_fit");
				}
			}
			// a second vector
			V v2(al);
			size_t n2 = c.draw(2) ? n : size_near<C>(c, V::block_size * 4);
			std::vector<Key> ks[2] = { keys<C>(m), {} };
			for (size_t i = 0; i < n2; ++i) {
				Key k = C::E::norm(vals.get());
				ks[1].push_back(k);
				v2.push_back(mk<C>(k));
			}
			auto turn = [&]() {
				std::reverse(ks[0].begin(), ks[0].end());
				std::reverse(ks[1].begin(), ks[1].end());
			};
			switch (c.draw(4)) {
				case 0: {
					const typename V::iterator f[2] = { v.begin(), v2.begin() };
					laws<C, true>(c, f, ks, V::block_size, vals);
					break;
				}
				case 1: {
					const typename V::const_iterator f[2] = { v.cbegin(), v2.cbegin() };
					laws<C, false>(c, f, ks, V::block_size, vals);
					break;
				}
				case 2: {
					turn();
					{
						const typename V::reverse_iterator f[2] = { v.rbegin(), v2.rbegin() };
						laws<C, true>(c, f, ks, V::block_size, vals);
					}
					turn();
					break;
				}
				default: {
					turn();
					{
						const typename V::const_reverse_iterator f[2] = { v.crbegin(), v2.crbegin() };
						laws<C, false>(c, f, ks, V::block_size, vals);
					}
					turn();
					break;
				}
			}
			compare<C>(c, v, ks[0], (unsigned)c.draw(8), "after the iterators");
			compare<C>(c, v2, ks[1], (unsigned)c.draw(8), "after the iterators (second vector)");
			if (n > V::block_size)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
	}
}
CV_REGISTER(run)
