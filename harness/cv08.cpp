// V08: the visiting functions.
#include "cv_types.hpp"
#include <functional>
namespace
{
	using namespace cv;
	struct Stop
	{
	};

	// a functor with state of its own, passed by lvalue and by rvalue
	template<class C, class Ret>
	struct Fn
	{
		typedef typename C::T T;
		std::vector<Key>* seen;
		size_t* left;
		unsigned mode; // 0 all, 1 returns false, 2 throws
		size_t own = 0;
		template<class U>
		Ret operator()(U& t)
		{
			++own;
			return step(t, (Ret*)nullptr);
		}
		template<class U>
		void step(U& t, void*)
		{
			one(t);
		}
		template<class U>
		bool step(U& t, bool*)
		{
			return one(t);
		}
		std::function<void(T&)> change;
		void put(T& t)
		{
			if (change)
				change(t);
		}
		void put(const T&) {}
		template<class U>
		bool one(U& t)
		{
			if (mode == 2 && *left == 0)
				throw Stop();
			seen->push_back(C::E::key(t));
			put(t);
			if (mode == 1 && *left == 0)
				return false;
			if (*left)
				--*left;
			return true;
		}
	};

	template<class C>
	void run(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		typedef std::vector<Key> M;
		const size_t B = V::block_size;
		Arena arena;
		size_t visits = 0;
		{
			std::unique_ptr<V> v;
			M m;
			Values vals;
			vals.draw(c);
			size_t cap = std::min<size_t>(Mc::cap(), B * 8);
			Mc::CO::construct(c, v, m, vals, typename C::A(&arena), cap);
			size_t steps = 1 + c.draw(10);
			for (size_t s = 0; s < steps; ++s) {
				if (c.prob(35)) {
					Mc::apply(c, Mc::draw_op(c), *v, m, vals);
					continue;
				}
				size_t a = pos_near(c, m.size(), B), b = pos_near(c, m.size(), B);
				if (a > b)
					std::swap(a, b);
				if (c.prob(15)) {
					a = 0;
					b = m.size();
				}
				bool fwd = c.draw(2), rvalue = c.draw(2), boolean = c.draw(2), nested = c.prob(20);
				unsigned form = (unsigned)c.draw(3); // mutable vector, const vector, const_ function
				unsigned mode = (unsigned)c.pick({ 50, 25, 25 });
				if (!boolean && mode == 1)
					mode = 0;
				size_t stop = mode ? c.draw(b - a + 2) : 0;
				if (mode && c.prob(30))
					stop = (fwd ? B - a % B : b % B) + (size_t)c.draw(3) - 1;
				if (mode && stop > b - a)
					stop = b - a; // never reached
				bool write = form == 0 && c.prob(70);
				Key k = E::norm(vals.get());
				// expectation
				M want;
				size_t full = b - a, expect;
				bool throws = mode == 2 && stop < full;
				size_t nseen = mode == 0 || stop >= full ? full : mode == 1 ? stop + 1 : stop;
				expect = mode == 1 && stop < full ? stop : full;
				for (size_t i = 0; i < nseen; ++i)
					want.push_back(m[fwd ? a + i : b - 1 - i]);
				M seen;
				size_t left = mode ? stop : 0;
				size_t idx = 0;
				size_t got = 0, own = 0;
				bool thrown = false;
				const V& cv_ = *v;
				auto change = [&](T& t) {
					size_t i = fwd ? a + idx : b - 1 - idx;
					++idx;
					if (nested) {
						// reads in another block while this one is visited
						size_t o = (i / B * B + B) % m.size();
						if (o / B != i / B) {
							Key g = E::key(cv_[o].get());
							PBT_CHECK(c, g == m[o], "element %zu read while %zu is visited is %llx instead of %llx", o, i, (unsigned long long)g, (unsigned long long)m[o]);
						}
					}
					if (write) {
						Key x = E::norm(k + i);
						t = mk<C>(x);
						m[i] = x;
					}
				};
				auto call = [&](auto&& f) {
					typedef typename std::decay<decltype(f)>::type F;
					try {
						if (form == 0)
							got = fwd ? v->for_each(a, b, std::forward<decltype(f)>(f)) : v->for_each_backward(a, b, std::forward<decltype(f)>(f));
						else if (form == 1)
							got = fwd ? cv_.for_each(a, b, std::forward<decltype(f)>(f)) : cv_.for_each_backward(a, b, std::forward<decltype(f)>(f));
						else
							got = fwd ? v->const_for_each(a, b, std::forward<decltype(f)>(f)) : v->const_for_each_backward(a, b, std::forward<decltype(f)>(f));
					}
					catch (const Stop&) {
						thrown = true;
					}
					own = f.own;
					(void)sizeof(F);
				};
				auto go = [&](auto f) {
					f.seen = &seen;
					f.left = &left;
					f.mode = mode;
					if (form == 0)
						f.change = change;
					if (rvalue)
						call(std::move(f));
					else
						call(f);
				};
				if (boolean)
					go(Fn<C, bool>());
				else
					go(Fn<C, void>());
				c.note("%s%s [%zu, %zu) of %zu, mode %u at %zu%s%s", form ? "const " : "", fwd ? "forward" : "backward", a, b, m.size(), mode, stop, write ? ", writes" : "", nested ? ", nested" : "");
				++visits;
				PBT_CHECK(c, thrown == throws, "the exception of the function %s", throws ? "does not reach the caller" : "appears from nowhere");
				PBT_CHECK(c, seen.size() == want.size(), "the function is called %zu times instead of %zu", seen.size(), want.size());
				for (size_t i = 0; i < want.size(); ++i)
					PBT_CHECK(c, seen[i] == want[i], "call %zu sees %llx instead of %llx", i, (unsigned long long)seen[i], (unsigned long long)want[i]);
				if (!throws)
					PBT_CHECK(c, got == expect, "%zu processed elements are reported instead of %zu", got, expect);
				if (!rvalue)
					PBT_CHECK(c, own >= seen.size(), "the functor given was copied: %zu of %zu calls", own, seen.size());
				PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
				if (c.prob(40))
					v->shrink_to_fit();
				if (c.prob(40))
					compare<C>(c, *v, m, (unsigned)c.draw(8), "after a visit");
			}
			compare<C>(c, *v, m, (unsigned)c.draw(8), "at the end");
			if (visits && m.size() > B)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.error.empty(), "%s", arena.error.c_str());
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
	}
}
CV_REGISTER(run)
