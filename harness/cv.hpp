// Support for the compressed vector harnesses: element types, allocator, reference model, operation machine.
#pragma once
#include "pbt.hpp"
#include "mem.hpp"
#include "stenos/cvector.hpp"
#include <array>
#include <atomic>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

namespace cv
{
	using pbt::Case;
	typedef uint64_t Key;

	// ------------------------------------------------------------------ allocator

	struct Arena
	{
		std::unordered_map<void*, size_t> blocks;
		size_t bytes = 0, peak = 0;
		long calls = 0;
		long fail_at = -1;   // index of the request (from arm()) that fails
		bool fail_from = false;
		size_t fail_size = 0; // requests of that size and more fail
		long failed = 0;
		std::string error;
		// used by several threads: only counts (no lock, which would order the threads)
		bool threads = false;
		void (*hook)() = nullptr;
		std::atomic<long> live{ 0 };
		std::atomic<unsigned> wrong{ 0 };
		void arm(long k, bool from, size_t size = 0)
		{
			calls = 0;
			failed = 0;
			fail_at = k;
			fail_from = from;
			fail_size = size;
		}
		void disarm()
		{
			fail_at = -1;
			fail_from = false;
			fail_size = 0;
		}
		void* get_mt(size_t n)
		{
			if (hook)
				hook();
			size_t* p = (size_t*)malloc(n + 32);
			if (!p)
				throw std::bad_alloc();
			p += 4; // 32 bytes, malloc aligns on 16
			p[-1] = n;
			p[-2] = 0xA110CA7ED0000000ull;
			memset((void*)p, 0xCD, n);
			live.fetch_add((long)n, std::memory_order_relaxed);
			return p;
		}
		void put_mt(void* q, size_t n)
		{
			if (hook)
				hook();
			size_t* p = (size_t*)q;
			if (p[-2] != 0xA110CA7ED0000000ull || p[-1] != n) {
				wrong.store(1, std::memory_order_relaxed);
				return;
			}
			p[-2] = 0;
			memset((void*)p, 0xDD, n);
			live.fetch_sub((long)n, std::memory_order_relaxed);
			free((char*)p - 32);
		}
		void* get(size_t n, size_t al)
		{
			if (threads)
				return get_mt(n);
			long k = calls++;
			if ((fail_at >= 0 && (k == fail_at || (fail_from && k >= fail_at))) || (fail_size && n >= fail_size)) {
				++failed;
				throw std::bad_alloc();
			}
			void* p = nullptr;
			if (al < 16)
				al = 16;
			if (posix_memalign(&p, al, n ? n : 1))
				throw std::bad_alloc();
			memset(p, 0xCD, n);
			try {
				blocks[p] = n;
			}
			catch (...) {
				free(p);
				throw;
			}
			bytes += n;
			peak = std::max(peak, bytes);
			return p;
		}
		void put(void* p, size_t n)
		{
			if (threads)
				return put_mt(p, n);
			auto it = blocks.find(p);
			if (it == blocks.end()) {
				if (error.empty())
					error = "memory returned to an allocator it was not taken from (or returned twice)";
				return;
			}
			if (it->second != n && error.empty())
				error = "a block of " + std::to_string(it->second) + " bytes is returned as " + std::to_string(n) + " bytes";
			bytes -= it->second;
			memset(p, 0xDD, it->second);
			blocks.erase(it);
			free(p);
		}
		size_t count_of_at_least(size_t n) const
		{
			size_t r = 0;
			for (auto& b : blocks)
				if (b.second >= n)
					++r;
			return r;
		}
	};

	template<class T, bool Propagate>
	struct TAlloc
	{
		typedef T value_type;
		typedef std::integral_constant<bool, Propagate> propagate_on_container_copy_assignment;
		typedef std::integral_constant<bool, Propagate> propagate_on_container_move_assignment;
		typedef std::integral_constant<bool, Propagate> propagate_on_container_swap;
		typedef std::false_type is_always_equal;
		template<class U>
		struct rebind
		{
			typedef TAlloc<U, Propagate> other;
		};
		Arena* a;
		explicit TAlloc(Arena* x) noexcept
		  : a(x)
		{
		}
		template<class U>
		TAlloc(const TAlloc<U, Propagate>& o) noexcept
		  : a(o.a)
		{
		}
		TAlloc(const TAlloc&) noexcept = default;
		TAlloc& operator=(const TAlloc&) noexcept = default;
		T* allocate(size_t n) { return (T*)a->get(n * sizeof(T), alignof(T)); }
		void deallocate(T* p, size_t n) noexcept { a->put(p, n * sizeof(T)); }
		template<class U>
		bool operator==(const TAlloc<U, Propagate>& o) const noexcept
		{
			return a == o.a;
		}
		template<class U>
		bool operator!=(const TAlloc<U, Propagate>& o) const noexcept
		{
			return a != o.a;
		}
	};

	// ------------------------------------------------------------------ elements

	struct Thrown
	{
	};

	// Life of every tracked element ever made in the current case.
	struct Registry
	{
		std::vector<uint8_t> st; // 1 alive, 2 destroyed
		long alive = 0;
		long ops = 0;     // constructions and copies
		long fail_at = -1;
		long thrown = 0;
		std::string error;
		void reset()
		{
			st.assign(1, 0);
			alive = ops = thrown = 0;
			fail_at = -1;
			error.clear();
		}
		void arm(long k)
		{
			ops = 0;
			thrown = 0;
			fail_at = k;
		}
		void disarm() { fail_at = -1; }
		void step()
		{
			if (ops++ == fail_at) {
				++thrown;
				throw Thrown();
			}
		}
		uint64_t born()
		{
			++alive;
			st.push_back(1);
			return st.size() - 1;
		}
		void check(uint64_t id, const char* what)
		{
			if (!error.empty())
				return;
			if (id == 0 || id >= st.size())
				error = std::string(what) + " an object that was never constructed";
			else if (st[id] != 1)
				error = std::string(what) + " an object that is already destroyed";
		}
		void died(uint64_t id)
		{
			check(id, "destruction of");
			if (id && id < st.size() && st[id] == 1) {
				st[id] = 2;
				--alive;
			}
		}
	};
	inline Registry& reg()
	{
		static Registry r;
		return r;
	}

	static const uint32_t MOVED = 0xFFFFFFF1u;

	struct Trk
	{
		uint64_t id;
		uint32_t v;
		uint32_t pad;
		Trk()
		{
			reg().step();
			id = reg().born();
			v = 0;
			pad = 7;
		}
		explicit Trk(uint32_t x)
		{
			reg().step();
			id = reg().born();
			v = x;
			pad = 7;
		}
		Trk(const Trk& o)
		{
			if (&o == this && reg().error.empty())
				reg().error = "an element is constructed as a copy of itself";
			reg().check(o.id, "copy of");
			reg().step();
			id = reg().born();
			v = o.v;
			pad = 7;
		}
		Trk(Trk&& o) noexcept
		{
			reg().check(o.id, "move from");
			id = reg().born();
			v = o.v;
			pad = 7;
			o.v = MOVED;
		}
		Trk& operator=(const Trk& o)
		{
			reg().check(o.id, "copy of");
			reg().check(id, "assignment to");
			reg().step();
			v = o.v;
			return *this;
		}
		Trk& operator=(Trk&& o) noexcept
		{
			reg().check(o.id, "move from");
			reg().check(id, "assignment to");
			if (this != &o) {
				v = o.v;
				o.v = MOVED;
			}
			return *this;
		}
		~Trk() { reg().died(id); }
		friend bool operator==(const Trk& a, const Trk& b) { return a.v == b.v; }
		friend bool operator!=(const Trk& a, const Trk& b) { return a.v != b.v; }
		friend bool operator<(const Trk& a, const Trk& b) { return a.v < b.v; }
		friend bool operator>(const Trk& a, const Trk& b) { return a.v > b.v; }
		friend bool operator<=(const Trk& a, const Trk& b) { return a.v <= b.v; }
		friend bool operator>=(const Trk& a, const Trk& b) { return a.v >= b.v; }
	};

}
namespace stenos
{
	template<>
	struct is_relocatable<cv::Trk> : std::true_type
	{
	};
}
namespace cv
{
	template<size_t N>
	struct __attribute__((packed)) Pod
	{
		uint32_t k;
		uint8_t rest[N - 4];
		friend bool operator==(const Pod& a, const Pod& b) { return memcmp(&a, &b, sizeof(a)) == 0; }
		friend bool operator!=(const Pod& a, const Pod& b) { return !(a == b); }
		friend bool operator<(const Pod& a, const Pod& b) { return a.k < b.k; }
		friend bool operator>(const Pod& a, const Pod& b) { return b < a; }
		friend bool operator<=(const Pod& a, const Pod& b) { return !(b < a); }
		friend bool operator>=(const Pod& a, const Pod& b) { return !(a < b); }
	};

	template<class T>
	struct ElemT
	{
		static const bool copyable = true;
		static const bool tracked = false;
		static Key norm(Key k) { return (Key)(typename std::make_unsigned<T>::type)k; }
		static T make(Key k) { return (T)k; }
		static Key key(const T& t) { return (Key)(typename std::make_unsigned<T>::type)t; }
		static Key dflt() { return 0; }
	};
	template<>
	struct ElemT<double>
	{
		static const bool copyable = true;
		static const bool tracked = false;
		static Key norm(Key k) { return (uint32_t)k; }
		static double make(Key k) { return (double)(uint32_t)k * 0.25; }
		static Key key(const double& t) { return (Key)(t * 4); }
		static Key dflt() { return 0; }
	};
	template<size_t N>
	struct ElemT<Pod<N>>
	{
		static const bool copyable = true;
		static const bool tracked = false;
		static Key norm(Key k) { return (uint32_t)k; }
		static Pod<N> make(Key k)
		{
			Pod<N> p;
			p.k = (uint32_t)k;
			for (size_t i = 0; i < N - 4; ++i)
				p.rest[i] = (uint8_t)(i % 3 == 0 ? k : i % 3 == 1 ? k >> 8 : i);
			if (k == 0)
				memset(p.rest, 0, sizeof(p.rest));
			return p;
		}
		// wrong filler bytes give a key that no model holds
		static Key key(const Pod<N>& t)
		{
			Pod<N> p = make(t.k);
			return memcmp(&p, &t, sizeof(p)) == 0 ? t.k : 0xBAD0000000000000ull + t.k;
		}
		static Key dflt() { return 0; }
	};
	template<>
	struct ElemT<Trk>
	{
		static const bool copyable = true;
		static const bool tracked = true;
		static Key norm(Key k) { return (uint32_t)k % 0xF0000000u; }
		static Trk make(Key k) { return Trk((uint32_t)norm(k)); }
		static Key key(const Trk& t)
		{
			reg().check(t.id, "read of");
			return t.v;
		}
		static Key dflt() { return 0; }
	};
	template<>
	struct ElemT<std::unique_ptr<Key>>
	{
		typedef std::unique_ptr<Key> T;
		static const bool copyable = false;
		static const bool tracked = false;
		static Key norm(Key k) { return k & 0xFFFFFFFFFFull; }
		static T make(Key k) { return T(new Key(norm(k))); }
		static Key key(const T& t) { return t ? *t : ~0ull; }
		static Key dflt() { return ~0ull; }
	};

	// ------------------------------------------------------------------ configurations

	template<class T_, unsigned Shift_, int Level_, bool Prop_>
	struct Conf
	{
		typedef T_ T;
		typedef ElemT<T> E;
		typedef TAlloc<T, Prop_> A;
		static const unsigned Shift = Shift_;
		static const int Level = Level_;
		typedef stenos::cvector<T, Shift_, Level_, A> V;
	};

	struct Entry
	{
		std::string name;
		void (*fn)(Case&);
	};
	inline std::vector<Entry>& entries()
	{
		static std::vector<Entry> e;
		return e;
	}
	struct RegEntry
	{
		RegEntry(const std::string& n, void (*f)(Case&))
		{
			auto& v = entries();
			v.push_back(Entry{ n, f });
			std::sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return a.name < b.name; });
		}
	};

	// ------------------------------------------------------------------ values

	// A stream of element keys of one style, so that blocks are sometimes compressible and sometimes not.
	struct Values
	{
		unsigned kind = 0;
		Key next_ = 0;
		pbt::Rng rng{ 0 };
		void draw(Case& c)
		{
			kind = (unsigned)c.pick({ 25, 15, 20, 20, 20 });
			next_ = c.draw(1000);
			rng = pbt::Rng(c.draw(1u << 30));
		}
		Key get()
		{
			switch (kind) {
				case 0:
					return next_++;
				case 1:
					return next_;
				case 2:
					return rng.below(7);
				case 3:
					return rng.next();
				default:
					return rng.below(20) ? next_ : rng.next();
			}
		}
	};

	template<class C>
	typename C::T mk(Key k)
	{
		return C::E::make(k);
	}

	// ------------------------------------------------------------------ sizes around block boundaries

	template<class C>
	size_t size_near(Case& c, size_t cap)
	{
		const size_t B = C::V::block_size;
		size_t s;
		switch (c.pick({ 30, 30, 20, 20 })) {
			case 0:
				s = c.draw(12);
				break;
			case 1:
				s = B * c.draw(cap / B + 1) + c.draw(5);
				s = s >= 2 ? s - 2 : 0;
				break;
			case 2:
				s = c.draw(B + 1);
				break;
			default:
				s = c.draw(cap + 1);
				break;
		}
		return std::min(s, cap);
	}
	inline size_t pos_near(Case& c, size_t size, size_t B)
	{
		if (size == 0)
			return 0;
		size_t s;
		switch (c.pick({ 40, 25, 20, 15 })) {
			case 0:
				s = c.draw(size + 1);
				break;
			case 1:
				s = B * c.draw(size / B + 1) + c.draw(3);
				s = s ? s - 1 : 0;
				break;
			case 2:
				s = size - std::min<size_t>(size, c.draw(4));
				break;
			default:
				s = c.draw(4);
				break;
		}
		return std::min(s, size);
	}

	// ------------------------------------------------------------------ comparison with the model

	template<class C>
	Key key_at(typename C::V& v, size_t i)
	{
		auto r = v[i];
		const typename C::T& t = r;
		return C::E::key(t);
	}

	template<class C>
	void compare(Case& c, typename C::V& v, const std::vector<Key>& m, unsigned how, const char* when)
	{
		typedef typename C::V V;
		typedef typename C::E E;
		typedef typename C::T T;
		const V& cvr = v;
		PBT_CHECK(c, v.size() == m.size(), "%s: size %zu instead of %zu", when, v.size(), m.size());
		PBT_CHECK(c, v.empty() == m.empty(), "%s: empty() is wrong for size %zu", when, m.size());
		PBT_CHECK(c, (size_t)(cvr.end() - cvr.begin()) == m.size(), "%s: end() - begin() is %zd instead of %zu", when, (ssize_t)(cvr.end() - cvr.begin()), m.size());
		size_t bad = m.size();
		Key got = 0;
		auto see = [&](size_t i, const T& t) {
			Key k = E::key(t);
			if (k != m[i] && bad == m.size()) {
				bad = i;
				got = k;
			}
		};
		switch (how % 8) {
			case 0:
				for (size_t i = 0; i < m.size(); ++i)
					see(i, cvr[i].get());
				break;
			case 1: {
				size_t i = 0;
				for (auto it = cvr.begin(); it != cvr.end(); ++it, ++i)
					see(i, (*it).get());
				PBT_CHECK(c, i == m.size(), "%s: iteration visits %zu of %zu elements", when, i, m.size());
				break;
			}
			case 2: {
				size_t i = 0;
				for (auto it = v.begin(); it != v.end(); it++, i++)
					see(i, (*it).get());
				PBT_CHECK(c, i == m.size(), "%s: iteration visits %zu of %zu elements", when, i, m.size());
				break;
			}
			case 3: {
				size_t i = 0;
				size_t n = cvr.for_each(0, m.size(), [&](const T& t) { see(i++, t); });
				PBT_CHECK(c, i == m.size() && n == i, "%s: for_each visits %zu of %zu elements and reports %zu", when, i, m.size(), n);
				break;
			}
			case 4:
				for (size_t i = m.size(); i-- > 0;)
					see(i, cvr.at(i).get());
				break;
			case 5: {
				size_t i = m.size();
				size_t n = cvr.const_for_each_backward(0, m.size(), [&](const T& t) { see(--i, t); });
				PBT_CHECK(c, i == 0 && n == m.size(), "%s: for_each_backward leaves %zu of %zu elements and reports %zu", when, i, m.size(), n);
				break;
			}
			case 6: {
				size_t i = m.size();
				for (auto it = v.cend(); it != v.cbegin();) {
					--it;
					see(--i, *it.operator->());
				}
				break;
			}
			default: {
				// strided
				size_t n = m.size(), s = 0;
				if (n)
					for (size_t i = 0; i < n; ++i) {
						s = (s + 7919) % n;
						see(s, v[s].get());
					}
				break;
			}
		}
		if (bad != m.size())
			c.fail("%s: element %zu of %zu is %llx instead of %llx (block size %zu, way %u)", when, bad, m.size(), (unsigned long long)got, (unsigned long long)m[bad], (size_t)V::block_size, how % 8);
		if (!m.empty()) {
			PBT_CHECK(c, E::key(cvr.front().get()) == m.front(), "%s: front() is wrong", when);
			PBT_CHECK(c, E::key(cvr.back().get()) == m.back(), "%s: back() is wrong", when);
		}
		bool thrown = false;
		try {
			(void)cvr.at(m.size());
		}
		catch (const std::out_of_range&) {
			thrown = true;
		}
		PBT_CHECK(c, thrown, "%s: at(size()) does not throw", when);
		PBT_CHECK(c, reg().error.empty(), "%s: %s", when, reg().error.c_str());
	}

	// forward (not random access) ranges of values to insert
	template<class C>
	std::vector<typename C::T> batch(const std::vector<Key>& k)
	{
		std::vector<typename C::T> r;
		r.reserve(k.size());
		for (Key x : k)
			r.push_back(mk<C>(x));
		return r;
	}

	// number of elements to insert: few, around one block, around several blocks
	inline size_t bulk(Case& c, size_t B)
	{
		switch (c.pick({ 60, 25, 15 })) {
			case 0:
				return c.draw(8);
			case 1:
				return c.draw(B * 2);
			default: {
				size_t n = B * (1 + c.draw(5));
				size_t d = c.draw(5);
				return d < 2 ? n + d : d == 2 ? n - 1 : n + c.draw(B);
			}
		}
	}

	// ------------------------------------------------------------------ operations

	// Operations that need copies.
	template<class C, bool Copyable = C::E::copyable>
	struct CopyOps
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef std::vector<Key> M;

		static bool insert_value(Case& c, V& v, M& m, Values& vals)
		{
			size_t p = pos_near(c, m.size(), V::block_size);
			Key k = C::E::norm(vals.get());
			T t = mk<C>(k);
			auto it = v.insert(v.cbegin() + (ptrdiff_t)p, t);
			m.insert(m.begin() + (ptrdiff_t)p, k);
			PBT_CHECK(c, it - v.begin() == (ptrdiff_t)p, "insert(value) returns position %zd instead of %zu", (ssize_t)(it - v.begin()), p);
			PBT_CHECK(c, C::E::key((*it).get()) == k, "insert(value): the returned iterator designates another value");
			c.note("insert value at %zu of %zu", p, m.size() - 1);
			return true;
		}
		static bool insert_count(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			size_t p = pos_near(c, m.size(), V::block_size);
			size_t n = bulk(c, V::block_size);
			n = std::min(n, cap - std::min(cap, m.size()));
			Key k = C::E::norm(vals.get());
			T t = mk<C>(k);
			if (c.prob(75)) {
				auto it = v.insert(v.cbegin() + (ptrdiff_t)p, n, t);
				PBT_CHECK(c, it - v.begin() == (ptrdiff_t)p, "insert(count) returns position %zd instead of %zu", (ssize_t)(it - v.begin()), p);
			}
			else
				v.insert((size_t)p, n, t);
			m.insert(m.begin() + (ptrdiff_t)p, n, k);
			c.note("insert %zu copies at %zu", n, p);
			return true;
		}
		static bool insert_range(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			size_t p = pos_near(c, m.size(), V::block_size);
			size_t n = bulk(c, V::block_size);
			n = std::min(n, cap - std::min(cap, m.size()));
			M k(n);
			for (auto& x : k)
				x = C::E::norm(vals.get());
			unsigned kind = (unsigned)c.draw(4);
			auto b = batch<C>(k);
			ptrdiff_t got = 0;
			auto at = v.cbegin() + (ptrdiff_t)p;
			if (kind == 0)
				got = v.insert(at, b.begin(), b.end()) - v.begin();
			else if (kind == 1) {
				std::list<T> l(b.begin(), b.end());
				got = v.insert(at, l.begin(), l.end()) - v.begin();
			}
			else if (kind == 2) {
				V o(v.get_allocator());
				for (auto& x : b)
					o.push_back(x);
				const V& co = o;
				got = v.insert(at, co.begin(), co.end()) - v.begin();
			}
			else if (n >= 3) {
				got = v.insert(at, { b[0], b[1], b[2] }) - v.begin();
				k.resize(3);
			}
			else
				got = v.insert(at, b.data(), b.data() + n) - v.begin();
			m.insert(m.begin() + (ptrdiff_t)p, k.begin(), k.end());
			PBT_CHECK(c, got == (ptrdiff_t)p, "insert(range) returns position %zd instead of %zu", (ssize_t)got, p);
			c.note("insert range of %zu (kind %u) at %zu", k.size(), kind, p);
			return true;
		}
		static bool resize_value(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			size_t n = size_near<C>(c, cap);
			Key k = C::E::norm(vals.get());
			T t = mk<C>(k);
			c.note("resize %zu -> %zu with a value", m.size(), n);
			v.resize(n, t);
			m.resize(n, k);
			return true;
		}
		static bool assign_count(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			size_t n = size_near<C>(c, cap);
			Key k = C::E::norm(vals.get());
			T t = mk<C>(k);
			c.note("assign %zu copies over %zu", n, m.size());
			v.assign(n, t);
			m.assign(n, k);
			return true;
		}
		static bool assign_range(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			size_t n = size_near<C>(c, cap);
			M k(n);
			for (auto& x : k)
				x = C::E::norm(vals.get());
			unsigned kind = (unsigned)c.draw(3);
			c.note("assign range of %zu (kind %u) over %zu", n, kind, m.size());
			auto b = batch<C>(k);
			if (kind == 0)
				v.assign(b.begin(), b.end());
			else if (kind == 1) {
				std::list<T> l(b.begin(), b.end());
				v.assign(l.begin(), l.end());
			}
			else if (n >= 2) {
				v.assign({ b[0], b[1] });
				k.resize(2);
			}
			else
				v.assign({});
			m = k;
			if (kind == 2 && n < 2)
				m.clear();
			return true;
		}
		static bool self_push(Case& c, V& v, M& m)
		{
			if (m.empty())
				return false;
			size_t i = c.draw(m.size());
			if (c.prob(30))
				i = c.prob(50) ? m.size() - 1 : (m.size() - 1) / V::block_size * V::block_size;
			c.note("push_back(v[%zu]) at size %zu", i, m.size());
			{
				auto r = v[i];
				const T& t = r;
				v.push_back(t);
			}
			m.push_back(Key(m[i]));
			return true;
		}
		static bool self_insert(Case& c, V& v, M& m)
		{
			if (m.empty())
				return false;
			size_t i = c.draw(m.size());
			size_t p = pos_near(c, m.size(), V::block_size);
			c.note("insert(%zu, copy of v[%zu])", p, i);
			T t(v[i].get());
			v.insert(v.cbegin() + (ptrdiff_t)p, t);
			Key k = m[i];
			m.insert(m.begin() + (ptrdiff_t)p, k);
			return true;
		}
		static void write_copy(Case& c, V& v, M& m, size_t i, Key k)
		{
			T t = mk<C>(k);
			switch (c.draw(4)) {
				case 0:
					v[i] = t;
					break;
				case 1:
					v.at(i) = t;
					break;
				case 2:
					*(v.begin() + (ptrdiff_t)i) = t;
					break;
				default:
					v.begin()[(ptrdiff_t)i] = t;
					break;
			}
			m[i] = k;
		}
		static void construct(Case& c, std::unique_ptr<V>& v, M& m, Values& vals, const typename C::A& al, size_t cap)
		{
			size_t n = size_near<C>(c, cap);
			unsigned kind = (unsigned)c.draw(6);
			c.note("construct kind %u size %zu", kind, n);
			m.clear();
			if (kind <= 1)
				v.reset(new V(al));
			else if (kind == 2) {
				v.reset(new V(n, al));
				m.assign(n, C::E::dflt());
			}
			else if (kind == 3) {
				Key k = C::E::norm(vals.get());
				v.reset(new V(n, mk<C>(k), al));
				m.assign(n, k);
			}
			else {
				m.resize(n);
				for (auto& x : m)
					x = C::E::norm(vals.get());
				auto b = batch<C>(m);
				if (kind == 4)
					v.reset(new V(b.begin(), b.end(), al));
				else {
					std::list<T> l(b.begin(), b.end());
					v.reset(new V(l.begin(), l.end(), al));
				}
			}
		}
	};
	template<class C>
	struct CopyOps<C, false>
	{
		typedef typename C::V V;
		typedef std::vector<Key> M;
		static bool insert_value(Case&, V&, M&, Values&) { return false; }
		static bool insert_count(Case&, V&, M&, Values&, size_t) { return false; }
		static bool insert_range(Case& c, V& v, M& m, Values& vals, size_t cap)
		{
			// move iterators
			size_t p = pos_near(c, m.size(), V::block_size);
			size_t n = bulk(c, V::block_size);
			n = std::min(n, cap - std::min(cap, m.size()));
			M k(n);
			for (auto& x : k)
				x = C::E::norm(vals.get());
			auto b = batch<C>(k);
			auto it = v.insert(v.cbegin() + (ptrdiff_t)p, std::make_move_iterator(b.begin()), std::make_move_iterator(b.end()));
			PBT_CHECK(c, it - v.begin() == (ptrdiff_t)p, "insert(moved range) returns position %zd instead of %zu", (ssize_t)(it - v.begin()), p);
			m.insert(m.begin() + (ptrdiff_t)p, k.begin(), k.end());
			c.note("insert moved range of %zu at %zu", k.size(), p);
			return true;
		}
		static bool resize_value(Case&, V&, M&, Values&, size_t) { return false; }
		static bool assign_count(Case&, V&, M&, Values&, size_t) { return false; }
		static bool assign_range(Case&, V&, M&, Values&, size_t) { return false; }
		static bool self_push(Case&, V&, M&) { return false; }
		static bool self_insert(Case&, V&, M&) { return false; }
		static void write_copy(Case& c, V& v, M& m, size_t i, Key k)
		{
			if (c.draw(2))
				v[i] = mk<C>(k);
			else
				*(v.begin() + (ptrdiff_t)i) = mk<C>(k);
			m[i] = k;
		}
		static void construct(Case& c, std::unique_ptr<V>& v, M& m, Values&, const typename C::A& al, size_t cap)
		{
			size_t n = size_near<C>(c, cap);
			m.clear();
			if (c.draw(2)) {
				v.reset(new V(n, al));
				m.assign(n, C::E::dflt());
			}
			else
				v.reset(new V(al));
		}
	};

	enum Op
	{
		OpPush,
		OpFill,
		OpPop,
		OpInsertValue,
		OpInsertMove,
		OpInsertCount,
		OpInsertRange,
		OpErase,
		OpEraseRange,
		OpResize,
		OpResizeValue,
		OpAssignCount,
		OpAssignRange,
		OpClear,
		OpShrink,
		OpWrite,
		OpSwapElems,
		OpRead,
		OpSelfPush,
		OpVisit,
		OpIterate,
		OpCount_
	};

	template<class C>
	struct Machine
	{
		typedef typename C::V V;
		typedef typename C::T T;
		typedef typename C::E E;
		typedef std::vector<Key> M;
		typedef CopyOps<C> CO;

		static size_t cap() { return std::min<size_t>(V::block_size * 12, 9000); }

		static Key val(Values& vals) { return E::norm(vals.get()); }

		// one operation on the pair; returns false when not applicable
		static bool apply(Case& c, Op op, V& v, M& m, Values& vals)
		{
			const size_t B = V::block_size;
			size_t room = cap() - std::min(cap(), m.size());
			switch (op) {
				case OpPush: {
					size_t n = 1 + c.draw(4);
					for (size_t i = 0; i < n && room; ++i) {
						Key k = val(vals);
						if (c.draw(2))
							v.push_back(mk<C>(k));
						else {
							auto r = v.emplace_back(mk<C>(k));
							PBT_CHECK(c, E::key(r.get()) == k, "emplace_back returns a reference to another value");
						}
						m.push_back(k);
					}
					c.note("push %zu", n);
					return true;
				}
				case OpFill: {
					size_t n = c.prob(60) ? c.draw(B * 2) : B * (1 + c.draw(5)) + c.draw(3) - m.size() % B;
					n = std::min(n, room);
					for (size_t i = 0; i < n; ++i) {
						Key k = val(vals);
						v.push_back(mk<C>(k));
						m.push_back(k);
					}
					c.note("push %zu", n);
					return n > 0;
				}
				case OpPop: {
					size_t n = c.prob(70) ? 1 + c.draw(3) : c.draw(B + B / 2);
					n = std::min(n, m.size());
					for (size_t i = 0; i < n; ++i) {
						v.pop_back();
						m.pop_back();
					}
					c.note("pop %zu", n);
					return n > 0;
				}
				case OpInsertValue:
					return room && CO::insert_value(c, v, m, vals);
				case OpInsertMove: {
					if (!room)
						return false;
					size_t p = pos_near(c, m.size(), B);
					Key k = val(vals);
					auto it = c.draw(2) ? v.insert(v.cbegin() + (ptrdiff_t)p, mk<C>(k)) : v.emplace(v.cbegin() + (ptrdiff_t)p, mk<C>(k));
					m.insert(m.begin() + (ptrdiff_t)p, k);
					PBT_CHECK(c, it - v.begin() == (ptrdiff_t)p, "insert(rvalue) returns position %zd instead of %zu", (ssize_t)(it - v.begin()), p);
					PBT_CHECK(c, E::key((*it).get()) == k, "insert(rvalue): the returned iterator designates another value");
					c.note("insert rvalue at %zu of %zu", p, m.size() - 1);
					return true;
				}
				case OpInsertCount:
					return room && CO::insert_count(c, v, m, vals, cap());
				case OpInsertRange:
					return room && CO::insert_range(c, v, m, vals, cap());
				case OpErase: {
					if (m.empty())
						return false;
					size_t p = std::min(pos_near(c, m.size(), B), m.size() - 1);
					auto it = v.erase(v.cbegin() + (ptrdiff_t)p);
					m.erase(m.begin() + (ptrdiff_t)p);
					PBT_CHECK(c, it - v.begin() == (ptrdiff_t)p, "erase returns position %zd instead of %zu", (ssize_t)(it - v.begin()), p);
					c.note("erase %zu of %zu", p, m.size() + 1);
					return true;
				}
				case OpEraseRange: {
					size_t a = pos_near(c, m.size(), B), b = pos_near(c, m.size(), B);
					if (a > b)
						std::swap(a, b);
					if (m.empty())
						return false;
					auto it = v.erase(v.cbegin() + (ptrdiff_t)a, v.cbegin() + (ptrdiff_t)b);
					m.erase(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b);
					PBT_CHECK(c, it - v.begin() == (ptrdiff_t)a, "erase(range) returns position %zd instead of %zu", (ssize_t)(it - v.begin()), a);
					c.note("erase [%zu, %zu)", a, b);
					return true;
				}
				case OpResize: {
					size_t n = size_near<C>(c, cap());
					c.note("resize %zu -> %zu", m.size(), n);
					v.resize(n);
					m.resize(n, E::dflt());
					return true;
				}
				case OpResizeValue:
					return CO::resize_value(c, v, m, vals, cap());
				case OpAssignCount:
					return CO::assign_count(c, v, m, vals, cap());
				case OpAssignRange:
					return CO::assign_range(c, v, m, vals, cap());
				case OpClear:
					v.clear();
					m.clear();
					c.note("clear");
					return true;
				case OpShrink:
					v.shrink_to_fit();
					c.note("shrink_to_fit");
					return true;
				case OpWrite: {
					if (m.empty())
						return false;
					size_t n = 1 + c.draw(6);
					for (size_t i = 0; i < n; ++i) {
						size_t p = std::min(pos_near(c, m.size(), B), m.size() - 1);
						CO::write_copy(c, v, m, p, val(vals));
						if (c.prob(10)) {
							Key k = val(vals);
							v.front() = mk<C>(k);
							m.front() = k;
						}
						if (c.prob(10)) {
							Key k = val(vals);
							v.back() = mk<C>(k);
							m.back() = k;
						}
					}
					c.note("write %zu", n);
					return true;
				}
				case OpSwapElems: {
					if (m.empty())
						return false;
					size_t a = std::min(pos_near(c, m.size(), B), m.size() - 1), b = std::min(pos_near(c, m.size(), B), m.size() - 1);
					if (c.draw(2)) {
						using std::swap;
						auto ra = v[a];
						auto rb = v[b];
						swap(ra, rb);
					}
					else
						std::iter_swap(v.begin() + (ptrdiff_t)a, v.begin() + (ptrdiff_t)b);
					std::swap(m[a], m[b]);
					c.note("swap elements %zu %zu", a, b);
					return true;
				}
				case OpRead: {
					if (m.empty())
						return false;
					size_t n = 1 + c.draw(6);
					const V& cvr = v;
					for (size_t i = 0; i < n; ++i) {
						size_t p = std::min(pos_near(c, m.size(), B), m.size() - 1);
						Key k = c.draw(2) ? E::key(v[p].get()) : E::key(cvr.at(p).get());
						PBT_CHECK(c, k == m[p], "element %zu of %zu reads %llx instead of %llx", p, m.size(), (unsigned long long)k, (unsigned long long)m[p]);
					}
					c.note("read %zu", n);
					return true;
				}
				case OpSelfPush:
					return room && (c.draw(2) ? CO::self_push(c, v, m) : CO::self_insert(c, v, m));
				case OpVisit: {
					size_t a = pos_near(c, m.size(), B), b = pos_near(c, m.size(), B);
					if (a > b)
						std::swap(a, b);
					Key k = val(vals);
					unsigned way = (unsigned)c.draw(3);
					size_t i = a, n;
					if (way == 0)
						n = v.for_each(a, b, [&](T& t) {
							t = mk<C>(E::norm(k + i));
							++i;
						});
					else if (way == 1) {
						i = b;
						n = v.for_each_backward(a, b, [&](T& t) {
							--i;
							t = mk<C>(E::norm(k + i));
						});
					}
					else
						n = v.for_each(a, b, [&](T& t) {
							t = mk<C>(E::norm(k + i));
							++i;
							return true;
						});
					PBT_CHECK(c, n == b - a, "for_each over [%zu, %zu) reports %zu", a, b, n);
					for (size_t j = a; j < b; ++j)
						m[j] = E::norm(k + j);
					c.note("write by visiting [%zu, %zu) way %u", a, b, way);
					return b > a;
				}
				case OpIterate: {
					// an iterator walks and writes
					if (m.empty())
						return false;
					size_t p = std::min(pos_near(c, m.size(), B), m.size() - 1);
					auto it = v.begin() + (ptrdiff_t)p;
					size_t n = 1 + c.draw(12);
					for (size_t i = 0; i < n; ++i) {
						if (c.draw(2)) {
							Key k = val(vals);
							*it = mk<C>(k);
							m[p] = k;
						}
						else
							PBT_CHECK(c, E::key((*it).get()) == m[p], "iterator at %zu reads another value", p);
						size_t q = std::min(pos_near(c, m.size(), B), m.size() - 1);
						switch (c.draw(5)) {
							case 0:
								if (p + 1 < m.size()) {
									++it;
									++p;
								}
								break;
							case 1:
								if (p > 0) {
									--it;
									--p;
								}
								break;
							case 2:
								it += (ptrdiff_t)q - (ptrdiff_t)p;
								p = q;
								break;
							case 3:
								it = it - ((ptrdiff_t)p - (ptrdiff_t)q);
								p = q;
								break;
							default:
								if (p + 1 < m.size()) {
									it++;
									++p;
								}
								break;
						}
					}
					c.note("iterate %zu", n);
					return true;
				}
				default:
					break;
			}
			return false;
		}
		static Op draw_op(Case& c)
		{
			return (Op)c.pick({ 12, 12, 9, 6, 6, 6, 8, 6, 7, 5, 5, 3, 4, 2, 6, 10, 5, 8, 5, 6, 7 });
		}
	};
}
