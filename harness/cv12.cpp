// V12: stenos::istreambuf_iterator, objects of any size from a std::istream, against the array the stream was written from.
#include "pbt.hpp"
#include "mem.hpp"
#include <algorithm>
#include <iostream>
#include <iterator>
#include <list>
#include <numeric>
#include <vector>
#include "stenos/cvector.hpp"

namespace
{
	using pbt::Case;

	// A source that hands out its bytes in pieces, and fails by an exception or an early end at a given position.
	struct Source : std::streambuf
	{
		std::vector<char> data;
		size_t pos = 0, piece = 1, fail_at = (size_t)-1;
		std::vector<char> cur;
		int_type underflow() override
		{
			if (pos >= fail_at)
				throw std::runtime_error("source failed");
			size_t n = std::min({ piece, data.size() - pos, fail_at - pos });
			if (!n)
				return traits_type::eof();
			cur.assign(data.begin() + (std::ptrdiff_t)pos, data.begin() + (std::ptrdiff_t)(pos + n));
			pos += n;
			setg(cur.data(), cur.data(), cur.data() + n);
			return traits_type::to_int_type(cur[0]);
		}
		size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
	};

	template<size_t N, size_t A>
	struct alignas(A) Blob
	{
		unsigned char b[N];
		bool operator==(const Blob& o) const { return !memcmp(b, o.b, N); }
		bool operator<(const Blob& o) const { return memcmp(b, o.b, N) < 0; }
	};
	template<class T>
	bool same(const T& a, const T& b)
	{
		return !memcmp(&a, &b, sizeof(T));
	}
	struct Eq
	{
		template<class T>
		bool operator()(const T& a, const T& b) const
		{
			return same(a, b);
		}
	};

	template<class T>
	void run(Case& c)
	{
		typedef stenos::istreambuf_iterator<T> It;
		static_assert(std::is_same<typename std::iterator_traits<It>::value_type, T>::value, "value_type");
		size_t n = c.rare(60) ? 300 + c.draw(2000) : c.draw(24), tail = c.prob(40) ? c.draw(sizeof(T)) : 0;
		if (sizeof(T) > 512)
			n = std::min(n, (size_t)40);
		Source src;
		src.data.resize(n * sizeof(T) + tail);
		mem::fill((uint8_t*)src.data.data(), src.data.size(), c.draw(1000));
		if (c.prob(20)) // few distinct elements
			for (size_t i = 2; i < n; ++i)
				if (i % 3)
					memcpy(src.data.data() + i * sizeof(T), src.data.data() + (i % 2) * sizeof(T), sizeof(T));
		std::vector<T> e(n);
		if (n)
			memcpy((void*)e.data(), src.data.data(), n * sizeof(T));
		src.piece = c.one_of<size_t>({ 1, 3, 7, sizeof(T), sizeof(T) * 2, 4096, (size_t)1 << 20 });
		if (src.data.size() && c.prob(12)) {
			src.fail_at = c.draw(src.data.size());
			n = src.fail_at / sizeof(T);
			e.resize(n);
			c.label("source-fails");
		}
		std::istream in(&src);
		c.note("%zu elements of %zu bytes, %zu bytes behind, pieces of %zu", n, sizeof(T), tail, src.piece);
		c.label("size-" + std::to_string(sizeof(T)));
		if (n > 2)
			c.nontrivial();

		size_t k = 0; // the element the iterator stands at
		It it(in), end;
		auto at_end = [&] { PBT_CHECK(c, (it == end) == (k >= n) && (it != end) == (k < n) && (end == it) == (k >= n), "at element %zu of %zu the comparison with the end is wrong", k, n); };
		auto val = [&](const T& v, const char* how) { PBT_CHECK(c, same(v, e[k]), "%s: element %zu of %zu differs", how, k, n); };
		bool lib = false;
		unsigned steps = (unsigned)c.draw(n < 40 ? 2 * (unsigned)n + 5 : 60);
		for (unsigned s = 0; s < steps; ++s) {
			switch (c.draw(9)) {
				case 0:
					at_end();
					c.note("cmp");
					break;
				case 1:
				case 2:
					if (k < n)
						val(*it, "*it");
					c.note("*");
					break;
				case 3:
				case 4:
					if (k < n) {
						PBT_CHECK(c, &++it == &it, "++it returns something else");
						++k;
					}
					c.note("++");
					break;
				case 5:
					if (k < n) {
						val(*it++, "*it++");
						++k;
					}
					c.note("*++");
					break;
				case 6: { // a copy stands at the same element
					if (k < n)
						val(*it, "*it before the copy");
					It j(it);
					if (c.prob(50)) {
						if (k < n)
							val(*j, "copy");
						PBT_CHECK(c, j == it, "copy differs");
					}
					if (c.prob(50))
						it = j;
					else if (c.prob(30)) {
						It m(std::move(j));
						if (k < n)
							val(*m, "moved");
						it = m;
					}
					else if (c.prob(30)) {
						It m;
						m = j;
						it = std::move(m);
					}
					c.note("copy");
					break;
				}
				case 7:
					it = *&it;
					c.note("self");
					break;
				default: { // the rest of the loop is a plain reading loop over some elements
					size_t m = c.draw(6);
					for (; m && it != end; --m, ++it, ++k)
						val(*it, "loop");
					c.note("loop");
					break;
				}
			}
		}
		// the rest
		std::vector<T> rest(e.begin() + (std::ptrdiff_t)k, e.end()), got;
		unsigned how = (unsigned)c.draw(11);
		c.note("rest by %u", how);
		switch (how) {
			case 0:
				std::copy(it, end, std::back_inserter(got));
				break;
			case 1:
				got.assign(it, end);
				break;
			case 2: {
				stenos::cvector<T, 0> v(it, end);
				got.assign(v.begin(), v.end());
				lib = true;
				break;
			}
			case 3: {
				stenos::cvector<T, 0> v(c.draw(40), T());
				v.assign(it, end);
				got.assign(v.begin(), v.end());
				lib = true;
				break;
			}
			case 4: {
				size_t m = c.draw(200), p = c.draw(m + 1);
				stenos::cvector<T, 0> v(m, T());
				v.insert(v.begin() + (std::ptrdiff_t)p, it, end);
				std::vector<T> r(rest);
				PBT_CHECK(c, v.size() == m + r.size(), "insert of %zu elements: size %zu, was %zu", r.size(), (size_t)v.size(), m);
				for (size_t i = 0; i < r.size(); ++i)
					got.push_back(v[p + i]);
				T zero = T();
				for (size_t i = 0; i < m; ++i)
					PBT_CHECK(c, same<T>(v[i < p ? i : i + r.size()], zero), "insert changed element %zu", i);
				lib = true;
				break;
			}
			case 5: {
				size_t count = (size_t)std::distance(it, end);
				PBT_CHECK(c, count == rest.size(), "distance is %zu instead of %zu", count, rest.size());
				return;
			}
			case 6: {
				if (rest.empty())
					return;
				const T& x = rest[c.draw(rest.size())];
				size_t w = (size_t)(std::find_if(rest.begin(), rest.end(), [&](const T& a) { return same(a, x); }) - rest.begin());
				It f = std::find_if(it, end, [&](const T& a) { return same(a, x); });
				PBT_CHECK(c, f != end && same(*f, x), "find_if does not find element %zu", k + w);
				got.assign(rest.begin(), rest.begin() + (std::ptrdiff_t)w);
				std::copy(f, end, std::back_inserter(got));
				break;
			}
			case 7: {
				PBT_CHECK(c, std::equal(it, end, rest.begin(), rest.end(), Eq()), "equal says the sequences differ");
				return;
			}
			case 8: {
				size_t m = c.draw(rest.size() + 1);
				std::copy_n(it, m, std::back_inserter(got));
				rest.resize(m);
				break;
			}
			case 9: {
				size_t m = c.draw(rest.size() + 1);
				It f = std::next(it, (std::ptrdiff_t)m);
				got.assign(rest.begin(), rest.begin() + (std::ptrdiff_t)m);
				std::copy(f, end, std::back_inserter(got));
				break;
			}
			default:
				for (; it != end; ++it)
					got.push_back(*it);
				break;
		}
		PBT_CHECK(c, got.size() == rest.size(), "%zu elements instead of %zu, of %zu", got.size(), rest.size(), n);
		for (size_t i = 0; i < got.size(); ++i)
			PBT_CHECK(c, same(got[i], rest[i]), "element %zu of %zu differs", i, got.size());
		if (how != 8)
			PBT_CHECK(c, !in, "the stream is still good behind its end");
		if (lib)
			c.label("container");
	}
}

PBT_PROP(V12)
{
	switch (c.draw(9)) {
		case 0: return run<char>(c);
		case 1: return run<uint16_t>(c);
		case 2: return run<Blob<3, 1>>(c);
		case 3: return run<int>(c);
		case 4: return run<double>(c);
		case 5: return run<Blob<13, 1>>(c);
		case 6: return run<Blob<24, 8>>(c);
		case 7: return run<Blob<64, 64>>(c);
		default: return run<Blob<1000, 4>>(c);
	}
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
