// V06: every element is destroyed once, every block of memory goes back to where it came from.
#include "cv_types.hpp"
#include <sstream>
#include "stenos/stenos.h"
long cv_live_blocks();
namespace
{
	using namespace cv;

	template<class C, bool Copyable = C::E::copyable>
	struct Cp
	{
		typedef typename C::V V;
		static V* copy(const V& v, const typename C::A& a) { return new V(v, a); }
		static void assign(V& d, const V& s) { d = s; }
		static const bool ok = true;
	};
	template<class C>
	struct Cp<C, false>
	{
		typedef typename C::V V;
		static V* copy(const V&, const typename C::A&) { return nullptr; }
		static void assign(V&, const V&) {}
		static const bool ok = false;
	};

	template<class C>
	void body(Case& c)
	{
		typedef Machine<C> Mc;
		typedef typename C::V V;
		typedef std::vector<Key> M;
		const bool prop = C::A::propagate_on_container_swap::value;
		const size_t N = 3;
		Arena arenas[N];
		reg().reset();
		size_t done = 0, maxs = 0;
		{
			std::unique_ptr<V> v[N];
			M m[N];
			size_t ar[N];
			Values vals;
			vals.draw(c);
			size_t cap = std::min<size_t>(Mc::cap(), V::block_size * 6);
			bool one = c.prob(40);
			auto resync = [&](size_t i) {
				m[i].clear();
				for (size_t k = 0; k < v[i]->size(); ++k)
					m[i].push_back(key_at<C>(*v[i], k));
			};
			auto counts = [&](const char* when) {
				for (auto& a : arenas)
					PBT_CHECK(c, a.error.empty(), "%s: %s", when, a.error.c_str());
				PBT_CHECK(c, reg().error.empty(), "%s: %s", when, reg().error.c_str());
				if (C::E::tracked) {
					size_t n = 0;
					for (auto& x : v)
						n += x ? x->size() : 0;
					PBT_CHECK(c, reg().alive == (long)n, "%s: %ld elements are alive, the vectors hold %zu", when, reg().alive, n);
				}
			};
			for (size_t i = 0; i < N; ++i) {
				ar[i] = one ? 0 : i;
				typename C::A al(&arenas[ar[i]]);
				if (i == 0)
					Mc::CO::construct(c, v[i], m[i], vals, al, cap);
				else
					v[i].reset(new V(al));
			}
			counts("after construction");
			size_t steps = 1 + c.draw(16);
			for (size_t s = 0; s < steps; ++s) {
				size_t a = c.draw(N), b = (a + 1 + c.draw(N - 1)) % N;
				const char* what = "after an operation";
				switch (c.pick({ 55, 8, 8, 8, 6, 8, 8, std::is_trivially_copyable<typename C::T>::value ? 8u : 0u })) {
					case 0:
						if (Mc::apply(c, Mc::draw_op(c), *v[a], m[a], vals))
							++done;
						maxs = std::max(maxs, m[a].size());
						break;
					case 1: {
						if (!Cp<C>::ok)
							continue;
						what = "after a copy construction";
						ar[b] = one ? 0 : c.draw(N);
						c.note("%zu copy constructed from %zu (%zu elements)", b, a, m[a].size());
						v[b].reset(Cp<C>::copy(*v[a], typename C::A(&arenas[ar[b]])));
						m[b] = m[a];
						++done;
						break;
					}
					case 2:
						if (!Cp<C>::ok)
							continue;
						what = "after a copy assignment";
						c.note("%zu copy assigned from %zu (%zu to %zu elements)", b, a, m[a].size(), m[b].size());
						Cp<C>::assign(*v[b], *v[a]);
						if (prop)
							ar[b] = ar[a];
						m[b] = m[a];
						++done;
						break;
					case 3:
						what = "after a move construction";
						ar[b] = one ? 0 : c.draw(N);
						c.note("%zu move constructed from %zu (%zu elements)", b, a, m[a].size());
						v[b].reset(new V(std::move(*v[a]), typename C::A(&arenas[ar[b]])));
						m[b] = m[a];
						resync(a);
						++done;
						break;
					case 4:
						what = "after a move assignment";
						c.note("%zu move assigned from %zu (%zu to %zu elements)", b, a, m[a].size(), m[b].size());
						*v[b] = std::move(*v[a]);
						if (prop)
							ar[b] = ar[a];
						m[b] = m[a];
						resync(a);
						++done;
						break;
					case 5: {
						what = "after clear";
						bool alone = true;
						for (size_t i = 0; i < N; ++i)
							if (i != a && ar[i] == ar[a])
								alone = false;
						c.note("clear %zu (%zu elements)", a, m[a].size());
						v[a]->clear();
						m[a].clear();
						if (alone && v[a]->get_allocator().a == &arenas[ar[a]]) {
							// what may stay: the fixed part and the table of blocks, no block
							PBT_CHECK(c, arenas[ar[a]].blocks.size() <= 4, "%zu memory blocks stay after clear", arenas[ar[a]].blocks.size());
						}
						++done;
						break;
					}
					case 7:
						// through serialized bytes, perhaps cut or damaged
						if constexpr (std::is_trivially_copyable<typename C::T>::value) {
							what = "after a deserialization";
							std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
							bool out_stream = c.draw(2), in_stream = c.draw(2), good = true;
							std::string bytes;
							size_t r;
							if (out_stream) {
								r = v[a]->serialize(ss);
								bytes = ss.str();
							}
							else {
								bytes.resize(v[a]->size() * sizeof(typename C::T) + 64 + (v[a]->size() / V::block_size + 2) * 64);
								r = v[a]->serialize(&bytes[0], bytes.size());
								if (!stenos_has_error(r))
									bytes.resize(r);
							}
							PBT_CHECK(c, !stenos_has_error(r), "serialize fails: %zd", (ssize_t)r);
							unsigned damage = (unsigned)c.pick({ 40, 40, 20 });
							if (damage == 1) {
								bytes.resize(c.draw(bytes.size()));
								good = false;
							}
							else if (damage == 2) {
								for (uint64_t i = 1 + c.draw(3); i; --i)
									bytes[c.draw(bytes.size())] ^= (char)(1u << c.draw(8));
								good = false;
							}
							c.note("%zu deserialized from %zu (%zu elements, %zu bytes, damage %u, streams %d %d)", b, a, m[a].size(), bytes.size(), damage, out_stream, in_stream);
							if (in_stream) {
								std::stringstream in(bytes, std::ios::in | std::ios::binary);
								r = v[b]->deserialize(in);
							}
							else {
								std::vector<char> exact(bytes.begin(), bytes.end());
								r = v[b]->deserialize(exact.data(), exact.size());
							}
							if (good) {
								PBT_CHECK(c, r == m[a].size(), "deserialize gives %zd instead of %zu", (ssize_t)r, m[a].size());
								m[b] = m[a];
							}
							else {
								v[b]->clear();
								m[b].clear();
							}
							c.label(good ? "serialized" : "damaged");
							++done;
						}
						break;
					default: {
						what = "after a destruction";
						bool alone = true;
						for (size_t i = 0; i < N; ++i)
							if (i != a && ar[i] == ar[a])
								alone = false;
						c.note("destroy %zu (%zu elements)", a, m[a].size());
						v[a].reset();
						m[a].clear();
						counts(what);
						if (alone)
							PBT_CHECK(c, arenas[ar[a]].blocks.empty(), "%zu memory blocks stay after the destruction of the vector", arenas[ar[a]].blocks.size());
						ar[a] = one ? 0 : c.draw(N);
						if (c.draw(2))
							v[a].reset(new V(typename C::A(&arenas[ar[a]])));
						else
							Mc::CO::construct(c, v[a], m[a], vals, typename C::A(&arenas[ar[a]]), cap);
						++done;
						break;
					}
				}
				counts(what);
			}
			for (size_t i = 0; i < N; ++i)
				compare<C>(c, *v[i], m[i], (unsigned)c.draw(8), "at the end");
			counts("at the end");
		}
		for (auto& a : arenas) {
			PBT_CHECK(c, a.error.empty(), "%s", a.error.c_str());
			PBT_CHECK(c, a.blocks.empty(), "%zu memory blocks (%zu bytes) are left after destruction", a.blocks.size(), a.bytes);
		}
		PBT_CHECK(c, reg().error.empty(), "%s", reg().error.c_str());
		PBT_CHECK(c, reg().alive == 0, "%ld elements are left after destruction", reg().alive);
		if (done >= 2 && maxs > V::block_size)
			c.nontrivial();
	}

	template<class C>
	void run(Case& c)
	{
		bool repeat = c.prob(35);
		size_t start = c.pos;
		body<C>(c);
		if (!repeat || !pbt::mirror())
			return;
		// the same history again: memory outside of the allocator must not pile up
		std::vector<uint64_t> choices(pbt::mirror()->choices, pbt::mirror()->choices + std::min<size_t>(c.pos, pbt::MAX_CHOICES));
		if (c.pos > pbt::MAX_CHOICES)
			return;
		long live[3];
		for (int i = 0; i < 3; ++i) {
			{
				Case d;
				d.replay = true;
				d.in = choices;
				d.pos = start;
				body<C>(d);
			}
			live[i] = cv_live_blocks();
		}
		PBT_CHECK(c, !(live[1] > live[0] && live[2] > live[1]), "repeating the same history leaves memory blocks behind: %ld, %ld, %ld in use", live[0], live[1], live[2]);
		c.label("repeated");
	}
}
CV_REGISTER(run)
