// Small property-based testing engine used by every check of this framework.
//
// A case is a pure function of a sequence of integer choices. Choices are drawn from a generator
// seeded by (seed, case index), mirrored into a shared file while the case runs (so that a crash, a
// sanitizer abort or a hang still leaves the exact input behind) and can be replayed and shrunk by the
// driver (check.py), which runs every candidate in its own process.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <initializer_list>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed = 0)
		  : s(seed)
		{
		}
		uint64_t next()
		{
			uint64_t z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); }
		uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
		bool prob(unsigned pct) { return below(100) < pct; }
	};

	inline uint64_t mix(uint64_t h, uint64_t v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull;
		return h ^ (h >> 33);
	}

	struct Failure
	{
		std::string msg;
	};
	struct Discard
	{
	};

	static const size_t MAX_CHOICES = 1u << 18;

	// Shared with the driver.
	struct Mirror
	{
		uint64_t magic;
		uint64_t state; // 0 idle, 1 running, 2 failed, 3 passed (replay), 4 finished
		uint64_t case_index;
		uint64_t n;
		uint64_t heartbeat;
		char msg[4096];
		char desc[8192];
		uint64_t choices[MAX_CHOICES];
	};

	inline Mirror*& mirror()
	{
		static Mirror* m = nullptr;
		return m;
	}

	class Case
	{
	public:
		bool replay = false;
		std::vector<uint64_t> in;
		size_t pos = 0;
		Rng rng{ 0 };
		uint64_t hash = 0;
		bool is_nontrivial = false;
		std::set<std::string> labels;
		std::string desc;
		uint64_t index = 0;

		// A number in [0, n). 0 is what shrinking aims for.
		uint64_t draw(uint64_t n)
		{
			uint64_t v = 0;
			if (n > 1) {
				if (replay)
					v = pos < in.size() ? in[pos] % n : 0;
				else
					v = rng.below(n);
			}
			else if (replay)
				v = 0;
			Mirror* m = mirror();
			if (m && pos < MAX_CHOICES) {
				m->choices[pos] = v;
				m->n = pos + 1;
			}
			++pos;
			hash = mix(hash, v);
			return v;
		}
		uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
		// true with the given percentage; shrinks to false
		bool prob(unsigned pct) { return draw(100) >= 100 - pct; }
		// per mille
		bool rare(unsigned pm) { return draw(1000) >= 1000 - pm; }
		// index of a weighted alternative; shrinks to the first one
		size_t pick(std::initializer_list<unsigned> w)
		{
			uint64_t sum = 0;
			for (unsigned x : w)
				sum += x;
			uint64_t v = draw(sum);
			size_t i = 0;
			for (unsigned x : w) {
				if (v < x)
					return i;
				v -= x;
				++i;
			}
			return 0;
		}
		template<class T>
		T one_of(std::initializer_list<T> l)
		{
			return *(l.begin() + draw(l.size()));
		}
		// log-uniform size in [0, max]
		uint64_t logsize(uint64_t max)
		{
			if (max == 0)
				return 0;
			unsigned bits = 64 - __builtin_clzll(max);
			unsigned b = (unsigned)draw(bits + 1);
			uint64_t lim = b >= 64 ? ~0ull : (1ull << b);
			if (lim > max + 1)
				lim = max + 1;
			return draw(lim);
		}
		void label(const std::string& s) { labels.insert(s); }
		void label_if(bool c, const char* s)
		{
			if (c)
				labels.insert(s);
		}
		void nontrivial() { is_nontrivial = true; }
		void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
		{
			char b[1024];
			va_list ap;
			va_start(ap, fmt);
			vsnprintf(b, sizeof(b), fmt, ap);
			va_end(ap);
			if (desc.size() < 6000) {
				if (!desc.empty())
					desc += "; ";
				desc += b;
			}
			Mirror* m = mirror();
			if (m) {
				size_t n = desc.size() < sizeof(m->desc) - 1 ? desc.size() : sizeof(m->desc) - 1;
				memcpy(m->desc, desc.data(), n);
				m->desc[n] = 0;
			}
		}
		[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
		{
			char b[3000];
			va_list ap;
			va_start(ap, fmt);
			vsnprintf(b, sizeof(b), fmt, ap);
			va_end(ap);
			throw Failure{ b };
		}
	};

#define PBT_CHECK(c, cond, ...)                                                                                                                                                                       \
	do {                                                                                                                                                                                          \
		if (!(cond))                                                                                                                                                                          \
			(c).fail(__VA_ARGS__);                                                                                                                                                        \
	} while (0)

	typedef void (*PropFn)(Case&);
	struct Prop
	{
		const char* name;
		PropFn fn;
	};
	inline std::vector<Prop>& props()
	{
		static std::vector<Prop> p;
		return p;
	}
	struct Register
	{
		Register(const char* n, PropFn f) { props().push_back(Prop{ n, f }); }
	};
#define PBT_PROP(name)                                                                                                                                                                                \
	static void prop_##name(pbt::Case& c);                                                                                                                                                        \
	static pbt::Register reg_##name(#name, prop_##name);                                                                                                                                          \
	static void prop_##name(pbt::Case& c)

	inline double now()
	{
		timespec t;
		// raw system call: harnesses may replace clock_gettime
		clock_gettime(CLOCK_REALTIME, &t);
		return (double)t.tv_sec + t.tv_nsec * 1e-9;
	}

	inline std::string json_escape(const std::string& s)
	{
		std::string r;
		for (unsigned char ch : s) {
			if (ch == '"' || ch == '\\') {
				r += '\\';
				r += (char)ch;
			}
			else if (ch < 32 || ch > 126) {
				char b[8];
				snprintf(b, sizeof(b), "\\u%04x", ch);
				r += b;
			}
			else
				r += (char)ch;
		}
		return r;
	}

	struct Stats
	{
		uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
		std::map<std::string, uint64_t> labels;
		std::vector<uint64_t> hashes;
		std::vector<std::string> samples;
		void write(const char* path, bool done, double secs)
		{
			std::string tmp = std::string(path) + ".tmp";
			FILE* f = fopen(tmp.c_str(), "w");
			if (!f)
				return;
			fprintf(f,
				"{\"evaluations\": %llu, \"nontrivial\": %llu, \"discarded\": %llu, \"done\": %s, \"secs\": %.3f, \"labels\": {",
				(unsigned long long)evaluations,
				(unsigned long long)nontrivial,
				(unsigned long long)discarded,
				done ? "true" : "false",
				secs);
			bool first = true;
			for (auto& l : labels) {
				fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second);
				first = false;
			}
			fprintf(f, "}, \"samples\": [");
			for (size_t i = 0; i < samples.size(); ++i)
				fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(samples[i]).c_str());
			fprintf(f, "], \"hashes\": [");
			for (size_t i = 0; i < hashes.size(); ++i)
				fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)hashes[i]);
			fprintf(f, "]}\n");
			fclose(f);
			rename(tmp.c_str(), path);
		}
	};

	// runs one case, returns 0 pass, 1 fail, 2 discarded
	inline int run_case(PropFn fn, Case& c)
	{
		Mirror* m = mirror();
		m->n = 0;
		m->msg[0] = 0;
		m->desc[0] = 0;
		m->case_index = c.index;
		m->state = 1;
		int r = 0;
		try {
			fn(c);
		}
		catch (const Failure& f) {
			size_t n = f.msg.size() < sizeof(m->msg) - 1 ? f.msg.size() : sizeof(m->msg) - 1;
			memcpy(m->msg, f.msg.data(), n);
			m->msg[n] = 0;
			r = 1;
		}
		catch (const Discard&) {
			r = 2;
		}
		catch (const std::exception& e) {
			snprintf(m->msg, sizeof(m->msg), "unexpected exception: %s", e.what());
			r = 1;
		}
		m->state = r == 1 ? 2 : 3;
		m->heartbeat++;
		return r;
	}

	inline int engine_main(int argc, char** argv)
	{
		const char *prop = nullptr, *out = nullptr, *mir = nullptr, *replay = nullptr;
		uint64_t seed = 1, shard = 0, nshards = 1, cases = 1000, first = 0;
		double secs = 60;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop")
				prop = val();
			else if (a == "--out")
				out = val();
			else if (a == "--mirror")
				mir = val();
			else if (a == "--replay")
				replay = val();
			else if (a == "--seed")
				seed = strtoull(val(), 0, 10);
			else if (a == "--shard")
				shard = strtoull(val(), 0, 10);
			else if (a == "--nshards")
				nshards = strtoull(val(), 0, 10);
			else if (a == "--cases")
				cases = strtoull(val(), 0, 10);
			else if (a == "--first")
				first = strtoull(val(), 0, 10);
			else if (a == "--secs")
				secs = atof(val());
			else if (a == "--list") {
				for (auto& p : props())
					puts(p.name);
				return 0;
			}
		}
		PropFn fn = nullptr;
		for (auto& p : props())
			if (prop && !strcmp(p.name, prop))
				fn = p.fn;
		if (!fn) {
			fprintf(stderr, "unknown property %s\n", prop ? prop : "(none)");
			return 2;
		}
		Mirror* m = nullptr;
		if (mir) {
			int fd = open(mir, O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, sizeof(Mirror)) != 0) {
				perror("mirror");
				return 2;
			}
			m = (Mirror*)mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
			if (m == MAP_FAILED) {
				perror("mmap");
				return 2;
			}
		}
		else
			m = (Mirror*)calloc(1, sizeof(Mirror));
		mirror() = m;
		m->magic = 0x5042545f4d495252ull;

		if (replay) {
			FILE* f = fopen(replay, "r");
			if (!f) {
				perror("replay");
				return 2;
			}
			Case c;
			c.replay = true;
			// '#' lines are comments
			char line[4096];
			while (fgets(line, sizeof(line), f)) {
				if (line[0] == '#') {
					while (!strchr(line, '\n') && fgets(line, sizeof(line), f)) {
					}
					continue;
				}
				char* p = line;
				char* e;
				for (;;) {
					unsigned long long v = strtoull(p, &e, 10);
					if (e == p)
						break;
					c.in.push_back(v);
					p = e;
				}
			}
			fclose(f);
			int r = run_case(fn, c);
			if (r == 1)
				fprintf(stderr, "FAILED: %s\n  case: %s\n", m->msg, c.desc.c_str());
			else
				fprintf(stderr, "%s\n  case: %s\n", r == 2 ? "discarded" : "passed", c.desc.c_str());
			fflush(stderr);
			// _exit: global destructors of a broken tree must not decide the verdict of a replay
			_exit(r == 1 ? 77 : 0);
		}

		Stats st;
		double t0 = now(), last = t0;
		int rc = 0;
		for (uint64_t i = first + shard; i < first + cases; i += nshards) {
			Case c;
			c.index = i;
			uint64_t h = mix(mix(0x1234567, seed), i);
			for (const char* q = prop; *q; ++q)
				h = mix(h, (uint64_t)*q);
			c.rng = Rng(h);
			int r = run_case(fn, c);
			if (r == 1) {
				fprintf(stderr, "FAILED case %llu: %s\n  case: %s\n", (unsigned long long)i, m->msg, c.desc.c_str());
				rc = 77;
				break;
			}
			if (r == 2) {
				st.discarded++;
				continue;
			}
			st.evaluations++;
			for (auto& l : c.labels)
				st.labels[l]++;
			if (c.is_nontrivial) {
				st.nontrivial++;
				st.hashes.push_back(c.hash);
				if (st.samples.size() < 2 || (st.samples.size() < 6 && i % 97 == 5))
					st.samples.push_back(c.desc.substr(0, 600));
			}
			double n = now();
			if (n - last > 2 && out) {
				last = n;
				std::vector<uint64_t> keep;
				keep.swap(st.hashes);
				st.write(out, false, n - t0);
				keep.swap(st.hashes);
			}
			if (n - t0 > secs)
				break;
		}
		if (out)
			st.write(out, rc == 0, now() - t0);
		if (rc == 0)
			m->state = 4;
		fflush(stdout);
		fflush(stderr);
		_exit(rc);
	}
}
