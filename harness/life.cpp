// C18: the library works at every point of the life of a program and of its threads.
// A case is a small program: operations placed in constructors of static objects, main, threads, destructors of
// thread_local objects, functions registered with atexit and destructors of static objects, and a way to end. It runs
// as a process of its own (this executable again, with the plan in its environment).
#include "pbt.hpp"
#include "stenos/stenos.h"
#include "stenos/cvector.hpp"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <thread>

namespace
{
	using pbt::Case;
	using pbt::Rng;

	enum Phase
	{
		EARLY,		// constructor of a static object
		MAIN,		// main
		THREAD,		// body of a thread
		TLS_OLD,	// destructor of a thread_local object of the thread, made before the thread used the library
		TLS_NEW,	// the same, made after
		MAIN_TLS_OLD,	// destructor of a thread_local object of the main thread
		MAIN_TLS_NEW,
		ATEXIT_EARLY,	// function registered by the static object
		ATEXIT_MAIN,	// function registered at the start of main
		ATEXIT_LATE,	// function registered at the end of main
		STATIC_EARLY,	// destructor of the static object
		STATIC_MAIN,	// destructor of a static object made at the start of main
		STATIC_LATE,	// and at the end of main
		NPHASES
	};
	const char* phase_name[] = { "static constructor", "main", "thread", "thread_local destructor (made before use)", "thread_local destructor (made after use)",
				     "thread_local destructor of main (made before use)", "thread_local destructor of main (made after use)", "atexit function of a static constructor",
				     "atexit function", "late atexit function", "static destructor", "destructor of a function static", "destructor of a late function static" };
	enum End
	{
		RETURN,
		EXIT,
		EXIT_THREAD
	};

	struct Op
	{
		unsigned phase, kind, bt, level, threads;
		size_t elems;
		uint64_t seed;
	};
	enum Kind
	{
		CTXFREE,
		CONTEXT,
		KEPT,	// a context that lives as long as the program
		DECODE, // only decompression of a frame made earlier (or right here when there is none)
		VECTOR,	// a vector of its own
		GLOBAL,	// the vector that lives as long as the program
		NKINDS
	};

	// ------------------------------------------------------------------ the program

	struct Shared
	{
		uint32_t done[64];
		uint32_t failed;
		uint32_t in_main, end_main;
		char msg[500];
	};

	Shared* sh = nullptr;
	std::vector<Op>* ops = nullptr;
	unsigned end_kind = 0;

	void failed(size_t i, const char* what, long long v = 0)
	{
		if (!__sync_fetch_and_add(&sh->failed, 1))
			snprintf(sh->msg, sizeof(sh->msg), "operation %zu (%s): %s (%lld)", i, phase_name[(*ops)[i].phase], what, v);
	}

	std::vector<uint8_t> content(const Op& o)
	{
		Rng r(o.seed);
		std::vector<uint8_t> v(o.bt * o.elems);
		unsigned f = (unsigned)r.below(4);
		for (size_t i = 0; i < v.size(); ++i)
			v[i] = f == 0 ? (uint8_t)r.next() : f == 1 ? (uint8_t)(i / o.bt / 7 + i % o.bt * 31) : f == 2 ? (uint8_t)(r.below(6) * (i % o.bt < 2)) : (uint8_t)(i % 97 ^ (r.below(40) == 0));
		return v;
	}

	struct Kept
	{
		stenos_context* ctx = nullptr;
		std::vector<uint8_t> frame, plain;
		unsigned bt = 0;
		stenos::cvector<uint32_t> vec;
		std::vector<uint32_t> model;
	};
	Kept* kept = nullptr;

	bool roundtrip(size_t i, const Op& o, stenos_context* ctx)
	{
		std::vector<uint8_t> d = content(o), f(stenos_bound(d.size())), b(d.size());
		size_t r;
		if (ctx) {
			stenos_set_level(ctx, (int)o.level);
			stenos_set_threads(ctx, (int)o.threads);
			r = stenos_compress_generic(ctx, d.data(), o.bt, d.size(), f.data(), f.size());
		}
		else
			r = stenos_compress(d.data(), o.bt, d.size(), f.data(), f.size(), (int)o.level);
		if (stenos_has_error(r))
			return failed(i, "compression fails", (long long)r), false;
		f.resize(r);
		r = ctx ? stenos_decompress_generic(ctx, f.data(), o.bt, f.size(), b.data(), b.size()) : stenos_decompress(f.data(), o.bt, f.size(), b.data(), b.size());
		if (r != d.size())
			return failed(i, "decompression fails", (long long)r), false;
		if (b != d)
			return failed(i, "decompression gives other data"), false;
		if (o.phase == MAIN || o.phase == EARLY) {
			kept->frame.swap(f);
			kept->plain.swap(d);
			kept->bt = o.bt;
		}
		return true;
	}

	void run_op(size_t i)
	{
		const Op& o = (*ops)[i];
		bool ok = true;
		switch (o.kind) {
			case CTXFREE:
				ok = roundtrip(i, o, nullptr);
				break;
			case CONTEXT: {
				stenos_context* c = stenos_make_context();
				if (!c)
					return failed(i, "no context");
				ok = roundtrip(i, o, c);
				stenos_destroy_context(c);
				break;
			}
			case KEPT:
				if (!kept->ctx)
					kept->ctx = stenos_make_context();
				ok = roundtrip(i, o, kept->ctx);
				break;
			case DECODE: {
				if (kept->frame.empty()) {
					ok = roundtrip(i, o, nullptr);
					break;
				}
				std::vector<uint8_t> b(kept->plain.size());
				stenos_context* c = stenos_make_context();
				stenos_set_threads(c, (int)o.threads);
				size_t r = stenos_decompress_generic(c, kept->frame.data(), kept->bt, kept->frame.size(), b.data(), b.size());
				stenos_destroy_context(c);
				if (r != b.size() || b != kept->plain)
					return failed(i, "a frame made earlier does not decode", (long long)r);
				break;
			}
			case VECTOR:
			case GLOBAL: {
				stenos::cvector<uint32_t> own;
				std::vector<uint32_t> om;
				stenos::cvector<uint32_t>& v = o.kind == GLOBAL ? kept->vec : own;
				std::vector<uint32_t>& m = o.kind == GLOBAL ? kept->model : om;
				Rng r(o.seed);
				size_t n = o.elems % 3000;
				uint32_t mask = r.below(2) ? 0xffffffffu : 0xffu;
				for (size_t k = 0; k < n; ++k) {
					uint32_t x = (uint32_t)r.next() & mask;
					v.push_back(x);
					m.push_back(x);
				}
				for (size_t k = 0; k < 20 && !m.empty(); ++k) {
					size_t p = r.below(m.size());
					m[p] = (uint32_t)k;
					v[p] = (uint32_t)k;
				}
				if (r.below(2))
					v.shrink_to_fit();
				if (v.size() != m.size())
					return failed(i, "the vector has another size");
				size_t p = 0;
				bool same = true;
				v.const_for_each(0, v.size(), [&](const uint32_t& x) { same &= x == m[p++]; });
				if (!same || p != m.size())
					return failed(i, "the vector holds other elements");
				break;
			}
		}
		if (ok)
			__sync_fetch_and_add(&sh->done[i], 1);
	}
	void run_phase(unsigned p)
	{
		if (!ops)
			return;
		for (size_t i = 0; i < ops->size(); ++i)
			if ((*ops)[i].phase == p)
				run_op(i);
	}

	struct AtEnd
	{
		unsigned phase;
		explicit AtEnd(unsigned p)
		  : phase(p)
		{
		}
		~AtEnd() { run_phase(phase); }
		void touch() volatile {}
	};

	void at_early()
	{
		// runs last
		run_phase(ATEXIT_EARLY);
		stenos_destroy_context(kept->ctx);
		delete kept;
		kept = nullptr;
	}
	void at_main() { run_phase(ATEXIT_MAIN); }
	void at_late() { run_phase(ATEXIT_LATE); }

	struct Static
	{
		Static()
		{
			const char* e = getenv("LIFE_PLAN");
			const char* fd = getenv("LIFE_FD");
			if (!e || !fd)
				return;
			sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(fd), 0);
			if (sh == MAP_FAILED)
				_exit(3);
			ops = new std::vector<Op>;
			kept = new Kept;
			char* q;
			end_kind = (unsigned)strtoul(e, &q, 10);
			for (;;) {
				unsigned long long x[7];
				int k = 0;
				for (; k < 7; ++k) {
					char* p = q;
					x[k] = strtoull(p, &q, 10);
					if (q == p)
						break;
				}
				if (k < 7)
					break;
				ops->push_back(Op{ (unsigned)x[0], (unsigned)x[1], (unsigned)x[2], (unsigned)x[3], (unsigned)x[4], (size_t)x[5], x[6] });
			}
			atexit(at_early);
			run_phase(EARLY);
		}
		~Static() { run_phase(STATIC_EARLY); }
	};
	Static first;

	int program()
	{
		sh->in_main = 1;
		atexit(at_main);
		static AtEnd st(STATIC_MAIN);
		thread_local AtEnd mt(MAIN_TLS_OLD);
		mt.touch();
		run_phase(MAIN);
		bool th = false;
		for (auto& o : *ops)
			th |= o.phase == THREAD || o.phase == TLS_OLD || o.phase == TLS_NEW;
		if (th)
			std::thread([] {
				thread_local AtEnd a(TLS_OLD);
				a.touch();
				run_phase(THREAD);
				thread_local AtEnd b(TLS_NEW);
				b.touch();
			}).join();
		thread_local AtEnd mn(MAIN_TLS_NEW);
		mn.touch();
		static AtEnd sl(STATIC_LATE);
		atexit(at_late);
		sh->end_main = 1;
		if (end_kind == EXIT)
			exit(0);
		if (end_kind == EXIT_THREAD) {
			std::thread([] { exit(0); }).detach();
			for (;;)
				pause();
		}
		return 0;
	}

	// ------------------------------------------------------------------ the property

	double mono()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + t.tv_nsec * 1e-9;
	}

	struct Map
	{
		int fd;
		Shared* p;
		Map()
		{
			fd = memfd_create("life", 0);
			if (fd < 0 || ftruncate(fd, sizeof(Shared))) {
				perror("memfd");
				_exit(3);
			}
			p = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		}
	};
}

extern char** environ;

PBT_PROP(C18)
{
	static Map map;
	unsigned end = (unsigned)c.pick({ 50, 30, 20 });
	std::vector<Op> plan;
	size_t n = 1 + c.draw(8);
	bool outside = false, many = false;
	for (size_t i = 0; i < n; ++i) {
		Op o;
		o.phase = (unsigned)c.draw(NPHASES);
		if ((o.phase == MAIN_TLS_OLD || o.phase == MAIN_TLS_NEW) && end == EXIT_THREAD)
			o.phase = MAIN; // the main thread does not end
		o.kind = (unsigned)c.pick({ 25, 25, 15, 10, 10, 15 });
		o.bt = (unsigned)c.one_of<int>({ 1, 2, 4, 8, 12, 3, 16, 100 });
		o.level = (unsigned)c.pick({ 5, 20, 20, 15, 10, 10, 5, 5, 3, 3 });
		o.threads = c.prob(50) ? (unsigned)c.range(2, 9) : 1;
		o.elems = c.prob(30) ? c.draw(300) : c.prob(60) ? c.draw(40000 / o.bt + 1) : c.draw((o.level > 6 ? 150000 : 500000) / o.bt);
		o.seed = c.draw(1u << 20);
		outside |= o.phase != MAIN && o.phase != THREAD;
		many |= o.threads > 1 && o.kind != CTXFREE && o.kind != VECTOR && o.kind != GLOBAL;
		c.note("[%s: kind %u bt %u level %u threads %u elems %zu]", phase_name[o.phase], o.kind, o.bt, o.level, o.threads, o.elems);
		c.label(std::string("phase:") + phase_name[o.phase]);
		plan.push_back(o);
	}
	c.note("end %s", end == RETURN ? "return" : end == EXIT ? "exit" : "exit in a thread");
	c.label(end == RETURN ? "end:return" : end == EXIT ? "end:exit" : "end:exit-in-thread");
	c.label_if(many, "multithreaded");
	if (outside)
		c.nontrivial();

	std::string e = "LIFE_PLAN=" + std::to_string(end);
	for (auto& o : plan) {
		char b[200];
		snprintf(b, sizeof(b), " %u %u %u %u %u %zu %llu", o.phase, o.kind, o.bt, o.level, o.threads, o.elems, (unsigned long long)o.seed);
		e += b;
	}
	std::string f = "LIFE_FD=" + std::to_string(map.fd);
	memset((void*)map.p, 0, sizeof(Shared));
	std::vector<char*> env;
	for (char** p = environ; *p; ++p)
		env.push_back(*p);
	env.push_back(&e[0]);
	env.push_back(&f[0]);
	env.push_back(nullptr);
	char self[] = "/proc/self/exe";
	char* argv[] = { self, nullptr };
	pid_t pid = vfork();
	if (pid == 0) {
		execve(self, argv, env.data());
		_exit(3);
	}
	if (pid < 0) {
		perror("vfork");
		_exit(3);
	}
	int status = 0;
	double t0 = mono();
	unsigned us = 200;
	// a program that hangs uses no CPU time: 25 s, or 60 s of CPU time
	for (;;) {
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid)
			break;
		if (mono() - t0 > 25) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			c.fail("the program does not end (%s main, %u operations failed %s)", map.p->end_main ? "after" : map.p->in_main ? "inside" : "before", map.p->failed, map.p->msg);
		}
		usleep(us);
		if (us < 5000)
			us += us / 4;
	}
	if (WIFEXITED(status) && WEXITSTATUS(status) == 3)
		_exit(3);
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGTERM))
		throw pbt::Discard();
	const char* where = map.p->end_main ? "after main" : map.p->in_main ? "inside main" : "before main";
	PBT_CHECK(c, map.p->failed == 0, "%s", map.p->msg);
	PBT_CHECK(c, !WIFSIGNALED(status), "the program dies %s: %s", where, strsignal(WTERMSIG(status)));
	PBT_CHECK(c, WEXITSTATUS(status) == 0, "the program ends with code %d (%s)", WEXITSTATUS(status), where);
	for (size_t i = 0; i < plan.size(); ++i)
		PBT_CHECK(c, map.p->done[i] == 1, "operation %zu (%s) ran %u times", i, phase_name[plan[i].phase], map.p->done[i]);
}

int main(int argc, char** argv)
{
	if (ops)
		return program();
	return pbt::engine_main(argc, argv);
}
