// Schedule perturbation: the pthread entry points used by std::mutex and std::condition_variable yield, sleep or
// spin at random before and after the real call. Include in exactly one source of an executable.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

namespace perturb
{
	inline std::atomic<uint64_t>& seed()
	{
		static std::atomic<uint64_t> s{ 0 };
		return s;
	}
	// per mille of the points where something happens
	inline std::atomic<unsigned>& rate()
	{
		static std::atomic<unsigned> r{ 0 };
		return r;
	}
	inline std::atomic<uint64_t>& ids()
	{
		static std::atomic<uint64_t> r{ 1 };
		return r;
	}
	inline void point()
	{
		unsigned p = rate().load(std::memory_order_relaxed);
		if (!p)
			return;
		static thread_local uint64_t st = 0;
		if (!st)
			st = pbt::mix(seed().load(std::memory_order_relaxed), ids().fetch_add(1, std::memory_order_relaxed)) | 1;
		st = st * 6364136223846793005ull + 1442695040888963407ull;
		unsigned v = (unsigned)(st >> 33);
		if (v % 1000 >= p)
			return;
		switch ((v / 1000) % 8) {
			case 0:
			case 1:
			case 2: {
				timespec ts{ 0, (long)((v / 8000) % 60000) };
				nanosleep(&ts, nullptr);
				break;
			}
			case 3: {
				for (volatile unsigned i = 0; i < (v / 8000) % 3000; i = i + 1)
					;
				break;
			}
			default:
				sched_yield();
				break;
		}
	}
	inline uint32_t& tick()
	{
		static thread_local uint32_t t = 0;
		return t;
	}
	// one call in four
	inline bool small()
	{
		uint32_t& t = tick();
		t = t * 1664525u + 1013904223u;
		return (t >> 24) < 64;
	}
	// for places reached very often: about one call in 256 is a point
	inline void point_rare()
	{
		if (!rate().load(std::memory_order_relaxed))
			return;
		uint32_t& t = tick();
		t = t * 1664525u + 1013904223u;
		if ((t >> 24) == 0)
			point();
	}
	template<class F>
	F real(const char* name, std::atomic<void*>& slot)
	{
		void* p = slot.load(std::memory_order_acquire);
		if (!p) {
			p = dlsym(RTLD_NEXT, name);
			slot.store(p, std::memory_order_release);
		}
		return (F)p;
	}
}

extern "C" {
#define PERTURB(ret, name, args, call, before, after)                                                                                                                                                 \
	ret name args __attribute__((visibility("default")));                                                                                                                                         \
	ret name args                                                                                                                                                                                 \
	{                                                                                                                                                                                             \
		static std::atomic<void*> slot{ nullptr };                                                                                                                                            \
		auto f = perturb::real<ret(*) args>(#name, slot);                                                                                                                                     \
		if (before)                                                                                                                                                                           \
			perturb::point();                                                                                                                                                             \
		ret r = f call;                                                                                                                                                                       \
		if (after)                                                                                                                                                                            \
			perturb::point();                                                                                                                                                             \
		return r;                                                                                                                                                                             \
	}
PERTURB(int, pthread_mutex_lock, (pthread_mutex_t * m) noexcept, (m), true, false)
PERTURB(int, pthread_mutex_unlock, (pthread_mutex_t * m) noexcept, (m), false, true)
PERTURB(int, pthread_cond_signal, (pthread_cond_t * c) noexcept, (c), true, true)
PERTURB(int, pthread_cond_broadcast, (pthread_cond_t * c) noexcept, (c), true, true)
}
