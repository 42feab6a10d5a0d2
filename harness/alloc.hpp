// Allocation accounting and fault injection. Include in exactly one source of an executable.
//  - plain builds: malloc and friends are replaced for the whole process (library, zstd, libstdc++);
//  - sanitizer builds: linked with --wrap, which covers the library and harness objects, plus operator new.
#pragma once
#include "mem.hpp"
#include "pbt.hpp"
#include <atomic>
#include <malloc.h>
#include <new>
#include <cerrno>
#include <thread>
#include <dlfcn.h>
#include <link.h>

namespace al
{
	// The C library ends the process when it cannot register the destructor of a thread-local variable:
	// that request is not the library's and is always served.
	struct Exempt
	{
		uintptr_t lo = 0, hi = 0;
		Exempt()
		{
			void* f = dlsym(RTLD_DEFAULT, "__cxa_thread_atexit_impl");
			Dl_info i;
			const ElfW(Sym)* sym = nullptr;
			if (f && dladdr1(f, &i, (void**)&sym, RTLD_DL_SYMENT) && sym) {
				lo = (uintptr_t)f;
				hi = lo + sym->st_size;
			}
		}
		bool has(void* p) const { return (uintptr_t)p >= lo && (uintptr_t)p < hi; }
	};
	inline Exempt& exempt()
	{
		static Exempt e;
		return e;
	}

	enum Mode
	{
		Off,
		One,      // the k-th request fails
		From,     // every request from the k-th on fails
		Size,     // requests of at least `size` bytes fail
		Random,   // each request fails with probability `pct`
	};
	struct State
	{
		std::atomic<int> mode{ Off };
		std::atomic<long> count{ 0 };
		std::atomic<long> at{ 0 };
		std::atomic<unsigned long> size{ 0 };
		std::atomic<unsigned> pct{ 0 };
		std::atomic<unsigned long> seed{ 0 };
		std::atomic<long> failed{ 0 };
		std::atomic<long> live{ 0 };   // blocks
		std::atomic<bool> sizes{ false };
		std::atomic<long> freed{ 0 };  // bytes, counted while sizes is set
	};
	inline State& st()
	{
		static State s;
		return s;
	}
	inline bool deny(size_t n)
	{
		State& s = st();
		int m = s.mode.load(std::memory_order_relaxed);
		if (m == Off)
			return false;
		long k = s.count.fetch_add(1);
		bool d = false;
		switch (m) {
			case One:
				d = k == s.at;
				break;
			case From:
				d = k >= s.at;
				break;
			case Size:
				d = n >= s.size;
				break;
			case Random: {
				pbt::Rng r(pbt::mix(s.seed, (uint64_t)k));
				d = r.below(100) < s.pct;
				break;
			}
		}
		if (d)
			s.failed.fetch_add(1);
		return d;
	}
	inline void arm(Mode m, long at = 0, size_t size = 0, unsigned pct = 0, uint64_t seed = 0)
	{
		State& s = st();
		exempt();
		s.mode = Off;
		s.count = 0;
		s.failed = 0;
		s.at = at;
		s.size = size;
		s.pct = pct;
		s.seed = seed;
		s.mode = m;
	}
	inline void disarm() { st().mode = Off; }
	struct Guard
	{
		~Guard() { disarm(); }
	};
}

#if VH_ASAN
#define AL_REAL(n) __real_##n
#define AL_DEF(n) __wrap_##n
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}
#else
#define AL_DEF(n) n
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
}
#define AL_REAL(n) __libc_##n
#endif

extern "C" {
void* AL_DEF(malloc)(size_t n)
{
	if (al::deny(n)) {
		errno = ENOMEM;
		return nullptr;
	}
	void* p = AL_REAL(malloc)(n);
	if (p)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	return p;
}
void* AL_DEF(calloc)(size_t a, size_t b)
{
	if (al::st().mode.load(std::memory_order_relaxed) != al::Off && !al::exempt().has(__builtin_return_address(0)) && al::deny(a * b)) {
		errno = ENOMEM;
		return nullptr;
	}
	void* p = AL_REAL(calloc)(a, b);
	if (p)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	return p;
}
void* AL_DEF(realloc)(void* q, size_t n)
{
	if (n && al::deny(n)) {
		errno = ENOMEM;
		return nullptr;
	}
	void* p = AL_REAL(realloc)(q, n);
	if (!q && p)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	if (q && !n)
		al::st().live.fetch_sub(1, std::memory_order_relaxed);
	return p;
}
void AL_DEF(free)(void* p)
{
	if (p && al::st().sizes.load(std::memory_order_relaxed))
		al::st().freed.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed);
	if (p)
		al::st().live.fetch_sub(1, std::memory_order_relaxed);
	AL_REAL(free)(p);
}
void* AL_DEF(aligned_alloc)(size_t a, size_t n)
{
	if (al::deny(n)) {
		errno = ENOMEM;
		return nullptr;
	}
#if VH_ASAN
	void* p = __real_aligned_alloc(a, n);
#else
	void* p = __libc_memalign(a, n);
#endif
	if (p)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	return p;
}
int AL_DEF(posix_memalign)(void** r, size_t a, size_t n)
{
	if (al::deny(n))
		return ENOMEM;
#if VH_ASAN
	int e = __real_posix_memalign(r, a, n);
#else
	void* q = __libc_memalign(a, n);
	int e = q ? 0 : ENOMEM;
	if (q)
		*r = q;
#endif
	if (e == 0)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	return e;
}
#if !VH_ASAN
void* memalign(size_t a, size_t n)
{
	if (al::deny(n)) {
		errno = ENOMEM;
		return nullptr;
	}
	void* p = __libc_memalign(a, n);
	if (p)
		al::st().live.fetch_add(1, std::memory_order_relaxed);
	return p;
}
#endif
}

// In sanitizer builds operator new of the library objects must go through the wrapped malloc as well.
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a)
{
	void* p = nullptr;
	if (posix_memalign(&p, (size_t)a < sizeof(void*) ? sizeof(void*) : (size_t)a, n ? n : 1))
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
