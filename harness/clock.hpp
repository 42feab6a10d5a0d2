// The library's clock readings are served by a scripted monotonic clock.
#pragma once
#include <atomic>
#include <cstdint>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
#include "pbt.hpp"

namespace
{
	// One reading = one event. Readings of the scripted clock never go backwards.
	struct Clock
	{
		std::atomic<bool> on{ false };
		std::atomic<uint64_t> n{ 0 };
		std::atomic<uint64_t> t{ 0 };
		unsigned mode = 0; // 0 frozen, 1 steady, 2 jump at one reading, 3 random, 4 stall then steady, 5 two given readings
		uint64_t step = 0, at = 0, jump = 0, seed = 0, second = 0;

		uint64_t read()
		{
			uint64_t k = n.fetch_add(1);
			uint64_t add = 0;
			switch (mode) {
				case 1:
					add = k ? step : 0;
					break;
				case 2:
					add = k == at ? jump : k ? step : 0;
					break;
				case 3: {
					pbt::Rng r(pbt::mix(seed, k));
					add = k ? (step >> r.below(30)) : 0;
					break;
				}
				case 4:
					add = k > at ? step : 0;
					break;
				case 5:
					add = k == 1 ? second : 0;
					break;
				default:
					break;
			}
			return t.fetch_add(add) + add;
		}
		void start(uint64_t t0)
		{
			n = 0;
			t = t0;
			on = true;
		}
	};
	Clock& clk()
	{
		static Clock c;
		return c;
	}
}

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	static Clock& c = clk();
	if (id == CLOCK_MONOTONIC && c.on.load()) {
		uint64_t t = c.read();
		ts->tv_sec = (time_t)(t / 1000000000ull);
		ts->tv_nsec = (long)(t % 1000000000ull);
		return 0;
	}
	return (int)syscall(SYS_clock_gettime, id, ts);
}

namespace
{
	struct Off
	{
		~Off() { clk().on = false; }
	};
}
