// Entry point of the compressed vector harnesses: picks one of the registered configurations.
#include "cv.hpp"
#ifdef CV_ALLOC
#include "alloc.hpp"
#endif

#define CV_CAT2(a, b) a##b
#define CV_CAT(a, b) CV_CAT2(a, b)
#define CV_PROP2(x) PBT_PROP(x)
#define CV_PROP(x) CV_PROP2(x)

#ifdef CV_ALLOC
long cv_live_blocks() { return al::st().live.load(); }
void cv_arm(int mode, long at) { al::arm((al::Mode)mode, at); }
long cv_disarm()
{
	al::disarm();
	return al::st().failed.load();
}
#endif

#ifdef CV_PERTURB
#include "perturb.hpp"
void perturb_point() { perturb::point(); }
void perturb_set(uint64_t seed, unsigned per_mille)
{
	perturb::seed() = seed;
	perturb::rate() = per_mille;
}
extern "C" {
#if !defined(__SANITIZE_THREAD__)
// std::this_thread::yield(), where the spin locks wait
int sched_yield() noexcept
{
	static std::atomic<void*> slot{ nullptr };
	auto f = perturb::real<int (*)()>("sched_yield", slot);
	unsigned r = perturb::rate().load(std::memory_order_relaxed);
	if (r && perturb::small()) {
		timespec ts{ 0, 3000 };
		nanosleep(&ts, nullptr);
	}
	return f();
}
#endif
void __cyg_profile_func_enter(void*, void*) { perturb::point_rare(); }
void __cyg_profile_func_exit(void*, void*) {}
}
#endif

CV_PROP(VPROP)
{
	auto& e = cv::entries();
	auto& x = e[c.draw(e.size())];
	c.note("%s", x.name.c_str());
	c.label("type:" + x.name);
	cv::reg().reset();
#ifdef CV_ALLOC
	al::Guard g;
#endif
	x.fn(c);
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
