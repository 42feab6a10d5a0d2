// V10, apart from cv10.cpp because of a known finding: memory is refused to the decoder while objects are destroyed.
#include "cv_types.hpp"
#include <exception>
void cv_arm(int mode, long at);
long cv_disarm();
namespace
{
	using namespace cv;
	const char* g_doing = nullptr;

	[[noreturn]] void ends()
	{
		cv_disarm();
		pbt::Mirror* m = pbt::mirror();
		if (m) {
			snprintf(m->msg, sizeof(m->msg), "memory refused to the decoder: %s ends the process (std::terminate)", g_doing ? g_doing : "something else");
			m->state = 2;
			fprintf(stderr, "FAILED: %s\n", m->msg);
		}
		fflush(stderr);
		_exit(77);
	}

	template<class C>
	void run(Case& c)
	{
		typedef typename C::V V;
		std::set_terminate(ends);
		reg().reset();
		Arena arena;
		{
			V v{ typename C::A(&arena) };
			size_t n = V::block_size * (1 + c.draw(6)) + c.draw(V::block_size);
			Values vals;
			vals.draw(c);
			for (size_t i = 0; i < n; ++i)
				v.push_back(mk<C>(C::E::norm(vals.get())));
			if (c.draw(2))
				for (size_t i = 0; i < n; i += 1 + c.draw(3))
					std::iter_swap(v.begin() + (ptrdiff_t)i, v.begin() + (ptrdiff_t)c.draw(n));
			v.shrink_to_fit();
			unsigned how = (unsigned)c.draw(3);
			long at = (long)c.draw(4);
			int mode = 1 + (int)c.draw(2);
			g_doing = how == 0 ? "clear()" : how == 1 ? "resize(0)" : "the destructor";
			c.note("%s of %zu objects", g_doing, n);
			std::unique_ptr<V> d(how == 2 ? new V(std::move(v)) : nullptr);
			cv_arm(mode, at);
			if (how == 0)
				v.clear();
			else if (how == 1)
				v.resize(0);
			else
				d.reset();
			long failed = cv_disarm();
			PBT_CHECK(c, v.empty(), "the vector is not empty after %s", g_doing);
			PBT_CHECK(c, reg().error.empty() && reg().alive == 0, "%ld objects are left after %s %s", reg().alive, g_doing, reg().error.c_str());
			if (failed)
				c.nontrivial();
		}
		PBT_CHECK(c, arena.blocks.empty() && arena.error.empty(), "memory is left");
	}
}
#if VT == 2
static cv::RegEntry cv_reg1(cv::N1, run<cv::C1>);
#endif
