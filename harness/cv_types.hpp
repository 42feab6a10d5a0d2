// The configurations, split over several sources to compile in parallel (VT selects the group).
#pragma once
#include "cv.hpp"
namespace cv
{
	typedef std::unique_ptr<Key> UP;
#if VT == 0
	typedef Conf<int, 0, 1, true> C0;
	typedef Conf<uint8_t, 2, 1, false> C1;
	static const char* const N0 = "int,256,level1";
	static const char* const N1 = "uint8,1024,level1";
#elif VT == 1
	typedef Conf<uint64_t, 1, 0, true> C0;
	typedef Conf<Pod<12>, 0, 2, false> C1;
	static const char* const N0 = "uint64,512,level0";
	static const char* const N1 = "pod12,256,level2";
#elif VT == 2
	typedef Conf<Trk, 0, 1, true> C0;
	typedef Conf<Trk, 1, 3, false> C1;
	static const char* const N0 = "object,256,level1";
	static const char* const N1 = "object,512,level3";
#elif VT == 4
	// elements with extended alignment
	struct alignas(64) ATrk : Trk
	{
		void aligned() const
		{
			if (((uintptr_t)this & 63) && reg().error.empty())
				reg().error = "an element is constructed at a misaligned address";
		}
		ATrk() { aligned(); }
		explicit ATrk(uint32_t x)
		  : Trk(x)
		{
			aligned();
		}
		ATrk(const ATrk& o)
		  : Trk(o)
		{
			aligned();
		}
		ATrk(ATrk&& o) noexcept
		  : Trk(std::move(o))
		{
			aligned();
		}
		ATrk& operator=(const ATrk& o) = default;
		ATrk& operator=(ATrk&& o) = default;
	};
	template<>
	struct ElemT<ATrk> : ElemT<Trk>
	{
		static ATrk make(Key k) { return ATrk((uint32_t)norm(k)); }
		static Key key(const ATrk& t)
		{
			t.aligned();
			return ElemT<Trk>::key(t);
		}
	};
	typedef Conf<ATrk, 0, 1, true> C0;
	static const char* const N0 = "aligned object,256,level1";
#else
	typedef Conf<UP, 0, 1, false> C0;
	typedef Conf<Pod<33>, 0, 5, true> C1;
	static const char* const N0 = "unique_ptr,256,level1";
	static const char* const N1 = "pod33,256,level5";
#endif
}
#if VT == 4
namespace stenos
{
	template<>
	struct is_relocatable<cv::ATrk> : std::true_type
	{
	};
}
#define CV_REGISTER(fn) static cv::RegEntry cv_reg0(cv::N0, fn<cv::C0>);
#elif defined(CV_PLAIN) && VT == 3
// only trivially copyable elements
#define CV_REGISTER(fn) static cv::RegEntry cv_reg1(cv::N1, fn<cv::C1>);
#else
#define CV_REGISTER(fn)                                                                                                                                                                               \
	static cv::RegEntry cv_reg0(cv::N0, fn<cv::C0>);                                                                                                                                              \
	static cv::RegEntry cv_reg1(cv::N1, fn<cv::C1>);
#endif
