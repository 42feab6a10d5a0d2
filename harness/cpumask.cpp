// Linked into builds of the library that see a processor with fewer features than it was compiled for.
#include "stenos/internal/simd.h"

extern "C" stenos::CPUFeatures __attribute__((weak)) __real__ZN6stenos6detail19compute_cpu_featureEv() noexcept;
extern "C" stenos::CPUFeatures __wrap__ZN6stenos6detail19compute_cpu_featureEv() noexcept
{
	stenos::CPUFeatures f = __real__ZN6stenos6detail19compute_cpu_featureEv();
	f.HAS_AVX512F = f.HAS_AVX512CD = f.HAS_AVX512VL = f.HAS_AVX512BW = f.HAS_AVX512DQ = f.HAS_AVX512IFMA = f.HAS_AVX512VBMI = false;
#if MASK >= 1
	f.HAS_BMI1 = f.HAS_BMI2 = false;
#endif
#if MASK >= 2
	f.HAS_AVX2 = f.HAS_AVX = f.HAS_FMA3 = f.HAS_FMA4 = f.HAS_XOP = false;
#endif
#if MASK >= 3
	f.HAS_SSE41 = f.HAS_SSE42 = false;
#endif
#if MASK >= 4
	f.HAS_SSSE3 = f.HAS_SSE3 = f.HAS_SSE2 = f.HAS_SSE4a = false;
#endif
	return f;
}
