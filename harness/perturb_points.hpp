// Points of schedule perturbation in headers: cv_main.cpp (built with CV_PERTURB) has the definitions. Sources built
// with -finstrument-functions stop at the entry of any function of the library.
#pragma once
#include <cstdint>
void perturb_point();
void perturb_set(uint64_t seed, unsigned per_mille);
