// Included before everything else in instrumented builds: spinning becomes visible to the scheduler.
#pragma once
#ifdef __cplusplus
#include <immintrin.h>
extern "C" void vf_pause();
static inline void vf_mm_pause_() { vf_pause(); }
#define _mm_pause vf_mm_pause_
#define __builtin_ia32_pause vf_mm_pause_
#endif
