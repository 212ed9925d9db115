// Included ahead of everything else: the library's spin loops give way to other threads now and then,
// so that a waiting pool does not burn the time slices of the thread it waits for, and so that a
// check can vary the schedule (vh::jitter).
#pragma once
#include <immintrin.h>
extern "C" void vh_pause() noexcept;
#define __builtin_ia32_pause vh_pause
