// Force-included into the sanitizer builds: container bounds assertions for everything except
// std::uniform_int_distribution, whose constructor /repo calls with (0, -1) before always passing
// explicit parameters (harmless; the assertion would fire on every run).
#pragma once
#ifdef __cplusplus
#include <bits/uniform_int_dist.h>
#include <cstdio>
#include <cstdlib>
#undef __glibcxx_assert
#define __glibcxx_assert(cond)                                                                   \
    do {                                                                                         \
        if (__builtin_expect(!(cond), 0)) {                                                      \
            std::fprintf(stderr, "%s:%d: container assertion '%s' failed\n", __FILE__, __LINE__, #cond); \
            std::abort();                                                                        \
        }                                                                                        \
    } while (0)
#define _GLIBCXX_ASSERTIONS 1
#endif
