// Force-included into every translation unit of a check.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
// Eigen's own checks (sizes, indices, alignment) stay on although NDEBUG is set: a failed one ends the case.
namespace pbt_prelude {
[[noreturn]] inline void eigen_fail(const char* what) {
    std::fprintf(stderr, "Eigen assertion failed: %s\n", what);
    std::abort();
}
}
#define eigen_assert(x)                                    \
    do {                                                   \
        if (!(x)) pbt_prelude::eigen_fail(#x);             \
    } while (false)
