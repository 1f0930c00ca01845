// Accesses outside a container or matrix end the case (which becomes a failure) instead of reading whatever lies there.
#pragma once
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#undef eigen_assert
#define eigen_assert(x) do { if (!(x)) { std::fprintf(stderr, "Eigen: %s does not hold at %s:%d\n", #x, __FILE__, __LINE__); std::abort(); } } while (0)
#endif
