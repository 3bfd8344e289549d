// Force-included into every instrumented translation unit (see tools/run.py).
// Makes Eigen's bounds/size/initialisation assertions observable in the NDEBUG configuration the
// project is built in, so that out-of-range element access inside fixed-size Eigen objects (which
// ASan red zones cannot see) is reported like a sanitizer finding.
#if defined(__cplusplus) && !defined(VH_HOOK_H)
#define VH_HOOK_H
#include <stdio.h>
#include <stdlib.h>
extern "C" void __sanitizer_print_stack_trace(void);
__attribute__((noinline, cold)) static inline void vh_eigen_fail(const char* e, const char* f, int l)
{
    fprintf(stderr, "VH-EIGEN-ASSERT: %s at %s:%d\n", e, f, l);
    __sanitizer_print_stack_trace();
    fflush(stderr);
    _Exit(98);
}
#define eigen_assert(x) do { if (!(x)) { vh_eigen_fail(#x, __FILE__, __LINE__); } } while (false)
#endif
