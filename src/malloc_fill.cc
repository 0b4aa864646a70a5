// Replaces malloc by one that can fill fresh memory with a pattern, so that a
// result depending on uninitialised memory becomes visible as a difference.
#include <cstddef>
#include <cstdlib>
#include <cstring>

#include "api.h"

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || \
    defined(VF_NO_MALLOC)
namespace vf {
void SetMallocFill(int) {}
long MallocCount() { return 0; }
}  // namespace vf
#else
static volatile int g_fill = -1;
static volatile long g_count = 0;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  g_count = g_count + 1;
  if (p && g_fill >= 0) memset(p, g_fill, n);
  return p;
}
namespace vf {
void SetMallocFill(int byte) { g_fill = byte; }
long MallocCount() { return g_count; }
}  // namespace vf
#endif
