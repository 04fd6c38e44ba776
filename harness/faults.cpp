#include "faults.h"

#ifdef FAULTS
#include <cstdlib>
#include <new>

static thread_local bool armed = false, all_after = false;
static thread_local long fail_at = 0, count = 0;
static bool fails() {
  if (!armed) return false;
  count++;
  return fail_at && (all_after ? count >= fail_at : count == fail_at);
}
static void* get(size_t n) {
  if (fails()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
// allocations that may return null (simdjson's own) do not fail
static void* get_nothrow(size_t n) { return malloc(n ? n : 1); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get_nothrow(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get_nothrow(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
namespace faults {
bool available() { return true; }
void arm(long n, bool more) {
  fail_at = n;
  all_after = more;
  count = 0;
  armed = true;
}
long disarm() {
  armed = false;
  return count;
}
}  // namespace faults
#else
namespace faults {
bool available() { return false; }
void arm(long, bool) {}
long disarm() { return 0; }
}  // namespace faults
#endif
