// W01: work grows in proportion.  The library (and this file, for its headers) is built so that every edge of
// control flow reports itself; while the library is at work these, the bytes it requests and the bytes it moves are
// counted.  The count is exact and repeatable, so sizes can be compared with each other without a clock.
#include <malloc.h>
#include <new>
#include "sizes.h"

#define OFF __attribute__((no_sanitize("coverage")))

namespace meter {
static bool on = false;
static uint64_t edges = 0, requested = 0, moved = 0;
}  // namespace meter

extern "C" {
OFF void __sanitizer_cov_trace_pc_guard(uint32_t *) { if (meter::on) ++meter::edges; }
OFF void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
OFF void *memcpy(void *d, const void *s, size_t n) { if (meter::on) meter::moved += n; void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
OFF void *memmove(void *d, const void *s, size_t n) {
  if (meter::on) meter::moved += n;
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else {
    char *e = (char *)d + n - 1;
    const char *f = (const char *)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
  }
  return r;
}
OFF void *memset(void *d, int c, size_t n) { if (meter::on) meter::moved += n; void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
}
OFF static void *take(size_t n) { if (meter::on) meter::requested += n; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
OFF void *operator new(size_t n) { return take(n); }
OFF void *operator new[](size_t n) { return take(n); }
OFF void operator delete(void *p) noexcept { free(p); }
OFF void operator delete[](void *p) noexcept { free(p); }
OFF void operator delete(void *p, size_t) noexcept { free(p); }
OFF void operator delete[](void *p, size_t) noexcept { free(p); }

namespace {
// The work one call takes
template <typename F> uint64_t work(F f, bool *raised) {
  meter::edges = meter::requested = meter::moved = 0;
  meter::on = true;
  bool e = false;
  try { f(); } catch (const std::exception &) { e = true; }
  meter::on = false;
  if (raised) *raised = e;
  return meter::edges + (meter::requested + meter::moved) / 16;
}
void add(uint64_t &total, uint64_t w) { total += w; }

// Work at a size, and at TIMES that size: in proportion, with room for what grows by doubling or with a logarithm.
bool compare(Ctx &c, const Calls &a, const Calls &b, const std::string &what) {
  if (c.want_sample()) {
    std::string s = what + ":";
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += " " + a[i].name + " " + std::to_string(a[i].w) + " -> " + std::to_string(b[i].w) + ";";
    c.sample(s);
  }
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    c.count("calls whose work was compared at two sizes");
    if (a[i].w >= 1000) { uint64_t &x = c.counters["most work at 16 times the size, in hundredths of proportional"]; x = std::max(x, b[i].w * 100 / (a[i].w * TIMES)); }
    if (b[i].w > a[i].w * TIMES * 5 / 2 + 30000) {
      c.fail("work", what + ":\n " + a[i].name + " takes " + std::to_string(a[i].w) + " steps at the size given and " + std::to_string(b[i].w) + " at " + std::to_string(TIMES) + " times that size");
      return false;
    }
  }
  return true;
}
bool same_width(Ctx &c, const Call &a, const Call &b, const std::string &what, size_t n) {
  if (b.w <= a.w * 3 / 2 + 400) return true;
  c.fail("width", what + ":\n " + a.name + " takes " + std::to_string(a.w) + " steps on a row of " + std::to_string(n) + " elements and " + std::to_string(b.w) + " on one of " + std::to_string(n * TIMES));
  return false;
}
bool steady(Ctx &c, const char *name, uint64_t early, uint64_t late, const std::string &what) {
  c.count("calls whose work was compared early and late");
  if (late <= early * 3 / 2 + 400) return true;
  c.fail("history", what + ":\n " + name + " takes " + std::to_string(early) + " steps early and " + std::to_string(late) + " later");
  return false;
}
}  // namespace

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["W01"] = sizes_case;
  return drive(argc, argv, props);
}
