// M02: the stack a call takes.  Each call is made on a stack of its own, of which the pages it came to touch are
// counted: memory never written is not there (mincore), and what was is given back before the next call.
#include <sys/mman.h>
#include <ucontext.h>
#define TEXT_SCALE 10
#include "sizes.h"

namespace {
const size_t PAGE = 4096, SIZE = 256u << 20, NEAR = 128 << 10, KEPT = 16 << 10;
const uint64_t MOST = 128 << 10;          // of any call
const uint64_t MORE = 32 << 10;           // of a call with 16 times as much, or of a later one
struct Stack {
  char *base;
  unsigned char *there;
  ucontext_t here, other;
  void (*f)(void *) = nullptr;
  void *arg = nullptr;
  int fresh = 0;
  Stack() : there(new unsigned char[SIZE / PAGE]) {
    base = (char *)mmap(nullptr, SIZE + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(2); }
    mprotect(base, PAGE, PROT_NONE);
    base += PAGE;
    if (madvise(base, SIZE, MADV_NOHUGEPAGE)) {}    // or pages would be large
  }
  static void enter() { Stack &s = get(); s.f(s.arg); }
  static Stack &get() { static Stack s; return s; }
  uint64_t touched(size_t within) {
    if (mincore(base + SIZE - within, within, there)) { perror("mincore"); exit(2); }
    for (size_t i = 0; i < within / PAGE; i += 8) {
      uint64_t w;
      memcpy(&w, there + i, 8);
      if (!w) continue;
      while (!there[i]) ++i;
      return within - i * PAGE;
    }
    return 0;
  }
  uint64_t run(void (*g)(void *), void *a) {
    f = g;
    arg = a;
    getcontext(&other);
    other.uc_stack.ss_sp = base;
    other.uc_stack.ss_size = SIZE;
    other.uc_link = &here;
    makecontext(&other, enter, 0);
    swapcontext(&here, &other);
    // The whole is looked at after the first calls of a case and at its end, or else what lies next to the beginning.
    const bool all = fresh > 0;
    if (fresh) --fresh;
    uint64_t depth = touched(all ? SIZE : NEAR);
    if (depth > KEPT) madvise(base + SIZE - depth, depth, MADV_DONTNEED);
    else depth = KEPT;
    return depth;
  }
};
uint64_t calls = 0, most = 0;
std::map<uint64_t, uint64_t> depths;

template <typename F> uint64_t work(F f, bool *raised) {
  struct A { F *f; bool e; } a{&f, false};
  uint64_t d = Stack::get().run([](void *p) { auto *x = (A *)p; try { (*x->f)(); } catch (const std::exception &) { x->e = true; } }, &a);
  if (raised) *raised = a.e;
  ++calls;
  ++depths[d >> 12];
  most = std::max(most, d);
  return d;
}
void add(uint64_t &total, uint64_t w) { total = std::max(total, w); }

bool fits(Ctx &c, const std::string &name, uint64_t w, const std::string &what) {
  if (w <= MOST) return true;
  c.fail("stack", what + ":\n " + name + " takes " + std::to_string(w >> 10) + " KiB of stack");
  return false;
}
bool compare(Ctx &c, const Calls &a, const Calls &b, const std::string &what) {
  if (c.want_sample()) {
    std::string s = what + ":";
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += " " + a[i].name + " " + std::to_string(a[i].w >> 10) + " -> " + std::to_string(b[i].w >> 10) + " KiB;";
    c.sample(s);
  }
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    c.count("calls whose stack was compared at two sizes");
    if (!fits(c, a[i].name, a[i].w, what) || !fits(c, b[i].name, b[i].w, what + ", and that " + std::to_string(TIMES) + " times")) return false;
    if (b[i].w > a[i].w + MORE) {
      c.fail("growth", what + ":\n " + a[i].name + " takes " + std::to_string(a[i].w >> 10) + " KiB of stack at the size given and " + std::to_string(b[i].w >> 10) + " KiB at " + std::to_string(TIMES) + " times that size");
      return false;
    }
  }
  return true;
}
bool same_width(Ctx &c, const Call &a, const Call &b, const std::string &what, size_t) { return compare(c, {a}, {b}, what); }
bool steady(Ctx &c, const char *name, uint64_t early, uint64_t late, const std::string &what) {
  c.count("calls whose stack was compared early and late");
  if (late <= early + MORE) return fits(c, name, early, what) && fits(c, name, late, what);
  c.fail("history", what + ":\n " + name + " takes " + std::to_string(early >> 10) + " KiB of stack early and " + std::to_string(late >> 10) + " KiB later");
  return false;
}
// Any expressions and pipelines, sound or damaged, with rows of any values, long texts among them
void any_calls(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(8));
  Row row = gen_row(r, types, 6, r.one_in(4) ? 20000 : 30);
  Calls k;
  Bytes b;
  std::string what;
  bool pipe = r.one_in(3);
  if (pipe) {
    PipeOpt po;
    po.exact = false;
    Pipe p = gen_pipe(r, types, 1 + r.below(5), po);
    b = encode(p);
    what = "pipeline " + show(p);
  } else {
    GenOpt o;
    o.types = &types;
    o.maxstr = r.one_in(20) ? 300000 : r.one_in(4) ? 20000 : 30;
    Prog p;
    for (size_t n = 1 + r.below(6); n--;) { Prog q = gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, 200), o); p.insert(p.end(), q.begin(), q.end()); }
    b = encode_padded(r, p);
    what = "expression " + show(p);
  }
  if (r.one_in(4)) { for (size_t n = 1 + r.below(3); n-- && !b.empty();) { size_t i = r.below(b.size()); switch (r.below(3)) { case 0: b[i] = (uint8_t)r.next(); break; case 1: b.resize(i); break; default: b.insert(b.begin() + (ptrdiff_t)i, (uint8_t)r.next()); } } what = "damaged " + hex(b, 300); }
  what = what.substr(0, 1500) + " on " + show(row).substr(0, 500);
  c.at(what);
  c.saw(hashv(fnv(b.data(), b.size()), row));
  // A damaged one may ask for elements the row has not; then it is decoded only.
  if (what.compare(0, 7, "damaged") == 0) {
    bool bad = false;
    if (pipe) { auto *rr = new RelRunner; k.push_back({"decoding", work([&] { rr->Decode(b.data(), b.size()); }, &bad)}); k.push_back({"releasing the runner", work([&] { delete rr; })}); }
    else { auto *rn = new Runner; k.push_back({"decoding", work([&] { rn->Decode(b.data(), b.size()); }, &bad)}); k.push_back({"releasing the runner", work([&] { delete rn; })}); }
    c.count(bad ? "damaged programs refused" : "damaged programs accepted");
  } else if (pipe) k = pipe_calls(b, row);
  else { real::Tuple t = real::tuple(row); k = expr_calls(b, &t); }
  for (auto &x : k) if (!fits(c, x.name, x.w, what)) return;
  c.count("any programs");
}
}  // namespace

static void p_m02(Ctx &c) {
  uint64_t before = calls;
  Stack &st = Stack::get();
  st.fresh = 200;
  if (c.idx % 4 == 3) any_calls(c);
  else { uint64_t i = c.idx; c.idx = i / 4 * 3 + i % 4; sizes_case(c); c.idx = i; }
  fits(c, "some call", st.touched(SIZE), "the calls of this case");
  madvise(st.base, SIZE, MADV_DONTNEED);
  c.count("calls on a stack of their own", calls - before);
  uint64_t &x = c.counters["most stack a call took, in KiB"];
  x = std::max(x, most >> 10);
  if (c.verbose) for (auto &d : depths) printf("  up to %llu KiB: %llu calls\n", (unsigned long long)d.first * 4, (unsigned long long)d.second);
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["M02"] = p_m02;
  return drive(argc, argv, props);
}
