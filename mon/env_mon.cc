// N01: what comes out depends on the bytes and the row alone, and nothing of the process is changed.  The same calls
// are made as the process is at first, and again after something of it was changed: locale of process, thread or
// streams, errno, floating point flags, what stands in fresh memory and on the unused stack.
#include <xmmintrin.h>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <locale>
#include <dirent.h>
#include <locale.h>
#include <malloc.h>
#include "cases.h"

namespace {
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
struct Ctype : std::ctype<char> {
  static const mask *tab() {
    static mask t[table_size];
    for (size_t i = 0; i < table_size; ++i) t[i] = classic_table()[i];
    for (char ch : {'x', '_', '0', '\xE9'}) t[(unsigned char)ch] = space;
    for (char ch : {' ', '\t', 'a', 'Q'}) t[(unsigned char)ch] = print | punct;
    return t;
  }
  Ctype() : std::ctype<char>(tab()) {}
  char do_toupper(char c) const override { return c == 'i' ? '\xDD' : c; }
  char do_tolower(char c) const override { return c == 'I' ? '\xFD' : c; }
};

std::vector<std::string> names;      // locales that can be had
std::string first_locale;
unsigned first_csr;
std::locale first_cxx;

void find_locales() {
  const char *p = getenv("LOCPATH");
  if (DIR *d = p ? opendir(p) : nullptr) {
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.') continue;
      if (locale_t l = newlocale(LC_ALL_MASK, e->d_name, nullptr)) { freelocale(l); names.push_back(e->d_name); }
    }
    closedir(d);
  }
  std::sort(names.begin(), names.end());
}

// What is set while it lives
struct World {
  enum { PROCESS = 1, THREAD = 2, CXX = 4, FACETS = 8, ERRNO = 16, FLAGS = 32, MEMORY = 64 };
  unsigned what = 0;
  std::string name, text;
  locale_t mine = nullptr, before = nullptr;
  int err = 0;
  std::string process_locale;
  locale_t thread_locale;
  std::locale cxx;

  explicit World(Ctx *c, Rng &r) {
    if (c) {
      what = 1u << r.below(7);
      if (r.one_in(4)) what |= 1u << r.below(7);
      if (names.empty()) what = (what & ~(PROCESS | THREAD | CXX)) | FACETS;
      else name = r.pick(names);
      if (what & CXX) what &= ~FACETS;
      if (what & PROCESS) { setlocale(LC_ALL, name.c_str()); text += " locale of the process " + name; c->count("with another locale of the process"); }
      if (what & THREAD) { mine = newlocale(LC_ALL_MASK, name.c_str(), nullptr); if (mine) before = uselocale(mine); text += " locale of the thread " + name; c->count("with another locale of the thread"); }
      if (what & CXX) { std::locale::global(std::locale(name)); text += " global std::locale " + name; c->count("with another global std::locale"); }
      if (what & FACETS) { std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Ctype)); text += " global std::locale with other facets"; c->count("with other facets of the global std::locale"); }
      if (what & ERRNO) { err = r.pick({ERANGE, EINVAL, EDOM, ENOMEM, EILSEQ}); text += " errno " + std::to_string(err); c->count("with errno set"); }
      if (what & FLAGS) { text += " floating point flags raised"; c->count("with floating point flags raised"); }
      if (what & MEMORY) { mallopt(M_PERTURB, 1 + (int)r.below(255)); text += " fresh memory filled"; c->count("with fresh memory and unused stack filled"); }
    }
    process_locale = setlocale(LC_ALL, nullptr);
    thread_locale = uselocale((locale_t)0);
    cxx = std::locale();
  }
  World(const World &) = delete;
  ~World() {
    if (mine) { uselocale(before); freelocale(mine); }
    if (what & (CXX | FACETS)) std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
    std::locale::global(std::locale::classic());
    if (what & MEMORY) mallopt(M_PERTURB, 0);
    feclearexcept(FE_ALL_EXCEPT);
  }
  __attribute__((noinline)) void dirty() const {
    volatile char buf[24000];
    for (size_t i = 0; i < sizeof buf; i += 1) buf[i] = (char)0xA7;
  }
  void before_call() const {
    errno = err;
    if (what & FLAGS) feraiseexcept(FE_ALL_EXCEPT);
    else feclearexcept(FE_ALL_EXCEPT);
    if (what & MEMORY) dirty();
  }
  // What was changed by a call
  std::string changed() const {
    if (process_locale != setlocale(LC_ALL, nullptr)) return "the locale of the process";
    if (thread_locale != uselocale((locale_t)0)) return "the locale of the thread";
    if (!(cxx == std::locale())) return "the global std::locale";
    if (fegetround() != FE_TONEAREST) return "the rounding mode";
    if ((_mm_getcsr() & 0xFFC0) != (first_csr & 0xFFC0)) return "the floating point control word";
    if (fegetexcept() != 0) return "the floating point exceptions that trap";
    for (int s : {SIGFPE, SIGSEGV, SIGABRT, SIGALRM}) {
      struct sigaction a;
      if (sigaction(s, nullptr, &a) || a.sa_handler != SIG_DFL) return "the handler of signal " + std::to_string(s);
    }
    return "";
  }
};

struct Silence {        // what is written to the standard streams
  int fd[2] = {-1, -1}, to = -1;
  explicit Silence(bool on) {
    if (!on) return;
    to = memfd_create("out", 0);
    if (to < 0) return;
    fflush(stdout);
    for (int i = 0; i < 2; ++i) { fd[i] = dup(i + 1); dup2(to, i + 1); }
  }
  off_t end() {
    if (to < 0) return 0;
    fflush(stdout);
    fflush(stderr);
    off_t n = lseek(to, 0, SEEK_END);
    for (int i = 0; i < 2; ++i) { dup2(fd[i], i + 1); close(fd[i]); }
    close(to);
    to = -1;
    return n;
  }
  ~Silence() { end(); }
};

}  // namespace

static void p_n01(Ctx &c) {
  Rng &r = c.r;
  std::unique_ptr<Case> e = make(r);
  c.at(e->str());
  if (c.want_sample()) c.sample(e->str());
  Silence quiet(!c.verbose);
  std::string bad;
  auto trial = [&](Out &o, Ctx *c1, Ctx *c2, std::string &text) {
    auto catching = [&](auto f) {
      try { f(); } catch (const std::exception &x) { o.raised = typeid(x).name(); return false; }
      return true;
    };
    e->fresh();
    bool on;
    {
      World w(c1, r);
      text = w.text;
      w.before_call();
      on = catching([&] { e->decode(); });
      if (bad.empty()) bad = w.changed();
      if (on && (c1 == c2 || !e->split())) {
        w.before_call();
        catching([&] { e->run(o); });
        if (bad.empty()) bad = w.changed();
        return;
      }
    }
    if (!on) return;
    World w(c2, r);
    text = "decoding with" + text + ", running with" + w.text;
    w.before_call();
    catching([&] { e->run(o); });
    if (bad.empty()) bad = w.changed();
  };
  Out first;
  std::string text;
  trial(first, nullptr, nullptr, text);
  if (!bad.empty()) c.fail("changed", e->str() + "\n changes " + bad);
  c.saw(e->hash());
  c.count(first.raised.empty() ? "cases giving values" : "cases raising an error");
  for (int n = 0; n < 4 && bad.empty(); ++n) {
    Out o;
    int how = (int)r.below(4);
    trial(o, how == 1 ? nullptr : &c, how == 2 ? nullptr : &c, text);
    c.saw(hashv(e->hash() + 7, Val::str(text)));
    if (!bad.empty()) c.fail("changed", e->str() + "\n changes " + bad + " with" + text);
    if (!o.same_as(first)) {
      c.fail("differs", e->str() + "\n gives " + first.str() + "\n but with" + text + ":\n " + o.str());
      break;
    }
  }
  if (quiet.end()) c.fail("output", e->str() + "\n writes to standard output or error");
}

int main(int argc, char **argv) {
  first_csr = 0x1F80;       // what a process starts with
  if (std::string(setlocale(LC_ALL, nullptr)) != "C" || !(std::locale() == std::locale::classic())) { fprintf(stderr, "the locale is not that a program starts with\n"); }
  find_locales();
  std::map<std::string, CaseFn> props;
  props["N01"] = p_n01;
  return drive(argc, argv, props);
}
