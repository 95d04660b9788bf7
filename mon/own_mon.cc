// Monitors of memory: a ledger of every allocation and release in the process (operator new / delete
// replaced).  D02 bounds what decoding requests; R06 checks that everything is released exactly once.
#include <malloc.h>
#include <unistd.h>
#include <functional>
#include <new>
#include "copies.h"
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;

// ---------------------------------------------------------------- ledger

namespace ledger {
static const uint64_t LIVE1 = 0x4C49564531313131ull, LIVEA = 0x4C49564541414141ull, DEAD = 0xDEADDEADDEADDEADull;
struct Head { uint64_t magic; uint64_t size; };   // 16 bytes ahead of the block (64 for over-aligned ones)
static bool on = false;                 // windows are measured
static int64_t live_bytes = 0, live_blocks = 0, peak = 0;
static uint64_t largest = 0, total_allocs = 0, total_bytes = 0;
static const char *bad = nullptr;       // first misuse seen
static const size_t QN = 1 << 14;
static void *quarantine[QN];
static size_t qpos = 0;
// Allocation failures on demand
static bool window = false;             // the library is at work, its requests are counted
static uint64_t requests = 0;           // since the window was opened
static int64_t fail_at = -1;            // this request of the window fails
static bool fail_on = false;            // and so do all after it
static uint64_t injected = 0;

static void *alloc(size_t n, uint64_t kind, size_t align = 16) {
  size_t off = align > 16 ? align : 16;
  char *p;
  if (n > (1ull << 40)) throw std::bad_alloc();
  if (window) {
    int64_t i = (int64_t)requests++;
    if (fail_at >= 0 && (i == fail_at || (fail_on && i > fail_at))) { ++injected; throw std::bad_alloc(); }
  }
  if (on) {
    ++total_allocs;
    total_bytes += n;
    if (n > largest) largest = n;
    if (n > (3ull << 30)) throw std::bad_alloc();   // do not really take it
  }
  p = (char *)(off > 16 ? memalign(align, n + off) : malloc(n + off));
  if (!p) throw std::bad_alloc();
  Head *h = (Head *)(p + off - 16);
  h->magic = kind;
  h->size = n;
  live_bytes += (int64_t)n;
  ++live_blocks;
  if (on && live_bytes > peak) peak = live_bytes;
  if (n < 4096) memset(p + off, 0xA5, n);           // nothing may rely on fresh memory being zero
  return p + off;
}
static void release(void *q, uint64_t kind, size_t align = 16) {
  if (!q) return;
  size_t off = align > 16 ? align : 16;
  Head *h = (Head *)((char *)q - 16);
  if (h->magic == DEAD) { if (!bad) bad = "a block was released twice"; return; }
  if (h->magic != LIVE1 && h->magic != LIVEA) { if (!bad) bad = "something that was never allocated was released"; return; }
  if (h->magic != kind) { if (!bad) bad = "a block was released with the wrong form of delete"; }
  h->magic = DEAD;
  live_bytes -= (int64_t)h->size;
  --live_blocks;
  size_t n = h->size;
  memset(q, 0xDD, n < 4096 ? n : 4096);
  void *base = (char *)q - off;
  if (n > 65536) { free(base); return; }
  void *&slot = quarantine[qpos++ % QN];
  void *old = slot;
  slot = base;
  if (old) free(old);
}
static bool is_dead(const void *q) { return ((const Head *)((const char *)q - 16))->magic == DEAD; }
}  // namespace ledger

void *operator new(size_t n) { return ledger::alloc(n, ledger::LIVE1); }
void *operator new[](size_t n) { return ledger::alloc(n, ledger::LIVEA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return ledger::alloc(n, ledger::LIVE1); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return ledger::alloc(n, ledger::LIVEA); } catch (...) { return nullptr; } }
void *operator new(size_t n, std::align_val_t a) { return ledger::alloc(n, ledger::LIVE1, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return ledger::alloc(n, ledger::LIVEA, (size_t)a); }
void operator delete(void *p) noexcept { ledger::release(p, ledger::LIVE1); }
void operator delete[](void *p) noexcept { ledger::release(p, ledger::LIVEA); }
void operator delete(void *p, size_t) noexcept { ledger::release(p, ledger::LIVE1); }
void operator delete[](void *p, size_t) noexcept { ledger::release(p, ledger::LIVEA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { ledger::release(p, ledger::LIVE1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { ledger::release(p, ledger::LIVEA); }
void operator delete(void *p, std::align_val_t a) noexcept { ledger::release(p, ledger::LIVE1, (size_t)a); }
void operator delete[](void *p, std::align_val_t a) noexcept { ledger::release(p, ledger::LIVEA, (size_t)a); }
void operator delete(void *p, size_t, std::align_val_t a) noexcept { ledger::release(p, ledger::LIVE1, (size_t)a); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { ledger::release(p, ledger::LIVEA, (size_t)a); }

// ---------------------------------------------------------------- D02

struct Window {
  int64_t peak;
  uint64_t largest, total;
  bool raised;
};
static Window measure(const Bytes &b, bool pipe) {
  Window w{0, 0, 0, false};
  dingodb::expr::Runner er;
  RelRunner rr;
  int64_t base = ledger::live_bytes;
  ledger::peak = base;
  ledger::largest = ledger::total_bytes = 0;
  ledger::on = true;
  try {
    if (pipe) rr.Decode(b.data(), b.size()); else er.Decode(b.data(), b.size());
  } catch (...) {
    w.raised = true;
  }
  ledger::on = false;
  w.peak = ledger::peak - base;
  w.largest = ledger::largest;
  w.total = ledger::total_bytes;
  return w;
}
static void d02_check(Ctx &c, const Bytes &b, bool pipe, bool refusal) {
  c.saw(fnv(b.data(), b.size(), pipe ? 7 : 11), b.size() > 0);
  if (c.verbose || (c.evaluations & 15) == 0) c.at(std::string(pipe ? "pipeline " : "expression ") + hex(b));
  Window w = measure(b, pipe);
  uint64_t n = b.size();
  uint64_t lim_peak = pipe ? 65536 + 1024 * n : 16384 + 256 * n, lim_one = 16384 + 128 * n;
  c.count(w.raised ? "refused" : "accepted");
  uint64_t per = n ? (uint64_t)w.peak / n : 0;
  uint64_t &most = c.counters[pipe ? "most bytes requested per input byte (pipelines of 256 bytes and more)" : "most bytes requested per input byte (expressions of 256 bytes and more)"];
  if (n >= 256) most = std::max(most, per);
  if ((uint64_t)w.peak > lim_peak || w.largest > lim_one) {
    c.fail(w.largest > lim_one ? "largest" : "peak", "decoding " + std::to_string(n) + " bytes requested at most " + std::to_string(w.peak) + " bytes at a time, the largest request being " + std::to_string(w.largest) + ": " + (pipe ? "pipeline " : "expression ") + hex(b));
    return;
  }
  if (refusal) {
    if (!w.raised) { c.fail("not-refused", "an announced length or count beyond the input must be refused: " + hex(b)); return; }
    if (w.largest > 2048 + 24 * n) { c.fail("requested-before-refusal", "memory for an announced length or count was requested (" + std::to_string(w.largest) + " bytes) although it exceeds the input: " + hex(b)); return; }
    c.count("announced sizes refused");
  }
  if (c.want_sample()) c.sample(hex(b, 40) + ": " + std::to_string(n) + " bytes, peak " + std::to_string(w.peak) + ", largest request " + std::to_string(w.largest));
}
static uint64_t gen_count(Rng &r, uint64_t have) {
  switch (r.below(8)) {
  case 6: return ((1 + (r.next() >> r.below(32)) % 0x7FFFFFFFull) << 32) + (r.one_in(2) ? r.below(have + 2) : r.below(0x80000000ull));  // small when truncated to 32 bits
  case 7: return (1ull << (31 + r.below(33))) + r.pick<uint64_t>({0, 0, 1, have, have ? have - 1 : 0, 0x7FFFFFFF}) - r.below(2);
  case 0: return have + 1 + r.below(4);
  case 1: return have * (2 + r.below(100)) + 1;
  case 2: return r.pick<uint64_t>({0x7FFFFFFFull, 0x7FFFFFFEull, 0x40000000ull, 0x20000000ull, 0x3FFFFFFFull, 0x10000000ull, 0x1FFFFFFFull, 0x7FFFFFFFull / 4 + 1, 100000000, 1000000, 65536, 16384});
  case 3: return have + (1ull << r.below(31));
  case 4: return have + 1 + r.below(100000);
  default: return have + 1 + r.below(0x7FFFFFFFull - have - 1);
  }
}
// An announced size that does not fit what remains, behind bytes it would fit if they counted: what is requested
// before it is refused is the same whatever size was announced.
static void d02_behind(Ctx &c) {
  Rng &r = c.r;
  const bool pipe = !r.one_in(4);
  const size_t front = 500 + heavy(r, 60000);
  Bytes head, tail;
  int what = (int)r.below(3);    // what is in front: a long string, many operators, few long columns
  if (pipe) head.push_back(0x71);
  if (what == 0) { head.push_back(0x17); put_varint(head, front); head.resize(head.size() + front, 'x'); head.push_back(0x91); head.push_back(0x07); if (!pipe) { head.pop_back(); head.pop_back(); } }
  else for (size_t i = 0; i < front; ++i) head.push_back(0x13);
  if (pipe) head.push_back(0);
  int kind = pipe ? (int)r.below(4) : 3;
  if (kind == 0) { head.push_back(0x73); head.push_back(0x61); }
  else if (kind == 1) { head.push_back(0x73); head.push_back(0x61); head.push_back(1); head.push_back(0); }
  else if (kind == 2) head.push_back(0x74);
  else { if (pipe) head.push_back(r.one_in(2) ? 0x71 : 0x72); head.push_back(0x17); }
  size_t have = r.below(20);
  for (size_t i = 0; i < have; ++i) tail.push_back(kind == 0 ? 0x00 : kind == 3 ? 'y' : 0x10);
  uint64_t counts[] = {have + 1, front / 2 + have + 1, front + have + r.below(10), head.size() + have, (uint64_t)1 << (21 + r.below(40))};
  Window first{0, 0, 0, false};
  for (int i = 0; i < 5; ++i) {
    Bytes b = head;
    put_varint(b, counts[i]);
    b.insert(b.end(), tail.begin(), tail.end());
    c.saw(fnv(b.data(), b.size(), 13));
    c.at(std::string(pipe ? "pipeline " : "expression ") + hex(b, 60) + " ... announcing " + std::to_string(counts[i]) + ", " + std::to_string(have) + " remain");
    Window w = measure(b, pipe);
    auto say = [&] { return std::string(pipe ? "pipeline" : "expression") + " of " + std::to_string(b.size()) + " bytes " + hex(head, 40) + ", then " + (kind == 0 ? "group columns" : kind == 3 ? "a string" : "aggregations") + ", announcing " + std::to_string(counts[i]) + " where " + std::to_string(have) + " bytes remain"; };
    if (!w.raised) { c.fail("not-refused", "an announced length or count beyond the input must be refused: " + say()); return; }
    if (i == 0) { first = w; continue; }
    if (w.largest > first.largest + 512 || w.total > first.total + 2048) {
      c.fail("requested-before-refusal", say() + ": " + std::to_string(w.total) + " bytes requested (at once " + std::to_string(w.largest) + "), but " + std::to_string(first.total) + " (at once " + std::to_string(first.largest) + ") when " + std::to_string(counts[0]) + " are announced");
      return;
    }
    c.count("announced sizes refused behind bytes they would fit");
  }
}
static void p_d02(Ctx &c) {
  Rng &r = c.r;
  if (c.idx % 8 == 3) return d02_behind(c);
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  for (int rep = 0; rep < 8; ++rep) {
    Bytes b;
    switch (r.below(6)) {
    case 0: case 1: case 2: {  // an announced count or length beyond the input, at some place
      bool pipe = r.one_in(4) ? false : true;
      Bytes tail;
      for (size_t k = r.one_in(4) ? heavy(r, 3000) : r.below(20); k--;) tail.push_back(r.pick<uint8_t>({0x00, 0x01, 0x10, 0x11, 0x02, 0x7F}));
      int kind = (int)r.below(3);
      if (!pipe) kind = 2;
      if (pipe) b = encode_padded(r, gen_pipe(r, types, r.below(4), PipeOpt()), false);
      if (kind == 0) {        // group columns
        b.push_back(0x73); b.push_back(0x61);
        put_varint(b, gen_count(r, tail.size()), (int)r.below(3));
      } else if (kind == 1) { // aggregations
        if (r.one_in(2)) { b.push_back(0x73); b.push_back(0x61); size_t g = r.below(4); put_varint(b, g); for (size_t i = 0; i < g; ++i) b.push_back((uint8_t)i); }
        else b.push_back(0x74);
        put_varint(b, gen_count(r, tail.size()), (int)r.below(3));
        for (auto &x : tail) x = 0x10;     // each byte one aggregation
      } else {                // string
        if (pipe) b.push_back(r.one_in(2) ? 0x71 : 0x72);
        for (size_t i = r.below(5); i--;) encode_const(b, gen_val(r, ALL_T[r.below(6)], 8));
        b.push_back(0x17);
        put_varint(b, gen_count(r, tail.size()), (int)r.below(3));
      }
      b.insert(b.end(), tail.begin(), tail.end());
      d02_check(c, b, pipe, true);
      break;
    }
    case 3: {  // many tiny operators
      bool pipe = r.one_in(2);
      size_t n = r.one_in(4) ? heavy(r, 40000) : r.below(500);
      Bytes unit = pipe ? r.pick<Bytes>({{0x71, 0x00}, {0x72, 0x00}, {0x74, 0x00}, {0x73, 0x61, 0x00, 0x00}, {0x74, 0x01, 0x10}, {0x71, 0x13, 0x00}, {0x74, 0x02, 0x11, 0x00, 0x42, 0x01, 0x00}})
                        : r.pick<Bytes>({{0x01}, {0x13}, {0x51}, {0x11, 0x05}, {0x17, 0x00}, {0x17, 0x01, 0x41}, {0x31, 0x00}, {0x83, 0x01}, {0x37, 0xFF, 0xFF, 0xFF, 0xFF, 0x07}, {0x15, 0, 0, 0, 0, 0, 0, 0, 0}});
      for (size_t i = 0; i < n; ++i) b.insert(b.end(), unit.begin(), unit.end());
      if (r.one_in(4)) { b.push_back(0xEE); }     // and refuse at the end
      d02_check(c, b, pipe, false);
      break;
    }
    case 4: {  // valid, long counts that are all there
      if (r.one_in(2)) {
        size_t n = heavy(r, 20000);
        b = {0x73, 0x61};
        put_varint(b, n);
        for (size_t i = 0; i < n; ++i) put_varint(b, r.below(300));
        size_t na = heavy(r, 3000);
        put_varint(b, na);
        for (size_t i = 0; i < na; ++i) b.push_back(0x10);
        d02_check(c, b, true, false);
      } else {
        std::string s = gen_bytes(r, heavy(r, 100000));
        encode_const(b, Val::str(s));
        d02_check(c, b, false, false);
      }
      break;
    }
    default: {
      bool pipe = r.one_in(2);
      if (pipe) b = encode_padded(r, gen_pipe(r, types, 1 + r.below(5), PipeOpt()));
      else { GenOpt o; o.types = &types; b = encode_padded(r, gen_expr(r, ALL_T[r.below(6)], heavy(r, 300), o)); }
      for (int k = (int)r.below(4); k-- && !b.empty();) { size_t at = r.below(b.size()); if (r.one_in(2)) b[at] = (uint8_t)r.next(); else b.insert(b.begin() + at, (uint8_t)(0x80 | r.next())); }
      if (r.one_in(4)) { b.clear(); for (size_t i = heavy(r, 4000); i--;) b.push_back((uint8_t)r.next()); }
      d02_check(c, b, pipe, false);
    }
    }
    if (c.nviol) return;
  }
}

// ---------------------------------------------------------------- R06

struct Step {
  enum K { DECODE, PUT, GET, DRAIN, FRESH, EDECODE, EBIND, ERUN, EFRESH } k;
  Bytes b;
  Row row;
  int n = 0;
};
struct Tally {
  uint64_t puts = 0, returned = 0, errors = 0, decodes = 0, refused = 0, gets = 0, runs = 0;
  std::string fault;
};

// Runs the script on the real code; all memory it takes is released at its end.
static Tally play(const std::vector<Step> &script, bool keep, const std::vector<Row> &rows) {
  Tally t;
  const char *fault = nullptr;
  size_t fault_step = 0;
  {
    std::vector<const real::Tuple *> kept;
    std::vector<size_t> kept_hash;
    std::unique_ptr<RelRunner> rr(new RelRunner);
    std::unique_ptr<dingodb::expr::Runner> er(new dingodb::expr::Runner);
    std::vector<std::unique_ptr<real::Tuple>> bound;
    for (auto &r : rows) bound.emplace_back(real::new_tuple(r));
    auto out = [&](const real::Tuple *x) {
      if (!x) return false;
      ++t.returned;
      if (ledger::is_dead(x)) { if (!fault) fault = "a row returned to the caller had already been released"; return true; }
      if (keep) { kept.push_back(x); kept_hash.push_back(hashv(0, real::row(*x))); }
      else delete x;
      return true;
    };
    for (size_t i = 0; i < script.size(); ++i) {
      const Step &s = script[i];
      try {
        switch (s.k) {
        case Step::DECODE: ++t.decodes; rr->Decode(s.b.data(), s.b.size()); break;
        case Step::PUT: {
          ++t.puts;
          auto *x = real::new_tuple(s.row);
          out(rr->Put(x));
          break;
        }
        case Step::GET: for (int k = 0; k < s.n; ++k) { ++t.gets; if (!out(rr->Get())) break; } break;
        case Step::DRAIN: for (int k = 0; k < 100000; ++k) { ++t.gets; if (!out(rr->Get())) break; } break;
        case Step::FRESH: rr.reset(); rr.reset(new RelRunner); break;
        case Step::EDECODE: ++t.decodes; er->Decode(s.b.data(), s.b.size()); break;
        case Step::EBIND: er->BindTuple(s.n < 0 ? nullptr : bound[s.n].get()); break;
        case Step::ERUN: ++t.runs; er->Run(); { auto v = er->Get(); std::unique_ptr<real::Tuple> a(er->GetAll()); } break;
        case Step::EFRESH: er.reset(); er.reset(new dingodb::expr::Runner); break;
        }
      } catch (const std::exception &) {
        if (s.k == Step::DECODE || s.k == Step::EDECODE) ++t.refused; else ++t.errors;
      }
      if (ledger::bad && !fault) { fault = ledger::bad; fault_step = i; }
    }
    rr.reset();
    er.reset();
    // returned rows are the caller's: they survive the runner unchanged
    for (size_t i = 0; i < kept.size(); ++i) {
      if (ledger::is_dead(kept[i])) { if (!fault) fault = "a row returned to the caller was released by the pipeline"; continue; }
      if (hashv(0, real::row(*kept[i])) != kept_hash[i]) { if (!fault) fault = "a row returned to the caller changed later"; continue; }
      delete kept[i];
    }
    for (size_t i = 0; i < bound.size(); ++i)
      if (ledger::is_dead(bound[i].get())) { if (!fault) fault = "a tuple merely bound was released"; bound[i].release(); }
  }
  if (ledger::bad && !fault) { fault = ledger::bad; fault_step = script.size(); }
  ledger::bad = nullptr;
  if (fault) t.fault = std::string(fault) + " (seen at step " + std::to_string(fault_step) + ")";
  return t;
}

static void p_r06(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  std::vector<Step> script;
  std::vector<Row> rows{gen_row(r, types, 4), gen_row(r, types, 4)};
  std::string text;
  int steps = 3 + (int)r.below(r.one_in(10) ? 120 : 25);
  bool decoded = false, edecoded = false;
  Pipe cur;
  auto add = [&](Step s, const std::string &d) { script.push_back(std::move(s)); if (text.size() < 6000) text += "\n " + d; };
  if (r.one_in(3)) {   // decoding only, valid and cut at every place
    Bytes b = encode_padded(r, gen_pipe(r, types, 1 + r.below(4), PipeOpt()));
    Bytes e; { GenOpt o; o.types = &types; e = encode_padded(r, gen_expr(r, ALL_T[r.below(6)], 1 + r.below(20), o)); }
    for (size_t n = 0; n <= b.size() && n < 250; ++n) { Step s; s.k = Step::DECODE; s.b.assign(b.begin(), b.begin() + n); add(s, "decode " + hex(s.b, 60)); }
    for (size_t n = 0; n <= e.size() && n < 250; ++n) { Step s; s.k = Step::EDECODE; s.b.assign(e.begin(), e.begin() + n); add(s, "expression decode " + hex(s.b, 60)); }
    for (int i = 0; i < 20; ++i) { Step s; s.k = Step::DECODE; s.b = b; s.b[r.below(s.b.size())] = (uint8_t)r.next(); add(s, "decode " + hex(s.b, 60)); }
    steps = 0;
    c.count("truncation scripts");
  }
  for (int i = 0; i < steps; ++i) {
    Step s;
    switch (r.below(15)) {
    case 0: case 1: {
      PipeOpt po;
      po.wild = r.one_in(2);
      po.max_size = 8;
      cur = gen_pipe(r, types, 1 + r.below(5), po);
      if (r.one_in(4)) for (auto &st : cur) if ((st.k == Stage::FILTER || (st.k == Stage::PROJECT && &st == &cur.back())) && r.one_in(2)) st.prog.push_back(o_((int)r.below(table().ops.size())));  // may fail at run time
      s.k = Step::DECODE;
      s.b = encode_padded(r, cur);
      add(s, "decode " + show(cur) + " " + hex(s.b, 80));
      decoded = true;
      break;
    }
    case 2: {
      s.k = Step::DECODE;
      s.b = encode_padded(r, gen_pipe(r, types, r.below(4), PipeOpt()), false);
      Bytes bad = r.pick<Bytes>({{0x00}, {0x75}, {0x71, 0xE0}, {0x72, 0x17, 0x02, 0x41}, {0x73, 0x62}, {0x73, 0x61, 0x02, 0x01}, {0x73, 0x61, 0x01, 0x00, 0x03, 0x10, 0x55}, {0x74, 0x02, 0x10}, {0x74, 0x03, 0x21, 0x00, 0x10, 0x99}, {0x73}, {0x74, 0x7F}, {0x73, 0x61, 0x01, 0x00, 0x02, 0x10, 0x11}, {0x72, 0x11, 0x05, 0x17, 0x01, 0x41, 0x84, 0x07}});
      s.b.insert(s.b.end(), bad.begin(), bad.end());
      add(s, "decode " + hex(s.b, 80));
      decoded = false;
      break;
    }
    case 10: if (!r.one_in(6)) break; s.k = Step::DECODE; add(s, "decode nothing"); decoded = false; break;
    case 3: if (!decoded && !r.one_in(3)) break; s.k = Step::DRAIN; add(s, "drain"); break;
    case 4: s.k = Step::GET; s.n = 1 + (int)r.below(3); if (decoded) add(s, "get x" + std::to_string(s.n)); break;
    case 5: if (r.one_in(3)) { s.k = Step::FRESH; add(s, "destroy the pipeline runner"); decoded = false; } break;
    case 6: {
      GenOpt o;
      o.types = &types;
      Prog p = gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, 60), o);
      if (r.one_in(4)) p.push_back(o_((int)r.below(table().ops.size())));
      s.k = Step::EDECODE;
      s.b = encode_padded(r, p);
      if (r.one_in(4)) { Bytes bad = r.pick<Bytes>({{0xE0}, {0x14, 0x00}, {0x17, 0x05, 0x41}, {0x83}, {0x16}}); s.b.insert(s.b.end(), bad.begin(), bad.end()); edecoded = false; } else edecoded = true;
      add(s, "expression decode " + hex(s.b, 80));
      s = Step();
      s.k = Step::EBIND;
      s.n = (int)r.below(3) - 1;
      add(s, "bind " + std::to_string(s.n));
      break;
    }
    case 7: case 8: if (edecoded) { s.k = Step::ERUN; add(s, "run"); } break;
    case 9: if (r.one_in(4)) { s.k = Step::EFRESH; add(s, "destroy the expression runner"); edecoded = false; } break;
    default: {
      if (!decoded && !r.one_in(6)) break;
      if (!decoded) {  // no pipeline at all, or the remains of a refused one
        Step f; f.k = Step::FRESH; add(f, "destroy the pipeline runner");
      }
      int n = 1 + (int)r.below(6);
      for (int k = 0; k < n; ++k) {
        s = Step();
        s.k = Step::PUT;
        s.row = gen_row(r, types, 4, 30, 1, 3);
        if (r.one_in(10)) {   // elements of other types than the pipeline expects
          std::vector<T> other = types;
          for (auto &t : other) if (r.one_in(2)) t = ALL_T[r.below(6)];
          s.row = gen_row(r, other, 4, 30, 1, 3);
        }
        add(s, "put " + show(s.row));
      }
    }
    }
  }
  bool keep = r.one_in(2);
  c.at("script:" + text);
  Tally t;
  int64_t grew_b[3], grew_n[3];
  for (int k = 0; k < 3; ++k) {
    int64_t b0 = ledger::live_bytes, n0 = ledger::live_blocks;
    uint64_t q = 0;
    {
      Tally x = play(script, keep, rows);
      q = x.fault.size();
      if (k == 0) t = std::move(x);
      else if (q && t.fault.empty()) t.fault = x.fault;
    }
    grew_b[k] = ledger::live_bytes - b0;
    grew_n[k] = ledger::live_blocks - n0;
    if (q) break;
  }
  c.saw(fnv(text.data(), text.size(), c.idx), script.size() > 1);
  c.count("steps", script.size());
  c.count("rows put", t.puts);
  c.count("rows returned", t.returned);
  c.count("errors while running", t.errors);
  c.count("decodes", t.decodes);
  c.count("decodes refused", t.refused);
  if (!t.fault.empty()) { c.fail(t.fault.substr(0, t.fault.find(" (seen")), t.fault + "\n script:" + text); return; }
  // caches that fill once are not leaks: the last two repetitions count
  if (grew_n[1] > 0 && grew_n[2] > 0) {
    c.fail("leak", "each repetition left " + std::to_string(grew_n[2]) + " blocks (" + std::to_string(grew_b[2]) + " bytes) behind, with the runners and returned rows released\n script:" + text);
    return;
  }
  if (c.want_sample() && text.size() < 700) c.sample("script:" + text);
}

// ---------------------------------------------------------------- F01

// Runs f, in which request number k (from 0 on; none if negative) of memory fails, or all from there on.
struct Guarded {
  bool raised = false;
  uint64_t requests = 0, injected = 0;
};
template <typename F>
static Guarded guarded(int64_t k, bool on, F f) {
  Guarded g;
  ledger::requests = ledger::injected = 0;
  ledger::fail_at = k;
  ledger::fail_on = on;
  ledger::window = true;
  try {
    f();
    ledger::window = false;
  } catch (const std::exception &) {
    ledger::window = false;
    g.raised = true;
  }
  g.requests = ledger::requests;
  g.injected = ledger::injected;
  return g;
}

// One expression: 0 construct, 1 decode, 2 run, 3 get, 4 get all.
struct EPlay {
  const Bytes &b;
  const real::Tuple *row;
  uint64_t requests = 0;     // of the step
  bool hit = false, raised = false;
  struct Out {
    bool refused = false, failed = false;
    int64_t used = -1;
    uint64_t h = 0;
    bool operator==(const Out &o) const { return refused == o.refused && failed == o.failed && used == o.used && h == o.h; }
  };
  static uint64_t hash(const real::Tuple &t) { return hashv(17, real::row(t)); }
  Out plain(dingodb::expr::Runner &rn) const {
    Out o;
    try { o.used = rn.Decode(b.data(), b.size()) - b.data(); } catch (const std::exception &) { o.refused = true; return o; }
    run(rn, o);
    return o;
  }
  void run(dingodb::expr::Runner &rn, Out &o) const {
    try {
      rn.BindTuple(row);
      rn.Run();
      std::unique_ptr<real::Tuple> a(rn.GetAll());
      o.h = hash(*a);
      o.failed = false;
    } catch (const std::exception &) { o.failed = true; o.h = 0; }
  }
  // Returns what was wrong; after: 0 leave it there, 1 the step again, 2 everything again.
  const char *play(int step, int64_t k, bool on, int after, const Out &ref) {
    std::unique_ptr<dingodb::expr::Runner> rn;
    Guarded g;
    if (step == 0) {
      dingodb::expr::Runner *x = nullptr;
      g = guarded(k, on, [&] { x = new dingodb::expr::Runner; });
      rn.reset(x);
      note(g);
      if (g.raised && !g.injected) return "creating a runner raised an error";
      if (!rn) rn.reset(new dingodb::expr::Runner);
      return plain(*rn) == ref ? nullptr : "the runner created gives another result";
    }
    rn.reset(new dingodb::expr::Runner);
    Out o;
    if (step == 1) {
      g = guarded(k, on, [&] { o.used = rn->Decode(b.data(), b.size()) - b.data(); });
      note(g);
      if (!g.injected && g.raised != ref.refused) return "decoding differs without any failure";
      if (g.injected && !g.raised && ref.refused) return "decoding took bytes for good because memory failed";
      if (!g.raised && o.used != ref.used) return "decoding ended elsewhere because memory failed";
      if (!g.raised) { run(*rn, o); return o == ref ? nullptr : "what was decoded although memory failed gives another result"; }
    } else {
      try { rn->Decode(b.data(), b.size()); } catch (const std::exception &) { return nullptr; }
      o.used = ref.used;
      rn->BindTuple(row);
      if (step == 2) {
        g = guarded(k, on, [&] { rn->Run(); });
        note(g);
        if (!g.raised) {
          try { std::unique_ptr<real::Tuple> a(rn->GetAll()); o.h = hash(*a); } catch (const std::exception &) { o.failed = true; }
          if (!(o == ref)) return g.injected ? "running gave a wrong result because memory failed" : "running differs without any failure";
        } else if (!g.injected && !ref.failed) return "running differs without any failure";
      } else {
        if (ref.failed) return nullptr;
        rn->Run();
        if (step == 3) {
          real::Tuple v;
          v.reserve(1);
          g = guarded(k, on, [&] { v.push_back(rn->Get()); });
          note(g);
          if (!g.raised) {
            std::unique_ptr<real::Tuple> a(rn->GetAll());
            if (a->empty() || hash(real::Tuple{a->back()}) != hash(v)) return "the result asked for is not the last one";
          }
        } else {
          real::Tuple *a = nullptr;
          g = guarded(k, on, [&] { a = rn->GetAll(); });
          note(g);
          std::unique_ptr<real::Tuple> holder(a);
          if (!g.raised && hash(*a) != ref.h) return g.injected ? "all results are wrong because memory failed" : "all results differ without any failure";
        }
        if (g.raised && after == 1) { try { std::unique_ptr<real::Tuple> a(rn->GetAll()); if (hash(*a) != ref.h) return "the results are lost after an error in asking for them"; } catch (const std::exception &) { return "results can not be asked for again"; } }
      }
    }
    if (after == 0) return nullptr;
    if (after == 1 && step == 2) { o = Out(); o.used = ref.used; run(*rn, o); return o == ref ? nullptr : "running again after the error gives another result"; }
    return plain(*rn) == ref ? nullptr : "the runner gives another result after the error";
  }
  void note(const Guarded &g) { requests = g.requests; hit = g.injected > 0; raised = g.raised; }
};

// One pipeline.  Steps: 0 construct, 1 decode, 2 .. put each row, then get until nothing comes.
struct RPlay {
  const Bytes &b;
  const std::vector<Row> &rows;
  uint64_t requests = 0;
  bool hit = false, raised = false;
  void note(const Guarded &g) { requests = g.requests; hit = g.injected > 0; raised = g.raised; }
  struct Out {
    bool refused = false;
    uint64_t h = 0, n = 0, gets = 0, errors = 0;      // rows that came out, in any order
    bool same(const Out &o) const { return refused == o.refused && h == o.h && n == o.n && errors == o.errors; }
  };
  static void take(const real::Tuple *t, Out &o) {
    if (!t) return;
    uint64_t x = hashv(23, real::row(*t));
    o.h += x * (x | 1);
    ++o.n;
    delete t;
  }
  void drain(RelRunner &rr, Out &o) const {
    for (int i = 0; i < 5000; ++i) {
      ++o.gets;
      const real::Tuple *t = nullptr;
      try { t = rr.Get(); } catch (const std::exception &) { ++o.errors; continue; }
      if (!t) return;
      take(t, o);
    }
  }
  Out plain(RelRunner &rr) const {
    Out o;
    try { rr.Decode(b.data(), b.size()); } catch (const std::exception &) { o.refused = true; return o; }
    for (auto &r : rows) { try { take(rr.Put(real::new_tuple(r)), o); } catch (const std::exception &) { ++o.errors; } }
    drain(rr, o);
    return o;
  }
  const char *play(size_t step, int64_t k, bool on, int after, const Out &ref) {
    std::unique_ptr<RelRunner> rr;
    Out o;
    Guarded g;
    if (step == 0) {
      RelRunner *x = nullptr;
      g = guarded(k, on, [&] { x = new RelRunner; });
      rr.reset(x);
      note(g);
      if (!rr) rr.reset(new RelRunner);
      return plain(*rr).same(ref) ? nullptr : "the runner created gives other rows";
    }
    rr.reset(new RelRunner);
    if (step == 1) {
      g = guarded(k, on, [&] { rr->Decode(b.data(), b.size()); });
      note(g);
      if (!g.injected && g.raised != ref.refused) return "decoding differs without any failure";
      if (!g.raised && ref.refused) return "decoding took bytes for good because memory failed";
      if (g.raised) {
        if (after == 0) return nullptr;
        return plain(*rr).same(ref) ? nullptr : "the runner gives other rows after an error in decoding";
      }
    } else {
      try { rr->Decode(b.data(), b.size()); } catch (const std::exception &) { return nullptr; }
    }
    size_t at = 2;
    bool done = false;
    for (auto &r : rows) {
      auto *x = real::new_tuple(r);
      const real::Tuple *y = nullptr;
      if (at++ == step) {
        g = guarded(k, on, [&] { y = rr->Put(x); });
        note(g);
        done = true;
        if (g.raised && !ledger::is_dead(x)) { return "the row put was not released when putting it raised an error"; }
        if (g.raised && !g.injected) ++o.errors;
        if (!g.raised) take(y, o);
      } else {
        try { y = rr->Put(x); take(y, o); } catch (const std::exception &) { ++o.errors; }
      }
    }
    if (!done && step != 1) {
      for (; at < step; ++at) { try { const real::Tuple *t = rr->Get(); if (!t) break; take(t, o); } catch (const std::exception &) { ++o.errors; } }
      const real::Tuple *y = nullptr;
      g = guarded(k, on, [&] { y = rr->Get(); });
      note(g);
      if (g.raised && !g.injected) ++o.errors;
      if (!g.raised) take(y, o);
    }
    if (after == 0) return nullptr;
    drain(*rr, o);
    if (!g.raised && !o.same(ref)) return g.injected ? "other rows came because memory failed" : "other rows came without any failure";
    Out again = plain(*rr);
    return again.same(ref) ? nullptr : "after decoding again the runner gives other rows";
  }
};

template <typename P, typename O>
static bool f01_step(Ctx &c, P &p, size_t step, const O &ref, const std::string &text) {
  Rng &r = c.r;
  auto attempt = [&](int64_t k, bool on, int after) -> bool {
    if (c.verbose || r.one_in(8)) c.at("step " + std::to_string(step) + ", request " + std::to_string(k) + (on ? " and all later ones" : "") + " fails, then " + std::to_string(after) + ": " + text);
    const char *wrong = nullptr;
    int grew = 0;
    int64_t by = 0;
    for (int rep = 0; rep < 3; ++rep) {
      int64_t n0 = ledger::live_blocks;
      wrong = p.play((int)step, k, on, after, ref);
      by = ledger::live_blocks - n0;
      if (wrong || ledger::bad || by <= 0) break;
      ++grew;      // may be something kept for good once
    }
    auto where = [&] { return std::string(" (step ") + std::to_string(step) + ", request " + std::to_string(k) + (on ? " and all later ones" : "") + (k < 0 ? ": no failure" : "") + ", then " + std::to_string(after) + ")\n " + text; };
    if (ledger::bad) { std::string w = ledger::bad; ledger::bad = nullptr; c.fail(w, w + where()); return false; }
    if (wrong) { c.fail(wrong, wrong + where()); return false; }
    if (grew == 3) { c.fail("leak", std::to_string(by) + " blocks remain each time" + where()); return false; }
    return true;
  };
  if (!attempt(-1, false, 2)) return false;
  int64_t n = (int64_t)p.requests;
  c.counters["most requests in one step"] = std::max(c.counters["most requests in one step"], (uint64_t)n);
  int64_t stride = n > 48 ? n / 48 : 1;
  for (int64_t k = stride > 1 ? (int64_t)r.below(stride) : 0; k < n; k += stride > 1 ? 1 + (int64_t)r.below(2 * stride - 1) : 1) {
    bool on = r.one_in(3);
    if (!attempt(k, on, (int)r.below(3))) return false;
    if (p.hit) { c.count("failures of memory injected"); c.count(p.raised ? "calls that raised an error then" : "calls that succeeded nevertheless"); }
    c.saw(fnv(text.data(), text.size(), step * 1000003 + (uint64_t)k * 2 + on), true);
  }
  return true;
}
static void p_f01(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  Bytes bad = r.pick<Bytes>({{0xE0}, {0x14, 0x00}, {0x17, 0x05, 0x41}, {0x83}, {0x16}, {0x11, 0xFF}});
  if (r.one_in(2)) {
    bad = {r.pick<uint8_t>({0xE0, 0x16, 0x54})};
    for (size_t n = r.below(60); n--;) bad.push_back((uint8_t)r.next());   // the error tells of the rest
  }
  if (r.one_in(2)) {
    GenOpt o;
    o.types = &types;
    o.maxstr = 40;
    Prog q;
    int n = r.one_in(3) ? 1 + (int)r.below(4) : 1;
    for (int i = 0; i < n; ++i) { Prog x = gen_expr(r, r.one_in(2) ? STR : ALL_T[r.below(6)], 1 + heavy(r, 60), o); q.insert(q.end(), x.begin(), x.end()); }
    if (r.one_in(8)) q.push_back(o_((int)r.below(table().ops.size())));
    Bytes b = encode_padded(r, q);
    if (r.one_in(6)) b.insert(b.end(), bad.begin(), bad.end());
    Row row = gen_row(r, types, 6, 30, 1, 40);
    std::string text = "expression " + show(q) + " " + hex(b, 200) + " row " + show(row);
    c.at(text);
    real::Tuple t = real::tuple(row);
    EPlay p{b, &t};
    EPlay::Out ref, ref2;
    { dingodb::expr::Runner rn; ref = p.plain(rn); }
    { dingodb::expr::Runner rn; ref2 = p.plain(rn); }
    if (!(ref == ref2)) { c.count("left out: differs from run to run"); return; }
    for (size_t step = 0; step < 5; ++step) if (!f01_step(c, p, step, ref, text)) return;
    c.count("expressions");
    if (c.want_sample() && text.size() < 400) c.sample(text);
    return;
  }
  PipeOpt po;
  po.wild = r.one_in(3);
  po.max_size = 8;
  std::vector<T> in = types;
  Pipe pipe = gen_pipe(r, types, 1 + r.below(4), po);
  Bytes b = encode_padded(r, pipe);
  if (r.one_in(8)) { b = encode_padded(r, pipe, false); if (r.one_in(2)) b.insert(b.end(), {0x71, 0x13}); else b.push_back(0x75); b.insert(b.end(), bad.begin(), bad.end()); }
  std::vector<Row> rows;
  for (size_t n = r.below(6) + 1; n--;) rows.push_back(gen_row(r, in, 4, 30, 1, 40));
  std::string text = "pipeline " + show(pipe) + " " + hex(b, 200) + " rows";
  for (auto &x : rows) text += " " + show(x);
  c.at(text);
  RPlay p{b, rows};
  RPlay::Out ref, ref2;
  { RelRunner rr; ref = p.plain(rr); }
  { RelRunner rr; ref2 = p.plain(rr); }
  if (!ref.same(ref2)) { c.count("left out: differs from run to run"); return; }
  size_t steps = ref.refused ? 2 : 2 + rows.size() + std::min<uint64_t>(ref.gets, 6);
  for (size_t step = 0; step < steps; ++step) if (!f01_step(c, p, step, ref, text)) return;
  c.count("pipelines");
  if (c.want_sample() && text.size() < 400) c.sample(text);
}

// ---------------------------------------------------------------- E17

static void p_e17(Ctx &c) {
  copies::Seen seen;
  uint64_t h = c.idx * 2 + 1;
  c.saw(fnv(&h, sizeof h, c.seed));
  ledger::bad = nullptr;
  c.at("");
  std::string wrong;
  int64_t by = 0;
  for (int again = 0; again < 2; ++again) {      // what is made once only is there the second time
    c.r = Rng(c.seed, name_hash(c.prop), c.idx);
    int64_t before = ledger::live_blocks;
    wrong = copies::one(c, seen);
    by = ledger::live_blocks - before;
    if (by <= 0 || !wrong.empty() || ledger::bad) break;
  }
  if (!wrong.empty()) c.fail("copy", wrong);
  else if (ledger::bad) c.fail("released", std::string(ledger::bad) + " with copies of runners: " + (c.status ? c.status + 16 : ""));
  else if (by > 0) c.fail("leak", std::to_string(by) + " blocks remain once the runners are released: " + (c.status ? c.status + 16 : ""));
  ledger::bad = nullptr;
  copies::tell(c, seen);
}

// ---------------------------------------------------------------- M01

// Something done again and again, and what settles it: afterwards only what is held then may be in use.
struct Toil {
  std::string text;
  std::function<void(size_t)> step;
  std::function<void()> settle;
  uint64_t lib = 0;       // calls of the library
};
static int64_t in_use(Toil &t) { t.settle(); return ledger::live_bytes; }

static void m01_repeat(Ctx &c, Toil &t) {
  c.at(t.text);
  const int64_t base = ledger::live_bytes;
  size_t n = 0;
  auto go_on = [&](size_t to) { for (; n < to; ++n) t.step(n); return in_use(t) - base; };
  int64_t few = go_on(64), more = go_on(512), many = go_on(c.thorough ? 8192 : 3072);
  size_t last = n;
  c.count("repetitions", n);
  if (many - more <= 4096) return;
  // What keeps something for later use has it filled at some time.
  int64_t most = go_on(last * 10);
  c.count("growth looked into");
  if (most - many < (many - more) * 4) return;
  c.fail("growth", "memory in use grows with every repetition: " + std::to_string(few) + " bytes after 64, " + std::to_string(more) + " after 512, " + std::to_string(many) + " after " + std::to_string(last) + ", " + std::to_string(most) + " after " + std::to_string(n) + " of " + t.text);
}

static void p_m01(Ctx &c) {
  Rng &r = c.r;
  const int kind = (int)(c.idx % 12);
  std::vector<T> types = gen_types(r, 2 + r.below(5));
  GenOpt o;
  o.types = &types;
  o.maxstr = 40;
  auto expression = [&](size_t most) {
    Prog p;
    for (int k = r.one_in(3) ? 1 + (int)r.below(3) : 1; k--;) { Prog x = gen_expr(r, r.one_in(2) ? STR : ALL_T[r.below(6)], 1 + r.below(most), o); p.insert(p.end(), x.begin(), x.end()); }
    return p;
  };
  auto damaged = [&] {
    Bytes b = encode_padded(r, expression(12));
    Bytes bad = r.pick<Bytes>({{0xE0}, {0x14, 0x00}, {0x17, 0x05, 0x41}, {0x83}, {0x16}, {0x11, 0xFF}});
    b.insert(b.end(), bad.begin(), bad.end());
    return b;
  };
  uint64_t calls = 0, errors = 0;
  auto run = [&](dingodb::expr::Runner &rn, const real::Tuple *x) {
    rn.BindTuple(x);
    ++calls;
    try { rn.Run(); auto v = rn.Get(); std::unique_ptr<real::Tuple> all(rn.GetAll()); } catch (const std::exception &) { ++errors; }
    rn.BindTuple(nullptr);
  };
  auto decode = [&](auto &rn, const Bytes &b) { ++calls; try { rn.Decode(b.data(), b.size()); } catch (const std::exception &) { ++errors; } };
  auto put = [&](RelRunner &rr, const Row &row) { ++calls; try { delete rr.Put(real::new_tuple(row)); } catch (const std::exception &) { ++errors; } };
  auto drain = [&](RelRunner &rr) {
    for (int bad = 0, k = 0; bad < 100 && k < 100000; ++k) { ++calls; try { const real::Tuple *x = rr.Get(); if (!x) return; delete x; } catch (const std::exception &) { ++bad; ++errors; } }
  };
  Toil t;
  Row quiet;
  for (T x : types) quiet.push_back(gen_small(r, x, 3));
  std::unique_ptr<real::Tuple> still(real::new_tuple(quiet));
  dingodb::expr::Runner rn;
  RelRunner rr;
  const Bytes plain = encode(Prog{c_(Val::i32(1))});
  c.saw(fnv(&c.idx, sizeof c.idx, c.seed));
  auto finish = [&] {
    c.count("calls", calls);
    c.count("calls ending in an error", errors);
    if (c.want_sample() && t.text.size() < 500) c.sample(t.text);
  };
  PipeOpt po;
  po.max_size = 8;
  switch (kind) {
  case 0: {
    Prog p = expression(30);
    Bytes b = encode_padded(r, p);
    decode(rn, b);
    t.text = "running " + show(p) + " over other rows";
    t.step = [&](size_t) { std::unique_ptr<real::Tuple> x(real::new_tuple(gen_row(r, types, 6, 40))); run(rn, x.get()); };
    t.settle = [&] { run(rn, still.get()); };
    m01_repeat(c, t);
    return finish();
  }
  case 1: case 2: {
    const bool bad = kind == 2;
    t.text = std::string("decoding ") + (bad ? "refused " : "") + "expressions and running them";
    t.step = [&](size_t i) { decode(rn, bad && i % 4 ? damaged() : encode_padded(r, expression(12))); if (!bad) run(rn, still.get()); };
    t.settle = [&] { decode(rn, plain); run(rn, nullptr); };
    m01_repeat(c, t);
    return finish();
  }
  case 3: {
    po.wild = r.one_in(2);
    po.kinds = 3;
    std::vector<T> in = types;
    Pipe p = gen_pipe(r, types, 1 + r.below(4), po);
    decode(rr, encode_padded(r, p));
    t.text = "putting rows through " + show(p);
    t.step = [&, in](size_t) { put(rr, gen_row(r, in, 6, 40)); };
    t.settle = [] {};
    m01_repeat(c, t);
    return finish();
  }
  case 4: {    // the same groups all the time
    po.kinds = r.pick({4, 4, 8});
    Pipe p = gen_pipe(r, types, 1, po);
    decode(rr, encode_padded(r, p));
    auto cols = gen_palette(r, types);
    t.text = "putting rows of few values into " + show(p);
    t.step = [&](size_t) {
      Row row = palette_row(r, cols, 6);
      bool wide = false;
      for (auto g : p[0].groups) wide |= row[(size_t)g].t == F32 || row[(size_t)g].t == F64;
      if (!wide) for (size_t i = 0; i < row.size(); ++i) {   // other values where these make no other groups
        bool key = false;
        for (auto g : p[0].groups) key |= (size_t)g == i;
        if (!key && r.one_in(2)) row[i] = gen_val(r, types[i], 30);
      }
      put(rr, row);
    };
    t.settle = [] {};
    m01_repeat(c, t);
    return finish();
  }
  case 5: {    // other groups each time
    std::vector<T> in = types;
    Pipe p = gen_pipe(r, types, 1 + r.below(4), po);
    decode(rr, encode_padded(r, p));
    t.text = "filling and draining " + show(p);
    t.step = [&, in](size_t i) { put(rr, gen_row(r, in, 6, 40, i % 3 ? 0 : 2)); if (i % 7 == 6) drain(rr); };
    t.settle = [&] { drain(rr); };
    m01_repeat(c, t);
    return finish();
  }
  case 6: {    // other pipelines each time, with rows left in the former
    std::vector<T> in = types;
    const Bytes none = encode_padded(r, Pipe{});
    t.text = "decoding pipelines with rows left in the former";
    t.step = [&, in](size_t) {
      Bytes b = encode_padded(r, gen_pipe(r, in, 1 + r.below(3), po), false);
      if (r.one_in(4)) b.insert(b.end(), {0x71, 0x13});
      decode(rr, b);
      if (b.back() != 0x13) for (size_t n = r.below(4); n--;) put(rr, gen_row(r, in, 6, 40));
    };
    t.settle = [&] { decode(rr, none); };
    m01_repeat(c, t);
    return finish();
  }
  case 7: {    // nothing but errors
    Prog p{v_(STR, 0), v_(I32, 1), o_(table().two[0x84][I32])};
    Bytes b = encode(p);
    Stage f; f.k = Stage::FILTER; f.prog = p;
    decode(rn, b);
    decode(rr, encode_padded(r, Pipe{f}));
    t.text = "running and putting what raises errors";
    t.step = [&](size_t i) { run(rn, i % 2 ? nullptr : still.get()); if (r.one_in(3)) put(rr, quiet); decode(rn, i % 3 ? b : damaged()); };
    t.settle = [&] { decode(rn, plain); run(rn, nullptr); };
    m01_repeat(c, t);
    return finish();
  }
  case 8: {    // groups hold their keys and what is aggregated, not the rows
    Stage s;
    s.k = Stage::GROUPED;
    std::vector<T> vt = types;
    size_t key = vt.size();
    vt.push_back(r.one_in(2) ? I32 : STR);
    s.groups = {(int64_t)key};
    for (size_t n = r.below(4); n--;) s.aggs.push_back(gen_agg(r, vt, false, false));
    Pipe p{s};
    Bytes b = encode_padded(r, p);
    const size_t groups = 200 + r.below(300);
    int64_t used[3];
    uint64_t seed = r.next();
    for (int k = 0; k < 3; ++k) {      // as it is; more columns, longer unused texts; many rows for each group
      Rng q(seed);
      RelRunner pipe;
      int64_t base = ledger::live_bytes;
      decode(pipe, b);
      Row behind;
      if (k == 1) for (int i = 0; i < 60; ++i) behind.push_back(i % 2 ? Val::str(std::string(200, 'x')) : Val::i64(i));
      for (size_t i = 0; i < groups; ++i)
        for (int again = k == 2 ? 6 : 1; again--;) {
          Row row;
          for (T x : types) row.push_back(x == STR ? Val::str(std::string(30, (char)('a' + q.below(26)))) : gen_small(q, x, 50));
          row.push_back(vt[key] == I32 ? Val::i32((int32_t)i) : Val::str("the group of number " + std::to_string(100000 + i)));
          row.insert(row.end(), behind.begin(), behind.end());
          put(pipe, row);
        }
      used[k] = ledger::live_bytes - base;
    }
    t.text = std::to_string(groups) + " groups of " + show(p);
    c.count("groups measured", 3 * groups);
    c.at(t.text);
    for (int k = 1; k < 3; ++k)
      if (used[k] > used[0] * 5 / 4 + 16384) c.fail("rows-kept", t.text + " hold " + std::to_string(used[k]) + " bytes " + (k == 1 ? "if rows have more columns nobody asked for" : "if six rows are put for each group") + ", " + std::to_string(used[0]) + " else");
    return finish();
  }
  default: {   // large things are given back once they are gone
    const size_t large = 300000 + r.below(300000);
    const int64_t allowed = 65536;
    auto fail = [&](const std::string &what, int64_t by) { c.fail("large-kept", std::to_string(by) + " bytes more than before are in use after " + what); };
    c.at("large texts");
    std::vector<T> one{STR};
    std::unique_ptr<real::Tuple> big(real::new_tuple(Row{Val::str(std::string(large, 'a'))})), small(real::new_tuple(Row{Val::str("a")}));
    dingodb::expr::Runner x;
    Bytes fine = encode(Prog{v_(STR, 0)});
    decode(x, fine);
    run(x, small.get());
    int64_t base = ledger::live_bytes;
    std::vector<int> sfun;
    for (size_t i = 0; i < table().ops.size(); ++i) { auto &d = table().ops[i]; if (d.res == STR && d.arg[0] == STR) sfun.push_back((int)i); }
    {   // a text in the code
      Prog p{c_(Val::str(std::string(large, ' ')))};
      int op = r.pick(sfun);
      const OpDesc &d = table().ops[op];
      for (int i = 1; i < d.arity; ++i) p.push_back(c_(d.arg[i] == STR ? Val::str("b") : gen_small(r, d.arg[i], 3)));
      p.push_back(o_(op));
      { Bytes b = encode(p); decode(x, b); run(x, small.get()); if (r.one_in(2)) { b.push_back(0xE0); decode(x, b); } }
      decode(x, fine);
      run(x, small.get());
      c.count("large constants");
    }
    if (ledger::live_bytes - base > allowed) return fail("a text in the code of an expression was replaced by another expression", ledger::live_bytes - base);
    {
      Prog p{v_(STR, 0)};
      int op = r.pick(sfun);
      const OpDesc &d = table().ops[op];
      for (int i = 1; i < d.arity; ++i) p.push_back(c_(d.arg[i] == STR ? Val::str("b") : gen_small(r, d.arg[i], 3)));
      p.push_back(o_(op));
      { Bytes b = encode(p); decode(x, b); }
      run(x, big.get());
      run(x, small.get());
      c.count("large rows");
      if (ledger::live_bytes - base > allowed) return fail("running " + show(p) + " over a large text, then over a small one", ledger::live_bytes - base);
      decode(x, fine);
      run(x, small.get());
    }
    {
      Stage g;
      g.k = r.one_in(2) ? Stage::GROUPED : Stage::UNGROUPED;
      if (g.k == Stage::GROUPED) g.groups = {0};
      Agg a; a.code = (uint8_t)(r.pick({0x30, 0x40}) | STR); a.idx = 0;
      Agg n; n.code = 0x10;
      g.aggs = {n, a};
      Pipe p{g};
      Stage pr; pr.k = Stage::PROJECT; pr.prog = {v_(STR, 0)};
      if (r.one_in(2)) p.insert(p.begin(), pr);
      if (r.one_in(2) && g.k == Stage::GROUPED) p.push_back(pr);
      decode(rr, encode_padded(r, p));
      put(rr, Row{Val::str("a")});
      drain(rr);
      int64_t before = ledger::live_bytes;
      put(rr, Row{Val::str(std::string(large, 'a'))});
      put(rr, Row{Val::str(std::string(large, 'b'))});
      drain(rr);
      put(rr, Row{Val::str("a")});
      drain(rr);
      c.count("large groups");
      if (ledger::live_bytes - before > allowed) return fail("draining large texts from " + show(p), ledger::live_bytes - before);
      // Groups and aggregates made of small parts of large texts hold the parts.
      Stage part; part.k = Stage::PROJECT;
      Prog lead{v_(STR, 0), c_(Val::i32(9)), o_(table().two[0xF1][0x24])};
      if (r.one_in(2)) lead = {v_(STR, 0), c_(Val::i32(0)), c_(Val::i32(9)), o_(table().two[0xF1][0x2C])};
      if (r.one_in(3)) lead = {v_(STR, 0), c_(Val::i32(1)), c_(Val::i32(9)), o_(table().two[0xF1][0x2E])};
      part.prog = lead;
      Pipe q{part, g};
      RelRunner few;
      decode(few, encode_padded(r, q));
      before = ledger::live_bytes;
      for (int i = 0; i < 5; ++i) put(few, Row{Val::str("text " + std::to_string(1000 + i) + std::string(large, 'c'))});
      c.count("small parts of large texts held");
      if (ledger::live_bytes - before > allowed) return fail("five rows were put into " + show(q) + ", still to be drained", ledger::live_bytes - before);
    }
    t.text = "texts of " + std::to_string(large) + " bytes";
    return finish();
  }
  }
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["D02"] = p_d02;
  props["R06"] = p_r06;
  props["F01"] = p_f01;
  props["E17"] = p_e17;
  props["M01"] = p_m01;
  return drive(argc, argv, props);
}
