// E16: what was decoded and what was handed out stand on their own.  Each tested runner has a twin which sees
// the same history, but whose code stays where it is; results held are compared with what they were at first.
#include <exception>
#include <thread>
#include <typeinfo>
#include "copies.h"
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;
using real::Runner;

namespace {
struct Code {       // a block of exactly its size, which is spoiled and released
  uint8_t *p = nullptr;
  size_t n = 0;
  void set(const Bytes &b) { drop(nullptr); n = b.size(); p = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); }
  void spoil(Rng &r) { if (p) for (size_t i = 0, k = r.below(3); i < n; ++i) p[i] = k == 0 ? 0 : k == 1 ? 0xFF : (uint8_t)r.next(); }
  void drop(Rng *r) { if (p) { if (r) spoil(*r); free(p); } p = nullptr; n = 0; }
  ~Code() { free(p); }
};
struct E {
  std::unique_ptr<Runner> rn{new Runner}, twin{new Runner};
  Code code;
  Bytes kept;
  bool good = false, ran = false, failed = false;
};
struct P {
  std::unique_ptr<RelRunner> rr{new RelRunner}, twin{new RelRunner};
  Code code;
  Bytes kept;
  std::vector<T> types;
  bool good = false;
};
struct Held {
  std::unique_ptr<real::Operand> v;
  std::unique_ptr<const real::Tuple> t;
  std::shared_ptr<std::string> text;
  uint64_t h;
  std::string from;
};
uint64_t now(const Held &x) {
  if (x.v) return hashv(3, real::val(*x.v));
  if (x.t) return hashv(5, real::row(*x.t));
  return fnv(x.text->data(), x.text->size(), 9);
}
}  // namespace

static void p_e16(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 2 + r.below(6));
  for (auto &t : types) if (r.one_in(2)) t = STR;
  E es[3];
  P ps[2];
  const size_t longest = r.pick<size_t>({60, 60, 300, 3000});
  std::vector<Row> rows;
  std::vector<std::unique_ptr<real::Tuple>> tuples;
  for (int i = 0; i < 3; ++i) { rows.push_back(gen_row(r, types, 8, longest)); tuples.emplace_back(real::new_tuple(rows.back())); }
  std::vector<Held> held;
  std::string text;
  auto say = [&](const std::string &s) {
    text += "\n " + s;
    if (text.size() > 7000) text = "..." + text.substr(text.size() - 5000);
    c.at(text.size() > 2800 ? text.substr(text.size() - 2800) : text);
  };
  auto hold = [&](Held h, const std::string &from) { h.from = from; h.h = now(h); held.push_back(std::move(h)); c.count("results held"); };
  int steps = 20 + (int)r.below(60);
  GenOpt o;
  o.types = &types;
  o.maxstr = longest;
  for (int s = 0; s < steps; ++s) {
    switch (r.below(14)) {
    case 0: case 1: {   // decode, and what becomes of the bytes
      int k = (int)r.below(3);
      E &e = es[k];
      Prog p;
      for (int n = r.one_in(3) ? 1 + (int)r.below(4) : 1; n--;) { Prog x = gen_expr(r, r.one_in(2) ? STR : ALL_T[r.below(6)], 1 + r.below(20), o); p.insert(p.end(), x.begin(), x.end()); }
      Bytes b = encode_padded(r, p);
      e.ran = false;
      Code old;
      std::swap(old.p, e.code.p); std::swap(old.n, e.code.n);
      e.code.set(b);
      e.kept = b;
      bool now_ = !r.one_in(3);
      say("expression runner " + std::to_string(k) + " decodes " + show(p) + " " + hex(b, 120) + (now_ ? ", the bytes are released" : ""));
      bool r1 = false, r2 = false;
      try { e.rn->Decode(e.code.p, e.code.n); } catch (const std::exception &) { r1 = true; }
      try { e.twin->Decode(e.kept.data(), e.kept.size()); } catch (const std::exception &) { r2 = true; }
      e.good = !r1 && !r2;
      old.drop(&r);
      if (now_) e.code.drop(&r); else if (r.one_in(2)) e.code.spoil(r);
      c.count("expressions decoded, their bytes released");
      break;
    }
    case 2: case 3: case 4: case 5: {   // run, release or change the row, and ask
      int k = (int)r.below(3), i = (int)r.below(3);
      E &e = es[k];
      if (!e.good) break;
      say("expression runner " + std::to_string(k) + " runs with row " + std::to_string(i) + " " + show(rows[i]));
      bool f1 = false, f2 = false;
      try { if (e.rn->GetType() != e.twin->GetType()) { c.fail("type", "the type differs once the bytes are released" + text); return; } } catch (const std::exception &) {}
      e.rn->BindTuple(tuples[i].get());
      e.twin->BindTuple(tuples[i].get());
      try { e.rn->Run(); } catch (const std::exception &) { f1 = true; }
      try { e.twin->Run(); } catch (const std::exception &) { f2 = true; }
      std::unique_ptr<real::Tuple> want;
      if (!f2) want.reset(e.twin->GetAll());
      Row wrow = want ? real::row(*want) : Row();
      want.reset();
      if (r.one_in(2)) {
        say("that row is released");
        rows[i] = gen_row(r, types, 8, longest);
        tuples[i].reset();
        tuples[i].reset(real::new_tuple(rows[i]));
      }
      e.rn->BindTuple(nullptr);
      e.twin->BindTuple(nullptr);
      c.saw(fnv(text.data(), text.size()));
      if (f1 != f2) { c.fail("decoded", std::string("running ") + (f1 ? "fails" : "succeeds") + " once the bytes are released, unlike before" + text); return; }
      if (f1) break;
      e.ran = true;
      std::unique_ptr<real::Tuple> all(e.rn->GetAll());
      Row got = real::row(*all);
      if (!same(got, wrow)) { c.fail("decoded", "results " + show(got) + " instead of " + show(wrow) + " once the bytes (or the row) are released" + text); return; }
      c.count("runs compared with a runner whose bytes stayed");
      { Held h; h.t = std::move(all); hold(std::move(h), "all results of runner " + std::to_string(k) + " at step " + std::to_string(s)); }
      if (!got.empty()) {
        Held h;
        h.v.reset(new real::Operand(e.rn->Get()));
        if (real::val(*h.v).t == STR && r.one_in(2)) { h.text = h.v->GetValue<real::String>().GetPtr(); h.v.reset(); }
        hold(std::move(h), "the result of runner " + std::to_string(k) + " at step " + std::to_string(s));
      }
      break;
    }
    case 6: {
      int k = (int)r.below(3);
      say("expression runner " + std::to_string(k) + " is released");
      es[k].rn.reset(new Runner);
      es[k].twin.reset(new Runner);
      es[k].good = es[k].ran = false;
      break;
    }
    case 7: {   // the caller's row gets other elements
      int i = (int)r.below(3);
      say("the elements of row " + std::to_string(i) + " are replaced");
      rows[i] = gen_row(r, types, 8, longest);
      *tuples[i] = real::tuple(rows[i]);
      break;
    }
    case 8: if (!held.empty()) { say("a result is released"); size_t i = r.below(held.size()); std::swap(held[i], held.back()); held.pop_back(); } break;
    case 9: {
      int k = (int)r.below(2);
      P &p = ps[k];
      PipeOpt po;
      po.max_size = 8;
      po.exact = true;
      p.types = types;
      Pipe pipe = gen_pipe(r, types, 1 + r.below(4), po);
      Bytes b = encode_padded(r, pipe);
      Code old;
      std::swap(old.p, p.code.p); std::swap(old.n, p.code.n);
      p.code.set(b);
      p.kept = b;
      bool now_ = !r.one_in(3);
      say("pipeline runner " + std::to_string(k) + " decodes " + show(pipe) + " " + hex(b, 120) + (now_ ? ", the bytes are released" : ""));
      bool r1 = false, r2 = false;
      try { p.rr->Decode(p.code.p, p.code.n); } catch (const std::exception &) { r1 = true; }
      try { p.twin->Decode(p.kept.data(), p.kept.size()); } catch (const std::exception &) { r2 = true; }
      p.good = !r1 && !r2;
      old.drop(&r);
      if (now_) p.code.drop(&r); else if (r.one_in(2)) p.code.spoil(r);
      c.count("pipelines decoded, their bytes released");
      break;
    }
    case 10: case 11: case 12: {
      int k = (int)r.below(2);
      P &p = ps[k];
      if (!p.good) break;
      for (int n = 1 + (int)r.below(4); n--;) {
        Row row = gen_row(r, types, 8, 30, r.one_in(4) ? 2 : 1, 3);
        say("pipeline runner " + std::to_string(k) + " is given " + show(row));
        const real::Tuple *x = nullptr, *y = nullptr;
        bool f1 = false, f2 = false;
        try { x = p.rr->Put(real::new_tuple(row)); } catch (const std::exception &) { f1 = true; }
        try { y = p.twin->Put(real::new_tuple(row)); } catch (const std::exception &) { f2 = true; }
        c.saw(fnv(text.data(), text.size()));
        Row gx = x ? real::row(*x) : Row(), gy = y ? real::row(*y) : Row();
        bool eq = f1 == f2 && !x == !y && same(gx, gy);
        bool has = x != nullptr;
        if (x) { Held h; h.t.reset(x); hold(std::move(h), "a row of pipeline runner " + std::to_string(k) + " at step " + std::to_string(s)); }
        delete y;
        if (!eq) { c.fail("pipeline", std::string("once its bytes are released the pipeline gives ") + (f1 ? "an error" : has ? show(gx) : "nothing") + " instead of " + (f2 ? "an error" : y ? show(gy) : "nothing") + text); return; }
        c.count("rows put");
        if (f1) { p.good = false; break; }
      }
      if (p.good && r.one_in(3)) {   // drain
        say("pipeline runner " + std::to_string(k) + " is drained");
        std::vector<Row> a, b;
        bool f = false;
        try {
          for (int i = 0; i < 1000; ++i) { const real::Tuple *x = p.rr->Get(); if (!x) break; a.push_back(real::row(*x)); Held h; h.t.reset(x); hold(std::move(h), "a row drained from pipeline runner " + std::to_string(k) + " at step " + std::to_string(s)); }
          for (int i = 0; i < 1000; ++i) { const real::Tuple *x = p.twin->Get(); if (!x) break; b.push_back(real::row(*x)); delete x; }
        } catch (const std::exception &) { f = true; }
        if (f) { p.good = false; break; }
        std::string d = bag_diff(a, b);
        if (!d.empty()) { c.fail("pipeline", "once its bytes are released the pipeline drains other rows:" + d + text); return; }
        c.count("drains compared");
      }
      break;
    }
    default: {
      int k = (int)r.below(2);
      say("pipeline runner " + std::to_string(k) + " is released");
      ps[k].rr.reset(new RelRunner);
      ps[k].twin.reset(new RelRunner);
      ps[k].good = false;
    }
    }
    for (auto &h : held) {
      if (now(h) == h.h) continue;
      c.fail("result-changed", h.from + " changed later, to " + (h.v ? show(real::val(*h.v)) : h.t ? show(real::row(*h.t)) : "\"" + *h.text + "\"") + text);
      return;
    }
    c.count("results seen unchanged", held.size());
  }
  for (auto &e : es) { e.rn.reset(); e.twin.reset(); }
  for (auto &p : ps) { p.rr.reset(); p.twin.reset(); }
  tuples.clear();
  for (auto &h : held) if (now(h) != h.h) { c.fail("result-changed", h.from + " changed when everything else was released" + text); return; }
  c.count("histories");
  if (c.want_sample() && text.size() < 700) c.sample(text);
}

static void p_e17(Ctx &c) {
  copies::Seen seen;
  uint64_t h = c.idx * 2;
  c.saw(fnv(&h, sizeof h, c.seed));
  std::string wrong = copies::one(c, seen);
  if (!wrong.empty()) c.fail("copy", wrong);
  copies::tell(c, seen);
}

// ---------------------------------------------------------------- E18

namespace {
struct Call { int k; size_t x; };
struct Scene {
  std::vector<Bytes> codes, pipes;
  std::vector<bool> damaged;      // may name elements no row has, and is not run
  std::vector<Row> rows;
  std::vector<Call> calls;
  std::vector<std::string> names;
};
struct Error {
  std::exception_ptr e;
  std::string type, text, from;
};
struct Shown {
  std::vector<std::string> outcomes;   // "" without an error
  std::vector<Error> errors;
  std::string bad;
};
__attribute__((noinline)) void spoil_stack(uint8_t with) {
  volatile uint8_t buf[16000];
  for (size_t i = 0; i < sizeof buf; ++i) buf[i] = with;
}
// The calls on runners of their own, the code in blocks with other bytes around.
void play(const Scene &s, uint8_t around, Shown &out) {
  auto rn = std::make_unique<Runner>();
  auto rr = std::make_unique<RelRunner>();
  bool runs = true;
  std::vector<std::unique_ptr<uint8_t[]>> blocks;
  auto block = [&](const Bytes &b) {
    size_t front = 64 + around % 8;
    blocks.emplace_back(new uint8_t[b.size() + front + 64]);
    uint8_t *p = blocks.back().get();
    memset(p, around, b.size() + front + 64);
    if (!b.empty()) memcpy(p + front, b.data(), b.size());
    return p + front;
  };
  std::vector<std::unique_ptr<real::Tuple>> tuples;
  for (auto &x : s.rows) tuples.emplace_back(real::new_tuple(x));
  for (size_t i = 0; i < s.calls.size(); ++i) {
    const Call &c = s.calls[i];
    spoil_stack(around);
    std::string outcome;
    try {
      switch (c.k) {
      case 0: runs = !s.damaged[c.x]; rn->Decode(block(s.codes[c.x]), s.codes[c.x].size()); break;
      case 1: rn->BindTuple(tuples[c.x].get()); break;
      case 2: rn->BindTuple(nullptr); break;
      case 3: if (runs) rn->Run(); break;
      case 4: rn->Get(); break;
      case 5: delete rn->GetAll(); break;
      case 6: rn->GetType(); break;
      case 7: switch (c.x % 6) {
        case 0: rn->GetOptional<int32_t>(); break;
        case 1: rn->GetOptional<int64_t>(); break;
        case 2: rn->GetOptional<bool>(); break;
        case 3: rn->GetOptional<float>(); break;
        case 4: rn->GetOptional<double>(); break;
        default: rn->GetOptional<real::String>();
        }
        break;
      case 8: rr->Decode(block(s.pipes[c.x]), s.pipes[c.x].size()); break;
      case 9: delete rr->Put(real::new_tuple(s.rows[c.x])); break;
      case 10: delete rr->Get(); break;
      default: rn.reset(new Runner); rr.reset(new RelRunner); runs = true;
      }
    } catch (const std::exception &e) {
      const char *t = e.what();
      if (!t) { out.bad = "an error without a text"; return; }
      outcome = std::string(typeid(e).name()) + ": " + t;
      if (!*t) out.bad = "an error with an empty text";
      for (const char *q = t; *q; ++q) if ((unsigned char)*q < 32 || (unsigned char)*q > 126) out.bad = "the text of an error holds the byte " + std::to_string((unsigned char)*q) + ": " + outcome;
      if ((c.k == 0 || c.k == 8) && strstr(t, "bytes")) {     // bytes it shows are bytes it was given
        std::string all, last(t);
        char d[3];
        for (uint8_t x : c.k == 0 ? s.codes[c.x] : s.pipes[c.x]) { snprintf(d, sizeof d, "%02X", x); all += d; }
        last = last.substr(last.find_last_of(" :=") + 1);
        if (!last.empty() && last.find_first_not_of("0123456789ABCDEF") == std::string::npos && all.find(last) == std::string::npos) out.bad = "an error shows bytes that were not given: " + outcome;
      }
      out.errors.push_back({std::current_exception(), typeid(e).name(), t, s.names[i]});
      if (!out.bad.empty()) { out.bad += "\n at: " + s.names[i]; return; }
    } catch (...) {
      out.bad = "something was thrown that is no std::exception\n at: " + s.names[i];
      return;
    }
    out.outcomes.push_back(outcome);
  }
  for (size_t i = 0; i < blocks.size(); ++i) memset(blocks[i].get(), 0x3F, 8);
}
std::string changed(const std::vector<Error> &es) {
  for (auto &x : es) {
    std::string bad;
    try { std::rethrow_exception(x.e); }
    catch (const std::exception &e) {
      if (x.type != typeid(e).name() || x.text != e.what()) bad = std::string(typeid(e).name()) + ": " + e.what();
      try { auto copy = std::make_exception_ptr(std::runtime_error(e.what())); std::rethrow_exception(copy); } catch (const std::exception &f) { if (x.text != f.what()) bad = f.what(); }
    }
    if (!bad.empty()) return "the error \"" + x.text + "\" reads \"" + bad + "\" later\n at: " + x.from;
  }
  return "";
}
}  // namespace

static void p_e18(Ctx &c) {
  Rng &r = c.r;
  Scene s;
  std::vector<T> types = gen_types(r, 1 + r.below(5));
  for (int i = 0; i < 3; ++i) s.rows.push_back(gen_row(r, types, 8, 40));
  { std::vector<T> other = types; for (auto &t : other) if (r.one_in(2)) t = ALL_T[r.below(6)]; s.rows.push_back(gen_row(r, other, 8, 40)); }
  GenOpt o;
  o.types = &types;
  std::string text;
  auto add = [&](int k, size_t x, const std::string &name) { s.calls.push_back({k, x}); s.names.push_back(name); text += "\n " + name; };
  auto damage = [&](Bytes &b) {
    switch (r.below(5)) {
    case 0: if (!b.empty()) b.resize(r.below(b.size())); break;
    case 1: if (!b.empty()) b[r.below(b.size())] = (uint8_t)r.next(); break;
    case 2: b.push_back((uint8_t)r.next()); break;
    case 3: { b.push_back(r.pick<uint8_t>({0xE0, 0x16, 0x54, 0x75, 0xFF, 0x77})); for (size_t n = heavy(r, 300); n--;) b.push_back((uint8_t)r.next()); break; }
    default: { Bytes bad = r.pick<Bytes>({{0x14, 0x00}, {0x17, 0x05, 0x41}, {0x83}, {0x17, 0x7F}, {0x11, 0xFF}, {0xF1, 0x77}, {0x71, 0xE0}, {0x73, 0x61, 0x02, 0x01}, {0x74, 0x03, 0x21, 0x00, 0x10, 0x99}, {0x74, 0x7F}}); b.insert(b.end(), bad.begin(), bad.end()); }
    }
  };
  auto again = [&] { for (size_t n = s.calls.size() ? r.below(3) : 0; n--;) { s.calls.push_back(s.calls.back()); s.names.push_back(s.names.back() + " again"); } };
  int steps = 6 + (int)r.below(20);
  bool have = false;
  for (int i = 0; i < steps; ++i) {
    switch (r.below(12)) {
    case 0: case 1: case 2: {
      Prog p = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(16), o);
      if (r.one_in(3)) p.push_back(o_((int)r.below(table().ops.size())));
      Bytes b = encode_padded(r, p);
      s.damaged.push_back(r.one_in(2));
      if (s.damaged.back()) damage(b);
      s.codes.push_back(b);
      add(0, s.codes.size() - 1, "decode " + hex(b, 200));
      again();
      break;
    }
    case 3: case 4: if (r.one_in(6)) add(2, 0, "bind nothing"); else { size_t x = r.below(s.rows.size()); add(1, x, "bind " + show(s.rows[x])); } add(3, 0, "run"); again(); break;
    case 5: add(4, 0, "get"); break;
    case 6: add(5, 0, "get all"); add(6, 0, "get type"); break;
    case 7: { size_t x = r.below(6); add(7, x, "get optional " + std::to_string(x)); again(); break; }
    case 8: case 9: {
      PipeOpt po;
      po.wild = true;
      po.max_size = 8;
      Pipe p = gen_pipe(r, types, 1 + r.below(3), po);
      for (auto &st : p) if (st.k == Stage::FILTER && r.one_in(2)) st.prog.push_back(o_((int)r.below(table().ops.size())));
      Bytes b = encode_padded(r, p);
      have = true;
      if (r.one_in(3)) { damage(b); have = false; }
      s.pipes.push_back(b);
      add(8, s.pipes.size() - 1, "decode pipeline " + hex(b, 200));
      break;
    }
    case 10:
      if (!have && !r.one_in(8)) break;
      if (!have) { add(11, 0, "release the runners"); }
      for (size_t n = 1 + r.below(4); n--;) { size_t x = r.below(s.rows.size() - 1); add(9, x, "put " + show(s.rows[x])); }
      if (r.one_in(2)) { add(10, 0, "get a row"); again(); }
      break;
    default: if (r.one_in(4)) { add(11, 0, "release the runners"); have = false; }
    }
  }
  c.at(text);
  Shown one, two, three;
  auto differ = [&](const Shown &x, const char *how) {
    for (size_t i = 0; i < one.outcomes.size() && i < x.outcomes.size(); ++i)
      if (one.outcomes[i] != x.outcomes[i]) { c.fail("differs", "\"" + s.names[i] + "\" " + (one.outcomes[i].empty() ? "succeeds" : "raises " + one.outcomes[i]) + " at first, and " + how + (x.outcomes[i].empty() ? " succeeds" : " raises " + x.outcomes[i]) + text); return true; }
    return false;
  };
  play(s, 0x00, one);
  c.saw(fnv(text.data(), text.size()), !one.errors.empty());
  if (!one.bad.empty()) { c.fail("error", one.bad + text); return; }
  if (c.idx % 16 == 0) {   // a count the text quotes is the one in the code, whatever its size
    auto refused = [&](uint64_t n) {
      Bytes b{0x73, 0x61};
      if (c.idx % 32) b = {0x74};
      for (; n >= 128; n >>= 7) b.push_back((uint8_t)(n | 128));
      b.push_back((uint8_t)n);
      b.push_back(0);
      RelRunner rr;
      try { rr.Decode(b.data(), b.size()); } catch (const std::exception &e) { return std::string(e.what()); }
      return std::string();
    };
    const uint64_t n = 1000 + r.below(1 << 20), more = n + (r.below(1 << 20) << r.pick({11, 16, 24, 31, 32, 40}));
    std::string a = refused(n), b = refused(more);
    if (a.find(std::to_string(n)) != std::string::npos && b.find(std::to_string(more)) == std::string::npos) {
      c.fail("count", "an array announcing " + std::to_string(n) + " elements is refused with \"" + a + "\", one announcing " + std::to_string(more) + " with \"" + b + "\"");
      return;
    }
    c.count("announced counts compared with the text");
  }
  // The same call once more, nothing else in between
  for (size_t i = 1; i < s.calls.size(); ++i)
    if (s.calls[i].k == s.calls[i - 1].k && s.calls[i].x == s.calls[i - 1].x && (s.calls[i].k == 0 || s.calls[i].k == 3 || s.calls[i].k == 7) && one.outcomes[i] != one.outcomes[i - 1] ) {
      c.fail("repeated", "\"" + s.names[i] + "\" raises \"" + one.outcomes[i] + "\", before it was \"" + one.outcomes[i - 1] + "\"" + text);
      return;
    }
  play(s, 0xFF, two);
  if (!two.bad.empty()) { c.fail("error", two.bad + text); return; }
  if (differ(two, "on other runners, with other bytes behind the code,")) return;
  std::string later;
  std::thread([&] { play(s, 0xE7, three); later = changed(one.errors); }).join();
  if (!three.bad.empty()) { c.fail("error", three.bad + text); return; }
  if (differ(three, "in another thread")) return;
  if (later.empty()) later = changed(one.errors);
  if (later.empty()) later = changed(three.errors);
  if (!later.empty()) { c.fail("changed", later + text); return; }
  c.count("calls", 3 * s.calls.size());
  c.count("errors held and read again", 2 * one.errors.size());
  for (auto &e : one.errors) c.count("errors of type " + e.type);
  if (c.want_sample() && text.size() < 600 && !one.errors.empty()) c.sample(text + "\n -> " + one.errors[0].text);
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["E16"] = p_e16;
  props["E17"] = p_e17;
  props["E18"] = p_e18;
  return drive(argc, argv, props);
}
