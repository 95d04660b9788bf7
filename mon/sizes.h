// Work of several kinds at a size and at TIMES that size, and early and late in the life of a runner.  What is measured,
// and what may become of it, is up to the monitor that includes this, which defines
//   uint64_t work(f, bool *raised = nullptr), void add(uint64_t &total, uint64_t w),
//   compare(), same_width() and steady() as declared here.
#pragma once
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;
using real::Runner;

namespace {
#ifndef TEXT_SCALE
#define TEXT_SCALE 1
#endif
const uint64_t TIMES = 16;
struct Call { std::string name; uint64_t w; };
typedef std::vector<Call> Calls;
template <typename F> uint64_t work(F f, bool *raised = nullptr);
void add(uint64_t &total, uint64_t w);
bool compare(Ctx &c, const Calls &a, const Calls &b, const std::string &what);
bool same_width(Ctx &c, const Call &a, const Call &b, const std::string &what, size_t n);
bool steady(Ctx &c, const char *name, uint64_t early, uint64_t late, const std::string &what);

Bytes times(const Bytes &head, const Bytes &unit, size_t n, const Bytes &tail) {
  Bytes b = head;
  b.reserve(head.size() + unit.size() * n + tail.size());
  for (size_t i = 0; i < n; ++i) b.insert(b.end(), unit.begin(), unit.end());
  b.insert(b.end(), tail.begin(), tail.end());
  return b;
}

Calls expr_calls(const Bytes &b, const real::Tuple *row) {
  Calls k;
  bool bad = false;
  auto *r = new Runner;
  k.push_back({"decoding", work([&] { r->Decode(b.data(), b.size()); }, &bad)});
  if (!bad) {
    r->BindTuple(row);
    k.push_back({"running", work([&] { r->Run(); })});
    k.push_back({"asking for the result", work([&] { (void)r->Get(); })});
    k.push_back({"asking for all results", work([&] { delete r->GetAll(); })});
    k.push_back({"running again", work([&] { r->Run(); })});
    k.push_back({"asking for the type", work([&] { (void)r->GetType(); })});
  }
  k.push_back({"decoding again", work([&] { r->Decode(b.data(), b.size()); })});
  k.push_back({"releasing the runner", work([&] { delete r; })});
  return k;
}
Calls pipe_calls(const Bytes &b, const Row &row) {
  Calls k;
  bool bad = false;
  auto *r = new RelRunner;
  k.push_back({"decoding", work([&] { r->Decode(b.data(), b.size()); }, &bad)});
  if (!bad) {
    for (int i = 0; i < 2; ++i) { auto *t = real::new_tuple(row); k.push_back({"putting a row", work([&] { delete r->Put(t); })}); }
    for (int i = 0; i < 3; ++i) k.push_back({"getting", work([&] { delete r->Get(); })});
    auto *t = real::new_tuple(row);
    k.push_back({"putting another row", work([&] { delete r->Put(t); })});
  }
  k.push_back({"decoding again", work([&] { r->Decode(b.data(), b.size()); })});
  k.push_back({"releasing the runner", work([&] { delete r; })});
  return k;
}

// Expressions of n times the same
void many_operators(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  Row row = gen_row(r, types, 8, 20);
  Bytes unit, head, tail;
  size_t n = 300 + r.below(1500);
  switch (r.below(6)) {
  case 0: unit = r.pick<Bytes>({{0x01}, {0x13}, {0x11, 0x05}, {0x17, 0x00}, {0x17, 0x01, 0x41}, {0x13, 0x51}, {0x11, 0x80, 0x80, 0x00}, {0x15, 0, 0, 0, 0, 0, 0, 0, 0}, {0x14, 0x3F, 0x80, 0, 0}, {0xF0, 0x11}, {0x13, 0x23, 0x52}, {0x21, 0x05}}); n *= 2; break;
  case 1: head = {0x11, 0x01}; unit = r.pick<Bytes>({{0x11, 0x01, 0x83, 0x01}, {0x81, 0x01}, {0x82, 0x01}, {0x11, 0x03, 0xB1, 0x01}, {0xB3, 0x01}, {0xF0, 0x21, 0xF0, 0x12}}); break;    // one after the other on one value
  case 2: head = {0x13}; unit = r.pick<Bytes>({{0x51}, {0x13, 0x52}, {0x23, 0x53}, {0xA1, 0x03}, {0xA2, 0x03}}); break;
  case 3: {   // nested to the right: all constants, then all operators
    tail = times({}, {0x83, 0x01}, n, {});
    Calls a = expr_calls(times({0x11, 0x01}, {0x11, 0x01}, n, tail), nullptr);
    tail = times({}, {0x83, 0x01}, n * TIMES, {});
    Bytes b = times({0x11, 0x01}, {0x11, 0x01}, n * TIMES, tail);
    c.saw(fnv(b.data(), b.size()));
    compare(c, a, expr_calls(b, nullptr), std::to_string(n) + " INT32 constants and as many additions");
    return;
  }
  default: {
    GenOpt o;
    o.types = &types;
    o.maxstr = 12;
    o.allow = safe_op;
    unit = encode_padded(r, gen_expr(r, ALL_T[r.below(6)], 1 + r.below(12), o));
    n = n / 4 + 50;
  }
  }
  if (r.one_in(5)) tail = r.pick<Bytes>({{0xEE}, {0x00}, {0x11}, {0x11, 0xFF, 0xFF}, {0xF1, 0x77}, {0x17, 0x7F, 0x41}});
  real::Tuple t = real::tuple(row);
  Bytes b = times(head, unit, n, tail), b2 = times(head, unit, n * TIMES, tail);
  std::string what = "expression " + hex(head, 20) + ", " + std::to_string(n) + " times " + hex(unit, 60) + ", " + hex(tail, 20);
  c.at(what);
  c.saw(fnv(b2.data(), b2.size()));
  compare(c, expr_calls(b, &t), expr_calls(b2, &t), what);
  c.count("programs of many operators");
}

// Pipelines of n times the same stages, and stages of n columns
void many_stages(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types{I32, STR, F64, BOOL, I64, F32};
  Row row = gen_row(r, types, 0, 20);
  row[3] = Val::boolean(true);
  Bytes head, unit, tail;
  size_t n = 200 + r.below(600);
  bool count = false;
  switch (r.below(6)) {
  case 0: unit = r.pick<Bytes>({{0x71, 0x13, 0x00}, {0x71, 0x33, 0x03, 0x00}, {0x72, 0x31, 0x00, 0x37, 0x01, 0x35, 0x02, 0x33, 0x03, 0x32, 0x04, 0x34, 0x05, 0x00}}); if (r.one_in(2)) tail = {0x74, 0x01, 0x10}; break;
  case 1: unit = r.pick<Bytes>({{0x74, 0x01, 0x10}, {0x74, 0x02, 0x10, 0x10}, {0x74, 0x01, 0x10, 0x00}, {0x73, 0x61, 0x00, 0x01, 0x10}, {0x73, 0x61, 0x01, 0x00, 0x01, 0x10}}); break;
  case 2: head = {0x74}; unit = r.pick<Bytes>({{0x10}, {0x21, 0x00}, {0x42, 0x04}, {0x37, 0x01}, {0x15, 0x02}, {0x25, 0x02}}); count = true; n *= 2; break;
  case 3: head = {0x73, 0x61}; unit = r.pick<Bytes>({{0x00}, {0x01}, {0x80, 0x00}}); tail = {0x01, 0x10}; count = true; n *= 2; break;
  case 4: head = {0x72}; unit = r.pick<Bytes>({{0x31, 0x00}, {0x37, 0x01}, {0x35, 0x02, 0x82, 0x05}, {0x11, 0x07}}); n *= 2; break;
  default: head = {0x71, 0x13}; unit = r.pick<Bytes>({{0x51, 0x51}, {0x13, 0x52}, {0x33, 0x03, 0x53}}); n *= 2; break;
  }
  if (r.one_in(6)) tail.push_back(0xEE);
  auto make = [&](size_t k) { Bytes h = head; if (count) put_varint(h, k); return times(h, unit, k, tail); };
  Bytes b = make(n), b2 = make(n * TIMES);
  std::string what = "pipeline " + hex(head, 20) + (count ? " the number," : "") + " " + std::to_string(n) + " times " + hex(unit, 60) + ", " + hex(tail, 20) + " with rows " + show(row);
  c.at(what);
  c.saw(fnv(b2.data(), b2.size()));
  compare(c, pipe_calls(b, row), pipe_calls(b2, row), what);
  c.count("pipelines of many stages or columns");
}

// Long texts under each operator which takes some
void long_text(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<int> takers = [] { std::vector<int> v; for (size_t i = 0; i < table().ops.size(); ++i) { auto &d = table().ops[i]; bool s = false; for (int k = 0; k < d.arity; ++k) s |= d.arg[k] == STR; if (s && !d.identity) v.push_back((int)i); } return v; }();
  int op = takers[c.idx / 8 % takers.size()];
  const OpDesc &d = table().ops[op];
  size_t n = (500 + heavy(r, 5000)) * TEXT_SCALE;
  int shape = (int)r.below(6);
  auto make = [&](size_t k) {
    std::string s;
    switch (shape) {
    case 0: s.assign(k, ' '); break;
    case 1: s.assign(k, 'a'); break;
    case 2: s.assign(k, '1'); break;
    case 3: for (size_t i = 0; i < k; ++i) s += "aB "[i % 3]; break;
    case 4: s.assign(k, ' '); s[k / 2] = '7'; break;
    default: s.assign(k, '\0');
    }
    return s;
  };
  int64_t n1 = r.below(3) == 0 ? 1 : (int64_t)(n / 2), n2 = r.one_in(2) ? (int64_t)n : 3;
  int form = (int)r.below(2);    // a constant or an element of the row
  auto calls = [&](size_t times_) {
    Prog p;
    Row row;
    for (int k = 0; k < d.arity; ++k) {
      Val v = d.arg[k] == STR ? Val::str(make(n * times_)) : d.arg[k] == I32 ? Val::i32((int32_t)((k == 1 ? n1 : n2) * (int64_t)times_)) : gen_small(r, d.arg[k], 3);
      if (form) { row.push_back(v); p.push_back(v_(d.arg[k], (int64_t)row.size() - 1)); } else p.push_back(c_(v));
    }
    p.push_back(o_(op));
    Bytes b = encode(p);
    c.saw(hashv(fnv(b.data(), b.size()), row));
    real::Tuple t = real::tuple(row);
    return expr_calls(b, &t);
  };
  std::string what = d.name() + " of texts of " + std::to_string(n) + " bytes (shape " + std::to_string(shape) + ")" + (form ? " in the row" : "");
  c.at(what);
  Calls a = calls(1);
  compare(c, a, calls(TIMES), what);
  c.count("operators over long texts");
}

// One expression runner in use for long
void long_use(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  GenOpt o;
  o.types = &types;
  o.maxstr = 20;
  Prog p = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(20), o), q = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(60), o);
  Bytes b = encode(p), other = encode(q), damaged = other;
  damaged.push_back(0xEE);
  Row row = gen_row(r, types, 8, 20), row2 = gen_row(r, types, 8, 20);
  real::Tuple t = real::tuple(row), t2 = real::tuple(row2);
  std::string what = "expression " + show(p) + " on " + show(row);
  c.at(what);
  Runner rn;
  auto cycle = [&] {
    uint64_t d = work([&] { rn.Decode(b.data(), b.size()); });
    rn.BindTuple(&t);
    uint64_t w = work([&] { rn.Run(); });
    uint64_t g = work([&] { delete rn.GetAll(); });
    return std::array<uint64_t, 3>{d, w, g};
  };
  std::array<uint64_t, 3> early{}, late{};
  for (int i = 0; i < 4; ++i) { auto x = cycle(); for (int k = 0; k < 3; ++k) early[k] = std::max(early[k], x[k]); }
  int uses = c.thorough ? 3000 : 400;
  for (int i = 0; i < uses; ++i) {
    switch (r.below(6)) {
    case 0: try { rn.Decode(damaged.data(), damaged.size()); } catch (const std::exception &) {} break;
    case 1: try { rn.Decode(other.data(), other.size()); } catch (const std::exception &) {} break;
    case 2: rn.BindTuple(r.one_in(2) ? &t : &t2); break;
    case 3: rn.BindTuple(nullptr); break;
    case 4: try { (void)rn.Get(); delete rn.GetAll(); } catch (const std::exception &) {} break;
    default: try { rn.Run(); } catch (const std::exception &) {}
    }
  }
  for (int i = 0; i < 4; ++i) { auto x = cycle(); for (int k = 0; k < 3; ++k) late[k] = i ? std::min(late[k], x[k]) : x[k]; }
  c.saw(hashv(fnv(b.data(), b.size()), row));
  static const char *const names[] = {"decoding", "running", "asking for all results"};
  for (int k = 0; k < 3; ++k) if (!steady(c, names[k], early[k], late[k], what + ", after " + std::to_string(uses) + " other calls")) return;
  // and nothing but running
  uint64_t first = 0, last = 0;
  for (int i = 0; i < uses; ++i) {
    uint64_t w = work([&] { rn.Run(); });
    if (i < 4) first = std::max(first, w);
    last = w;
  }
  steady(c, "running", first, last, what + ", run " + std::to_string(uses) + " times");
  c.count("expression runners used for long");
}
// One pipeline runner given many rows: those of few groups take the same work, early and late
void many_rows(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types{I32, STR, F64, BOOL, I64};
  std::vector<Row> rows;
  for (int i = 0; i < 4; ++i) rows.push_back(gen_row(r, types, 6, 20));
  Pipe p;
  PipeOpt po;
  po.max_size = 8;
  po.exact = false;
  for (int tries = 0; tries < 20; ++tries) { p = gen_pipe(r, types, 1 + r.below(4), po); if (p[0].k != Stage::GROUPED || !p[0].groups.empty()) break; }
  Bytes b = encode(p);
  std::string what = "pipeline " + show(p) + " given " + show(rows[0]) + " and three more over and over";
  c.at(what);
  RelRunner rr;
  auto cycle = [&](bool drain) {
    std::vector<uint64_t> w(rows.size() + 1);
    for (size_t i = 0; i < rows.size(); ++i) { auto *t = real::new_tuple(rows[i]); w[i] = work([&] { delete rr.Put(t); }); }
    if (drain) for (;;) { const real::Tuple *t = nullptr; add(w.back(), work([&] { t = rr.Get(); })); if (!t) break; delete t; }
    return w;
  };
  const int uses = c.thorough ? 3000 : 300;
  for (int mode = 0; mode < 2; ++mode) {   // drained each time, or never between
    uint64_t dec[2] = {0, 0};
    std::vector<uint64_t> early(rows.size() + 1), late(rows.size() + 1);
    rr.Decode(b.data(), b.size());
    for (int i = 0; i < 3; ++i) { auto w = cycle(mode == 0); for (size_t k = 0; k < w.size(); ++k) early[k] = std::max(early[k], w[k]); }
    for (int i = 0; i < uses; ++i) cycle(mode == 0);
    for (int i = 0; i < 3; ++i) { auto w = cycle(mode == 0); for (size_t k = 0; k < w.size(); ++k) late[k] = i ? std::min(late[k], w[k]) : w[k]; }
    c.saw(hashv(fnv(b.data(), b.size(), 77 + mode), rows[0]));
    for (size_t k = 0; k < early.size(); ++k)
      if (!steady(c, k < rows.size() ? "putting a row" : "draining", early[k], late[k], what + (mode ? " without draining" : ", drained each time"))) return;
    for (int i = 0; i < 40; ++i) { uint64_t w = work([&] { rr.Decode(b.data(), b.size()); }); if (i < 3) dec[0] = std::max(dec[0], w); dec[1] = w; cycle(true); }
    add(dec[0], work([&] { RelRunner x; x.Decode(b.data(), b.size()); }));
    if (!steady(c, "decoding", dec[0], dec[1], what)) return;
  }
  c.count("pipeline runners used for long");
}
// Groups of distinct keys
void many_groups(Ctx &c) {
  Rng &r = c.r;
  size_t n = c.thorough ? 300 + r.below(6000) : 200 + r.below(1200);
  int kind = (int)r.below(5);
  int64_t from = r.range(-100000, 100000);
  auto key = [&](size_t i) {
    int64_t v = from + (int64_t)i;
    switch (kind) {
    case 0: return Val::i32((int32_t)v);
    case 1: return Val::i64(v);
    case 2: return Val::str(std::to_string(v));
    case 3: return Val::f64((double)v / 8);
    default: return Val::str(std::string(40, 'k') + std::to_string(v));
    }
  };
  static const T kt[] = {I32, I64, STR, F64, STR};
  Pipe p(1);
  p[0].k = Stage::GROUPED;
  p[0].groups = {0};
  for (size_t k = 1 + r.below(3); k--;) p[0].aggs.push_back(gen_agg(r, {kt[kind], I32}, false, false));
  if (r.one_in(3)) { Stage s; s.k = Stage::FILTER; s.prog = {c_(Val::boolean(r.one_in(2)))}; p.push_back(s); }
  Bytes b = encode(p);
  size_t repeat = 1 + r.below(3);    // rows of each group
  auto calls = [&](size_t k) {
    Calls out;
    auto *rr = new RelRunner;
    rr->Decode(b.data(), b.size());
    uint64_t put = 0, get = 0;
    for (int round = 0; round < 2; ++round) {
      for (size_t j = 0; j < repeat; ++j) for (size_t i = 0; i < k; ++i) { auto *t = real::new_tuple({key(i), Val::i32((int32_t)i)}); add(put, work([&] { delete rr->Put(t); })); }
      if (round) break;    // left for the release
      for (;;) { const real::Tuple *t = nullptr; add(get, work([&] { t = rr->Get(); })); if (!t) break; delete t; }
    }
    out.push_back({"putting the rows", put});
    out.push_back({"draining", get});
    out.push_back({"releasing the runner with rows cached", work([&] { delete rr; })});
    return out;
  };
  std::string what = "pipeline " + show(p) + " given " + std::to_string(repeat) + " rows of each of " + std::to_string(n) + " groups from " + show(key(0)) + " on";
  c.at(what);
  c.saw(hashv(fnv(b.data(), b.size(), n * 4 + repeat), key(0)));
  Calls a = calls(n);
  compare(c, a, calls(n * TIMES), what);
  c.count("aggregations of many groups");
}
// Programs over rows ever wider: what it takes to run does not depend on elements that are not asked for
void wide_rows(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 1 + r.below(6));
  GenOpt o;
  o.types = &types;
  o.maxstr = 20;
  o.var_in = 1;
  o.allow = safe_op;
  Prog p;
  for (size_t k = 1 + r.below(30); k--;) { Prog q = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(8), o); p.insert(p.end(), q.begin(), q.end()); }
  Bytes b = encode(p);
  Row row = gen_row(r, types, 8, 20);
  std::string what = "expression " + show(p) + " on rows beginning with " + show(row);
  c.at(what);
  c.saw(hashv(fnv(b.data(), b.size()), row));
  auto calls = [&](size_t width) {
    Row w = row;
    for (size_t i = w.size(); i < width; ++i) w.push_back(i % 3 ? Val::i32((int32_t)i) : Val::str("element"));
    real::Tuple t = real::tuple(w);
    return expr_calls(b, &t);
  };
  size_t n = row.size() + 20 + r.below(200);
  Calls x = calls(n), y = calls(n * TIMES);
  for (size_t i = 0; i < x.size(); ++i)
    if (!same_width(c, x[i], y[i], what, n)) return;
  c.count("programs over rows of different width");
}
// The helpers
void helpers(Ctx &c) {
  Rng &r = c.r;
  size_t n = 500 + r.below(4000);
  auto calls = [&](size_t k) {
    Calls out;
    Bytes b(k, (uint8_t)r.next());
    std::string h;
    out.push_back({"HexOfBytes", work([&] { h = dingodb::expr::HexOfBytes(b.data(), b.size()); })});
    out.push_back({"HexToBytes", work([&] { dingodb::expr::HexToBytes(b.data(), h.data(), h.size()); })});
    real::Tuple t;
    for (size_t i = 0; i < k; ++i) t.push_back(real::Operand((int32_t)i));
    std::vector<int> idx(k);
    for (size_t i = 0; i < k; ++i) idx[i] = (int)(k - 1 - i);
    out.push_back({"ConcatTuple", work([&] { delete dingodb::expr::ConcatTuple(t, t); })});
    out.push_back({"MapTuple", work([&] { delete dingodb::expr::MapTuple(t, idx.data(), idx.size()); })});
    real::Tuple u = t;
    bool same_ = false;
    size_t hash_ = 0;
    out.push_back({"comparing rows", work([&] { same_ = t == u; })});
    out.push_back({"hashing a row", work([&] { hash_ = std::hash<real::Tuple>()(t); })});
    if (!same_ || hash_ == 1) c.count("(curious)");
    return out;
  };
  c.at("helpers at " + std::to_string(n));
  c.saw(n);
  Calls a = calls(n);
  compare(c, a, calls(n * TIMES), "helpers with " + std::to_string(n) + " bytes or elements");
  c.count("helpers");
}
inline void sizes_case(Ctx &c) {
  switch (c.idx % 8) {
  case 0: case 1: return many_operators(c);
  case 2: return many_stages(c);
  case 3: return long_text(c);
  case 4: return long_use(c);
  case 5: return many_rows(c);
  case 6: return many_groups(c);
  default: if (c.idx % 32 == 7) return helpers(c); return wide_rows(c);
  }
}
}  // namespace
