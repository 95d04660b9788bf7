#pragma once
// Workloads for the sanitizers and memcheck: decoding arbitrary bytes (D01), running whatever was
// accepted (E15).  Built with ASan + UBSan + library assertions; a report ends the process and the
// status file names the case.
#include <sys/resource.h>
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;

// Exact-size block: the first byte behind the input is not ours.
struct Exact {
  uint8_t *block, *p;
  size_t n;
  explicit Exact(const Bytes &b, size_t shift = 0) : n(b.size()) {
    block = (uint8_t *)malloc(n + shift ? n + shift : 1);
    p = n + shift ? block + shift : block + 1;     // an empty input lies at the very end
    if (n) memcpy(p, b.data(), n);
  }
  ~Exact() { free(block); }
};

// ---------------------------------------------------------------- D01

static void decode_one(Ctx &c, const Bytes &b, bool pipe, size_t shift = 0, bool quiet = false) {
  c.saw(fnv(b.data(), b.size(), pipe ? 3 : 5), b.size() > 0);
  if (!quiet || c.verbose) c.at(std::string(pipe ? "pipeline " : "expression ") + hex(b, 1400));
  Exact x(b, shift);
  if (!quiet && b.size() > 4 && b.size() < 100 && c.want_sample()) c.sample(std::string(pipe ? "pipeline " : "expression ") + hex(b));
  try {
    const uint8_t *e;
    if (pipe) { RelRunner rr; e = rr.Decode(x.p, x.n); }
    else { dingodb::expr::Runner rn; e = rn.Decode(x.p, x.n); }
    if (e < x.p || e > x.p + x.n) c.fail("position", std::string(pipe ? "pipeline " : "expression ") + hex(b) + "\n decoding returned position " + std::to_string(e - x.p) + " of " + std::to_string(x.n));
    c.count("accepted");
  } catch (const std::exception &) {
    c.count("refused");
  }
}
static void d01_mutate(Rng &r, Bytes &b) {
  for (int k = 1 + (int)r.below(4); k--;) {
    size_t at = b.empty() ? 0 : r.below(b.size());
    switch (r.below(8)) {
    case 0: if (!b.empty()) b[at] = (uint8_t)r.next(); break;
    case 1: b.insert(b.begin() + at, (uint8_t)r.next()); break;
    case 2: if (!b.empty()) b.erase(b.begin() + at); break;
    case 3: if (!b.empty()) b[at] ^= (uint8_t)(1 << r.below(8)); break;
    case 4: b.resize(at); break;
    case 5: { size_t n = 1 + r.below(12); b.insert(b.begin() + at, n, (uint8_t)(0x80 | r.next())); break; }
    case 6: { Bytes v; put_varint(v, r.next() >> r.below(64), (int)r.below(4)); b.insert(b.begin() + at, v.begin(), v.end()); break; }
    default: if (!b.empty()) b[at] = r.pick<uint8_t>({0x00, 0x10, 0x11, 0x12, 0x14, 0x15, 0x17, 0x21, 0x22, 0x31, 0x3F, 0x61, 0x71, 0x72, 0x73, 0x74, 0x7F, 0x80, 0x83, 0xF0, 0xF1, 0xFC, 0xFF});
    }
  }
}
static void p_d01(Ctx &c) {
  Rng &r = c.r;
  if (c.idx < 256) {   // all one and two byte inputs, and every three byte input of a critical first byte (sampled middle)
    uint8_t a = (uint8_t)c.idx;
    for (int pipe = 0; pipe < 2; ++pipe) {
      decode_one(c, {a}, pipe);
      for (int y = 0; y < 256; ++y) {
        decode_one(c, {a, (uint8_t)y}, pipe, 0, true);
        for (int k = 0; k < 3; ++k) decode_one(c, {a, (uint8_t)y, (uint8_t)r.next()}, pipe, 0, true);
        if (pipe) { decode_one(c, {0x71, a, (uint8_t)y}, true, 0, true); decode_one(c, {0x73, 0x61, a, (uint8_t)y}, true, 0, true); decode_one(c, {0x74, 0x02, a, (uint8_t)y}, true, 0, true); }
      }
    }
    decode_one(c, {}, c.idx & 1);
    c.count("first bytes enumerated");
    return;
  }
  if (c.idx < 256 + 48) {   // very long inputs: nothing may depend on their number
    int k = (int)(c.idx - 256);
    static const std::vector<Bytes> units{{0x13}, {0x01}, {0x11, 0x05, 0x83, 0x01}, {0x51}, {0x17, 0x01, 0x41}, {0x37, 0xFF, 0xFF, 0xFF, 0xFF, 0x07},
                                          {0x71, 0x13, 0x00}, {0x71, 0x00}, {0x74, 0x00}, {0x73, 0x61, 0x01, 0x00, 0x01, 0x10, 0x00}, {0x72, 0x31, 0x00, 0x00}, {0x74, 0x01, 0x21, 0x00}};
    const Bytes &u = units[k % 12];
    size_t n = (k / 12 == 0 ? 2000 : k / 12 == 1 ? 20000 : c.thorough ? 700000 : 120000) / u.size();
    Bytes b;
    for (size_t i = 0; i < n; ++i) b.insert(b.end(), u.begin(), u.end());
    if (k / 12 == 3) b.push_back(0xEE);
    c.counters["longest input"] = std::max<uint64_t>(c.counters["longest input"], b.size());
    decode_one(c, b, k % 12 >= 6);
    return;
  }
  if (c.idx % 97 == 5) {   // text of random bytes, long elements
    Bytes b;
    for (size_t i = heavy(r, 20000); i--;) b.push_back((uint8_t)r.next());
    decode_one(c, b, r.one_in(2), r.below(9));
    return;
  }
  std::vector<T> types = gen_types(r, 1 + r.below(4));
  bool pipe = r.one_in(2);
  Bytes b;
  if (pipe) b = encode_padded(r, gen_pipe(r, types, 1 + r.below(5), PipeOpt()));
  else { GenOpt o; o.types = &types; o.maxstr = 30; for (int k = 1 + (int)r.below(3); k--;) { Bytes e = encode_padded(r, gen_expr(r, ALL_T[r.below(6)], 1 + r.below(25), o)); b.insert(b.end(), e.begin(), e.end()); } if (r.one_in(2)) b.push_back(0); }
  decode_one(c, b, pipe, r.below(9));
  if (r.one_in(3)) {
    size_t step = 1 + b.size() / 300;
    for (size_t n = 0; n < b.size(); n += step) decode_one(c, Bytes(b.begin(), b.begin() + n), pipe, r.below(3));
    c.count("truncation series");
  } else {
    for (int i = 0; i < 40; ++i) { Bytes x = b; d01_mutate(r, x); decode_one(c, x, r.one_in(8) ? !pipe : pipe, r.below(9)); }
    c.count("mutation series");
  }
}

// ---------------------------------------------------------------- E15

// The largest element index an accepted program refers to; false when one cannot be covered.
static bool covers(const Prog &p, size_t width) {
  for (auto &i : p) if (i.k == Ins::VAR && (i.idx < 0 || (size_t)i.idx >= width)) return false;
  return true;
}

static void poke(dingodb::expr::Runner &rn) {   // asking for results in whatever state
  try { (void)rn.Get(); } catch (const std::exception &) {}
  try { std::unique_ptr<real::Tuple> t(rn.GetAll()); } catch (const std::exception &) {}
  try { (void)rn.GetType(); } catch (const std::exception &) {}
  try { (void)rn.GetOptional<int32_t>(); } catch (const std::exception &) {}
  try { (void)rn.GetOptional<real::String>(); } catch (const std::exception &) {}
}
static void run_expr(Ctx &c, const Bytes &b, const std::vector<Row> &rows) {
  Scan s = scan_expr(b, 0, b.size());
  c.at("expression " + hex(b, 500) + (rows.empty() ? "" : " tuple " + show(rows[0]).substr(0, 1500)));
  dingodb::expr::Runner rn;
  poke(rn);
  try {
    Exact x(b);
    rn.Decode(x.p, x.n);
  } catch (const std::exception &) {
    c.count("refused");
    poke(rn);
    return;
  }
  if (s.acc != ACC && s.acc != OPEN) { c.count("accepted against the documentation"); return; }   // judged by D03
  if (s.acc == OPEN) return;
  c.count("accepted");
  for (size_t k = 0; k <= rows.size(); ++k) {
    const Row *row = k ? &rows[k - 1] : nullptr;
    if (row && !covers(s.prog, row->size())) { c.count("skipped: index beyond the tuple"); continue; }
    real::Tuple t;
    if (row) t = real::tuple(*row);
    Run exp = eval(s.prog, row);
    rn.BindTuple(row ? &t : nullptr);
    c.saw(row ? hashv(fnv(b.data(), b.size()), *row) : fnv(b.data(), b.size()), !s.prog.empty());
    bool raised = false;
    Row got;
    try {
      rn.Run();
      std::unique_ptr<real::Tuple> all(rn.GetAll());
      got = real::row(*all, &exp.stack);
    } catch (const std::exception &) {
      raised = true;
    }
    poke(rn);
    c.count(raised ? "runs ending in an error" : "runs ending in a result");
    if (c.want_sample() && s.prog.size() > 2 && s.prog.size() < 9) c.sample(show(s.prog) + (row ? " over " + show(*row) : std::string()) + (raised ? " ended in an error" : " gave " + show(got)));
    std::string d = show(s.prog) + "\n code " + hex(b) + (row ? "\n tuple " + show(*row) : std::string());
    if (exp.st == ERR && !exp.by_value && !raised) { c.fail("no-error", d + "\n an error is required, got " + show(got)); return; }
    if (exp.st == OK && exp.stack.empty()) {   // nothing there to ask for
      bool r2 = false;
      try { (void)rn.Get(); } catch (const std::exception &) { r2 = true; }
      if (!r2) { c.fail("empty-get", d + "\n asking for the result of an expression that leaves none must be an error"); return; }
    }
    rn.BindTuple(nullptr);
  }
}
static bool covers(const Pipe &p, size_t width) {
  for (auto &s : p) {
    if (s.k == Stage::FILTER) { if (!covers(s.prog, width)) return false; }
    else if (s.k == Stage::PROJECT) {
      if (!covers(s.prog, width)) return false;
      long n = 0;   // the number of columns, when every operator has its operands
      for (auto &i : s.prog) {
        if (i.k != Ins::OP) { ++n; continue; }
        const OpDesc &d = table().ops[i.op];
        if (n < d.arity) { n = 0; width = 0; return true; }   // every row raises an error here
        n -= d.arity - 1;
      }
      width = (size_t)n;
    } else {
      for (auto g : s.groups) if (g < 0 || (size_t)g >= width) return false;
      for (auto &a : s.aggs) if (!a.all() && (a.idx < 0 || (size_t)a.idx >= width)) return false;
      width = s.groups.size() + s.aggs.size();
    }
  }
  return true;
}
static void run_pipe(Ctx &c, const Bytes &b, const std::vector<Row> &rows) {
  RScan s = scan_rel(b);
  c.at("pipeline " + hex(b, 900) + (rows.empty() ? "" : " first row " + show(rows[0]).substr(0, 1000)));
  RelRunner rr;
  if (rr.Get() != nullptr) { c.fail("get-nothing", "a runner without pipeline returned a row"); return; }
  try {
    Exact x(b);
    rr.Decode(x.p, x.n);
  } catch (const std::exception &) {
    c.count("refused");
    return;
  }
  if (s.acc != ACC) return;
  size_t width = rows.empty() ? 0 : rows[0].size();
  if (!covers(s.pipe, width)) { c.count("skipped: index beyond the row"); return; }
  c.count("accepted");
  PipeModel pm(s.pipe);
  bool open = false, stateless = true;
  for (auto &g : s.pipe) if (g.k >= Stage::GROUPED) stateless = false;
  for (auto &row : rows) {
    c.saw(hashv(fnv(b.data(), b.size()), row));
    bool raised = false;
    try {
      const real::Tuple *o = rr.Put(real::new_tuple(row));
      if (o) { (void)real::row(*o); delete o; }
    } catch (const std::exception &) { raised = true; }
    c.count(raised ? "rows ending in an error" : "rows processed");
    if (open) continue;
    std::vector<Row> exp = pm.put(row);
    St st = pm.status;
    bool by_value = pm.by_value;
    pm.status = OK;
    pm.by_value = false;
    if (st != OK && !stateless) open = true;
    std::string d = show(s.pipe) + "\n code " + hex(b) + "\n row " + show(row);
    if (st == ERR && !raised && s.pipe.empty()) { c.fail("empty-pipeline", d + "\n putting a row into a runner without a pipeline must be an error"); return; }
    if (st == ERR && !by_value && !raised) { c.fail("put/no-error", d + "\n must raise an error"); return; }
    if (st == OK && s.pipe.empty()) { if (!raised) { c.fail("empty-pipeline", d + "\n putting a row into a runner without a pipeline must be an error"); return; } continue; }
    if (!raised && (c.r.s[0] & 7) == 0) { try { const real::Tuple *o = rr.Get(); if (o) { open = true; delete o; } } catch (const std::exception &) { open = true; } if (!stateless) open = true; }
  }
  for (int k = 0; k < 100000; ++k) {
    try {
      const real::Tuple *o = rr.Get();
      if (!o) break;
      c.count("rows drained");
      delete o;
    } catch (const std::exception &) { break; }
  }
}
static Prog soup(Rng &r, size_t n, size_t width) {
  Prog p;
  for (size_t i = 0; i < n; ++i) {
    T t = ALL_T[r.below(6)];
    switch (r.below(7)) {
    case 0: p.push_back(n_(t)); break;
    case 1: case 2: p.push_back(c_(gen_val(r, t, 30))); break;
    case 3: case 4: if (width) p.push_back(v_(t, (int64_t)r.below(width))); break;   // any declared type
    default: p.push_back(o_((int)r.below(table().ops.size())));
    }
  }
  return p;
}
static void p_e15(Ctx &c) {
  Rng &r = c.r;
  size_t width = 1 + r.below(8);
  std::vector<T> types = gen_types(r, width);
  std::vector<Row> rows;
  for (int i = 0; i < 3; ++i) rows.push_back(gen_row(r, types, 4, 30));
  size_t nops = table().ops.size();
  if (c.idx < nops * 3) {   // each operator with too few operands, and with each wrong type in each place
    int op = (int)(c.idx % nops);
    const OpDesc &d = table().ops[op];
    for (int have = 0; have < d.arity; ++have) {
      Prog p;
      for (int i = 0; i < have; ++i) p.push_back(c_(gen_val(r, d.arg[i], 10)));
      p.push_back(o_(op));
      run_expr(c, encode(p), {});
      if (c.nviol) return;
    }
    for (int at = 0; at < d.arity; ++at)
      for (T t : ALL_T) {
        Prog p;
        for (int i = 0; i < d.arity; ++i) p.push_back(c_(gen_val(r, i == at ? t : d.arg[i], 10)));
        p.push_back(o_(op));
        run_expr(c, encode(p), {});
        if (c.nviol) return;
      }
    for (int k = 0; k < 20; ++k) {
      Prog p;
      for (int i = 0; i < d.arity; ++i) p.push_back(c_(i > 0 && d.arg[i] == I32 && d.arg[0] == STR ? Val::i32(r.pick<int32_t>({INT32_MIN, INT32_MAX, -1, 0, 1, 5, 30, (int32_t)r.next()})) : gen_val(r, d.arg[i], 40)));
      p.push_back(o_(op));
      run_expr(c, encode(p), {});
      if (c.nviol) return;
    }
    c.count("operators enumerated");
    return;
  }
  if (c.idx % 200 == 7) {   // very long and deep ones
    size_t n = c.thorough ? 300000 : 60000;
    Prog p;
    if (r.one_in(2)) { for (size_t i = 0; i < n; ++i) p.push_back(c_(Val::i32((int32_t)i))); for (size_t i = 0; i + 1 < n + r.below(3); ++i) p.push_back(o_(table().two[0x83][I32])); }
    else p = soup(r, n / 10, width);
    run_expr(c, encode(p), {});
    Bytes b;
    for (size_t i = 0; i < n / 4; ++i) { b.push_back(0x71); b.push_back(0x13); b.push_back(0x00); }
    if (r.one_in(2)) { b.push_back(0x74); b.push_back(1); b.push_back(0x10); }
    run_pipe(c, b, rows);
    c.count("very long programs");
    return;
  }
  switch (r.below(6)) {
  case 0: case 1:
    for (int k = 0; k < 10; ++k) { run_expr(c, encode_padded(r, soup(r, 1 + r.below(12), width)), rows); if (c.nviol) return; }
    c.count("operator soups", 10);
    break;
  case 2: {  // mostly well formed, then disturbed
    GenOpt o;
    o.types = &types;
    o.null_in = 10;
    for (int k = 0; k < 5; ++k) {
      Prog p = gen_expr(r, ALL_T[r.below(6)], 2 + r.below(30), o);
      if (r.one_in(2)) p.erase(p.begin() + r.below(p.size()));
      else if (r.one_in(2)) p.insert(p.begin() + r.below(p.size()), o_((int)r.below(nops)));
      else std::swap(p[r.below(p.size())], p[r.below(p.size())]);
      run_expr(c, encode(p), rows);
      if (c.nviol) return;
    }
    c.count("disturbed programs", 5);
    break;
  }
  case 3: case 4: {  // pipelines, with columns of other types than announced, and expressions that fail
    std::vector<T> lie = r.one_in(2) ? types : gen_types(r, width);
    PipeOpt po;
    po.wild = r.one_in(2);
    Pipe p = gen_pipe(r, lie, 1 + r.below(5), po);
    if (r.one_in(3)) { Stage &s = p[r.below(p.size())]; if (s.k == Stage::FILTER) s.prog = soup(r, 1 + r.below(5), width); }
    for (int k = 0; k < 10; ++k) rows.push_back(gen_row(r, types, 4, 30, 1, 4));
    run_pipe(c, encode_padded(r, p), rows);
    c.count("pipelines");
    break;
  }
  default: {  // damaged bytes that are still accepted
    GenOpt o;
    o.types = &types;
    Bytes b = r.one_in(2) ? encode(gen_expr(r, ALL_T[r.below(6)], 2 + r.below(20), o)) : encode(soup(r, 1 + r.below(20), width));
    Bytes q = encode_padded(r, gen_pipe(r, types, 1 + r.below(4), PipeOpt()));
    for (int k = 0; k < 8; ++k) {
      Bytes x = b, y = q;
      if (!x.empty()) x[r.below(x.size())] ^= (uint8_t)(1 << r.below(8));
      y[r.below(y.size())] ^= (uint8_t)(1 << r.below(8));
      run_expr(c, x, rows);
      run_pipe(c, y, rows);
      if (c.nviol) return;
    }
    c.count("damaged programs", 16);
  }
  }
  if (c.idx % 50 == 3) run_pipe(c, {}, rows);
}
