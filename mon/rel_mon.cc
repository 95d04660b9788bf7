// Monitors of the relational pipeline: every row put in and got out of the real runner is recorded
// and compared with the reference model.  Properties R01..R05, R07, and the pipeline parts of D03, D05.
#include <unordered_map>
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;

struct RealPipe {
  RelRunner rr;
  std::string what;
  std::unordered_map<std::string, std::shared_ptr<std::string>> *pool = nullptr;

  // -1 error, 0 nothing, 1 a row
  int take(const real::Tuple *t, Row &out, const Row *hint) {
    if (!t) return 0;
    out = real::row(*t, hint);
    delete t;
    return 1;
  }
  real::Tuple *make(const Row &row) {
    auto *t = real::new_tuple(row);
    if (pool)
      for (size_t i = 0; i < row.size(); ++i)
        if (row[i].t == STR) {
          auto &p = (*pool)[row[i].s];
          if (!p) p = std::make_shared<std::string>(row[i].s);
          (*t)[i] = real::Operand(p);
        }
    return t;
  }
  bool same_object = true;   // whether the last row returned by put is the very one put in
  int put(const Row &row, Row &out, const Row *hint) {
    auto *t = make(row);
    try {
      const real::Tuple *got = rr.Put(t);
      same_object = !got || got == t;
      return take(got, out, hint);
    } catch (const std::exception &e) {
      what = std::string("error: ") + e.what();
      return -1;
    }
  }
  int get(Row &out, const Row *hint = nullptr) {
    try {
      return take(rr.Get(), out, hint);
    } catch (const std::exception &e) {
      what = std::string("error: ") + e.what();
      return -1;
    }
  }
};

static std::string describe(const Pipe &p, const Bytes &b) { return show(p) + "\n code " + hex(b); }

static bool decode(Ctx &c, RealPipe &rp, const Pipe &p, const Bytes &b) {
  Bytes copy(b);
  const uint8_t *e;
  try {
    e = rp.rr.Decode(copy.data(), copy.size());
  } catch (const std::exception &x) {
    c.fail("decode", describe(p, b) + "\n refused: " + x.what());
    return false;
  }
  if (e != copy.data() + copy.size()) {
    c.fail("position", describe(p, b) + "\n decoding ended at " + std::to_string(e - copy.data()) + " of " + std::to_string(copy.size()));
    return false;
  }
  memset(copy.data(), 0xEE, copy.size());
  return true;
}

typedef std::function<bool()> Excuse;
// A deviation is charged to the pipeline only when each expression, evaluated alone by a fresh runner,
// gives what the model says (otherwise the operators are at fault, E01..E12), and `more` does not excuse it.
static bool charged(Ctx &c, PipeModel &pm, const Excuse &more) {
  for (auto &e : pm.log)
    if (real::fresh_differs_each(*e.first, &e.second)) { c.count("deviations of an expression itself (not charged here)"); return false; }
  if (more && more()) { c.count("deviations of a single stage or fresh runner (not charged here)"); return false; }
  return true;
}

// Puts one row into both and compares. Returns false after a violation. `open` is set when the model
// leaves what follows open (the runner must then be decoded again).
static bool step_put(Ctx &c, RealPipe &rp, PipeModel &pm, const Row &row, const std::function<std::string()> &what, bool &open, bool stateless, const Excuse &more = nullptr) {
  pm.record = true;
  if (stateless) pm.log.clear();
  auto fail = [&](const char *key, const std::string &d) {
    if (!charged(c, pm, more)) { open = true; return true; }
    c.fail(key, d);
    return false;
  };
  std::vector<Row> exp = pm.put(row);
  St st = pm.status;
  pm.status = OK;
  Row out;
  int k = rp.put(row, out, exp.empty() ? nullptr : &exp[0]);
  c.saw(hashv(c.idx * 31 + c.evaluations, row));
  if (st != OK) {
    c.count(st == ERR ? "rows raising an error" : "rows left open");
    if (st == ERR && k != -1) return fail("put/no-error", what() + "\n row " + show(row) + "\n must raise an error, gave " + (k ? show(out) : "nothing"));
    if (!stateless) open = true;
    return true;
  }
  if (k == -1) return fail("put/error", what() + "\n row " + show(row) + "\n raised " + rp.what);
  if (exp.empty() && k == 1) return fail("put/extra", what() + "\n row " + show(row) + "\n returned " + show(out) + ", expected nothing");
  if (!exp.empty() && k == 0) return fail("put/lost", what() + "\n row " + show(row) + "\n returned nothing, expected " + show(exp[0]));
  if (k == 1 && !same(out, exp[0])) return fail("put/value", what() + "\n row " + show(row) + "\n returned " + show(out) + ", expected " + show(exp[0]));
  c.count(k ? "rows returned by put" : "rows held back by put");
  return true;
}
// Drains completely and compares as a multiset.
static bool step_drain(Ctx &c, RealPipe &rp, PipeModel &pm, const std::function<std::string()> &what, bool &open, const Excuse &more = nullptr) {
  pm.record = true;
  auto fail = [&](const char *key, const std::string &d) {
    if (!charged(c, pm, more)) { open = true; return true; }
    c.fail(key, d);
    return false;
  };
  std::vector<Row> exp = pm.drain(), got;
  St st = pm.status;
  pm.status = OK;
  size_t limit = exp.size() + 1000;
  bool raised = false;
  for (;;) {
    Row r;
    int k = rp.get(r, got.size() < exp.size() ? &exp[got.size()] : nullptr);
    if (k == -1) { raised = true; break; }
    if (k == 0) break;
    got.push_back(r);
    if (got.size() > limit) break;
  }
  c.saw(hashv(c.idx * 31 + c.evaluations, exp.empty() ? Row() : exp[0]), !exp.empty());
  if (st != OK) {
    c.count("drains left open");
    open = true;
    return true;
  }
  if (raised) return fail("get/error", what() + "\n draining raised " + rp.what);
  std::string d = bag_diff(got, exp, true);
  if (!d.empty()) return fail("get/rows", what() + "\n drained " + std::to_string(got.size()) + " rows, expected " + std::to_string(exp.size()) + d);
  pm.log.clear();
  for (int i = 0; i < 2; ++i) {
    Row r;
    int k = rp.get(r);
    if (k != 0) { c.fail("get/after-end", what() + "\n after the end, get gave " + (k == 1 ? show(r) : rp.what)); return false; }
  }
  c.count("rows drained", got.size());
  c.count("drains");
  return true;
}

static std::vector<T> some_types(Rng &r, size_t max = 8) { return gen_types(r, 1 + r.below(max)); }

// ---------------------------------------------------------------- R01 R02

static void streaming(Ctx &c, int kind) {
  Rng &r = c.r;
  const bool wide = c.idx % 1500 == 11, tall = c.idx % 1500 == 12;   // beyond 16 bits
  std::vector<T> types = wide ? gen_types(r, 65600 + r.below(3000)) : tall ? gen_types(r, 2) : some_types(r, r.one_in(10) ? 300 : 8), t2 = types;
  PipeOpt po;
  po.wild = r.one_in(4);
  po.max_size = r.one_in(4) ? 200 : 14;
  Pipe p;
  if (wide) po.max_size = 14;
  if (kind == 1 && (wide || r.one_in(20))) {   // very wide projection
    Stage s;
    s.k = Stage::PROJECT;
    size_t n = wide ? 65530 + r.below(3000) : heavy(r, 3000);
    for (size_t i = 0; i < n; ++i) { size_t x = r.below(types.size()); s.prog.push_back(r.one_in(3) ? c_(gen_val(r, STR, 10)) : v_(types[x], (int64_t)x)); }
    p.push_back(s);
    c.count("wide projections");
  } else p.push_back(gen_stage(r, kind ? Stage::PROJECT : Stage::FILTER, t2, false, true, po));
  Bytes b = encode_padded(r, p);
  RealPipe rp;
  std::unordered_map<std::string, std::shared_ptr<std::string>> pool;
  if (r.one_in(2)) rp.pool = &pool;
  c.at(describe(p, b));
  if (!decode(c, rp, p, b)) return;
  PipeModel pm(p);
  bool open = false;
  size_t n = wide ? 3 : tall ? 65530 + r.below(5000) : 1 + heavy(r, r.one_in(20) ? 5000 : 120);
  // Long stretches of rows with the same outcome, or of the very same row
  const bool stretches = !wide && !tall && r.one_in(kind ? 12 : 6);
  std::vector<Row> lots[3];
  if (stretches) {
    for (int i = 0; i < 60; ++i) {
      Row row = gen_row(r, types, 3, 12, 1, 20);
      Run e = eval(p[0].prog, &row);
      if (e.st == OK && !e.stack.empty()) lots[kind ? r.below(3) : e.stack.back().isnull() ? 2 : e.stack.back().i ? 1 : 0].push_back(row);
    }
    if (r.one_in(2)) for (auto &l : lots) if (!l.empty()) l.resize(1);
    n = 200 + heavy(r, r.one_in(6) ? 20000 : 2000);
    c.count("histories in stretches");
  }
  size_t left = 0, run_of = 0, lot = 0;
  for (size_t i = 0; i < n; ++i) {
    if (left == 0) { left = 1 + heavy(r, 5000); lot = r.below(3); run_of = 0; } else --left;
    Row row = stretches && !lots[lot].empty() ? r.pick(lots[lot]) : gen_row(r, types, r.one_in(2) ? 4 : 0, r.one_in(10) ? 400 : 12, 1, 20);
    c.counters["longest stretch"] = std::max<uint64_t>(c.counters["longest stretch"], stretches ? ++run_of : 0);
    if (!step_put(c, rp, pm, row, [&] { return describe(p, b) + "\n after " + std::to_string(i) + " rows"; }, open, true)) return;
    if (kind == 0 && !rp.same_object) { c.fail("put/identity", describe(p, b) + "\n row " + show(row) + "\n another tuple was returned, not the one put in"); return; }
    if (r.one_in(10)) { Row x; if (rp.get(x) != 0) { c.fail("get", describe(p, b) + "\n get returned something from a streaming pipeline"); return; } }
    // the shared string objects are unchanged
    if (rp.pool && i % 16 == 0) for (auto &e : pool) if (*e.second != e.first) { c.fail("string-modified", describe(p, b) + "\n a string held by an input row was changed"); return; }
  }
  if (c.want_sample()) c.sample(show(p) + ", " + std::to_string(n) + " rows");
  c.count("pipelines");
}

// ---------------------------------------------------------------- R03 R04

static Row key_row(Rng &r, const std::vector<T> &types, int mode, int64_t span, size_t i, const std::string &prefix) {
  Row row;
  for (T t : types) {
    if (r.one_in(9)) { row.push_back(Val::null()); continue; }
    Val v;
    switch (mode) {
    case 0: v = gen_small(r, t, span); break;
    case 1:   // multiples of 31 and small numbers: equal hashes for different keys under a polynomial hash
      v = gen_small(r, t, 3);
      if (t == I32) v = Val::i32((int32_t)(r.range(-2, 2) * (r.one_in(2) ? 31 : 1) + (r.one_in(4) ? r.range(-1, 1) * 961 : 0)));
      if (t == I64) v = Val::i64(r.range(-2, 2) * (r.one_in(2) ? 31 : 1) + (r.one_in(4) ? r.range(-1, 1) * 961 : 0));
      break;
    case 2:   // long strings that differ late, neighbouring numbers
      if (t == STR) { std::string s = prefix; s[s.size() - 1 - r.below(std::min<size_t>(3, s.size()))] = (char)r.below(3); if (r.one_in(4)) s.resize(s.size() - r.below(2)); v = Val::str(s); }
      else { v = gen_small(r, t, 2); if (t == I64) v.i += (int64_t)1 << 62; if (t == F64) v.d = dbits(bits(1e15) + r.below(4)); if (t == F32) v.f = fbits(bits(1e6f) + (uint32_t)r.below(4)); if (t == I32) v.i += INT32_MAX - 4; }
      break;
    case 3:   // every row its own group
      v = t == I32 ? Val::i32((int32_t)(i * 7919)) : t == I64 ? Val::i64((int64_t)i << 20) : t == STR ? Val::str("key" + std::to_string(i)) : gen_small(r, t, span);
      break;
    default: v = gen_val(r, t, 20);
    }
    if (isnan(v)) v = gen_small(r, t, 1);
    if (v.t == F32 && v.f == 0 && r.one_in(2)) v.f = -v.f;
    if (v.t == F64 && v.d == 0 && r.one_in(2)) v.d = -v.d;
    row.push_back(v);
  }
  return row;
}

static void aggregate(Ctx &c, bool grouped) {
  Rng &r = c.r;
  // columns: keys first, then values, shuffled by the index lists
  const bool wide = c.idx % 400 == 16, tall = c.idx % 400 == 17;   // columns, rows and groups beyond 16 bits
  size_t nk = grouped ? (wide ? 200 + r.below(200) : r.one_in(20) && !tall ? 0 : r.one_in(8) ? 4 + r.below(12) : 1 + r.below(3)) : 0;
  std::vector<T> ktypes = gen_types(r, nk), vtypes = gen_types(r, wide ? (r.one_in(2) ? 40000 : 65700) : 1 + r.below(6));
  if (nk && (tall || c.idx % 5 == 0)) for (auto &t : ktypes) t = (c.idx / 5) % 2 ? I32 : STR;
  std::vector<T> types(vtypes);
  types.insert(types.end(), ktypes.begin(), ktypes.end());
  Stage s;
  s.k = grouped ? Stage::GROUPED : Stage::UNGROUPED;
  s.eoe = r.one_in(3);
  for (size_t i = 0; i < nk; ++i) s.groups.push_back((int64_t)(vtypes.size() + i));
  for (size_t i = nk; i > 1; --i) std::swap(s.groups[i - 1], s.groups[r.below(i)]);
  if (nk && r.one_in(6)) s.groups.push_back(s.groups[r.below(nk)]);      // the same column twice
  if (nk > 1 && r.one_in(6)) s.groups.pop_back();
  size_t na = r.one_in(10) ? 0 : r.one_in(12) ? heavy(r, 300) : 1 + r.below(6);
  if (!grouped && c.idx % 3 == 0) {  // enumerate every aggregation
    static std::vector<uint8_t> codes;
    if (codes.empty()) for (int x = 0; x < 256; ++x) if (agg_ok((uint8_t)x)) codes.push_back((uint8_t)x);
    Agg a;
    a.code = codes[(c.idx / 3) % codes.size()];
    if (!a.all()) { vtypes.push_back(a.t()); types.insert(types.begin() + vtypes.size() - 1, a.t()); a.idx = (int64_t)vtypes.size() - 1; }
    s.aggs.push_back(a);
    c.count("aggregation enumerated");
  }
  if (wide) na = 40;
  for (size_t i = 0; i < na; ++i) { Agg a = gen_agg(r, types, false, false); s.aggs.push_back(a); }
  if (grouped) for (auto &g : s.groups) { (void)g; }
  for (auto &a : s.aggs) { static const char *k[] = {"", "COUNT", "SUM", "MAX", "MIN"}; c.count(a.all() ? std::string("COUNT(*)") : std::string(k[a.kind()]) + "<" + tname(a.t()) + ">"); }
  Pipe p{s};
  Bytes b = encode_padded(r, p);
  RealPipe rp;
  std::unordered_map<std::string, std::shared_ptr<std::string>> pool;
  if (r.one_in(2)) rp.pool = &pool;
  c.at(describe(p, b));
  if (!decode(c, rp, p, b)) return;
  PipeModel pm(p);
  size_t rounds = r.one_in(4) ? 1 + r.below(4) : 1;
  int64_t span = r.pick({0, 1, 2, 5, 20, 100, 1000});
  int mode = tall && !r.one_in(4) ? 3 : (int)r.below(5);
  std::string prefix = gen_bytes(r, 1 + heavy(r, 200));
  bool open = false;
  for (size_t round = 0; round < rounds; ++round) {
    size_t n = wide ? r.below(5) : tall ? 66000 + r.below(8000) : r.one_in(15) ? 0 : r.one_in(c.thorough ? 10 : 30) ? heavy(r, c.thorough ? 60000 : 20000) : heavy(r, 400);
    bool all_null = r.one_in(8), nulls = r.one_in(2), tame = r.one_in(2);
    bool no_nan = r.one_in(3);
    const bool alike = !wide && r.one_in(4);
    std::vector<Row> palette;
    if (alike) { palette = gen_palette(r, vtypes); c.count("rounds with columns of few values"); }
    c.counters["most rows"] = std::max<uint64_t>(c.counters["most rows"], n);
    for (size_t i = 0; i < n; ++i) {
      Row row = alike ? palette_row(r, palette, all_null ? 1 : nulls ? 4 : 0) : gen_row(r, vtypes, all_null ? 1 : nulls ? 4 : 0, r.one_in(20) ? 200 : 12, tame ? 1 : 0, 20);
      if (no_nan || (mode != 4))
        for (auto &v : row) if (isnan(v)) v = gen_small(r, v.t, 9);
      Row key = key_row(r, ktypes, mode, span, i, prefix);
      row.insert(row.end(), key.begin(), key.end());
      if (!step_put(c, rp, pm, row, [&] { return describe(p, b) + "\n after " + std::to_string(i) + " rows of round " + std::to_string(round); }, open, false)) return;
      if (open) return;
    }
    uint64_t groups = grouped ? pm.st[0].groups.size() : 0;
    c.counters["most columns"] = std::max<uint64_t>(c.counters["most columns"], types.size());
    if (grouped) { c.count("groups", groups); c.counters["most groups"] = std::max<uint64_t>(c.counters["most groups"], groups); }
    if (c.want_sample() && n) c.sample(show(p) + ", " + std::to_string(n) + " rows" + (grouped ? ", " + std::to_string(groups) + " groups" : ""));
    if (!step_drain(c, rp, pm, [&] { return describe(p, b) + "\n " + std::to_string(n) + " rows in round " + std::to_string(round); }, open)) return;
    if (open) return;
  }
}

// ---------------------------------------------------------------- R01 R03 R04 R05, more rows than 24 (thorough: 32) bits count

struct Vast {
  enum { KEYS = 3 };
  uint64_t salt;
  int64_t mod = 8;                      // the filter: number % mod != 0, or == 0
  bool differ = true;
  int change = 0;                       // numbers are multiples of mod before (1) or from (2) `late` on
  uint64_t late = 0;
  static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ x >> 29; }
  // row i: key, number, NULL now and then
  int32_t key(uint64_t i) const { return i < 5 ? (int32_t)(1000 + i) : i < 1000 ? 7 : (int32_t)(mix(i ^ salt) % KEYS); }
  int64_t num(uint64_t i) const {
    int64_t x = (int64_t)(mix(i + salt) >> 20);
    return change == 0 || i % 5000000 == 4999999 || (i >= late) == (change == 1) ? x : x / mod * mod;
  }
  bool null(uint64_t i) const { return mix(i * 3 + salt) % 64 == 0; }
  bool passes(uint64_t i) const { return !null(i) && (num(i) % mod != 0) == differ; }
};
struct Tally {
  int64_t rows = 0, count = 0; uint64_t sum = 0; uint32_t sum32 = 0; int64_t most = 0, least = 0; bool any = false;
  void add(const Vast &v, uint64_t i) {
    ++rows;
    if (v.null(i)) return;
    ++count;
    int64_t x = v.num(i);
    sum += (uint64_t)x;
    sum32 += (uint32_t)v.key(i);
    if (!any || x > most) most = x;
    if (!any || x < least) least = x;
    any = true;
  }
};

// kind: 0 a filter, 1 groups, 2 one aggregation, 3 filter, projection and one of these behind
static bool vast(Ctx &c, int kind, bool grouped, const Vast v, const uint64_t n) {
  Stage f, pr, g;
  f.k = Stage::FILTER;
  f.prog = {v_(I64, 1), c_(Val::i64(v.mod)), o_(table().two[0x87][I64]), c_(Val::i64(0)), o_(table().two[v.differ ? 0x96 : 0x91][I64])};
  pr.k = Stage::PROJECT;
  pr.prog = {v_(I32, 0), v_(I64, 1), v_(I32, 2)};
  g.k = grouped ? Stage::GROUPED : Stage::UNGROUPED;
  if (grouped) g.groups = {0};
  for (auto x : std::vector<std::pair<uint8_t, int64_t>>{{0x10, 0}, {0x12, 1}, {0x22, 1}, {0x21, 2}, {0x32, 1}, {0x42, 1}}) { Agg a; a.code = x.first; a.idx = x.second; g.aggs.push_back(a); }
  Pipe p;
  if (kind == 0 || kind == 3) p.push_back(f);
  if (kind == 3) p.push_back(pr);
  if (kind != 0) p.push_back(g);
  Bytes b = encode(p);
  RealPipe rp;
  const std::string what = std::to_string(n) + " rows through " + describe(p, b);
  c.at(what);
  if (!decode(c, rp, p, b)) return false;
  std::map<int32_t, Tally> exp;
  auto row = [&](uint64_t i) {
    auto *t = new real::Tuple(3);
    (*t)[0] = v.key(i);
    if (!v.null(i)) { (*t)[1] = v.num(i); (*t)[2] = v.key(i); }
    return t;
  };
  auto fail = [&](const char *key, const std::string &d, const Row *at = nullptr) {
    if (at && real::fresh_differs(f.prog, at)) { c.count("deviations of an expression itself (not charged here)"); return false; }
    if (kind == 3) {      // a stage by itself does the same?
      auto alone = std::make_unique<Ctx>();
      if (!vast(*alone, 0, grouped, v, n) || !vast(*alone, grouped ? 1 : 2, grouped, v, n)) { c.count("deviations of a single stage (not charged here)"); return false; }
    }
    c.fail(key, d);
    return false;
  };
  const bool filtered = kind == 0 || kind == 3;
  for (uint64_t i = 0; i < n; ++i) {
    if (i % (1 << 20) == 0) { c.at("row " + std::to_string(i) + " of " + what); c.saw(v.salt + i); }
    const real::Tuple *t = row(i), *got;
    try { got = rp.rr.Put(t); } catch (const std::exception &e) { return fail("vast/error", "row " + std::to_string(i) + " of " + what + "\n raised " + e.what()); }
    const bool out = kind == 0 && v.passes(i);
    if ((got != nullptr) != out) {
      delete got;
      Row here{Val::i32(v.key(i)), v.null(i) ? Val::null() : Val::i64(v.num(i)), v.null(i) ? Val::null() : Val::i32(v.key(i))};
      return fail("vast/put", "row " + std::to_string(i) + " of " + what + (got ? "\n was given back" : "\n is gone") + ": " + show(here), &here);
    }
    delete got;
    if (kind && (!filtered || v.passes(i))) exp[grouped ? v.key(i) : 0].add(v, i);
  }
  c.evaluations += n;
  std::vector<Row> got, want;
  for (auto &e : exp) {
    const Tally &t = e.second;
    Row x;
    if (grouped) x.push_back(Val::i32(e.first));
    x.push_back(Val::i64(t.rows));
    if (t.any) for (auto &y : {Val::i64(t.count), Val::i64((int64_t)t.sum), Val::i32((int32_t)t.sum32), Val::i64(t.most), Val::i64(t.least)}) x.push_back(y);
    else for (int k = 0; k < 5; ++k) x.push_back(Val::null());
    want.push_back(x);
  }
  Row o;
  for (size_t k = 0; k < want.size() + 10; ++k) {
    int s = rp.get(o, k < want.size() ? &want[k] : nullptr);
    if (s < 0) return fail("vast/get", what + "\n draining raised " + rp.what);
    if (!s) break;
    got.push_back(o);
  }
  std::string d = bag_diff(got, want, true);
  if (!d.empty()) return fail("vast/rows", what + "\n drained " + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) + d);
  c.counters["most rows through one pipeline"] = std::max(c.counters["most rows through one pipeline"], n);
  c.count("rows drained", got.size());
  return true;
}
static void p_vast(Ctx &c, int kind) {
  Rng &r = c.r;
  Vast v{r.next()};
  const uint64_t n = (c.thorough && c.idx % 8 < 2 ? kind == 2 ? 1ull << 32 : 1ull << 31 : 1ull << 24) + 1000 + r.below(100000);
  v.mod = r.pick<int64_t>({2, 8, 4096});
  v.differ = c.idx % 2;
  v.change = (int)(c.idx / 2 % 3);
  v.late = n - 900;
  vast(c, kind, kind == 1 || (kind == 3 && r.one_in(2)), v, n);
}

// ---------------------------------------------------------------- R05 D05.rel

static void partial_drain(Ctx &c) {
  // Puts between the rows of a drain: nothing may be lost or counted twice (conservation per key).
  Rng &r = c.r;
  // FILTER(#1 > t or TRUE) | PROJECT(#0, #1) | GROUP(#0; COUNT(*), SUM<INT64>(#1), COUNT(#1)) | PROJECT(all)
  Pipe p;
  Stage f;
  f.k = Stage::FILTER;
  f.prog = {v_(I64, 1), c_(Val::i64(r.range(-30, 0))), o_(table().two[0x93][I64]), v_(I64, 1), o_(table().two[0xA1][I64]), o_(table().one[0x53])};
  Stage pr;
  pr.k = Stage::PROJECT;
  pr.prog = {v_(I64, 1), v_(STR, 0)};
  Stage g;
  g.k = Stage::GROUPED;
  g.groups = {1};
  Agg all; all.code = 0x10;
  Agg sum; sum.code = 0x22; sum.idx = 0;
  g.aggs = {all, sum};
  Stage id;
  id.k = Stage::PROJECT;
  id.prog = {v_(STR, 0), v_(I64, 1), v_(I64, 2)};
  bool hasf = r.one_in(2), hasp = r.one_in(2), hasid = r.one_in(2);
  if (hasf) p.push_back(f);
  if (hasp) p.push_back(pr); else { g.groups = {0}; g.aggs[1].idx = 1; }
  p.push_back(g);
  if (hasid) p.push_back(id);
  Bytes b = encode(p);
  RealPipe rp;
  c.at(describe(p, b));
  if (!decode(c, rp, p, b)) return;
  std::map<std::string, std::pair<int64_t, int64_t>> in, out;
  std::string hist;
  int steps = 20 + (int)r.below(150), keys = 1 + (int)r.below(20);
  auto absorb = [&](const Row &x) {
    if (x.size() != 3 || x[0].t != STR || x[1].t != I64) { c.fail("partial/shape", describe(p, b) + hist + "\n got " + show(x)); return false; }
    out[x[0].s].first += x[1].i;
    if (!x[2].isnull()) out[x[0].s].second += x[2].i;
    return true;
  };
  for (int i = 0; i < steps; ++i) {
    if (r.below(10) < 6) {
      Row row{Val::str("k" + std::to_string(r.below(keys))), r.one_in(8) ? Val::null() : Val::i64(r.range(-40, 40))};
      bool passes = !hasf || row[1].isnull() || row[1].i > p[0].prog[1].v.i;
      if (passes) { in[row[0].s].first += 1; if (!row[1].isnull()) in[row[0].s].second += row[1].i; }
      Row x;
      int k = rp.put(row, x, nullptr);
      c.saw(hashv(c.idx + i, row));
      if (k != 0) { c.fail("partial/put", describe(p, b) + hist + "\n put gave " + (k == 1 ? show(x) : rp.what)); return; }
      if (hist.size() < 3000) hist += "\n put " + show(row);
    } else {
      Row x;
      int k = rp.get(x);
      if (k == -1) { c.fail("partial/get", describe(p, b) + hist + "\n get raised " + rp.what); return; }
      if (hist.size() < 3000) hist += "\n get " + (k ? show(x) : "nothing");
      if (k == 1 && !absorb(x)) return;
      if (k == 0 && in != out) break;
      c.count("gets between puts");
    }
  }
  for (int left = steps + 100;; --left) {
    Row x;
    int k = rp.get(x);
    if (k == -1) { c.fail("partial/get", describe(p, b) + hist + "\n get raised " + rp.what); return; }
    if (k == 0) break;
    if (left == 0) { c.fail("partial/endless", describe(p, b) + hist + "\n draining gives more rows than were put and does not end"); return; }
    if (!absorb(x)) return;
  }
  std::string d;
  for (auto &e : in) if (out[e.first] != e.second) d += "\n key " + e.first + ": put " + std::to_string(e.second.first) + " rows with sum " + std::to_string(e.second.second) + ", got back " + std::to_string(out[e.first].first) + " with sum " + std::to_string(out[e.first].second);
  for (auto &e : out) if (!in.count(e.first)) d += "\n key " + e.first + " was never put";
  if (!d.empty()) c.fail("partial/conservation", describe(p, b) + hist + d);
  c.count("interleaved drains");
}

// The rows of one round through a chain of runners with one stage each, all fresh.
static bool compose(const Pipe &p, std::vector<Row> rows, std::vector<Row> &out) {
  for (auto &s : p) {
    Pipe one{s};
    Bytes b = encode(one);
    RealPipe rp;
    std::vector<Row> next;
    try { rp.rr.Decode(b.data(), b.size()); } catch (const std::exception &) { return false; }
    Row o;
    for (auto &r : rows) { int k = rp.put(r, o, nullptr); if (k < 0) return false; if (k) next.push_back(o); }
    for (;;) { int k = rp.get(o); if (k < 0) return false; if (!k) break; next.push_back(o); if (next.size() > rows.size() + 10) return false; }
    rows.swap(next);
  }
  out.swap(rows);
  return true;
}
// Whether the chain does, round for round, exactly what the composition of its stages does.
static bool composed(const Pipe &p, const Bytes &code, const std::vector<std::vector<Row>> &rounds) {
  RealPipe rp;
  bool aggs = false;
  for (auto &s : p) aggs |= s.k >= Stage::GROUPED;
  try { rp.rr.Decode(code.data(), code.size()); } catch (const std::exception &) { return false; }
  for (auto &rows : rounds) {
    std::vector<Row> got, exp;
    if (!compose(p, rows, exp)) return false;
    Row o;
    for (auto &r : rows) { int k = rp.put(r, o, nullptr); if (k < 0) return false; if (k) got.push_back(o); }
    for (size_t n = 0; n < exp.size() + rows.size() + 10; ++n) { int k = rp.get(o); if (k < 0) return false; if (!k) break; got.push_back(o); }
    if (aggs ? !bag_diff(got, exp).empty() : got.size() != exp.size()) return false;
    if (!aggs) for (size_t i = 0; i < got.size(); ++i) if (!same(got[i], exp[i])) return false;
  }
  return true;
}

static void chain(Ctx &c, bool only_positions) {
  Rng &r = c.r;
  if (!only_positions && c.idx % 6 == 5) { partial_drain(c); return; }
  std::vector<T> types = some_types(r);
  PipeOpt po;
  po.max_size = 8;
  size_t n = 2 + r.below(4);
  if (r.one_in(8)) n = 2 + heavy(r, 60);
  if (c.idx % 100 == 7) { n = r.pick({100, 255, 256, 257, 1000}); po.kinds = 3; po.max_size = 2; }
  if (r.one_in(4)) po.kinds = r.pick({3, 7, 11, 15, 13, 14, 12});
  std::vector<T> after;
  Pipe p = gen_pipe(r, types, n, po, &after);
  if (n > 99 && c.idx % 200 == 7) {    // an aggregation at the far end, perhaps with something behind
    p.push_back(gen_stage(r, r.one_in(2) ? Stage::GROUPED : Stage::UNGROUPED, after, false, false, po));
    if (r.one_in(2)) p.push_back(gen_stage(r, r.one_in(2) ? Stage::FILTER : Stage::PROJECT, after, true, true, po));
    c.count("very long chains to an aggregation");
  }
  const bool alike = r.one_in(4), calm = r.one_in(4);    // rows of few values, or long stretches of one row
  std::vector<Row> palette;
  if (alike) palette = gen_palette(r, types);
  Bytes b = encode_padded(r, p, !only_positions || r.one_in(3));
  RealPipe rp;
  c.at(describe(p, b));
  if (!decode(c, rp, p, b)) return;
  PipeModel pm(p);
  size_t aggs = 0;
  for (auto &s : p) aggs += s.k >= Stage::GROUPED;
  c.count("chains with " + std::to_string(std::min<size_t>(aggs, 5)) + " aggregations");
  c.counters["longest chain"] = std::max<uint64_t>(c.counters["longest chain"], n);
  size_t rounds = only_positions ? 1 : 1 + r.below(4);
  bool open = false;
  std::string hist;
  std::vector<std::vector<Row>> fed;
  Excuse excuse = [&] { return composed(p, b, fed); };
  for (size_t round = 0; round < rounds; ++round) {
    fed.emplace_back();
    size_t k = r.one_in(8) ? 0 : n > 50 ? 5 : 1 + heavy(r, only_positions ? 12 : 150);
    hist += " put x" + std::to_string(k) + " drain";
    for (size_t i = 0; i < k; ++i) {
      Row row = calm && i && !r.one_in(20) ? fed.back().back() : alike ? palette_row(r, palette, 6) : gen_row(r, types, r.one_in(3) ? 5 : 0, 8, r.one_in(5) ? 0 : 1, r.pick({1, 3, 20}));
      fed.back().push_back(row);
      if (!step_put(c, rp, pm, row, [&] { return describe(p, b) + "\n history" + hist + ", at row " + std::to_string(i); }, open, false, excuse)) return;
      if (open) return;
      if (!aggs && r.one_in(10)) { Row x; if (rp.get(x) != 0) { c.fail("get/streaming", describe(p, b) + "\n get returned something without an aggregation"); return; } }
    }
    if (!step_drain(c, rp, pm, [&] { return describe(p, b) + "\n history" + hist; }, open, excuse)) return;
    if (open) return;
    if (r.one_in(3)) { if (!step_drain(c, rp, pm, [&] { return describe(p, b) + "\n history" + hist + " drain again"; }, open, excuse)) return; }
  }
  if (c.want_sample() && n < 6) c.sample(show(p) + ":" + hist);
}

// ---------------------------------------------------------------- R08

// A stage by itself: filters and projections judge each row on a runner of its own, aggregations see the rows alone
// which got there.  Rows raising an error are left out and counted.  "?" if the stage cannot be told this way.
static std::string without_failing(const Stage &s, const std::vector<Row> &rows, std::vector<Row> &out, uint64_t &failing) {
  Pipe one{s};
  Bytes b = encode(one);
  Row o;
  if (s.k == Stage::FILTER || s.k == Stage::PROJECT) {
    for (auto &x : rows) {
      RealPipe rp;
      rp.rr.Decode(b.data(), b.size());
      int k = rp.put(x, o, nullptr);
      // The stage fails for the row if its expressions do.
      dingodb::expr::Runner rn;
      Bytes e = encode(s.prog);
      std::unique_ptr<real::Tuple> t(real::new_tuple(x));
      bool raises = false;
      rn.Decode(e.data(), e.size());
      rn.BindTuple(t.get());
      try { rn.Run(); if (s.k == Stage::FILTER) rn.Get(); } catch (const std::exception &) { raises = true; }
      if (raises != (k < 0)) return "a stage " + std::string(k < 0 ? "raises an error" : "raises none") + " for " + show(x) + " where its expressions " + (raises ? "do: " : "do not: ") + show(s.prog);
      if (k < 0) ++failing; else if (k) out.push_back(o);
    }
    return "";
  }
  RealPipe rp;
  rp.rr.Decode(b.data(), b.size());
  for (auto &x : rows) if (rp.put(x, o, nullptr) != 0) return "?";
  for (size_t n = 0; n < rows.size() + 10; ++n) { int k = rp.get(o); if (k < 0) return "?"; if (!k) return ""; out.push_back(o); }
  return "?";
}

static Stage failing_stage(Rng &r, std::vector<T> &types, bool filter) {
  // Something that raises an error for some rows: CAST_C of what does not fit, ABS_CHECK of the least number
  Stage s;
  s.k = filter ? Stage::FILTER : Stage::PROJECT;
  std::vector<std::pair<size_t, T>> num;
  for (size_t i = 0; i < types.size(); ++i) if (types[i] == I64 || types[i] == F64 || types[i] == F32) num.push_back({i, types[i]});
  Prog risk;
  T res = I32;
  if (num.empty()) { risk.push_back(c_(Val::i32(1))); }
  else {
    auto x = r.pick(num);
    risk.push_back(v_(x.second, (int64_t)x.first));
    bool to64 = x.second != I64 && r.one_in(3);
    res = to64 ? I64 : I32;
    risk.push_back(o_(table().two[0xFC][res << 4 | x.second]));
    if (r.one_in(4)) risk.push_back(o_(table().two[0xB4][res]));
  }
  if (filter) {
    s.prog = risk;
    if (r.one_in(2)) { s.prog.push_back(c_(res == I32 ? Val::i32((int32_t)r.range(-9, 9)) : Val::i64(r.range(-9, 9)))); s.prog.push_back(o_(table().two[0x91 + r.below(6)][res])); }
    else { s.prog.push_back(o_(table().two[0xA1][res])); s.prog.push_back(o_(table().one[0x51])); }
    return s;
  }
  std::vector<T> nt;
  size_t at = r.below(types.size() + 1);
  for (size_t i = 0; i <= types.size(); ++i) {
    if (i == at) { s.prog.insert(s.prog.end(), risk.begin(), risk.end()); nt.push_back(res); }
    if (i < types.size()) { s.prog.push_back(v_(types[i], (int64_t)i)); nt.push_back(types[i]); }
  }
  types = nt;
  return s;
}

static void p_r08(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = some_types(r, 5), in;
  for (auto &t : types) if (r.one_in(3)) t = r.pick({I64, F64});
  in = types;
  PipeOpt po;
  po.max_size = 6;
  po.wild = r.one_in(4);
  Pipe p;
  bool multi = false;
  size_t n = 1 + r.below(5);
  for (size_t i = 0; i < n; ++i) {
    const bool last = i + 1 == n;
    if (r.one_in(2)) { p.push_back(failing_stage(r, types, r.one_in(2))); continue; }
    Stage::K k = (Stage::K)(0x71 + r.below(4));
    p.push_back(gen_stage(r, k, types, multi, last, po));
    if (k == Stage::GROUPED) multi = true;
    if (k == Stage::UNGROUPED) multi = false;
  }
  Bytes b = encode_padded(r, p);
  RealPipe rp;
  c.at(describe(p, b));
  if (!decode(c, rp, p, b)) return;
  bool aggs = false;
  size_t first_agg = p.size();
  for (size_t i = p.size(); i--;) if (p[i].k >= Stage::GROUPED) { aggs = true; first_agg = i; }
  size_t rounds = 1 + r.below(3);
  for (size_t round = 0; round < rounds; ++round) {
    size_t k = r.one_in(10) ? 0 : 1 + heavy(r, r.one_in(20) ? 600 : 40);
    std::vector<Row> rows, got;
    const int big = (int)r.pick({2, 4, 20});
    uint64_t put_errors = 0, get_errors = 0;
    std::string outs;
    for (size_t i = 0; i < k; ++i) {
      Row row = gen_row(r, in, r.one_in(3) ? 5 : 0, 8, 0);
      for (auto &v : row) {
        if (isnan(v) && r.one_in(2)) v = gen_small(r, v.t, 5);
        if (!v.isnull() && !r.one_in((uint64_t)big)) v = gen_small(r, v.t, 4);
      }
      rows.push_back(row);
    }
    // what is left of them stage by stage
    std::vector<Row> rest = rows;
    uint64_t want_put = 0, want_get = 0;
    bool nan_key = false;
    for (size_t i = 0; i < p.size(); ++i) {
      std::vector<Row> next;
      if (p[i].k == Stage::GROUPED)
        for (auto &x : rest) for (auto g : p[i].groups) nan_key |= isnan(x[(size_t)g]);
      std::string how = nan_key ? "?" : without_failing(p[i], rest, next, i < first_agg ? want_put : want_get);
      if (how == "?") { c.count("left out"); return; }
      if (!how.empty()) { c.fail("stage", describe(p, b) + "\n " + how); return; }
      rest.swap(next);
    }
    for (size_t i = 0; i < k; ++i) {
      Row o;
      int what = rp.put(rows[i], o, nullptr);
      c.saw(hashv(c.idx * 31 + c.evaluations, rows[i]));
      if (what < 0) { ++put_errors; outs += "\n row " + std::to_string(i) + " raises an error"; }
      if (what == 1) got.push_back(o);
    }
    const size_t limit = rest.size() + rows.size() + 10;
    for (size_t i = 0;; ++i) {
      Row o;
      int what = rp.get(o);
      if (what == 0) break;
      if (what < 0) ++get_errors; else got.push_back(o);
      if (i > limit) { c.fail("endless", describe(p, b) + "\n getting does not end after " + std::to_string(k) + " rows in round " + std::to_string(round)); return; }
    }
    auto tell = [&](const std::string &d) {
      std::string s = describe(p, b) + "\n round " + std::to_string(round) + " of " + std::to_string(k) + " rows" + outs.substr(0, 500);
      for (size_t i = 0; i < rows.size() && i < 12; ++i) s += "\n  " + show(rows[i]);
      c.fail("trace", s + d);
    };
    if (put_errors != want_put) return tell("\n " + std::to_string(put_errors) + " rows raised errors when put, " + std::to_string(want_put) + " raise one stage by stage");
    std::string d;
    if (aggs) d = bag_diff(got, rest);
    else {
      if (got.size() != rest.size()) d = "\n " + std::to_string(got.size()) + " rows instead of " + std::to_string(rest.size());
      for (size_t i = 0; i < got.size() && d.empty(); ++i) if (!same(got[i], rest[i])) d = "\n " + show(got[i]) + " instead of " + show(rest[i]);
    }
    if (!d.empty()) return tell("\n without the rows that raised errors it gives other rows:" + d);
    if (get_errors != want_get) return tell("\n " + std::to_string(get_errors) + " errors were raised by get, for " + std::to_string(want_get) + " rows that raise one");
    c.count("rows put", k);
    c.count("rows raising an error when put", put_errors);
    c.count("rows raising an error when drained", get_errors);
    c.count("rounds");
    if (put_errors && aggs) c.count("rounds with errors ahead of an aggregation");
    if (get_errors) c.count("rounds with errors behind an aggregation");
  }
  if (c.want_sample() && n < 5) c.sample(show(p));
}

// ---------------------------------------------------------------- R07

static void p_r07(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = some_types(r);
  struct Slot {
    RealPipe rp;
    Pipe pipe;
    Bytes code;
    std::unique_ptr<PipeModel> pm;
    bool good = false, stateless = false;
    std::vector<std::pair<int, Row>> done;   // since the last decode: 0 drain, 1 put
    // a fresh runner given the same bytes and rows deviates too
    bool fresh_deviates() {
      static Ctx scratch;
      scratch.nviol = 0;
      RealPipe f;
      try { f.rr.Decode(code.data(), code.size()); } catch (const std::exception &) { return true; }
      PipeModel m2(pipe);
      for (auto &d : done) {
        bool open = false;
        auto nothing = [] { return std::string(); };
        bool fine = d.first ? step_put(scratch, f, m2, d.second, nothing, open, stateless) : step_drain(scratch, f, m2, nothing, open);
        if (!fine || (open && !stateless)) return true;
      }
      return false;
    }
  };
  int ns = 1 + (int)r.below(3);
  std::vector<std::unique_ptr<Slot>> slots;
  for (int i = 0; i < ns; ++i) slots.emplace_back(new Slot);
  std::string hist;
  auto what = [&] { return "history:" + hist; };
  int steps = 10 + (int)r.below(60);
  if (c.idx % 2000 == 13) steps = 5000;
  for (int k = 0; k < steps; ++k) {
    int si = (int)r.below(ns);
    Slot &s = *slots[si];
    std::string me = "\n [" + std::to_string(si) + "] ";
    if (hist.size() > 8000) hist = "..." + hist.substr(hist.size() - 6000);
    switch (r.below(13)) {
    case 12: {  // no bytes: like a runner never decoded
      if (!r.one_in(3)) break;
      hist += me + "decode nothing";
      uint8_t none = 0x71;
      const uint8_t *e = s.rp.rr.Decode(&none, 0);
      if (e != &none) { c.fail("empty/position", what()); return; }
      Row x;
      for (int i = 0; i < 2; ++i) if (s.rp.get(x) != 0) { c.fail("empty/get", what() + "\n get gave " + show(x) + " although no pipeline is there"); return; }
      s.good = false;
      c.count("decodes of nothing");
      if (r.one_in(2)) {
        int k = s.rp.put(gen_row(r, types, 4, 8, 1, 3), x, nullptr);
        c.saw(fnv(hist.data(), hist.size()));
        if (k != -1) { c.fail("empty/put", what() + "\n put gave " + (k ? show(x) : "nothing") + " although no pipeline is there"); return; }
      }
      break;
    }
    case 0: case 1: {
      PipeOpt po;
      po.wild = r.one_in(3);
      po.max_size = 8;
      s.pipe = gen_pipe(r, types, 1 + r.below(4), po);
      s.code = encode_padded(r, s.pipe);
      hist += me + "decode " + show(s.pipe) + " " + hex(s.code, 100);
      c.at(hist.size() > 2800 ? hist.substr(hist.size() - 2800) : hist);
      if (!decode(c, s.rp, s.pipe, s.code)) return;
      s.pm.reset(new PipeModel(s.pipe));
      s.done.clear();
      s.good = true;
      s.stateless = true;
      for (auto &g : s.pipe) if (g.k >= Stage::GROUPED) s.stateless = false;
      c.count("good decodes");
      break;
    }
    case 2: {
      Pipe q = gen_pipe(r, types, r.below(3), PipeOpt());
      Bytes b = encode_padded(r, q, false);
      Bytes bad = r.pick<Bytes>({{0x00}, {0x75}, {0x70, 0x00}, {0x71, 0xE0}, {0x72, 0x14, 0x00}, {0x73, 0x62}, {0x73, 0x61, 0x02, 0x01}, {0x73, 0x61, 0x01, 0x00, 0x01, 0x55}, {0x74, 0x02, 0x10}, {0x74, 0x02, 0x21, 0x00, 0x99}, {0x73}, {0x74, 0x7F}});
      b.insert(b.end(), bad.begin(), bad.end());
      hist += me + "decode (refused) " + hex(b, 100);
      bool raised = false;
      try { s.rp.rr.Decode(b.data(), b.size()); } catch (const std::exception &) { raised = true; }
      if (!raised && bad[0] != 0x00) { c.fail("bad-accepted", what()); return; }
      s.good = false;
      c.count("refused decodes");
      break;
    }
    case 3: case 4: {
      if (!s.good) break;
      hist += me + "drain";
      bool open = false;
      s.done.push_back({0, Row()});
      if (!step_drain(c, s.rp, *s.pm, what, open, [&] { return s.fresh_deviates(); })) return;
      if (open) s.good = false;
      break;
    }
    case 5: {  // leave rows behind: a partial drain, then only a decode is judged
      if (!s.good || r.one_in(2)) break;
      Row x;
      s.rp.get(x);
      hist += me + "get once";
      s.good = false;
      break;
    }
    default: {
      if (!s.good) break;
      int n = 1 + (int)r.below(8);
      for (int i = 0; i < n; ++i) {
        Row row = gen_row(r, types, 4, 8, 1, 3);
        if (hist.size() < 9000) hist += me + "put " + show(row);
        bool open = false;
        s.done.push_back({1, row});
        if (!step_put(c, s.rp, *s.pm, row, what, open, s.stateless, [&] { return s.fresh_deviates(); })) return;
        if (open) { s.good = false; break; }
      }
    }
    }
  }
  if (c.want_sample() && hist.size() < 900) c.sample("history:" + hist);
  c.count("histories");
}

// ---------------------------------------------------------------- D03 pipelines

static void d03_check(Ctx &c, const Bytes &b) {
  RScan s = scan_rel(b);
  c.saw(fnv(b.data(), b.size()), b.size() > 0);
  if (s.acc == OPEN) { c.count("left open"); return; }
  std::vector<uint8_t> buf(b);
  if (c.verbose || (c.evaluations & 63) == 0) c.at("decode pipeline " + hex(b));
  RelRunner rr;
  try {
    const uint8_t *e = rr.Decode(buf.data(), buf.size());
    if (s.acc == REJ) { c.fail(std::string("accepted/") + s.why, "decoding must be refused (" + std::string(s.why) + "): " + hex(b)); return; }
    if ((size_t)(e - buf.data()) != s.used) { c.fail("position", "decoding ended at " + std::to_string(e - buf.data()) + ": " + hex(b)); return; }
    c.count("accepted");
  } catch (const std::exception &e) {
    if (s.acc == ACC) c.fail("refused", "a complete implemented encoding is refused (" + std::string(e.what()) + "): " + hex(b) + " = " + show(s.pipe));
    else { c.count(std::string("refused: ") + s.why); if (c.want_sample() && b.size() > 3) c.sample(std::string("refused (") + s.why + ") " + hex(b, 60)); }
  }
}
static void p_d03(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = some_types(r);
  if (c.idx < 256) {
    uint8_t x = (uint8_t)c.idx;
    std::vector<Bytes> pre{{}, {0x71, 0x13, 0x00}, {0x72, 0x31, 0x00, 0x00}, {0x74, 0x01, 0x10}, {0x74, 0x00}, {0x73, 0x61, 0x01, 0x00, 0x01, 0x10, 0x00}, {0x73, 0x61, 0x00, 0x00}};
    for (auto &p : pre) {
      auto with = [&](Bytes t) { Bytes b = p; b.insert(b.end(), t.begin(), t.end()); d03_check(c, b); };
      with({x});
      for (int y = 0; y < 256; ++y) {
        with({x, (uint8_t)y});
        with({x, (uint8_t)y, 0x00});
        with({x, 0x01, (uint8_t)y, 0x00});
        with({x, 0x61, 0x01, 0x00, 0x01, (uint8_t)y, 0x00});
        with({0x73, x, (uint8_t)y, 0x00, 0x00, 0x00});
        with({0x74, 0x02, x, 0x01, (uint8_t)y, 0x01});
        with({0x74, 0x03, 0x10, x, 0x00, (uint8_t)y, 0x00});
        with({0x73, 0x61, 0x01, 0x02, 0x02, x, 0x01, (uint8_t)y, 0x01, 0x00});
        with({0x71, x, (uint8_t)y, 0x00});
        with({0x72, 0x11, 0x01, x, (uint8_t)y, 0x00, 0x74, 0x01, 0x10});
      }
      with({0x74, 0x01, x});
      with({0x74, 0x01, x, 0x00});
      with({0x73, 0x61, 0x00, 0x01, x, 0x80});
    }
    c.count("first bytes enumerated");
    return;
  }
  Bytes b = encode_padded(r, gen_pipe(r, types, 1 + r.below(5), PipeOpt()));
  if (r.one_in(2)) {
    size_t stepn = 1 + b.size() / 500;
    for (size_t n = 0; n <= b.size(); n += stepn) d03_check(c, Bytes(b.begin(), b.begin() + n));
    c.count("truncation series");
  } else {
    for (int i = 0; i < 60; ++i) {
      Bytes m = b;
      for (int k = 1 + (int)r.below(3); k--;) {
        size_t at = m.empty() ? 0 : r.below(m.size());
        switch (r.below(5)) {
        case 0: if (!m.empty()) m[at] = (uint8_t)r.next(); break;
        case 1: m.insert(m.begin() + at, (uint8_t)r.next()); break;
        case 2: if (!m.empty()) m.erase(m.begin() + at); break;
        case 3: if (!m.empty()) m[at] ^= (uint8_t)(1 << r.below(8)); break;
        default: if (!m.empty()) m[at] = r.pick<uint8_t>({0x00, 0x61, 0x62, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x10, 0x16, 0x20, 0x23, 0x27, 0x33, 0x43, 0x50, 0x80, 0xFF, 0x7F});
        }
      }
      d03_check(c, m);
    }
    c.count("mutation series");
  }
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["R01"] = [](Ctx &c) { streaming(c, 0); };
  props["R02"] = [](Ctx &c) { streaming(c, 1); };
  props["R03"] = [](Ctx &c) { aggregate(c, true); };
  props["R04"] = [](Ctx &c) { aggregate(c, false); };
  props["R05"] = [](Ctx &c) { chain(c, false); };
  for (int k = 0; k < 4; ++k) props[std::vector<std::string>{"R01.vast", "R03.vast", "R04.vast", "R05.vast"}[k]] = [k](Ctx &c) { p_vast(c, k); };
  props["R07"] = p_r07;
  props["R08"] = p_r08;
  props["D05.rel"] = [](Ctx &c) { chain(c, true); };
  props["D03.rel"] = p_d03;
  return drive(argc, argv, props);
}
