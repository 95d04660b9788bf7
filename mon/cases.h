// Series of calls with what they gave: expressions, pipelines and helpers, to be made again under other circumstances.
#pragma once
#include <typeinfo>
#include <vector>
#include "driver.h"
#include "expr/utils.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;
using real::Runner;
using real::Tuple;

namespace {
// What came out of a series of calls
struct Out {
  std::string raised;     // type of what was thrown
  Row values;
  std::vector<Row> rows;
  uint64_t number = 0;
  std::string bytes;
  bool same_as(const Out &o) const {
    if (raised != o.raised || number != o.number || bytes != o.bytes || !same(values, o.values) || rows.size() != o.rows.size()) return false;
    for (size_t i = 0; i < rows.size(); ++i) if (!same(rows[i], o.rows[i])) return false;
    return true;
  }
  std::string str() const {
    std::string s;
    if (!raised.empty()) s += "raises " + raised;
    if (!values.empty()) s += " " + show(values);
    for (auto &x : rows) s += " " + show(x);
    if (!bytes.empty()) s += " " + show(Val::str(bytes));
    if (number) s += " (" + std::to_string(number) + ")";
    return s.substr(0, 1500);
  }
};

struct Case {
  virtual ~Case() = default;
  virtual void fresh() = 0;              // objects the calls are made on
  virtual void decode() = 0;
  virtual void run(Out &) = 0;
  virtual std::string str() const = 0;
  virtual uint64_t hash() const = 0;
  virtual bool split() const { return true; }
};
struct ExprCase : Case {
  Bytes b;
  Row row;
  std::unique_ptr<Runner> rn;
  std::unique_ptr<Tuple> t;
  bool damaged = false;      // then it is not run: it might refer to elements the row has not
  void fresh() override { rn.reset(new Runner); t.reset(real::new_tuple(row)); }
  void decode() override { rn->Decode(b.data(), b.size()); }
  void run(Out &o) override {
    if (damaged) return;
    o.number = rn->GetType();
    rn->BindTuple(t.get());
    rn->Run();
    std::unique_ptr<Tuple> all(rn->GetAll());
    o.values = real::row(*all);
  }
  std::string str() const override { return "the expression " + hex(b) + " over " + show(row); }
  uint64_t hash() const override { return hashv(fnv(b.data(), b.size(), 1), row); }
};
struct PipeCase : Case {
  Pipe p;
  Bytes b;
  std::vector<Row> in;
  std::unique_ptr<RelRunner> rr;
  void fresh() override { rr.reset(new RelRunner); }
  void decode() override { rr->Decode(b.data(), b.size()); }
  void run(Out &o) override {
    for (auto &x : in) {
      std::unique_ptr<const Tuple> t(rr->Put(real::new_tuple(x)));
      if (t) o.rows.push_back(real::row(*t));
    }
    size_t n = o.rows.size();
    for (;;) {
      std::unique_ptr<const Tuple> t(rr->Get());
      if (!t) break;
      o.rows.push_back(real::row(*t));
    }
    // Groups come in any order.
    std::sort(o.rows.begin() + (long)n, o.rows.end(), [](const Row &x, const Row &y) { return canon(x) + show(x) < canon(y) + show(y); });
  }
  std::string str() const override { std::string s = "the pipeline " + show(p) + " fed with"; for (auto &x : in) s += " " + show(x); return s.substr(0, 2500); }
  uint64_t hash() const override { uint64_t h = fnv(b.data(), b.size(), 2); for (auto &x : in) h = hashv(h, x); return h; }
};
struct HelpCase : Case {
  std::string s;
  Row row, other;
  void fresh() override {}
  void decode() override {}
  bool split() const override { return false; }
  void run(Out &o) override {
    o.bytes = dingodb::expr::HexOfBytes((const real::Byte *)s.data(), s.size());
    std::string back(s.size(), '?');
    dingodb::expr::HexToBytes((real::Byte *)back.data(), o.bytes.data(), o.bytes.size());
    o.bytes += back;
    Tuple a(real::tuple(row)), b(real::tuple(other));
    o.number = std::hash<Tuple>()(a) * 31 + (a == b);
    for (size_t i = 0; i < a.size(); ++i) o.number = o.number * 31 + (i < b.size() && a[i] == b[i]) * 2 + (i < b.size() && a[i] != b[i]);
    std::unique_ptr<Tuple> both(dingodb::expr::ConcatTuple(a, b));
    o.values = real::row(*both);
  }
  std::string str() const override { return "helpers on " + show(Val::str(s)) + " " + show(row) + " " + show(other); }
  uint64_t hash() const override { return hashv(hashv(fnv(s.data(), s.size(), 3), row), other); }
};

std::unique_ptr<Case> make(Rng &r) {
  int k = (int)r.below(10);
  if (k < 5) {      // conversions and strings, one operator each or a few
    auto e = std::make_unique<ExprCase>();
    Prog p;
    for (int n = 1 + (int)r.below(3); n--;) {
      const auto &ops = table().ops;
      size_t i;
      bool text;
      do {
        i = r.below(ops.size());
        text = ops[i].res == STR;
        for (int a = 0; a < ops[i].arity; ++a) text |= ops[i].arg[a] == STR;
      } while (!text && !r.one_in(10));
      for (int a = 0; a < ops[i].arity; ++a) {
        Val v = gen_val(r, ops[i].arg[a], 60);
        if (v.t == STR && r.one_in(2)) v = Val::str(ops[i].fn == CAST || ops[i].fn == CASTC ? gen_numtext(r) : gen_bytes(r, r.below(12)) + r.pick({"", "i", "I", " x", "\xE9", "\xA0", "1.5", "1,5"}));
        if ((v.t == F32 || v.t == F64) && r.one_in(2)) v = v.t == F32 ? Val::f32((float)r.range(-9999999, 9999999) / 8) : Val::f64((double)r.range(-99999999999, 99999999999) / 64);
        if (r.one_in(2)) p.push_back(c_(v));
        else { p.push_back(v_(v.t, (int64_t)e->row.size())); e->row.push_back(v); }
      }
      p.push_back(o_((int)i));
    }
    e->b = encode_padded(r, p);
    return e;
  }
  if (k < 7) {
    auto e = std::make_unique<ExprCase>();
    std::vector<T> types = gen_types(r, 1 + r.below(6));
    GenOpt o;
    o.types = &types;
    Prog p;
    for (int n = 1 + (int)r.below(3); n--;) { Prog x = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(30), o); p.insert(p.end(), x.begin(), x.end()); }
    e->b = encode_padded(r, p);
    if (r.one_in(6) && !e->b.empty()) { e->b[r.below(e->b.size())] = (uint8_t)r.next(); e->damaged = true; }
    else if (r.one_in(10)) { e->b.resize(r.below(e->b.size() + 1)); e->damaged = true; }
    e->row = gen_row(r, types, 8);
    return e;
  }
  if (k < 9) {
    auto e = std::make_unique<PipeCase>();
    std::vector<T> types = gen_types(r, 1 + r.below(5));
    PipeOpt po;
    po.wild = r.one_in(3);
    e->p = gen_pipe(r, types, 1 + r.below(4), po);
    e->b = encode_padded(r, e->p);
    for (size_t n = r.below(14); n--;) e->in.push_back(gen_row(r, types, 6, 30, 1 + (int)r.below(3), 3));
    return e;
  }
  auto e = std::make_unique<HelpCase>();
  e->s = gen_str(r);
  std::vector<T> types = gen_types(r, 1 + r.below(5));
  e->row = gen_row(r, types, 6);
  e->other = e->row;
  for (auto &v : e->other) if (r.one_in(2)) v = gen_near(r, v);
  return e;
}
}  // namespace

