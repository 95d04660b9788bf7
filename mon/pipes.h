// Generators of relational pipelines and rows for them.
#pragma once
#include <unordered_map>
#include "gen.h"

namespace m {

inline Bytes encode_padded(Rng &r, const Pipe &p, bool last_open = true) {
  Bytes b;
  for (size_t k = 0; k < p.size(); ++k) {
    const Stage &s = p[k];
    b.push_back(s.k);
    auto vi = [&](uint64_t v) { put_varint(b, v, r.one_in(4) ? (int)r.below(5) : 0); };
    if (s.k == Stage::FILTER || s.k == Stage::PROJECT) {
      Bytes e = encode_padded(r, s.prog);
      b.insert(b.end(), e.begin(), e.end());
      if (k + 1 < p.size() || !last_open || r.one_in(2)) b.push_back(0);
      continue;
    }
    if (s.k == Stage::GROUPED) {
      b.push_back(0x61);
      vi(s.groups.size());
      for (auto g : s.groups) vi((uint64_t)g);
    }
    vi(s.aggs.size());
    for (auto &a : s.aggs) { b.push_back(a.code); if (!a.all()) vi((uint64_t)a.idx); }
    if (s.eoe) b.push_back(0);
  }
  return b;
}

inline Agg gen_agg(Rng &r, const std::vector<T> &types, bool no_float_order, bool no_float_minmax) {
  for (int tries = 0; tries < 30; ++tries) {
    Agg a;
    if (types.empty() || r.one_in(5)) { a.code = 0x10; return a; }
    size_t i = r.below(types.size());
    T t = types[i];
    int kind = 1 + (int)r.below(4);
    bool flt = t == F32 || t == F64;
    a.code = (uint8_t)(kind << 4 | t);
    a.idx = (int64_t)i;
    if (!agg_ok(a.code)) continue;
    if (kind == 2 && flt && no_float_order) continue;
    if (kind >= 3 && flt && no_float_minmax) continue;
    return a;
  }
  Agg a;
  a.code = 0x10;
  return a;
}

struct PipeOpt {
  bool wild = false;       // expressions may raise errors
  bool exact = true;       // keep every result determined: no float keys / order sensitive aggregates before later stages
  int max_size = 14;       // size of expressions
  int kinds = 15;          // bit 0 filter, 1 project, 2 grouped, 3 ungrouped
};

inline Stage gen_stage(Rng &r, Stage::K k, std::vector<T> &types, bool multi, bool last, const PipeOpt &po) {
  Stage s;
  s.k = k;
  GenOpt o;
  o.types = &types;
  o.null_in = 20;
  o.var_in = r.one_in(3) ? 2 : 1;
  o.maxstr = 12;
  static const OpFilter safe([] { GenOpt g; g.allow = safe_op; return g; }());
  static const OpFilter wild([] { return GenOpt(); }());
  const OpFilter &f = po.wild ? wild : safe;
  if (k == Stage::FILTER) {
    gen_expr(r, BOOL, 2 + r.below(po.max_size), o, f, s.prog);
    switch (r.below(3)) {
    case 0: break;
    case 1:  // passes most rows
      s.prog.push_back(c_(Val::boolean(true)));
      s.prog.push_back(o_(table().one[0x53]));
      break;
    default:  // a range predicate over a column, when there is a number
      for (size_t i = 0; i < types.size(); ++i)
        if (types[i] == I32 || types[i] == I64) {
          s.prog.clear();
          s.prog.push_back(v_(types[i], (int64_t)i));
          s.prog.push_back(c_(types[i] == I32 ? Val::i32((int32_t)r.range(-15, 15)) : Val::i64(r.range(-15, 15))));
          s.prog.push_back(o_(table().two[0x91 + r.below(6)][types[i]]));
          if (r.one_in(2)) break;
        }
    }
  } else if (k == Stage::PROJECT) {
    size_t n = r.one_in(50) ? 0 : 1 + r.below(6);
    std::vector<T> nt;
    for (size_t i = 0; i < n; ++i) {
      if (!types.empty() && r.one_in(2)) {
        size_t x = r.below(types.size());
        s.prog.push_back(v_(types[x], (int64_t)x));
        nt.push_back(types[x]);
      } else {
        T t = ALL_T[r.below(6)];
        gen_expr(r, t, 1 + r.below(po.max_size), o, f, s.prog);
        nt.push_back(t);
      }
    }
    types = nt;
  } else {
    std::vector<T> nt;
    if (k == Stage::GROUPED) {
      size_t n = types.empty() ? 0 : r.below(4);
      for (size_t i = 0; i < n; ++i) {
        size_t x = r.below(types.size());
        if (po.exact && !last && (types[x] == F32 || types[x] == F64)) continue;
        s.groups.push_back((int64_t)x);
        nt.push_back(types[x]);
      }
    }
    size_t n = r.one_in(12) ? 0 : 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
      Agg a = gen_agg(r, types, po.exact && multi, po.exact && !last);
      s.aggs.push_back(a);
      nt.push_back(a.res());
    }
    s.eoe = r.one_in(3);
    types = nt;
  }
  return s;
}

inline Pipe gen_pipe(Rng &r, std::vector<T> types, size_t n, const PipeOpt &po, std::vector<T> *out_types = nullptr) {
  Pipe p;
  bool multi = false;   // rows may arrive in any order
  for (size_t i = 0; i < n; ++i) {
    Stage::K k;
    for (;;) {
      int b = (int)r.below(4);
      if (!(po.kinds >> b & 1)) continue;
      k = (Stage::K)(0x71 + b);
      break;
    }
    p.push_back(gen_stage(r, k, types, multi, i + 1 == n, po));
    if (k == Stage::GROUPED) multi = true;
    if (k == Stage::UNGROUPED) multi = false;
  }
  if (out_types) *out_types = types;
  return p;
}

inline std::string canon(const Row &r) { return key_of(r); }

inline bool fits(const Row &got, const Row &exp) {
  for (size_t i = 0; i < exp.size(); ++i) if (!exp[i].loose && !same(got[i], exp[i])) return false;
  return true;
}

// Multiset difference, for reports. `exact`: zeros of either sign are told apart (unless the expected one is loose).
inline std::string bag_diff(const std::vector<Row> &got, const std::vector<Row> &exp, bool exact = false) {
  std::unordered_map<std::string, std::vector<const Row *>> want, have;
  for (auto &x : exp) want[canon(x)].push_back(&x);
  for (auto &x : got) have[canon(x)].push_back(&x);
  std::string s;
  int shown = 0;
  auto tell = [&](const char *what, const Row &x) { if (shown++ < 6) s += std::string("\n  ") + what + " " + show(x); else if (shown == 7) s += "\n  ..."; };
  for (auto &e : want) {
    auto &h = have[e.first];
    if (exact) {
      // Those most bound first; among the equal ones any will do.
      std::vector<const Row *> w(e.second), left(h);
      auto loose = [](const Row *x) { size_t n = 0; for (auto &v : *x) n += v.loose; return n; };
      std::stable_sort(w.begin(), w.end(), [&](const Row *x, const Row *y) { return loose(x) < loose(y); });
      if (w.size() == left.size() && (w.size() == 1 || (w.size() < 50 && loose(w.back()) == 0)))
        for (auto *x : w) {
          auto i = std::find_if(left.begin(), left.end(), [&](const Row *y) { return fits(*y, *x); });
          if (i == left.end()) { tell("other sign of zero, expected", *x); break; }
          left.erase(i);
        }
    }
    for (size_t i = h.size(); i < e.second.size(); ++i) tell("missing", *e.second[i]);
    for (size_t i = e.second.size(); i < h.size(); ++i) tell("unexpected", *h[i]);
  }
  for (auto &e : have) if (!want.count(e.first)) for (auto *x : e.second) tell("unexpected", *x);
  return s;
}

// A few values per column, so that whole columns are alike
inline std::vector<Row> gen_palette(Rng &r, const std::vector<T> &types, size_t maxstr = 12) {
  std::vector<Row> cols;
  for (T t : types) {
    Row c;
    for (size_t n = 1 + (r.one_in(2) ? 0 : r.below(3)); n > 0; --n) {
      Val v = gen_val(r, t, maxstr);
      if (t == F32 && r.one_in(3)) v = Val::f32(r.pick({0.0f, -0.0f}));
      if (t == F64 && r.one_in(3)) v = Val::f64(r.pick({0.0, -0.0}));
      if (isnan(v)) v = gen_small(r, t, 3);
      c.push_back(v);
    }
    cols.push_back(c);
  }
  return cols;
}
inline Row palette_row(Rng &r, std::vector<Row> &cols, int null_in) {
  Row row;
  for (auto &c : cols) row.push_back(null_in && r.one_in(null_in) ? Val::null() : r.pick(c));
  return row;
}

}  // namespace m
