// Adapter between the model's values and the library's public types.
#pragma once
#include <memory>
#include <optional>
#include "expr/runner.h"
#include "model.h"

namespace real {
using dingodb::expr::Byte;
using dingodb::expr::Operand;
using dingodb::expr::Runner;
using dingodb::expr::String;
using dingodb::expr::Tuple;

// A string as programs hold them: some have room for more behind, some have been longer before.
inline std::shared_ptr<std::string> text(const std::string &s) {
  auto t = std::make_shared<std::string>();
  size_t n = s.size(), h = n ? (unsigned char)s[n / 2] + n : 0;
  if (h % 3 == 1) t->reserve(n + 1 + h % 300);
  if (h % 3 == 2) t->assign(n + h % 50, '#');
  t->assign(s);
  return t;
}
inline Operand op(const m::Val &v) {
  switch (v.t) {
  case m::I32: return Operand((int32_t)v.i);
  case m::I64: return Operand((int64_t)v.i);
  case m::BOOL: return Operand((bool)v.i);
  case m::F32: return Operand(v.f);
  case m::F64: return Operand(v.d);
  case m::STR: return Operand(text(v.s));
  default: return Operand(nullptr);
  }
}
inline Tuple tuple(const m::Row &r) {
  Tuple t;
  t.reserve(r.size());
  for (auto &v : r) t.push_back(op(v));
  return t;
}
inline Tuple *new_tuple(const m::Row &r) { auto *t = new Tuple(); t->reserve(r.size()); for (auto &v : r) t->push_back(op(v)); return t; }

inline bool get(const Operand &o, m::T t, m::Val &v) {
  try {
    switch (t) {
    case m::I32: v = m::Val::i32(o.GetValue<int32_t>()); return true;
    case m::I64: v = m::Val::i64(o.GetValue<int64_t>()); return true;
    case m::BOOL: v = m::Val::boolean(o.GetValue<bool>()); return true;
    case m::F32: v = m::Val::f32(o.GetValue<float>()); return true;
    case m::F64: v = m::Val::f64(o.GetValue<double>()); return true;
    case m::STR: v = m::Val::str(*o.GetValue<String>()); return true;
    default: return false;
    }
  } catch (const std::exception &) {
    return false;
  }
}
// `hint`: the expected type, tried first
inline m::Val val(const Operand &o, m::T hint = m::TNULL) {
  m::Val v;
  if (o == nullptr) return v;
  if (hint != m::TNULL && get(o, hint, v)) return v;
  for (m::T t : m::ALL_T) if (t != hint && get(o, t, v)) return v;
  v = m::Val();
  v.t = m::DEC;   // something else
  return v;
}
inline m::Row row(const Tuple &t, const m::Row *hint = nullptr) {
  m::Row r;
  r.reserve(t.size());
  for (size_t i = 0; i < t.size(); ++i) r.push_back(val(t[i], hint && i < hint->size() ? (*hint)[i].t : m::TNULL));
  return r;
}

// Whether a fresh runner given just this program deviates from the model on this row: then what was
// observed is a matter of the operators, not of what surrounds them.
inline bool fresh_differs(const m::Prog &p, const m::Row *row_) {
  m::Run exp = m::eval(p, row_);
  if (exp.st == m::UNSPEC) return true;
  m::Bytes b = m::encode(p);
  try {
    Runner rn;
    rn.Decode(b.data(), b.size());
    Tuple t;
    if (row_) { t = tuple(*row_); rn.BindTuple(&t); }
    rn.Run();
    std::unique_ptr<Tuple> all(rn.GetAll());
    m::Row got = row(*all, &exp.stack);
    return exp.st == m::ERR || !m::same(got, exp.stack);
  } catch (const std::exception &) {
    return exp.st != m::ERR;
  }
}
// The expressions of a program one after the other, each up to the value it leaves; the whole if it is not well formed.
inline std::vector<m::Prog> expressions(const m::Prog &p) {
  std::vector<size_t> start;    // of what is on the stack
  for (size_t i = 0; i < p.size(); ++i) {
    size_t n = p[i].k == m::Ins::OP ? (size_t)m::table().ops[p[i].op].arity : 0;
    if (start.size() < n) return {p};
    size_t s = n ? start[start.size() - n] : i;
    start.resize(start.size() - n);
    start.push_back(s);
  }
  std::vector<m::Prog> es;
  for (size_t i = 0; i < start.size(); ++i) es.push_back(m::Prog(p.begin() + (long)start[i], i + 1 < start.size() ? p.begin() + (long)start[i + 1] : p.end()));
  return es;
}
// The same for each of several expressions alone, so that gathering their values is not left aside.
inline bool fresh_differs_each(const m::Prog &p, const m::Row *row_) {
  for (auto &e : expressions(p)) {
    m::Run exp = m::eval(e, row_);
    if (exp.st == m::UNSPEC) return true;
    m::Bytes b = m::encode(e);
    try {
      Runner rn;
      rn.Decode(b.data(), b.size());
      Tuple t;
      if (row_) { t = tuple(*row_); rn.BindTuple(&t); }
      rn.Run();
      if (exp.st == m::ERR || !m::same(m::Row{val(rn.Get(), exp.stack.back().t)}, m::Row{exp.stack.back()})) return true;
    } catch (const std::exception &) {
      if (exp.st != m::ERR) return true;
    }
  }
  return false;
}
}  // namespace real
