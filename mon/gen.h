// Deterministic generators of hostile values, programs, rows and pipelines.
#pragma once
#include <algorithm>
#include <functional>
#include "model.h"

namespace m {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) {
    uint64_t x = a * 0x2545F4914F6CDD1Dull ^ (b + 0x9E3779B97F4A7C15ull) * 0xD6E8FEB86659FD93ull ^ (c + 1) * 0xA0761D6478BD642Full;
    s[0] = mix(x); s[1] = mix(x);
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool one_in(uint64_t n) { return below(n) == 0; }
  template <typename C> auto &pick(C &c) { return c[below(std::size(c))]; }
  template <typename T_> T_ pick(std::initializer_list<T_> c) { return c.begin()[below(c.size())]; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t hashv(uint64_t h, const Val &v) {
  h = fnv(&v.t, 1, h);
  switch (v.t) {
  case I32: case I64: case BOOL: return fnv(&v.i, 8, h);
  case F32: return fnv(&v.f, 4, h);
  case F64: return fnv(&v.d, 8, h);
  case STR: return fnv(v.s.data(), v.s.size(), h);
  default: return h;
  }
}
inline uint64_t hashv(uint64_t h, const Row &r) { for (auto &v : r) h = hashv(h, v); return h; }

// ---------------------------------------------------------------- values

// Sizes with a heavy tail, around powers of two.
inline size_t heavy(Rng &r, size_t max) {
  size_t n;
  switch (r.below(8)) {
  case 0: n = 0; break;
  case 1: case 2: case 3: n = r.below(9); break;
  case 4: case 5: n = r.below(70); break;
  case 6: n = r.below(300); break;
  default: {
    int k = 3 + (int)r.below(14);
    n = ((size_t)1 << k) + r.range(-2, 2);
  }
  }
  return n > max ? r.below(max + 1) : n;
}

inline int64_t gen_int(Rng &r, int bitsn) {
  int64_t lo = bitsn == 32 ? INT32_MIN : INT64_MIN, hi = bitsn == 32 ? INT32_MAX : INT64_MAX;
  int64_t v;
  switch (r.below(10)) {
  case 0: { static const int64_t s[] = {0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10, 31, 100, 1000, 127, 128, 129, -127, -128, -129, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536}; v = s[r.below(std::size(s))]; break; }
  case 1: v = r.pick({lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, (int64_t)INT32_MIN, (int64_t)INT32_MAX, lo / 2, hi / 2, lo / 3, hi / 3}); break;
  case 2: case 3: { v = (int64_t)(((uint64_t)1 << r.below(bitsn)) + (uint64_t)r.range(-2, 2)); if (r.one_in(2)) v = (int64_t)(0 - (uint64_t)v); break; }
  case 4: case 5: v = r.range(-20, 20); break;
  case 6: v = r.range(-3000, 3000); break;
  case 7: { uint64_t u = r.next() >> r.below(64); v = (int64_t)(r.one_in(2) ? 0 - u : u); break; }
  case 8: { int64_t root = bitsn == 32 ? 46340 : 3037000499ll; v = root + r.range(-3, 3); if (r.one_in(2)) v = -v; break; }
  default: v = (int64_t)r.next();
  }
  return bitsn == 32 ? (int64_t)(int32_t)v : v;
}

template <typename F, typename U, int MANT>
inline F gen_float(Rng &r) {
  auto fromb = [](U u) { F f; memcpy(&f, &u, sizeof f); return f; };
  auto tob = [](F f) { U u; memcpy(&u, &f, sizeof u); return u; };
  const U inf = tob((F)INFINITY), sign = (U)1 << (sizeof(U) * 8 - 1);
  F v;
  switch (r.below(14)) {
  case 0: { static const double s[] = {0.0, 1, 2, 3, 0.5, 1.5, 2.5, 0.25, 0.1, 0.2, 0.3, 1e-5, 1e5, 10, 100, 1.0 / 3, 2.0 / 3, 3.141592653589793, 2.718281828459045, 1e10, 1e-10, 123456789, 1e15, 1e16, 1e-15, 5e-16}; v = (F)s[r.below(std::size(s))]; break; }
  case 1: v = fromb(r.pick({inf, (U)(inf - 1), (U)1, (U)2, (U)0, (U)((U)1 << MANT), (U)(((U)1 << MANT) - 1), (U)(inf | ((U)1 << (MANT - 1)))})); break;
  case 2: { v = (F)std::ldexp(1.0, (int)r.range(-70, 70)); U u = tob(v); u += (U)r.range(-2, 2); v = fromb(u); break; }
  case 3: { v = (F)r.pick({2147483647.0, 2147483648.0, 2147483647.5, 2147483646.5, 2147483648.5, 4294967295.0, 9223372036854775807.0, 9223372036854774784.0, 16777216.0, 16777217.0, 8388607.5, 8388608.0, 8388609.0, 4503599627370495.5, 4503599627370496.0, 4503599627370497.0, 9007199254740991.0, 9007199254740993.0}); U u = tob(v); u += (U)r.range(-2, 2); v = fromb(u); break; }
  case 4: v = (F)r.range(-1000, 1000); break;
  case 5: v = (F)r.range(-2000, 2000) / 2; break;            // halves
  case 6: { v = (F)(r.range(-100, 100) + 0.5); U u = tob(v); u += (U)r.range(-1, 1); v = fromb(u); break; }
  case 7: v = (F)r.range(-100000, 100000) / 1000; break;
  case 8: v = (F)(r.range(-1000000000, 1000000000) / 1e6); break;
  case 9: v = (F)((double)(int64_t)r.next() / 9.2e18); break;
  case 10: v = (F)gen_int(r, 64); break;
  case 11: v = (F)gen_int(r, 32); break;
  default: v = fromb((U)r.next());
  }
  if (r.one_in(3)) v = fromb(tob(v) ^ sign);
  return v;
}
inline float gen_f32(Rng &r) { return gen_float<float, uint32_t, 23>(r); }
inline double gen_f64(Rng &r) {
  if (r.one_in(12)) {  // near the midpoint of two floats
    uint64_t u = bits((double)gen_f32(r));
    u += (1ull << 28) + r.range(-2, 2);
    return dbits(u);
  }
  return gen_float<double, uint64_t, 52>(r);
}

inline std::string gen_bytes(Rng &r, size_t n) {
  std::string s(n, 0);
  switch (r.below(6)) {
  case 0: for (auto &c : s) c = (char)r.next(); break;
  case 1: for (auto &c : s) c = "ab"[r.below(2)]; break;
  case 2: for (auto &c : s) c = "aAzZ@[`{mM0 "[r.below(12)]; break;
  case 3: for (auto &c : s) c = (char)(32 + r.below(95)); break;
  case 4: for (auto &c : s) c = "\0\x01\x7f\x80\xff\xc3\xa9 \t"[r.below(9)]; break;
  default: { char c0 = (char)r.next(); for (auto &c : s) c = c0; }
  }
  return s;
}
inline std::string gen_ws(Rng &r) {
  std::string s(r.below(4), ' ');
  for (auto &c : s) c = " \t\n\v\f\r"[r.below(6)];
  return s;
}
inline std::string gen_numtext(Rng &r) {
  char b[512];
  std::string s;
  switch (r.below(9)) {
  case 0: s = std::to_string(gen_int(r, 32)); break;
  case 1: s = std::to_string(gen_int(r, 64)); break;
  case 7: {   // halfway between two neighbours, or next to it
    long double v;
    if (r.one_in(2)) { float f = gen_f32(r); v = ((long double)f + (long double)std::nextafter(f, INFINITY)) / 2; }
    else { double d = gen_f64(r); v = ((long double)d + (long double)std::nextafter(d, INFINITY)) / 2; }
    if (!std::isfinite(v)) v = 0.5;
    char big[1400];
    int n = r.one_in(3) ? snprintf(big, sizeof big, "%.*Lf", (int)r.range(0, 1100), std::fabs(v) < 1e200L ? v : 1.5L) : snprintf(big, sizeof big, "%.*Le", (int)r.range(10, 800), v);
    s.assign(big, (size_t)std::min<int>(n, sizeof big - 1));
    size_t e = s.find('e'), last = (e == std::string::npos ? s.size() : e) - 1;
    if (r.one_in(4)) s.insert(last + 1, std::string(r.below(30), '0') + "1");
    else if (r.one_in(3) && s[last] >= '1' && s[last] <= '8') s[last] = (char)(s[last] + r.range(-1, 1));
    break;
  }
  case 2: snprintf(b, sizeof b, "%.*g", (int)r.range(1, 18), gen_f64(r)); s = b; break;
  case 3: snprintf(b, sizeof b, "%.*f", (int)r.below(20), (double)gen_f32(r)); s = b; break;
  case 4: snprintf(b, sizeof b, "%lld.%lld", (long long)r.range(-999, 999), (long long)r.below(100000)); s = b; break;
  case 5: snprintf(b, sizeof b, "%lldE%lld", (long long)r.range(-999, 999), (long long)r.range(-50, 50)); s = b; break;
  case 6: { s = r.pick({"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967296", "4294967295", "18446744073709551616", "18446744073709551615", "99999999999999999999999", "3.4028235e38", "3.4028236e38", "1e39", "-1e39", "1.7976931348623157e308", "1e309", "-1e309", "1e400", "0", "-0", "+0", "00000000000000000000000000012", "0.1", ".5", "-.5", "5.", "1e", "1e+", "1.5e-3"}); break; }
  default: { s = std::string(r.below(30), '0'); for (size_t i = r.below(25); i--;) s += (char)('0' + r.below(10)); }
  }
  if (r.one_in(8)) s = (s.empty() || s[0] != '-' ? "+" : "") + s;
  if (r.one_in(4)) s = gen_ws(r) + s;
  if (r.one_in(4)) s += r.pick({" ", "abc", ".", "..", "-", "e", "x", "1.1.1", "\n", ",5", " 7"});
  if (r.one_in(12)) s += std::string(1, '\0') + "9";
  return s;
}
inline std::string gen_str(Rng &r, size_t max = 300) {
  size_t n;
  std::string s;
  switch (r.below(10)) {
  case 0: return r.pick({"", "", " ", "a", "A", "abc", "ABC", "Alice", "\t\n", "true", "false", "0", "1", "NULL"});
  case 1: case 2: s = gen_numtext(r); break;
  case 3: s = gen_ws(r) + gen_bytes(r, r.below(10)) + gen_ws(r); break;
  case 4: case 5: case 6: s = gen_bytes(r, r.below(12)); break;
  default: n = heavy(r, max); s = gen_bytes(r, n);
  }
  if (s.size() > max) s.resize(max);
  return s;
}

inline Val gen_val(Rng &r, T t, size_t maxstr = 300) {
  switch (t) {
  case I32: return Val::i32((int32_t)gen_int(r, 32));
  case I64: return Val::i64(gen_int(r, 64));
  case BOOL: return Val::boolean(r.one_in(2));
  case F32: return Val::f32(gen_f32(r));
  case F64: return Val::f64(gen_f64(r));
  case STR: return Val::str(gen_str(r, maxstr));
  default: return Val::null();
  }
}
// Small friendly domain with many repetitions
inline Val gen_small(Rng &r, T t, int64_t span) {
  int64_t x = r.range(-span, span);
  switch (t) {
  case I32: return Val::i32((int32_t)x);
  case I64: return Val::i64(x);
  case BOOL: return Val::boolean(x & 1);
  case F32: return Val::f32((float)x / 2);
  case F64: return Val::f64((double)x / 2);
  case STR: return Val::str(x % 7 == 0 ? std::string() : std::string(1 + (size_t)(x < 0 ? -x : x) % 4, (char)('a' + ((x % 26) + 26) % 26)));
  default: return Val::null();
  }
}
// A value close to v (same type): a neighbour, the same, or something derived from it.
inline Val gen_near(Rng &r, const Val &v) {
  Val x = v;
  switch (v.t) {
  case I32: x.i = (int32_t)(uint32_t)((uint64_t)v.i + r.range(-2, 2)); if (r.one_in(6)) x.i = (int32_t)(0 - (uint32_t)v.i); if (r.one_in(8)) x.i = (int32_t)((uint32_t)v.i ^ (1u << r.below(32))); break;
  case I64: x.i = (int64_t)((uint64_t)v.i + r.range(-2, 2)); if (r.one_in(6)) x.i = (int64_t)(0 - (uint64_t)v.i); if (r.one_in(8)) x.i = (int64_t)((uint64_t)v.i ^ (1ull << r.below(64))); break;
  case BOOL: x.i = r.below(2); break;
  case F32: { uint32_t u = bits(v.f) + (uint32_t)r.range(-2, 2); if (r.one_in(5)) u ^= 0x80000000u; x.f = fbits(u); break; }
  case F64: { uint64_t u = bits(v.d) + (uint64_t)r.range(-2, 2); if (r.one_in(5)) u ^= 1ull << 63; x.d = dbits(u); break; }
  case STR:
    switch (r.below(7)) {
    case 0: break;
    case 1: if (!x.s.empty()) x.s[r.below(x.s.size())] ^= (char)(1 << r.below(8)); break;
    case 2: if (!x.s.empty()) x.s.back() ^= (char)(1 << r.below(8)); break;
    case 3: if (!x.s.empty()) x.s.pop_back(); break;
    case 4: x.s += (char)r.next(); break;
    case 5: x.s += std::string(1, '\0'); break;
    default: if (!x.s.empty()) x.s.resize(r.below(x.s.size())); break;
    }
    break;
  default: break;
  }
  return x;
}

inline Row gen_row(Rng &r, const std::vector<T> &types, int null_in, size_t maxstr = 60, int small_in = 2, int64_t span = 20) {
  Row row;
  row.reserve(types.size());
  for (T t : types) {
    if (null_in && r.one_in(null_in)) row.push_back(Val::null());
    else if (small_in && r.one_in(small_in)) row.push_back(gen_small(r, t, span));
    else row.push_back(gen_val(r, t, maxstr));
  }
  return row;
}
inline std::vector<T> gen_types(Rng &r, size_t n) { std::vector<T> t; for (size_t i = 0; i < n; ++i) t.push_back(ALL_T[r.below(6)]); return t; }

// ---------------------------------------------------------------- programs

struct GenOpt {
  const std::vector<T> *types = nullptr;   // types of the tuple elements, if any
  std::function<bool(const OpDesc &)> allow;
  int null_in = 12;     // leaves that are NULL, one in so many (0: none)
  int var_in = 2;       // leaves that are variables, one in so many
  size_t maxstr = 40;
  int small_in = 2;
  int shape = 0;        // 0 mixed, 1 left deep, 2 right deep, 3 balanced
};

struct OpFilter {       // candidate operators per result type
  std::vector<int> by_res[8];
  std::vector<int> by_res_n[8];  // of arity > 1
  explicit OpFilter(const GenOpt &o) {
    for (size_t i = 0; i < table().ops.size(); ++i)
      if (!o.allow || o.allow(table().ops[i])) {
        by_res[table().ops[i].res].push_back((int)i);
        if (table().ops[i].arity > 1) by_res_n[table().ops[i].res].push_back((int)i);
      }
  }
};

inline void gen_leaf(Rng &r, T t, const GenOpt &o, Prog &out) {
  if (o.types && o.var_in && r.one_in(o.var_in)) {
    size_t n = o.types->size(), k = n ? r.below(n) : 0;
    for (size_t i = 0; i < n; ++i) {
      size_t j = (k + i) % n;
      if ((*o.types)[j] == t) { out.push_back(v_(t, (int64_t)j)); return; }
    }
  }
  if (o.null_in && r.one_in(o.null_in)) { out.push_back(n_(t)); return; }
  out.push_back(c_(o.small_in && r.one_in(o.small_in) ? gen_small(r, t, 30) : gen_val(r, t, o.maxstr)));
}

// Appends a well typed program leaving one value of type t, of about `budget` operators.
inline void gen_expr(Rng &r, T t, size_t budget, const GenOpt &o, const OpFilter &f, Prog &out) {
  struct W { int op; T t; size_t budget; };
  std::vector<W> work;
  work.push_back({-1, t, budget});
  while (!work.empty()) {
    W w = work.back();
    work.pop_back();
    if (w.op >= 0) { out.push_back(o_(w.op)); continue; }
    auto &cand = (w.budget > 3 && !f.by_res_n[w.t].empty() && !r.one_in(4)) ? f.by_res_n[w.t] : f.by_res[w.t];
    if (w.budget <= 1 || cand.empty()) { gen_leaf(r, w.t, o, out); continue; }
    int op = cand[r.below(cand.size())];
    const OpDesc &d = table().ops[op];
    size_t rest = w.budget - 1, b[3] = {0, 0, 0};
    int shape = o.shape ? o.shape : 1 + (int)r.below(3);
    if (d.arity == 1) b[0] = rest;
    else if (shape == 1) { for (int i = 1; i < d.arity; ++i) { b[i] = 1; } b[0] = rest > (size_t)d.arity ? rest - d.arity + 1 : 1; }
    else if (shape == 2) { for (int i = 0; i + 1 < d.arity; ++i) { b[i] = 1; } b[d.arity - 1] = rest > (size_t)d.arity ? rest - d.arity + 1 : 1; }
    else {
      size_t left = rest;
      for (int i = 0; i < d.arity; ++i) { b[i] = i + 1 == d.arity ? left : (r.one_in(2) ? left / (d.arity - i) : r.below(left + 1)); left -= b[i]; }
    }
    work.push_back({op, TNULL, 0});
    for (int i = d.arity - 1; i >= 0; --i) work.push_back({-1, d.arg[i], b[i]});
  }
}
inline Prog gen_expr(Rng &r, T t, size_t budget, const GenOpt &o) {
  OpFilter f(o);
  Prog p;
  gen_expr(r, t, budget, o, f, p);
  return p;
}

// Operators whose result is never an error nor left open, whatever the operand values
inline bool safe_op(const OpDesc &d) {
  if (d.fn == CASTC && !(d.arg[0] == I32 || d.arg[0] == BOOL || d.res == BOOL || d.identity)) return false;
  if (d.fn == CAST || d.fn == CASTC) {
    if ((d.arg[0] == F32 || d.arg[0] == F64) && (d.res == I32 || d.res == I64 || d.res == STR)) return false;
    if (d.arg[0] == STR && d.res != STR) return false;
  }
  if (d.fn == ABSC && (d.res == I32 || d.res == I64)) return false;
  if ((d.fn == MIN || d.fn == MAX) && (d.res == F32 || d.res == F64)) return false;
  return true;
}

// Bytes of a program with randomly longer varints (all equally valid encodings).
inline Bytes encode_padded(Rng &r, const Prog &p) {
  Bytes b;
  for (auto &i : p) {
    int pad = r.one_in(3) ? (int)r.below(10) : 0;
    if (i.k == Ins::VAR) { b.push_back(0x30 | i.t); put_varint(b, (uint64_t)(uint32_t)i.idx, pad); }
    else if (i.k == Ins::CONST && (i.v.t == I32 || i.v.t == I64)) {
      // either sign form, negative values also as plain ten byte two's complement
      bool neg = r.one_in(2);
      if (neg) { b.push_back(0x20 | i.v.t); put_varint(b, i.v.t == I32 ? (uint64_t)(uint32_t)(0 - (uint32_t)i.v.i) : 0 - (uint64_t)i.v.i, pad); }
      else { b.push_back(0x10 | i.v.t); put_varint(b, i.v.t == I32 && r.one_in(2) ? (uint64_t)(uint32_t)i.v.i : (uint64_t)i.v.i, pad); }
    } else if (i.k == Ins::CONST && i.v.t == STR) { b.push_back(0x17); put_varint(b, i.v.s.size(), pad > 5 ? 5 : pad); b.insert(b.end(), i.v.s.begin(), i.v.s.end()); }
    else encode(b, i);
  }
  return b;
}

}  // namespace m
