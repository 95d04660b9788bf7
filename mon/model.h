// Reference model of the encoding and evaluation described in /repo/README.md.
// Written independently of the library: it includes none of its headers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace m {

typedef std::vector<uint8_t> Bytes;

enum T : uint8_t { TNULL = 0, I32 = 1, I64 = 2, BOOL = 3, F32 = 4, F64 = 5, DEC = 6, STR = 7 };
static const T ALL_T[] = {I32, I64, BOOL, F32, F64, STR};

inline const char *tname(T t) {
  switch (t) {
  case TNULL: return "NULL";
  case I32: return "INT32";
  case I64: return "INT64";
  case BOOL: return "BOOL";
  case F32: return "FLOAT";
  case F64: return "DOUBLE";
  case DEC: return "DECIMAL";
  case STR: return "STRING";
  }
  return "?";
}

struct Val {
  T t = TNULL;
  bool loose = false;   // a zero whose sign is left open
  int64_t i = 0;   // I32, I64, BOOL
  float f = 0;
  double d = 0;
  std::string s;
  static Val null() { return Val(); }
  static Val i32(int32_t v) { Val r; r.t = I32; r.i = v; return r; }
  static Val i64(int64_t v) { Val r; r.t = I64; r.i = v; return r; }
  static Val boolean(bool v) { Val r; r.t = BOOL; r.i = v; return r; }
  static Val f32(float v) { Val r; r.t = F32; r.f = v; return r; }
  static Val f64(double v) { Val r; r.t = F64; r.d = v; return r; }
  static Val str(std::string v) { Val r; r.t = STR; r.s = std::move(v); return r; }
  bool isnull() const { return t == TNULL; }
};
typedef std::vector<Val> Row;

inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline float fbits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline double dbits(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

// Same type and same value, floating point bit for bit except that any NaN equals any NaN.
inline bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
  case I32: case I64: case BOOL: return a.i == b.i;
  case F32: return (a.f != a.f && b.f != b.f) || bits(a.f) == bits(b.f);
  case F64: return (a.d != a.d && b.d != b.d) || bits(a.d) == bits(b.d);
  case STR: return a.s == b.s;
  default: return true;
  }
}
// As `same`, but 0.0 equals -0.0.
inline bool same_z(const Val &a, const Val &b) {
  if (a.t == F32 && b.t == F32 && a.f == b.f) return true;
  if (a.t == F64 && b.t == F64 && a.d == b.d) return true;
  return same(a, b);
}
inline bool same(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
inline bool same_z(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same_z(a[i], b[i])) return false;
  return true;
}

inline std::string hex(const uint8_t *p, size_t n, size_t max = 400) {
  static const char *d = "0123456789ABCDEF";
  std::string r;
  for (size_t i = 0; i < n && i < max; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
  if (n > max) r += "...(" + std::to_string(n) + " bytes)";
  return r;
}
inline std::string hex(const Bytes &b, size_t max = 400) { return hex(b.data(), b.size(), max); }
inline std::string show(const Val &v) {
  char buf[80];
  switch (v.t) {
  case I32: return "INT32:" + std::to_string(v.i);
  case I64: return "INT64:" + std::to_string(v.i);
  case BOOL: return v.i ? "TRUE" : "FALSE";
  case F32: snprintf(buf, sizeof buf, "FLOAT:%.9g(%08X)", v.f, bits(v.f)); return buf;
  case F64: snprintf(buf, sizeof buf, "DOUBLE:%.17g(%016llX)", v.d, (unsigned long long)bits(v.d)); return buf;
  case STR: {
    std::string r = "STRING:'";
    for (size_t i = 0; i < v.s.size() && i < 60; ++i) {
      unsigned char c = v.s[i];
      if (c >= 32 && c < 127 && c != '\'' && c != '\\') r += (char)c;
      else { snprintf(buf, sizeof buf, "\\x%02X", c); r += buf; }
    }
    r += "'";
    if (v.s.size() > 60) r += "...(" + std::to_string(v.s.size()) + ")";
    return r;
  }
  default: return "NULL";
  }
}
inline std::string show(const Row &r) {
  std::string s = "[";
  for (size_t i = 0; i < r.size() && i < 24; ++i) { if (i) s += ", "; s += show(r[i]); }
  if (r.size() > 24) s += ", ...(" + std::to_string(r.size()) + ")";
  return s + "]";
}

// ---------------------------------------------------------------- operators

enum Fn : uint8_t {
  POS, NEG, ADD, SUB, MUL, DIV, MOD, EQ, GE, GT, LE, LT, NE, ISNULL, ISTRUE, ISFALSE, MIN, MAX, ABS, ABSC,
  NOT, AND, OR, CAST, CASTC,
  CEIL, FLOOR, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, EXP, LOG,
  CONCAT, LOWER, UPPER, LEFT, RIGHT, TRIM, LTRIM, RTRIM, SUBSTR3, SUBSTR2, MID3, MID2
};
static const char *const FN_NAMES[] = {
  "POS","NEG","ADD","SUB","MUL","DIV","MOD","EQ","GE","GT","LE","LT","NE","IS_NULL","IS_TRUE","IS_FALSE","MIN","MAX","ABS","ABS_C",
  "NOT","AND","OR","CAST","CAST_C",
  "CEIL","FLOOR","SIN","COS","TAN","ASIN","ACOS","ATAN","SINH","COSH","TANH","EXP","LOG",
  "CONCAT","LOWER","UPPER","LEFT","RIGHT","TRIM","LTRIM","RTRIM","SUBSTR3","SUBSTR2","MID3","MID2"};

struct OpDesc {
  Fn fn;
  uint8_t b0, b1;
  bool two;        // two bytes
  int arity;
  T arg[3];
  T res;
  bool identity = false;  // cast to the same type
  std::string name() const {
    std::string n = FN_NAMES[fn];
    if (fn == CAST || fn == CASTC) return n + "<" + tname(res) + "," + tname(arg[0]) + ">";
    if (fn < NOT) return n + "<" + tname(arg[0]) + ">";
    return n;
  }
};

struct OpTable {
  std::vector<OpDesc> ops;
  int one[256];
  int two[256][256];
  std::vector<int> by_res[8];
  void add(Fn fn, int b0, int b1, bool tw, T res, std::vector<T> args, bool identity = false) {
    OpDesc o;
    o.fn = fn; o.b0 = b0; o.b1 = b1; o.two = tw; o.res = res; o.arity = (int)args.size(); o.identity = identity;
    for (size_t i = 0; i < 3; ++i) o.arg[i] = i < args.size() ? args[i] : TNULL;
    if (tw) two[b0][b1] = (int)ops.size(); else one[b0] = (int)ops.size();
    by_res[res].push_back((int)ops.size());
    ops.push_back(o);
  }
  OpTable() {
    for (auto &x : one) x = -1;
    for (auto &x : two) for (auto &y : x) y = -1;
    const T num[] = {I32, I64, F32, F64};
    struct { Fn f; int b; } ar[] = {{POS, 0x81}, {NEG, 0x82}};
    for (auto &a : ar) for (T t : num) add(a.f, a.b, t, true, t, {t});
    struct { Fn f; int b; } bi[] = {{ADD, 0x83}, {SUB, 0x84}, {MUL, 0x85}, {DIV, 0x86}};
    for (auto &a : bi) for (T t : num) add(a.f, a.b, t, true, t, {t, t});
    add(ADD, 0x83, STR, true, STR, {STR, STR});
    add(MOD, 0x87, I32, true, I32, {I32, I32});
    add(MOD, 0x87, I64, true, I64, {I64, I64});
    struct { Fn f; int b; } re[] = {{EQ, 0x91}, {GE, 0x92}, {GT, 0x93}, {LE, 0x94}, {LT, 0x95}, {NE, 0x96}};
    for (auto &a : re) for (T t : ALL_T) add(a.f, a.b, t, true, BOOL, {t, t});
    struct { Fn f; int b; } is[] = {{ISNULL, 0xA1}, {ISTRUE, 0xA2}, {ISFALSE, 0xA3}};
    for (auto &a : is) for (T t : ALL_T) add(a.f, a.b, t, true, BOOL, {t});
    for (T t : ALL_T) add(MIN, 0xB1, t, true, t, {t, t});
    for (T t : ALL_T) add(MAX, 0xB2, t, true, t, {t, t});
    for (T t : num) add(ABS, 0xB3, t, true, t, {t});
    for (T t : num) add(ABSC, 0xB4, t, true, t, {t});
    add(NOT, 0x51, 0, false, BOOL, {BOOL});
    add(AND, 0x52, 0, false, BOOL, {BOOL, BOOL});
    add(OR, 0x53, 0, false, BOOL, {BOOL, BOOL});
    for (int c = 0; c < 2; ++c)
      for (T d : ALL_T)
        for (T s : ALL_T) {
          if (d == BOOL && s == STR) continue;
          add(c ? CASTC : CAST, c ? 0xFC : 0xF0, (d << 4) | s, true, d, {s}, d == s);
        }
    struct { Fn f; int n; } ma[] = {{CEIL, 1}, {FLOOR, 2}, {SIN, 7}, {COS, 8}, {TAN, 9}, {ASIN, 10}, {ACOS, 11}, {ATAN, 12},
                                    {SINH, 13}, {COSH, 14}, {TANH, 15}, {EXP, 16}, {LOG, 17}};
    for (auto &a : ma) add(a.f, 0xF1, a.n, true, F64, {F64});
    add(CONCAT, 0xF1, 0x21, true, STR, {STR, STR});
    add(LOWER, 0xF1, 0x22, true, STR, {STR});
    add(UPPER, 0xF1, 0x23, true, STR, {STR});
    add(LEFT, 0xF1, 0x24, true, STR, {STR, I32});
    add(RIGHT, 0xF1, 0x25, true, STR, {STR, I32});
    add(TRIM, 0xF1, 0x26, true, STR, {STR});
    add(LTRIM, 0xF1, 0x28, true, STR, {STR});
    add(RTRIM, 0xF1, 0x2A, true, STR, {STR});
    add(SUBSTR3, 0xF1, 0x2C, true, STR, {STR, I32, I32});
    add(SUBSTR2, 0xF1, 0x2D, true, STR, {STR, I32});
    add(MID3, 0xF1, 0x2E, true, STR, {STR, I32, I32});
    add(MID2, 0xF1, 0x2F, true, STR, {STR, I32});
  }
};
inline const OpTable &table() { static const OpTable t; return t; }

// ---------------------------------------------------------------- operator semantics

enum St : uint8_t { OK, ERR, UNSPEC };  // value / must raise an error / left open by the properties
struct Res {
  St st;
  Val v;
};
inline Res ok(Val v) { return {OK, std::move(v)}; }
inline Res err() { return {ERR, Val()}; }
inline Res unspec() { return {UNSPEC, Val()}; }

inline int cmp_bytes(const std::string &a, const std::string &b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

inline int64_t wrap(__int128 x, T t) {
  if (t == I32) return (int32_t)(uint32_t)(unsigned __int128)x;
  return (int64_t)(uint64_t)(unsigned __int128)x;
}
inline Val mkint(int64_t x, T t) { Val v; v.t = t; v.i = x; return v; }

inline bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

template <typename F>
inline std::string fixed15(F v) {
  if (v != v) return std::signbit(v) ? "-nan" : "nan";
  if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
  char buf[400];
  snprintf(buf, sizeof buf, "%.15f", (double)v);
  std::string s = buf;
  while (s[s.size() - 1] == '0' && s[s.size() - 2] != '.') s.erase(s.size() - 1);
  return s;
}

inline Res text_to_int(const std::string &s, T t) {
  size_t i = 0;
  while (i < s.size() && ws(s[i])) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
  __int128 x = 0;
  bool big = false;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
    x = x * 10 + (s[i] - '0');
    if (x > ((__int128)1 << 70)) { big = true; x = (__int128)1 << 70; }
  }
  if (neg) x = -x;
  __int128 lo = t == I32 ? (__int128)INT32_MIN : (__int128)INT64_MIN, hi = t == I32 ? (__int128)INT32_MAX : (__int128)INT64_MAX;
  if (big || x < lo || x > hi) return err();
  return ok(mkint((int64_t)x, t));
}
inline Res text_to_float(const std::string &s, T t) {
  const char *b = s.c_str();
  char *e;
  {  // hexadecimal, infinity and nan texts are left open
    const char *q = b;
    while (ws((unsigned char)*q)) ++q;
    if (*q == '+' || *q == '-') ++q;
    if (*q == 'i' || *q == 'I' || *q == 'n' || *q == 'N' || (*q == '0' && (q[1] == 'x' || q[1] == 'X'))) return unspec();
  }
  errno = 0;
  if (t == F32) {
    float f = strtof(b, &e);
    if (e == b) return ok(Val::f32(0));
    if (errno == ERANGE && std::isinf(f)) return err();
    return ok(Val::f32(f));
  }
  double d = strtod(b, &e);
  if (e == b) return ok(Val::f64(0));
  if (errno == ERANGE && std::isinf(d)) return err();
  return ok(Val::f64(d));
}

inline Res cast(const Val &a, T d, bool checked) {
  T s = a.t;
  if (s == d) return ok(a);
  if (d == STR) {
    switch (s) {
    case I32: case I64: {
      char buf[32];
      snprintf(buf, sizeof buf, "%lld", (long long)a.i);
      return ok(Val::str(buf));
    }
    case BOOL: return ok(Val::str(a.i ? "true" : "false"));
    case F32: if (a.f != a.f) return unspec(); return ok(Val::str(fixed15(a.f)));
    case F64: if (a.d != a.d) return unspec(); return ok(Val::str(fixed15(a.d)));
    default: return unspec();
    }
  }
  if (s == STR) {
    if (d == I32 || d == I64) return text_to_int(a.s, d);
    if (d == F32 || d == F64) return text_to_float(a.s, d);
    return unspec();
  }
  if (d == BOOL) {
    if (s == F32) return ok(Val::boolean(!(a.f == 0.0f)));
    if (s == F64) return ok(Val::boolean(!(a.d == 0.0)));
    return ok(Val::boolean(a.i != 0));
  }
  if (d == I32 || d == I64) {
    if (s == I64) {
      if (checked && (a.i < INT32_MIN || a.i > INT32_MAX)) return err();
      return ok(mkint(wrap(a.i, I32), I32));
    }
    if (s == I32 || s == BOOL) return ok(mkint(a.i, d));
    double x = s == F32 ? (double)a.f : a.d;
    double r = std::trunc(x);                       // nearest, halves away from zero
    if (std::fabs(x - r) >= 0.5) r += x < 0 ? -1 : 1;  // x - trunc(x) is exact
    bool fits = d == I32 ? (r >= -2147483648.0 && r <= 2147483647.0) : (r >= -9223372036854775808.0 && r < 9223372036854775808.0);
    if (x != x || !fits) return checked ? err() : unspec();
    return ok(mkint((int64_t)r, d));
  }
  if (d == F32) {
    if (s == F64) return ok(Val::f32((float)a.d));
    if (s == I32 || s == BOOL) return ok(Val::f32((float)(double)a.i));   // exact in double, so rounded once
    return ok(Val::f32((float)a.i));
  }
  // F64
  if (s == F32) return ok(Val::f64((double)a.f));
  return ok(Val::f64((double)a.i));
}

typedef double (*MathFn)(double);
inline MathFn mathfn(Fn f) {
  static volatile MathFn fns[] = {::ceil, ::floor, ::sin, ::cos, ::tan, ::asin, ::acos, ::atan, ::sinh, ::cosh, ::tanh, ::exp, ::log};
  return fns[f - CEIL];
}

inline bool strict(Fn f) { return !(f == ISNULL || f == ISTRUE || f == ISFALSE || f == AND || f == OR); }

// Three-valued logic: 0 false, 1 true, 2 null
inline int tri(const Val &v) { return v.isnull() ? 2 : v.i ? 1 : 0; }
inline Val untri(int x) { return x == 2 ? Val::null() : Val::boolean(x == 1); }

inline Res apply(const OpDesc &o, const Val *a) {
  if (o.identity) return ok(a[0]);
  if (o.fn == ISNULL) return ok(Val::boolean(a[0].isnull()));
  bool bad = false, nul = false;
  for (int i = 0; i < o.arity; ++i) {
    if (a[i].isnull()) nul = true;
    else if (a[i].t != o.arg[i]) bad = true;
  }
  if (bad) {
    if (nul || !strict(o.fn) || o.fn == CAST || o.fn == CASTC || o.fn == NOT) return unspec();
    return err();
  }
  switch (o.fn) {
  case ISTRUE: case ISFALSE: {
    if (nul) return ok(Val::boolean(false));
    bool truth = o.arg[0] == STR ? false : o.arg[0] == F32 ? !(a[0].f == 0) : o.arg[0] == F64 ? !(a[0].d == 0) : a[0].i != 0;
    return ok(Val::boolean(o.fn == ISTRUE ? truth : !truth));
  }
  case AND: {
    static const int t[3][3] = {{0, 0, 0}, {0, 1, 2}, {0, 2, 2}};
    return ok(untri(t[tri(a[0])][tri(a[1])]));
  }
  case OR: {
    static const int t[3][3] = {{0, 1, 2}, {1, 1, 1}, {2, 1, 2}};
    return ok(untri(t[tri(a[0])][tri(a[1])]));
  }
  default: break;
  }
  if (nul) return ok(Val::null());
  T t = o.arg[0];
  bool isint = t == I32 || t == I64;
  __int128 x = a[0].i, y = o.arity > 1 ? a[1].i : 0;
  switch (o.fn) {
  case NOT: return ok(Val::boolean(!a[0].i));
  case POS: return ok(a[0]);
  case NEG:
    if (isint) return ok(mkint(wrap(-x, t), t));
    if (t == F32) return ok(Val::f32(fbits(bits(a[0].f) ^ 0x80000000u)));
    return ok(Val::f64(dbits(bits(a[0].d) ^ 0x8000000000000000ull)));
  case ABS: case ABSC:
    if (isint) {
      __int128 r = x < 0 ? -x : x;
      if (o.fn == ABSC && wrap(r, t) < 0) return err();
      return ok(mkint(wrap(r, t), t));
    }
    if (t == F32) return ok(Val::f32(fbits(bits(a[0].f) & 0x7FFFFFFFu)));
    return ok(Val::f64(dbits(bits(a[0].d) & 0x7FFFFFFFFFFFFFFFull)));
  case ADD:
    if (t == STR) { std::string r; r.reserve(a[0].s.size() + a[1].s.size()); r.append(a[0].s); r.append(a[1].s); return ok(Val::str(std::move(r))); }
    if (isint) return ok(mkint(wrap(x + y, t), t));
    return ok(t == F32 ? Val::f32(a[0].f + a[1].f) : Val::f64(a[0].d + a[1].d));
  case SUB:
    if (isint) return ok(mkint(wrap(x - y, t), t));
    return ok(t == F32 ? Val::f32(a[0].f - a[1].f) : Val::f64(a[0].d - a[1].d));
  case MUL:
    if (isint) return ok(mkint(wrap(x * y, t), t));
    return ok(t == F32 ? Val::f32(a[0].f * a[1].f) : Val::f64(a[0].d * a[1].d));
  case DIV:
    if (isint) {
      if (y == 0) return ok(Val::null());
      __int128 q = (x < 0 ? -x : x) / (y < 0 ? -y : y);
      if ((x < 0) != (y < 0)) q = -q;
      return ok(mkint(wrap(q, t), t));
    }
    if (t == F32) return a[1].f == 0 ? ok(Val::null()) : ok(Val::f32(a[0].f / a[1].f));
    return a[1].d == 0 ? ok(Val::null()) : ok(Val::f64(a[0].d / a[1].d));
  case MOD: {
    if (y == 0) return ok(Val::null());
    __int128 r = (x < 0 ? -x : x) % (y < 0 ? -y : y);
    if (x < 0) r = -r;
    return ok(mkint(wrap(r, t), t));
  }
  case EQ: case NE: case LT: case LE: case GT: case GE: case MIN: case MAX: {
    int c;  // -1, 0, 1; 2 unordered
    if (t == STR) c = cmp_bytes(a[0].s, a[1].s);
    else if (t == F32) c = a[0].f < a[1].f ? -1 : a[0].f > a[1].f ? 1 : a[0].f == a[1].f ? 0 : 2;
    else if (t == F64) c = a[0].d < a[1].d ? -1 : a[0].d > a[1].d ? 1 : a[0].d == a[1].d ? 0 : 2;
    else c = x < y ? -1 : x > y ? 1 : 0;
    switch (o.fn) {
    case EQ: return ok(Val::boolean(c == 0));
    case NE: return ok(Val::boolean(c != 0));
    case LT: return ok(Val::boolean(c == -1));
    case LE: return ok(Val::boolean(c == -1 || c == 0));
    case GT: return ok(Val::boolean(c == 1));
    case GE: return ok(Val::boolean(c == 1 || c == 0));
    case MIN: case MAX:
      if (c == 2) return unspec();
      if (c == 0 && !same(a[0], a[1])) return unspec();  // 0.0 and -0.0
      return ok((o.fn == MIN) == (c <= 0) ? a[0] : a[1]);
    default: break;
    }
    break;
  }
  case CAST: return cast(a[0], o.res, false);
  case CASTC: return cast(a[0], o.res, true);
  case CONCAT: { std::string r = a[0].s; r.append(a[1].s); return ok(Val::str(std::move(r))); }
  case LOWER: case UPPER: {
    std::string r = a[0].s;
    for (auto &ch : r) {
      if (o.fn == LOWER && ch >= 'A' && ch <= 'Z') ch = ch - 'A' + 'a';
      else if (o.fn == UPPER && ch >= 'a' && ch <= 'z') ch = ch - 'a' + 'A';
    }
    return ok(Val::str(r));
  }
  case LEFT: case RIGHT: {
    int64_t n = a[1].i, len = (int64_t)a[0].s.size();
    if (n < 0) n = 0;
    if (n > len) n = len;
    return ok(Val::str(o.fn == LEFT ? a[0].s.substr(0, n) : a[0].s.substr(len - n)));
  }
  case TRIM: case LTRIM: case RTRIM: {
    const std::string &s = a[0].s;
    size_t b = 0, e = s.size();
    if (o.fn != RTRIM) while (b < e && ws(s[b])) ++b;
    if (o.fn != LTRIM) while (e > b && ws(s[e - 1])) --e;
    return ok(Val::str(std::string(s, b, e - b)));
  }
  case SUBSTR3: case SUBSTR2: {
    int64_t len = (int64_t)a[0].s.size(), b = a[1].i, e = o.fn == SUBSTR3 ? a[2].i : len;
    if (b < 0) b = 0;
    if (e > len) e = len;
    return ok(Val::str(b < e ? a[0].s.substr(b, e - b) : ""));
  }
  case MID3: case MID2: {
    int64_t len = (int64_t)a[0].s.size(), p = a[1].i, n = o.fn == MID3 ? a[2].i : len;
    if (p < 0) p = len + p; else p = p - 1;
    if (a[1].i == 0 || p < 0 || p >= len || n <= 0) return ok(Val::str(""));
    if (n > len - p) n = len - p;
    return ok(Val::str(a[0].s.substr(p, n)));
  }
  default:
    if (o.fn >= CEIL && o.fn <= LOG) return ok(Val::f64(mathfn(o.fn)(a[0].d)));
  }
  return unspec();
}

// ---------------------------------------------------------------- programs

struct Ins {
  enum K : uint8_t { CONST, NUL, VAR, OP } k;
  T t;               // type code for CONST, NUL, VAR
  int op = -1;       // index into table().ops
  int64_t idx = 0;   // VAR
  Val v;             // CONST
};
typedef std::vector<Ins> Prog;

inline Ins c_(Val v) { Ins i; i.k = Ins::CONST; i.t = v.t; i.v = std::move(v); return i; }
inline Ins n_(T t) { Ins i; i.k = Ins::NUL; i.t = t; return i; }
inline Ins v_(T t, int64_t x) { Ins i; i.k = Ins::VAR; i.t = t; i.idx = x; return i; }
inline Ins o_(int op) { Ins i; i.k = Ins::OP; i.op = op; i.t = table().ops[op].res; return i; }

inline void put_varint(Bytes &b, uint64_t v, int pad = 0) {
  // `pad` extra continuation bytes (a longer, equally valid encoding)
  int n = 0;
  while (v >= 0x80) { b.push_back((uint8_t)(v | 0x80)); v >>= 7; ++n; }
  if (pad > 9 - n) pad = 9 - n;
  if (pad > 0) {
    b.push_back((uint8_t)(v | 0x80));
    for (int i = 1; i < pad; ++i) b.push_back(0x80);
    b.push_back(0);
  } else {
    b.push_back((uint8_t)v);
  }
}
inline void put_be(Bytes &b, uint64_t u, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(u >> (8 * i))); }

inline void encode_const(Bytes &b, const Val &v) {
  switch (v.t) {
  case I32: case I64:
    if (v.i >= 0) { b.push_back(0x10 | v.t); put_varint(b, (uint64_t)v.i); }
    else { b.push_back(0x20 | v.t); put_varint(b, 0 - (uint64_t)v.i); }
    break;
  case BOOL: b.push_back(v.i ? 0x13 : 0x23); break;
  case F32: b.push_back(0x14); put_be(b, bits(v.f), 4); break;
  case F64: b.push_back(0x15); put_be(b, bits(v.d), 8); break;
  case STR: b.push_back(0x17); put_varint(b, v.s.size()); b.insert(b.end(), v.s.begin(), v.s.end()); break;
  default: abort();
  }
}
inline void encode(Bytes &b, const Ins &i) {
  switch (i.k) {
  case Ins::CONST: encode_const(b, i.v); break;
  case Ins::NUL: b.push_back(i.t); break;
  case Ins::VAR: b.push_back(0x30 | i.t); put_varint(b, (uint64_t)(uint32_t)i.idx); break;
  case Ins::OP: {
    const OpDesc &o = table().ops[i.op];
    b.push_back(o.b0);
    if (o.two) b.push_back(o.b1);
    break;
  }
  }
}
inline Bytes encode(const Prog &p) { Bytes b; for (auto &i : p) encode(b, i); return b; }

inline std::string show(const Prog &p) {
  std::string s;
  size_t n = 0;
  for (auto &i : p) {
    if (n++ > 60) { s += "...(" + std::to_string(p.size()) + " operators)"; break; }
    if (!s.empty()) s += ' ';
    switch (i.k) {
    case Ins::CONST: s += show(i.v); break;
    case Ins::NUL: s += std::string("NULL<") + tname(i.t) + ">"; break;
    case Ins::VAR: s += std::string("VAR<") + tname(i.t) + ">[" + std::to_string(i.idx) + "]"; break;
    case Ins::OP: s += table().ops[i.op].name(); break;
    }
  }
  return s;
}

struct Run {
  St st = OK;
  bool by_value = false;   // an error the operand values call for, their number and types being right
  std::vector<Val> stack;
};
// has_row: a tuple is bound
inline Run eval(const Prog &p, const Row *row) {
  Run r;
  for (auto &i : p) {
    switch (i.k) {
    case Ins::CONST: r.stack.push_back(i.v); break;
    case Ins::NUL: r.stack.push_back(Val::null()); break;
    case Ins::VAR:
      if (!row) { r.st = ERR; return r; }
      if (i.idx < 0 || (size_t)i.idx >= row->size()) { r.st = UNSPEC; return r; }
      r.stack.push_back((*row)[i.idx]);
      break;
    case Ins::OP: {
      const OpDesc &o = table().ops[i.op];
      if (o.identity) {
        if (r.stack.empty()) { r.st = UNSPEC; return r; }
        break;
      }
      if ((int)r.stack.size() < o.arity) { r.st = ERR; return r; }
      Res x = apply(o, &r.stack[r.stack.size() - o.arity]);
      if (x.st != OK) {
        r.st = x.st;
        r.by_value = true;
        for (int k = 0; k < o.arity; ++k) if (r.stack[r.stack.size() - o.arity + k].t != o.arg[k]) r.by_value = false;
        return r;
      }
      r.stack.resize(r.stack.size() - o.arity);
      r.stack.push_back(std::move(x.v));
      break;
    }
    }
  }
  return r;
}

// ---------------------------------------------------------------- scanning (what must be accepted)

enum Acc : uint8_t { ACC, REJ, OPEN };  // OPEN: the properties do not say
struct Scan {
  Acc acc = ACC;
  size_t used = 0;
  Prog prog;
  const char *why = "";
};

inline Acc get_varint(const Bytes &b, size_t &p, size_t end, uint64_t &v) {
  v = 0;
  for (int n = 0; n < 10; ++n) {
    if (p >= end) return REJ;
    uint8_t x = b[p++];
    if (n < 9) v |= (uint64_t)(x & 0x7F) << (7 * n);
    else v |= (uint64_t)(x & 1) << 63;
    if (!(x & 0x80)) return (n == 9 && x > 1) ? OPEN : ACC;
  }
  return REJ;
}

inline Scan scan_expr(const Bytes &b, size_t p, size_t end) {
  Scan r;
  size_t start = p;
  auto fin = [&](Acc a, const char *why) { r.acc = a; r.why = why; r.used = p - start; return r; };
  while (p < end) {
    uint8_t c = b[p];
    if (c == 0x00) { ++p; return fin(ACC, "EOE"); }
    uint8_t lo = c & 15;
    bool okt = lo == I32 || lo == I64 || lo == BOOL || lo == F32 || lo == F64 || lo == STR;
    uint64_t u;
    Acc a;
    if (c < 0x10) {
      if (!okt) return fin(REJ, "NULL type");
      r.prog.push_back(n_((T)lo));
      ++p;
    } else if (c < 0x20) {
      if (!okt) return fin(REJ, "CONST type");
      ++p;
      switch (lo) {
      case I32: case I64:
        if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "CONST varint");
        r.prog.push_back(c_(lo == I32 ? Val::i32((int32_t)(uint32_t)u) : Val::i64((int64_t)u)));
        break;
      case BOOL: r.prog.push_back(c_(Val::boolean(true))); break;
      case F32: {
        if (end - p < 4) return fin(REJ, "FLOAT cut");
        uint32_t x = 0;
        for (int i = 0; i < 4; ++i) x = x << 8 | b[p++];
        r.prog.push_back(c_(Val::f32(fbits(x))));
        break;
      }
      case F64: {
        if (end - p < 8) return fin(REJ, "DOUBLE cut");
        uint64_t x = 0;
        for (int i = 0; i < 8; ++i) x = x << 8 | b[p++];
        r.prog.push_back(c_(Val::f64(dbits(x))));
        break;
      }
      case STR:
        if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "STRING length");
        if (u > end - p) return fin(REJ, "STRING cut");
        r.prog.push_back(c_(Val::str(std::string((const char *)b.data() + p, u))));
        p += u;
        break;
      }
    } else if (c < 0x30) {
      ++p;
      if (lo == I32 || lo == I64) {
        if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "CONST_N varint");
        r.prog.push_back(c_(lo == I32 ? Val::i32((int32_t)(0 - (uint32_t)u)) : Val::i64((int64_t)(0 - u))));
      } else if (lo == BOOL) r.prog.push_back(c_(Val::boolean(false)));
      else return fin(REJ, "CONST_N type");
    } else if (c < 0x40) {
      if (lo == DEC) return fin(OPEN, "VAR<DECIMAL>");
      if (!okt) return fin(REJ, "VAR type");
      ++p;
      if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "VAR index");
      r.prog.push_back(v_((T)lo, (int32_t)(uint32_t)u));
    } else if (c < 0x80) {
      int o = table().one[c];
      if (o < 0) return fin(REJ, "one byte operator");
      r.prog.push_back(o_(o));
      ++p;
    } else {
      if (end - p < 2) return fin(REJ, "two bytes operator cut");
      if ((c == 0xF0 || c == 0xFC) && b[p + 1] == 0x66) return fin(OPEN, "CAST<DECIMAL,DECIMAL>");
      int o = table().two[c][b[p + 1]];
      if (o < 0) return fin(REJ, "two bytes operator");
      r.prog.push_back(o_(o));
      p += 2;
    }
  }
  return fin(ACC, "end");
}

// ---------------------------------------------------------------- relational model

struct Agg {
  uint8_t code;      // high nibble: 1 count 2 sum 3 max 4 min; low nibble type, 0x10 count all
  int64_t idx = 0;
  T t() const { return (T)(code & 15); }
  int kind() const { return code >> 4; }
  bool all() const { return code == 0x10; }
  T res() const { return kind() == 1 ? I64 : t(); }
};
inline bool agg_ok(uint8_t c) {
  int k = c >> 4, t = c & 15;
  if (c == 0x10) return true;
  bool num = t == I32 || t == I64 || t == F32 || t == F64;
  if (k == 1) return num || t == BOOL || t == STR;
  if (k == 2) return num;
  if (k == 3 || k == 4) return num || t == STR;
  return false;
}
struct Stage {
  enum K : uint8_t { FILTER = 0x71, PROJECT = 0x72, GROUPED = 0x73, UNGROUPED = 0x74 } k;
  Prog prog;
  std::vector<int64_t> groups;
  std::vector<Agg> aggs;
  bool eoe = false;  // aggregation with trailing byte
};
typedef std::vector<Stage> Pipe;

inline void encode_aggs(Bytes &b, const std::vector<Agg> &aggs) {
  put_varint(b, aggs.size());
  for (auto &a : aggs) { b.push_back(a.code); if (!a.all()) put_varint(b, (uint64_t)a.idx); }
}
inline void encode(Bytes &b, const Stage &s) {
  b.push_back(s.k);
  switch (s.k) {
  case Stage::FILTER: case Stage::PROJECT:
    for (auto &i : s.prog) encode(b, i);
    b.push_back(0);
    break;
  case Stage::GROUPED:
    b.push_back(0x61);
    put_varint(b, s.groups.size());
    for (auto g : s.groups) put_varint(b, (uint64_t)g);
    // fall through
  case Stage::UNGROUPED:
    encode_aggs(b, s.aggs);
    if (s.eoe) b.push_back(0);
  }
}
inline Bytes encode(const Pipe &p) { Bytes b; for (auto &s : p) encode(b, s); return b; }
inline std::string show(const Pipe &p) {
  std::string r;
  for (auto &s : p) {
    if (!r.empty()) r += " | ";
    if (r.size() > 1500) { r += "..."; break; }
    if (s.k == Stage::FILTER) r += "FILTER(" + show(s.prog) + ")";
    else if (s.k == Stage::PROJECT) r += "PROJECT(" + show(s.prog) + ")";
    else {
      r += s.k == Stage::GROUPED ? "GROUP(" : "AGG(";
      for (auto g : s.groups) r += std::to_string(g) + " ";
      r += ";";
      size_t n = 0;
      for (auto &a : s.aggs) {
        if (n++ > 20) { r += " ..."; break; }
        static const char *k[] = {"?", "COUNT", "SUM", "MAX", "MIN"};
        r += std::string(" ") + k[a.kind()] + (a.all() ? "(*)" : std::string("<") + tname(a.t()) + ">(" + std::to_string(a.idx) + ")");
      }
      r += ")";
    }
  }
  return r;
}

struct RScan {
  Acc acc = ACC;
  size_t used = 0;
  Pipe pipe;
  const char *why = "";
};
inline RScan scan_rel(const Bytes &b) {
  RScan r;
  size_t p = 0, end = b.size();
  auto fin = [&](Acc a, const char *why) { r.acc = a; r.why = why; r.used = p; return r; };
  while (p < end) {
    Stage s;
    uint8_t c = b[p];
    if (c == 0x71 || c == 0x72) {
      s.k = (Stage::K)c;
      Scan e = scan_expr(b, p + 1, end);
      if (e.acc != ACC) return fin(e.acc, e.why);
      s.prog = e.prog;
      p += 1 + e.used;
    } else if (c == 0x73 || c == 0x74) {
      s.k = (Stage::K)c;
      ++p;
      uint64_t n, u;
      Acc a;
      if (c == 0x73) {
        if (p >= end || b[p] != 0x61) return fin(REJ, "no ARRAY<INT32>");
        ++p;
        if ((a = get_varint(b, p, end, n)) != ACC) return fin(a, "group count");
        if (n > end - p) return fin(REJ, "group count beyond the input");
        for (uint64_t i = 0; i < n; ++i) {
          if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "group index");
          s.groups.push_back((int32_t)(uint32_t)u);
        }
      }
      if ((a = get_varint(b, p, end, n)) != ACC) return fin(a, "agg count");
      if (n > end - p) return fin(REJ, "agg count beyond the input");
      for (uint64_t i = 0; i < n; ++i) {
        if (p >= end) return fin(REJ, "aggs cut");
        Agg g;
        g.code = b[p++];
        if (!agg_ok(g.code)) return fin(REJ, "agg code");
        if (!g.all()) {
          if ((a = get_varint(b, p, end, u)) != ACC) return fin(a, "agg index");
          g.idx = (int32_t)(uint32_t)u;
        }
        s.aggs.push_back(g);
      }
      if (p < end && b[p] == 0) { s.eoe = true; ++p; }
    } else {
      return fin(REJ, "relational operator");
    }
    r.pipe.push_back(std::move(s));
  }
  return fin(ACC, "end");
}

// One aggregate step. cur: NULL when nothing was added.
inline St agg_add(const Agg &a, Val &cur, const Row &row) {
  if (a.all()) { cur = Val::i64(cur.isnull() ? 1 : cur.i + 1); return OK; }
  if (a.idx < 0 || (size_t)a.idx >= row.size()) return UNSPEC;
  const Val &x = row[a.idx];
  if (x.isnull()) return OK;
  if (a.kind() == 1) { cur = Val::i64(cur.isnull() ? 1 : cur.i + 1); return OK; }
  if (x.t != a.t()) return UNSPEC;
  if (cur.isnull()) { cur = x; return OK; }
  if (a.kind() == 2) {
    if (x.t == F32) cur = Val::f32(cur.f + x.f);
    else if (x.t == F64) cur = Val::f64(cur.d + x.d);
    else cur = mkint(wrap((__int128)cur.i + x.i, x.t), x.t);
    return OK;
  }
  bool lt;  // x < cur
  if (x.t == F32) { if (x.f != x.f || cur.f != cur.f) return UNSPEC; lt = x.f < cur.f; if (x.f == cur.f) { cur.loose |= x.loose || !same(x, cur); return OK; } }
  else if (x.t == F64) { if (x.d != x.d || cur.d != cur.d) return UNSPEC; lt = x.d < cur.d; if (x.d == cur.d) { cur.loose |= x.loose || !same(x, cur); return OK; } }
  else if (x.t == STR) { int c = cmp_bytes(x.s, cur.s); if (c == 0) return OK; lt = c < 0; }
  else { if (x.i == cur.i) return OK; lt = x.i < cur.i; }
  if (lt == (a.kind() == 4)) cur = x;
  return OK;
}

// Key text with the equality the properties prescribe (0.0 = -0.0).
inline void key_of(std::string &k, const Val &v) {
  char buf[32];
  switch (v.t) {
  case TNULL: k += "N;"; break;
  case I32: case I64: case BOOL: snprintf(buf, sizeof buf, "%d:%lld;", v.t, (long long)v.i); k += buf; break;
  case F32: snprintf(buf, sizeof buf, "f%08x;", v.f != v.f ? 0x7fc00000u : bits(v.f == 0 ? 0.0f : v.f)); k += buf; break;
  case F64: snprintf(buf, sizeof buf, "d%016llx;", v.d != v.d ? 0x7ff8000000000000ull : (unsigned long long)bits(v.d == 0 ? 0.0 : v.d)); k += buf; break;
  case STR: snprintf(buf, sizeof buf, "s%zu:", v.s.size()); k += buf; k += v.s; break;
  default: break;
  }
}
inline std::string key_of(const Row &r) { std::string k; for (auto &v : r) key_of(k, v); return k; }
inline bool isnan(const Val &v) { return (v.t == F32 && v.f != v.f) || (v.t == F64 && v.d != v.d); }

// Incremental pipeline model with the same put / drain protocol.
struct PipeModel {
  struct Group { Row key, acc; };
  struct State { std::map<std::string, Group> groups; bool any = false; Row acc; };
  const Pipe &pipe;
  std::vector<State> st;
  St status = OK;      // UNSPEC / ERR once something open or failing happened
  bool by_value = false;
  bool record = false;
  std::vector<std::pair<const Prog *, Row>> log;   // evaluations, when recorded
  PipeModel(const Pipe &p) : pipe(p), st(p.size()) {}

  // Feed into stage i; rows leaving the pipeline go to out.
  void feed(size_t i, Row row, std::vector<Row> &out) {
    for (; i < pipe.size(); ++i) {
      const Stage &s = pipe[i];
      if (record && s.k <= Stage::PROJECT) log.emplace_back(&s.prog, row);
      if (s.k == Stage::FILTER) {
        Run r = eval(s.prog, &row);
        if (r.st != OK) { status = r.st; by_value = r.by_value; return; }
        if (r.stack.empty()) { status = ERR; return; }
        const Val &v = r.stack.back();
        if (!v.isnull() && v.t != BOOL) { status = UNSPEC; return; }
        if (v.isnull() || !v.i) return;
      } else if (s.k == Stage::PROJECT) {
        Run r = eval(s.prog, &row);
        if (r.st != OK) { status = r.st; by_value = r.by_value; return; }
        row = std::move(r.stack);
      } else {
        Row *acc;
        if (s.k == Stage::GROUPED) {
          Row key;
          for (auto g : s.groups) {
            if (g < 0 || (size_t)g >= row.size()) { status = UNSPEC; return; }
            key.push_back(row[g]);
            if (isnan(row[g])) { status = UNSPEC; return; }
          }
          Group &g = st[i].groups[key_of(key)];
          if (g.acc.empty()) { if (g.key.empty()) g.key = key; g.acc.resize(s.aggs.size()); }
          for (size_t k = 0; k < key.size(); ++k) if (!same(g.key[k], key[k])) g.key[k].loose = true;
          acc = &g.acc;
        } else {
          st[i].any = true;
          st[i].acc.resize(s.aggs.size());
          acc = &st[i].acc;
        }
        for (size_t k = 0; k < s.aggs.size(); ++k) {
          St x = agg_add(s.aggs[k], (*acc)[k], row);
          if (x != OK) { status = x; return; }
        }
        return;
      }
    }
    out.push_back(std::move(row));
  }
  std::vector<Row> put(const Row &row) { std::vector<Row> out; feed(0, row, out); return out; }
  std::vector<Row> drain() {
    std::vector<Row> out;
    for (size_t i = 0; i < pipe.size() && status == OK; ++i) {
      if (pipe[i].k == Stage::GROUPED) {
        std::map<std::string, Group> g;
        g.swap(st[i].groups);
        for (auto &e : g) {
          Row r = e.second.key;
          r.insert(r.end(), e.second.acc.begin(), e.second.acc.end());
          feed(i + 1, std::move(r), out);
          if (status != OK) return out;
        }
      } else if (pipe[i].k == Stage::UNGROUPED && st[i].any) {
        Row r;
        r.swap(st[i].acc);
        st[i].any = false;
        feed(i + 1, std::move(r), out);
      }
    }
    return out;
  }
};

}  // namespace m
