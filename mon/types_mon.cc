// Monitors of values and rows as such: T01 equality and hashing, T02 typed access and adaptors.
#include <any>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "driver.h"
#include "real.h"
#include "expr/utils.h"

using namespace m;
using real::Operand;
using real::String;
using real::Tuple;

// Equality as the property states it; -1 when left open (NaN)
static int eq(const Val &a, const Val &b) {
  if (isnan(a) || isnan(b)) return -1;
  if (a.t != b.t) return 0;
  return same_z(a, b);
}

// The same value built in various ways
static Operand build(Rng &r, const Val &v, std::vector<Operand> &pool) {
  switch (r.below(5)) {
  case 0: if (v.t == STR) return Operand(String(v.s)); break;
  case 1: if (v.t == STR) return Operand(String(v.s.data(), v.s.size())); break;
  case 2: { Operand o = real::op(v); Operand p(o); Operand q; q = p; return q; }
  case 3: {  // through evaluation
    real::Runner rn;
    Prog p{v.isnull() ? n_(ALL_T[r.below(6)]) : c_(v)};
    if (v.t == STR && r.one_in(2)) {
      size_t k = r.below(v.s.size() + 1);
      p = {c_(Val::str(v.s.substr(0, k))), c_(Val::str(v.s.substr(k))), o_(table().two[0xF1][0x21])};
    } else if (!v.isnull() && r.one_in(2)) {
      p = {v_(v.t, 0)};
    }
    Bytes b = encode(p);
    rn.Decode(b.data(), b.size());
    Tuple t{real::op(v)};
    rn.BindTuple(&t);
    try {
      rn.Run();
      Operand got = rn.Get();
      if (same(real::val(got, v.t), v)) return got;    // what the evaluation itself does is judged elsewhere
    } catch (const std::exception &) {}
    break;
  }
  default: break;
  }
  Operand o = real::op(v);
  if (r.one_in(4)) pool.push_back(o);
  return o;
}

static Val t01_val(Rng &r) {
  if (r.one_in(8)) return Val::null();
  T t = ALL_T[r.below(6)];
  Val v = r.one_in(2) ? gen_small(r, t, 2) : gen_val(r, t, r.one_in(20) ? 5000 : 100);
  if (r.one_in(6) && t == F32) v.f = r.one_in(2) ? 0.0f : -0.0f;
  if (r.one_in(6) && t == F64) v.d = r.one_in(2) ? 0.0 : -0.0;
  return v;
}

static void p_t01(Ctx &c) {
  Rng &r = c.r;
  std::vector<Operand> pool;
  std::hash<Operand> ho;
  std::hash<Tuple> ht;
  std::hash<String> hs;
  for (int k = 0; k < 60; ++k) {
    Val a = t01_val(r), b = r.one_in(3) ? t01_val(r) : r.one_in(3) ? a : gen_near(r, a);
    if (r.one_in(10) && !a.isnull()) {  // the same number in another type
      b = a;
      if (a.t == I32 || a.t == I64 || a.t == BOOL) { b.t = r.pick({I32, I64, BOOL}); if (b.t == BOOL) b.i = b.i != 0; if (b.t == I32) b.i = (int32_t)b.i; }
    }
    Operand x = build(r, a, pool), y = build(r, b, pool);
    int e = eq(a, b);
    c.saw(hashv(hashv(1, a), b));
    std::string d = show(a) + " and " + show(b);
    if (c.verbose) c.at(d);
    if ((x == nullptr) != a.isnull() || (x != nullptr) == a.isnull()) { c.fail("null", show(a) + " compares wrongly with NULL"); return; }
    if (e < 0) { c.count("left open (NaN)"); continue; }
    c.count(e ? "equal pairs" : "unequal pairs");
    if ((x == y) != (e == 1) || (y == x) != (e == 1)) { c.fail("equal", d + (e ? " must be equal" : " must not be equal")); return; }
    if ((x != y) == (e == 1) || (y != x) == (e == 1)) { c.fail("unequal", d + ": != disagrees"); return; }
    if (e && ho(x) != ho(y)) { c.fail("hash", d + " are equal but hash differently"); return; }
    if (!(x == x) || ho(x) != ho(x)) { c.fail("self", show(a) + " is not equal to itself"); return; }
    if (a.t == STR && b.t == STR) {
      String p = x.GetValue<String>(), q = y.GetValue<String>();
      int cb = cmp_bytes(a.s, b.s);
      if ((p == q) != (cb == 0) || (p != q) != (cb != 0)) { c.fail("string-order", "strings " + d); return; }
      if (cb == 0 && hs(p) != hs(q)) { c.fail("string-hash", "strings " + d + " are equal but hash differently"); return; }
    }
    if (c.want_sample()) c.sample(d + (e ? " equal" : " unequal"));
  }
  // rows
  for (int k = 0; k < 12; ++k) {
    size_t n = r.one_in(10) ? heavy(r, 600) : r.below(6);
    Row a, b;
    for (size_t i = 0; i < n; ++i) { a.push_back(t01_val(r)); if (isnan(a.back())) a.back() = Val::null(); }
    b = a;
    switch (r.below(6)) {
    case 0: break;
    case 1: if (n) b[r.below(n)] = t01_val(r); break;
    case 2: if (n) { auto &v = b[r.below(n)]; v = gen_near(r, v); } break;
    case 3: if (n) b.pop_back(); else b.push_back(Val::null()); break;
    case 4: b.push_back(Val::null()); break;
    default: if (n > 1) std::swap(b[r.below(n)], b[r.below(n)]); break;
    }
    for (auto &v : b) if (v.t == F32 && v.f == 0 && r.one_in(2)) v.f = -v.f; else if (v.t == F64 && v.d == 0 && r.one_in(2)) v.d = -v.d;
    bool nan = false;
    for (auto &v : b) nan |= isnan(v);
    if (nan) continue;
    Tuple x, y;
    for (auto &v : a) x.push_back(build(r, v, pool));
    for (auto &v : b) y.push_back(build(r, v, pool));
    bool e = same_z(a, b);
    c.saw(hashv(hashv(2, a), b), n > 0);
    c.count(e ? "equal rows" : "unequal rows");
    std::string d = show(a) + " and " + show(b);
    if ((x == y) != e || (x != y) == e) { c.fail("rows-equal", "rows " + d + (e ? " must be equal" : " must not be equal")); return; }
    if (e && ht(x) != ht(y)) { c.fail("rows-hash", "rows " + d + " are equal but hash differently"); return; }
  }
  // as keys of hash containers
  {
    std::unordered_map<Tuple, int> um;
    std::map<std::string, int> ref;
    std::unordered_set<Operand> us;
    std::set<std::string> rs;
    std::vector<T> types = gen_types(r, r.below(4));
    size_t n = 1 + heavy(r, r.one_in(20) ? 20000 : 300);
    int64_t span = r.pick({1, 3, 40});
    std::vector<Row> keys;
    for (size_t i = 0; i < n; ++i) {
      Row k;
      for (T t : types) {
        Val v = r.one_in(6) ? Val::null() : r.one_in(5) ? gen_val(r, t, 30) : gen_small(r, t, span);
        if (isnan(v)) v = Val::null();
        if ((v.t == F32 && v.f == 0) && r.one_in(2)) v.f = -0.0f;
        if ((v.t == F64 && v.d == 0) && r.one_in(2)) v.d = -0.0;
        k.push_back(v);
      }
      Tuple t;
      for (auto &v : k) t.push_back(build(r, v, pool));
      ++um[t];
      ++ref[key_of(k)];
      for (auto &v : k) { us.insert(build(r, v, pool)); std::string s; key_of(s, v); rs.insert(s); }
      keys.push_back(k);
    }
    c.saw(hashv(c.idx, keys[0]), !types.empty());
    c.count("container keys", n);
    if (um.size() != ref.size() || us.size() != rs.size()) { c.fail("container-size", "a hash map of rows like " + show(keys[0]) + " holds " + std::to_string(um.size()) + " of " + std::to_string(ref.size()) + " different keys, a set of values " + std::to_string(us.size()) + " of " + std::to_string(rs.size())); return; }
    for (auto &k : keys) {
      auto it = um.find(real::tuple(k));
      if (it == um.end() || it->second != ref[key_of(k)]) { c.fail("container-find", "row " + show(k) + " is " + (it == um.end() ? "not found" : "found with " + std::to_string(it->second) + " instead of " + std::to_string(ref[key_of(k)]))); return; }
    }
  }
}

// ---------------------------------------------------------------- T02

template <typename F> static bool raises(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

static bool wrong_access(const Operand &o, T t) {
  switch (t) {
  case I32: return raises([&] { (void)o.GetValue<int32_t>(); });
  case I64: return raises([&] { (void)o.GetValue<int64_t>(); });
  case BOOL: return raises([&] { (void)o.GetValue<bool>(); });
  case F32: return raises([&] { (void)o.GetValue<float>(); });
  case F64: return raises([&] { (void)o.GetValue<double>(); });
  default: return raises([&] { (void)o.GetValue<String>(); });
  }
}
static bool wrong_optional(const real::Runner &o, T t) {
  switch (t) {
  case I32: return raises([&] { (void)o.GetOptional<int32_t>(); });
  case I64: return raises([&] { (void)o.GetOptional<int64_t>(); });
  case BOOL: return raises([&] { (void)o.GetOptional<bool>(); });
  case F32: return raises([&] { (void)o.GetOptional<float>(); });
  case F64: return raises([&] { (void)o.GetOptional<double>(); });
  default: return raises([&] { (void)o.GetOptional<String>(); });
  }
}
template <typename X> static X plain(const Val &v);
template <> int32_t plain(const Val &v) { return (int32_t)v.i; }
template <> int64_t plain(const Val &v) { return v.i; }
template <> bool plain(const Val &v) { return v.i; }
template <> float plain(const Val &v) { return v.f; }
template <> double plain(const Val &v) { return v.d; }
static bool same_plain(int32_t a, int32_t b) { return a == b; }
static bool same_plain(int64_t a, int64_t b) { return a == b; }
static bool same_plain(bool a, bool b) { return a == b; }
static bool same_plain(float a, float b) { return bits(a) == bits(b) || (a != a && b != b); }
static bool same_plain(double a, double b) { return bits(a) == bits(b) || (a != a && b != b); }

namespace ad = dingodb::expr::any_optional_data_adaptor;

template <typename X> static std::string adapt(const Val &v) {
  std::any in = v.isnull() ? std::make_any<std::optional<X>>() : std::make_any<std::optional<X>>(plain<X>(v));
  Operand o = ad::ToOperand<X>(in);
  Val back = real::val(o, v.t);
  if (!same(back, v)) return "ToOperand gives " + show(back);
  std::any out = ad::FromOperand<X>(o);
  auto *p = std::any_cast<std::optional<X>>(&out);
  if (!p) return "FromOperand gives something else than an optional of the type";
  if (p->has_value() == v.isnull()) return std::string("FromOperand gives ") + (p->has_value() ? "a value" : "nothing");
  if (p->has_value() && !same_plain(**p, plain<X>(v))) return "FromOperand gives another value";
  out = ad::FromOperand<X>(real::op(v));
  p = std::any_cast<std::optional<X>>(&out);
  if (!p || p->has_value() == v.isnull() || (p->has_value() && !same_plain(**p, plain<X>(v)))) return "FromOperand of a fresh operand differs";
  // there and back again
  Operand o2 = ad::ToOperand<X>(out);
  if (!same(real::val(o2, v.t), v)) return "back and forth gives " + show(real::val(o2, v.t));
  return "";
}
static std::string adapt_str(const Val &v) {
  typedef String::ValueType P;
  std::any in = v.isnull() ? std::make_any<std::optional<P>>() : std::make_any<std::optional<P>>(std::make_shared<std::string>(v.s));
  Operand o = ad::ToOperand<P>(in);
  Val back = real::val(o, v.t);
  if (!same(back, v)) return "ToOperand gives " + show(back);
  std::any out = ad::FromOperand<P>(o);
  auto *p = std::any_cast<std::optional<P>>(&out);
  if (!p) return "FromOperand gives something else than an optional of the type";
  if (p->has_value() == v.isnull()) return std::string("FromOperand gives ") + (p->has_value() ? "a value" : "nothing");
  if (p->has_value() && (!**p || ***p != v.s)) return "FromOperand gives another value";
  Operand o2 = ad::ToOperand<P>(out);
  if (!same(real::val(o2, v.t), v)) return "back and forth gives " + show(real::val(o2, v.t));
  return "";
}

// Arrays have no type in the byte code, but operands, and so rows and the exchange form, may hold them.
template <typename E> static std::string arrays(Rng &r, E (*make)(Rng &)) {
  typedef std::shared_ptr<std::vector<E>> P;
  P v = std::make_shared<std::vector<E>>();
  for (size_t n = heavy(r, 200); n--;) v->push_back(make(r));
  std::vector<E> copy(*v);
  Operand o(v);
  if (o == nullptr || !(o != nullptr)) return "compares wrongly with NULL";
  if (o.GetValue<P>() != v || *o.GetValue<P>() != copy) return "reads back as something else";
  Operand other(o), third;
  third = other;
  if (third.GetValue<P>() != v || !(third == o) || std::hash<Operand>()(third) != std::hash<Operand>()(o)) return "a copy differs";
  for (T u : ALL_T) if (!wrong_access(o, u)) return std::string("may be read as ") + tname(u);
  if (!std::is_same<E, int32_t>::value && !raises([&] { (void)o.GetValue<std::shared_ptr<std::vector<int32_t>>>(); })) return "may be read as an array of another type";
  if (!raises([&] { (void)Operand(nullptr).GetValue<P>(); })) return "NULL may be read as an array";
  std::any out = ad::FromOperand<P>(o);
  auto *p = std::any_cast<std::optional<P>>(&out);
  if (!p || !p->has_value() || **p != v) return "FromOperand gives something else";
  Operand back = ad::ToOperand<P>(out);
  if (back.GetValue<P>() != v || *v != copy) return "ToOperand gives something else";
  std::any none = ad::FromOperand<P>(Operand(nullptr));
  p = std::any_cast<std::optional<P>>(&none);
  if (!p || p->has_value() || ad::ToOperand<P>(none) != nullptr) return "NULL does not survive the exchange form";
  // through a runner
  real::Runner rn;
  Bytes b{0x37, 0x00};
  rn.Decode(b.data(), b.size());
  Tuple t{o};
  rn.BindTuple(&t);
  rn.Run();
  auto opt = rn.GetOptional<P>();
  if (!opt || *opt != v || *v != copy) return "a variable holding it gives something else";
  return "";
}

static void p_t02(Ctx &c) {
  Rng &r = c.r;
  for (int k = 0; k < 6; ++k) {
    std::string e;
    switch (k) {
    case 0: e = arrays<int32_t>(r, [](Rng &q) { return (int32_t)q.next(); }); break;
    case 1: e = arrays<int64_t>(r, [](Rng &q) { return (int64_t)q.next(); }); break;
    case 2: e = arrays<bool>(r, [](Rng &q) { return q.one_in(2); }); break;
    case 3: e = arrays<float>(r, [](Rng &q) { return (float)q.range(-99999, 99999) / 8; }); break;
    case 4: e = arrays<double>(r, [](Rng &q) { return (double)q.range(-99999, 99999) / 8; }); break;
    default: e = arrays<std::string>(r, [](Rng &q) { return gen_str(q, 20); });
    }
    c.saw(fnv(&c.idx, 8, k));
    c.count("arrays");
    if (!e.empty()) { c.fail("array", std::string("an array of ") + (const char *[]){"int32", "int64", "bool", "float", "double", "string"}[k] + ": " + e); return; }
  }
  for (int k = 0; k < 60; ++k) {
    T t = ALL_T[r.below(6)];
    Val v = r.one_in(5) ? Val::null() : gen_val(r, t, r.one_in(20) ? 5000 : 100);
    Operand o = real::op(v);
    c.saw(hashv(t, v));
    std::string d = show(v) + " as " + tname(t);
    if (c.verbose) c.at(d);
    c.count(v.isnull() ? "NULLs" : tname(t));
    if (!v.isnull()) {
      Val back;
      if (!real::get(o, t, back) || !same(back, v)) { c.fail("read-back", d + " reads back as " + show(back)); return; }
      Operand copy(o);
      if (!real::get(copy, t, back) || !same(back, v)) { c.fail("read-back", "a copy of " + d + " reads back as " + show(back)); return; }
    }
    for (T u : ALL_T)
      if ((v.isnull() || u != t) && !wrong_access(o, u)) { c.fail("wrong-access", show(v) + " may be read as " + tname(u)); return; }
    if ((o == nullptr) != v.isnull()) { c.fail("null", d); return; }
    std::string e;
    switch (t) {
    case I32: e = adapt<int32_t>(v); break;
    case I64: e = adapt<int64_t>(v); break;
    case BOOL: e = adapt<bool>(v); break;
    case F32: e = adapt<float>(v); break;
    case F64: e = adapt<double>(v); break;
    default: e = adapt_str(v);
    }
    if (!e.empty()) { c.fail("adaptor", d + ": " + e); return; }
    // optional result of a runner
    real::Runner rn;
    Prog p;
    if (r.one_in(2)) p.push_back(c_(Val::i32(3)));
    if (r.one_in(2)) p.push_back(v_(t, 0)); else p.push_back(v.isnull() ? n_(t) : c_(v));
    Bytes b = encode(p);
    rn.Decode(b.data(), b.size());
    Tuple tp{o};
    rn.BindTuple(&tp);
    rn.Run();
    bool good = true, has = false;
    for (int twice = 0; twice < 2 && good; ++twice)
      switch (t) {
      case I32: { auto x = rn.GetOptional<int32_t>(); has = x.has_value(); good = !has || *x == v.i; break; }
      case I64: { auto x = rn.GetOptional<int64_t>(); has = x.has_value(); good = !has || *x == v.i; break; }
      case BOOL: { auto x = rn.GetOptional<bool>(); has = x.has_value(); good = !has || *x == (bool)v.i; break; }
      case F32: { auto x = rn.GetOptional<float>(); has = x.has_value(); good = !has || same_plain(*x, v.f); break; }
      case F64: { auto x = rn.GetOptional<double>(); has = x.has_value(); good = !has || same_plain(*x, v.d); break; }
      default: { auto x = rn.GetOptional<String>(); has = x.has_value(); good = !has || **x == v.s; }
      }
    if (!good || has == v.isnull()) { c.fail("optional", d + ": GetOptional gives " + (has ? "another value" : "nothing") + " for " + show(p)); return; }
    if (!v.isnull())
      for (T u : ALL_T) if (u != t && !wrong_optional(rn, u)) { c.fail("wrong-optional", show(v) + " may be read as optional " + tname(u)); return; }
    if (c.want_sample()) c.sample(d);
  }
}

// ---------------------------------------------------------------- T03

namespace ex = dingodb::expr;

static void p_t03(Ctx &c) {
  Rng &r = c.r;
  for (int k = 0; k < 30; ++k) {
    size_t n = r.one_in(20) ? heavy(r, 100000) : r.below(70);
    Bytes b;
    bool one = r.one_in(4);
    uint8_t same_byte = (uint8_t)r.next();
    for (size_t i = 0; i < n; ++i) b.push_back(one ? same_byte : (uint8_t)r.next());
    if (k == 0) { b.clear(); for (int i = 0; i < 256; ++i) b.push_back((uint8_t)i); n = 256; }
    c.saw(fnv(b.data(), b.size(), 3), n > 0);
    c.count("byte sequences");
    if (c.verbose || (k & 7) == 0) c.at("hex of " + hex(b, 400));
    std::string exp;
    for (uint8_t x : b) { exp += "0123456789ABCDEF"[x >> 4]; exp += "0123456789ABCDEF"[x & 15]; }
    std::unique_ptr<uint8_t[]> in(new uint8_t[n]);      // exactly the size
    if (n) memcpy(in.get(), b.data(), n);
    std::string got = ex::HexOfBytes(in.get(), n);
    if (got != exp) { c.fail("hex-of-bytes", "HexOfBytes(" + hex(b, 200) + ") is " + got.substr(0, 500)); return; }
    std::vector<char> out(2 * n + 16, '?');
    ex::BytesToHex(out.data() + 8, in.get(), n);
    if (std::string(out.data() + 8, 2 * n) != exp || std::string(out.data(), 8) != "????????" || std::string(out.data() + 8 + 2 * n, 8) != "????????") { c.fail("bytes-to-hex", "BytesToHex(" + hex(b, 200) + ") wrote " + std::string(out.begin(), out.end()).substr(0, 500)); return; }
    std::string text = exp;
    int how = (int)r.below(4);
    if (how) for (auto &ch : text) if (ch >= 'A' && (how == 1 || r.one_in(2))) ch = (char)(ch - 'A' + 'a');
    bool odd = r.one_in(4);
    if (odd) text += "0123456789abcdefABCDEF"[r.below(22)];     // half a byte is no byte
    std::unique_ptr<char[]> tin(new char[text.size()]);
    memcpy(tin.get(), text.data(), text.size());
    Bytes back(n + 16, 0xA7);
    ex::HexToBytes(back.data() + 8, tin.get(), text.size());
    if (Bytes(back.begin() + 8, back.begin() + 8 + n) != b) { c.fail("hex-to-bytes", "HexToBytes(" + text.substr(0, 400) + ") is " + hex(Bytes(back.begin() + 8, back.begin() + 8 + n), 200)); return; }
    for (int i = 0; i < 8; ++i) if (back[i] != 0xA7 || back[8 + n + i] != 0xA7) { c.fail("hex-to-bytes-bounds", "HexToBytes(" + text.substr(0, 400) + ") wrote beyond its " + std::to_string(n) + " bytes"); return; }
    if ((n && memcmp(in.get(), b.data(), n)) || text.compare(0, std::string::npos, tin.get(), text.size())) { c.fail("input-changed", "the input " + hex(b, 200) + " was changed"); return; }
    if (c.want_sample() && n < 30) c.sample(hex(b) + " <-> " + text);
  }
  for (int i = 0; i < 16; ++i) {
    char u = "0123456789ABCDEF"[i], l = "0123456789abcdef"[i];
    if (ex::NibbleToHex(i) != u || ex::HexToNibble(u) != i || ex::HexToNibble(l) != i) { c.fail("nibble", "digit " + std::to_string(i)); return; }
  }
  for (int i = 0; i < 256; ++i) {
    char ch = (char)i;
    bool digit = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');
    int got = ex::HexToNibble(ch);
    if (digit ? got < 0 || got > 15 : got >= 0) { c.fail("nibble", "HexToNibble of character " + std::to_string(i) + " is " + std::to_string(got)); return; }
  }
  // rows
  std::vector<Operand> pool;
  for (int k = 0; k < 20; ++k) {
    std::vector<T> types = gen_types(r, 1 + heavy(r, r.one_in(10) ? 2000 : 8));
    Row a = gen_row(r, types, 4, 40, 3, 10), b = r.one_in(6) ? Row() : gen_row(r, gen_types(r, 1 + r.below(6)), 4, 40, 3, 10);
    if (r.one_in(10)) a.clear();
    if (r.one_in(2)) std::swap(a, b);
    Tuple x = real::tuple(a), y = real::tuple(b);
    const Tuple *px = &x, *py = r.one_in(8) ? &x : &y;       // a row with itself as well
    Row second = py == &x ? a : b;
    std::string d = show(a) + " and " + show(second);
    c.saw(hashv(hashv(4, a), second), !a.empty() || !second.empty());
    c.count("rows joined");
    if (c.verbose || k == 0) c.at("join " + d);
    std::unique_ptr<Tuple> cat(ex::ConcatTuple(*px, *py));
    Row want = a;
    want.insert(want.end(), second.begin(), second.end());
    if (!same(real::row(*cat, &want), want)) { c.fail("concat", "ConcatTuple of " + d + " is " + show(real::row(*cat, &want))); return; }
    if (!same(real::row(x, &a), a) || !same(real::row(y, &b), b)) { c.fail("concat-source", "ConcatTuple of " + d + " changed one of them"); return; }
    if (cat.get() == px || cat.get() == py) { c.fail("concat-alias", d); return; }
    if (a.empty()) continue;
    size_t n = r.one_in(10) ? 0 : heavy(r, r.one_in(10) ? 3000 : 12);
    std::unique_ptr<int[]> idx(new int[n]);
    want.clear();
    int mode = (int)r.below(3);
    for (size_t i = 0; i < n; ++i) { idx[i] = (int)(mode == 0 ? i % a.size() : mode == 1 ? (a.size() - 1 - i % a.size()) : r.below(a.size())); want.push_back(a[idx[i]]); }
    std::vector<int> before(idx.get(), idx.get() + n);
    c.saw(hashv(fnv(idx.get(), n * sizeof(int), 5), a), n > 0);
    c.count("rows mapped");
    std::unique_ptr<Tuple> map(ex::MapTuple(x, idx.get(), n));
    if (!same(real::row(*map, &want), want)) { c.fail("map", "MapTuple of " + show(a) + " to " + std::to_string(n) + " elements is " + show(real::row(*map, &want)) + ", expected " + show(want)); return; }
    if (!same(real::row(x, &a), a) || before != std::vector<int>(idx.get(), idx.get() + n)) { c.fail("map-source", "MapTuple of " + show(a) + " changed its source"); return; }
    // printed form
    for (auto &v : a) {
      std::ostringstream got, exp;
      if (r.one_in(2)) { int pr = 1 + (int)r.below(18); got.precision(pr); exp.precision(pr); if (r.one_in(3)) { got << std::fixed; exp << std::fixed; } }
      switch (v.t) {
      case I32: case I64: exp << v.i; break;
      case BOOL: exp << (bool)v.i; break;
      case F32: exp << v.f; break;
      case F64: exp << v.d; break;
      case STR: exp << v.s; break;
      default: exp << "(null)";
      }
      got << real::op(v);
      if (isnan(v)) continue;
      c.count("values printed");
      if (got.str() != exp.str()) { c.fail("print", show(v) + " prints as " + got.str() + ", expected " + exp.str()); return; }
    }
  }
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["T01"] = p_t01;
  props["T02"] = p_t02;
  props["T03"] = p_t03;
  return drive(argc, argv, props);
}
