// Monitors of the expression decoder and evaluator: every execution of the real code is compared
// with the reference model (model.h).  Properties D03 D04 D05 E01..E14.
#include <unordered_map>
#include "driver.h"
#include "real.h"

using namespace m;

static Bytes with_eoe(Bytes b) { b.push_back(0); return b; }

static std::string show_err(const std::exception &e) { return std::string("error: ") + e.what(); }

// Exact-size copy on the heap at an arbitrary alignment
struct Buf {
  std::vector<uint8_t> store;
  size_t off, n;
  Buf(const Bytes &b, size_t off_ = 0, size_t tail = 0) : store(off_ + b.size() + tail, 0x00), off(off_), n(b.size()) {
    if (n) memcpy(store.data() + off, b.data(), n);
  }
  const uint8_t *p() const { return store.data() + off; }
};

struct Outcome {
  bool err = false;
  std::string what;
  Row stack;
  Val last;
};
static Outcome run_real(real::Runner &rn, const Run &exp) {
  Outcome o;
  try {
    rn.Run();
  } catch (const std::exception &e) {
    o.err = true;
    o.what = show_err(e);
    return o;
  }
  if (exp.st == OK && exp.stack.empty()) {
    std::unique_ptr<real::Tuple> t(rn.GetAll());
    o.stack = real::row(*t);
    return o;
  }
  Val last;
  try {
    last = real::val(rn.Get(), exp.stack.empty() ? TNULL : exp.stack.back().t);
  } catch (const std::exception &e) {
    o.err = true;
    o.what = show_err(e);
    return o;
  }
  Val again = real::val(rn.Get(), last.t);
  std::unique_ptr<real::Tuple> t(rn.GetAll());
  o.stack = real::row(*t, &exp.stack);
  if (!same(last, again)) o.last = again; else o.last = last;
  return o;
}

static std::string diff(const Row &got, const Row &exp) {
  std::string s;
  if (got.size() != exp.size()) s = "result count " + std::to_string(got.size()) + ", expected " + std::to_string(exp.size()) + "; ";
  for (size_t i = 0; i < got.size() && i < exp.size(); ++i)
    if (!same(got[i], exp[i])) return s + "result " + std::to_string(i) + " is " + show(got[i]) + ", expected " + show(exp[i]);
  return s;
}

// Judges one run against the model; returns true when fine.
static bool judge(Ctx &c, const std::string &key, const Outcome &o, const Run &exp, const std::function<std::string()> &what) {
  if (exp.st == UNSPEC) return true;
  if (exp.st == ERR) {
    if (o.err) return true;
    c.fail(key + "/no-error", what() + "\n an error is required, got " + show(o.stack));
    return false;
  }
  if (o.err) {
    c.fail(key + "/error", what() + "\n raised " + o.what + ", expected " + show(exp.stack));
    return false;
  }
  if (!same(o.stack, exp.stack)) {
    c.fail(key + "/value", what() + "\n " + diff(o.stack, exp.stack));
    return false;
  }
  if (!exp.stack.empty() && !same(o.last, exp.stack.back())) {
    c.fail(key + "/get", what() + "\n Get gives " + show(o.last) + ", expected " + show(exp.stack.back()));
    return false;
  }
  return true;
}

static bool agrees(const Outcome &o, const Run &exp) {
  if (exp.st == UNSPEC) return true;
  if (exp.st == ERR || o.err) return o.err == (exp.st == ERR);
  return same(o.stack, exp.stack) && (exp.stack.empty() || same(o.last, exp.stack.back()));
}

static std::string describe(const Prog &p, const Bytes &b, const Row *row) {
  return show(p) + "\n code " + hex(b) + (row ? "\n tuple " + show(*row) : std::string("\n no tuple"));
}

// Decodes, checks the position, runs and judges.
static bool check_prog(Ctx &c, const std::string &key, const Prog &p, const Bytes &code, size_t expect_used, const std::vector<Row> *rows,
                       real::Runner *given = nullptr, bool decode = true, size_t off = 0) {
  real::Runner fresh;
  real::Runner &rn = given ? *given : fresh;
  auto what = [&](const Row *r) { return [&, r] { return describe(p, code, r); }; };
  Buf buf(code, off);
  if (c.status) c.at(key + " " + (code.size() < 1200 ? describe(p, code, rows && !rows->empty() ? &(*rows)[0] : nullptr) : show(p)));
  if (decode) {
    const uint8_t *e;
    try {
      e = rn.Decode(buf.p(), code.size());
    } catch (const std::exception &x) {
      c.fail(key + "/decode", describe(p, code, nullptr) + "\n refused: " + show_err(x));
      return false;
    }
    if (e != buf.p() + expect_used) {
      c.fail(key + "/position", describe(p, code, nullptr) + "\n decoding ended at " + std::to_string(e - buf.p()) + ", expected " + std::to_string(expect_used));
      return false;
    }
    memset(buf.store.data(), 0xEE, buf.store.size());   // the input may be reused at once
  }
  if (!rows) {
    Run exp = eval(p, nullptr);
    Outcome o = run_real(rn, exp);
    c.saw(fnv(code.data(), code.size()), p.size() > 1);
    return judge(c, key, o, exp, what(nullptr));
  }
  for (auto &row : *rows) {
    real::Tuple t = real::tuple(row);
    rn.BindTuple(&t);
    Run exp = eval(p, &row);
    Outcome o = run_real(rn, exp);
    c.saw(hashv(fnv(code.data(), code.size()), row), p.size() > 1);
    bool good = judge(c, key, o, exp, what(&row));
    rn.BindTuple(nullptr);
    if (!good) return false;
  }
  return true;
}

// ---------------------------------------------------------------- single operators

struct OpRunner {
  real::Runner rn;
  real::Tuple t;
  OpRunner(int op) {
    const OpDesc &d = table().ops[op];
    Prog p{c_(Val::i32(-77))};
    for (int i = 0; i < d.arity; ++i) p.push_back(v_(d.arg[i], i));
    p.push_back(o_(op));
    Bytes b = with_eoe(encode(p));
    rn.Decode(b.data(), b.size());
    t.resize(d.arity);
  }
};
static OpRunner &op_runner(int op) {
  static std::unordered_map<int, std::unique_ptr<OpRunner>> cache;
  auto &x = cache[op];
  if (!x) x.reset(new OpRunner(op));
  return *x;
}

static uint64_t op_hash(int op, const Val *a) {
  uint64_t h = fnv(&op, sizeof op);
  for (int i = 0; i < table().ops[op].arity; ++i) h = hashv(h, a[i]);
  return h;
}
static std::string op_show(int op, const Val *a) {
  std::string s = table().ops[op].name() + "(";
  for (int i = 0; i < table().ops[op].arity; ++i) s += (i ? ", " : "") + show(a[i]);
  return s + ")";
}

// One application with operands read from a tuple. The result is [marker, value].
static bool check_op(Ctx &c, int op, const Val *a) {
  const OpDesc &d = table().ops[op];
  Res exp = apply(d, a);
  OpRunner &x = op_runner(op);
  for (int i = 0; i < d.arity; ++i) x.t[i] = real::op(a[i]);
  x.rn.BindTuple(&x.t);
  if (c.verbose) c.at(op_show(op, a));
  else if (c.status) {  // cheap: remember the operator
    memcpy(c.status + 16, "operator ", 9);
    size_t n = strlen(FN_NAMES[d.fn]);
    memcpy(c.status + 25, FN_NAMES[d.fn], n + 1);
  }
  c.saw(op_hash(op, a));
  bool raised = false;
  std::string what;
  Val got, mark;
  size_t n = 0;
  try {
    x.rn.Run();
    got = real::val(x.rn.Get(), exp.v.t);
    std::unique_ptr<real::Tuple> all(x.rn.GetAll());
    n = all->size();
    if (n) mark = real::val((*all)[0], I32);
    if (n == 2) { Val g2 = real::val((*all)[1], exp.v.t); if (!same(g2, got)) got = g2; }
  } catch (const std::exception &e) {
    raised = true;
    what = show_err(e);
  }
  if (exp.st == UNSPEC) {  // the value is left open, but not its type
    c.count("left open");
    bool right = true;
    for (int i = 0; i < d.arity; ++i) right = right && a[i].t == d.arg[i];
    if (!right) return true;
    if (!raised && (got.t != d.res || n != 2 || !same(mark, Val::i32(-77)))) { c.fail(d.name() + "/type", op_show(op, a) + "\n gave " + show(got) + ", a value of type " + tname(d.res) + " is expected"); return false; }
    if ((d.fn == MIN || d.fn == MAX) && (raised || (!same(got, a[0]) && !same(got, a[1])))) { c.fail(d.name() + "/operand", op_show(op, a) + "\n gave " + (raised ? what : show(got)) + ", one of the operands is expected"); return false; }
    if (d.fn == CAST && d.arg[0] != STR && raised) { c.fail(d.name() + "/error", op_show(op, a) + "\n raised " + what); return false; }
    return true;
  }
  if (c.want_sample()) c.sample(op_show(op, a) + " = " + (exp.st == ERR ? "error" : show(exp.v)));
  if (exp.st == ERR) {
    c.count("errors required");
    if (!raised) { c.fail(d.name() + "/no-error", op_show(op, a) + "\n must raise an error, gave " + show(got)); return false; }
    return true;
  }
  if (raised) { c.fail(d.name() + "/error", op_show(op, a) + "\n raised " + what + ", expected " + show(exp.v)); return false; }
  if (exp.v.isnull()) c.count("NULL results");
  if (!same(got, exp.v)) { c.fail(d.name() + "/value", op_show(op, a) + "\n gave " + show(got) + ", expected " + show(exp.v)); return false; }
  if (n != 2 || !same(mark, Val::i32(-77))) { c.fail(d.name() + "/stack", op_show(op, a) + "\n left " + std::to_string(n) + " values, first " + show(mark)); return false; }
  return true;
}
// The same with constant operands, freshly decoded.
static bool check_op_const(Ctx &c, int op, const Val *a) {
  const OpDesc &d = table().ops[op];
  Prog p;
  size_t below = c.r.below(3);
  for (size_t i = 0; i < below; ++i) p.push_back(c_(Val::i64(1000 + (int64_t)i)));
  for (int i = 0; i < d.arity; ++i) p.push_back(a[i].isnull() ? n_(d.arg[i]) : c_(a[i]));
  p.push_back(o_(op));
  Bytes b = encode_padded(c.r, p);
  if (c.r.one_in(2)) b.push_back(0);
  return check_prog(c, d.name() + "/const", p, b, b.size(), nullptr, nullptr, true, c.r.below(9));
}

static int64_t gen_pos(Rng &r, size_t len) {
  switch (r.below(6)) {
  case 0: return r.pick({(int64_t)INT32_MIN, (int64_t)INT32_MIN + 1, (int64_t)INT32_MAX, (int64_t)INT32_MAX - 1, (int64_t)INT32_MIN + (int64_t)len, (int64_t)INT32_MAX - (int64_t)len});
  case 1: return (int32_t)r.next();
  case 2: return (r.one_in(2) ? 1 : -1) * (int64_t)len + r.range(-2, 2);
  case 3: return r.range(-3, 3);
  default: return r.range(-(int64_t)len - 3, (int64_t)len + 3);
  }
}
static void gen_args(Rng &r, const OpDesc &d, Val *a, size_t maxstr) {
  for (int i = 0; i < d.arity; ++i) {
    if (i > 0 && d.arg[i] == d.arg[0] && r.one_in(2)) a[i] = gen_near(r, a[0]);
    else if (i > 0 && d.arg[0] == STR && d.arg[i] == I32) a[i] = Val::i32((int32_t)gen_pos(r, a[0].s.size()));
    else a[i] = gen_val(r, d.arg[i], maxstr);
  }
}

typedef std::function<bool(const OpDesc &)> Pred;
typedef std::function<void(Rng &, const OpDesc &, Val *)> ArgGen;

static std::vector<int> ops_where(const Pred &p) {
  std::vector<int> v;
  for (size_t i = 0; i < table().ops.size(); ++i) if (p(table().ops[i])) v.push_back((int)i);
  return v;
}

// Generic case: a batch over one operator, some constant-operand programs, and one composition
// made only of operators of the family.
static CaseFn family(const Pred &pred, const ArgGen &gen, int batch = 300, bool compose = true, int null_in = 0) {
  auto ops = std::make_shared<std::vector<int>>(ops_where(pred));
  auto filt = std::make_shared<std::unique_ptr<OpFilter>>();
  auto types = std::make_shared<std::vector<T>>();
  for (int i = 0; i < 6; ++i) types->insert(types->end(), {I32, I64, F32, F64, BOOL, STR});
  auto opt = std::make_shared<GenOpt>();
  opt->allow = pred;
  opt->types = types.get();
  opt->null_in = 25;
  opt->var_in = 2;
  opt->small_in = 3;
  *filt = std::make_unique<OpFilter>(*opt);
  return [=](Ctx &c) {
    int op = (*ops)[c.idx % ops->size()];
    const OpDesc &d = table().ops[op];
    Val a[3];
    for (int i = 0; i < batch; ++i) {
      gen(c.r, d, a);
      if (null_in && c.r.one_in(null_in)) a[c.r.below(d.arity)] = Val::null();
      c.count(d.name());
      if (!check_op(c, op, a)) return;
    }
    for (int i = 0; i < 6; ++i) {
      gen(c.r, d, a);
      if (!check_op_const(c, op, a)) return;
    }
    if (compose) {
      GenOpt o = *opt;
      Prog p;
      gen_expr(c.r, d.res, 2 + heavy(c.r, 200), o, **filt, p);
      std::vector<Row> rows;
      for (int i = 0; i < 6; ++i) rows.push_back(gen_row(c.r, *types, 20));
      Bytes b = with_eoe(encode_padded(c.r, p));
      c.count("compositions");
      check_prog(c, "composition", p, b, b.size(), &rows, nullptr, true, c.r.below(9));
    }
  };
}

static void default_args(Rng &r, const OpDesc &d, Val *a) { gen_args(r, d, a, 120); }

// ---------------------------------------------------------------- D03

static void d03_check(Ctx &c, const Bytes &b) {
  Scan s = scan_expr(b, 0, b.size());
  c.saw(fnv(b.data(), b.size()), b.size() > 0);
  if (s.acc == OPEN) { c.count("left open"); return; }
  Buf buf(b, 0);
  if (c.verbose || (c.evaluations & 63) == 0) c.at("decode " + hex(b));
  real::Runner rn;
  try {
    const uint8_t *e = rn.Decode(buf.p(), b.size());
    if (s.acc == REJ) { c.fail(std::string("accepted/") + s.why, "decoding must be refused (" + std::string(s.why) + "): " + hex(b)); return; }
    c.count("accepted");
    if ((size_t)(e - buf.p()) != s.used) { c.fail("position", "decoding ended at " + std::to_string(e - buf.p()) + " not " + std::to_string(s.used) + ": " + hex(b)); return; }
    if (c.want_sample() && b.size() > 4) c.sample("accepted " + hex(b, 60) + " = " + show(s.prog));
  } catch (const std::exception &e) {
    if (s.acc == ACC) c.fail("refused", "a complete implemented encoding is refused (" + show_err(e) + "): " + hex(b) + " = " + show(s.prog));
    else { c.count(std::string("refused: ") + s.why); if (c.want_sample() && b.size() > 3) c.sample(std::string("refused (") + s.why + ") " + hex(b, 60)); }
  }
}
static Prog any_prog(Rng &r, size_t n) {   // not necessarily well typed
  Prog p;
  for (size_t i = 0; i < n; ++i) {
    T t = ALL_T[r.below(6)];
    switch (r.below(6)) {
    case 0: p.push_back(n_(t)); break;
    case 1: case 2: p.push_back(c_(gen_val(r, t, 20))); break;
    case 3: p.push_back(v_(t, r.one_in(4) ? (int64_t)(uint32_t)r.next() >> r.below(32) : (int64_t)r.below(200))); break;
    default: p.push_back(o_((int)r.below(table().ops.size())));
    }
  }
  return p;
}
static void mutate(Rng &r, Bytes &b) {
  for (int k = 1 + (int)r.below(3); k--;) {
    size_t at = b.empty() ? 0 : r.below(b.size());
    switch (r.below(6)) {
    case 0: if (!b.empty()) b[at] = (uint8_t)r.next(); break;
    case 1: if (!b.empty()) b[at] ^= (uint8_t)(1 << r.below(8)); break;
    case 2: b.insert(b.begin() + at, (uint8_t)r.next()); break;
    case 3: if (!b.empty()) b.erase(b.begin() + at); break;
    case 4: if (!b.empty()) b.resize(at); break;
    default: if (!b.empty()) b[at] = r.pick<uint8_t>({0x00, 0x01, 0x08, 0x0F, 0x10, 0x16, 0x18, 0x26, 0x36, 0x61, 0x7F, 0x80, 0xF0, 0xF1, 0xFC, 0xFF, 0x84, 0x66, 0x27});
    }
  }
}
static void p_d03(Ctx &c) {
  static std::vector<Bytes> pre, suf;
  if (pre.empty()) {
    pre.push_back({});
    pre.push_back(encode(Prog{c_(Val::i32(5))}));
    pre.push_back(encode(Prog{c_(Val::str("ab")), c_(Val::str("c"))}));
    pre.push_back(encode(Prog{v_(F64, 300), c_(Val::f64(1)), o_(table().two[0x83][F64])}));
    pre.push_back(encode(Prog{c_(Val::boolean(true)), c_(Val::boolean(false)), o_(table().one[0x52]), n_(I64)}));
    pre.push_back(encode(Prog{c_(Val::f32(1)), o_(table().two[0xF0][0x51]), o_(table().two[0xF1][1])}));
    suf.push_back({});
    suf.push_back({0x00});
    suf.push_back({0x11, 0x01});
    suf.push_back({0x17, 0x01, 0x41, 0x00});
    suf.push_back({0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x01, 0x02, 0x03, 0x00});
    suf.push_back({0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01, 0x00, 0x11});
  }
  if (c.idx < 256) {  // every pair of bytes in every context
    for (int b1 = -1; b1 < 256; ++b1)
      for (auto &x : pre)
        for (auto &y : suf) {
          Bytes b = x;
          b.push_back((uint8_t)c.idx);
          if (b1 >= 0) b.push_back((uint8_t)b1);
          b.insert(b.end(), y.begin(), y.end());
          d03_check(c, b);
        }
    c.count("first bytes enumerated");
    return;
  }
  Rng &r = c.r;
  switch (r.below(4)) {
  case 0: {  // all truncations
    Bytes b = encode_padded(r, any_prog(r, 1 + heavy(r, 40)));
    if (r.one_in(2)) b.push_back(0);
    d03_check(c, b);
    size_t step = 1 + b.size() / 400;
    for (size_t n = 0; n < b.size(); n += step) d03_check(c, Bytes(b.begin(), b.begin() + n));
    c.count("truncation series");
    break;
  }
  case 1: case 2: {  // mutations
    Bytes b0 = encode_padded(r, any_prog(r, 1 + r.below(12)));
    if (r.one_in(2)) b0.push_back(0);
    for (int i = 0; i < 60; ++i) { Bytes b = b0; mutate(r, b); d03_check(c, b); }
    c.count("mutation series");
    break;
  }
  default: {  // one undefined operator somewhere in a long valid program, or a varint of any length
    Prog p = any_prog(r, 1 + heavy(r, 3000));
    size_t at = r.below(p.size() + 1);
    Bytes b = encode_padded(r, Prog(p.begin(), p.begin() + at));
    switch (r.below(4)) {
    case 0: b.push_back((uint8_t)r.next()); break;
    case 1: b.push_back((uint8_t)(0x80 + r.below(128))); b.push_back((uint8_t)r.next()); break;
    case 2: { b.push_back(r.pick<uint8_t>({0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x37, 0x17})); size_t n = r.below(13); for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)(0x80 | (r.one_in(2) ? 0 : r.next()))); b.push_back((uint8_t)r.below(3)); break; }
    default: {  // a string length that would fit if it were cut to 32 bits
      if (r.one_in(2)) break;
      size_t rest = encode(Prog(p.begin() + at, p.end())).size();
      b.push_back(0x17);
      put_varint(b, ((1 + (r.next() >> r.below(32)) % 0x7FFFFFFFull) << 32) + (rest ? r.below(rest) : 0), (int)r.below(2));
    }
    }
    Bytes e = encode(Prog(p.begin() + at, p.end()));
    b.insert(b.end(), e.begin(), e.end());
    if (r.one_in(2)) b.push_back(0);
    d03_check(c, b);
    c.count("long programs");
  }
  }
}

// ---------------------------------------------------------------- D04

static bool d04_consts(Ctx &c, const std::vector<Val> &vs, const std::vector<int> &pads, bool eoe, size_t off, const char *key) {
  Prog p;
  Bytes b;
  for (size_t i = 0; i < vs.size(); ++i) {
    const Val &v = vs[i];
    p.push_back(c_(v));
    int pad = pads.empty() ? 0 : pads[i];
    if (v.t == I32 || v.t == I64) {
      bool negform = pad >= 16;
      pad &= 15;
      if (negform) { b.push_back(0x20 | v.t); put_varint(b, v.t == I32 ? (uint64_t)(uint32_t)(0 - (uint32_t)v.i) : 0 - (uint64_t)v.i, pad); }
      else { b.push_back(0x10 | v.t); put_varint(b, v.t == I32 && (pad & 1) ? (uint64_t)(uint32_t)v.i : (uint64_t)v.i, pad); }
    } else if (v.t == STR) { b.push_back(0x17); put_varint(b, v.s.size(), pad & 3); b.insert(b.end(), v.s.begin(), v.s.end()); }
    else if (v.isnull()) { static const uint8_t k[] = {1, 2, 3, 4, 5, 7}; b.push_back(k[pad % 6]); p.back() = n_((T)k[pad % 6]); }
    else encode_const(b, v);
  }
  if (eoe) b.push_back(0);
  return check_prog(c, key, p, b, b.size(), nullptr, nullptr, true, off);
}

// All 2^32 INT32 constants and all 2^32 FLOAT bit patterns: case i covers a block of 65536 (thorough tier)
static void p_d04_sweep(Ctx &c) {
  bool flt = c.idx & 1;
  uint32_t base = (uint32_t)(c.idx >> 1) << 16;
  static Bytes b;
  for (uint32_t k = 0; k < 65536; k += 2048) {
    b.clear();
    for (uint32_t j = 0; j < 2048; ++j) encode_const(b, flt ? Val::f32(fbits(base + k + j)) : Val::i32((int32_t)(base + k + j)));
    real::Runner rn;
    rn.Decode(b.data(), b.size());
    rn.Run();
    std::unique_ptr<real::Tuple> t(rn.GetAll());
    if (t->size() != 2048) { c.fail("sweep/count", "2048 constants from " + std::to_string(base + k) + " left " + std::to_string(t->size()) + " values"); return; }
    for (uint32_t j = 0; j < 2048; ++j) {
      Val e = flt ? Val::f32(fbits(base + k + j)) : Val::i32((int32_t)(base + k + j));
      Val g = real::val((*t)[j], e.t);
      bool good = g.t == e.t && (flt ? bits(g.f) == bits(e.f) || (g.f != g.f && e.f != e.f) : g.i == e.i);
      if (!good) { c.fail("sweep/value", "constant " + show(e) + " evaluates to " + show(g)); return; }
    }
    c.saw(base + k + (flt ? 1ull << 40 : 0));
  }
  c.count(flt ? "FLOAT constants swept" : "INT32 constants swept", 65536);
}
static void p_d04(Ctx &c) {
  Rng &r = c.r;
  size_t off = r.below(17);
  bool eoe = r.one_in(2);
  if (c.idx < 40) {  // every byte length of every integer form, around each 7 bit boundary
    for (int k = 0; k < 64; ++k)
      for (int d = -2; d <= 2; ++d)
        for (int t = 0; t < 2; ++t)
          for (int neg = 0; neg < 2; ++neg) {
            uint64_t u = ((uint64_t)1 << k) + d;
            if (neg) u = 0 - u;
            int pad = (int)(c.idx % 10) | (c.idx >= 10 && c.idx < 30 ? 16 : 0);
            Val v = t ? Val::i64((int64_t)u) : Val::i32((int32_t)(uint32_t)u);
            if (!d04_consts(c, {v}, {pad}, c.idx >= 20, off, "varint")) return;
          }
    c.count("varint grids");
    return;
  }
  if (c.idx < 1064) {  // strings of every length up to 4095, four per case
    size_t k = (c.idx - 40) * 4;
    for (size_t n = k; n < k + 4; ++n)
      if (!d04_consts(c, {Val::i32(1), Val::str(gen_bytes(r, n)), Val::boolean(true)}, {0, (int)r.below(4), 0}, eoe, off, "string")) return;
    c.count("string lengths enumerated", 4);
    return;
  }
  if (c.idx < 1064 + 60) {  // long strings
    size_t n = ((size_t)1 << (12 + (c.idx - 1064) % 10)) + r.range(-3, 3);
    std::string s = gen_bytes(r, n);
    if (!s.empty()) { s[n - 1] = (char)r.next(); s[n / 2] = 0; }
    d04_consts(c, {Val::str(s), Val::str("x"), Val::str(s)}, {1, 0, 2}, eoe, off, "long string");
    c.count("long strings");
    return;
  }
  if (c.idx < 1064 + 60 + 512) {  // each byte of the fixed width encodings
    int b = (int)(c.idx - 1124) & 255;
    bool dbl = c.idx >= 1124 + 256;
    std::vector<Val> vs;
    for (int pos = 0; pos < (dbl ? 8 : 4); ++pos)
      for (int k = 0; k < 6; ++k) {
        uint64_t base = k == 0 ? 0 : k == 1 ? ~0ull : r.next();
        base = (base & ~(0xFFull << (8 * pos))) | ((uint64_t)b << (8 * pos));
        vs.push_back(dbl ? Val::f64(dbits(base)) : Val::f32(fbits((uint32_t)base)));
      }
    d04_consts(c, vs, {}, eoe, off, dbl ? "double bytes" : "float bytes");
    c.count("byte patterns");
    return;
  }
  // random mixtures
  std::vector<Val> vs;
  std::vector<int> pads;
  size_t n = 1 + (r.one_in(12) ? heavy(r, 9000) : r.below(12));
  size_t total = 0;
  for (size_t i = 0; i < n; ++i) {
    T t = ALL_T[r.below(6)];
    vs.push_back(r.one_in(10) ? Val::null() : gen_val(r, t, total > 300000 ? 20 : (r.one_in(20) ? 70000 : 200)));
    total += vs.back().s.size();
    pads.push_back(r.one_in(3) ? (int)r.below(32) : (int)r.below(2));
    c.count(tname(vs.back().t));
  }
  if (c.want_sample() && n < 8) c.sample("constants " + show(vs));
  d04_consts(c, vs, pads, eoe, off, "mixture");
}

// ---------------------------------------------------------------- D05 (expressions)

static std::vector<T> std_types() { std::vector<T> t; for (int i = 0; i < 4; ++i) t.insert(t.end(), {I32, I64, BOOL, F32, F64, STR}); return t; }

static void p_d05(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<T> types = std_types();
  GenOpt o;
  o.types = &types;
  o.allow = safe_op;
  Prog p;
  size_t results = r.one_in(3) ? 1 + r.below(4) : 1;
  if (r.one_in(20)) results = 0;
  for (size_t i = 0; i < results; ++i) { Prog q = gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, 60), o); p.insert(p.end(), q.begin(), q.end()); }
  // many zero bytes inside immediates
  if (results && r.one_in(2))
    for (auto &i : p) {
      if (i.k != Ins::CONST || !r.one_in(2)) continue;
      if (i.t == I32 || i.t == I64) i.v.i = r.one_in(2) ? 0 : i.v.i;
      else if (i.t == F32) i.v.f = r.one_in(2) ? 0.0f : fbits((uint32_t)r.next() & 0xFF00FFu);
      else if (i.t == F64) i.v.d = r.one_in(2) ? 0.0 : dbits(r.next() & 0xFF0000FF00FF0000ull);
      else if (i.t == STR) i.v.s = std::string(r.below(9), '\0');
    }
  Bytes b = encode_padded(r, p);
  size_t n = b.size(), used = n;
  if (r.one_in(4)) {
    if (r.one_in(2)) {}            // ends with the input
    else { b.push_back(0); used = n + 1; }
  } else {
    b.push_back(0);
    used = n + 1;
    Bytes tail;
    switch (r.below(6)) {
    case 0: tail.assign(1 + r.below(5), 0); break;
    case 1: for (size_t i = r.below(12); i--;) tail.push_back((uint8_t)r.next()); break;
    case 2: tail = encode(any_prog(r, 1 + r.below(6))); break;
    case 3: tail = r.pick<Bytes>({{0x83}, {0x11}, {0x14, 0x01}, {0x17, 0x7F}, {0x52}, {0xF0}, {0x11, 0x80, 0x80}, {0xFF, 0xFF}, {0x71, 0x13, 0x00}}); break;
    case 4: tail = encode(p); tail.push_back(0); break;
    default: tail = encode(Prog{c_(Val::i32(99))}); break;
    }
    b.insert(b.end(), tail.begin(), tail.end());
    c.count("with bytes after the end marker");
  }
  if (used == n) c.count("ended by the input");
  if (p.empty()) c.count("empty expressions");
  std::vector<Row> rows{gen_row(r, types, 10), gen_row(r, types, 3)};
  if (c.want_sample() && b.size() < 60) c.sample(hex(b) + " must end at " + std::to_string(used) + ": " + show(p));
  for (auto &row : rows) if (real::fresh_differs(p, &row)) { c.count("deviations of the operators themselves (not charged here)"); return; }
  if (!check_prog(c, "end", p, b, used, &rows, nullptr, true, r.below(9))) return;
  // the length is what counts, not what lies behind it
  if (used == b.size() && !p.empty() && r.one_in(2)) {
    Bytes more = b;
    for (int i = 0; i < 12; ++i) more.push_back(r.pick<uint8_t>({0x11, 0x01, 0x83, 0x00, 0x52, 0x17, 0x80}));
    real::Runner rn;
    const uint8_t *e = rn.Decode(more.data(), b.size());
    c.saw(fnv(more.data(), more.size()));
    if (e != more.data() + used) { c.fail("length", "given " + std::to_string(b.size()) + " bytes, decoding ended at " + std::to_string(e - more.data()) + ": " + hex(more)); return; }
    real::Tuple t = real::tuple(rows[0]);
    rn.BindTuple(&t);
    Run exp = eval(p, &rows[0]);
    Outcome oc = run_real(rn, exp);
    judge(c, "length", oc, exp, [&] { return describe(p, more, &rows[0]) + " (given " + std::to_string(b.size()) + " bytes)"; });
    c.count("with foreign bytes behind the given length");
  }
}

// ---------------------------------------------------------------- E01

static void p_e01(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<T> types = std_types();
  GenOpt o;
  o.types = &types;
  o.allow = safe_op;
  static const OpFilter filt(o);
  Prog p;
  std::vector<Row> rows;
  switch (c.idx % 12) {
  case 0: {  // operand order made visible: concatenation of distinct leaves
    GenOpt oc;
    static const OpFilter fc([] { GenOpt g; g.allow = [](const OpDesc &d) { return d.fn == CONCAT || (d.fn == ADD && d.res == STR); }; return g; }());
    oc.shape = (int)r.below(4);
    gen_expr(r, STR, 2 + heavy(r, r.one_in(10) ? 3000 : 250), oc, fc, p);
    int k = 0;
    for (auto &i : p) if (i.k != Ins::OP) i = c_(Val::str("<" + std::to_string(k++) + ">"));
    c.count("concatenation order");
    break;
  }
  case 1: {  // subtraction / division trees
    static const OpFilter fs([] { GenOpt g; g.allow = [](const OpDesc &d) { return (d.fn == SUB || d.fn == DIV || d.fn == ADD) && d.arity == 2 && d.res != STR; }; return g; }());
    GenOpt oc;
    oc.shape = (int)r.below(4);
    oc.null_in = 0;
    oc.types = &types;
    gen_expr(r, r.pick({I32, I64, F32, F64}), 2 + heavy(r, 2000), oc, fs, p);
    c.count("subtraction order");
    break;
  }
  case 2: {  // very deep or very long
    static const size_t sizes[] = {1000, 2000, 4095, 4096, 4097, 8192, 10000, 16385, 32769, 40000, 65537, 100000};
    size_t n = c.thorough ? sizes[r.below(12)] * (r.one_in(6) ? 6 : 1) : (r.one_in(8) ? sizes[r.below(12)] : sizes[r.below(5)]);
    GenOpt oc = o;
    oc.shape = 1 + (int)(c.idx / 12) % 3;
    oc.null_in = 400;
    oc.maxstr = 3;
    if (r.one_in(2)) {
      // right deep sum: the whole chain of operands is on the stack at once
      T t = r.pick({I32, I64});
      int sub = table().two[0x84][t];
      for (size_t i = 0; i <= n; ++i) p.push_back(c_(gen_val(r, t)));
      for (size_t i = 0; i < n; ++i) p.push_back(o_(sub));
    } else {
      gen_expr(r, r.pick({I32, I64, BOOL, F64}), n, oc, filt, p);
    }
    c.count("deep or long");
    break;
  }
  case 3: case 4: {  // many results
    size_t n = heavy(r, c.thorough ? 70000 : (r.one_in(10) ? 20000 : 300));
    if (n == 0) n = 2;
    if (c.idx % 2400 == 3) n = 65530 + r.below(5000);
    GenOpt oc = o;
    if (n > 1000) oc.maxstr = 4;
    for (size_t i = 0; i < n; ++i) gen_expr(r, ALL_T[r.below(6)], n > 300 ? 1 : 1 + r.below(6), oc, filt, p);
    c.count("multiple results");
    break;
  }
  default:
    o.null_in = r.one_in(3) ? 6 : 40;
    o.shape = (int)r.below(4);
    gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, 400), o, filt, p);
    c.count("general");
  }
  size_t nr = p.size() > 2000 ? 1 : 4;
  for (size_t i = 0; i < nr; ++i) rows.push_back(gen_row(r, types, r.one_in(2) ? 0 : 8));
  for (auto &i : p) if (i.k == Ins::OP) c.count("operators applied");
  c.counters["longest program"] = std::max<uint64_t>(c.counters["longest program"], p.size());
  Bytes b = encode(p);
  if (r.one_in(2)) b.push_back(0);
  if (c.want_sample() && p.size() > 3 && p.size() < 25) c.sample(show(p) + " on " + show(rows[0]) + " leaves " + show(eval(p, &rows[0]).stack));
  check_prog(c, "suffix", p, b, b.size(), &rows);
}

// ---------------------------------------------------------------- E02

// Rows of millions of elements: each is the number of its place.
static void vast_row(Ctx &c) {
  Rng &r = c.r;
  const size_t width = ((size_t)1 << (c.thorough ? 24 : 21)) + 1000;
  real::Tuple t;
  t.reserve(width);
  for (size_t i = 0; i < width; ++i) t.push_back(real::Operand((int32_t)i));
  for (int k = 0; k < 400; ++k) {
    size_t x = ((size_t)1 << (1 + r.below(c.thorough ? 24 : 21))) + r.range(-2, 2);
    if (r.one_in(3)) x = r.below(width);
    if (r.one_in(20)) x = width - 1;
    Prog p{v_(I32, (int64_t)x)};
    Bytes b = encode(p);
    c.at("variable " + std::to_string(x) + " of a row of " + std::to_string(width));
    real::Runner rn;
    rn.Decode(b.data(), b.size());
    rn.BindTuple(&t);
    int64_t got = -1;
    try { rn.Run(); Val v = real::val(rn.Get(), I32); if (v.t == I32) got = v.i; } catch (const std::exception &) {}
    c.saw(fnv(b.data(), b.size()));
    c.count("variables of a row of millions");
    if (got != (int64_t)x) { c.fail("variable", "variable " + std::to_string(x) + " of a row of " + std::to_string(width) + " elements, each the number of its place, yields " + std::to_string(got)); return; }
  }
}
static void p_e02(Ctx &c) {
  Rng &r = c.r;
  if (c.idx % 8000 == 21) return vast_row(c);
  size_t width;
  const bool huge = c.idx % 200 == 5;   // indices beyond 16 bits
  switch (huge ? 8 : c.idx % 8) {
  case 8: width = 65600 + r.below(6000); break;
  case 0: width = 1 + heavy(r, c.thorough ? 70000 : 17000); break;
  case 1: width = r.pick({127, 128, 129, 255, 256, 257, 16383, 16384, 16385}); break;
  case 2: width = 1; break;
  default: width = 1 + r.below(60);
  }
  std::vector<T> types = gen_types(r, width);
  int nrows = width > 1000 ? 2 : 5;
  std::vector<Row> rows;
  std::vector<real::Tuple> real_rows;
  for (int i = 0; i < nrows; ++i) rows.push_back(gen_row(r, types, r.one_in(2) ? 4 : 20, width > 1000 ? 8 : 60));
  // share string objects between tuples, as a storage engine would
  for (auto &row : rows) real_rows.push_back(real::tuple(row));
  for (size_t i = 0; i < width && nrows > 1; ++i)
    if (r.one_in(6)) { rows[1][i] = rows[0][i]; real_rows[1][i] = real_rows[0][i]; }
  std::vector<real::Tuple> before;
  for (auto &row : rows) before.push_back(real::tuple(row));
  Prog p;
  size_t nv = 1 + (r.one_in(6) ? heavy(r, 3000) : r.below(20));
  if (r.one_in(2)) {
    for (size_t i = 0; i < nv; ++i) { size_t x = huge && r.one_in(2) ? r.pick<size_t>({32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65599, 50000}) : r.one_in(4) ? width - 1 - r.below(std::min<size_t>(width, 3)) : r.below(width); p.push_back(v_(types[x], (int64_t)x)); }
    c.count("plain variables");
  } else {  // computations over variables, strings in particular
    GenOpt o;
    o.types = &types;
    o.var_in = 1;
    o.allow = safe_op;
    for (int i = 0; i < 3; ++i) { Prog q = gen_expr(r, r.one_in(2) ? STR : ALL_T[r.below(6)], 1 + r.below(30), o); p.insert(p.end(), q.begin(), q.end()); }
    c.count("computations over variables");
  }
  for (auto &i : p) if (i.k == Ins::VAR) c.count(std::string("index of ") + (i.idx < 128 ? "one byte" : i.idx < 16384 ? "two bytes" : "three bytes"));
  Bytes b = encode_padded(r, p);
  if (r.one_in(2)) b.push_back(0);
  real::Runner rn;
  rn.Decode(b.data(), b.size());
  bool has_var = false;
  for (auto &i : p) has_var |= i.k == Ins::VAR;
  c.at(describe(p, b.size() > 600 ? Bytes() : b, width < 30 ? &rows[0] : nullptr));
  if (has_var) {  // nothing bound yet
    bool raised = false;
    try { rn.Run(); } catch (const std::exception &) { raised = true; }
    c.saw(fnv(b.data(), b.size()));
    c.count("unbound runs");
    if (!raised) { c.fail("unbound", describe(p, b, nullptr) + "\n a variable without a tuple must raise an error"); return; }
  }
  size_t last_bound = SIZE_MAX;
  for (int k = 0; k < nrows * 3; ++k) {
    size_t x = k < nrows ? (size_t)k : r.below(nrows);
    if (k >= nrows * 2 && last_bound != SIZE_MAX && r.one_in(2)) x = last_bound;
    if (k >= nrows * 2 && r.one_in(2)) {   // the caller fills the tuple again
      Row now = gen_row(r, types, 5, width > 1000 ? 8 : 60);
      switch (r.below(3)) {
      case 0: real_rows[x] = real::tuple(now); break;                                        // other elements
      case 1: for (size_t i = 0; i < width; ++i) real_rows[x][i] = real::op(now[i]); break;  // in the same place
      default: { size_t i = r.below(width); Row one = rows[x]; one[i] = now[i]; now = one; real_rows[x][i] = real::op(now[i]); }
      }
      rows[x] = now;
      before[x] = real_rows[x];
      c.count("tuples filled again by the caller");
      if (x != last_bound || r.one_in(2)) rn.BindTuple(&real_rows[x]); else c.count("and not bound again");
    } else rn.BindTuple(&real_rows[x]);
    last_bound = x;
    Run exp = eval(p, &rows[x]);
    Outcome o = run_real(rn, exp);
    c.saw(hashv(fnv(b.data(), b.size()), rows[x]));
    if (!agrees(o, exp)) {   // the same with constants in place of the variables?
      Prog q = p;
      for (auto &i : q) if (i.k == Ins::VAR) { Val v = rows[x][i.idx]; i = v.isnull() ? n_(i.t) : c_(v); }
      if (real::fresh_differs(q, nullptr)) { c.count("deviations of the operators themselves (not charged here)"); return; }
    }
    if (!judge(c, "variable", o, exp, [&] { return describe(p, b, &rows[x]); })) return;
    for (int i = 0; i < nrows; ++i) {
      Row now = real::row(real_rows[i], &rows[i]);
      if (!same(now, rows[i])) { c.fail("tuple-modified", describe(p, b, &rows[x]) + "\n changed tuple " + std::to_string(i) + ": " + diff(now, rows[i])); return; }
    }
  }
  if (c.want_sample() && p.size() < 12 && width < 12) c.sample(show(p) + " over " + show(rows[0]));
  if (has_var && r.one_in(2)) {
    rn.BindTuple(nullptr);
    bool raised = false;
    try { rn.Run(); } catch (const std::exception &) { raised = true; }
    if (!raised) c.fail("unbound-again", describe(p, b, nullptr) + "\n a variable after the tuple was taken away must raise an error");
  }
}

// ---------------------------------------------------------------- E03

static void p_e03(Ctx &c) {
  const OpTable &t = table();
  int op = (int)(c.idx % t.ops.size());
  const OpDesc &d = t.ops[op];
  Rng &r = c.r;
  Val a[3];
  for (int mask = 0; mask < (1 << d.arity); ++mask)
    for (int k = 0; k < 12; ++k) {
      gen_args(r, d, a, 80);
      if (r.one_in(6)) a[d.arity - 1] = gen_small(r, d.arg[d.arity - 1], 1);
      for (int i = 0; i < d.arity; ++i) if (mask >> i & 1) a[i] = Val::null();
      c.count(mask ? "with NULL operands" : "without NULL operands");
      if (!check_op(c, op, a)) return;
      if (k < 4) {  // the same with constants, where NULL may carry any type code
        Prog p;
        for (int i = 0; i < d.arity; ++i) p.push_back(a[i].isnull() ? n_(ALL_T[r.below(6)]) : c_(a[i]));
        p.push_back(o_(op));
        Bytes b = encode(p);
        if (!check_prog(c, d.name() + "/const", p, b, b.size(), nullptr)) return;
      }
    }
  // NULLs that arise inside (division by zero, NULL elements) and travel through a composition
  static const std::vector<T> types = std_types();
  GenOpt o;
  o.types = &types;
  o.null_in = 8;
  o.allow = safe_op;
  static const OpFilter filt(o);
  Prog p;
  for (int i = 0; i < d.arity; ++i) {
    if (r.one_in(3) && (d.arg[i] == I32 || d.arg[i] == I64)) {
      gen_expr(r, d.arg[i], 4, o, filt, p);
      p.push_back(c_(d.arg[i] == I32 ? Val::i32(0) : Val::i64(0)));
      p.push_back(o_(t.two[r.one_in(2) ? 0x86 : 0x87][d.arg[i]]));
      c.count("division by zero inside");
    } else gen_expr(r, d.arg[i], 1 + r.below(8), o, filt, p);
  }
  p.push_back(o_(op));
  std::vector<Row> rows;
  for (int i = 0; i < 4; ++i) rows.push_back(gen_row(r, types, 3));
  Bytes b = with_eoe(encode(p));
  check_prog(c, d.name() + "/composition", p, b, b.size(), &rows);
}

// ---------------------------------------------------------------- E04

static void p_e04(Ctx &c) {
  Rng &r = c.r;
  const OpTable &t = table();
  int NOTi = t.one[0x51], ANDi = t.one[0x52], ORi = t.one[0x53];
  Prog p;
  int nv;
  auto V = [](int i) { return v_(BOOL, i); };
  auto O = [](int i) { return o_(i); };
  if (c.idx < 400) {
    // enumerated: (f1 x) op (f2 y) with x, y in {v0, v1, TRUE, FALSE, NULL}, f in {id, NOT}, op in {AND, OR}, then optional NOT / third operand
    auto leaf = [&](int k) { return k == 0 ? V(0) : k == 1 ? V(1) : k == 2 ? c_(Val::boolean(true)) : k == 3 ? c_(Val::boolean(false)) : n_(BOOL); };
    int x = (int)c.idx % 5, y = (int)c.idx / 5 % 5, f = (int)c.idx / 25 % 4, op = (int)c.idx / 100 % 2, fin = (int)c.idx / 200;
    p.push_back(leaf(x));
    if (f & 1) p.push_back(O(NOTi));
    p.push_back(leaf(y));
    if (f & 2) p.push_back(O(NOTi));
    p.push_back(O(op ? ORi : ANDi));
    if (fin) { p.push_back(O(NOTi)); p.push_back(V(2)); p.push_back(O(op ? ANDi : ORi)); }
    nv = 3;
  } else {
    nv = 1 + (int)r.below(6);
    GenOpt o;
    std::vector<T> types(nv, BOOL);
    o.types = &types;
    o.var_in = r.one_in(3) ? 2 : 1;
    o.null_in = 4;
    bool cmp = r.one_in(5);
    o.allow = [cmp](const OpDesc &d) { return d.fn == NOT || d.fn == AND || d.fn == OR || (cmp && d.arg[0] == BOOL && d.res == BOOL && (d.fn == EQ || d.fn == NE || d.fn == ISNULL || d.fn == ISTRUE || d.fn == ISFALSE)); };
    o.shape = (int)r.below(4);
    p = gen_expr(r, BOOL, 2 + (r.one_in(30) ? r.below(5000) : heavy(r, 60)), o);
  }
  Bytes b = with_eoe(encode_padded(r, p));
  real::Runner rn;
  rn.Decode(b.data(), b.size());
  int total = 1;
  for (int i = 0; i < nv; ++i) total *= 3;
  c.at(describe(p, b.size() > 600 ? Bytes() : b, nullptr));
  for (int a = 0; a < total; ++a) {
    if (p.size() > 300 && a % 27 != (int)(c.idx % 27) % total) continue;
    Row row;
    for (int i = 0, x = a; i < nv; ++i, x /= 3) row.push_back(untri(x % 3));
    real::Tuple tp = real::tuple(row);
    rn.BindTuple(&tp);
    Run exp = eval(p, &row);
    Outcome o = run_real(rn, exp);
    c.saw(hashv(fnv(b.data(), b.size()), row));
    c.count(exp.stack.back().isnull() ? "NULL results" : exp.stack.back().i ? "TRUE results" : "FALSE results");
    if (!judge(c, "logic", o, exp, [&] { return describe(p, b, &row); })) return;
    rn.BindTuple(nullptr);
  }
  c.count("formulas");
  if (c.want_sample() && p.size() < 25) c.sample(show(p) + " under " + std::to_string(total) + " assignments");
}

// ---------------------------------------------------------------- E07 triples

static void p_e07(Ctx &c) {
  static const CaseFn fam = family([](const OpDesc &d) { return (d.fn >= EQ && d.fn <= NE) || d.fn == MIN || d.fn == MAX; },
                                   [](Rng &r, const OpDesc &d, Val *a) {
                                     a[0] = r.one_in(3) ? gen_small(r, d.arg[0], 4) : gen_val(r, d.arg[0], r.one_in(30) ? 5000 : 60);
                                     a[1] = r.one_in(3) ? gen_val(r, d.arg[0], 60) : r.one_in(8) ? a[0] : gen_near(r, a[0]);
                                     if (r.one_in(2)) std::swap(a[0], a[1]);
                                   }, 200);
  fam(c);
  if (c.nviol) return;
  // one order for all: sort a set of values by the real LT and check every relation on it
  Rng &r = c.r;
  T t = ALL_T[c.idx % 6];
  std::vector<Val> vs;
  Val v = gen_val(r, t, 40);
  for (int i = 0; i < 10; ++i) { vs.push_back(v); v = r.one_in(3) ? gen_val(r, t, 40) : gen_near(r, v); }
  for (auto &x : vs) if (isnan(x)) x = gen_small(r, t, 3);
  auto ask = [&](int b0, const Val &a, const Val &b) { Val x[2] = {a, b}; return check_op(c, table().two[b0][t], x); };
  for (auto &a : vs)
    for (auto &b : vs)
      for (int b0 : {0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0xB1, 0xB2})
        if (!ask(b0, a, b)) return;
  c.count("value sets with all pairs");
}

// ---------------------------------------------------------------- casts

static void cast_args(Rng &r, const OpDesc &d, Val *a) {
  T s = d.arg[0], t = d.res;
  a[0] = gen_val(r, s, 60);
  if (r.one_in(2)) return;
  if (s == F32 || s == F64) {
    double x;
    switch (r.below(7)) {
    case 0: x = 2147483647.0 + r.range(-4, 4) * 0.25; break;
    case 1: x = -2147483648.0 + r.range(-4, 4) * 0.25; break;
    case 2: x = 9223372036854775808.0; break;
    case 3: x = -9223372036854775808.0; break;
    case 4: x = (double)r.range(-1000, 1000) + 0.5; break;
    case 5: x = std::ldexp((double)r.range(1, 1 << 24), (int)r.range(-30, 40)); break;
    default: x = r.pick({0.49999999999999994, 0.5, 0.49999997, 4503599627370497.5, 4503599627370495.5, 8388607.5, 8388609.0, 2251799813685247.75, 4194303.75, 16777217.0, 1e-300, -0.0});
    }
    if (r.one_in(2)) x = -x;
    if (s == F32) { a[0] = Val::f32((float)x); if (r.one_in(2)) a[0].f = fbits(bits(a[0].f) + (uint32_t)r.range(-3, 3)); }
    else { a[0] = Val::f64(x); if (r.one_in(2)) a[0].d = dbits(bits(a[0].d) + (uint64_t)r.range(-3, 3)); }
  } else if (s == I64 || s == I32) {
    // near the midpoints of neighbouring floating point numbers, or the 32 bit limits
    int64_t v;
    if (t == F32 || t == F64) {
      int m = t == F32 ? 24 : 53, k = s == I64 ? 63 : 31;
      int top = m + (int)r.below(k > m ? k - m + 1 : 1);
      if (top > k - 1) top = k - 1;
      uint64_t u = ((uint64_t)1 << top) | (r.next() & (((uint64_t)1 << top) - 1));
      if (top > m - 1) { int drop = top - (m - 1); u = (u >> drop << drop) + ((uint64_t)1 << (drop - 1)) + r.range(-1, 1); }
      v = (int64_t)(u & (((uint64_t)1 << k) - 1));
      if (r.one_in(2)) v = -v;
    } else v = r.pick({(int64_t)INT32_MAX, (int64_t)INT32_MIN, (int64_t)1 << 32, -((int64_t)1 << 32), (int64_t)1 << 31, (int64_t)1 << 62}) + r.range(-3, 3);
    if (s == I32) v = (int32_t)v;
    a[0].i = v;
  }
}

static void p_e09(Ctx &c) {
  static const CaseFn fam = family([](const OpDesc &d) { return d.fn == ABSC || (d.fn == CASTC && d.res != STR && d.arg[0] != STR) || (d.fn == CASTC && d.identity); }, [](Rng &r, const OpDesc &d, Val *a) {
    if (d.fn == CASTC) cast_args(r, d, a); else { a[0] = gen_val(r, d.arg[0]); if (r.one_in(4) && (d.res == I32 || d.res == I64)) a[0].i = d.res == I32 ? INT32_MIN + r.range(0, 2) : INT64_MIN + r.range(0, 2); }
  }, 300, false);
  fam(c);
  if (c.nviol) return;
  // other checked casts (with strings) equal the unchecked ones
  static const std::vector<int> strs = ops_where([](const OpDesc &d) { return d.fn == CASTC && (d.res == STR || d.arg[0] == STR); });
  int op = strs[c.idx % strs.size()];
  Val a[1];
  for (int i = 0; i < 40; ++i) {
    gen_args(c.r, table().ops[op], a, 60);
    if (!check_op(c, op, a)) return;
  }
  // inside an expression: the error of a checked cast reaches the caller
  Prog p{c_(Val::i64(7)), v_(F64, 0), o_(table().two[0xFC][0x15]), c_(Val::i32(1)), o_(table().two[0x83][1])};
  std::vector<Row> rows;
  for (int i = 0; i < 10; ++i) rows.push_back({c.r.one_in(2) ? Val::f64(gen_f64(c.r)) : Val::f64(2147483647.0 + c.r.range(-3, 3) * 0.25)});
  Bytes b = encode(p);
  check_prog(c, "in-expression", p, b, b.size(), &rows);
}

// ---------------------------------------------------------------- E13

static void p_e13(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<T> types = std_types();
  GenOpt o;
  o.types = &types;
  o.null_in = 8;
  static const OpFilter filt(o);
  static real::Runner old;     // used again and again
  Prog p;
  size_t nops = table().ops.size();
  if (r.one_in(4)) { Prog q = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(5), o); p = q; }
  if (c.idx % 3) {
    const OpDesc &d = table().ops[(c.idx / 3 * 2 + c.idx % 3 - 1) % nops];
    for (int i = 0; i < d.arity; ++i) gen_expr(r, d.arg[i], 1 + r.below(8), o, filt, p);
    p.push_back(o_((int)((c.idx / 3 * 2 + c.idx % 3 - 1) % nops)));
    c.count("last operator enumerated");
  } else {
    T t = ALL_T[r.below(6)];
    if (r.one_in(2)) gen_leaf(r, t, o, p); else gen_expr(r, t, heavy(r, 300), o, filt, p);
  }
  T expect = p.back().t;
  bool null_const = p.back().k == Ins::NUL;
  Bytes b = encode_padded(r, p);
  if (r.one_in(2)) b.push_back(0);
  real::Runner fresh;
  real::Runner &rn = r.one_in(2) ? fresh : old;
  rn.Decode(b.data(), b.size());
  c.at(describe(p, b.size() > 600 ? Bytes() : b, nullptr));
  int before = -1;
  try { before = rn.GetType(); } catch (const std::exception &e) { c.fail("type/error", describe(p, b, nullptr) + "\n asking for the type raised " + show_err(e)); return; }
  bool any = false, nonnull = false;
  for (int i = 0; i < 6; ++i) {
    Row row = gen_row(r, types, i % 2 ? 0 : 8);
    real::Tuple t = real::tuple(row);
    rn.BindTuple(&t);
    Run exp = eval(p, &row);
    Val v;
    bool raised = false;
    try { rn.Run(); v = real::val(rn.Get(), expect); } catch (const std::exception &) { raised = true; }
    int after = rn.GetType();
    rn.BindTuple(nullptr);
    c.saw(hashv(fnv(b.data(), b.size()), row));
    if (after != before) { c.fail("type/changed", describe(p, b, &row) + "\n reported type changed from " + std::to_string(before) + " to " + std::to_string(after)); return; }
    if (raised || v.isnull()) continue;
    any = true;
    nonnull = nonnull || !v.isnull();
    if (v.t != before) { c.fail("type/value", describe(p, b, &row) + "\n reported type " + tname((T)before) + " but the value is " + show(v)); return; }
    c.count(std::string("values of type ") + tname(v.t));
  }
  if (any) c.count("programs with a value");
  if (!null_const && before != expect) c.fail("type/static", describe(p, b, nullptr) + "\n reported type " + std::to_string(before) + ", its values are of type " + tname(expect));
  if (c.want_sample() && p.size() < 12) c.sample(show(p) + " : " + tname((T)before));
}

// ---------------------------------------------------------------- E14

static void p_e14(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<T> types = std_types();
  GenOpt safe, wild;
  safe.types = wild.types = &types;
  safe.allow = safe_op;
  static const OpFilter fs(safe), fw(wild);
  real::Runner rn;
  std::vector<Row> rows;
  std::vector<real::Tuple> tuples;
  for (int i = 0; i < 4; ++i) { rows.push_back(gen_row(r, types, i == 3 ? 2 : 10)); }
  for (auto &x : rows) tuples.push_back(real::tuple(x));
  int bound = -1;
  bool good = false;
  Prog cur;
  std::string hist;
  int steps = 6 + (int)r.below(40);
  if (c.idx % 3000 == 13) steps = 6000;
  for (int s = 0; s < steps; ++s) {
    switch (r.below(10)) {
    case 0: case 1: case 2: {  // a good expression, sometimes multi-result, sometimes failing at run time
      cur.clear();
      int n = r.one_in(40) ? 0 : r.one_in(4) ? 1 + (int)r.below(5) : 1;
      for (int i = 0; i < n; ++i) gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, r.one_in(10) ? 1500 : 30), r.one_in(3) ? wild : safe, fw, cur);
      if (r.one_in(6)) cur.push_back(o_((int)r.below(table().ops.size())));       // may lack operands or be of the wrong type
      if (r.one_in(8)) { cur.insert(cur.begin(), o_(table().two[0x83][1])); }     // surely too few operands
      Bytes b = encode_padded(r, cur);
      size_t used = b.size();
      if (r.one_in(2)) { b.push_back(0); ++used; if (r.one_in(2)) b.push_back((uint8_t)r.next()); }
      hist += "\n decode " + hex(b, 200);
      c.at(hist);
      Buf buf(b, r.below(5));
      const uint8_t *e = rn.Decode(buf.p(), b.size());
      if (e != buf.p() + used) { c.fail("position", hist); return; }
      memset(buf.store.data(), 0xFF, buf.store.size());
      good = true;
      c.count("good decodes");
      break;
    }
    case 3: {  // a bad one
      Prog q;
      int n = (int)r.below(4);
      for (int i = 0; i < n; ++i) gen_expr(r, ALL_T[r.below(6)], 1 + r.below(8), safe, fs, q);
      Bytes b = encode(q);
      Bytes bad = r.pick<Bytes>({{0xE0, 0x00}, {0x54}, {0x14, 0x00}, {0x11, 0xFF}, {0x17, 0x05, 0x41}, {0x83}, {0x83, 0x06}, {0x0F}, {0x16, 0x01}, {0x37}});
      b.insert(b.end(), bad.begin(), bad.end());
      hist += "\n decode (refused) " + hex(b, 200);
      c.at(hist);
      bool raised = false;
      try { rn.Decode(b.data(), b.size()); } catch (const std::exception &) { raised = true; }
      if (!raised) { c.fail("bad-accepted", hist); return; }
      good = false;
      c.count("refused decodes");
      if (r.one_in(3)) { try { rn.Run(); (void)rn.Get(); } catch (const std::exception &) {} hist += "\n run after refusal"; }
      break;
    }
    case 4: case 5: {
      bound = (int)r.below(5) - 1;
      rn.BindTuple(bound < 0 ? nullptr : &tuples[bound]);
      hist += "\n bind " + std::to_string(bound);
      break;
    }
    case 6: if (good) { try { rn.GetType(); } catch (const std::exception &) {} } break;
    default: {
      if (!good) break;
      const Row *row = bound < 0 ? nullptr : &rows[bound];
      hist += "\n run " + show(cur);
      if (hist.size() > 8000) hist = "..." + hist.substr(hist.size() - 6000);
      c.at(hist.size() > 2800 ? hist.substr(hist.size() - 2800) : hist);
      Run exp = eval(cur, row);
      int times = 1 + (int)r.below(3);
      for (int k = 0; k < times; ++k) {
        Outcome o = run_real(rn, exp);
        c.saw(hashv(fnv(hist.data(), hist.size()), row ? *row : Row()));
        c.count(exp.st == OK ? "runs with a result" : exp.st == ERR ? "runs with an error" : "runs left open");
        if (!agrees(o, exp) && real::fresh_differs(cur, row)) {   // compare with a fresh runner instead
          c.count("deviations of a fresh runner (not charged here)");
          exp.st = UNSPEC;
        }
        if (!judge(c, "history", o, exp, [&] { return "history:" + hist + (row ? "\n tuple " + show(*row) : ""); })) return;
        // and it equals a fresh runner, also where the model leaves the value open
        if (exp.st == UNSPEC) {
          real::Runner f;
          Bytes b = encode(cur);
          f.Decode(b.data(), b.size());
          if (row) f.BindTuple(&tuples[bound]);
          Outcome of = run_real(f, exp);
          if (of.err != o.err || !same(of.stack, o.stack)) { c.fail("history/fresh", "history:" + hist + "\n used runner " + (o.err ? o.what : show(o.stack)) + ", fresh runner " + (of.err ? of.what : show(of.stack))); return; }
          c.count("compared with a fresh runner");
        }
      }
    }
    }
  }
  c.count("histories");
  if (c.want_sample() && hist.size() < 600) c.sample("history:" + hist);
}

// One program run very often, long stretches over one row before another comes, long decoding the same.
static void p_e14_long(Ctx &c) {
  Rng &r = c.r;
  static const std::vector<T> types = std_types();
  GenOpt o;
  o.types = &types;
  o.maxstr = 20;
  const bool longest = c.idx < 8;
  Prog p = gen_expr(r, ALL_T[r.below(6)], longest ? 2 + r.below(3) : 1 + r.below(12), o);
  if (!longest && r.one_in(4)) { Prog q = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(6), o); p.insert(p.end(), q.begin(), q.end()); }
  if (!longest && r.one_in(6)) p.push_back(o_((int)r.below(table().ops.size())));
  Bytes b = encode_padded(r, p);
  std::vector<Row> rows;
  for (int i = 0; i < 5; ++i) rows.push_back(gen_row(r, types, i == 3 ? 2 : 10, 20));
  std::vector<std::unique_ptr<real::Tuple>> tuples, ref;    // ref: what a fresh runner gives, null: an error
  std::vector<Row> refrow;
  for (auto &x : rows) {
    tuples.emplace_back(real::new_tuple(x));
    real::Runner f;
    f.Decode(b.data(), b.size());
    f.BindTuple(tuples.back().get());
    try { f.Run(); ref.emplace_back(f.GetAll()); refrow.push_back(real::row(*ref.back())); } catch (const std::exception &) { ref.emplace_back(nullptr); refrow.emplace_back(); }
  }
  real::Runner rn;
  rn.Decode(b.data(), b.size());
  std::string hist = show(p) + "\n code " + hex(b, 300);
  uint64_t total = 0;
  auto fail = [&](int k, const std::string &gave) { c.fail("long", hist + "\n of run " + std::to_string(total) + " over " + show(rows[k]) + ": " + gave + ", a fresh runner " + (ref[k] ? show(refrow[k]) : "raises an error")); };
  // one run; false after a violation
  auto once = [&](int k, bool all) {
    ++total;
    std::unique_ptr<real::Tuple> got;
    bool err = false;
    real::Operand last;
    try { rn.Run(); if (all) got.reset(rn.GetAll()); else if (ref[k] && !ref[k]->empty()) last = rn.Get(); } catch (const std::exception &) { err = true; }
    if (err != !ref[k]) { fail(k, err ? "raises an error" : "gives a result"); return false; }
    if (err) return true;
    if (all) { Row x = real::row(*got); if (!same(x, refrow[k])) { fail(k, show(x)); return false; } }
    else if (!ref[k]->empty() && !(last == ref[k]->back())) { Val x = real::val(last); if (!same(x, refrow[k].back())) { fail(k, show(x)); return false; } }
    return true;
  };
  const int stretches = longest ? 2 : 2 + (int)r.below(4);
  for (int i = 0; i < stretches; ++i) {
    int k = (int)r.below(rows.size());
    uint64_t n = longest ? (i ? 1000 : (1ull << (c.thorough && c.idx == 0 ? 32 : 24)) + 10) : r.pick<uint64_t>({100, 1100, 11000, 66000}) + r.below(1000);
    hist += "\n " + std::to_string(n) + " runs over row " + std::to_string(k);
    if (!ref[k]) n = std::min<uint64_t>(n, 70000);
    rn.BindTuple(tuples[k].get());
    for (uint64_t x = 0; x < n; ++x) {
      if (x % (1 << 22) == 0) c.at(std::to_string(x) + " runs of " + hist);
      if (!once(k, x < 3 || x + 3 > n || x % 4099 == 0)) return;
    }
    c.counters["most runs over one row"] = std::max(c.counters["most runs over one row"], n);
    // the others in between, a few times
    for (size_t y = 0; y < rows.size() * 2; ++y) { int q = (int)(y % rows.size()); rn.BindTuple(tuples[q].get()); if (!once(q, true)) return; }
    if (r.one_in(3)) { size_t m = r.one_in(4) ? 66000 : 300; for (size_t y = 0; y < m; ++y) rn.Decode(b.data(), b.size()); hist += "\n decoded " + std::to_string(m) + " times"; c.counters["most decodes of one code"] = std::max<uint64_t>(c.counters["most decodes of one code"], m); }
  }
  c.evaluations += total;
  c.saw(fnv(hist.data(), hist.size()));
  c.count("runs of long histories", total);
  if (c.want_sample()) c.sample(hist);
}

// ---------------------------------------------------------------- E12: strings of 2^31 and 2^32 bytes
static const char *huge_part(const OpDesc &d, const std::string &s, int64_t n, int64_t k, std::string &out) {
  // the same definitions over positions only, without copying the string
  int64_t len = (int64_t)s.size(), b, e;
  switch (d.fn) {
  case LEFT: b = 0; e = n < 0 ? 0 : n; break;
  case RIGHT: b = n < 0 ? len : std::max<int64_t>(0, len - n); e = len; break;
  case SUBSTR3: b = std::max<int64_t>(0, n); e = k; break;
  case SUBSTR2: b = std::max<int64_t>(0, n); e = len; break;
  case MID3: case MID2:
    b = n > 0 ? n - 1 : n < 0 ? len + n : len;
    if (b < 0 || b >= len) b = len;
    e = d.fn == MID2 ? len : k <= 0 ? b : b + k;
    break;
  default: return "?";
  }
  e = std::min(e, len);
  if (b >= e) { out.clear(); return nullptr; }
  if (e - b > 4096) return "long";
  out = s.substr(b, e - b);
  return nullptr;
}
static void p_e12_huge(Ctx &c) {
  Rng &r = c.r;
  const int64_t size = c.idx % 2 == 0 ? (1LL << 31) + 1000 : (1LL << 32) + 1000;
  std::shared_ptr<std::string> str;
  try { str = std::make_shared<std::string>((size_t)size, 'a'); }
  catch (const std::bad_alloc &) { c.saw(1); c.count("left out: not enough memory for a string of " + std::to_string(size) + " bytes"); return; }
  std::string &s = *str;
  for (int64_t at : std::vector<int64_t>{0, (1LL << 31) - 8, (1LL << 31) - 1008, size - 3000, size - (1LL << 31) - 8, (1LL << 32) - 1000})
    for (int64_t i = std::max<int64_t>(0, at); i < at + 3000 && i < size; ++i) s[i] = (char)(i * 7 + i / 251);
  auto ops = ops_where([](const OpDesc &d) { return d.fn == LEFT || d.fn == RIGHT || d.fn == SUBSTR3 || d.fn == SUBSTR2 || d.fn == MID3 || d.fn == MID2; });
  const int64_t near[] = {0, INT32_MAX, INT32_MIN, 1000, -1000, size - (1LL << 31), size - (1LL << 32), 500};
  for (int op : ops) {
    const OpDesc &d = table().ops[op];
    OpRunner x(op);
    x.t[0] = real::Operand(str);
    for (int k = 0; k < 400; ++k) {
      int64_t n = r.pick<int64_t>({near[r.below(8)], near[r.below(8)] + r.range(-20, 20), r.range(-1200, 1200)});
      int64_t m = r.pick<int64_t>({near[r.below(8)] + r.range(-20, 20), n + r.range(-3, 2000), r.range(0, 2000)});
      n = std::min<int64_t>(INT32_MAX, std::max<int64_t>(INT32_MIN, n));
      m = std::min<int64_t>(INT32_MAX, std::max<int64_t>(INT32_MIN, m));
      std::string exp;
      if (const char *w = huge_part(d, s, n, m, exp)) { c.count(std::string("left out: result too ") + w); continue; }
      x.t[1] = real::Operand((int32_t)n);
      if (d.arity > 2) x.t[2] = real::Operand((int32_t)m);
      x.rn.BindTuple(&x.t);
      std::string text = d.name() + "(string of " + std::to_string(size) + " bytes, " + std::to_string(n) + (d.arity > 2 ? ", " + std::to_string(m) : "") + ")";
      c.at(text);
      c.saw(fnv(text.data(), text.size()));
      c.count(d.name());
      try {
        x.rn.Run();
        real::String got = x.rn.Get().GetValue<real::String>();
        if (*got != exp) { c.fail(d.name() + "/huge", text + "\n gave " + std::to_string(got->size()) + " bytes " + hex(Bytes(got->begin(), got->begin() + std::min<size_t>(got->size(), 40))) + ", expected " + std::to_string(exp.size()) + " bytes " + hex(Bytes(exp.begin(), exp.begin() + std::min<size_t>(exp.size(), 40)))); return; }
      } catch (const std::exception &e) {
        c.fail(d.name() + "/huge", text + "\n raised " + show_err(e) + ", expected " + std::to_string(exp.size()) + " bytes");
        return;
      }
    }
  }
  if (c.want_sample()) c.sample("string of " + std::to_string(size) + " bytes");
}

int main(int argc, char **argv) {
  auto arith = [](bool flt) {
    return [flt](const OpDesc &d) {
      bool f = d.arg[0] == F32 || d.arg[0] == F64;
      return f == flt && d.arg[0] != STR && (d.fn <= MOD || d.fn == ABS) && d.arg[0] != BOOL;
    };
  };
  std::map<std::string, CaseFn> props;
  props["D03"] = p_d03;
  props["D04"] = p_d04;
  props["D04.sweep"] = p_d04_sweep;
  props["D05"] = p_d05;
  props["E01"] = p_e01;
  props["E02"] = p_e02;
  props["E03"] = p_e03;
  props["E04"] = p_e04;
  props["E05"] = family(arith(false), default_args);
  props["E06"] = family(arith(true), default_args);
  props["E07"] = p_e07;
  props["E08"] = family([](const OpDesc &d) { return d.fn == CAST && ((d.res != STR && d.arg[0] != STR) || d.identity); }, cast_args, 300, true, 30);
  props["E09"] = p_e09;
  props["E10"] = family([](const OpDesc &d) { return d.fn == CAST && ((d.res == STR) != (d.arg[0] == STR)); }, [](Rng &r, const OpDesc &d, Val *a) {
    if (d.arg[0] == STR) {
      a[0] = Val::str(r.one_in(4) ? gen_str(r, 80) : gen_numtext(r));
    } else a[0] = gen_val(r, d.arg[0]);
    // the last digit kept is decided by a tie
    if ((d.arg[0] == F32 || d.arg[0] == F64) && r.one_in(6)) {
      double x = (double)(r.range(-(1 << r.below(24)), 1 << r.below(24)) | 1) * r.pick({0x1p-16, 0x1p-17, 0x1p-15});
      a[0] = d.arg[0] == F32 ? Val::f32((float)x) : Val::f64(dbits(bits(x) + (r.one_in(4) ? (uint64_t)r.range(-1, 1) : 0)));
    }
  }, 200, true, 60);
  props["E11"] = family([](const OpDesc &d) { return d.fn >= CEIL && d.fn <= LOG; }, [](Rng &r, const OpDesc &, Val *a) {
    switch (r.below(7)) {
    case 0: a[0] = Val::f64(dbits(r.next())); break;
    case 1: a[0] = Val::f64((double)r.range(-20000, 20000) / 10000); break;
    case 2: a[0] = Val::f64((double)(int64_t)r.next() * 8.3e-17); break;      // to 765, beyond the limits of EXP, SINH and COSH
    case 3: {     // next to multiples of pi/2, the ends of domains, and whole numbers
      double x = r.pick({(double)r.range(-1000000, 1000000) * 1.5707963267948966, std::ldexp(1.5707963267948966, (int)r.below(900)), 1.0, 709.782712893384, 710.4758600739439, -745.1332191019412, -708.3964185322641, 22.0, 19.061547465398498, (double)gen_int(r, 64), std::exp((double)r.range(-740, 709))});
      x = dbits(bits(x) + (uint64_t)r.range(-3, 3));
      a[0] = Val::f64(r.one_in(3) ? -x : x);
      break;
    }
    case 4: a[0] = Val::f64(std::ldexp((double)(int64_t)r.next(), -(int)r.range(60, 100))); break;
    default: a[0] = Val::f64(gen_f64(r));
    }
  }, 200, true, 60);
  props["E12"] = family([](const OpDesc &d) { return (d.fn >= CONCAT) || (d.fn == ADD && d.res == STR); }, [](Rng &r, const OpDesc &d, Val *a) {
    size_t max = r.one_in(40) ? 70000 : r.one_in(3) ? 12 : 200;
    gen_args(r, d, a, max);
    if (r.one_in(3)) { a[0].s = gen_ws(r) + a[0].s + gen_ws(r); }
  }, 200, true, 60);
  props["E12.huge"] = p_e12_huge;
  props["E13"] = p_e13;
  props["E14"] = p_e14;
  props["E14.long"] = p_e14_long;
  return drive(argc, argv, props);
}
