// E17: copies of runners.  Each runner in the game has a history of calls, and is compared with a runner on which
// the same calls are made that was never copied.
#pragma once
#include <type_traits>
#include "driver.h"
#include "pipes.h"
#include "real.h"
#include "rel/rel_runner.h"

namespace copies {
using namespace m;

struct Seen { uint64_t copies = 0, assigned = 0, moved = 0, self = 0, grown = 0, runs = 0, reads = 0, pipes = 0, refused = 0; };
struct Step { int k; size_t x; };      // 0: decode code x, 1: bind row x, 2: bind none, 3: run

template <class R> struct World {
  std::vector<Bytes> codes;
  std::vector<Row> rows;
  std::vector<std::unique_ptr<real::Tuple>> tuples;
  struct Slot { std::unique_ptr<R> rn{new R}; std::vector<Step> past; bool known = true; };
  Slot slots[4];
  std::string text, bad;
  Seen &seen;
  explicit World(Seen &s) : seen(s) {}

  void step(R &rn, const Step &s) const {
    switch (s.k) {
    case 0: try { rn.Decode(codes[s.x].data(), codes[s.x].size()); } catch (const std::exception &) {} break;
    case 1: rn.BindTuple(tuples[s.x].get()); break;
    case 2: rn.BindTuple(nullptr); break;
    default: try { rn.Run(); } catch (const std::exception &) {}
    }
  }
  static std::string look(const R &rn) {
    std::string s;
    try { s += "type " + std::to_string(rn.GetType()); } catch (const std::exception &) { s += "no type"; }
    try { s += ", result " + show(real::val(rn.Get())); } catch (const std::exception &) { s += ", no result"; }
    try {
      std::unique_ptr<real::Tuple> all(rn.GetAll());
      Row x = real::row(*all);
      s += ", all " + show(x) + " (" + std::to_string(hashv(1, x)) + ")";
    } catch (const std::exception &) { s += ", nothing"; }
    return s;
  }
  void act(Slot &s, const Step &st) {
    step(*s.rn, st);
    if (st.k == 0) s.known = true;
    s.past.push_back(st);
  }
  bool check(size_t i) {
    Slot &s = slots[i];
    if (!s.known) return true;
    R twin;
    for (auto &st : s.past) step(twin, st);
    std::string got = look(*s.rn), want = look(twin);
    ++seen.reads;
    if (got == want) return true;
    bad = "runner " + std::to_string(i) + " gives " + got + "\n a runner used the same way, but never copied, gives " + want + text;
    return false;
  }
};

template <class R> std::string expressions(Rng &r, Seen &seen, Ctx &c) {
  World<R> w(seen);
  std::vector<T> types = gen_types(r, 1 + r.below(5));
  for (auto &t : types) if (r.one_in(3)) t = STR;
  for (int i = 0; i < 3; ++i) { w.rows.push_back(gen_row(r, types, 6, r.one_in(3) ? 300 : 40)); w.tuples.emplace_back(real::new_tuple(w.rows.back())); }
  GenOpt o;
  o.types = &types;
  o.maxstr = r.pick<size_t>({20, 20, 200});
  auto say = [&](const std::string &s) {
    w.text += "\n " + s;
    if (w.text.size() > 6000) w.text = "..." + w.text.substr(w.text.size() - 4500);
    c.at(w.text.size() > 2800 ? w.text.substr(w.text.size() - 2800) : w.text);
  };
  auto name = [](size_t i) { return "runner " + std::to_string(i); };
  int steps = 12 + (int)r.below(40);
  for (int n = 0; n < steps; ++n) {
    size_t i = r.below(4), j = r.below(4);
    auto &a = w.slots[i];
    auto &b = w.slots[j];
    switch (r.below(12)) {
    case 0: case 1: case 2: {
      Prog p;
      for (int k = r.one_in(3) ? 1 + (int)r.below(4) : 1; k--;) { Prog x = gen_expr(r, ALL_T[r.below(6)], 1 + r.below(16), o); p.insert(p.end(), x.begin(), x.end()); }
      Bytes code = encode_padded(r, p);
      if (r.one_in(6)) code.push_back(0xFF);     // refused after most of it was decoded
      w.codes.push_back(code);
      say(name(i) + " decodes " + show(p) + (code.back() == 0xFF ? " and something undefined" : ""));
      w.act(a, {0, w.codes.size() - 1});
      break;
    }
    case 3: case 4: case 5: {
      if (!a.known) break;
      size_t x = r.below(w.rows.size());
      bool none = r.one_in(8);
      say(name(i) + (none ? " runs without a row" : " runs with row " + show(w.rows[x])));
      w.act(a, none ? Step{2, 0} : Step{1, x});
      w.act(a, {3, 0});
      ++seen.runs;
      break;
    }
    case 6: case 7:
      if constexpr (std::is_copy_constructible_v<R>) {
        if (i == j || !a.known) break;
        say(name(j) + " becomes a copy of " + name(i));
        b.rn.reset(new R(*a.rn));
        b.past = a.past;
        b.known = true;
        ++seen.copies;
      } else ++seen.refused;
      break;
    case 8:
      if constexpr (std::is_copy_assignable_v<R>) {
        if (!a.known) break;
        say(name(j) + " is assigned " + name(i));
        const R &from = *a.rn;
        *b.rn = from;
        if (i == j) ++seen.self;
        else b.past = a.past;
        b.known = true;
        ++seen.assigned;
      } else ++seen.refused;
      break;
    case 9:
      if constexpr (std::is_move_constructible_v<R> && std::is_move_assignable_v<R>) {
        if (i == j || !a.known) break;
        bool make = r.one_in(2);
        say(name(j) + (make ? " is made of the moved " : " is assigned the moved ") + name(i));
        if (make) b.rn.reset(new R(std::move(*a.rn))); else *b.rn = std::move(*a.rn);
        b.past = a.past;
        b.known = true;
        a.known = false;      // until it decodes again
        ++seen.moved;
      } else ++seen.refused;
      break;
    case 10:
      if constexpr (std::is_copy_constructible_v<R> && std::is_copy_assignable_v<R>) {
        if (!a.known) break;
        say(name(i) + " goes through a growing vector to " + name(j));
        std::vector<R> v;
        size_t k = 1 + r.below(6);
        for (size_t x = 0; x < k; ++x) v.push_back(*a.rn);
        if (r.one_in(2)) v.erase(v.begin(), v.begin() + (long)r.below(k));
        *b.rn = v.back();
        if (i != j) b.past = a.past;
        b.known = true;
        ++seen.grown;
      } else ++seen.refused;
      break;
    default:
      say(name(i) + " is released");
      a.rn.reset();
      for (size_t k = 0; k < 4; ++k) if (k != i && !w.check(k)) return w.bad;
      a.rn.reset(new R);
      a.past.clear();
      a.known = true;
    }
    for (size_t k = 0; k < 4; ++k) if (!w.check(k)) return w.bad;
  }
  return "";
}

// As the present pipelines cannot be copied this waits for others.
template <class P> std::string pipelines(Rng &r, Seen &seen, Ctx &c) {
  if constexpr (std::is_copy_constructible_v<P>) {
    std::vector<T> types = gen_types(r, 1 + r.below(4));
    PipeOpt po;
    Pipe p = gen_pipe(r, types, 1 + r.below(3), po);
    Bytes code = encode_padded(r, p);
    c.at("copies of the pipeline " + show(p));
    std::vector<Row> in[3];
    for (auto &x : in) for (size_t n = r.below(6); n--;) x.push_back(gen_row(r, types, 6, 20, 1, 3));
    auto put = [](P &q, const std::vector<Row> &rows, std::vector<Row> &out) {
      for (auto &x : rows) { std::unique_ptr<const real::Tuple> t(q.Put(real::new_tuple(x))); if (t) out.push_back(real::row(*t)); }
    };
    auto drain = [](P &q, std::vector<Row> &out) {
      for (;;) { std::unique_ptr<const real::Tuple> t(q.Get()); if (!t) break; out.push_back(real::row(*t)); }
    };
    std::vector<Row> got[2], want[2];
    {
      auto a = std::make_unique<P>();
      a->Decode(code.data(), code.size());
      put(*a, in[0], got[0]);
      got[1] = got[0];
      auto b = std::make_unique<P>(*a);
      if (r.one_in(2)) { put(*a, in[1], got[0]); put(*b, in[2], got[1]); drain(*a, got[0]); a.reset(); drain(*b, got[1]); }
      else { put(*a, in[1], got[0]); drain(*a, got[0]); a.reset(); put(*b, in[2], got[1]); drain(*b, got[1]); }
    }
    for (int k = 0; k < 2; ++k) {
      P q;
      q.Decode(code.data(), code.size());
      put(q, in[0], want[k]);
      put(q, in[1 + k], want[k]);
      drain(q, want[k]);
      std::string d = bag_diff(got[k], want[k]);
      if (!d.empty()) return std::string(k ? "the copy" : "the original") + " of " + show(p) + " gives other rows than a pipeline used the same way" + d;
    }
    ++seen.pipes;
  } else ++seen.refused;
  return "";
}

inline std::string one(Ctx &c, Seen &seen) {
  Rng &r = c.r;
  if (r.one_in(5)) return pipelines<dingodb::rel::RelRunner>(r, seen, c);
  return expressions<real::Runner>(r, seen, c);
}
inline void tell(Ctx &c, const Seen &s) {
  c.count("runners made as copies", s.copies);
  c.count("runners assigned", s.assigned);
  c.count("runners assigned to themselves", s.self);
  c.count("runners moved", s.moved);
  c.count("runners kept in growing vectors", s.grown);
  c.count("runs", s.runs);
  c.count("states compared with a runner never copied", s.reads);
  c.count("pipelines copied", s.pipes);
  c.count("copies the compiler refuses", s.refused);
}
}  // namespace copies
