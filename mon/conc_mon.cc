// Monitor of S01: many threads with runners of their own, sharing code buffers, rows and strings.
// Expected results come from the reference model, computed beforehand; the order in which the threads'
// steps really happened is recorded through a relaxed counter (which orders nothing for ThreadSanitizer).
#include <atomic>
#include <pthread.h>
#include <thread>
#include <type_traits>
#include "driver.h"
#include <any>
#include <sstream>
#include "pipes.h"
#include "expr/utils.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;
using dingodb::rel::RelRunner;

struct Exec { bool err = false; St st = OK; Row stack; };
struct ExprJob { Prog p; Bytes code; std::vector<int> rows; std::vector<Exec> exp; };
struct PipeJob { Pipe p; Bytes code; std::vector<int> rows; std::vector<int> kind; std::vector<Row> out; std::vector<Row> drained; };
// Decoded and run for what it does to others: refused code, operators that fail
struct HostileJob { bool pipe; Bytes code; bool refused = false; std::string outcome; };

struct Episode;
struct Worker {
  Episode *e;
  int id;
  uint64_t seed;
  std::string failure;
  int bad_expr = -1, bad_row = -1, bad_pipe = -1;
  std::vector<uint64_t> tickets;
  uint64_t checks = 0;
  std::vector<std::pair<int, std::string>> outcomes;
};
struct Episode {
  std::vector<Row> rows;
  std::vector<real::Tuple> tuples;       // shared by all
  std::vector<ExprJob> ejobs;
  std::vector<PipeJob> pjobs;
  std::vector<HostileJob> hjobs;
  std::atomic<uint64_t> ticket{0};
  pthread_barrier_t bar;
  int threads, mode, steps;
  bool expected_outcome = false;
  // runners that move from thread to thread at the barriers
  std::vector<std::unique_ptr<real::Runner>> moving;
  std::vector<int> moving_job;
  // runners of which each step is done by another thread
  std::vector<std::unique_ptr<real::Runner>> relay;
  std::vector<char> relay_err;
  std::vector<std::unique_ptr<RelRunner>> prelay;
  std::vector<std::vector<std::unique_ptr<real::Runner>>> copies;   // of the moving ones, [original][thread]
  std::vector<std::vector<real::Operand>> results;  // kept by one thread, read by another after the barrier
  std::vector<std::vector<Val>> results_exp;
};

static std::string job_text(const ExprJob &j, const Row *row) { return show(j.p) + "\n code " + hex(j.code) + (row ? "\n tuple " + show(*row) : ""); }

template <typename R>
static std::unique_ptr<R> clone(const R &x) {
  if constexpr (std::is_copy_constructible_v<R>) return std::make_unique<R>(x);
  else return nullptr;
}

static bool run_expr(Worker &w, real::Runner &rn, const ExprJob &j, int k, std::vector<real::Operand> *keep, std::vector<Val> *keep_exp) {
  Episode &e = *w.e;
  const Exec &x = j.exp[k];
  rn.BindTuple(&e.tuples[j.rows[k]]);
  Row got;
  std::string what;
  bool err = false;
  real::Operand last;
  try {
    rn.Run();
    if (x.st == OK && !x.stack.empty()) {
      last = rn.Get();
      real::Tuple *all = x.stack.size() > 1 ? rn.GetAll() : nullptr;
      if (all) { got = real::row(*all, &x.stack); delete all; }
      else got = {real::val(last, x.stack.back().t)};
    }
  } catch (const std::exception &ex) {
    err = true;
    what = ex.what();
  }
  w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
  if (x.st == UNSPEC) return true;
  ++w.checks;
  w.bad_expr = (int)(&j - e.ejobs.data());
  w.bad_row = k;
  if (err != (x.st == ERR)) { w.failure = job_text(j, &e.rows[j.rows[k]]) + (err ? "\n raised " + what : std::string("\n an error was required")); return false; }
  if (x.st == OK && !same(got, x.stack)) { w.failure = job_text(j, &e.rows[j.rows[k]]) + "\n gave " + show(got) + ", expected " + show(x.stack); return false; }
  w.bad_expr = -1;
  if (keep && x.st == OK && !x.stack.empty() && keep->size() < 64) { keep->push_back(last); keep_exp->push_back(x.stack.back()); }
  return true;
}

static bool run_pipe(Worker &w, RelRunner &rr, const PipeJob &j, bool decode) {
  Episode &e = *w.e;
  w.bad_pipe = (int)(&j - e.pjobs.data());
  try {
    if (decode) rr.Decode(j.code.data(), j.code.size());
    for (size_t k = 0; k < j.rows.size(); ++k) {
      std::unique_ptr<const real::Tuple> t(rr.Put(new real::Tuple(e.tuples[j.rows[k]])));
      w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
      ++w.checks;
      if ((t != nullptr) != (j.kind[k] == 1)) { w.failure = show(j.p) + "\n row " + show(e.rows[j.rows[k]]) + (t ? " gave a row, expected none" : " gave nothing, expected a row"); return false; }
      if (t) { Row got = real::row(*t, &j.out[k]); if (!same(got, j.out[k])) { w.failure = show(j.p) + "\n row " + show(e.rows[j.rows[k]]) + "\n gave " + show(got) + ", expected " + show(j.out[k]); return false; } }
    }
    std::vector<Row> got;
    for (size_t n = 0; n < j.drained.size() + 100; ++n) {
      std::unique_ptr<const real::Tuple> t(rr.Get());
      if (!t) break;
      got.push_back(real::row(*t, n < j.drained.size() ? &j.drained[n] : nullptr));
      w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
    }
    std::string d = bag_diff(got, j.drained);
    ++w.checks;
    if (!d.empty()) { w.failure = show(j.p) + "\n drained " + std::to_string(got.size()) + " rows, expected " + std::to_string(j.drained.size()) + d; return false; }
  } catch (const std::exception &ex) {
    w.failure = show(j.p) + "\n raised " + ex.what();
    return false;
  }
  w.bad_pipe = -1;
  return true;
}

static std::string text(const real::Operand &v) { std::ostringstream o; o << v; return o.str(); }

// The outcome of hostile code as a text: error or results (both say what a thread alone observes)
static std::string hostile(const HostileJob &j, const real::Tuple &row) {
  std::string s;
  try {
    if (j.pipe) {
      RelRunner rr;
      s += std::to_string(rr.Decode(j.code.data(), j.code.size()) - j.code.data());
      for (int k = 0; k < 3; ++k) {
        try { std::unique_ptr<const real::Tuple> t(rr.Put(new real::Tuple(row))); s += t ? " row" : " none"; if (t) for (auto &v : *t) s += "," + text(v); }
        catch (const std::exception &e) { s += std::string(" error ") + e.what(); break; }
      }
    } else {
      real::Runner rn;
      s += std::to_string(rn.Decode(j.code.data(), j.code.size()) - j.code.data());
      rn.BindTuple(&row);
      rn.Run();
      std::unique_ptr<real::Tuple> all(rn.GetAll());
      for (auto &v : *all) s += "," + text(v);
      s += " type " + std::to_string(rn.GetType());
    }
  } catch (const std::exception &e) {
    s += std::string(" error ") + e.what();
  }
  return s;
}

// The helpers around values and rows, from many threads
template <typename X> static bool round_trip(const real::Operand &o) {
  namespace ad = dingodb::expr::any_optional_data_adaptor;
  std::any a = ad::FromOperand<X>(o);
  return ad::ToOperand<X>(a) == o;
}
static bool helpers(Worker &w, const real::Tuple &t, const Row &row, const Bytes &code) {
  namespace ex = dingodb::expr;
  for (size_t i = 0; i < t.size() && i < 12; ++i) {
    bool good = true;
    switch (row[i].t) {
    case I32: good = round_trip<int32_t>(t[i]); break;
    case I64: good = round_trip<int64_t>(t[i]); break;
    case BOOL: good = round_trip<bool>(t[i]); break;
    case F32: good = round_trip<float>(t[i]); break;
    case F64: good = round_trip<double>(t[i]); break;
    case STR: good = round_trip<real::String::ValueType>(t[i]); break;
    default: good = round_trip<int32_t>(t[i]);
    }
    if (!good) { w.failure = "the exchange form of " + show(row[i]) + " does not convert back"; return false; }
  }
  std::string h = ex::HexOfBytes(code.data(), code.size()), want;
  for (uint8_t x : code) { want += "0123456789ABCDEF"[x >> 4]; want += "0123456789ABCDEF"[x & 15]; }
  if (h != want) { w.failure = "HexOfBytes of " + hex(code) + " gave " + h; return false; }
  std::vector<int> idx;
  for (size_t i = t.size(); i--;) idx.push_back((int)i);
  std::unique_ptr<real::Tuple> back(ex::MapTuple(t, idx.data(), idx.size()));
  std::unique_ptr<real::Tuple> both(ex::ConcatTuple(t, *back));
  Row exp(row);
  exp.insert(exp.end(), row.rbegin(), row.rend());
  if (!same(real::row(*both, &exp), exp)) { w.failure = "MapTuple and ConcatTuple of " + show(row) + " gave " + show(real::row(*both, &exp)); return false; }
  real::Tuple copy(t);
  if (!(copy == t) || std::hash<real::Tuple>()(copy) != std::hash<real::Tuple>()(t)) { w.failure = "a copy of the row " + show(row) + " differs from it"; return false; }
  ++w.checks;
  w.tickets.push_back(w.e->ticket.fetch_add(1, std::memory_order_relaxed));
  return true;
}
static bool run_hostile(Worker &w, int k) {
  Episode &e = *w.e;
  const HostileJob &j = e.hjobs[k];
  std::string got = hostile(j, e.tuples[k % e.tuples.size()]);
  w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
  ++w.checks;
  if (e.expected_outcome) {   // known only where it was determined alone beforehand
    if (got != j.outcome) { w.failure = std::string(j.pipe ? "pipeline " : "expression ") + hex(j.code) + "\n ended with \"" + got.substr(0, 600) + "\", alone with \"" + j.outcome.substr(0, 600) + "\""; return false; }
  } else w.outcomes.push_back({k, got});
  return true;
}

static void body(Worker &w) {
  Episode &e = *w.e;
  Rng r(w.seed);
  std::vector<real::Runner> mine(3);
  std::vector<int> loaded(3, -1);
  std::vector<RelRunner> pipes(2);
  std::vector<int> ploaded(2, -1);
  auto &keep = e.results[w.id];
  auto &keep_exp = e.results_exp[w.id];
  pthread_barrier_wait(&e.bar);
  try {
    if (e.mode == 0) {
      // everybody does the same things in the same order, a barrier before each
      for (size_t q = 0; q < e.ejobs.size(); ++q) {
        if (q < 12) pthread_barrier_wait(&e.bar);
        if (!w.failure.empty()) continue;
        auto &j = e.ejobs[q];
        mine[0].Decode(j.code.data(), j.code.size());
        for (size_t k = 0; k < j.rows.size(); ++k) if (!run_expr(w, mine[0], j, (int)k, &keep, &keep_exp)) break;
      }
      for (size_t q = 0; q < e.pjobs.size(); ++q) {
        pthread_barrier_wait(&e.bar);
        if (w.failure.empty()) run_pipe(w, pipes[0], e.pjobs[q], true);
      }
      pthread_barrier_wait(&e.bar);
      for (size_t q = 0; q < e.hjobs.size() && w.failure.empty(); ++q) run_hostile(w, (int)q);
      for (size_t q = 0; q < e.tuples.size() && w.failure.empty(); ++q) helpers(w, e.tuples[q], e.rows[q], e.ejobs[0].code);
    } else {
      for (int s = 0; s < e.steps && w.failure.empty(); ++s) {
        if (!e.pjobs.empty() && r.one_in(6)) {
          int q = (int)r.below(pipes.size()), j = (int)r.below(e.pjobs.size());
          bool dec = ploaded[q] != j || r.one_in(2);
          ploaded[q] = j;
          run_pipe(w, pipes[q], e.pjobs[j], dec);
        } else if (!e.hjobs.empty() && r.one_in(8)) {
          run_hostile(w, (int)r.below(e.hjobs.size()));
        } else if (r.one_in(12)) {
          size_t q = r.below(e.tuples.size());
          helpers(w, e.tuples[q], e.rows[q], e.ejobs[r.below(e.ejobs.size())].code);
        } else if (!e.ejobs.empty()) {
          // several runners in turn: decode some, then run any
          int q = (int)r.below(mine.size());
          if (loaded[q] < 0 || r.one_in(3)) {
            loaded[q] = (int)r.below(e.ejobs.size());
            auto &j = e.ejobs[loaded[q]];
            mine[q].Decode(j.code.data(), j.code.size());
            w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
            q = (int)r.below(mine.size());
            if (loaded[q] < 0) continue;
          }
          auto &j = e.ejobs[loaded[q]];
          run_expr(w, mine[q], j, (int)r.below(j.rows.size()), &keep, &keep_exp);
        }
      }
    }
    // runners change hands
    for (int round = 0; round < 2; ++round) {
      pthread_barrier_wait(&e.bar);
      if (!w.failure.empty()) continue;
      int k = (w.id + round) % e.threads;
      auto &j = e.ejobs[e.moving_job[k]];
      if (round == 0 && r.one_in(2)) e.moving[k]->Decode(j.code.data(), j.code.size());
      for (size_t x = 0; x < j.rows.size(); ++x) if (!run_expr(w, *e.moving[k], j, (int)x, nullptr, nullptr)) break;
    }
    // copies of one runner in all threads, while it decodes something else, or is gone
    pthread_barrier_wait(&e.bar);
    for (auto &x : e.copies[w.id]) x = clone(*e.moving[w.id]);
    pthread_barrier_wait(&e.bar);
    for (int d = 0; d < e.threads && w.failure.empty(); ++d) {
      int k = (w.id + d) % e.threads;
      auto &mine = e.copies[k][w.id];
      if (!mine) break;
      auto &j = e.ejobs[e.moving_job[k]];
      for (size_t x = 0; x < j.rows.size(); ++x) if (!run_expr(w, *mine, j, (int)x, nullptr, nullptr)) break;
      w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
      if (d == 0) { int n = (int)r.below(e.ejobs.size()); if (r.one_in(2)) e.moving[k]->Decode(e.ejobs[n].code.data(), e.ejobs[n].code.size()); else e.moving[k].reset(); }
      switch (r.below(3)) {
      case 0: mine.reset(); break;
      case 1: { int n = (int)r.below(e.ejobs.size()); auto &o = e.ejobs[n]; mine->Decode(o.code.data(), o.code.size()); run_expr(w, *mine, o, (int)r.below(o.rows.size()), nullptr, nullptr); break; }
      default: { auto more = clone(*mine); mine.reset(); run_expr(w, *more, j, (int)r.below(j.rows.size()), nullptr, nullptr); }
      }
    }
    // each step of an evaluation in another thread: decode, bind, run, ask
    for (int round = 0; round < 5; ++round) {
      pthread_barrier_wait(&e.bar);
      if (!w.failure.empty()) continue;
      int k = (w.id + round) % e.threads;
      auto &rn = *e.relay[k];
      auto &j = e.ejobs[e.moving_job[k]];
      const Exec &x = j.exp[0];
      switch (round) {
      case 0: rn.Decode(j.code.data(), j.code.size()); break;
      case 1: rn.BindTuple(&e.tuples[j.rows[0]]); break;
      case 2: e.relay_err[k] = 0; try { rn.Run(); } catch (const std::exception &ex) { e.relay_err[k] = 1; } break;
      default: {
        if (x.st == UNSPEC) break;
        ++w.checks;
        w.bad_expr = e.moving_job[k];
        w.bad_row = 0;
        if (e.relay_err[k] != (x.st == ERR)) { w.failure = job_text(j, &e.rows[j.rows[0]]) + (e.relay_err[k] ? "\n raised an error" : "\n an error was required"); break; }
        if (x.st == OK) {
          std::unique_ptr<real::Tuple> all(rn.GetAll());
          Row got = real::row(*all, &x.stack);
          if (!same(got, x.stack)) { w.failure = job_text(j, &e.rows[j.rows[0]]) + "\n (decoded, bound, run and asked by different threads) gave " + show(got) + ", expected " + show(x.stack); break; }
        }
        w.bad_expr = -1;
      }
      }
      w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
    }
    // the same with pipelines: decode, put some, put the rest, drain
    for (int round = 0; round < 4; ++round) {
      pthread_barrier_wait(&e.bar);
      if (!w.failure.empty() || e.pjobs.empty()) continue;
      int k = (w.id + round) % e.threads;
      auto &rr = *e.prelay[k];
      auto &j = e.pjobs[k % e.pjobs.size()];
      w.bad_pipe = k % (int)e.pjobs.size();
      if (round == 0) rr.Decode(j.code.data(), j.code.size());
      else if (round < 3) {
        size_t half = j.rows.size() / 2;
        for (size_t q = round == 1 ? 0 : half; q < (round == 1 ? half : j.rows.size()) && w.failure.empty(); ++q) {
          std::unique_ptr<const real::Tuple> t(rr.Put(new real::Tuple(e.tuples[j.rows[q]])));
          ++w.checks;
          if ((t != nullptr) != (j.kind[q] == 1) || (t && !same(real::row(*t, &j.out[q]), j.out[q]))) w.failure = show(j.p) + "\n (decoded, put and drained by different threads) row " + show(e.rows[j.rows[q]]) + " gave " + (t ? show(real::row(*t, &j.out[q])) : "nothing");
        }
      } else {
        std::vector<Row> got;
        for (size_t n = 0; n < j.drained.size() + 100; ++n) {
          std::unique_ptr<const real::Tuple> t(rr.Get());
          if (!t) break;
          got.push_back(real::row(*t, n < j.drained.size() ? &j.drained[n] : nullptr));
        }
        ++w.checks;
        std::string d = bag_diff(got, j.drained);
        if (!d.empty()) w.failure = show(j.p) + "\n (decoded, put and drained by different threads) drained " + std::to_string(got.size()) + " rows, expected " + std::to_string(j.drained.size()) + d;
      }
      if (w.failure.empty()) w.bad_pipe = -1;
      w.tickets.push_back(e.ticket.fetch_add(1, std::memory_order_relaxed));
    }
    // results of another thread are read (and its strings released) while others read them too
    pthread_barrier_wait(&e.bar);
    std::hash<real::Operand> ho;
    for (int d = 1; d <= 2 && w.failure.empty(); ++d) {
      int k = (w.id + d) % e.threads;
      for (size_t i = 0; i < e.results[k].size() && w.failure.empty(); ++i) {
        real::Operand copy(e.results[k][i]);
        Val v = real::val(copy, e.results_exp[k][i].t);
        ++w.checks;
        if (!same(v, e.results_exp[k][i])) w.failure = "a result kept by thread " + std::to_string(k) + " reads as " + show(v) + ", expected " + show(e.results_exp[k][i]);
        if (!isnan(v) && (!(copy == e.results[k][i]) || ho(copy) != ho(e.results[k][i]))) w.failure = "a copy of the result " + show(v) + " differs from it";
      }
    }
  } catch (const std::exception &ex) {
    if (w.failure.empty()) w.failure = std::string("raised ") + ex.what();
    std::terminate();   // others wait at a barrier
  }
}

static void p_s01(Ctx &c) {
  Rng &r = c.r;
  std::vector<T> types = gen_types(r, 6);
  for (T t : ALL_T) types.push_back(t);
  Episode e;
  e.threads = 2 + (int)r.below(7);
  e.mode = (int)r.below(3);
  e.steps = 20 + (int)r.below(60);
  size_t nrows = 1 + r.below(6);
  std::vector<std::shared_ptr<std::string>> pool;
  for (size_t i = 0; i < nrows; ++i) {
    e.rows.push_back(gen_row(r, types, r.one_in(3) ? 4 : 0, 60, 1, 20));
    for (auto &v : e.rows.back()) if (isnan(v)) v = gen_small(r, v.t, 5);
    e.tuples.push_back(real::tuple(e.rows.back()));
  }
  GenOpt safe, wild;
  safe.types = wild.types = &types;
  safe.allow = safe_op;
  static OpFilter fs = [] { GenOpt o; o.allow = safe_op; return OpFilter(o); }();
  static OpFilter fw = [] { GenOpt o; return OpFilter(o); }();
  size_t ne = 2 + r.below(8);
  auto add = [&](Prog p) {
    ExprJob j;
    j.p = std::move(p);
    j.code = encode_padded(r, j.p);
    for (size_t i = 0; i < nrows; ++i) {
      Run x = eval(j.p, &e.rows[i]);
      j.rows.push_back((int)i);
      Exec q;
      q.st = x.st;
      if (x.st == OK) q.stack = x.stack;
      j.exp.push_back(q);
    }
    e.ejobs.push_back(std::move(j));
  };
  for (size_t i = 0; i < ne; ++i) {
    Prog p;
    int n = r.one_in(4) ? 1 + (int)r.below(4) : 1;
    bool w = r.one_in(3);
    for (int k = 0; k < n; ++k) gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, r.one_in(10) ? 300 : 25), w ? wild : safe, w ? fw : fs, p);
    add(p);
  }
  // every operator in turn
  const size_t nops = table().ops.size();
  for (size_t i = 0; i < 6; ++i) {
    size_t op = (c.idx * 6 + i) % nops;
    Prog p;
    for (int k = 0; k < table().ops[op].arity; ++k) gen_leaf(r, table().ops[op].arg[k], safe, p);
    p.push_back(o_((int)op));
    add(p);
    c.count(std::string("operator ") + FN_NAMES[table().ops[op].fn]);
  }
  size_t np = r.below(4);
  for (size_t i = 0; i < np; ++i) {
    PipeOpt po;
    PipeJob j;
    j.p = gen_pipe(r, types, 1 + r.below(4), po);
    j.code = encode_padded(r, j.p);
    PipeModel pm(j.p);
    bool open = false;
    size_t n = 1 + r.below(25);
    for (size_t k = 0; k < n; ++k) {
      int row = (int)r.below(nrows);
      auto out = pm.put(e.rows[row]);
      if (pm.status != OK) { open = true; break; }
      j.rows.push_back(row);
      j.kind.push_back(out.empty() ? 0 : 1);
      j.out.push_back(out.empty() ? Row() : out[0]);
    }
    if (!open) { j.drained = pm.drain(); open = pm.status != OK; }
    if (open) { c.count("pipelines left out (result left open)"); continue; }
    e.pjobs.push_back(std::move(j));
  }
  for (size_t i = r.below(7); i--;) {
    HostileJob j;
    j.pipe = r.one_in(2);
    if (j.pipe) {
      PipeOpt po;
      po.wild = true;
      j.code = encode_padded(r, gen_pipe(r, types, 1 + r.below(3), po), false);
    } else {
      Prog p;
      gen_expr(r, ALL_T[r.below(6)], 1 + heavy(r, 20), wild, fw, p);
      if (r.one_in(3)) p.push_back(o_((int)r.below(nops)));
      j.code = encode_padded(r, p);
    }
    if (r.one_in(2)) {   // refused
      Bytes bad = r.pick<Bytes>({{0x75}, {0xE0, 0x00}, {0x17, 0x05, 0x41}, {0x83}, {0x83, 0x06}, {0x14, 0x00}, {0x73, 0x62}, {0x74, 0x02, 0x10}, {0x74, 0x7F}});
      j.code.insert(j.code.end(), bad.begin(), bad.end());
    } else {             // fails: checked conversion, no operands, wrong type
      if (j.pipe) j.code = {0x71};
      Bytes bad = r.pick<Bytes>({{0x12, 0x81, 0x80, 0x80, 0x80, 0x40, 0xFC, 0x12}, {0x83, 0x01}, {0x17, 0x02, 0x41, 0x42, 0x82, 0x01}, {0x17, 0x0A, '9', '9', '9', '9', '9', '9', '9', '9', '9', '9', 0xF0, 0x17}, {0x21, 0x80, 0x80, 0x80, 0x80, 0x08, 0xB4, 0x01}});
      j.code.insert(j.code.end(), bad.begin(), bad.end());
      if (j.pipe) j.code.push_back(0x00);
    }
    e.hjobs.push_back(j);
  }
  c.count("refused or failing codes", e.hjobs.size());
  e.results.resize(e.threads);
  e.results_exp.resize(e.threads);
  std::string txt = std::to_string(e.threads) + " threads, mode " + std::to_string(e.mode) + ", " + std::to_string(nrows) + " shared rows";
  for (auto &j : e.ejobs) txt += "\n " + show(j.p);
  for (auto &j : e.pjobs) txt += "\n " + show(j.p);
  c.at(txt);
  for (int i = 0; i < e.threads; ++i) {
    e.moving.emplace_back(new real::Runner());
    e.relay.emplace_back(new real::Runner());
    e.prelay.emplace_back(new RelRunner());
    e.relay_err.push_back(0);
    e.copies.emplace_back(e.threads);
    e.moving_job.push_back((int)r.below(e.ejobs.size()));
    // the very first case leaves even the first decoding to the threads
  }
  std::vector<Worker> ws(e.threads);
  for (int i = 0; i < e.threads; ++i) { ws[i].e = &e; ws[i].id = i; ws[i].seed = r.next(); }
  static bool started = false;       // the first case of a process leaves every first use to the threads
  bool pre = started;
  started = true;
  e.expected_outcome = pre && r.one_in(2);
  if (e.expected_outcome) for (size_t k = 0; k < e.hjobs.size(); ++k) e.hjobs[k].outcome = hostile(e.hjobs[k], e.tuples[k % e.tuples.size()]);
  if (pre) for (int i = 0; i < e.threads; ++i) e.moving[i]->Decode(e.ejobs[e.moving_job[i]].code.data(), e.ejobs[e.moving_job[i]].code.size());
  pthread_barrier_init(&e.bar, nullptr, e.threads);
  {
    std::vector<std::thread> th;
    if (!pre) {
      // each thread decodes its own moving runner inside
      for (int i = 0; i < e.threads; ++i)
        th.emplace_back([&, i] {
          pthread_barrier_wait(&e.bar);
          e.moving[i]->Decode(e.ejobs[e.moving_job[i]].code.data(), e.ejobs[e.moving_job[i]].code.size());
          body(ws[i]);
        });
    } else
      for (int i = 0; i < e.threads; ++i) th.emplace_back([&, i] { body(ws[i]); });
    for (auto &t : th) t.join();
  }
  pthread_barrier_destroy(&e.bar);
  // the order that really happened
  std::vector<std::pair<uint64_t, int>> order;
  for (auto &w : ws) { for (auto t : w.tickets) order.push_back({t, w.id}); c.count("checked results", w.checks); }
  std::sort(order.begin(), order.end());
  uint64_t h = 0xcbf29ce484222325ull, switches = 0;
  for (size_t i = 0; i < order.size(); ++i) {
    h = (h ^ (uint64_t)order[i].second) * 0x100000001b3ull;
    if (i && order[i].second != order[i - 1].second) ++switches;
  }
  c.saw(h ^ (c.idx * 0x9E3779B97F4A7C15ull), switches > (uint64_t)e.threads);
  c.count("recorded steps", order.size());
  c.count("switches between threads", switches);
  c.count("threads", e.threads);
  // what a single thread gets wrong as well is not charged to concurrency
  for (auto &w : ws) {
    if (w.failure.empty()) continue;
    bool alone = false;
    if (w.bad_expr >= 0) alone = real::fresh_differs(e.ejobs[w.bad_expr].p, &e.rows[e.ejobs[w.bad_expr].rows[w.bad_row]]);
    else if (w.bad_pipe >= 0) { Worker solo; solo.e = &e; solo.id = 0; RelRunner rr; alone = !run_pipe(solo, rr, e.pjobs[w.bad_pipe], true); }
    if (alone) { c.count("deviations of a single thread (not charged here)"); w.failure.clear(); }
  }
  for (auto &w : ws) if (!w.failure.empty()) { c.fail("result", "thread " + std::to_string(w.id) + " of " + std::to_string(e.threads) + ": " + w.failure); return; }
  if (!e.expected_outcome) {
    for (size_t k = 0; k < e.hjobs.size(); ++k) e.hjobs[k].outcome = hostile(e.hjobs[k], e.tuples[k % e.tuples.size()]);
    for (auto &w : ws)
      for (auto &o : w.outcomes)
        if (o.second != e.hjobs[o.first].outcome) { c.fail("outcome", "thread " + std::to_string(w.id) + " of " + std::to_string(e.threads) + ": " + (e.hjobs[o.first].pipe ? "pipeline " : "expression ") + hex(e.hjobs[o.first].code) + "\n ended with \"" + o.second.substr(0, 600) + "\", alone with \"" + e.hjobs[o.first].outcome.substr(0, 600) + "\""); return; }
  }
  // the shared rows are what they were
  for (size_t i = 0; i < nrows; ++i) if (!same(real::row(e.tuples[i], &e.rows[i]), e.rows[i])) { c.fail("shared-row", "a shared row was changed to " + show(real::row(e.tuples[i], &e.rows[i])) + " from " + show(e.rows[i])); return; }
  if (c.want_sample()) c.sample(std::to_string(e.threads) + " threads, " + std::to_string(e.ejobs.size()) + " expressions, " + std::to_string(e.pjobs.size()) + " pipelines, " + std::to_string(order.size()) + " steps, " + std::to_string(switches) + " switches");
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["S01"] = p_s01;
  return drive(argc, argv, props);
}
