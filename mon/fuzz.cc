// Coverage guided workload (libFuzzer) for D01 and E15: mutated bytes are decoded as expression and as
// pipeline under ASan + UBSan, and what is accepted runs over fixed rows, compared with the model.
#include "san_work.h"

extern "C" size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);

static Ctx &ctx() { static Ctx *c = new Ctx; return *c; }
static const std::vector<Row> &rows() {
  static const std::vector<Row> r = [] {
    std::vector<Row> rows;
    Rng rng(77);
    std::vector<T> types;
    for (int i = 0; i < 4; ++i) types.insert(types.end(), {I32, I64, BOOL, F32, F64, STR});
    for (int i = 0; i < 4; ++i) rows.push_back(gen_row(rng, types, i ? 5 : 0, 30, 2, 3));
    return rows;
  }();
  return r;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (!size) return 0;
  Ctx &c = ctx();
  Bytes b(data + 1, data + size);
  bool pipe = data[0] & 1;
  // FUZZ_PROP=E15 runs what is accepted, D01 only decodes
  static const bool run = [] { const char *e = getenv("FUZZ_PROP"); return e && !strcmp(e, "E15"); }();
  if (!run) decode_one(c, b, pipe, (data[0] >> 2) & 7);
  else if (pipe) run_pipe(c, b, rows());
  else run_expr(c, b, rows());
  if (c.nviol) {
    fprintf(stderr, "PROPERTY-FAILED %s: %s\n", c.viol[0].key.c_str(), c.viol[0].detail.c_str());
    abort();
  }
  return 0;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned seed) {
  Rng r(seed, 5);
  if (size > 1 && !r.one_in(3)) return LLVMFuzzerMutate(data, size, max);
  static const std::vector<T> types = [] { std::vector<T> t; for (int i = 0; i < 4; ++i) t.insert(t.end(), {I32, I64, BOOL, F32, F64, STR}); return t; }();
  Bytes b(data, data + size);
  if (b.empty()) b.push_back((uint8_t)r.below(4));
  bool pipe = b[0] & 1;
  Bytes add;
  if (pipe) add = encode_padded(r, gen_pipe(r, types, 1 + r.below(2), PipeOpt()), false);
  else if (r.one_in(2)) { GenOpt o; o.types = &types; add = encode(gen_expr(r, ALL_T[r.below(6)], 1 + r.below(10), o)); }
  else add = encode(soup(r, 1 + r.below(3), 24));
  size_t at = r.one_in(2) ? b.size() : 1 + r.below(b.size());
  b.insert(b.begin() + std::min(at, b.size()), add.begin(), add.end());
  if (b.size() > max) b.resize(max);
  memcpy(data, b.data(), b.size());
  return b.size();
}
