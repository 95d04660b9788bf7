// Codes of more than 2^31 bytes.  D01 (undefined behaviour, under UBSan), D04 (long texts).
#include "driver.h"
#include "model.h"
#include "real.h"
#include "rel/rel_runner.h"

using namespace m;

static void varint(Bytes &b, uint64_t v) {
  for (; v >= 128; v >>= 7) b.push_back((uint8_t)(v | 128));
  b.push_back((uint8_t)v);
}

// A text of more than 2^31 (2^32) bytes between other constants.
static void p_d04(Ctx &c) {
  Rng &r = c.r;
  const uint64_t n = (c.idx % 2 ? 1ull << 32 : 1ull << 31) + r.below(3) * r.below(3000);
  Bytes b;
  b.reserve(n + 40);
  b.push_back(0x11); b.push_back(0x05);
  b.push_back(0x17); varint(b, n);
  const size_t at = b.size();
  b.resize(at + n);
  for (size_t i = 0; i < n; i += 509) b[at + i] = (uint8_t)(i >> 9 ^ i >> 20);
  b[at + n - 1] = 0xA7;
  b.push_back(0x11); b.push_back(0x06);
  const std::string what = "INT32:5, a text of " + std::to_string(n) + " bytes, INT32:6";
  c.at(what);
  c.saw(n);
  try {
    real::Runner rn;
    const uint8_t *e = rn.Decode(b.data(), b.size());
    if (e != b.data() + b.size()) { c.fail("huge", what + "\n decoding ended at " + std::to_string(e - b.data()) + " of " + std::to_string(b.size())); return; }
    rn.Run();
    std::unique_ptr<real::Tuple> t(rn.GetAll());
    if (t->size() != 3) { c.fail("huge", what + "\n gave " + std::to_string(t->size()) + " results"); return; }
    auto s = (*t)[1].GetValue<real::String>().GetPtr();
    if ((*t)[0].GetValue<int32_t>() != 5 || (*t)[2].GetValue<int32_t>() != 6) c.fail("huge", what + "\n gave other numbers");
    if (s->size() != n) { c.fail("huge", what + "\n gave " + std::to_string(s->size()) + " bytes"); return; }
    if (memcmp(s->data(), b.data() + at, n)) c.fail("huge", what + "\n gave other bytes");
  } catch (const std::exception &e) {
    c.fail("huge", what + "\n raised " + e.what());
  }
  c.counters["longest text"] = std::max(c.counters["longest text"], n);
}

// Array of more than 2^31 group columns.
static void p_d01(Ctx &c) {
  Rng &r = c.r;
  const uint64_t n = (1ull << 31) + r.below(100);
  Bytes b;
  b.reserve(n + 40);
  b.push_back(0x73); b.push_back(0x61); varint(b, n);
  b.resize(b.size() + n, 0);
  b.push_back(0x01); b.push_back(0x10);
  const std::string what = "grouping by " + std::to_string(n) + " columns";
  c.at(what);
  c.saw(n);
  try {
    dingodb::rel::RelRunner rr;
    const uint8_t *e = rr.Decode(b.data(), b.size());
    if (e < b.data() || e > b.data() + b.size()) c.fail("huge", what + "\n decoding ended outside the code");
    c.count("huge codes accepted");
  } catch (const std::exception &e) {
    c.count("huge codes refused");
  }
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["D01.huge"] = p_d01;
  props["D04.huge"] = p_d04;
  return drive(argc, argv, props);
}
