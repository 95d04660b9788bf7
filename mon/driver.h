// Common part of the monitors: case loop, counters, violations, crash attribution.
//   monitor --prop ID --seed S --cases N [--first F] [--worker K --workers W] [--only I [--verbose]] --out FILE --status FILE
// Cases F .. F+N-1; case F+i runs on worker i mod W; everything in it derives from (S, ID, i).
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <set>
#include "gen.h"

namespace m {

struct Ctx {
  std::string prop;
  uint64_t seed = 1, cases = 0, first = 0, worker = 0, workers = 1, idx = 0;
  int64_t only = -1;
  bool verbose = false, thorough = false;
  std::string out, hashes;
  Rng r{1};
  uint64_t evaluations = 0;
  std::vector<uint64_t> table_;        // distinct hashes
  size_t used = 0;
  bool full = false;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  struct V { uint64_t idx; std::string key, detail; };
  std::vector<V> viol;
  uint64_t nviol = 0;
  char *status = nullptr;
  std::string where_;

  Ctx() : table_(1 << 19, 0) {}

  // One execution judged by the oracle; h identifies the input.
  void saw(uint64_t h, bool nontrivial = true) {
    ++evaluations;
    if (!nontrivial || full) return;
    if (!h) h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 45;
    while (table_[i] && table_[i] != h) i = (i + 1) & (table_.size() - 1);
    if (table_[i]) return;
    table_[i] = h;
    if (++used > table_.size() * 3 / 4) full = true;
  }
  void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
  bool want_sample() { return samples.size() < 3 || verbose; }
  void sample(const std::string &s) {
    if (verbose) { printf("  %s\n", s.c_str()); fflush(stdout); }
    if (samples.size() < 3) samples.push_back(s.substr(0, 700));
  }
  // Says what runs next (kept in the status file, so that a crash can be attributed)
  void at(const std::string &s) {
    if (verbose) { printf("RUN %s\n", s.c_str()); fflush(stdout); }
    if (status) { size_t n = std::min<size_t>(s.size(), 3000); memcpy(status + 16, s.data(), n); status[16 + n] = 0; }
  }
  void fail(const std::string &key, const std::string &detail) {
    ++nviol;
    if (verbose) { printf("FAILED %s: %s\n", key.c_str(), detail.c_str()); fflush(stdout); }
    if (viol.size() < 8) viol.push_back({idx, key, detail});
  }
};

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

typedef std::function<void(Ctx &)> CaseFn;

inline uint64_t name_hash(const std::string &s) { return fnv(s.data(), s.size()); }

inline int drive(int argc, char **argv, const std::map<std::string, CaseFn> &props) {
  Ctx c;
  std::string status_path;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") c.prop = nxt();
    else if (a == "--seed") c.seed = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--cases") c.cases = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--first") c.first = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--worker") c.worker = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--workers") c.workers = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--only") c.only = strtoll(nxt().c_str(), 0, 10);
    else if (a == "--verbose") c.verbose = true;
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--out") c.out = nxt();
    else if (a == "--hashes") c.hashes = nxt();
    else if (a == "--status") status_path = nxt();
  }
  auto it = props.find(c.prop);
  if (it == props.end()) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 2; }
  if (!status_path.empty()) {
    int fd = open(status_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) { perror("status"); return 2; }
    c.status = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (c.status == MAP_FAILED) { perror("mmap"); return 2; }
  }
  uint64_t ph = name_hash(c.prop.substr(0, c.prop.find('.')));
  uint64_t done = 0;
  auto one = [&](uint64_t i) {
    c.idx = i;
    c.r = Rng(c.seed, ph, i);
    if (c.status) memcpy(c.status, &i, 8);
    try {
      it->second(c);
    } catch (const std::exception &e) {
      c.fail("unexpected-exception", std::string("exception escaped where none is allowed: ") + e.what());
    } catch (...) {
      c.fail("unexpected-exception", "exception of unknown type escaped where none is allowed");
    }
    ++done;
  };
  if (c.only >= 0) one((uint64_t)c.only);
  else for (uint64_t i = c.first + c.worker; i < c.first + c.cases && c.nviol < 30; i += c.workers) one(i);

  if (!c.hashes.empty()) {
    FILE *f = fopen(c.hashes.c_str(), "wb");
    if (!f) { perror("hashes"); return 2; }
    for (auto h : c.table_) if (h) fwrite(&h, 8, 1, f);
    if (fclose(f)) return 2;
  }
  std::string j = "{\"cases\":" + std::to_string(done) + ",\"evaluations\":" + std::to_string(c.evaluations) +
                  ",\"distinct\":" + std::to_string(c.used) + ",\"capped\":" + (c.full ? "true" : "false") + ",\"counters\":{";
  bool first = true;
  for (auto &k : c.counters) { j += (first ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second); first = false; }
  j += "},\"samples\":[";
  first = true;
  for (auto &s : c.samples) { j += (first ? "" : ",") + jstr(s); first = false; }
  j += "],\"violations\":[";
  first = true;
  for (auto &v : c.viol) {
    j += std::string(first ? "" : ",") + "{\"idx\":" + std::to_string(v.idx) + ",\"key\":" + jstr(v.key) + ",\"detail\":" + jstr(v.detail.substr(0, 6000)) + "}";
    first = false;
  }
  j += "],\"nviol\":" + std::to_string(c.nviol) + "}\n";
  if (!c.out.empty()) {
    FILE *f = fopen(c.out.c_str(), "wb");
    if (!f) { perror("out"); return 2; }
    fwrite(j.data(), 1, j.size(), f);
    if (fclose(f)) return 2;
  } else if (!c.verbose) fputs(j.c_str(), stdout);
  if (c.status) { uint64_t fin = ~0ull; memcpy(c.status, &fin, 8); }
  return c.nviol ? 1 : 0;
}

}  // namespace m
