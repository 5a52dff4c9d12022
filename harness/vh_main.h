// main() of a harness; included once by each harness .cc.
#ifndef VERIF_VH_MAIN_H_
#define VERIF_VH_MAIN_H_
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <cstdlib>
#include "vh.h"
namespace vh {
inline std::string JsonStr(std::string_view s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline int Main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  std::string prop = a["--property"], out = a["--out"];
  auto it = Registry::M().find(prop);
  if (it == Registry::M().end()) { std::fprintf(stderr, "no property %s here\n", prop.c_str()); return 3; }
  uint64_t seed = num("--seed", 1), from = num("--from", 0), to = num("--to", 0), stride = num("--stride", 1);
  double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 1e9;  // only thorough runs set one
  bool thorough = num("--thorough", 0);
  bool verbose = num("--verbose", 0);
  volatile uint64_t* prog = nullptr;
  static uint64_t local[2];
  prog = local;
  if (a.count("--progress")) {
    int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 16) == 0) {
      void* p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) prog = (volatile uint64_t*)p;
    }
  }
  vshim::g_quiet_checks = true;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples, viol;
  uint64_t evals = 0, nontriv = 0, skipped = 0;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t ph = 0;
  for (char ch : prop) ph = ph * 131 + (unsigned char)ch;
  for (uint64_t i = from; i < to; i += stride) {
    if ((i & 15) == 0 || thorough) { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break; }
    prog[0] = i + 1;
    Ctx c;
    c.rng.s = Mix(Mix(seed * 0x9e3779b97f4a7c15ull + ph) ^ Mix(i + 0x7777));
    c.property = prop; c.seed = seed; c.idx = i; c.thorough = thorough;
    c.counters = &counters;
    c.want_sample = samples.size() < 3 || verbose;
    std::string key, msg;
    try {
      it->second(c);
    } catch (const Violation& v) { key = v.key; msg = v.what(); }
    catch (const Skip&) { ++skipped; continue; }
    catch (const vshim::CheckFailure& v) { key = "check-failure"; msg = std::string("unexpected CHECK failure: ") + v.what(); }
    catch (const std::exception& v) { key = "exception"; msg = std::string("unexpected exception: ") + v.what(); }
    ++evals;
    if (verbose) std::fprintf(stderr, "case %llu sig %llx nontrivial %d sample %s\n%s %s\n", (unsigned long long)i, (unsigned long long)c.sig, c.nontrivial, c.sample.c_str(), key.c_str(), msg.c_str());
    if (!key.empty()) {
      if (viol.size() < 200) viol.push_back("{\"idx\":" + std::to_string(i) + ",\"key\":" + JsonStr(key) + ",\"msg\":" + JsonStr(msg.substr(0, 3000)) + ",\"case\":" + JsonStr(c.sample.substr(0, 1500)) + "}");
      counters["violations"]++;
      continue;
    }
    if (c.nontrivial) { ++nontriv; if (sigs.size() < 400000) sigs.insert(c.sig); }
    if (c.nontrivial && !c.sample.empty() && samples.size() < 3) samples.push_back("{\"idx\":" + std::to_string(i) + ",\"case\":" + JsonStr(c.sample.substr(0, 1200)) + "}");
  }
  prog[1] = 1;
  std::string o = "{\"evaluations\":" + std::to_string(evals) + ",\"skipped\":" + std::to_string(skipped) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"counters\":{";
  bool first = true;
  for (auto& [k, v] : counters) { if (!first) o += ","; first = false; o += JsonStr(k) + ":" + std::to_string(v); }
  o += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) o += (i ? "," : "") + samples[i];
  o += "],\"violations\":[";
  for (size_t i = 0; i < viol.size(); ++i) o += (i ? "," : "") + viol[i];
  o += "],\"sigs\":[";
  first = true;
  for (uint64_t s : sigs) { if (!first) o += ","; first = false; o += std::to_string(s); }
  o += "]}";
  FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
  std::fwrite(o.data(), 1, o.size(), f);
  if (!out.empty()) std::fclose(f);
  return viol.empty() ? 0 : 1;
}
}  // namespace vh
int main(int argc, char** argv) { return vh::Main(argc, argv); }
#endif
