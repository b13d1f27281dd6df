#include "common.h"
#include <fcntl.h>
#include <unistd.h>
Ctx G;
std::map<std::string, PropFn>& registry() { static auto* m = new std::map<std::string, PropFn>(); return *m; }
Reg::Reg(const char* name, PropFn f) { registry()[name] = f; }
static uint64_t strhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
int main(int argc, char** argv) {
  long start = 0, stride = 1, cases = 1, only = -1; std::string out = "/dev/stderr";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") G.prop = v; else if (k == "--seed") G.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--start") start = atol(v.c_str()); else if (k == "--stride") stride = atol(v.c_str());
    else if (k == "--cases") cases = atol(v.c_str()); else if (k == "--only") only = atol(v.c_str());
    else if (k == "--out") out = v; else if (k == "--variant") G.variant = v; else if (k == "--tier") G.tier = atoi(v.c_str());
    else if (k == "--verbose") G.verbose = atoi(v.c_str());
  }
  G.out = fopen(out.c_str(), "w"); if (!G.out) { perror("out"); return 3; }
  if (!registry().count(G.prop)) { fprintf(G.out, "unknown property\n"); return 3; }
  PropFn f = registry()[G.prop];
  uint64_t ph = strhash(G.prop);
  auto run = [&](long c) {
    G.cas = c; G.note.clear(); G.rng = Rng(hash3(G.seed, ph, (uint64_t)c));
    fprintf(G.out, "B %ld\n", c); fflush(G.out);
    f(G.rng);
    if (G.samples.size() < 2 && !G.note.empty()) G.samples.push_back(G.note);
    fprintf(G.out, "E %ld\n", c); fflush(G.out);
  };
  if (only >= 0) run(only); else for (long c = start; c < cases; c += stride) run(c);
  fprintf(G.out, "DONE {\"events\":{");
  bool first = true;
  for (auto& e : G.ev) { fprintf(G.out, "%s\"%s\":%ld", first ? "" : ",", jesc(e.first).c_str(), e.second); first = false; }
  fprintf(G.out, "},\"sigs\":["); first = true; long k = 0;
  for (auto h : G.sigs) { if (k++ > 20000) break; fprintf(G.out, "%s%llu", first ? "" : ",", (unsigned long long)(h & 0xFFFFFFFFFFFFull)); first = false; }
  fprintf(G.out, "],\"samples\":["); first = true;
  for (auto& s : G.samples) { fprintf(G.out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(G.out, "]}\n"); fflush(G.out);
  return 0;
}
