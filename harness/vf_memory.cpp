#define VF_MEMORY_IMPL
#include "vf_memory.h"
#include <unordered_map>
#include <mutex>
#include <string>
#include <cstring>
#include <cstdint>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_allocated_memory((p), (n))
#endif
#endif
#ifndef POISON
#define POISON(p, n) (void)0
#endif
namespace {
struct Blk { size_t n; int fam; long seq; };
std::mutex mu;
std::unordered_map<void*, Blk>& tab() { static auto* t = new std::unordered_map<void*, Blk>(); return *t; }
long g_count = 0, g_fail = 0, g_inj = 0, g_bad = 0, g_seq = 0; int g_sticky = 0;
std::string g_desc;
bool should_fail(size_t n) {
  if (!n) return false;          // a request for nothing may always be answered with nothing
  ++g_count;
  if (g_fail && (g_count == g_fail || (g_sticky && g_count > g_fail))) { ++g_inj; return true; }
  return false;
}
void* track(void* p, size_t n, int fam) { if (p) tab()[p] = Blk{n, fam, ++g_seq}; return p; }
void untrack(void* p, int fam) {
  auto it = tab().find(p);
  if (it == tab().end()) { ++g_bad; return; }
  if (it->second.fam != fam) ++g_bad;
  tab().erase(it);
}
size_t mulsz(size_t a, size_t b) { return (a && b > SIZE_MAX / a) ? SIZE_MAX : a * b; }
}
extern "C" {
void (*vf_mem_hook)(void) = nullptr;
void* vf_malloc(size_t n) {
  if (vf_mem_hook) vf_mem_hook();
  std::lock_guard<std::mutex> g(mu);
  if (should_fail(n)) return nullptr;
  if (n > (size_t)1 << 40) return nullptr;
  void* p = malloc(n); if (p && n) { memset(p, 0xFF, n); POISON(p, n); }
  return track(p, n, 0);
}
void* vf_calloc(size_t k, size_t n) {
  if (vf_mem_hook) vf_mem_hook();
  std::lock_guard<std::mutex> g(mu);
  size_t t = mulsz(k, n); if (should_fail(t)) return nullptr;
  if (t > (size_t)1 << 40) return nullptr;
  void* p = malloc(t); if (p && t) memset(p, 0, t);
  return track(p, t, 0);
}
void* vf_realloc(void* p, size_t n) {
  std::lock_guard<std::mutex> g(mu);
  if (should_fail(n)) return nullptr;
  size_t old = 0;
  if (p) { auto it = tab().find(p); if (it != tab().end()) old = it->second.n; untrack(p, 0); }
  void* q = malloc(n);
  if (q && n) { memset(q, 0xFF, n); POISON(q, n); if (p) memcpy(q, p, old < n ? old : n); }
  free(p);
  return track(q, n, 0);
}
void vf_free(void* p) {
  if (!p) return;
  { std::lock_guard<std::mutex> g(mu); untrack(p, 0); }
  free(p);
}
void* vf_blas_malloc(size_t n, int align) {
  if (vf_mem_hook) vf_mem_hook();
  std::lock_guard<std::mutex> g(mu);
  if (should_fail(n)) return nullptr;
  if (n == 0 || n > (size_t)1 << 40) return nullptr;      // like MKL, which returns NULL for an empty request
  void* p = nullptr;
  if (align < 16 || (align & (align - 1))) align = 16;
  if (posix_memalign(&p, (size_t)align, n)) p = nullptr;
  if (p && n) memset(p, 0xFF, n);
  return track(p, n, 1);
}
void* vf_blas_calloc(size_t k, size_t n, int align) {
  size_t t = mulsz(k, n);
  void* p = vf_blas_malloc(t, align);
  if (p && t) memset(p, 0, t);
  return p;
}
void vf_blas_free(void* p) {
  if (!p) return;
  { std::lock_guard<std::mutex> g(mu); untrack(p, 1); }
  free(p);
}
void vf_mem_fail_at(long k, int sticky) { std::lock_guard<std::mutex> g(mu); g_count = 0; g_inj = 0; g_fail = k; g_sticky = sticky; }
long vf_mem_count(void) { std::lock_guard<std::mutex> g(mu); return g_count; }
long vf_mem_injected(void) { std::lock_guard<std::mutex> g(mu); return g_inj; }
long vf_mem_live(void) { std::lock_guard<std::mutex> g(mu); return (long)tab().size(); }
long vf_mem_badfree(void) { std::lock_guard<std::mutex> g(mu); return g_bad; }
const char* vf_mem_describe_live(void) {
  std::lock_guard<std::mutex> g(mu);
  g_desc.clear(); int k = 0;
  for (auto& e : tab()) { if (k++ == 6) { g_desc += "..."; break; }
    g_desc += std::to_string(e.second.n) + "B(" + (e.second.fam ? "blas" : "c") + ",#" + std::to_string(e.second.seq) + ") "; }
  return g_desc.c_str();
}
void vf_mem_forget(void) { std::lock_guard<std::mutex> g(mu); tab().clear(); g_bad = 0; }
}
