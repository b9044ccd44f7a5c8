// Native driver: runs one harness entry on concrete inputs read from a replay file.
//   replay ENTRY FILE        FILE lines:  B name hex | C name value
// Exit: 0 all assertions held, 3 assertion failed, 4 assumption not met, 5 input mismatch.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <dlfcn.h>
struct Rec { char k; std::string name, val; };
static std::vector<Rec> recs; static std::vector<bool> used;
static std::string unhex(const std::string& h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return o; }
// inputs are matched by name (in order per name): evaluation order differs between compilers
static Rec* next(char k, const char* name) { for (size_t i = 0; i < recs.size(); ++i) if (!used[i] && recs[i].k == k && recs[i].name == name) { used[i] = true; return &recs[i]; } return 0; }
static void cleanup();
static void mismatch(const char* n) { printf("MISMATCH %s\n", n); fflush(stdout); (cleanup(), _Exit(5)); }
extern "C" {
void nat_sym_bytes(void* p, size_t n, const char* name) {
  Rec* q = next('B', name); if (!q) { memset(p, 0, n); return; }            // beyond the recorded prefix
  Rec& r = *q;
  std::string b = unhex(r.val); if (b.size() != n) mismatch(name); memcpy(p, b.data(), n);
}
int nat_choice(int n, const char* name) {
  Rec* q = next('C', name); if (!q) return 0;
  Rec& r = *q; int v = atoi(r.val.c_str()); if (v < 0 || v >= n) mismatch(name); return v;
}
void nat_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); (cleanup(), _Exit(4)); } }
void nat_assert(bool c, const char* msg) { if (!c) { printf("ASSERT %s\n", msg); fflush(stdout); (cleanup(), _Exit(3)); } }
void nat_cover(const char* l) { printf("COVER %s\n", l); }
void nat_observe(const void* p, size_t n, const char* l) { printf("OBS %s ", l); for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
}
static long liveBlocks;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void onMalloc(const volatile void*, size_t) { ++liveBlocks; }
static void onFree(const volatile void* p) { if (p) --liveBlocks; }
extern "C" long nat_heap_live() { return liveBlocks; }
#include <unistd.h>
#include <sys/stat.h>
static char dir[] = "/tmp/posym.XXXXXX"; static std::string made;
static void cleanup() { if (!made.empty()) { unlink((made + "/f").c_str()); rmdir((made + "/f").c_str()); rmdir(made.c_str()); made.clear(); } }
extern "C" const char* nat_file(const char* data, size_t n, int kind) {      // one file in a directory of its own, removed at the end
  static std::string path; if (made.empty()) { if (!mkdtemp(dir)) _Exit(2); made = dir; path = made + "/f"; }
  if (kind == 0) { std::ofstream o(path.c_str(), std::ios::binary); o.write(data, n); } else if (kind == 2) mkdir(path.c_str(), 0700);
  return path.c_str();
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[2]); std::string k, n, v;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t a = line.find('\t'), b = line.find('\t', a + 1);
    recs.push_back({line[0], line.substr(a + 1, b - a - 1), b == std::string::npos ? "" : line.substr(b + 1)});
  }
  used.resize(recs.size());
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
#ifndef __SANITIZE_THREAD__
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  fn();
  printf("DONE\n"); fflush(stdout);
  cleanup(); _Exit(0);
}
