// Harness API.  Compiled twice: with -DPOSYM to LLVM bitcode for the symbolic
// executor, and natively (real libstdc++, sanitizers) to replay concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

extern "C" {
#ifdef POSYM
void posym_sym_bytes(void* p, size_t n, const char* name);
int posym_choice(int n, const char* name);
void posym_assume(bool c);
void posym_assert(bool c, const char* msg);
void posym_cover(const char* label);
void posym_observe(const void* p, size_t n, const char* label);
void posym_fail(const char* kind, const char* msg) __attribute__((noreturn));
void posym_print(const char* m, long v);
long posym_heap_live();
void posym_shared(int on);
void posym_warm();
void posym_file(const char* name, const char* data, size_t n, int kind);
#else
void nat_sym_bytes(void* p, size_t n, const char* name);
int nat_choice(int n, const char* name);
void nat_assume(bool c);
void nat_assert(bool c, const char* msg);
void nat_cover(const char* label);
void nat_observe(const void* p, size_t n, const char* label);
long nat_heap_live();
#define posym_heap_live nat_heap_live
const char* nat_file(const char* data, size_t n, int kind);
#define posym_sym_bytes nat_sym_bytes
#define posym_choice nat_choice
#define posym_assume nat_assume
#define posym_assert nat_assert
#define posym_cover nat_cover
#define posym_observe nat_observe
#endif
}
#ifdef __SANITIZE_THREAD__
#include <thread>
#endif
#define HARNESS(name) extern "C" void name()

namespace sym {
inline void bytes(void* p, size_t n, const char* name) { posym_sym_bytes(p, n, name); }
inline int choice(int n, const char* name) { return posym_choice(n, name); }   // 0..n-1, one path each
inline void assume(bool c) { posym_assume(c); }
inline void cover(const char* l) { posym_cover(l); }
inline void observe(const std::string& s, const char* l) { posym_observe(s.data(), s.size(), l); }
inline void observe(const std::vector<std::string>& v, const char* l) { for (auto& s : v) posym_observe(s.data(), s.size(), l); }
inline void observe_int(long v, const char* l) { posym_observe(&v, sizeof v, l); }
inline unsigned char byte(const char* name) { unsigned char b; bytes(&b, 1, name); return b; }
// heap blocks in use (operator new); natively: blocks of any kind
inline long live() { return posym_heap_live(); }
// a file with that content, one that does not exist, or one that opens and cannot be read; returns its name
enum { READABLE, MISSING, UNREADABLE };
inline std::string file(int kind, const std::string& content) {
#ifdef POSYM
  if (kind != MISSING) posym_file("/mem/f", content.data(), content.size(), kind);
  return "/mem/f";
#else
  return nat_file(content.data(), content.size(), kind);
#endif
}
// what f does is what one of several threads does: it may write to nothing that exists now (natively: two threads do it)
template<class F> __attribute__((noinline)) void threads(F f) {
#ifdef POSYM
  struct Run { static __attribute__((noinline)) void run(F& f) { f(); } };
  posym_warm(); posym_shared(1); Run::run(f); posym_shared(0);
#elif defined(__SANITIZE_THREAD__)
  std::thread a(f), b(f); a.join(); b.join();
#else
  f();
#endif
}
inline int i32(const char* name) { int v; bytes(&v, sizeof v, name); return v; }
// string of exactly n symbolic bytes
inline std::string str(size_t n, const char* name) { std::string s(n, 'x'); posym_sym_bytes(n ? &s[0] : (char*)"", n, name); return s; }
// b is one of the characters of set (branch-free)
inline bool in(unsigned char b, const char* set) { unsigned ok = 0; for (const char* p = set; *p; ++p) ok |= (b == (unsigned char)*p); return ok != 0; }
inline bool all_in(const std::string& s, const char* set) { unsigned ok = 1; for (size_t i = 0; i < s.size(); ++i) ok &= in(s[i], set); return ok != 0; }
// string of exactly n symbolic bytes drawn from set
inline std::string str_of(size_t n, const char* name, const char* set) {
  std::string s = str(n, name);
  for (size_t i = 0; i < n; ++i) posym_assume(in(s[i], set));
  return s;
}
// string of length lo..hi (length chosen by forking), bytes from set (set==0: every byte value)
inline std::string str_upto(size_t lo, size_t hi, const char* name, const char* set = 0) {
  size_t n = lo + choice((int)(hi - lo + 1), name);
  return set ? str_of(n, name, set) : str(n, name);
}
// same content, compared without forking inside
inline bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
inline bool same(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1; for (size_t i = 0; i < a.size(); ++i) ok &= (unsigned)same(a[i], b[i]);
  return ok != 0;
}
}
#define SYM_ASSERT(c, msg) posym_assert((c), msg)
