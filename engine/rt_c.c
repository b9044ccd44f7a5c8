/* C library model ("C" locale) linked with the library bitcode for symbolic execution. */
typedef unsigned long size_t; typedef int wchar_t; typedef unsigned wint_t; typedef int bool; typedef struct F FILE;
#define true 1
#define false 0
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t);
size_t posym_objsize(const void*);
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { void* q = malloc(n); if (p) { size_t o = posym_objsize(p); memcpy(q, p, o < n ? o : n); free(p); } return q; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = n; i; --i) if (s[i - 1] == (unsigned char)c) return (void*)(s + i - 1); return 0; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)(s + i); return 0; }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; ++a, ++b) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }

// ctype ("C" locale), branch-free so that symbolic characters do not fork
#define R_(lo, hi) ((unsigned)(c - (lo)) <= (unsigned)((hi) - (lo)))
int isdigit(int c) { return R_('0', '9'); }
int isupper(int c) { return R_('A', 'Z'); }
int islower(int c) { return R_('a', 'z'); }
int isalpha(int c) { return R_('a', 'z') | R_('A', 'Z'); }
int isalnum(int c) { return R_('a', 'z') | R_('A', 'Z') | R_('0', '9'); }
int isxdigit(int c) { return R_('a', 'f') | R_('A', 'F') | R_('0', '9'); }
int isspace(int c) { return R_(9, 13) | (c == ' '); }
int isblank(int c) { return (c == 9) | (c == ' '); }
int iscntrl(int c) { return R_(0, 31) | (c == 127); }
int isprint(int c) { return R_(32, 126); }
int isgraph(int c) { return R_(33, 126); }
int ispunct(int c) { return R_(33, 47) | R_(58, 64) | R_(91, 96) | R_(123, 126); }
int tolower(int c) { return R_('A', 'Z') ? c + 32 : c; }
int toupper(int c) { return R_('a', 'z') ? c - 32 : c; }
wint_t towlower(wint_t c) { return R_('A', 'Z') ? c + 32 : c; }
wint_t towupper(wint_t c) { return R_('a', 'z') ? c - 32 : c; }
int iswspace(wint_t c) { return R_(9, 13) | (c == ' '); }
int iswalpha(wint_t c) { return R_('a', 'z') | R_('A', 'Z'); }
int iswalnum(wint_t c) { return R_('a', 'z') | R_('A', 'Z') | R_('0', '9'); }
int iswdigit(wint_t c) { return R_('0', '9'); }
int* __errno_location() { static int e; return &e; }
static int dig(int c) { return R_('0', '9') ? c - '0' : R_('a', 'z') ? c - 'a' + 10 : R_('A', 'Z') ? c - 'A' + 10 : 99; }
unsigned long strtoul(const char* s, char** e, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, of = false; while (dig((unsigned char)*p) < base) { unsigned d = dig((unsigned char)*p); if (v > (~0ul - d) / base) of = true; v = v * base + d; ++p; any = true; }
  if (e) *e = (char*)(any ? p : s);
  if (of) { *__errno_location() = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = *p == '-'; if (neg || *p == '+') ++p;
  if (*p == '-' || *p == '+' || isspace((unsigned char)*p)) { if (e) *e = (char*)s; return 0; }
  int sv = *__errno_location(); *__errno_location() = 0; char* q; unsigned long v = strtoul(p, &q, base); bool of = *__errno_location() == 34; *__errno_location() = sv;
  if (e) *e = (char*)(q == p ? s : q);
  unsigned long lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
  if (of || v > lim) { *__errno_location() = 34; return neg ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; }
  return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
int fputs(const char* a, FILE* f) { return 0; }
int fputc(int c, FILE* f) { return 0; }
size_t fwrite(const void* p, size_t m, size_t n, FILE* f) { return n; }
int fflush(FILE* f) { return 0; }
int puts(const char* p) { return 0; }
int putchar(int c) { return c; }
char* getenv(const char* p) { return 0; }

char** environ;
// type_info of the fundamental types (libsupc++ provides them in a normal link)
struct TI { void* vt; const char* n; };
extern char ZTVf[] __asm__("_ZTVN10__cxxabiv123__fundamental_type_infoE");
#define FTI(x) const struct TI ti_##x __asm__("_ZTI" #x) = {ZTVf + 16, #x};
FTI(v) FTI(b) FTI(c) FTI(a) FTI(h) FTI(s) FTI(t) FTI(i) FTI(j) FTI(l) FTI(m) FTI(x) FTI(y) FTI(w) FTI(f) FTI(d) FTI(e) FTI(Pc) FTI(PKc) FTI(Pv) FTI(PKv) FTI(Dn)
// locale::id objects that libstdc++.so instantiates
#define LID(n, sym) unsigned long lid_##n __asm__(sym);
LID(np, "_ZNSt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE2idE") LID(ng, "_ZNSt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEE2idE")
LID(npw, "_ZNSt7num_putIwSt19ostreambuf_iteratorIwSt11char_traitsIwEEE2idE") LID(ngw, "_ZNSt7num_getIwSt19istreambuf_iteratorIwSt11char_traitsIwEEE2idE")
LID(pu, "_ZNSt7__cxx118numpunctIcE2idE") LID(puw, "_ZNSt7__cxx118numpunctIwE2idE")
