// UTF-8 conversion: C30.
#include "model.h"
#include <boost/program_options/detail/convert.hpp>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
typedef std::wstring W;
static W wsym(size_t n, const char* name) { W w(n, L'x'); sym::bytes(&w[0], n * sizeof(wchar_t), name); return w; }
static bool scalar(wchar_t c) { unsigned u = (unsigned)c; return (u <= 0x10FFFFu) & !((u >= 0xD800u) & (u <= 0xDFFFu)); }
static bool wsame(const W& a, const W& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * sizeof(wchar_t)) == 0; }
// the standard encoding
static S enc(const W& w) {
  S r;
  for (size_t i = 0; i < w.size(); ++i) {
    unsigned u = (unsigned)w[i];
    if (u < 0x80) r += char(u);
    else if (u < 0x800) { r += char(0xC0 | (u >> 6)); r += char(0x80 | (u & 63)); }
    else if (u < 0x10000) { r += char(0xE0 | (u >> 12)); r += char(0x80 | ((u >> 6) & 63)); r += char(0x80 | (u & 63)); }
    else { r += char(0xF0 | (u >> 18)); r += char(0x80 | ((u >> 12) & 63)); r += char(0x80 | ((u >> 6) & 63)); r += char(0x80 | (u & 63)); }
  }
  return r;
}
static void round_trip(const W& w) {
  S e = enc(w), got; bool threw = false;
  try { got = boost::to_utf8(w); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(!threw, "scalar values are encodable");
  if (threw) return;
  SYM_ASSERT(eqs(got, e), "the standard encoding");
  W back;
  try { back = boost::from_utf8(e); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(!threw, "the standard encoding is accepted");
  if (threw) return;
  SYM_ASSERT(wsame(back, w), "and decodes to the same characters");
  sym::observe(got, "utf8");
}
HARNESS(h_utf8_round) { W w = wsym(1 + sym::choice(Q(3, 4), "n"), "w"); for (size_t i = 0; i < w.size(); ++i) sym::assume(scalar(w[i])); round_trip(w); sym::cover("ok"); }
// around the pieces the conversion works in
HARNESS(h_utf8_chunk) {
  size_t pre = sym::choice(Q(40, 70), "prefix"); int kind = sym::choice(4, "filler");
  static const wchar_t fill[] = {L'a', 0xE9, 0x20AC, 0x1F600};
  W w(pre, fill[kind]); W t = wsym(Q(2, 3), "w"); for (size_t i = 0; i < t.size(); ++i) sym::assume(scalar(t[i]));
  w += t; for (int i = sym::choice(3, "suffix"); i > 0; --i) w += L'z';
  round_trip(w); sym::cover(w.size() > 32 ? "long" : "short");
}
HARNESS(h_utf8_ascii) {
  S s = sym::str_upto(0, Q(8, 12), "s"); for (size_t i = 0; i < s.size(); ++i) sym::assume((unsigned char)s[i] < 0x80);
  S pad((size_t)sym::choice(Q(36, 66), "pad"), 'p'); s = pad + s;
  W w; for (size_t i = 0; i < s.size(); ++i) w += (wchar_t)s[i];
  SYM_ASSERT(wsame(boost::from_utf8(s), w) && eqs(boost::to_utf8(w), s), "ASCII is unchanged");
  SYM_ASSERT(wsame(boost::from_local_8_bit(s), w) && eqs(boost::to_local_8_bit(w), s), "also in the local encoding");
  sym::cover("ok");
}
// strict reading of bytes: 0 ok, 1 malformed or truncated, 2 left open (well-formed pattern of a value that is not a scalar or not shortest)
static int dec(const S& s, W& w) {
  size_t i = 0; bool open = false;
  while (i < s.size()) {
    unsigned char c = s[i]; unsigned n, v;
    if (c < 0x80) { w += (wchar_t)c; ++i; continue; }
    if (c < 0xC0 || c > 0xFD) return 1;
    if (c < 0xE0) { n = 1; v = c & 31; } else if (c < 0xF0) { n = 2; v = c & 15; } else if (c < 0xF8) { n = 3; v = c & 7; } else { open = true; n = c < 0xFC ? 4 : 5; v = c & (c < 0xFC ? 3 : 1); }
    if (i + n >= s.size() + 0 && i + n + 1 > s.size()) {          // truncated, or a bad octet before the end
      return 1;
    }
    unsigned bad = 0;
    for (unsigned k = 1; k <= n; ++k) { unsigned char d = s[i + k]; bad |= (d & 0xC0) != 0x80; v = (v << 6) | (d & 63); }
    if (bad) return 1;
    if (n == 1 ? v < 0x80 : n == 2 ? v < 0x800 : n == 3 ? v < 0x10000 : false) open = true;
    if (!scalar((wchar_t)v)) open = true;
    w += (wchar_t)v; i += n + 1;
  }
  return open ? 2 : 0;
}
static void bytes_check(const S& s) {
  W w, got; int k = dec(s, w); bool threw = false;
  try { got = boost::from_utf8(s); } catch (std::exception&) { threw = true; }
  if (k == 0) { SYM_ASSERT(!threw && wsame(got, w), "valid text decodes exactly"); sym::cover("valid"); }
  else if (k == 1) { SYM_ASSERT(threw, "malformed or truncated text is rejected"); sym::cover("malformed"); }
  else { SYM_ASSERT(threw || wsame(got, w), "never silently altered"); sym::cover("open"); }
  sym::observe_int(threw, "threw");
}
HARNESS(h_utf8_bytes) { bytes_check(sym::str_upto(1, Q(5, 7), "s")); }
HARNESS(h_utf8_bytes_chunk) {
  int kind = sym::choice(4, "filler"); static const char* fill[] = {"a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
  S s; for (int i = sym::choice(Q(36, 66), "prefix"); i > 0; --i) s += fill[kind];
  s += sym::str(Q(2, 3), "s"); if (sym::choice(2, "suffix")) s += "zz";
  bytes_check(s);
}
// every wide string, scalar or not: no crash, and scalar values next to other ones are still encoded or everything is rejected
HARNESS(h_utf8_anywide) {
  W w((size_t)sym::choice(2, "prefix") * 31, L'a'); w += wsym(Q(2, 3), "w");
  S got; bool threw = false;
  try { got = boost::to_utf8(w); } catch (std::exception&) { threw = true; }
  unsigned ok = 1; for (size_t i = 0; i < w.size(); ++i) ok &= scalar(w[i]);
  if (ok) { SYM_ASSERT(!threw && eqs(got, enc(w)), "the standard encoding"); sym::cover("scalar"); }
  else sym::cover("other");
  sym::observe_int(threw, "threw");
}
HARNESS(h_local_bytes) {      // the "C" locale knows ASCII only: everything else is rejected, not cut
  S pre((size_t)sym::choice(Q(34, 66), "prefix"), 'p'); S s = pre + sym::str(Q(2, 3), "s");
  unsigned ascii = 1; for (size_t i = 0; i < s.size(); ++i) ascii &= (unsigned char)s[i] < 0x80;
  W got; bool threw = false; try { got = boost::from_local_8_bit(s); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(threw || got.size() == s.size(), "not cut");
  if (ascii) SYM_ASSERT(!threw, "ASCII accepted");
  W w; for (size_t i = 0; i < s.size(); ++i) w += (wchar_t)(unsigned char)s[i];
  S back; threw = false; try { back = boost::to_local_8_bit(w); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(threw == !ascii, "characters without a local encoding are rejected"); if (!threw) SYM_ASSERT(eqs(back, s), "exact");
  sym::cover(ascii ? "ascii" : "other");
}
HARNESS(h_utf8_long) {        // several pieces on either side of the free character
  static const wchar_t fill[] = {L'a', 0xE9, 0x20AC, 0x1F600};
  int base = sym::choice(Q(4, 8), "pieces"), off = sym::choice(5, "offset"), mix = sym::choice(2, "mixed"), kind = sym::choice(4, "filler");
  W w; int n = 32 * base + 28 + off; for (int i = 0; i < n; ++i) w += fill[mix ? (i * 7 + kind) % 4 : kind];
  W t = wsym(1, "w"); sym::assume(scalar(t[0])); w += t;
  int m = 16 * sym::choice(4, "after"); for (int i = 0; i < m; ++i) w += fill[mix ? (i + kind) % 4 : 3 - kind];
  round_trip(w); sym::cover("ok");
}
HARNESS(h_utf8_bytes_long) {
  static const char* fill[] = {"a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
  int kind = sym::choice(4, "filler"), mix = sym::choice(2, "mixed"), n = 60 + sym::choice(Q(8, 40), "prefix"); S s;
  for (int i = 0; i < n; ++i) s += fill[mix ? (i * 7 + kind) % 4 : kind];
  s += sym::str(2, "s"); n = 20 * sym::choice(3, "after"); for (int i = 0; i < n; ++i) s += fill[(i + kind) % 4];
  bytes_check(s);
}
