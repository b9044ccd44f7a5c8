// C34: splitting a Windows command line.  src/winmain.cpp is compiled only for Windows; it has no
// Windows dependency, so it is included here with _WIN32 defined around it (all headers come before).
#include "model.h"
#include <cctype>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
namespace boost { namespace program_options {
  std::vector<std::string> split_winmain(const std::string& input);
  std::vector<std::wstring> split_winmain(const std::wstring& cmdline);
}}
#define _WIN32 1
#include "../src/winmain.cpp"
#undef _WIN32

// the inverse: how a Windows program quotes one argument (CommandLineToArgvW rules)
static S quote(const S& a) {
  S r = "\""; size_t bs = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == '\\') { ++bs; r += '\\'; }
    else if (a[i] == '"') { r.append(bs + 1, '\\'); r += '"'; bs = 0; }
    else { bs = 0; r += a[i]; }
  }
  return r.append(bs, '\\') + '"';
}
// the same without the surrounding quotes, for arguments that need none
static S bare(const S& a) {
  S r; size_t bs = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == '\\') { ++bs; r += '\\'; }
    else if (a[i] == '"') { r.append(bs + 1, '\\'); r += '"'; bs = 0; }
    else { bs = 0; r += a[i]; }
  }
  return r;
}
static bool space(unsigned char c) { return (unsigned)(c == ' ') | (unsigned)((unsigned char)(c - 9) < 5); }
static bool spaced(const S& a) { unsigned q = 0; for (size_t i = 0; i < a.size(); ++i) q |= space(a[i]); return q != 0; }
static const char* const seps[] = {" ", "\t", "  ", " \n"};
HARNESS(h_win_round) {       // any arguments, quoted, come back
  VS a; int n = 1 + sym::choice(Q(3, 3), "n"); S line;
  if (sym::choice(2, "leading")) line += seps[sym::choice(4, "separator")];
  int total = Q(5, 7);
  for (int i = 0; i < n; ++i) {
    int len = sym::choice((total < Q(3, 4) ? total : Q(3, 4)) + 1, "len"); total -= len;
    S t = sym::str(len, "text");
    bool plain = len && sym::choice(2, "bare");
    if (plain) sym::assume(!spaced(t));
    if (i) line += seps[sym::choice(i == 1 ? 4 : 2, "separator")];
    line += plain ? bare(t) : quote(t);
    a.push_back(t);
  }
  if (sym::choice(2, "trailing")) line += " ";
  VS r = po::split_winmain(line);
  SYM_ASSERT(r.size() == a.size(), "as many words as arguments");
  if (r.size() == a.size()) SYM_ASSERT(sym::same(r, a), "exactly the arguments that were quoted");
  sym::cover(n > 1 ? "several" : "one"); sym::observe(r, "words");
}
HARNESS(h_win_many) {        // longer arguments
  int n = Q(9, 20); S t = sym::str_of(n, "text", "ab \\");
  VS a(1, t); a.push_back(""); a.push_back("x");
  VS r = po::split_winmain(quote(t) + " " + quote("") + " x");
  SYM_ASSERT(r.size() == 3 && sym::same(r, a), "exactly the arguments that were quoted");
  sym::cover("ok");
}
// any text: the documented rules, written as a small automaton.  A quote that directly follows a closing
// quote means different things to different runtimes and is left open.
HARNESS(h_win_text) {
  S s = sym::str_upto(0, Q(6, 8), "text", "\"\\ a");
  VS w; bool in = false, quoted = false, open = false; S cur;
  for (size_t i = 0; i < s.size();) {
    size_t bs = 0; while (i < s.size() && s[i] == '\\') { ++bs; ++i; }
    if (i < s.size() && s[i] == '"') {
      cur.append(bs / 2, '\\'); in = true;
      if (bs % 2) cur += '"';
      else { if (quoted && i + 1 < s.size() && s[i + 1] == '"') open = true; quoted = !quoted; }
      ++i;
    } else if (bs) { cur.append(bs, '\\'); in = true; }
    else if (!quoted && s[i] == ' ') { if (in) w.push_back(cur); cur.clear(); in = false; ++i; }
    else { cur += s[i++]; in = true; }
  }
  if (in) w.push_back(cur);
  VS r = po::split_winmain(s);                  // never fails
  if (open) { sym::cover("open"); return; }
  SYM_ASSERT(sym::same(r, w), "words of the command line");
  sym::observe(r, "words"); sym::cover(w.empty() ? "none" : "some");
}
HARNESS(h_win_bytes) {       // any bytes: no failure, and nothing but quotes, backslashes and separators disappears
  S s = sym::str_upto(0, Q(4, 5), "text");
  VS r = po::split_winmain(s);
  size_t keep = 0, got = 0;
  for (size_t i = 0; i < s.size(); ++i) keep += (unsigned)(s[i] != '"') & (unsigned)(s[i] != '\\') & (unsigned)!space(s[i]);
  for (size_t k = 0; k < r.size(); ++k) for (size_t i = 0; i < r[k].size(); ++i) got += (unsigned)(r[k][i] != '"') & (unsigned)(r[k][i] != '\\') & (unsigned)!space(r[k][i]);
  SYM_ASSERT(keep == got, "no character is lost or invented");
  SYM_ASSERT(r.size() <= s.size(), "words come from the text");
  sym::cover(r.empty() ? "none" : "some"); sym::observe(r, "words");
}
HARNESS(h_win_wide) {        // the wide version agrees; other characters come back unchanged
  S s = sym::str_upto(0, Q(3, 4), "text", "\"\\ a");
  std::wstring w(s.begin(), s.end()); uint32_t c = 0;
  if (sym::choice(2, "other")) { sym::bytes(&c, 4, "char"); sym::assume(c >= 0x80 && c < 0x110000 && (c < 0xd800 || c > 0xdfff)); w += (wchar_t)c; s += 'a'; }
  VS r = po::split_winmain(s); std::vector<std::wstring> q = po::split_winmain(w);
  SYM_ASSERT(r.size() == q.size(), "as many words");
  if (r.size() != q.size()) return;
  for (size_t i = 0; i < r.size(); ++i) {
    SYM_ASSERT(r[i].size() == q[i].size(), "same words"); if (r[i].size() != q[i].size()) return;
    for (size_t k = 0; k < r[i].size(); ++k) {
      bool last = c && i + 1 == r.size() && k + 1 == r[i].size();
      SYM_ASSERT((uint32_t)q[i][k] == (last ? c : (uint32_t)(unsigned char)r[i][k]), "same characters");
    }
  }
  sym::cover(c ? "other" : "ascii");
}
HARNESS(h_win_long) {        // many words, long ones, one of them free
  VS a; S line; int at = sym::choice(4, "at"), n = 8, len = 14 + 20 * sym::choice(3, "len"); S t = sym::str_of(Q(3, 4), "text", "ab \\\"");
  for (int i = 0; i < n; ++i) {
    S x = i % 4 == 0 ? S(len, 'p') : i % 4 == 1 ? S("C:\\dir\\") + S(len, 'q') + "\\" : i % 4 == 2 ? S("say \"") + S(i, '\\') + "\"" : S(i, '\\') + " " + S(len, 'r');
    if (i == 2 * at) x = S(len, 's') + t; else if (i == 2 * at + 1) x = t + S(len, '\\');
    if (i) line += seps[i % 4];
    line += quote(x); a.push_back(x);
  }
  VS r = po::split_winmain(line);
  SYM_ASSERT(r.size() == a.size(), "as many words as arguments");
  if (r.size() == a.size()) SYM_ASSERT(sym::same(r, a), "exactly the arguments that were quoted");
  sym::cover("ok");
}
