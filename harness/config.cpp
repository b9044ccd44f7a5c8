// Config files, environment, split_unix: C12..C15, C33 and the wide config parser of C31.
#include "model.h"
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
enum CK { C_OK, C_UNKNOWN, C_SYNTAX, C_OTHER };
struct Line { S name, value; };
struct CRes { CK kind; std::vector<Line> v; S bad; };

static bool ws(char ch) { return (ch == ' ') | (ch == '\t') | (ch == '\r') | (ch == '\n'); }
static S trim(const S& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
// The documented format, line by line; names are not judged here.
static CRes model_file(const S& text) {
  CRes r; r.kind = C_OK;
  S prefix; size_t i = 0;
  while (i < text.size()) {
    size_t e = i; while (e < text.size() && text[e] != '\n') ++e;
    S l = text.substr(i, e - i); i = e + 1;
    size_t h = 0; while (h < l.size() && l[h] != '#') ++h;
    l = trim(l.substr(0, h));
    if (l.empty()) continue;
    if (l[0] == '[' && l[l.size() - 1] == ']') {
      prefix = l.substr(1, l.size() - 2);
      if (!prefix.empty() && prefix[prefix.size() - 1] != '.') prefix += '.';
      continue;
    }
    size_t q = 0; while (q < l.size() && l[q] != '=') ++q;
    if (q == l.size()) { r.kind = C_SYNTAX; r.bad = l; return r; }
    Line n; n.name = prefix + trim(l.substr(0, q)); n.value = trim(l.substr(q + 1)); r.v.push_back(n);
  }
  return r;
}
template <class F> static CK run_c(F f) {
  try { f(); return C_OK; }
  catch (po::unknown_option&) { return C_UNKNOWN; }
  catch (po::invalid_config_file_syntax&) { return C_SYNTAX; }
  catch (po::error&) { return C_OTHER; }
}
static void same_as(const std::vector<po::option>& g, const CRes& r) {
  SYM_ASSERT(g.size() == r.v.size(), "number of options in the file");
  if (g.size() != r.v.size()) return;
  for (size_t i = 0; i < g.size(); ++i) {
    SYM_ASSERT(eqs(g[i].string_key, r.v[i].name), "option name");
    SYM_ASSERT(g[i].value.size() == 1, "one value per line");
    if (g[i].value.size() == 1) SYM_ASSERT(eqs(g[i].value[0], r.v[i].value), "option value");
    SYM_ASSERT(g[i].position_key == -1, "no positionals in files");
  }
}
static void judge_file(const S& text) {
  po::options_description d; d.add_options()("zz", po::value<S>(), "");
  CRes r = model_file(text);
  po::parsed_options p(&d);
  std::istringstream is(text);
  CK k = run_c([&] { p = po::parse_config_file(is, d, true); });
  SYM_ASSERT(k == r.kind, "file accepted or rejected");
  if (k == C_SYNTAX) sym::cover("syntax");
  if (k != C_OK || r.kind != C_OK) return;
  same_as(p.options, r); observe(p.options);
  sym::cover(r.v.empty() ? "none" : r.v.size() == 1 ? "one" : "several");
}
// ---- C12
HARNESS(h_cfg_text) { judge_file(sym::str_upto(0, Q(6, 7), "text", "a=[]# \n.")); }
HARNESS(h_cfg_bytes) { judge_file(sym::str_upto(0, Q(5, 6), "text")); }
HARNESS(h_cfg_lines) {      // longer files from line shapes
  S t; int n = 1 + sym::choice(3, "lines");
  for (int i = 0; i < n; ++i) {
    switch (sym::choice(4, "shape")) {
      case 0: t += sym::str_upto(0, Q(1, 2), "name", "a ."); t += "="; t += sym::str_upto(0, Q(1, 2), "value", "a =#\r]["); break;
      case 1: t += "["; t += sym::str_upto(1, Q(1, 2), "section", "ab.["); t += "]"; t += sym::str_upto(0, 1, "after", " #\r"); break;
      case 2: t += "#" + sym::str_upto(0, 1, "comment", "a="); break;
      case 3: t += sym::str_upto(0, 1, "blank", " \t\r"); break;
    }
    if (i + 1 < n || sym::choice(2, "newline")) t += "\n";
  }
  judge_file(t);
}
HARNESS(h_cfg_newline) {    // final newline and \r make no difference
  S a = sym::str_upto(1, Q(4, 5), "text", "a=[]# b");
  po::options_description d; d.add_options()("zz", po::value<S>(), "");
  const char* const end[] = {"", "\n", "\r\n", "\n\n", " \t\n"};
  CK k0 = C_OK; std::vector<po::option> v0;
  for (int i = 0; i < 5; ++i) {
    std::istringstream is(a + end[i]); po::parsed_options p(&d);
    CK k = run_c([&] { p = po::parse_config_file(is, d, true); });
    if (!i) { k0 = k; v0 = p.options; continue; }
    SYM_ASSERT(k == k0, "line ends make no difference");
    if (k != k0 || k != C_OK) continue;
    SYM_ASSERT(v0.size() == p.options.size(), "line ends make no difference");
    for (size_t q = 0; q < v0.size() && q < p.options.size(); ++q) SYM_ASSERT(eqs(v0[q].string_key, p.options[q].string_key) && sym::same(v0[q].value, p.options[q].value), "line ends make no difference");
    if (v0.size()) sym::cover("same");
  }
}
HARNESS(h_cfg_long) {       // many lines, long lines; one line of symbolic text in the middle
  S t, big = S(70, 'n') + S(sym::choice(3, "long") * 100, 'm');
  int at = sym::choice(4, "at"), n = Q(12, 24);
  for (int i = 0; i < n; ++i) {
    S d(1, char('a' + i));
    if (i == 3 * at + 1) { t += sym::str_upto(0, Q(3, 4), "line", "a=[]# ."); t += "\n"; }
    switch (i % 6) {
      case 0: t += "name" + d + " = value " + d + "\n"; break;
      case 1: t += "[sect." + d + "]\n"; break;
      case 2: t += big + d + "=" + big + " # " + big + "\n"; break;
      case 3: t += "# comment " + d + " = 1\n\n"; break;
      case 4: t += "  " + d + "." + d + " =" + d + "=" + d + " \t\r\n"; break;
      case 5: t += "[" + (i % 4 == 1 ? S() : big + ".") + "]\n"; break;
    }
  }
  judge_file(t);
}
HARNESS(h_cfg_sections) {   // a run of sections and names, each free
  S t; int n = Q(4, 5);
  for (int i = 0; i < n; ++i) {
    S a = sym::str_of(1 + sym::choice(2, "len"), "text", "a.b");
    t += sym::choice(2, "section") ? "[" + a + "]\n" : a + "=" + S(1, char('0' + i)) + "\n";
  }
  t += "e=e\n";
  judge_file(t);
}
// ---- C13
HARNESS(h_cfg_names) {
  po::options_description d; VS decl;
  int n = 1 + sym::choice(3, "ndecl");
  bool conflict = false;
  for (int i = 0; i < n; ++i) {
    S nm = sym::str_upto(1, Q(2, 3), "decl", Q("ab*", "ab*"));
    for (size_t q = 0; q + 1 < nm.size(); ++q) sym::assume(nm[q] != '*');
    for (size_t q = 0; q < decl.size(); ++q) sym::assume(!eqs(decl[q], nm));
    decl.push_back(nm);
    d.add_options()(nm.c_str(), po::value<S>(), "");
  }
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) if (i != k && decl[i][decl[i].size() - 1] == '*' && decl[k][decl[k].size() - 1] == '*' &&
      pre(decl[i].substr(0, decl[i].size() - 1), decl[k].substr(0, decl[k].size() - 1))) conflict = true;
  S name = sym::str_upto(1, 3, "name", "abc");
  bool ok = false, edge = false;
  for (int i = 0; i < n; ++i) {
    if (eqs(decl[i], name)) ok = true;
    if (decl[i][decl[i].size() - 1] == '*') { S p = decl[i].substr(0, decl[i].size() - 1); if (eqs(p, name)) edge = true; else if (pre(p, name)) ok = true; }
  }
  bool allow = sym::choice(2, "allow"), wide = sym::choice(2, "wide");
  S text = name + "=v\n";
  po::parsed_options p(&d); std::vector<po::option> got;
  CK k = run_c([&] {
    if (!wide) { std::istringstream is(text); p = po::parse_config_file(is, d, allow); got = p.options; }
    else { std::wistringstream is(std::wstring(text.begin(), text.end())); po::wparsed_options w = po::parse_config_file(is, d, allow); got = w.utf8_encoded_options.options; } });
  if (conflict) { SYM_ASSERT(k == C_OTHER, "wildcards matching the same names must be rejected"); sym::cover("conflict"); return; }
  if (edge && !ok) return;       // a name equal to a wildcard's bare prefix: left open
  SYM_ASSERT(k == (ok || allow ? C_OK : C_UNKNOWN), "a name is accepted iff declared");
  if (k == C_UNKNOWN) sym::cover("unknown");
  if (k != C_OK) return;
  SYM_ASSERT(got.size() == 1 && eqs(got[0].string_key, name) && got[0].unregistered == !ok, "accepted option is returned with the right flag");
  observe(got);
  sym::cover(ok ? "registered" : "unregistered");
}
HARNESS(h_cfg_sect) {      // section prefix takes part in the name
  po::options_description d; d.add_options()("ab", po::value<S>(), "")("a.b", po::value<S>(), "")("a.c.*", po::value<S>(), "")("b.a.b", po::value<S>(), "");
  S sec = sym::str_of(1 + 2 * sym::choice(2, "len"), "section", "ab.c"), name = sym::str_upto(1, 3, "name", "abc.");
  S full = sec + (sec[sec.size() - 1] == '.' ? "" : ".") + name;
  S n2 = sym::str_of(2, "other", "ab");
  sym::assume(!eqs(full, "a.c."));                // whether "p*" takes the bare prefix is left open
  bool ok = full == "a.b" || full == "b.a.b" || (pre("a.c.", full) && full.size() > 4);
  std::istringstream is((sym::choice(2, "first") ? n2 + "=x\n" : S()) + "[" + sec + "]\n" + name + " = v\n");
  bool first = is.str().size() > sec.size() + name.size() + 8;
  po::parsed_options p(&d);
  CK k = run_c([&] { p = po::parse_config_file(is, d, false); });
  bool ok2 = !first || n2 == "ab";
  SYM_ASSERT(k == (ok && ok2 ? C_OK : C_UNKNOWN), "the section is part of the name");
  if (k != C_OK || !(ok && ok2)) { sym::cover("unknown"); return; }
  SYM_ASSERT(eqs(p.options.back().string_key, full) && eqs(p.options.back().value[0], "v"), "full name");
  sym::cover("known");
}
HARNESS(h_cfg_many) {      // many declared names and wildcards, one free line
  static const char* const names[] = {"a", "ab", "abc", "b.a", "b.ab", "c", "cab", "d.d.d", "bb*", "ca.*", "abcd*", "d.a*", "e*"};
  po::options_description d, g1("one"), g2("two");
  const int n = sizeof names / sizeof *names;
  for (int i = 0; i < n; ++i) (i % 3 == 0 ? d : i % 3 == 1 ? g1 : g2).add_options()(names[i], po::value<VS>(), "");
  g1.add(g2); d.add(g1);
  S sec = sym::choice(2, "insect") ? sym::str_upto(1, Q(2, 3), "section", "abcd.") : S();
  S name = sym::str_upto(1, Q(4, 5), "name", "abcde.");
  S full = sec.empty() ? name : sec + (sec[sec.size() - 1] == '.' ? "" : ".") + name;
  unsigned ok = 0, edge = 0;
  for (int i = 0; i < n; ++i) {
    S x = names[i];
    if (x[x.size() - 1] != '*') ok |= eqs(x, full);
    else { x.resize(x.size() - 1); if (eqs(x, full)) edge = 1; else ok |= pre(x, full); }
  }
  sym::assume(!edge);
  std::istringstream is("a=1\n" + (sec.empty() ? S() : "[" + sec + "]\n") + name + "=v\n[]\nc=2\nee=3\n");
  bool allow = sym::choice(2, "allow");
  po::parsed_options p(&d);
  CK k = run_c([&] { p = po::parse_config_file(is, d, allow); });
  SYM_ASSERT(k == (ok || allow ? C_OK : C_UNKNOWN), "a name is accepted iff declared");
  if (k != C_OK) { sym::cover("unknown"); return; }
  SYM_ASSERT(p.options.size() == 4, "one option per line");
  if (p.options.size() != 4) return;
  SYM_ASSERT(eqs(p.options[1].string_key, full) && p.options[1].unregistered == !ok, "the right name and flag");
  SYM_ASSERT(!p.options[0].unregistered && !p.options[2].unregistered && !p.options[3].unregistered, "declared names are registered");
  sym::cover(ok ? "registered" : "unregistered");
}
HARNESS(h_cfg_short) {     // an option without long name cannot appear in a file
  po::options_description d; 
  int w = sym::choice(3, "decl");
  d.add_options()(w == 0 ? ",a" : w == 1 ? "aa,a" : "aa", po::value<S>(), "");
  std::istringstream is("aa=1\n"); po::parsed_options p(&d);
  CK k = run_c([&] { p = po::parse_config_file(is, d, false); });
  SYM_ASSERT(k == (w == 0 ? C_OTHER : C_OK), "long names are required for files");
  sym::cover(w == 0 ? "rejected" : "ok");
}
// ---- C14
extern "C" char** environ;
static S g_seen;
static S mapper(const S& n) { return n.size() && n[0] == 'A' ? "m_" + n : S(); }
HARNESS(h_env) {
  po::options_description d; d.add_options()("zz", po::value<S>(), "");
  int n = sym::choice(Q(3, 4), "nvars");
  std::vector<S> store; std::vector<char*> env;
  for (int i = 0; i < n; ++i) {
    S e = sym::str_upto(0, Q(4, 5), "entry", Q("ABb_=", "ABb_=\x80"));
    store.push_back(e);
  }
  for (int i = 0; i < n; ++i) env.push_back(&store[i][0]);
  env.push_back(0);
  int how = sym::choice(3, "how");
  std::vector<Line> want; S prefix;
  if (how) prefix = sym::str_upto(how == 1 ? 0 : 1, 2, "prefix", "ABb");
  for (int i = 0; i < n; ++i) {
    size_t q = 0; while (q < store[i].size() && store[i][q] != '=') ++q;
    if (q == store[i].size()) continue;      // not of the form NAME=value
    S name = store[i].substr(0, q); Line l; l.value = store[i].substr(q + 1);
    if (!how) { if (name.size() && name[0] == 'A') l.name = "m_" + name; else continue; }
    else { if (!pre(prefix, name)) continue; l.name = low(name.substr(prefix.size())); if (l.name.empty()) continue; }
    want.push_back(l);
  }
  char** save = environ; environ = env.data();
  std::vector<po::option> g;
  if (!how) g = po::parse_environment(d, boost::function1<S, S>(mapper)).options;
  else if (how == 1) g = po::parse_environment(d, prefix).options;
  else g = po::parse_environment(d, prefix.c_str()).options;
  environ = save;
  SYM_ASSERT(g.size() == want.size(), "exactly the mapped variables");
  if (g.size() != want.size()) return;
  for (size_t i = 0; i < g.size(); ++i) SYM_ASSERT(eqs(g[i].string_key, want[i].name) && g[i].value.size() == 1 && eqs(g[i].value[0], want[i].value), "name mapped, value verbatim");
  observe(g);
  if (g.size() > 1) sym::cover("several"); else if (g.size() == 1) sym::cover("one");
}
HARNESS(h_env_value) {      // any value text
  po::options_description d; d.add_options()("zz", po::value<S>(), "");
  S v = sym::str_upto(0, Q(6, 12), "value");
  for (size_t i = 0; i < v.size(); ++i) sym::assume(v[i] != 0);
  S e = "PRE_Name=" + v, o = "OTHER=1";
  char* env[] = {&o[0], &e[0], 0};
  char** save = environ; environ = env;
  std::vector<po::option> g = po::parse_environment(d, "PRE_").options;
  environ = save;
  SYM_ASSERT(g.size() == 1 && g[0].string_key == "name" && g[0].value.size() == 1 && eqs(g[0].value[0], v), "value verbatim");
  sym::cover("ok");
}
HARNESS(h_env_many) {       // a long environment with long names and values
  po::options_description d; d.add_options()("zz", po::value<S>(), "");
  std::vector<S> store; S big(60, 'V'); big += S(sym::choice(3, "long") * 90, '=');
  int at = sym::choice(3, "at") * 5;
  for (int i = 0; i < 13; ++i) {
    S dg(1, char('A' + i));
    if (i == at) store.push_back(sym::str_upto(0, Q(5, 6), "entry", "PRX_=a"));
    store.push_back(i % 4 == 0 ? "PRE_" + dg + "=" + dg : i % 4 == 1 ? "PRX" + dg + big + "=" + big : i % 4 == 2 ? "OTHER" + big : "PR_" + big + dg + "=");
  }
  S prefix = sym::str_upto(0, Q(3, 4), "prefix", "PRX_");
  std::vector<char*> env; std::vector<Line> want;
  for (size_t i = 0; i < store.size(); ++i) {
    env.push_back(&store[i][0]);
    size_t q = 0; while (q < store[i].size() && store[i][q] != '=') ++q;
    if (q == store[i].size()) continue;
    S name = store[i].substr(0, q); Line l; l.value = store[i].substr(q + 1);
    if (!pre(prefix, name)) continue;
    l.name = low(name.substr(prefix.size())); if (l.name.empty()) continue;
    want.push_back(l);
  }
  env.push_back(0);
  char** save = environ; environ = env.data();
  std::vector<po::option> g = po::parse_environment(d, prefix).options;
  environ = save;
  SYM_ASSERT(g.size() == want.size(), "exactly the mapped variables");
  if (g.size() != want.size()) return;
  for (size_t i = 0; i < g.size(); ++i) SYM_ASSERT(eqs(g[i].string_key, want[i].name) && g[i].value.size() == 1 && eqs(g[i].value[0], want[i].value), "name mapped, value verbatim");
  sym::cover(g.size() > 1 ? "several" : "few");
}
// ---- C15
static VS ref_split(const S& s, const S& sep, const S& quote, const S& esc, bool& bad) {
  VS r; S cur; bool q = false; bad = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (esc.find(c) != S::npos) {
      if (++i >= s.size()) { bad = true; return r; }
      char n = s[i];
      if (n == 'n') cur += '\n';
      else if (quote.find(n) != S::npos || sep.find(n) != S::npos || esc.find(n) != S::npos) cur += n;
      else { bad = true; return r; }
    } else if (sep.find(c) != S::npos && !q) { if (!cur.empty()) r.push_back(cur); cur.clear(); }
    else if (quote.find(c) != S::npos) q = !q;
    else cur += c;
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
static void judge_split(const S& t, bool wide) {
  bool bad; VS want = ref_split(t, " \t", "'\"", "\\", bad);
  VS g; bool threw = false;
  try {
    if (!wide) g = po::split_unix(t);
    else { std::vector<std::wstring> w = po::split_unix(std::wstring(t.begin(), t.end())); for (size_t i = 0; i < w.size(); ++i) g.push_back(S(w[i].begin(), w[i].end())); }
  } catch (std::exception&) { threw = true; }
  SYM_ASSERT(threw == bad, "malformed text is an error, well-formed text is not");
  if (threw || bad) { sym::cover("bad"); return; }
  SYM_ASSERT(g.size() == want.size(), "number of words");
  SYM_ASSERT(sym::same(g, want), "words");
  sym::observe(g, "word");
  if (g.size() > 1) sym::cover("several");
}
HARNESS(h_split) { S t = sym::str_upto(0, Q(5, 6), "text", "a'\"\\ \tn"); judge_split(t, sym::choice(2, "wide")); }
HARNESS(h_split_bytes) { S t = sym::str_upto(0, Q(3, 4), "text"); for (size_t i = 0; i < t.size(); ++i) sym::assume((unsigned char)t[i] < 128); judge_split(t, sym::choice(2, "wide")); }
HARNESS(h_split_words) {     // quote words, join, split
  int n = 1 + sym::choice(2, "words"); VS w; S line;
  if (sym::choice(2, "lead")) line = " \t";
  for (int i = 0; i < n; ++i) {
    S x = sym::str_upto(1, Q(2, 3), "word", "a '\"\\\tn");
    w.push_back(x);
    if (i) line += sym::choice(2, "sep") ? " " : "\t \t";
    int how = sym::choice(2, "quote");
    if (how) line += '"';
    for (size_t q = 0; q < x.size(); ++q) {
      char c = x[q];
      if (c == '\\' || c == '"' || c == '\'' || (!how && (c == ' ' || c == '\t'))) line += '\\';
      line += c;
    }
    if (how) line += '"';
  }
  if (sym::choice(2, "trail")) line += " ";
  VS g; bool threw = false;
  try { g = po::split_unix(line); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(!threw, "a properly quoted line is accepted");
  SYM_ASSERT(sym::same(g, w), "splitting returns the words that were quoted");
  sym::cover("ok");
}
HARNESS(h_split_args) {      // caller-supplied separator, quote and escape characters
  S t = sym::str_upto(0, Q(4, 5), "text", "a,;|^x");
  int which = sym::choice(3, "args");
  S sep = which == 0 ? ",;" : which == 1 ? "," : "", quote = which == 2 ? ";" : "|", esc = which == 1 ? "" : "^";
  bool bad; VS want = ref_split(t, sep, quote, esc, bad);
  VS g; bool threw = false;
  try { g = po::split_unix(t, sep, quote, esc); } catch (std::exception&) { threw = true; }
  SYM_ASSERT(threw == bad, "malformed text is an error, well-formed text is not");
  if (threw || bad) { sym::cover("bad"); return; }
  SYM_ASSERT(sym::same(g, want), "words");
  sym::cover("ok");
}
HARNESS(h_split_many) {     // a long line of many words around free text
  S t, big(sym::choice(3, "long") * 80 + 20, 'w');
  for (int i = 0; i < 6; ++i) { S c(1, char('a' + i)); t += c + big + " '" + c + " " + c + "'\t\"x\\\"" + c + "\" "; }
  t += sym::str_upto(0, Q(4, 5), "text", "a'\"\\ \t");
  if (sym::choice(2, "tail")) t += " end 'of line'";
  judge_split(t, sym::choice(2, "wide"));
}
// ---- C33 (files and environment)
HARNESS(h_cfg_robust) {
  po::options_description d; 
  static const char* const decl[] = {"a", "a*", "*", "a.b", "b*"};
  int n = 1 + sym::choice(2, "n");
  for (int i = 0; i < n; ++i) d.add_options()(decl[sym::choice(5, "decl")], po::value<int>(), "");
  S t = sym::str_upto(0, Q(4, 5), "text");
  std::istringstream is(t);
  po::variables_map vm;
  try { po::store(po::parse_config_file(is, d, sym::choice(2, "allow")), vm); po::notify(vm); sym::cover("ok"); }
  catch (po::error& e) { sym::observe(e.what(), "what"); sym::cover("error"); }
  catch (...) { SYM_ASSERT(false, "only documented errors may be thrown"); }
}
HARNESS(h_env_robust) {
  po::options_description d; d.add_options()("ab", po::value<int>()->required(), "");
  S a = sym::str_upto(0, Q(4, 5), "entry"); S b = sym::str_upto(0, 2, "entry");
  for (size_t i = 0; i < a.size(); ++i) sym::assume(a[i] != 0);
  for (size_t i = 0; i < b.size(); ++i) sym::assume(b[i] != 0);
  char* env[] = {&a[0], &b[0], 0};
  char** save = environ; environ = env;
  po::variables_map vm; int out = 0;
  try { po::store(po::parse_environment(d, sym::choice(2, "prefix") ? "A" : ""), vm); po::notify(vm); }
  catch (po::error& e) { sym::observe(e.what(), "what"); out = 1; }
  catch (...) { out = 2; }
  environ = save;
  SYM_ASSERT(out != 2, "only documented errors may be thrown");
  sym::cover(out ? "error" : "ok");
}
