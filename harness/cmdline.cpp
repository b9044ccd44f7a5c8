// Command-line parsing: C01..C11.
#include "model.h"

static std::vector<MOpt> g_opts;
static void mo(const char* l1, const char* l2, char sh, unsigned mn, unsigned mx) {
  MOpt m; if (l1) m.longs.push_back(l1); if (l2) m.longs.push_back(l2); m.sh = sh; m.min = mn; m.max = mx; g_opts.push_back(m);
}
static void std_set(po::options_description& d) {
  g_opts.clear();
  d.add_options()
    ("ab,a", po::value<S>(), "")
    ("ac,b", "")
    ("c,x", po::value<VS>()->multitoken(), "")
    ("d,i", po::value<S>()->implicit_value("I"), "");
  mo("ab", 0, 'a', 1, 1); mo("ac", 0, 'b', 0, 0); mo("c", 0, 'x', 1, UINT_MAX); mo("d", 0, 'i', 0, 1);
}
// a token of one of the shapes  text | -text | --text  with text of 0..n symbolic characters
static S tok(int n, const char* set, bool slash = false) {
  static const char* const pf[] = {"", "-", "--", "/"};
  S p = pf[sym::choice(slash ? 4 : 3, "prefix")];
  return p + sym::str_upto(0, n, "text", set);
}
static VS toks(int lo, int hi, int n, const char* set, bool slash = false) {
  VS a; int k = lo + sym::choice(hi - lo + 1, "ntok");
  for (int i = 0; i < k; ++i) a.push_back(tok(n, set, slash));
  return a;
}
static std::vector<po::option> parse(const po::options_description& d, const VS& a, const MCfg& c, const po::positional_options_description* p = 0) {
  po::command_line_parser q(a);
  q.options(d).style(style_bits(c));
  if (c.allow) q.allow_unregistered();
  if (p) q.positional(*p);
  return q.run().options;
}

#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif

// ---- C01 conservation: tokens of the result are the arguments
static MCfg some_style() {
  MCfg c;
  switch (sym::choice(5, "style")) {
    case 0: break;
    case 1: c.disguise = true; break;
    case 2: c.slash = true; break;
    case 3: c.sticky = false; c.guess = false; c.allow = true; break;
    case 4: c.allow = true; break;
  }
  return c;
}
HARNESS(h_conserve) {
  po::options_description d; std_set(d);
  MCfg c = some_style();
  VS a = toks(1, 3, Q(2, 3), "-=abx", c.slash);
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k != OTHER_ERROR, "undocumented error");
  if (k != OK) { sym::cover("error"); return; }
  sym::cover("ok");
  VS got;
  for (size_t i = 0; i < r.size(); ++i) got.insert(got.end(), r[i].original_tokens.begin(), r[i].original_tokens.end());
  observe(r);
  if (got.size() == a.size()) SYM_ASSERT(sym::same(got, a), "original arguments are not the given ones in order");
  else {
    SYM_ASSERT(got.size() + 1 == a.size(), "an argument was lost or invented");
    if (got.size() + 1 != a.size()) return;
    // exactly one bare "--" missing
    bool ok = false;
    for (size_t z = 0; z < a.size(); ++z) {
      VS b(a); b.erase(b.begin() + z);
      if (a[z] == "--" && sym::same(b, got)) ok = true;
    }
    SYM_ASSERT(ok, "an argument other than the terminator was lost");
    sym::cover("terminator");
  }
  int pos = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].string_key.empty()) { SYM_ASSERT(r[i].position_key == pos, "positional numbering"); ++pos; SYM_ASSERT(r[i].value.size() == 1, "positional value"); }
    else SYM_ASSERT(r[i].position_key == -1, "an option is not positional");
    for (size_t v = 0; v < r[i].value.size(); ++v) {
      const S& x = r[i].value[v]; bool suf = false;
      for (size_t z = 0; z < r[i].original_tokens.size(); ++z) {
        const S& t = r[i].original_tokens[z];
        if (x.size() <= t.size() && memcmp(t.data() + t.size() - x.size(), x.data(), x.size()) == 0) suf = true;
      }
      SYM_ASSERT(suf, "a value is not text of its argument");
    }
  }
}
// arbitrary bytes, in every place a text can have: nothing in it is special, and nothing of it is lost
HARNESS(h_bytes) {
  po::options_description d; std_set(d); S b = sym::str_upto(1, Q(4, 7), "bytes"); int f = sym::choice(10, "form"); VS a;
  if (f < 5) sym::assume(b[0] != '-');
  switch (f) {
    case 0: a.push_back(b); break; case 1: a.push_back("--ab"); a.push_back(b); break; case 2: a.push_back("-a"); a.push_back(b); break; case 3: a.push_back("--c"); a.push_back("p"); a.push_back(b); break; case 4: a.push_back("--ac"); a.push_back(b); break;
    case 5: a.push_back("--ab=" + b); break; case 6: a.push_back("-a" + b); break; case 7: a.push_back("--"); a.push_back(b); break; case 8: a.push_back("-ba" + b); break; default: a.push_back("--d=" + b); break;
  }
  size_t more = sym::choice(2, "more"); if (more) { a.insert(a.begin(), "q"); if (f != 3) a.push_back("--ac"); }
  std::vector<po::option> r; Kind k = run_kind([&] { r = parse(d, a, MCfg()); }); SYM_ASSERT(k == OK, "accepted"); if (k != OK) return;
  VS got, w; for (size_t i = 0; i < r.size(); ++i) got.insert(got.end(), r[i].original_tokens.begin(), r[i].original_tokens.end());
  for (size_t i = 0; i < a.size(); ++i) if (f != 7 || i != more) w.push_back(a[i]);
  SYM_ASSERT(sym::same(got, w), "original arguments are the given ones in order");
  unsigned hit = 0; for (size_t i = 0; i < r.size(); ++i) for (size_t v = 0; v < r[i].value.size(); ++v) hit |= (unsigned)eqs(r[i].value[v], b); SYM_ASSERT(hit, "the text is a value, whole"); sym::cover("ok");
}
// the full documented reading, all aspects at once
HARNESS(h_model) {
  po::options_description d; std_set(d);
  MCfg c = some_style();
  VS a = toks(1, 3, Q(2, 3), "-=abcxi", c.slash);
  Model m(g_opts, c); m.run(a);
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  if (m.r.unspec) { sym::cover("open"); return; }
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK) { sym::cover("error"); return; }
  sym::cover("ok");
  observe(r);
  compare(r, m.r);
}

// run the library against the model for one argument vector
static void judge(const po::options_description& d, const VS& a, const MCfg& c, bool cov = true) {
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != m.r.kind) return;
  if (k == UNKNOWN) sym::cover("unknown"); else if (k == AMBIG) sym::cover("ambiguous"); else if (k == SYNTAX) sym::cover("syntax");
  if (k != OK) return;
  sym::cover("ok");
  observe(r);
  compare(r, m.r);
}

// longer command lines from fixed argument forms
static S seq_tok(bool unreg, int k) {
  static const char* const f[] = {"", "--ac", "-b", "--ab", "-a", "--c", "-x", "--d", "-i", "--", "--ab=", "-b!", "--zz", "-z", "--zz="};
  (void)unreg;
  S t = f[k];
  if (k == 0) return sym::str_of(1, "plain", "pq");
  if (k == 10 || k == 11 || k == 14) { if (k == 11) t = "-ba"; t += sym::str_of(1, "value", "-v="); }
  return t;
}
static void sequence(const int* forms, int nf, int len, const MCfg& c, const po::positional_options_description* p, const VS& names, bool trailing) {
  po::options_description d; std_set(d);
  VS a; for (int i = 0; i < len; ++i) a.push_back(seq_tok(c.allow, forms[sym::choice(nf, "form")]));
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  if (p && m.r.kind == OK) name_positions(m.r, names, trailing);
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c, p); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  sym::cover("ok"); observe(r); compare(r, m.r);
}
HARNESS(h_sequence) {         // four arguments of any kind
  static const int f[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  sequence(f, 12, 4, MCfg(), 0, VS(), false);
}
HARNESS(h_sequence_long) {    // up to seven arguments of fewer kinds
  static const int f[] = {0, 2, 3, 5, 8, 9};
  sequence(f, 6, Q(5, 7), MCfg(), 0, VS(), false);
}
HARNESS(h_sequence_positional) {
  static const int f[] = {0, 2, 4, 5, 8, 9};
  po::positional_options_description p; VS n; p.add("p", 1); n.push_back("p"); p.add("c", 2); n.push_back("c"); n.push_back("c");
  bool tr = sym::choice(2, "rest"); if (tr) { p.add("q", -1); n.push_back("q"); }
  sequence(f, 6, Q(5, 6), MCfg(), &p, n, tr);
}
HARNESS(h_sequence_unreg) {
  static const int f[] = {0, 1, 4, 5, 9, 11, 12, 13, 14};
  MCfg c; c.allow = true;
  sequence(f, 9, Q(4, 5), c, 0, VS(), false);
}
static const int big[] = {1, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 600};
static S big_text(int n, const char* name, const char* set) {      // n characters, the first, middle and last symbolic
  S r(n, 'm'), q = sym::str_of(3, name, set);
  r[0] = q[0]; r[n / 2] = q[1]; r[n - 1] = q[2]; return r;
}
HARNESS(h_long_sizes) {       // names and values of many lengths
  int ln = big[sym::choice(17, "name length")]; if (ln == 1) ln = 2;
  int lv = big[sym::choice(17, "value length")];
  S n1 = big_text(ln, "name", "ab"), n2 = n1; n2[ln - 1] = 'z';
  po::options_description d; d.add_options()(n1.c_str(), po::value<S>(), "")(n2.c_str(), po::value<S>(), "");
  S v = big_text(lv, "value", "-= v\n"); bool adj = sym::choice(2, "adjacent"), other = sym::choice(2, "other");
  if (!adj) sym::assume(v[0] != '-');
  S n = other ? n2 : n1;
  VS a; if (adj) a.push_back("--" + n + "=" + v); else { a.push_back("--" + n); a.push_back(v); }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).run().options; });
  SYM_ASSERT(k == OK && r.size() == 1, "an option with its value, however long");
  if (k != OK || r.size() != 1) return;
  SYM_ASSERT(eqs(r[0].string_key, n) && r[0].value.size() == 1 && eqs(r[0].value[0], v) && sym::same(r[0].original_tokens, a), "name, value and argument unchanged, however long");
  sym::cover("ok");
}

// ---- C02 long options
HARNESS(h_long) {
  po::options_description d; std_set(d);
  MCfg c; c.guess = sym::choice(2, "guess"); c.dash = sym::choice(2, "short");
  VS a; a.push_back("--" + sym::str_upto(0, Q(4, 5), "long"));          // any bytes
  if (sym::choice(2, "more")) a.push_back(sym::str_upto(0, 3, "next"));
  judge(d, a, c);
}
HARNESS(h_long_value) {      // declared names, arbitrary value text
  po::options_description d; std_set(d);
  static const char* const nm[] = {"ab", "ac", "c", "d"};
  static const int idx[] = {0, 1, 2, 3};
  int w = sym::choice(4, "name");
  MCfg c;
  S v = sym::str_upto(1, Q(6, 10), "value");
  std::vector<po::option> r;
  VS a; a.push_back(S("--") + nm[w] + "=" + v);
  Kind k = run_kind([&] { r = parse(d, a, c); });
  if (g_opts[idx[w]].max == 0) { SYM_ASSERT(k == SYNTAX, "a value for an option that takes none must be rejected"); sym::cover("extra"); return; }
  SYM_ASSERT(k == OK, "--name=value must be accepted");
  if (k != OK) return;
  SYM_ASSERT(r.size() == 1 && eqs(r[0].string_key, nm[w]) && r[0].value.size() == 1, "one option with one value");
  if (r.size() != 1 || r[0].value.size() != 1) return;
  SYM_ASSERT(eqs(r[0].value[0], v), "value is everything after the first =");
  sym::observe(r[0].value[0], "v");
  // the same with a separate argument, when the text cannot be taken for an option
  if (v[0] == '-') return;
  VS b; b.push_back(S("--") + nm[w]); b.push_back(v);
  std::vector<po::option> r2;
  k = run_kind([&] { r2 = parse(d, b, c); });
  SYM_ASSERT(k == OK, "--name value must be accepted");
  if (k != OK) return;
  SYM_ASSERT(r2.size() == 1 && eqs(r2[0].string_key, nm[w]) && r2[0].value.size() == 1 && eqs(r2[0].value[0], v), "--name value equals --name=value");
  sym::cover("same");
}
HARNESS(h_long_edges) {      // missing and empty values
  po::options_description d; std_set(d);
  static const char* const nm[] = {"ab", "ac", "c", "d"};
  int w = sym::choice(4, "name");
  MCfg c;
  VS a, pre_; 
  if (sym::choice(2, "before")) pre_.push_back("--ac");
  a = pre_; a.push_back(S("--") + nm[w]);
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT((k == OK) == (g_opts[w].min == 0), "missing required value");
  if (k == OK) { SYM_ASSERT(!r.empty() && r.back().value.empty() && eqs(r.back().string_key, nm[w]), "no value"); sym::cover("none"); }
  else { SYM_ASSERT(k == SYNTAX, "missing value is a syntax error"); sym::cover("missing"); }
  a = pre_; a.push_back(S("--") + nm[w] + "=");
  k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k == SYNTAX, "--name= is a syntax error");
}

// ---- C03 abbreviations: symbolic declared names
HARNESS(h_guess) {
  po::options_description d; g_opts.clear();
  const int N = 3;
  VS names;
  for (int i = 0; i < N; ++i) {
    S n1 = sym::str_of(2 + sym::choice(2, "len"), "declared", Q("ab", "abc"));
    S n2;
    MOpt m; m.longs.push_back(n1); m.sh = 0; m.min = m.max = 0;
    if (i == 0 && sym::choice(2, "alias")) { n2 = sym::str_of(2, "alias", "ab"); m.longs.push_back(n2); }
    for (size_t k = 0; k < m.longs.size(); ++k) { for (size_t q = 0; q < names.size(); ++q) sym::assume(!eqs(names[q], m.longs[k])); names.push_back(m.longs[k]); }
    d.add_options()(n2.empty() ? n1.c_str() : (n1 + "," + n2).c_str(), "");
    g_opts.push_back(m);
  }
  MCfg c; c.guess = sym::choice(2, "guess");
  VS a; a.push_back("--" + sym::str_of(1 + sym::choice(Q(3, 4), "len"), "text", "abc"));
  judge(d, a, c);
}

HARNESS(h_guess_many) {       // a dozen names with common beginnings
  static const char* const nm[] = {"verbose", "version", "verify", "verbose-all", "out", "output", "out-file", "include-path", "include", "input,inp", "x", "xx-long"};
  po::options_description d; g_opts.clear();
  int from = sym::choice(3, "order");
  for (int i = 0; i < 12; ++i) {
    const char* q = nm[(from == 1 ? 11 - i : from == 2 ? (i * 5) % 12 : i)]; d.add_options()(q, "");
    MOpt m; S t = q; size_t c = t.find(','); m.longs.push_back(t.substr(0, c)); if (c != S::npos) m.longs.push_back(t.substr(c + 1)); m.sh = 0; m.min = m.max = 0; g_opts.push_back(m);
  }
  static const char* const base[] = {"verbose-all", "verify", "output", "out-file", "include-path", "input", "xx-long"};
  S t = base[sym::choice(7, "name")]; int cut = 1 + sym::choice((int)t.size(), "cut");
  t = t.substr(0, cut); if (sym::choice(2, "edit")) t[cut - 1] = sym::str(1, "char")[0];
  sym::assume(t[0] != '-' && t[0] != '/'); for (size_t i = 0; i < t.size(); ++i) sym::assume(t[i] != '=');
  MCfg c; c.guess = sym::choice(2, "guess");
  VS a; a.push_back("--" + t);
  judge(d, a, c);
}

// ---- C04 short options
HARNESS(h_short) {
  po::options_description d; g_opts.clear();
  d.add_options()("ab,a", po::value<S>(), "")("ac,b", "")("c,x", po::value<VS>()->multitoken(), "")(",s", "")("d,i", po::value<S>()->implicit_value("I"), "");
  mo("ab", 0, 'a', 1, 1); mo("ac", 0, 'b', 0, 0); mo("c", 0, 'x', 1, UINT_MAX); mo(0, 0, 's', 0, 0); mo("d", 0, 'i', 0, 1);
  MCfg c; c.sticky = sym::choice(2, "sticky");
  VS a; a.push_back("-" + sym::str_upto(1, Q(4, 6), "short"));            // any bytes
  if (sym::choice(2, "more")) a.push_back(tok(2, "-abs="));
  judge(d, a, c);
}
HARNESS(h_group) {          // -xyz v  ==  -x -y -z v
  po::options_description d;
  d.add_options()("ab,a", po::value<S>(), "")("ac,b", "")("cc,c", "")(",s", "");
  S g = sym::str_of(1 + sym::choice(Q(3, 4), "n"), "group", "bcs");
  S tail = sym::str_upto(0, 3, "tail");
  int how = sym::choice(3, "how");       // nothing, -gaVALUE, -ga VALUE
  if (how) sym::assume(!tail.empty() && tail[0] != '-');
  VS grouped, single;
  for (size_t i = 0; i < g.size(); ++i) single.push_back(S("-") + g[i]);
  if (how == 0) grouped.push_back("-" + g);
  else if (how == 1) { grouped.push_back("-" + g + "a" + tail); single.push_back("-a" + tail); }
  else { grouped.push_back("-" + g + "a"); grouped.push_back(tail); single.push_back("-a"); single.push_back(tail); }
  std::vector<po::option> r1, r2; MCfg c;
  Kind k1 = run_kind([&] { r1 = parse(d, grouped, c); });
  Kind k2 = run_kind([&] { r2 = parse(d, single, c); });
  SYM_ASSERT(k1 == OK && k2 == OK, "a group of declared options is accepted");
  if (k1 != OK || k2 != OK) return;
  SYM_ASSERT(r1.size() == r2.size() && r1.size() == g.size() + (how ? 1 : 0), "group equals single options");
  if (r1.size() != r2.size()) return;
  for (size_t i = 0; i < r1.size(); ++i) SYM_ASSERT(eqs(r1[i].string_key, r2[i].string_key) && sym::same(r1[i].value, r2[i].value), "group equals single options");
  if (how) SYM_ASSERT(r1.back().value.size() == 1 && eqs(r1.back().value[0], tail), "value of the last member");
  sym::cover(how ? "value" : "plain");
  observe(r1);
}

HARNESS(h_group_long) {       // long groups
  po::options_description d;
  d.add_options()("ab,a", po::value<S>(), "")("ac,b", "")("cc,c", "")(",s", "");
  static const int len[] = {5, 9, 17, 33, 65};
  int n = len[sym::choice(5, "n")], how = sym::choice(3, "how"); S g(n, 'b');
  for (int i = 0; i < n; ++i) g[i] = "bcs"[(i * 7) % 3];
  g[0] = sym::str_of(1, "member", "bcs")[0]; g[n / 2] = sym::str_of(1, "member", "bcsa")[0]; g[n - 1] = sym::str_of(1, "member", "bcs")[0];
  bool mid = g[n / 2] == 'a';
  VS a; a.push_back("-" + g + (how == 1 ? "av=a" : how == 2 ? "a" : "")); if (how == 2) a.push_back("v=a");
  std::vector<po::option> r; Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).run().options; });
  SYM_ASSERT(k == OK, "a group of declared options is accepted"); if (k != OK) return;
  size_t members = mid ? n / 2 + 1 : n + (how ? 1 : 0), extra = mid && how == 2 ? 1 : 0;
  SYM_ASSERT(r.size() == members + extra, "one option per member"); if (r.size() != members + extra) return;
  for (size_t i = 0; i < members; ++i) {
    char ch = i < (size_t)n ? g[i] : 'a'; const char* key = ch == 'a' ? "ab" : ch == 'b' ? "ac" : ch == 'c' ? "cc" : "-s";
    SYM_ASSERT(r[i].string_key == key && r[i].value.size() == (ch == 'a' ? 1u : 0u), "members in order");
  }
  if (mid) SYM_ASSERT(r[members - 1].value[0] == a[0].substr(2 + n / 2), "the rest is the value");
  else if (how) SYM_ASSERT(r.back().value[0] == "v=a", "value of the last member");
  sym::cover(mid || how ? "value" : "plain");
}

// ---- C05 terminator and positionals
HARNESS(h_positional) {
  po::options_description d; std_set(d);
  po::positional_options_description p; VS names; bool trailing = false;
  static const char* const pn[] = {"p", "ab", "q"};
  int np = sym::choice(4, "nnames");
  for (int i = 0; i < np; ++i) {
    int cnt = 1 + sym::choice(2, "count");
    if (i == np - 1 && sym::choice(2, "rest")) { p.add(pn[i], -1); trailing = true; names.push_back(pn[i]); }
    else { p.add(pn[i], cnt); for (int k = 0; k < cnt; ++k) names.push_back(pn[i]); }
  }
  MCfg c;
  VS a; int n = 1 + sym::choice(Q(4, 5), "ntok");
  for (int i = 0; i < n; ++i) {
    switch (sym::choice(4, "shape")) {
      case 0: a.push_back(sym::str_of(1, "plain", "z-")); break;
      case 1: a.push_back("--"); break;
      case 2: a.push_back("-" + sym::str_of(1, "short", "abxi")); break;
      case 3: a.push_back("--c=1"); break;
    }
  }
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  if (m.r.kind == OK && np) name_positions(m.r, names, trailing);
  if (m.r.kind == OK && !np) for (size_t i = 0; i < m.r.out.size(); ++i) if (m.r.out[i].pos) m.r.kind = TOOMANY;
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c, &p); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k == TOOMANY) sym::cover("toomany");
  if (k != OK || m.r.kind != OK) return;
  compare(r, m.r); observe(r);
  for (size_t i = 0; i < r.size(); ++i) if (r[i].position_key != -1) sym::cover("named");
}
HARNESS(h_posdesc) {         // the table of names itself
  po::positional_options_description p; VS names; int trailing = 0;
  static const char* const pn[] = {"p", "q", "r", "s"};
  int np = sym::choice(5, "nnames");
  for (int i = 0; i < np; ++i) {
    int cnt = sym::choice(4, "count") - 1;
    if (cnt == -1) { sym::assume(!trailing); trailing = i + 1; p.add(pn[i], -1); }
    else { p.add(pn[i], cnt); for (int k = 0; k < cnt; ++k) names.push_back(pn[i]); }
  }
  SYM_ASSERT(p.max_total_count() == (trailing ? UINT_MAX : names.size()), "max_total_count");
  unsigned q; sym::bytes(&q, sizeof q, "position");
  if (q < names.size()) { SYM_ASSERT(p.name_for_position(q) == names[q], "name for position"); sym::cover("fixed"); }
  else if (trailing && q < UINT_MAX) { SYM_ASSERT(p.name_for_position(q) == pn[trailing - 1], "trailing name"); sym::cover("trailing"); }
}
HARNESS(h_many_positionals) {
  po::options_description d; d.add_options()("flag,f", "")("val,v", po::value<S>(), "");
  static const int cnt[] = {0, 1, 2, 9, 20}; static const int tot[] = {1, 3, 10, 12, 21, 40};
  int c1 = cnt[sym::choice(5, "count")], c2 = cnt[sym::choice(5, "count")]; bool tr = sym::choice(2, "rest");
  po::positional_options_description p; p.add("p", c1).add("q", c2); if (tr) p.add("rest", -1);
  int n = tot[sym::choice(6, "arguments")], opt = sym::choice(3, "option after"), at = n / 2;
  S t = sym::str(2, "text"); sym::assume(t[0] != '-' && t[1] != '-');
  VS a, w; for (int i = 0; i < n; ++i) { S x = i == 0 ? S(1, t[0]) : i == n - 1 ? S(1, t[1]) + "e" : S("m"); w.push_back(x); a.push_back(x); if (i == at && opt) { a.push_back(opt == 1 ? "-f" : "-v1"); } }
  std::vector<po::option> r; Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).positional(p).run().options; });
  bool ok = tr || n <= c1 + c2;
  SYM_ASSERT(k == (ok ? OK : TOOMANY), "fails exactly when there are more positional arguments than declared");
  if (k != OK || !ok) { sym::cover("toomany"); return; }
  int pos = 0; SYM_ASSERT(r.size() == (size_t)n + (opt ? 1 : 0), "every argument once");
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].position_key == -1) { SYM_ASSERT(r[i].string_key == (opt == 1 ? "flag" : "val") && i == (size_t)at + 1, "option between"); continue; }
    SYM_ASSERT(r[i].position_key == pos && r[i].string_key == (pos < c1 ? "p" : pos < c1 + c2 ? "q" : "rest") && r[i].value.size() == 1 && eqs(r[i].value[0], w[pos]), "i-th positional argument gets the i-th name");
    ++pos;
  }
  sym::cover("named");
}
HARNESS(h_terminator) {      // everything behind -- is positional, whatever it is
  po::options_description d; std_set(d);
  MCfg c; c.slash = sym::choice(2, "slash"); c.allow = sym::choice(2, "unreg");
  VS a, tail;
  int h = sym::choice(5, "head");
  static const char* const heads[] = {"", "--ac", "-x1", "--d", "-i"};
  if (h) a.push_back(heads[h]);
  a.push_back("--");
  int n = 1 + sym::choice(2, "n");
  for (int i = 0; i < n; ++i) { tail.push_back(sym::str_upto(0, Q(4, 6), "tail")); a.push_back(tail.back()); }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k == OK, "arguments after -- can not fail to parse");
  if (k != OK) return;
  SYM_ASSERT(r.size() == tail.size() + (h ? 1 : 0), "all are positional");
  if (r.size() != tail.size() + (h ? 1 : 0)) return;
  for (size_t i = 0; i < tail.size(); ++i) {
    const po::option& o = r[i + (h ? 1 : 0)];
    SYM_ASSERT(o.string_key.empty() && o.position_key == (int)i && o.value.size() == 1 && eqs(o.value[0], tail[i]), "argument after -- is positional and unchanged");
  }
  sym::cover("ok"); observe(r);
}

// ---- C06 unregistered
HARNESS(h_unreg) {
  po::options_description d; std_set(d);
  MCfg c; c.allow = true;
  bool named = sym::choice(2, "named");
  po::positional_options_description p; p.add("c", -1);
  VS a = toks(1, 3, Q(2, 3), Q("-=abz", "-=abczx"));
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  if (named && m.r.kind == OK) name_positions(m.r, VS(1, "c"), true);
  po::parsed_options r(&d);
  Kind k = run_kind([&] { po::command_line_parser q(a); q.options(d).style(style_bits(c)).allow_unregistered(); if (named) q.positional(p); r = q.run(); });
  SYM_ASSERT(k != UNKNOWN, "unknown options must not fail");
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) return;
  compare(r.options, m.r);
  VS ex, inc;
  for (size_t i = 0; i < m.r.out.size(); ++i) {
    const MTok& t = m.r.out[i];
    if (t.unreg || (t.pos && !named)) inc.insert(inc.end(), t.toks.begin(), t.toks.end());
    if (t.unreg) { ex.insert(ex.end(), t.toks.begin(), t.toks.end()); sym::cover("unregistered"); }
  }
  VS g1 = po::collect_unrecognized(r.options, po::exclude_positional), g2 = po::collect_unrecognized(r.options, po::include_positional);
  SYM_ASSERT(sym::same(g1, ex), "collect_unrecognized(exclude_positional)");
  if (!named) SYM_ASSERT(sym::same(g2, inc), "collect_unrecognized(include_positional)");
  sym::observe(g2, "unrecognized");
  po::variables_map vm;
  Kind ks = run_kind([&] { po::store(r, vm); });
  if (ks == OK) for (po::variables_map::const_iterator i = vm.begin(); i != vm.end(); ++i) {
    bool known = false;
    for (size_t q = 0; q < m.r.out.size(); ++q) if (!m.r.out[q].unreg && eqs(m.r.out[q].key, i->first)) known = true;
    SYM_ASSERT(known, "only recognized options are stored");
  }
  SYM_ASSERT(ks != UNKNOWN, "storing must not fail on unregistered options");
}
HARNESS(h_unreg_stages) {      // what one parser does not know, parsed by a second one: as one parser knowing everything
  po::options_description d1, d2, all; std_set(d1); d2.add_options()("mm,m", "")("nn,n", po::value<S>(), "")("rr", po::value<int>(), ""); all.add(d1).add(d2);
  static const char* const form[] = {"--ab=", "--ab", "-a", "--ac", "-b", "-x", "--d=", "--mm", "-m", "--nn=", "--rr=1", "-n", "--rr=", "", "-bb"}; static const int text[] = {1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 2, 0};
  VS a; int n = 1 + sym::choice(Q(3, 4), "n"), special = sym::choice(n, "place");
  for (int i = 0; i < n; ++i) { int f = i == special || n <= Q(2, 3) ? sym::choice(15, "form") : 3 * sym::choice(5, "form") + 1; S t = text[f] ? sym::str_of(text[f], "text", "v=1") : S(); a.push_back(form[f] + t); }
  std::vector<po::option> full, one, two; VS rest;
  if (run_kind([&] { full = po::command_line_parser(a).options(all).run().options; }) != OK) { sym::cover("error"); return; }
  Kind k = run_kind([&] { one = po::command_line_parser(a).options(d1).allow_unregistered().run().options; rest = po::collect_unrecognized(one, po::include_positional); });
  SYM_ASSERT(k == OK, "the first parser accepts what is unknown to it"); if (k != OK) return;
  k = run_kind([&] { two = po::command_line_parser(rest).options(d2).run().options; });
  SYM_ASSERT(k == OK, "the second parser accepts the rest"); if (k != OK) return;
  size_t i1 = 0, i2 = 0;
  for (size_t i = 0; i < full.size(); ++i) {
    const S& key = full[i].string_key; bool second = key.empty() || key == "mm" || key == "nn" || key == "rr"; std::vector<po::option>& w = second ? two : one; size_t& j = second ? i2 : i1;
    if (!second) while (j < w.size() && (w[j].unregistered || w[j].position_key >= 0)) ++j;
    SYM_ASSERT(j < w.size(), "each option is found by one of the parsers"); if (j >= w.size()) return;
    SYM_ASSERT(eqs(w[j].string_key, key) && sym::same(w[j].value, full[i].value) && sym::same(w[j].original_tokens, full[i].original_tokens) && w[j].position_key == full[i].position_key, "with the same values"); ++j;
  }
  while (i1 < one.size() && (one[i1].unregistered || one[i1].position_key >= 0)) ++i1;
  SYM_ASSERT(i1 == one.size() && i2 == two.size(), "and nothing else"); sym::cover(rest.empty() ? "nothing left" : "rest");
}

// ---- C07 styles
HARNESS(h_check_style) {
  int s = sym::i32("style");
  bool lng = (s & (ps::allow_long | ps::allow_long_disguise)) != 0, shrt = (s & ps::allow_short) != 0;
  bool good = (!lng || (s & (ps::long_allow_adjacent | ps::long_allow_next))) &&
              (!shrt || ((s & (ps::short_allow_adjacent | ps::short_allow_next)) && (s & (ps::allow_dash_for_short | ps::allow_slash_for_short))));
  if (s == 0) good = true;
  VS none; po::command_line_parser q(none);
  bool threw = false, other = false;
  try { q.style(s); } catch (po::invalid_command_line_style&) { threw = true; } catch (...) { other = true; }
  SYM_ASSERT(!other, "invalid_command_line_style is the error for a bad style");
  SYM_ASSERT(threw == !good, "a style is accepted iff it is consistent");
  sym::cover(threw ? "rejected" : "accepted");
}
HARNESS(h_style) {
  po::options_description d; std_set(d);
  static const char* const sw[] = {"long", "disguise", "dash", "slash", "sticky", "guess"};
  MCfg c;
  c.longs = sym::choice(2, sw[0]); c.disguise = sym::choice(2, sw[1]); c.dash = sym::choice(2, sw[2]); c.slash = sym::choice(2, sw[3]);
  c.sticky = sym::choice(2, sw[4]); c.guess = sym::choice(2, sw[5]);
  // the prefix bits mean nothing while short options are off
  int stray = 0;
  if (!c.dash && !c.slash && (c.longs || c.disguise)) {
    static const int pre[] = {0, ps::allow_dash_for_short, ps::allow_slash_for_short, ps::allow_dash_for_short | ps::allow_slash_for_short};
    stray = pre[sym::choice(c.disguise ? 2 : 4, "prefix without short options")];
  }
  bool zero = !c.longs && !c.disguise && !c.dash && !c.slash && !c.sticky && !c.guess;
  if (zero) { c.longs = c.dash = c.sticky = c.guess = true; sym::cover("default"); }
  VS a; a.push_back(tok(Q(3, 4), "-/=abci:", true));
  if (sym::choice(2, "more")) a.push_back(tok(1, "-/ab", true));
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> r;
  Kind k = run_kind([&] { po::command_line_parser q(a); r = q.options(d).style(zero ? 0 : style_bits(c) | stray).run().options; });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r, m.r); observe(r);
  if (!r.empty()) sym::cover(r[0].string_key.empty() ? "positional" : "option");
}

// ---- C08 case
HARNESS(h_case) {
  po::options_description d; g_opts.clear();
  d.add_options()("aB,B", po::value<S>(), "")("Ab-[,c", "")("zed", "");
  mo("aB", 0, 'B', 1, 1); mo("Ab-[", 0, 'c', 0, 0); mo("zed", 0, 0, 0, 0);
  MCfg c; c.cil = sym::choice(2, "ci_long"); c.cis = sym::choice(2, "ci_short"); c.guess = sym::choice(2, "guess");
  VS a;
  S t = sym::str_upto(1, Q(4, 5), "text");   // any bytes
  a.push_back((sym::choice(2, "dashes") ? "--" : "-") + t);
  if (sym::choice(2, "more")) a.push_back("Vv");
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  po::parsed_options r(&d);
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).style(style_bits(c)).run(); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r.options, m.r); observe(r.options);
  po::variables_map vm;
  k = run_kind([&] { po::store(r, vm); });
  for (size_t i = 0; i < m.r.out.size(); ++i) for (size_t q = 0; q < i; ++q) if (eqs(m.r.out[i].key, m.r.out[q].key)) { SYM_ASSERT(k == OTHER_ERROR, "given twice"); return; }
  SYM_ASSERT(k == OK, "what was parsed can be stored");
  if (k != OK) return;
  for (size_t i = 0; i < m.r.out.size(); ++i) {
    const MTok& q = m.r.out[i]; if (q.pos) continue;
    SYM_ASSERT(vm.count(q.key) == 1, "stored under the declared name");
    if (q.vals.size() == 1 && vm.count(q.key)) SYM_ASSERT(eqs(vm[q.key].as<S>(), q.vals[0]), "values keep their case");
    sym::cover("stored");
  }
}
HARNESS(h_case_next) {      // what follows an option that needs a value: a known short option in the style's case, or the value
  po::options_description d; g_opts.clear();
  d.add_options()("aB,B", po::value<S>(), "")("Ab-[,c", "")("zed", "");
  mo("aB", 0, 'B', 1, 1); mo("Ab-[", 0, 'c', 0, 0); mo("zed", 0, 0, 0, 0);
  MCfg c; c.cil = sym::choice(2, "ci_long"); c.cis = sym::choice(2, "ci_short"); c.guess = sym::choice(2, "guess"); c.allow = sym::choice(2, "unreg");
  VS a; static const char* const head[] = {"--aB", "-B", "-b", "--AB"};
  a.push_back(head[sym::choice(4, "head")]);
  S t = sym::str_upto(1, Q(3, 4), "text");   // any bytes
  static const char* const pf[] = {"-", "--", ""};
  a.push_back(pf[sym::choice(3, "dashes")] + t);
  if (sym::choice(2, "more")) a.push_back("v");
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) { sym::cover(k == SYNTAX ? "missing" : "error"); return; }
  compare(r, m.r); observe(r); sym::cover("value");
}
HARNESS(h_case_wild) {      // a wildcard name matched case-insensitively
  po::options_description d;
  d.add_options()("pRe*", po::value<S>(), "");
  int st = style_bits(MCfg()) & ~ps::allow_guessing;
  bool ci = sym::choice(2, "ci"); if (ci) st |= ps::long_case_insensitive;
  S n = sym::str_of(4, "name", "pPrReE1-[");
  VS a; a.push_back("--" + n + "=V");
  po::parsed_options r(&d);
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).style(st).run(); });
  bool want = ci ? pre("pre", low(n)) : pre("pRe", n);
  sym::assume(n[0] != '-');
  SYM_ASSERT((k == OK) == want && (k == OK || k == UNKNOWN), "wildcard match under the case rule");
  if (k != OK) { sym::cover("unknown"); return; }
  po::variables_map vm;
  k = run_kind([&] { po::store(r, vm); });
  SYM_ASSERT(k == OK, "what was parsed can be stored");
  SYM_ASSERT(vm.count(n) == 1 && vm[n].as<S>() == "V", "stored under the given name");
  sym::cover("stored");
}

// ---- C09 numbers of values
HARNESS(h_multi) {
  po::options_description d; std_set(d);
  MCfg c; c.allow = sym::choice(2, "unreg");
  VS a; int n = 1 + sym::choice(Q(5, 6), "ntok");
  for (int i = 0; i < n; ++i) switch (sym::choice(4, "shape")) {
    case 0: a.push_back(sym::str_of(1, "plain", "z")); break;
    case 1: a.push_back("-" + sym::str_of(1, "short", "abxi5")); break;
    case 2: a.push_back("--"); break;
    case 3: a.push_back("-" + sym::str_of(1, "short", "axi") + "1"); break;
  }
  Model m(g_opts, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = parse(d, a, c); });
  SYM_ASSERT(k == m.r.kind, "outcome (success or kind of error)");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r, m.r); observe(r);
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].string_key == "c" && r[i].value.size() > 1) sym::cover("several");
    for (size_t q = 0; q < g_opts.size(); ++q) if (!r[i].unregistered && r[i].string_key == g_opts[q].key())
      SYM_ASSERT(r[i].value.size() >= g_opts[q].min && r[i].value.size() <= g_opts[q].max, "number of values within the declared limits");
  }
}

HARNESS(h_multi_long) {          // many values: the length is fixed per path, the characters are symbolic
  po::options_description d; g_opts.clear();
  d.add_options()("cc,c", po::value<VS>()->multitoken(), "")("one,o", po::value<S>(), "");
  static const int len[] = {3, 8, 17, 33, Q(40, 130)};
  int n = len[sym::choice(5, "count")], tail = sym::choice(3, "tail");
  VS a; a.push_back(sym::choice(2, "short") ? "-c" : "--cc");
  S t = sym::str_of(n, "text", "xyz=,/ ");
  for (int i = 0; i < n; ++i) a.push_back(S(1, t[i]));
  if (tail == 1) { a.push_back("--one=1"); a.push_back("p"); }
  if (tail == 2) { a.push_back("--"); a.push_back("p"); }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).run().options; });
  SYM_ASSERT(k == OK, "many values are accepted");
  if (k != OK) return;
  SYM_ASSERT(r.size() == (tail == 0 ? 1u : tail == 1 ? 3u : 2u), "one option for all values, later arguments by themselves");
  SYM_ASSERT(r[0].value.size() == (size_t)n && r[0].original_tokens.size() == (size_t)n + 1, "the multitoken option takes every directly following plain argument");
  if (r[0].value.size() != (size_t)n) return;
  unsigned ok = 1; for (int i = 0; i < n; ++i) ok &= (unsigned)(r[0].value[i].size() == 1) & (unsigned)(r[0].value[i][0] == t[i]);
  SYM_ASSERT(ok, "the values in order");
  sym::cover("many");
}

// ---- C10 user-supplied parsers
static int g_fn_calls;
static const char* const own_prefix[] = {"@", "-@", "--@"};      // what built-in syntaxes would take must reach the user's parser first
static std::pair<S, S> ext(const S& s) {      // "@name:value", "@name" (also after "-", "--"), anything else: not ours
  size_t at = s.find('@');
  if (at == S::npos || at > 2 || (at > 0 && s[0] != '-') || (at > 1 && s[1] != '-')) return std::make_pair(S(), S());
  size_t p = s.find(':');
  if (p == S::npos) return std::make_pair(s.substr(at + 1), S());
  return std::make_pair(s.substr(at + 1, p - at - 1), s.substr(p + 1));
}
HARNESS(h_ext) {
  po::options_description d; std_set(d);
  MCfg c; c.guess = false; c.allow = sym::choice(2, "unreg");
  VS a, b;                                   // b: the same thing in built-in syntax
  int n = 1 + sym::choice(2, "ntok"); bool any = false;
  std::vector<int> mine;
  for (int i = 0; i < n; ++i) {
    if (sym::choice(2, "kind")) {
      S name = sym::str_upto(1, 2, "name", "abcd"), val = sym::str_upto(0, Q(2, 3), "value", "xyz:");
      S px = own_prefix[sym::choice(3, "prefix")];
      a.push_back(val.empty() ? px + name : px + name + ":" + val);
      b.push_back(val.empty() ? "--" + name : "--" + name + "=" + val);
      any = true; mine.push_back(1);
    } else {
      S t = tok(2, "ab=");
      a.push_back(t); b.push_back(t); mine.push_back(0);
    }
  }
  if (!any) return;
  Model m(g_opts, c); m.run(b);
  if (m.r.unspec) { sym::cover("open"); return; }
  // an argument that is the value of a preceding option is out of this comparison
  for (size_t i = 0; i < m.r.out.size(); ++i) for (size_t q = 1; q < m.r.out[i].toks.size(); ++q) if (m.r.out[i].toks[q].size() >= 3 && m.r.out[i].toks[q][1] == '-') return;
  for (size_t i = 0; i < m.r.out.size(); ++i) if (m.r.out[i].after) return;
  std::vector<po::option> r;
  Kind k = run_kind([&] {
    po::command_line_parser q(a); q.options(d).style(style_bits(c)).extra_parser(ext); if (c.allow) q.allow_unregistered();
    r = q.run().options; });
  SYM_ASSERT(k == m.r.kind, "same outcome as the built-in syntax for that name and value");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r, m.r, false); observe(r);
  sym::cover("ok");
}
static const char* const plus_prefix[] = {"+", "-+", "--+"};
static std::vector<po::option> style_fn(VS& a) {     // "+x" is an option named x, "+xVAL" with that value (also after "-", "--")
  std::vector<po::option> r;
  size_t at = a[0].find('+');
  if (at != S::npos && at < 3 && a[0].size() >= at + 2 && (at < 1 || a[0][0] == '-') && (at < 2 || a[0][1] == '-')) {
    po::option o; o.string_key = S("-") + a[0][at + 1]; o.original_tokens.push_back(a[0]);
    if (a[0].size() > at + 2) o.value.push_back(a[0].substr(at + 2));
    r.push_back(o); a.erase(a.begin());
  }
  return r;
}
HARNESS(h_extra_style) {
  po::options_description d; std_set(d);
  MCfg c; c.sticky = false;
  VS a, b; int n = 1 + sym::choice(2, "ntok");
  for (int i = 0; i < n; ++i) {
    S t = sym::str_upto(1, Q(3, 4), "text", "abx");
    if (sym::choice(2, "plus")) { a.push_back(plus_prefix[sym::choice(3, "prefix")] + t); b.push_back("-" + t); } else { a.push_back(t); b.push_back(t); }
  }
  Model m(g_opts, c); m.run(b);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).style(style_bits(c)).extra_style_parser(style_fn).run().options; });
  for (size_t i = 0; i < m.r.out.size(); ++i) for (size_t q = 1; q < m.r.out[i].toks.size(); ++q) if (m.r.out[i].toks[q][0] == '-') return;
  bool nxt = false;   // an option directly following one that wants a value: out of scope here
  for (int i = 0; i + 1 < n; ++i) if (b[i][0] == '-' && b[i].size() == 2 && b[i + 1][0] == '-') nxt = true;
  if (nxt) return;
  SYM_ASSERT(k == m.r.kind, "the style parser is asked first and its options are used");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r, m.r, false); observe(r);
  sym::cover("ok");
}

// a style parser that takes several arguments and returns several options
static std::vector<po::option> pair_fn(VS& a) {
  std::vector<po::option> r; po::option o;
  if (a[0] == "%" && a.size() > 1) { o.string_key = "ab"; o.value.push_back(a[1]); o.original_tokens.assign(a.begin(), a.begin() + 2); r.push_back(o); a.erase(a.begin(), a.begin() + 2); }
  else if (a[0] == "%%") { o.string_key = "ac"; r.push_back(o); o.string_key = "c"; o.original_tokens.push_back(a[0]); r.push_back(o); a.erase(a.begin()); }
  return r;
}
HARNESS(h_extra_pair) {
  po::options_description d; std_set(d);
  VS a, b; int n = 1 + sym::choice(Q(3, 4), "ntok");
  for (int i = 0; i < n; ++i) switch (sym::choice(6, "form")) {
    case 0: { S v = sym::str_of(1, "value", "-v=/"); a.push_back("%"); a.push_back(v); b.push_back("--ab=" + v); break; }
    case 1: a.push_back("%%"); b.push_back("--ac"); b.push_back("--c"); break;
    case 2: { S v = sym::str_of(1, "plain", "pq"); a.push_back(v); b.push_back(v); break; }
    case 3: a.push_back("-b"); b.push_back("-b"); break;
    case 4: a.push_back("--zz"); b.push_back("--zz"); break;
    case 5: a.push_back("--c=1"); b.push_back("--c=1"); break;
  }
  MCfg c; Model m(g_opts, c); m.run(b);
  if (m.r.unspec) return;
  for (size_t i = 0; i < m.r.out.size(); ++i) for (size_t q = 1; q < m.r.out[i].toks.size(); ++q) if (m.r.out[i].toks[q][0] == '-') return;   // "--c" followed by an option
  for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "%%" && (a[i + 1][0] == '%' || a[i + 1][0] == '-')) return;
  std::vector<po::option> r;
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).style(style_bits(c)).extra_style_parser(pair_fn).run().options; });
  SYM_ASSERT(k == m.r.kind, "what the style parser returns is used");
  if (k != OK || m.r.kind != OK) { sym::cover("error"); return; }
  compare(r, m.r, false); observe(r); sym::cover("ok");
}

// ---- C11 robustness
static void any_outcome(const po::options_description& d, const VS& a, int style, int opt, const po::positional_options_description* p) {
  std::vector<po::option> r;
  Kind k;
  try {
    k = run_kind([&] {
      po::command_line_parser q(a); q.options(d).style(style);
      if (opt & 1) q.allow_unregistered();
      if (opt & 2) q.positional(*p);
      if (opt & 4) q.extra_parser(ext);
      r = q.run().options; });
  } catch (...) { SYM_ASSERT(false, "only documented errors may be thrown"); return; }
  SYM_ASSERT(k != OTHER_ERROR, "only documented errors may be thrown");
  sym::cover(k == OK ? "ok" : "error");
  if (k == OK) observe(r);
}
HARNESS(h_robust_bytes) {
  po::options_description d; std_set(d); d.add_options()("w*", po::value<S>(), "")("ab", "");   // duplicate and wildcard
  po::positional_options_description p; p.add("ab", 1);
  MCfg c; c.disguise = sym::choice(2, "disguise"); c.slash = sym::choice(2, "slash"); c.cil = c.cis = sym::choice(2, "ci");
  VS a; int n = 1 + sym::choice(2, "ntok");
  for (int i = 0; i < n; ++i) a.push_back(sym::str_upto(0, n == 1 ? Q(5, 6) : 3, "bytes"));
  any_outcome(d, a, style_bits(c), sym::choice(4, "opt"), &p);
}
HARNESS(h_robust_dups) {      // the same names declared twice, in every pair of forms
  static const char* const decl[] = {"foo,a", "foo,b", "fo,a", ",a", "f*", "*"};
  po::options_description d;
  for (int i = 0; i < 2; ++i) { int w = sym::choice(6, "decl"); if (sym::choice(2, "value")) d.add_options()(decl[w], po::value<S>(), ""); else d.add_options()(decl[w], ""); }
  MCfg c; c.disguise = sym::choice(2, "disguise"); c.allow = true;
  po::positional_options_description p;
  VS a; int n = 1 + sym::choice(2, "ntok");
  for (int i = 0; i < n; ++i) a.push_back(sym::str_upto(1, n == 1 ? 5 : 3, "text", "-fabo=@"));
  any_outcome(d, a, style_bits(c), sym::choice(2, "ext") * 4, &p);
}
HARNESS(h_robust_style) {
  po::options_description d; std_set(d);
  po::positional_options_description p; p.add("z", 1);
  int style = sym::i32("style") & 8191;
  try { VS none; po::command_line_parser q(none); q.style(style); } catch (po::invalid_command_line_style&) { sym::cover("bad style"); return; }
  VS a; a.push_back(sym::str_upto(0, 3, "text", "-/=ab@")); a.push_back(sym::str_upto(0, Q(2, 3), "text", "-/=ab@"));
  any_outcome(d, a, style, sym::choice(8, "opt"), &p);
}
