// Wide-character interfaces against the narrow ones: C31.
#include "model.h"
#include <boost/program_options/detail/convert.hpp>
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
typedef std::wstring W; typedef std::vector<W> VW;
static W widen(const S& s) { W w; for (size_t i = 0; i < s.size(); ++i) w += (wchar_t)(unsigned char)s[i]; return w; }
static VW widen(const VS& s) { VW w; for (size_t i = 0; i < s.size(); ++i) w.push_back(widen(s[i])); return w; }
static bool wsame(const W& a, const W& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * sizeof(wchar_t)) == 0; }
static bool wsame(const VW& a, const VW& b) { if (a.size() != b.size()) return false; unsigned r = 1; for (size_t i = 0; i < a.size(); ++i) r &= (unsigned)wsame(a[i], b[i]); return r != 0; }
static bool scalar(wchar_t c) { unsigned u = (unsigned)c; return (u <= 0x10FFFFu) & !((u >= 0xD800u) & (u <= 0xDFFFu)); }
static W wsym(size_t n, const char* name) { W w(n, L'x'); sym::bytes(n ? (void*)&w[0] : (void*)"", n * sizeof(wchar_t), name); for (size_t i = 0; i < n; ++i) sym::assume(scalar(w[i])); return w; }
template <class F> Kind kind_of(F f, S& what) { what.clear();
  try { f(); return OK; }
  catch (po::unknown_option& e) { what = e.what(); return UNKNOWN; } catch (po::ambiguous_option& e) { what = e.what(); return AMBIG; }
  catch (po::invalid_command_line_syntax& e) { what = e.what(); return SYNTAX; } catch (po::too_many_positional_options_error& e) { what = e.what(); return TOOMANY; }
  catch (po::error& e) { what = e.what(); return OTHER_ERROR; } }
static void same_options(const std::vector<po::option>& n, const std::vector<po::woption>& w) {
  SYM_ASSERT(n.size() == w.size(), "same number of options");
  if (n.size() != w.size()) return;
  for (size_t i = 0; i < n.size(); ++i) {
    SYM_ASSERT(eqs(n[i].string_key, w[i].string_key), "same key"); SYM_ASSERT(wsame(widen(n[i].value), w[i].value), "same values");
    SYM_ASSERT(wsame(widen(n[i].original_tokens), w[i].original_tokens), "same original tokens");
    SYM_ASSERT(n[i].unregistered == w[i].unregistered && n[i].position_key == w[i].position_key && n[i].case_insensitive == w[i].case_insensitive, "same flags");
    sym::observe(n[i].string_key, "key"); sym::observe(n[i].value, "value");
  }
}
template <class C> static void declare(po::options_description& d) {
  d.add_options()("ab,a", new po::typed_value<S, C>(0), "")("ac,b", "")("c,x", (new po::typed_value<VS, C>(0))->multitoken(), "")("num,n", new po::typed_value<int, C>(0), "")
    ("flag,f", new po::typed_value<bool, C>(0), "")("d,i", (new po::typed_value<S, C>(0))->implicit_value("I")->default_value("D"), "");
}
static S tok(int n, const char* set) { static const char* const pf[] = {"", "-", "--"}; int p = sym::choice(3, "prefix"); return pf[p] + sym::str_upto(0, n, "text", set); }
static void both(const VS& a, int style, bool allow, bool store) {
  po::options_description dn, dw; declare<char>(dn); if (store) declare<wchar_t>(dw);
  const po::options_description& d2 = store ? dw : dn;      // parsing alone: the very same description
  po::positional_options_description p; p.add("ab", 1).add("c", 1);
  std::vector<po::option> n; std::vector<po::woption> w; po::variables_map mn, mw; S en, ew; po::parsed_options* pn = 0; po::wparsed_options* pw = 0;
  Kind kn = kind_of([&] { po::command_line_parser q(a); q.options(dn).style(style).positional(p); if (allow) q.allow_unregistered(); pn = new po::parsed_options(q.run()); }, en);
  Kind kw = kind_of([&] { po::wcommand_line_parser q(widen(a)); q.options(d2).style(style).positional(p); if (allow) q.allow_unregistered(); pw = new po::wparsed_options(q.run()); }, ew);
  SYM_ASSERT(kn == kw && eqs(en, ew), "the same outcome and message");
  sym::observe_int(kn, "kind");
  if (kn != OK || kw != OK) { sym::cover("error"); return; }
  same_options(pn->options, pw->options);
  SYM_ASSERT(wsame(widen(po::collect_unrecognized(pn->options, po::include_positional)), po::collect_unrecognized(pw->options, po::include_positional)), "collect_unrecognized");
  SYM_ASSERT(wsame(widen(po::collect_unrecognized(pn->options, po::exclude_positional)), po::collect_unrecognized(pw->options, po::exclude_positional)), "collect_unrecognized");
  if (!store) { sym::cover("ok"); return; }
  kn = kind_of([&] { po::store(*pn, mn); po::notify(mn); }, en); kw = kind_of([&] { po::store(*pw, mw); po::notify(mw); }, ew);
  SYM_ASSERT(kn == kw && eqs(en, ew), "storing has the same outcome and message");
  if (kn != OK || kw != OK) { sym::cover("store error"); return; }
  SYM_ASSERT(mn.size() == mw.size(), "the same options stored");
  static const char* str[] = {"ab", "d"};
  for (int i = 0; i < 2; ++i) { SYM_ASSERT(mn.count(str[i]) == mw.count(str[i]), "present"); if (mn.count(str[i]) && mw.count(str[i])) { SYM_ASSERT(eqs(mn[str[i]].as<S>(), mw[str[i]].as<S>()), "same text"); SYM_ASSERT(mn[str[i]].defaulted() == mw[str[i]].defaulted(), "same defaulted"); } }
  SYM_ASSERT(mn.count("c") == mw.count("c") && mn.count("num") == mw.count("num") && mn.count("flag") == mw.count("flag") && mn.count("ac") == mw.count("ac"), "present");
  if (mn.count("c") && mw.count("c")) SYM_ASSERT(sym::same(mn["c"].as<VS>(), mw["c"].as<VS>()), "same vector");
  if (mn.count("num") && mw.count("num")) { SYM_ASSERT(mn["num"].as<int>() == mw["num"].as<int>(), "same number"); sym::cover("num"); }
  if (mn.count("flag") && mw.count("flag")) { SYM_ASSERT(mn["flag"].as<bool>() == mw["flag"].as<bool>(), "same flag"); sym::cover("flag"); }
  sym::cover("ok");
}
HARNESS(h_wide_parse) {
  static const int st[] = {ps::default_style, ps::default_style | ps::allow_long_disguise, ps::default_style | ps::case_insensitive, ps::unix_style & ~ps::allow_guessing};
  int s = sym::choice(4, "style"), al = sym::choice(2, "allow"); VS a; int n = 1 + sym::choice(Q(2, 2), "ntok");
  for (int i = 0; i < n; ++i) a.push_back(tok(Q(2, 3), "-=abx"));
  both(a, st[s], al, false);
}
HARNESS(h_wide_store) { VS a; int n = 1 + sym::choice(Q(2, 2), "ntok"); for (int i = 0; i < n; ++i) a.push_back(tok(Q(2, 3), "=abin1")); both(a, ps::default_style, false, true); }
HARNESS(h_wide_value_kinds) {    // values of every type
  static const char* o[] = {"--num=", "--flag=", "--ab=", "--d=", "--c=", "-n"}; int k = sym::choice(6, "option");
  S v = sym::str_upto(0, Q(4, 5), "value", k == 1 ? "trueTonYfas1" : "-+019 a"); VS a(1, o[k] + v); both(a, ps::default_style, false, true);
}
HARNESS(h_wide_bytes) { S v = sym::str_upto(1, Q(3, 4), "text"); for (size_t i = 0; i < v.size(); ++i) sym::assume((unsigned char)v[i] < 0x80); VS a(1, v); if (sym::choice(2, "more")) a.push_back("--ab"); both(a, ps::default_style, true, false); }
HARNESS(h_wide_config) {
  po::options_description d; d.add_options()("a", po::value<S>(), "")("s.b", po::value<S>(), "")("w*", po::value<S>(), "");
  static const char* pf[] = {"", "a=", "[s]\nb = ", "zz=", "w"}; int k = sym::choice(5, "prefix"); bool al = sym::choice(2, "allow");
  S t = pf[k] + sym::str_upto(0, Q(4, 5), "text", "ab= #[]s\n.") + (sym::choice(2, "newline") ? "\n" : "");
  std::istringstream in(t); std::wistringstream iw(widen(t)); S en, ew; po::parsed_options* pn = 0; po::wparsed_options* pw = 0;
  Kind kn = kind_of([&] { pn = new po::parsed_options(po::parse_config_file(in, d, al)); }, en), kw = kind_of([&] { pw = new po::wparsed_options(po::parse_config_file(iw, d, al)); }, ew);
  SYM_ASSERT(kn == kw && eqs(en, ew), "the same outcome and message");
  sym::observe_int(kn, "kind");
  if (kn != OK || kw != OK) { sym::cover("error"); return; }
  same_options(pn->options, pw->options); sym::cover(pn->options.empty() ? "none" : "some");
}
// non-ASCII values: a wide option receives exactly the given characters
HARNESS(h_wide_exact) {
  po::options_description d; W store; std::vector<W> vec; d.add_options()("aa,a", po::wvalue<W>(&store), "")("vv,v", po::wvalue<VW>()->multitoken(), "")("num,n", po::wvalue<int>(), "");
  po::positional_options_description p; p.add("vv", -1);
  W v = wsym(1 + sym::choice(Q(3, 4), "len"), "value"); VW a; int form = sym::choice(6, "form");
  S key = "aa"; VW want(1, v);
  if (form == 0) a.push_back(L"--aa=" + v); else if (form == 1) a.push_back(L"-a" + v);
  else if (form == 2) { sym::assume(v[0] != L'-'); a.push_back(L"--aa"); a.push_back(v); }
  else if (form == 3) { sym::assume(v[0] != L'-'); a.push_back(v); key = "vv"; }
  else if (form == 4) { sym::assume(v[0] != L'-'); a.push_back(L"--vv"); a.push_back(L"\x044f"); a.push_back(v); want.insert(want.begin(), L"\x044f"); key = "vv"; }
  else { a.push_back(L"--vv=" + v); a.push_back(L"--vv=\x1F600"); want.push_back(L"\x1F600"); key = "vv"; }
  po::variables_map m; S what; po::wparsed_options* r = 0;
  Kind k = kind_of([&] { r = new po::wparsed_options(po::wcommand_line_parser(a).options(d).positional(p).run()); po::store(*r, m); po::notify(m); }, what);
  SYM_ASSERT(k == OK, "accepted"); if (k != OK) return;
  VW orig; for (size_t i = 0; i < r->options.size(); ++i) orig.insert(orig.end(), r->options[i].original_tokens.begin(), r->options[i].original_tokens.end());
  SYM_ASSERT(wsame(orig, a), "original tokens are the given arguments"); 
  SYM_ASSERT(m.size() == 1 && m.count(key) == 1, "stored under its key"); if (m.count(key) != 1) return;
  if (key == "aa") { SYM_ASSERT(wsame(m[key].as<W>(), v), "exactly the given characters"); SYM_ASSERT(wsame(store, v), "also in the variable"); } else SYM_ASSERT(wsame(m[key].as<VW>(), want), "exactly the given characters, in order");
  S u = boost::to_utf8(v); sym::observe(u, "v"); sym::cover("ok");
}
HARNESS(h_wide_exact_config) {
  po::options_description d; d.add_options()("aa", po::wvalue<W>(), "")("s.b", po::wvalue<W>(), "");
  W v = wsym(1 + sym::choice(Q(2, 3), "len"), "value");
  for (size_t i = 0; i < v.size(); ++i) { unsigned u = v[i]; sym::assume((u > 32) & (u != '#') & (u != 127)); }
  bool sec = sym::choice(2, "section"); std::wistringstream is((sec ? L"[s]\nb = " : L"aa=") + v + L"\n");
  po::variables_map m; S what; Kind k = kind_of([&] { po::store(po::parse_config_file(is, d), m); }, what);
  SYM_ASSERT(k == OK, "accepted"); if (k != OK) return; S key = sec ? "s.b" : "aa";
  SYM_ASSERT(m.size() == 1 && m.count(key) == 1 && wsame(m[key].as<W>(), v), "exactly the given characters"); sym::observe(boost::to_utf8(v), "v"); sym::cover("ok");
}
// a narrow option given on a wide command line, and a wide option on a narrow one ("C" locale): exact, or rejected
HARNESS(h_wide_mixed) {
  po::options_description d; d.add_options()("aa", po::value<S>(), "")("bb", po::wvalue<W>(), "")("num", po::wvalue<int>(), "");
  int which = sym::choice(3, "which"); po::variables_map m; bool threw = false; unsigned ascii = 1;
  if (which == 0) {
    W v = wsym(1 + sym::choice(2, "len"), "value"); for (size_t i = 0; i < v.size(); ++i) ascii &= (unsigned)v[i] < 0x80;
    VW a(1, L"--aa=" + v);
    try { po::store(po::wcommand_line_parser(a).options(d).run(), m); } catch (std::exception&) { threw = true; }
    SYM_ASSERT(threw == !ascii, "rejected exactly if it has no local encoding");
    if (!threw) SYM_ASSERT(m.count("aa") == 1 && wsame(widen(m["aa"].as<S>()), v), "exact");
  } else if (which == 1) {
    S v = sym::str_upto(1, 2, "text"); for (size_t i = 0; i < v.size(); ++i) ascii &= (unsigned char)v[i] < 0x80;
    VS a(1, "--bb=" + v);
    try { po::store(po::command_line_parser(a).options(d).run(), m); } catch (std::exception&) { threw = true; }
    if (ascii) SYM_ASSERT(!threw && m.count("bb") == 1 && wsame(m["bb"].as<W>(), widen(v)), "exact"); else SYM_ASSERT(threw || m["bb"].as<W>().size() == v.size(), "not cut");
  } else {
    W v = wsym(Q(2, 3), "digits"); for (size_t i = 0; i < v.size(); ++i) ascii &= ((unsigned)v[i] - '0') < 10;
    VW a(1, L"--num=" + v); long val = 0; for (size_t i = 0; i < v.size(); ++i) val = val * 10 + (v[i] - L'0');
    try { po::store(po::wcommand_line_parser(a).options(d).run(), m); } catch (po::invalid_option_value&) { threw = true; }
    if (ascii) SYM_ASSERT(!threw && m["num"].as<int>() == val, "number"); else if (!threw) SYM_ASSERT((v[0] == L'-' || v[0] == L'+'), "only a sign besides ASCII digits");
  }
  sym::cover(ascii ? "ascii" : "other");
}
// several tokens, empty ones included: each combination of a narrow or wide option with a narrow or wide source hands over all of them
HARNESS(h_wide_tokens) {
  VS t; int n = 1 + sym::choice(Q(4, 5), "tokens"); for (int i = 0; i < n; ++i) { S x = sym::str_upto(0, Q(2, 2), "token"); for (size_t k = 0; k < x.size(); ++k) sym::assume(((unsigned char)x[k] < 0x80) & (k > 0 || x[k] != '-')); t.push_back(x); }
  bool wopt = sym::choice(2, "wide option"), wsrc = sym::choice(2, "wide source"), file = sym::choice(2, "stored directly");
  po::options_description d; if (wopt) d.add_options()("c,x", po::wvalue<VW>()->multitoken(), ""); else d.add_options()("c,x", po::value<VS>()->multitoken(), "");
  po::variables_map m;
  if (file) {
    po::parsed_options p(&d); po::option o; o.string_key = "c"; o.value = t; o.original_tokens = o.value; p.options.push_back(o);
    if (wsrc) { po::wparsed_options q(p); po::store(q, m); } else po::store(p, m);
  } else {
    VS a(1, "--c"); a.insert(a.end(), t.begin(), t.end());
    if (wsrc) po::store(po::wcommand_line_parser(widen(a)).options(d).run(), m); else po::store(po::command_line_parser(a).options(d).run(), m);
  }
  SYM_ASSERT(m.count("c") == 1, "stored");
  if (wopt) SYM_ASSERT(wsame(m["c"].as<VW>(), widen(t)), "every token, in order"); else SYM_ASSERT(sym::same(m["c"].as<VS>(), t), "every token, in order");
  sym::cover("ok");
}
HARNESS(h_wide_split) {
  S t = sym::str_upto(0, Q(5, 7), "text", "a \"'\\n"); VS n; VW w; S en, ew;
  bool bn = false, bw = false;
  try { n = po::split_unix(t); } catch (std::exception& e) { bn = true; en = e.what(); }
  try { w = po::split_unix(widen(t)); } catch (std::exception& e) { bw = true; ew = e.what(); }
  SYM_ASSERT(bn == bw && eqs(en, ew), "the same outcome"); if (!bn && !bw) SYM_ASSERT(wsame(widen(n), w), "the same words");
  sym::observe(n, "word"); sym::cover(bn ? "error" : "ok");
}
HARNESS(h_wide_argv) {          // argc/argv constructors and parse_command_line
  po::options_description d; declare<char>(d);
  S x = sym::str_upto(0, Q(3, 4), "text", "-=ab"); W wx = widen(x);
  const char* av[] = {"prog", x.c_str(), "-b"}; const wchar_t* wv[] = {L"prog", wx.c_str(), L"-b"};
  S en, ew; po::parsed_options* pn = 0; po::wparsed_options* pw = 0; VS a; a.push_back(x); a.push_back("-b"); std::vector<po::option> direct; S ed;
  Kind kn = kind_of([&] { pn = new po::parsed_options(po::parse_command_line(3, av, d)); }, en), kw = kind_of([&] { pw = new po::wparsed_options(po::parse_command_line(3, wv, d)); }, ew);
  Kind kd = kind_of([&] { direct = po::command_line_parser(a).options(d).run().options; }, ed);
  SYM_ASSERT(kn == kw && eqs(en, ew) && kn == kd && eqs(en, ed), "the same outcome and message");
  sym::observe_int(kn, "kind");
  if (kn != OK || kw != OK || kd != OK) { sym::cover("error"); return; }
  same_options(pn->options, pw->options); SYM_ASSERT(direct.size() == pn->options.size(), "argv without the program name");
  for (size_t i = 0; i < direct.size() && i < pn->options.size(); ++i) SYM_ASSERT(sym::same(direct[i].original_tokens, pn->options[i].original_tokens), "argv without the program name");
  sym::cover("ok");
}
HARNESS(h_wide_long) {          // long tokens, many of them, free characters in the middle
  VS a; S f = sym::str_of(2, "text", "-=ab x"); int len = 28 + 4 * sym::choice(3, "len"), at = sym::choice(4, "at");
  for (int i = 0; i < 8; ++i) {
    S x(len + i, char('k' + i)); if (i / 2 == at) x = S(len, 'y') + f + S(len, 'z');
    switch (i % 5) { case 0: a.push_back("--ab=" + x); if (i) a.pop_back(); break; case 1: a.push_back("--c"); a.push_back(x); a.push_back(f.substr(0, 1) == "-" ? S("q") : f); break; case 2: a.push_back("-x" + x); break; case 3: a.push_back("--c=" + x + x + x); break; case 4: a.push_back("-f1"); a.push_back("--num=000000000000000000000000000000000012"); break; }
  }
  both(a, ps::default_style, false, true);
}
HARNESS(h_wide_exact_long) {    // long non-ASCII values
  po::options_description d; W store; d.add_options()("aa,a", po::wvalue<W>(&store), "")("vv,v", po::wvalue<VW>()->multitoken(), "")("s.b", po::wvalue<W>(), "");
  static const wchar_t fill[] = {L'k', 0xE9, 0x20AC, 0x1F600};
  W c = wsym(1, "char"); sym::assume(((unsigned)c[0] > 32) & (c[0] != L'#')); int n = 26 + 2 * sym::choice(5, "before"), k = sym::choice(4, "filler");
  W v; for (int i = 0; i < n; ++i) v += fill[(i + k) % 4]; v += c; for (int i = 0; i < 40; ++i) v += fill[(i * 3 + k) % 4];
  po::variables_map m; S what; int how = sym::choice(3, "how"); VW want;
  Kind q = kind_of([&] {
    if (how == 0) { VW a(1, L"--aa=" + v); po::store(po::wcommand_line_parser(a).options(d).run(), m); }
    else if (how == 1) { VW a(1, L"-v" + v); for (int i = 0; i < 8; ++i) { W x = v; x += fill[i % 4]; a.push_back(x); want.push_back(x); } want.insert(want.begin(), v); po::store(po::wcommand_line_parser(a).options(d).run(), m); }
    else { std::wistringstream is(L"# " + v + L"\n[s]\nb=" + v + L"\n[]\naa = " + v + L" # x"); po::store(po::parse_config_file(is, d), m); }
    po::notify(m); }, what);
  SYM_ASSERT(q == OK, "accepted"); if (q != OK) return;
  if (how != 1) SYM_ASSERT(m.count("aa") && wsame(m["aa"].as<W>(), v) && wsame(store, v), "exactly the given characters");
  else SYM_ASSERT(m.count("vv") && wsame(m["vv"].as<VW>(), want), "exactly the given characters, in order");
  if (how == 2) SYM_ASSERT(m.count("s.b") && wsame(m["s.b"].as<W>(), v), "exactly the given characters");
  sym::cover("ok");
}
