// Structured errors (C39), value semantics written by the user (C40), exceptions of the user's code (C41),
// order of declarations (C42).
#include "model.h"
#include <sstream>
#include <boost/optional.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/lexical_cast.hpp>
#include <algorithm>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
typedef po::invalid_syntax IS; typedef po::validation_error VE;
// ---- C39: most derived type, kind, and the accessors
struct Err { int type, kind; S name, what, tok; VS alt; Err() : type(0), kind(0) {} };
enum { NONE, T_UNKNOWN, T_AMBIG, T_CMD, T_CFG, T_MULTIOCC, T_BOOL, T_VALUE, T_VALID, T_REQUIRED, T_TOOMANY, T_STYLE, T_READING, T_MULTIVAL, T_NAME, T_ERROR };
template <class F> static Err fails(F f) {
  Err r;
  try { f(); return r; }
  catch (po::unknown_option& e) { r.type = T_UNKNOWN; r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::ambiguous_option& e) { r.type = T_AMBIG; r.name = e.get_option_name(); r.what = e.what(); r.alt = e.alternatives(); }
  catch (po::invalid_command_line_syntax& e) { r.type = T_CMD; r.kind = e.kind(); r.name = e.get_option_name(); r.tok = e.tokens(); r.what = e.what(); }
  catch (po::invalid_config_file_syntax& e) { r.type = T_CFG; r.kind = e.kind(); r.tok = e.tokens(); r.what = e.what(); }
  catch (po::multiple_occurrences& e) { r.type = T_MULTIOCC; r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::invalid_bool_value& e) { r.type = T_BOOL; r.kind = e.kind(); r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::invalid_option_value& e) { r.type = T_VALUE; r.kind = e.kind(); r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::validation_error& e) { r.type = T_VALID; r.kind = e.kind(); r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::required_option& e) { r.type = T_REQUIRED; r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::multiple_values& e) { r.type = T_MULTIVAL; r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::error_with_option_name& e) { r.type = T_NAME; r.name = e.get_option_name(); r.what = e.what(); }
  catch (po::too_many_positional_options_error& e) { r.type = T_TOOMANY; r.what = e.what(); }
  catch (po::invalid_command_line_style& e) { r.type = T_STYLE; r.what = e.what(); }
  catch (po::reading_file& e) { r.type = T_READING; r.what = e.what(); }
  catch (po::error& e) { r.type = T_ERROR; r.what = e.what(); }
  return r;
}
static void is(const Err& e, int type, int kind, const S& name) {
  SYM_ASSERT(e.type == type, "the documented type of error"); if (e.type != type) return;
  SYM_ASSERT(e.kind == kind, "the kind of the error");
  SYM_ASSERT(eqs(e.name, name), "get_option_name is the option concerned, with the prefix of the style");
  SYM_ASSERT(e.name.empty() || e.what.find(e.name) != S::npos, "and the message has it"); SYM_ASSERT(e.what.find('%') == S::npos || name.find('%') != S::npos, "no placeholder is left");
}
static const int A_STYLE[] = {ps::unix_style & ~ps::allow_guessing, ps::allow_long_disguise | ps::long_allow_adjacent | ps::long_allow_next, ps::allow_short | ps::allow_dash_for_short | ps::short_allow_adjacent | ps::short_allow_next, ps::allow_short | ps::allow_slash_for_short | ps::short_allow_adjacent | ps::short_allow_next};
HARNESS(h_err_kinds) {
  S nm = "n" + sym::str_of(Q(3, 5), "name", "abm"), v = sym::str_upto(1, Q(3, 5), "value"); for (size_t i = 0; i < v.size(); ++i) sym::assume((v[i] != 0) & (v[i] != '%')); int st = sym::choice(4, "style"), w = sym::choice(8, "error");
  S longs = nm + ",m"; po::options_description d; S flag = "f" + nm + ",f", bl = "b" + nm + ",b", vec = "v" + nm + ",v", req = "r" + nm + ",r", non = "z" + nm + ",z";
  d.add_options()(longs.c_str(), po::value<int>(), "")(flag.c_str(), "")(bl.c_str(), po::value<bool>(), "")(vec.c_str(), po::value<VS>()->multitoken(), "")(non.c_str(), po::value<int>()->zero_tokens(), "");
  // how an option is given and how it is shown in each style
  auto arg = [&](const S& lg, char sh, const S& adj) { return st == 0 ? "--" + lg + (adj.empty() ? S() : "=" + adj) : st == 1 ? "-" + lg + (adj.empty() ? S() : "=" + adj) : (st == 2 ? S("-") : S("/")) + sh + adj; };
  auto shown = [&](const S& lg, char sh) { return st == 0 ? "--" + lg : st == 1 ? "-" + lg : (st == 2 ? S("-") : S("/")) + sh; };
  VS a; int type = NONE, kind = 0; S name;
  switch (w) {
    case 0: a.push_back(arg(nm, 'm', "")); type = T_CMD; kind = IS::missing_parameter; name = shown(nm, 'm'); break;
    case 1: a.push_back(arg("f" + nm, 'f', v)); type = T_CMD; kind = IS::extra_parameter; name = shown("f" + nm, 'f'); break;
    case 2: a.push_back(arg(nm, 'm', "5")); a.push_back(arg(nm, 'm', "6")); type = T_MULTIOCC; name = shown(nm, 'm'); break;
    case 3: a.push_back(arg(nm, 'm', "x" + v)); type = T_VALUE; kind = VE::invalid_option_value; name = shown(nm, 'm'); break;
    case 4: a.push_back(arg("b" + nm, 'b', "x" + v)); type = T_BOOL; kind = VE::invalid_bool_value; name = shown("b" + nm, 'b'); break;
    case 5: a.push_back(arg("q" + nm, 'q', "")); type = T_UNKNOWN; if (st == 0) { name = "--q" + nm; } else if (st == 1) return; else name = shown("", 'q'); break;
    case 6: a.push_back(arg("z" + nm, 'z', "")); type = T_VALID; kind = VE::at_least_one_value_required; name = shown("z" + nm, 'z'); break;
    case 7: if (st > 1) return; a.push_back((st ? "-" : "--") + nm + "="); type = T_CMD; kind = IS::empty_adjacent_parameter; name = shown(nm, 'm'); break;
  }
  Err e = fails([&] { po::variables_map m; po::store(po::command_line_parser(a).options(d).style(A_STYLE[st]).run(), m); });
  if (w == 7 && st) { SYM_ASSERT(e.type == type && e.kind == kind && pre(name, e.name), "the token that ends in = is shown"); sym::cover("ok"); return; }
  is(e, type, kind, name);
  if (type == T_CMD) SYM_ASSERT(eqs(e.tok, name), "tokens() is the option");
  sym::observe(e.what, "what"); sym::cover("ok");
}
HARNESS(h_err_config) {         // configuration files and hand-made options: names without prefix
  S nm = "n" + sym::str_of(Q(3, 5), "name", "ab7"), v = sym::str_upto(1, Q(3, 5), "value"); for (size_t i = 0; i < v.size(); ++i) sym::assume((unsigned char)v[i] > 32 && !sym::in(v[i], "%#=[]*") ); int w = sym::choice(8, "error"); S req = "r" + nm, vec = "v" + nm;
  po::options_description d; d.add_options()(nm.c_str(), po::value<int>(), "")(vec.c_str(), po::value<VS>(), "")(("o" + nm).c_str(), po::value<S>(), ""); Err e; bool allow = sym::choice(2, "allow");
  auto file = [&](const S& t) { std::istringstream is(t); po::variables_map m; po::store(po::parse_config_file(is, d, allow), m); po::notify(m); };
  switch (w) {
    case 0: e = fails([&] { file(nm + " = 1\n" + v + " # comment\n"); }); is(e, T_CFG, IS::unrecognized_line, ""); SYM_ASSERT(eqs(e.tok, v), "tokens() is the line"); break;
    case 1: e = fails([&] { file("[q]\n" + nm + "=" + v + "\n"); }); if (allow) { SYM_ASSERT(e.type == NONE, "allowed"); break; } is(e, T_UNKNOWN, 0, "q." + nm); break;
    case 2: e = fails([&] { file(nm + "=1\n" + nm + "=2\n"); }); is(e, T_MULTIOCC, 0, nm); break;
    case 3: e = fails([&] { file(nm + "=x" + v + "\n"); }); is(e, T_VALUE, VE::invalid_option_value, nm); break;
    case 4: d.add_options()(req.c_str(), po::value<S>()->required(), ""); e = fails([&] { file(nm + "=1\n"); }); is(e, T_REQUIRED, 0, req); break;
    case 5: { po::parsed_options p(&d); po::option o; o.string_key = "o" + nm; o.value.push_back(v); o.value.push_back("w"); p.options.push_back(o); e = fails([&] { po::variables_map m; po::store(p, m); }); is(e, T_VALID, VE::multiple_values_not_allowed, "o" + nm); break; }
    case 6: { po::parsed_options p(&d); po::option o; o.string_key = "q" + nm; o.value.push_back(v); p.options.push_back(o); e = fails([&] { po::variables_map m; po::store(p, m); }); is(e, T_UNKNOWN, 0, "q" + nm); break; }
    case 7: { d.add_options()(("w" + nm + "*").c_str(), po::value<int>(), ""); e = fails([&] { file("w" + nm + v + "=x\n"); }); is(e, T_VALUE, VE::invalid_option_value, "w" + nm + v); break; }
  }
  sym::observe(e.what, "what"); sym::cover("ok");
}
HARNESS(h_err_setters) {         // error objects made and filled by hand (by a validator, say)
  S n = sym::str_upto(0, Q(2, 3), "name", "-/ab"), t = sym::str_upto(0, Q(2, 3), "token", "-/ab"); static const int st[] = {0, ps::allow_long, ps::allow_long_disguise, ps::allow_dash_for_short, ps::allow_slash_for_short}; int k = sym::choice(5, "style"), how = sym::choice(4, "how");
  auto strip = [](const S& x) { size_t i = x.find_first_not_of("-/"); return i == S::npos ? x : x.substr(i); };
  S sn = strip(n), stt = strip(t), want; const char* pre[] = {"", "--", "-", "-", "/"};
  if (n.empty()) want = t; else if (k == 1 || k == 2) want = pre[k] + sn; else if (k && !stt.empty()) want = pre[k] + stt.substr(0, 1); else want = sn;
  auto check = [&](po::error_with_option_name& e, const S& w) { S g = e.get_option_name(), m = e.what(), m2 = e.what(); SYM_ASSERT(eqs(g, w), "get_option_name"); SYM_ASSERT(eqs(m, m2) && m.find("%") == S::npos && (w.empty() || m.find("'" + w + "'") != S::npos), "the message has it"); };
  if (how == 0) { po::validation_error e(VE::multiple_values_not_allowed, n, t, st[k]); SYM_ASSERT(e.kind() == VE::multiple_values_not_allowed, "kind"); check(e, want); e.add_context("other", "--other", ps::allow_long); check(e, "--other"); }
  else if (how == 1) { po::multiple_occurrences e; e.add_context(n, t, st[k]); check(e, want); e.set_option_name("zz"); e.set_prefix(ps::allow_long); check(e, "--zz"); }
  else if (how == 2) { po::invalid_command_line_syntax e(IS::missing_parameter, n, t, st[k]); SYM_ASSERT(e.kind() == IS::missing_parameter && eqs(e.tokens(), want), "kind and tokens"); check(e, want); }
  else { po::unknown_option e(t); e.add_context(n, t, st[k]); check(e, t); }       // has no option, only the token
  sym::cover("ok");
}
HARNESS(h_err_many) {           // none, two or three values for one occurrence, of every kind of option, in any content
  int w = sym::choice(6, "type"), n = sym::choice(4, "tokens"); if (n == 1) return; S nm = "n" + sym::str_of(Q(1, 3), "name", "ab7"); po::options_description d;
  switch (w) {
    case 0: d.add_options()(nm.c_str(), po::value<S>(), ""); break;
    case 1: d.add_options()(nm.c_str(), po::value<int>(), ""); break;
    case 2: d.add_options()(nm.c_str(), po::value<bool>(), ""); break;
    case 3: d.add_options()(nm.c_str(), po::value<boost::optional<int> >(), ""); break;
    case 4: d.add_options()(nm.c_str(), po::wvalue<std::wstring>(), ""); break;
    case 5: d.add_options()(nm.c_str(), new po::untyped_value(sym::choice(2, "zero") != 0), ""); break;
  }
  po::parsed_options p(&d, sym::choice(2, "cmdline") ? ps::allow_long : 0); po::option o; o.string_key = nm; if (p.m_options_prefix) o.original_tokens.push_back("--" + nm);
  for (int i = 0; i < n; ++i) { S t = sym::str_upto(0, Q(2, 3), "token"); for (size_t k = 0; k < t.size(); ++k) sym::assume((t[k] != 0) & (t[k] != '%') & ((unsigned char)t[k] < 128)); o.value.push_back(t); }
  p.options.push_back(o); po::variables_map m; Err e = fails([&] { po::store(p, m); }); S shown = (p.m_options_prefix ? "--" : "") + nm;
  if (n == 0) { if (w == 2 || w == 5) { SYM_ASSERT(e.type == NONE && m.count(nm) == 1 && (w == 2 ? m[nm].as<bool>() : m[nm].as<S>().empty()), "no value is true, or empty"); sym::cover("none"); return; } is(e, T_VALID, VE::at_least_one_value_required, shown); }
  else if (w == 5) is(e, T_MULTIVAL, 0, shown); else is(e, T_VALID, VE::multiple_values_not_allowed, shown);
  SYM_ASSERT(m[nm].empty(), "nothing is stored"); sym::observe(e.what, "what"); sym::cover("error");
}
HARNESS(h_err_made) {           // every kind of error made by hand: kind, name, message
  S n = sym::str_of(Q(2, 4), "name", "ab7"), v = sym::str_of(Q(2, 4), "value", "xy'"); int w = sym::choice(3, "class"), k, style = sym::choice(2, "style") ? ps::allow_long : 0; S shown = (style ? "--" : "") + n, tok = "--" + n;
  auto check = [&](const po::error_with_option_name& e) {
    S g = e.get_option_name(), m = e.what(); SYM_ASSERT(eqs(g, shown), "get_option_name"); SYM_ASSERT(m.find("'" + shown + "'") != S::npos && m.find('%') == S::npos, "the message has the name and no placeholder"); sym::observe(m, "what"); return m; };
  if (w == 0) {
    static const IS::kind_t kinds[] = {IS::long_not_allowed, IS::long_adjacent_not_allowed, IS::short_adjacent_not_allowed, IS::empty_adjacent_parameter, IS::missing_parameter, IS::extra_parameter}; k = sym::choice(6, "kind");
    po::invalid_command_line_syntax e(kinds[k], n, tok, style); check(e); SYM_ASSERT(e.kind() == kinds[k] && eqs(e.tokens(), shown), "kind and tokens");
    po::invalid_command_line_syntax o(kinds[(k + 1) % 6], n, tok, style); SYM_ASSERT(S(o.what()) != S(e.what()), "different kinds read differently");
    try { throw e; } catch (const po::invalid_syntax& c) { SYM_ASSERT(c.kind() == kinds[k] && eqs(c.what(), e.what()), "and survives being thrown"); }
  } else if (w == 1) {
    static const VE::kind_t kinds[] = {VE::multiple_values_not_allowed, VE::at_least_one_value_required, VE::invalid_bool_value, VE::invalid_option_value, VE::invalid_option}; k = sym::choice(5, "kind");
    po::validation_error e(kinds[k], n, tok, style); e.set_substitute("value", v); S m = check(e); SYM_ASSERT(e.kind() == kinds[k], "kind"); if (k == 2 || k == 3) SYM_ASSERT(m.find("('" + v + "')") != S::npos, "the message has the value");
    po::validation_error late(kinds[k]); late.set_substitute("value", v); late.add_context(n, tok, style); SYM_ASSERT(eqs(late.what(), m), "named at once or later");
    po::validation_error none(kinds[k]); m = none.what(); SYM_ASSERT(m.find("''") == S::npos && m.find('%') == S::npos, "without names it reads without them");
  } else {
    k = sym::choice(5, "kind"); S m;
    if (k == 0) { po::multiple_values e; e.add_context(n, tok, style); check(e); }
    if (k == 1) { po::multiple_occurrences e; e.add_context(n, tok, style); check(e); }
    if (k == 2) { po::required_option e(n); shown = n; check(e); e.add_context(n, tok, style); shown = (style ? "--" : "") + n; check(e); }
    if (k == 3) { po::invalid_option_value e(v); e.add_context(n, tok, style); m = check(e); SYM_ASSERT(e.kind() == VE::invalid_option_value && m.find("('" + v + "')") != S::npos, "kind and value"); po::invalid_option_value x(std::wstring(v.begin(), v.end())); x.add_context(n, tok, style); SYM_ASSERT(eqs(x.what(), m), "wide or not"); }
    if (k == 4) { po::invalid_bool_value e(v); e.add_context(n, tok, style); m = check(e); SYM_ASSERT(e.kind() == VE::invalid_bool_value && m.find("('" + v + "')") != S::npos, "kind and value"); }
  }
  sym::cover("ok");
}
// ---- C40
struct Log { S text; };
struct Semantic : po::value_semantic {
  unsigned mn, mx; bool comp, req, def; Log* log;
  Semantic(unsigned a, unsigned b, bool c, bool r, bool d, Log* l) : mn(a), mx(b), comp(c), req(r), def(d), log(l) {}
  S name() const { return "SEM"; } unsigned min_tokens() const { return mn; } unsigned max_tokens() const { return mx; } bool is_composing() const { return comp; } bool is_required() const { return req; }
  void parse(boost::any& v, const VS& t, bool utf8) const { VS x; if (!v.empty()) { x = boost::any_cast<VS>(v); log->text += "+"; } log->text += utf8 ? "P8(" : "P("; for (size_t i = 0; i < t.size(); ++i) { log->text += t[i] + ","; x.push_back(t[i]); } log->text += ")"; v = boost::any(x); }
  bool apply_default(boost::any& v) const { log->text += "D"; if (def) v = boost::any(VS(1, "default")); return def; }
  void notify(const boost::any& v) const { log->text += "N("; const VS* x = boost::any_cast<VS>(&v); if (x) for (size_t i = 0; i < x->size(); ++i) log->text += (*x)[i] + ","; else log->text += "?"; log->text += ")"; }
};
HARNESS(h_arity) {       // at least min tokens, at most max, whatever they are
  static const unsigned big = 40; Log log;
  unsigned mn = sym::choice(4, "min"), mx = mn + sym::choice(4, "more"); if (mx == mn + 3) mx = big;
  po::options_description d; d.add_options()("sem,s", new Semantic(mn, mx, false, false, false, &log), "")("flag,f", "")("one,o", po::value<S>(), "");
  std::vector<MOpt> o(3); o[0].longs.push_back("sem"); o[0].sh = 's'; o[0].min = mn; o[0].max = mx; o[1].longs.push_back("flag"); o[1].sh = 'f'; o[1].min = o[1].max = 0; o[2].longs.push_back("one"); o[2].sh = 'o'; o[2].min = o[2].max = 1;
  VS a; static const char* const form[] = {"--sem", "--sem=v", "-s", "-sv", "-fs", "--s=v=w"}; if (sym::choice(2, "before")) a.push_back("p");
  a.push_back(form[sym::choice(6, "form")]);
  static const char* const tok[] = {"x", "-f", "--flag", "--", "-1", ""}; int n = sym::choice(Q(5, 6), "n"), special = n ? sym::choice(n, "place") : 0;
  for (int i = 0; i < n; ++i) if (i == special) { int t = sym::choice(7, "token"); a.push_back(t == 6 ? sym::str_of(2, "text", "x-f1") : S(tok[t])); } else a.push_back(i % 2 ? "y" : "x");
  MCfg c; Model m(o, c); m.run(a);
  if (m.r.unspec) { sym::cover("open"); return; }
  std::vector<po::option> got; po::parsed_options p(&d);
  Kind k = run_kind([&] { p = po::command_line_parser(a).options(d).run(); });
  SYM_ASSERT(k == m.r.kind, "outcome");
  if (k != m.r.kind) return;
  if (k != OK) { SYM_ASSERT(log.text.empty(), "nothing is parsed on failure"); sym::cover("error"); return; }
  compare(p.options, m.r);
  for (size_t i = 0; i < p.options.size(); ++i) if (p.options[i].string_key == "sem") SYM_ASSERT(p.options[i].value.size() >= mn && p.options[i].value.size() <= mx, "as many values as declared");
  sym::cover("ok");
}
HARNESS(h_protocol) {     // what a value semantic is asked, in what order, with what
  Log log; bool comp = sym::choice(2, "composing"), req = sym::choice(2, "required"), def = sym::choice(2, "default"), wide = sym::choice(2, "wide"); po::options_description d; d.add_options()("sem,s", new Semantic(0, 40, comp, req, def, &log), "")("other,o", po::value<VS>(), "");
  po::variables_map m; S want; VS cur; bool given = false, fin = false, isdef = false; int ns = 1 + sym::choice(Q(2, 3), "sources");
  for (int s = 0; s < ns; ++s) {
    VS a; int n = sym::choice(3, "occurrences"); VS occ[2]; bool mid = n && sym::choice(2, "other between");
    for (int i = 0; i < n; ++i) { a.push_back("--sem"); int t = sym::choice(3, "tokens"); for (int q = 0; q < t; ++q) { S x = sym::str_of(1, "token", "uvw"); a.push_back(x); occ[i].push_back(x); } if (mid) a.push_back("-oz"); }
    log.text.clear(); want.clear();
    if (wide) { std::vector<std::wstring> w; for (size_t i = 0; i < a.size(); ++i) w.push_back(std::wstring(a[i].begin(), a[i].end())); po::store(po::wcommand_line_parser(w).options(d).run(), m); } else po::store(po::command_line_parser(a).options(d).run(), m);
    bool skip = fin;
    for (int i = 0; i < n && !skip; ++i) {
      if (isdef) { cur.clear(); isdef = given = false; }
      want += given ? "+" : ""; want += wide ? "P8(" : "P("; for (size_t q = 0; q < occ[i].size(); ++q) { want += occ[i][q] + ","; cur.push_back(occ[i][q]); } want += ")"; given = true; if (!comp) fin = true;
    }
    if (!given) { want += "D"; if (def) { cur.assign(1, "default"); given = isdef = true; } }
    SYM_ASSERT(eqs(log.text, want), "parse once per occurrence with exactly its tokens, the default only without a value");
  }
  SYM_ASSERT((m.count("sem") != 0) == given, "a value if one was given or there is a default");
  if (given) { SYM_ASSERT(sym::same(m["sem"].as<VS>(), cur), "the value it made"); SYM_ASSERT(m["sem"].defaulted() == isdef, "defaulted"); }
  log.text.clear(); bool threw = false; try { po::notify(m); } catch (po::required_option& e) { threw = true; }
  SYM_ASSERT(threw == (req && !given), "required");
  S x = "N("; for (size_t i = 0; i < cur.size(); ++i) x += cur[i] + ","; x += ")"; if (threw || !given) x.clear();
  SYM_ASSERT(eqs(log.text, x), "notified once with the final value");
  sym::cover(given ? "value" : "none");
}
HARNESS(h_declared) {     // the built-in semantics say what was declared, in whatever order it was declared
  int w = sym::choice(3, "kind");
  if (w == 0) {
    bool z = sym::choice(2, "zero"); po::untyped_value u(z); const po::value_semantic& v = u; boost::any a;
    SYM_ASSERT(v.min_tokens() == (z ? 0u : 1u) && v.max_tokens() == (z ? 0u : 1u) && !v.is_composing() && !v.is_required() && !v.apply_default(a) && a.empty() && v.name() == po::arg, "an untyped value takes one token, or none");
    po::options_description d; d.add_options()("uu,u", new po::untyped_value(z), "")("vv", new po::untyped_value(z), "");      // new untyped_value() is what value-less overloads hide
    S x = sym::str_of(Q(2, 4), "value", "ab=1"); VS c; int f = sym::choice(4, "form"); c.push_back(f == 0 ? "--uu" : f == 1 ? "--uu=" + x : f == 2 ? "-u" + x : "-u"); if (f == 0 || f == 3) c.push_back(x);
    po::variables_map m; Kind k = run_kind([&] { po::store(po::command_line_parser(c).options(d).run(), m); });
    if (!z) { SYM_ASSERT(k == OK && m.count("uu") == 1 && eqs(m["uu"].as<S>(), x), "exactly the one token"); }
    else if (f == 1) SYM_ASSERT(k != OK, "takes none"); else if (f == 0 || f == 3) SYM_ASSERT(k != OK || (m.count("uu") == 1 && m["uu"].as<S>().empty()), "takes none");
    sym::cover("untyped"); return;
  }
  bool comp = sym::choice(2, "composing"), req = sym::choice(2, "required"), def = sym::choice(2, "default"); int ar = sym::choice(4, "arity"), order = sym::choice(4, "order");
  S dv = sym::str_of(1, "default", "de"), iv = sym::str_of(1, "implicit", "ij");
  boost::scoped_ptr<po::typed_value<S> > t(po::value<S>());
  for (int i = 0; i < 4; ++i) switch ((i * (order % 2 ? 3 : 1) + order) % 4) {
    case 0: if (comp) t->composing(); break; case 1: if (req) t->required(); break; case 2: if (def) t->default_value(dv); break;
    case 3: if (ar == 1) t->multitoken(); if (ar == 2) t->zero_tokens(); if (ar == 3) t->implicit_value(iv); break;
  }
  const po::value_semantic& v = *t; boost::any a;
  SYM_ASSERT(v.is_composing() == comp && v.is_required() == req, "composing and required as declared");
  SYM_ASSERT(v.min_tokens() == (ar >= 2 ? 0u : 1u) && v.max_tokens() == (ar == 1 ? ~0u : ar == 2 ? 0u : 1u), "arity as declared");
  SYM_ASSERT(v.apply_default(a) == def && a.empty() == !def, "default as declared"); if (def) SYM_ASSERT(eqs(boost::any_cast<S>(a), dv), "the default value");
  SYM_ASSERT(t->value_type() == typeid(S), "type"); const po::typed_value_base* b = dynamic_cast<const po::typed_value_base*>(&v); SYM_ASSERT(b && b->value_type() == typeid(S), "and through the base");
  if (w == 1) { boost::any p; S x = sym::str_upto(0, 2, "token"); VS tok; if (ar != 2) tok.push_back(x); bool thrown = false; try { v.parse(p, ar == 3 ? VS() : tok, false); } catch (po::validation_error& e) { thrown = true; SYM_ASSERT(tok.empty(), "a string needs a token"); } if (!thrown) { SYM_ASSERT(eqs(boost::any_cast<S>(p), ar == 3 ? iv : x), "parse makes the value"); } else SYM_ASSERT(ar == 2 && p.empty(), "or nothing"); }
  sym::cover("typed");
}
// ---- C41
struct Mine { S text; int n; Mine(const S& t, int k) : text(t), n(k) {} };                 // not a std::exception
struct MineStd : std::runtime_error { int n; MineStd(const S& t, int k) : std::runtime_error(t), n(k) {} };
struct MinePo : po::error { int n; MinePo(const S& t, int k) : po::error(t), n(k) {} };
static void raise(int how, const S& t, int n) { if (how == 0) throw Mine(t, n); if (how == 1) throw MineStd(t, n); throw MinePo(t, n); }
template <class F> static bool arrives(int how, const S& t, int n, F f) {
  try { f(); }
  catch (Mine& e) { return how == 0 && eqs(e.text, t) && e.n == n; }
  catch (MineStd& e) { return how == 1 && eqs(e.what(), t) && e.n == n; }
  catch (MinePo& e) { return how == 2 && eqs(e.what(), t) && e.n == n; }
  catch (...) { return false; }
  return false;
}
struct Thrower : po::value_semantic {
  int where, how, n; S text; bool* armed; int* calls;
  Thrower(int w, int h, const S& t, int k, bool* a, int* c = 0) : where(w), how(h), n(k), text(t), armed(a), calls(c) {}
  S name() const { return "T"; } unsigned min_tokens() const { return 0; } unsigned max_tokens() const { return 1; } bool is_composing() const { return false; } bool is_required() const { return false; }
  void parse(boost::any& v, const VS& t, bool) const { if (*armed && where == 0) raise(how, text, n); v = boost::any(t.empty() ? S("none") : t[0]); }
  bool apply_default(boost::any& v) const { if (*armed && where == 1) raise(how, text, n); v = boost::any(S("default")); return true; }
  void notify(const boost::any&) const { if (calls) ++*calls; if (*armed && where == 2) raise(how, text, n); }
};
HARNESS(h_throw_semantic) {      // out of parse, apply_default and notify
  int where = sym::choice(3, "where"), how = sym::choice(3, "type"), n = sym::byte("number"); S t = sym::str_upto(1, Q(2, 3), "text"); for (size_t i = 0; i < t.size(); ++i) sym::assume(t[i] != 0);
  bool armed = true; int before = 0, after = 0, mid = 0; po::options_description d;
  d.add_options()("aa,a", po::value<S>()->notifier([&](const S&) { ++before; }), "")("mm,m", new Thrower(where, how, t, n, &armed, &mid), "")("zz,z", po::value<S>()->notifier([&](const S&) { ++after; }), "");
  VS a; a.push_back("--aa=1"); if (where != 1) a.push_back("-m2"); a.push_back("-z3"); po::variables_map m; po::parsed_options p = po::command_line_parser(a).options(d).run(); std::vector<po::option> keep = p.options;
  bool ok = arrives(how, t, n, [&] { po::store(p, m); SYM_ASSERT(where == 2, "store must fail"); po::notify(m); });
  SYM_ASSERT(ok, "the exception arrives unchanged");
  SYM_ASSERT(m.count("aa") == 1 && m["aa"].as<S>() == "1", "what came before stays");
  SYM_ASSERT(before == (where == 2) && after == 0, "nothing after the failure is notified");
  SYM_ASSERT(p.options.size() == keep.size(), "the source is not changed");
  armed = false; before = 0;            // afterwards everything works
  po::variables_map m2; po::store(p, m2); po::notify(m2);
  SYM_ASSERT(m2["mm"].as<S>() == (where == 1 ? "default" : "2") && m2["zz"].as<S>() == "3" && before == 1 && after == 1, "parsed options and description are as before");
  if (where == 2) { SYM_ASSERT(mid == 2, "notified"); po::notify(m); SYM_ASSERT(before == 2 && after == 2 && mid == 3, "notify can be repeated"); }
  sym::cover(where == 0 ? "parse" : where == 1 ? "default" : "notify");
}
HARNESS(h_throw_callback) {      // out of notifiers, mappers, additional and style parsers
  int where = sym::choice(4, "where"), how = sym::choice(3, "type"), n = sym::byte("number"); S t = sym::str_upto(1, Q(2, 3), "text"); for (size_t i = 0; i < t.size(); ++i) sym::assume(t[i] != 0);
  bool armed = true; S x = sym::str_of(1, "argument", "xy"); int at = sym::choice(3, "at"), calls = 0; S val = "before"; po::variables_map m;
  po::options_description d; d.add_options()("aa,a", po::value<S>(&val)->notifier([&](const S&) { ++calls; if (armed && where == 0) raise(how, t, n); }), "")("bb,b", "");
  VS a; for (int i = 0; i < 3; ++i) a.push_back(i == at ? "@" : x); a.insert(a.begin(), "--aa=v"); VS given = a;
  S e1 = "Xa=1", e2 = "Xb=2"; char* env[] = {&e1[0], &e2[0], 0}; extern char** environ; char** save = environ;
  auto go = [&](std::vector<po::option>& out) {
    if (where == 3) { environ = env; try { out = po::parse_environment(d, boost::function1<S, S>([&](const S& s) { if (armed && s == (at ? "Xb" : "Xa")) raise(how, t, n); return S("aa"); })).options; } catch (...) { environ = save; throw; } environ = save; return; }
    po::command_line_parser q(a); q.options(d);
    if (where == 1) q.extra_parser([&](const S& s) { if (armed && s == "@") raise(how, t, n); return std::pair<S, S>(); });
    if (where == 2) q.extra_style_parser([&](VS& v) { if (armed && v[0] == "@") raise(how, t, n); return std::vector<po::option>(); });
    po::parsed_options p = q.run(); out = p.options; if (where == 0) { if (m.empty()) po::store(p, m); po::notify(m); }
  };
  std::vector<po::option> o1, o2; bool ok = arrives(how, t, n, [&] { go(o1); });
  SYM_ASSERT(ok, "the exception arrives unchanged"); SYM_ASSERT(sym::same(a, given), "the arguments are not changed");
  if (where != 0) SYM_ASSERT(val == "before", "no target is written");
  armed = false; go(o2); SYM_ASSERT(o2.size() == (where == 3 ? 2u : 4u), "afterwards everything works"); if (where == 0) SYM_ASSERT(calls == 2 && val == "v", "the same map can be notified again");
  sym::cover(where == 0 ? "notifier" : where == 1 ? "additional" : where == 2 ? "style" : "mapper");
}
struct UV { S text; }; struct UX { S text; };       // UV: validated by the user's validate; UX: by its own operator>>
static struct { bool armed; int how, n; S text; } g_user;
struct MineCast : std::bad_cast { S t; int n; MineCast(const S& x, int k) : t(x), n(k) {} const char* what() const noexcept { return t.c_str(); } };
static void raise_user(const S& s) { if (!g_user.armed || s != "@") return; if (g_user.how == 3) throw MineCast(g_user.text, g_user.n); if (g_user.how == 4) throw boost::bad_lexical_cast(); raise(g_user.how, g_user.text, g_user.n); }
static void validate(boost::any& v, const VS& xs, UV*, int) { raise_user(xs.at(0)); UV r; r.text = xs[0]; v = boost::any(r); }
static inline std::istream& operator>>(std::istream& is, UX& x) { char c; x.text.clear(); while (is.get(c)) x.text += c; is.clear(std::ios::eofbit); raise_user(x.text); return is; }
static inline std::ostream& operator<<(std::ostream& o, const UX& x) { return o << x.text; }
HARNESS(h_throw_validator) {     // out of the user's validate, for a value, an element and an optional
  g_user.armed = true; g_user.how = sym::choice(5, "type"); g_user.n = sym::byte("number"); g_user.text = sym::str_upto(1, Q(2, 3), "text"); for (size_t i = 0; i < g_user.text.size(); ++i) sym::assume(g_user.text[i] != 0);
  int w = sym::choice(4, "holder"), at = w == 1 ? sym::choice(3, "at") : 0; po::options_description d; VS a; a.push_back("--aa=1"); a.push_back("--mm"); int ran = 0;
  d.add_options()("aa,a", po::value<S>(), "");
  if (w == 0) d.add_options()("mm,m", po::value<UV>()->notifier([&](const UV&) { ++ran; }), ""); if (w == 1) d.add_options()("mm,m", po::value<std::vector<UV> >()->multitoken()->notifier([&](const std::vector<UV>&) { ++ran; }), ""); if (w == 2) d.add_options()("mm,m", po::value<boost::optional<UV> >()->notifier([&](const boost::optional<UV>&) { ++ran; }), "");
  if (w == 3) d.add_options()("mm,m", po::value<UX>()->notifier([&](const UX&) { ++ran; }), "");
  for (int i = 0; i < (w == 1 ? 3 : 1); ++i) a.push_back(i == at ? S("@") : sym::str_of(1, "element", "xy"));
  po::parsed_options p = po::command_line_parser(a).options(d).run(); po::variables_map m; int got = 0; S name, what;
  try { po::store(p, m); }
  catch (Mine& e) { got = 1; SYM_ASSERT(eqs(e.text, g_user.text) && e.n == g_user.n, "unchanged"); } catch (MineStd& e) { got = 2; SYM_ASSERT(eqs(e.what(), g_user.text) && e.n == g_user.n, "unchanged"); } catch (MinePo& e) { got = 3; SYM_ASSERT(eqs(e.what(), g_user.text) && e.n == g_user.n, "unchanged"); }
  catch (MineCast& e) { got = 4; SYM_ASSERT(eqs(e.t, g_user.text) && e.n == g_user.n, "unchanged"); } catch (boost::bad_lexical_cast&) { got = 5; } catch (po::invalid_option_value& e) { got = 6; name = e.get_option_name(); what = e.what(); }
  SYM_ASSERT(got == (g_user.how == 4 && (w == 1 || w == 3) ? 6 : g_user.how + 1), "the exception arrives; a bad_lexical_cast about an element becomes invalid_option_value");
  if (got == 6) SYM_ASSERT(name == "--mm" && what.find("'@'") != S::npos, "about the option and the element");
  SYM_ASSERT(m.count("aa") == 1 && m["aa"].as<S>() == "1" && !ran, "what came before stays");
  g_user.armed = false; po::variables_map m2; po::store(p, m2); po::notify(m2); SYM_ASSERT(ran == 1 && m2.count("mm") == 1, "afterwards everything works");
  if (w == 3) SYM_ASSERT(m2["mm"].as<UX>().text == "@", "the value"); if (w == 0) SYM_ASSERT(m2["mm"].as<UV>().text == "@", "the value"); if (w == 1) SYM_ASSERT(m2["mm"].as<std::vector<UV> >().size() == 3 && m2["mm"].as<std::vector<UV> >()[at].text == "@", "the elements"); if (w == 2) SYM_ASSERT(m2["mm"].as<boost::optional<UV> >()->text == "@", "the optional");
  sym::cover(got == 6 ? "converted" : "arrives");
}
HARNESS(h_throw_context) {       // the library's own errors out of user code get the option they belong to
  int how = sym::choice(3, "type"); S v = sym::str_upto(1, Q(2, 3), "value", "vw1"); bool shrt = sym::choice(2, "short");
  struct Sem : Thrower { int h; Sem(int k) : Thrower(3, 0, "", 0, 0), h(k) {} void parse(boost::any&, const VS& t, bool) const { if (h == 0) throw po::validation_error(VE::invalid_option_value); if (h == 1) throw po::invalid_option_value(t[0]); throw po::multiple_values(); } bool apply_default(boost::any&) const { return false; } };
  po::options_description d; d.add_options()("sem,s", new Sem(how), "")("other", po::value<S>(), "");
  VS a; a.push_back("--other=o"); a.push_back(shrt ? "-s" + v : "--sem=" + v);
  Err e = fails([&] { po::variables_map m; po::store(po::command_line_parser(a).options(d).run(), m); });
  is(e, how == 0 ? T_VALID : how == 1 ? T_VALUE : T_MULTIVAL, how == 2 ? 0 : VE::invalid_option_value, "--sem");
  if (how == 1) SYM_ASSERT(e.what.find("'" + v + "'") != S::npos, "and the value");
  sym::cover("ok");
}
// ---- C42
static void add_one(po::options_description& d, int i, S* log) {
  switch (i) {
    case 0: d.add_options()("ab,a", po::value<S>()->notifier([log](const S& v) { *log += "a" + v + ";"; }), ""); break;
    case 1: d.add_options()("abc,c", po::value<VS>()->multitoken()->composing(), ""); break;
    case 2: d.add_options()("b,x", po::bool_switch()->notifier([log](bool v) { *log += v ? "b1;" : "b0;"; }), ""); break;
    case 3: d.add_options()("bc,B", po::value<int>()->default_value(4), ""); break;
    case 4: d.add_options()("ca", po::value<S>()->required(), ""); break;
    case 5: d.add_options()("w.*", po::value<S>(), ""); break;
  }
}
// three of the six in two different orders
static void two_orders(po::options_description& d, po::options_description& e, S* l1, S* l2, int third) {
  static const int sets[5][3] = {{0, 1, 2}, {2, 3, 1}, {0, 4, 3}, {1, 5, 4}, {2, 3, 5}}; static const int ord[5][3] = {{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int* s = sets[sym::choice(5, "options")]; const int* o = ord[sym::choice(5, "order")];
  for (int i = 0; i < 3; ++i) add_one(d, s[i], l1); if (third == 1) d.add_options()("last,l", "");
  if (third == 1) { po::options_description g("group"); g.add_options()("last,l", ""); e.add(g); }        // in a group of its own, first
  for (int i = 0; i < 3; ++i) add_one(e, s[o[i]], l2);
}
struct Res { Err e; std::vector<po::option> o; };
template <class F> static Res result(F f) { Res r; r.e = fails([&] { r.o = f(); }); std::sort(r.e.alt.begin(), r.e.alt.end()); return r; }
static bool same_res(const Res& a, const Res& b) {
  if (a.e.type != b.e.type || a.e.kind != b.e.kind || a.o.size() != b.o.size()) return false;
  unsigned ok = (unsigned)eqs(a.e.name, b.e.name) & (unsigned)eqs(a.e.what, b.e.what) & (unsigned)sym::same(a.e.alt, b.e.alt);
  for (size_t i = 0; i < a.o.size(); ++i) ok &= (unsigned)eqs(a.o[i].string_key, b.o[i].string_key) & (unsigned)sym::same(a.o[i].value, b.o[i].value) & (unsigned)sym::same(a.o[i].original_tokens, b.o[i].original_tokens) & (unsigned)(a.o[i].position_key == b.o[i].position_key) & (unsigned)(a.o[i].unregistered == b.o[i].unregistered);
  return ok != 0;
}
HARNESS(h_order_cmdline) {
  S l1, l2; po::options_description d, e; two_orders(d, e, &l1, &l2, sym::choice(2, "more")); static const int sty[] = {ps::unix_style, ps::unix_style | ps::case_insensitive, ps::unix_style | ps::allow_long_disguise, ps::unix_style & ~ps::allow_guessing};
  int st = sty[sym::choice(Q(3, 4), "style")]; bool allow = sym::choice(2, "allow");
  VS a; static const char* const pf[] = {"--", "-"}; a.push_back(pf[sym::choice(2, "prefix")] + sym::str_upto(1, Q(3, 4), "text", "abcw.l=B")); if (sym::choice(2, "second")) a.push_back(sym::str_upto(1, 2, "text", "-ab"));
  auto go = [&](const po::options_description& x) { po::command_line_parser q(a); q.options(x).style(st); if (allow) q.allow_unregistered(); return q.run().options; };
  Res r1 = result([&] { return go(d); }), r2 = result([&] { return go(e); });
  SYM_ASSERT(same_res(r1, r2), "the order of declarations does not matter");
  sym::cover(r1.e.type ? "error" : "ok");
}
HARNESS(h_order_file) {
  S l1, l2; po::options_description d, e; two_orders(d, e, &l1, &l2, sym::choice(2, "more")); bool allow = sym::choice(2, "allow");
  S t = sym::str_upto(1, Q(4, 5), "text", "abcw.=l\n"); if (t.find('=') == S::npos) t += "=1\n"; t = "[w]\nab=5\n[]\n" + t;
  auto go = [&](const po::options_description& x) { std::istringstream is(t); return po::parse_config_file(is, x, allow).options; };
  Res r1 = result([&] { return go(d); }), r2 = result([&] { return go(e); });
  SYM_ASSERT(same_res(r1, r2), "the order of declarations does not matter");
  sym::cover(r1.e.type ? "error" : "ok");
}
HARNESS(h_order_store) {
  S l1, l2; po::options_description d, e; two_orders(d, e, &l1, &l2, 0); std::vector<po::option> o; int n = sym::choice(Q(3, 4), "n");
  for (int i = 0; i < n; ++i) { static const char* const key[] = {"ab", "abc", "b", "bc", "ca", "w.x"}; po::option x; x.string_key = key[sym::choice(6, "key")]; int t = sym::choice(2, "tokens"); for (int q = 0; q < t; ++q) x.value.push_back(sym::str_of(1, "token", "1x")); o.push_back(x); }
  po::variables_map m1, m2; auto go = [&](const po::options_description& x, po::variables_map& m) { po::parsed_options p(&x); p.options = o; po::store(p, m); po::notify(m); return std::vector<po::option>(); };
  Res r1 = result([&] { return go(d, m1); }), r2 = result([&] { return go(e, m2); });
  SYM_ASSERT(same_res(r1, r2) && eqs(l1, l2), "the order of declarations does not matter");
  if (r1.e.type == NONE) {
    SYM_ASSERT(m1.size() == m2.size(), "as many values"); if (m1.size() != m2.size()) return; po::variables_map::iterator i = m1.begin(), k = m2.begin();
    for (; i != m1.end(); ++i, ++k) { SYM_ASSERT(eqs(i->first, k->first) && i->second.defaulted() == k->second.defaulted() && i->second.value().type() == k->second.value().type(), "the same values");
      if (i->second.value().type() == typeid(S)) SYM_ASSERT(eqs(i->second.as<S>(), k->second.as<S>()), "the same strings"); else if (i->second.value().type() == typeid(VS)) SYM_ASSERT(sym::same(i->second.as<VS>(), k->second.as<VS>()), "the same lists"); else if (i->second.value().type() == typeid(int)) SYM_ASSERT(i->second.as<int>() == k->second.as<int>(), "the same numbers"); }
  }
  sym::cover(r1.e.type ? "error" : "ok");
}
