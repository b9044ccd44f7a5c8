// Typed values, switches and implicit values: C22, C23.
#include <boost/optional.hpp>
#include "model.h"
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
// ---- C22
// text -> number, independent of the library: optional sign, then decimal digits, nothing else
struct Num { bool ok; bool neg; bool big; unsigned long mag; };
static Num number(const S& s) {
  Num n; n.ok = false; n.neg = false; n.big = false; n.mag = 0;
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) { n.neg = s[i] == '-'; ++i; }
  if (i == s.size()) return n;
  unsigned bad = 0, big = 0; unsigned long m = 0;
  for (; i < s.size(); ++i) {
    unsigned d = (unsigned)(unsigned char)s[i] - '0';
    bad |= (d > 9); big |= (m > 1000000000000000000ul); m = m * 10 + (d & 15);
  }
  n.ok = !bad; n.big = big; n.mag = m;
  return n;
}
enum VK { V_OK, V_BADVALUE, V_OTHER };
template <class T> static VK stored(po::options_description& d, const S& text, T& out, S& named) {
  po::variables_map m;
  try {
    VS a; a.push_back("--val"); a.push_back(text);
    po::parsed_options p(&d); po::option o; o.string_key = "val"; o.value.push_back(text); o.original_tokens.push_back("--val"); p.options.push_back(o);
    po::store(p, m);
    out = m["val"].as<T>();
    return V_OK;
  } catch (po::invalid_option_value& e) { named = e.get_option_name(); SYM_ASSERT(S(e.what()).find(text.c_str()) != S::npos, "the message names the value"); return V_BADVALUE; }
  catch (po::validation_error& e) { named = e.get_option_name(); return V_OTHER; }
}
template <class T> static void number_case(const S& text) {
  po::options_description d; d.add_options()("val", po::value<T>(), "");
  T out = 77; S named;
  VK k = stored<T>(d, text, out, named);
  Num n = number(text);
  bool sg = std::numeric_limits<T>::is_signed;
  if (!sg && n.ok && n.neg) return;             // unsigned types and a minus sign: left to lexical_cast
  unsigned long lim = (unsigned long)std::numeric_limits<T>::max() + (n.neg ? 1 : 0);
  bool fits = !n.big && n.mag <= lim;
  if (n.ok && fits) {
    SYM_ASSERT(k == V_OK, "text denoting a number of the type is accepted");
    if (k != V_OK) return;
    unsigned long two = (unsigned long)(long)out;
    SYM_ASSERT(two == (n.neg ? 0ul - n.mag : n.mag), "stored value is the number denoted");
    sym::observe_int((long)out, "number"); sym::cover("ok");
  } else {
    SYM_ASSERT(k == V_BADVALUE, "any other text is rejected with invalid_option_value");
    if (k == V_BADVALUE) SYM_ASSERT(eqs(named, "val"), "the error names the option");
    sym::cover(n.ok ? "range" : "bad");
  }
}
HARNESS(h_int_bytes) { number_case<int>(sym::str_upto(0, Q(3, 4), "text")); }
HARNESS(h_int_range) {       // numbers around the limits: a fixed head and free low digits
  static const char* const head[] = {"214748", "0000214748", "999999", "21474836", "1000000", "92233720368547", "1844674407370955"};
  S t; int g = sym::choice(3, "sign"); if (g) t = g == 1 ? "-" : "+";
  t += head[sym::choice(7, "head")];
  t += sym::str_of(Q(3, 4) + sym::choice(2, "digits"), "text", "0123456789");
  number_case<int>(t);
}
HARNESS(h_short_range) {
  static const char* const head[] = {"", "32", "3", "0032", "65"};
  S t = sym::choice(2, "sign") ? "-" : ""; t += head[sym::choice(5, "head")];
  number_case<short>(t + sym::str_of(Q(3, 4), "text", "0123456789"));
}
HARNESS(h_unsigned) {
  static const char* const head[] = {"", "65", "+65", "6"};
  S t = head[sym::choice(4, "head")];
  number_case<unsigned short>(t + sym::str_of(Q(3, 4), "text", "0123456789 +"));
}
HARNESS(h_bool) {
  S t = sym::str_upto(1, Q(5, 6), "text");
  po::options_description d; d.add_options()("val", po::value<bool>(), "");
  bool out = false; S named;
  VK k = stored<bool>(d, t, out, named);
  static const char* const yes[] = {"yes", "on", "true", "1"}; static const char* const no[] = {"no", "off", "false", "0"};
  S l = low(t); unsigned y = 0, n = 0;
  for (int i = 0; i < 4; ++i) { y |= eqs(l, yes[i]); n |= eqs(l, no[i]); }
  if (y | n) { SYM_ASSERT(k == V_OK && out == (y != 0), "boolean spelling converts to its value"); sym::cover(y ? "yes" : "no"); }
  else { SYM_ASSERT(k != V_OK && eqs(named, "val"), "any other text is not a boolean"); sym::cover("bad"); }
}
HARNESS(h_string) {
  S t = sym::str_upto(1, Q(6, 12), "text");
  po::options_description d; d.add_options()("val", po::value<S>(), "");
  S out, named; VK k = stored<S>(d, t, out, named);
  SYM_ASSERT(k == V_OK && eqs(out, t), "strings are stored verbatim");
  po::options_description e; e.add_options()("val", po::value<VS>(), "");
  VS w; k = stored<VS>(e, t, w, named);
  SYM_ASSERT(k == V_OK && w.size() == 1 && eqs(w[0], t), "strings are stored verbatim");
  po::options_description f; f.add_options()("val", new po::untyped_value(), "");
  k = stored<S>(f, t, out, named);
  SYM_ASSERT(k == V_OK && eqs(out, t), "untyped values are stored verbatim");
  sym::observe(out, "text"); sym::cover("ok");
}
HARNESS(h_more_types) {      // wider types, and digit strings far longer than any number
  int w = sym::choice(4, "type"); S t = sym::choice(2, "sign") ? "-" : "";
  static const char* const head[] = {"", "0000000000000000000000000000000000", "42949", "92233720368547", "9223372036854775", "99999999999999999999999999"};
  t += head[sym::choice(6, "head")]; t += sym::str_upto(1, Q(4, 5), "text", "0123456789x");
  if (w == 0) number_case<long long>(t); else if (w == 1) number_case<unsigned>(t); else if (w == 2) number_case<int>(t); else number_case<long>(t);
}
HARNESS(h_char) {            // a character takes a text of exactly one character
  S t = sym::str_upto(1, 3, "text");
  po::options_description d; d.add_options()("val", po::value<char>(), ""); char out = 77; S named;
  VK k = stored<char>(d, t, out, named);
  if (t.size() == 1) { SYM_ASSERT(k == V_OK && out == t[0], "the character"); sym::cover("ok"); }
  else { SYM_ASSERT(k == V_BADVALUE && eqs(named, "val"), "longer text is not a character"); sym::cover("bad"); }
}
HARNESS(h_string_long) {     // long texts with free bytes at both ends and in the middle
  S f = sym::str(3, "text"); size_t n = 14 + 60 * sym::choice(5, "length");
  S t = S(1, f[0]) + S(n, 'p') + S(1, f[1]) + S(n + 1, 'q') + S(1, f[2]);
  po::options_description d; d.add_options()("val", po::value<S>(), "")("vec", po::value<VS>()->multitoken(), "")("opt", po::value<boost::optional<S> >(), "");
  po::parsed_options p(&d); po::option o; o.string_key = "val"; o.value.push_back(t); o.original_tokens.push_back("--val"); p.options.push_back(o);
  o.string_key = "vec"; for (int i = 0; i < 10; ++i) o.value.push_back(i % 2 ? t : t + S(i, f[0])); p.options.push_back(o); VS want = o.value;
  o.string_key = "opt"; o.value = VS(1, t); p.options.push_back(o);
  po::variables_map m; po::store(p, m);
  SYM_ASSERT(eqs(m["val"].as<S>(), t) && sym::same(m["vec"].as<VS>(), want) && m["opt"].as<boost::optional<S> >() && eqs(*m["opt"].as<boost::optional<S> >(), t), "strings are stored verbatim");
  sym::cover("ok");
}
HARNESS(h_elements_many) {   // one free element among many
  int n = 4 + 5 * sym::choice(3, "n"), at = sym::choice(3, "at") * n / 3, kind = sym::choice(2, "kind");
  VS xs; std::vector<long> want; bool ok = true; S bad;
  for (int i = 0; i < n; ++i) {
    S t = S(1, char('0' + i % 10)) + (i % 3 ? "" : "11"); if (i == at) t = sym::str_upto(1, Q(3, 4), "text", "019-+ x");
    xs.push_back(t); Num m = number(t); if (!m.ok) { ok = false; bad = t; } want.push_back(m.neg ? -(long)m.mag : (long)m.mag);
  }
  po::options_description d;
  if (kind) d.add_options()("val", po::value<std::vector<long> >()->multitoken(), ""); else d.add_options()("val", po::value<std::vector<short> >()->multitoken(), "");
  po::parsed_options p(&d); po::option o; o.string_key = "val"; o.original_tokens.push_back("--val");
  int cut = sym::choice(2, "two occurrences") ? n / 2 : 0;
  if (cut) { o.value.assign(xs.begin(), xs.begin() + cut); p.options.push_back(o); o.value.assign(xs.begin() + cut, xs.end()); } else o.value = xs;
  p.options.push_back(o);
  po::variables_map vm; bool threw = false; S what;
  try { po::store(p, vm); } catch (po::invalid_option_value& e) { threw = true; what = e.what(); }
  SYM_ASSERT(threw == !ok, "accepted iff every element denotes a number");
  if (threw) { SYM_ASSERT(what.find(bad) != S::npos && what.find("val") != S::npos, "the offending value is named"); sym::cover("bad"); return; }
  if (!ok) return;
  bool same = true;
  if (kind) { const std::vector<long>& g = vm["val"].as<std::vector<long> >(); same = g.size() == want.size(); for (size_t i = 0; same && i < g.size(); ++i) SYM_ASSERT(g[i] == want[i], "element value"); }
  else { const std::vector<short>& g = vm["val"].as<std::vector<short> >(); same = g.size() == want.size(); for (size_t i = 0; same && i < g.size(); ++i) SYM_ASSERT(g[i] == want[i], "element value"); }
  SYM_ASSERT(same, "one element per value");
  sym::cover("ok");
}
// a type with the user's own validate(): it decides, and sees exactly the tokens given
struct Pair { S a, b; int calls; };
static int g_validated;
void validate(boost::any& v, const VS& values, Pair*, int) {
  ++g_validated;
  po::validators::check_first_occurrence(v);
  if (values.size() != 2 || values[0].empty() || values[0][0] == '!') throw po::invalid_option_value(values.empty() ? S() : values[0]);
  Pair p; p.a = values[0]; p.b = values[1]; p.calls = g_validated; v = boost::any(p);
}
HARNESS(h_user_validate) {
  g_validated = 0; Pair target; target.calls = -1; int ran = 0;
  po::options_description d; d.add_options()("pair", po::value<Pair>(&target)->multitoken()->notifier([&](const Pair& p) { ++ran; SYM_ASSERT(p.calls == 1, "the value delivered is the one validated"); }), "")("vec", po::value<std::vector<int> >()->multitoken(), "");
  po::parsed_options p(&d); po::option o; o.string_key = "pair"; o.original_tokens.push_back("--pair"); int n = sym::choice(4, "tokens");
  for (int i = 0; i < n; ++i) { S t = sym::str_upto(0, 2, "token"); for (size_t k = 0; k < t.size(); ++k) sym::assume(t[k] != 0); o.value.push_back(t); }
  p.options.push_back(o); int again = sym::choice(3, "again");
  if (again) { po::option q = o; q.string_key = again == 1 ? "pair" : "vec"; q.value = VS(2, "7"); p.options.push_back(q); }
  bool bad = n != 2 || o.value[0].empty() || o.value[0][0] == '!';
  po::variables_map m; int got = 0; S what;
  try { po::store(p, m); po::notify(m); } catch (po::multiple_occurrences& e) { got = 2; what = e.what(); } catch (po::validation_error& e) { got = 1; what = e.what(); }
  SYM_ASSERT(got == (bad ? 1 : again == 1 ? 2 : 0), "the user's validate decides");
  if (got) { SYM_ASSERT(what.find("pair") != S::npos && (got == 2 || n == 0 || what.find(o.value[0].c_str()) != S::npos), "the error names the option and the value"); SYM_ASSERT(!ran && target.calls == -1, "nothing is delivered"); sym::cover("bad"); return; }
  const Pair& r = m["pair"].as<Pair>();
  SYM_ASSERT(g_validated == 1 && ran == 1 && eqs(r.a, o.value[0]) && eqs(r.b, o.value[1]) && eqs(target.a, r.a) && eqs(target.b, r.b), "exactly the tokens given");
  sym::cover("ok");
}
// vectors and optionals of numbers convert each element
HARNESS(h_elements) {
  VS xs; int n = 1 + sym::choice(2, "n");
  bool opt = n == 1 && sym::choice(2, "optional");
  bool okall = true; std::vector<int> want; S firstbad;
  for (int i = 0; i < n; ++i) {
    S t = sym::str_upto(1, Q(2, 3), "text", "019-+ x"); xs.push_back(t);
    Num m = number(t); if (!m.ok) { if (okall) firstbad = t; okall = false; } want.push_back(m.neg ? -(int)m.mag : (int)m.mag);
  }
  po::options_description d;
  if (opt) d.add_options()("val", po::value<boost::optional<int> >(), ""); else d.add_options()("val", po::value<std::vector<int> >()->multitoken(), "");
  po::variables_map vm; bool threw = false; S named;
  try {
    po::parsed_options p(&d); po::option o; o.string_key = "val"; o.value = xs; o.original_tokens.push_back("--val"); p.options.push_back(o);
    po::store(p, vm);
  } catch (po::invalid_option_value& e) { threw = true; named = e.what(); }
  SYM_ASSERT(threw == !okall, "accepted iff every element denotes a number");
  if (threw) { SYM_ASSERT(named.find(firstbad) != S::npos, "the offending value is named"); sym::cover("bad"); return; }
  if (!okall) return;
  if (opt) SYM_ASSERT(vm["val"].as<boost::optional<int> >() && *vm["val"].as<boost::optional<int> >() == want[0], "optional holds the number");
  else { const std::vector<int>& g = vm["val"].as<std::vector<int> >(); SYM_ASSERT(g.size() == want.size(), "one element per value"); for (size_t i = 0; i < g.size() && i < want.size(); ++i) SYM_ASSERT(g[i] == want[i], "element value"); }
  sym::cover("ok");
}

// ---- C23: through the real command line parser
struct SwOpt { const char *lng; char sh; };
static const SwOpt g_sw[] = {{"sw", 's'}, {"imp", 'i'}, {"def", 'd'}, {"flag", 'f'}};
static void sw_desc(po::options_description& d, bool* target) {
  d.add_options()
    ("sw,s", po::bool_switch(target), "")
    ("imp,i", po::value<S>()->implicit_value("I"), "")
    ("def,d", po::value<S>()->default_value("D")->implicit_value("I"), "")
    ("flag,f", "");
}
HARNESS(h_switch) {
  bool target = sym::choice(2, "before");
  po::options_description d; sw_desc(d, &target);
  int n = sym::choice(Q(3, 4), "n");
  VS a; int cnt[4] = {0, 0, 0, 0}; S val[4]; bool has[4] = {false, false, false, false}; bool bad = false;
  for (int i = 0; i < n && !bad; ++i) {
    int w = sym::choice(4, "which"), form = sym::choice(4, "form");
    if (cnt[w]) { sym::assume(false); }
    ++cnt[w];
    S v = form & 1 ? sym::str(2, "value") : S();
    S t;
    if (form < 2) { t = S("--") + g_sw[w].lng; if (form & 1) t += "=" + v; } else { t = S("-") + g_sw[w].sh; t += v; }
    if (form & 1) {
      has[w] = true; val[w] = v;
      if (w == 0 || w == 3) { if (form >= 2) sym::assume(false); bad = true; }
    }
    a.push_back(t);
  }
  po::variables_map m;
  Kind k = run_kind([&] { po::store(po::command_line_parser(a).options(d).run(), m); });
  if (bad) { SYM_ASSERT(k == SYNTAX, "an option without values rejects a value"); sym::cover("rejected"); return; }
  SYM_ASSERT(k == OK, "accepted");
  if (k != OK) return;
  bool before = target;
  po::notify(m);
  SYM_ASSERT(m.count("sw") == 1 && m["sw"].as<bool>() == (cnt[0] > 0) && m["sw"].defaulted() == !cnt[0] && target == (cnt[0] > 0), "switch is true exactly when given");
  SYM_ASSERT(m.count("imp") == (cnt[1] ? 1u : 0u), "implicit value only when the option occurs");
  if (cnt[1]) { SYM_ASSERT(eqs(m["imp"].as<S>(), has[1] ? val[1] : S("I")) && !m["imp"].defaulted(), "implicit value"); sym::cover(has[1] ? "given" : "implicit"); }
  SYM_ASSERT(m.count("def") == 1, "default present");
  SYM_ASSERT(eqs(m["def"].as<S>(), !cnt[2] ? S("D") : has[2] ? val[2] : S("I")) && m["def"].defaulted() == !cnt[2], "default, implicit or given value");
  if (!cnt[2]) sym::cover("default");
  SYM_ASSERT(m.count("flag") == (cnt[3] ? 1u : 0u), "flag present exactly when given");
  sym::observe_int(m.size(), "size"); (void)before;
}
// implicit numbers; zero_tokens with an implicit value; switches in config files take explicit booleans
HARNESS(h_switch_more) {
  po::options_description d; bool b = true;
  d.add_options()("num,n", po::value<int>()->implicit_value(7)->default_value(3), "")("zero,z", po::value<S>()->zero_tokens()->implicit_value("Z"), "")("sw,s", po::bool_switch(&b), "");
  po::variables_map m;
  int c = sym::choice(6, "case");
  S t = sym::str(1, "text");
  VS a; Kind want = OK; int num = 3; bool z = false, sw = false;
  switch (c) {
    case 0: a.push_back("-n"); num = 7; break;
    case 1: sym::assume(t[0] >= '0' && t[0] <= '9'); a.push_back("--num=" + t); num = t[0] - '0'; break;
    case 2: a.push_back("-z"); z = true; break;
    case 3: a.push_back("--zero=" + t); want = SYNTAX; break;
    case 4: a.push_back("-szn"); num = 7; z = sw = true; break;
    case 5: a.push_back("-n"); a.push_back("-s"); num = 7; sw = true; break;
  }
  Kind k = run_kind([&] { po::store(po::command_line_parser(a).options(d).run(), m); });
  SYM_ASSERT(k == want, "accepted iff well-formed");
  if (k != OK || want != OK) return;
  SYM_ASSERT(m["num"].as<int>() == num && m["num"].defaulted() == (num == 3 && c != 1), "implicit or default number");
  SYM_ASSERT(m.count("zero") == (z ? 1u : 0u) && (!z || m["zero"].as<S>() == "Z"), "implicit value of a zero-token option");
  SYM_ASSERT(m["sw"].as<bool>() == sw, "switch");
  sym::cover("ok");
}
// several tokens and group orders: a switch never swallows its neighbour
HARNESS(h_switch_plain) {
  bool target = false; po::options_description d; sw_desc(d, &target);
  S p = sym::str_upto(1, Q(2, 3), "plain"); sym::assume(p[0] != '-');
  VS a; bool first = sym::choice(2, "first"); int w = sym::choice(2, "which") ? 3 : 0; bool shrt = sym::choice(2, "short");
  if (first) a.push_back(p);
  a.push_back(shrt ? S("-") + g_sw[w].sh : S("--") + g_sw[w].lng);
  if (!first) a.push_back(p);
  po::variables_map m; po::parsed_options r(&d);
  Kind k = run_kind([&] { r = po::command_line_parser(a).options(d).run(); po::store(r, m); });
  SYM_ASSERT(k == OK, "accepted");
  if (k != OK) return;
  VS pos = po::collect_unrecognized(r.options, po::include_positional);
  SYM_ASSERT(pos.size() == 1 && eqs(pos[0], p), "the plain argument stays positional");
  SYM_ASSERT(m["sw"].as<bool>() == (w == 0) && m.count("flag") == (w == 3 ? 1u : 0u), "set");
  sym::cover("ok");
}
// many switches, grouped in any order
HARNESS(h_switch_many) {
  const int N = 8; bool t[N]; po::options_description d, g;
  for (int i = 0; i < N; ++i) { t[i] = i % 2; (i % 3 ? d : g).add_options()((S("switch") + char('a' + i) + "," + S(1, char('a' + i))).c_str(), i % 4 == 3 ? po::bool_switch(&t[i])->notifier([](bool) {}) : po::bool_switch(&t[i]), ""); }
  d.add(g);
  int n = sym::choice(Q(5, 6), "n"); S grp = n ? sym::str_of(n, "group", "abcdefgh") : S(); VS a; int split = n > 2 ? sym::choice(3, "split") : 0;
  if (n) { if (split == 0) a.push_back("-" + grp); else if (split == 1) { a.push_back("-" + grp.substr(0, 2)); a.push_back("plain"); a.push_back("-" + grp.substr(2)); } else { a.push_back("--switch" + grp.substr(0, 1)); a.push_back("-" + grp.substr(1)); } }
  unsigned dup = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) dup |= grp[i] == grp[k];
  po::variables_map m; bool multi = false;
  try { po::store(po::command_line_parser(a).options(d).run(), m); } catch (po::multiple_occurrences&) { multi = true; }
  SYM_ASSERT(multi == (dup != 0), "a switch may be given once");
  if (multi) { sym::cover("twice"); return; }
  po::notify(m);
  for (int i = 0; i < N; ++i) {
    unsigned on = 0; for (int k = 0; k < n; ++k) on |= grp[k] == char('a' + i);
    S key = S("switch") + char('a' + i);
    SYM_ASSERT(m.count(key) == 1 && m[key].as<bool>() == (on != 0) && m[key].defaulted() == !on && t[i] == (on != 0), "true exactly when given");
  }
  sym::cover("ok");
}
