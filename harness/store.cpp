// Storing and notifying: C16..C21, C32 and the store part of C33.
#include "model.h"
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
// ------------------------------------------------------------------ reference model of store()
enum Ty { T_STR, T_VEC, T_NUM, T_SW };
struct DOpt { const char* name; Ty ty; bool composing; const char* def; };   // def: default text, 0 for none
struct Occ { int opt; S key; VS vals; };
struct Cell { bool present, defaulted, final; VS vals; Cell() : present(false), defaulted(false), final(false) {} };
typedef std::vector<std::pair<S, Cell> > Cells;      // insertion order, looked up linearly
static Cell& cell(Cells& c, const S& k) { for (size_t i = 0; i < c.size(); ++i) if (c[i].first == k) return c[i].second; c.push_back(std::make_pair(k, Cell())); return c.back().second; }

static void declare(po::options_description& d, const DOpt* o, int n) {
  for (int i = 0; i < n; ++i) {
    po::value_semantic* s = 0;
    switch (o[i].ty) {
      case T_STR: { po::typed_value<S>* v = po::value<S>(); if (o[i].def) v->default_value(o[i].def); if (o[i].composing) v->composing(); s = v; break; }
      case T_VEC: { po::typed_value<VS>* v = po::value<VS>()->multitoken(); if (o[i].def) v->default_value(VS(1, o[i].def), o[i].def); if (o[i].composing) v->composing(); s = v; break; }
      case T_NUM: { po::typed_value<int>* v = po::value<int>(); if (o[i].def) v->default_value(o[i].def[0] - '0'); s = v; break; }
      case T_SW: s = po::bool_switch(); break;
    }
    d.add_options()(o[i].name, s, "");
  }
}
// false: the source must be rejected as a multiple occurrence
static bool model_store(Cells& m, const DOpt* o, int n, const std::vector<Occ>& src) {
  VS given;
  for (size_t i = 0; i < src.size(); ++i) {
    Cell& c = cell(m, src[i].key);
    if (c.final) continue;
    if (c.defaulted) c = Cell();
    bool vec = o[src[i].opt].ty == T_VEC;
    if (c.present && !vec) return false;
    c.present = true;
    c.vals.insert(c.vals.end(), src[i].vals.begin(), src[i].vals.end());
    if (!o[src[i].opt].composing) given.push_back(src[i].key);
  }
  for (size_t i = 0; i < given.size(); ++i) cell(m, given[i]).final = true;
  for (int i = 0; i < n; ++i) {
    if (!o[i].def || S(o[i].name).find('*') != S::npos) continue;
    Cell& c = cell(m, o[i].name);
    if (!c.present) { c.present = c.defaulted = true; c.vals = VS(1, o[i].def); }
  }
  return true;
}
static po::parsed_options make(const po::options_description& d, const std::vector<Occ>& src) {
  po::parsed_options p(&d);
  for (size_t i = 0; i < src.size(); ++i) {
    po::option x; x.string_key = src[i].key; x.value = src[i].vals; x.original_tokens.push_back("--" + src[i].key); p.options.push_back(x);
  }
  return p;
}
static VS shown(const po::variable_value& v, Ty t) {
  VS r;
  if (v.empty()) return r;
  switch (t) {
    case T_STR: r.push_back(v.as<S>()); break;
    case T_VEC: r = v.as<VS>(); break;
    case T_NUM: { S s; s += char('0' + v.as<int>()); r.push_back(s); break; }
    case T_SW: r.push_back(v.as<bool>() ? "1" : "0"); break;
  }
  return r;
}
static void compare_map(const po::variables_map& m, Cells& c, const DOpt* o, int n, const char* what) {
  size_t present = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    const Cell& x = c[i].second; if (!x.present) continue;
    ++present;
    int t = 0; for (int k = 0; k < n; ++k) { S nm = o[k].name; if (nm == c[i].first || (nm[nm.size() - 1] == '*' && pre(nm.substr(0, nm.size() - 1), c[i].first))) t = k; }
    SYM_ASSERT(m.count(c[i].first) == 1, "an option that has a value is present");
    if (m.count(c[i].first) != 1) return;
    const po::variable_value& v = m[c[i].first];
    SYM_ASSERT(!v.empty(), "an option that has a value is not empty");
    SYM_ASSERT(v.defaulted() == x.defaulted, "defaulted exactly when no source gave it");
    SYM_ASSERT(sym::same(shown(v, o[t].ty), x.vals), what);
    sym::observe(shown(v, o[t].ty), "value");
  }
  SYM_ASSERT(m.size() == present, "nothing else is in the map");
}
static S one_value(Ty t) {
  if (t == T_NUM) { S s = sym::str(1, "digit"); sym::assume(sym::in(s[0], "0123456789")); return s; }
  return sym::str(1, "value");
}
// several sources over `n` options declared twice (o and alt), all compared with the model
static void sources(const DOpt* o, const DOpt* alt, int n, int maxsrc, int maxocc, int total, const char* what) {
  po::options_description d0, d1; declare(d0, o, n); declare(d1, alt, n);
  int pattern = sym::choice(3, "descs");      // 0: always the first description, 1: alternating, 2: alternating starting with the other
  int ns = 1 + sym::choice(maxsrc, "sources");
  po::variables_map m; Cells c; bool twice = false;
  for (int s = 0; s < ns; ++s) {
    bool a = pattern == 0 ? false : ((s + pattern) & 1) == 0;
    const DOpt* oo = a ? alt : o;
    std::vector<Occ> src;
    int k = sym::choice((total < maxocc ? total : maxocc) + 1, "occurrences"); total -= k;
    for (int i = 0; i < k; ++i) {
      Occ x; x.opt = sym::choice(n, "option"); x.key = oo[x.opt].name;
      if (x.key[x.key.size() - 1] == '*') x.key = x.key.substr(0, x.key.size() - 1) + (sym::choice(2, "wild") ? "y" : "x");
      Ty t = oo[x.opt].ty;
      int nv = t == T_SW ? 0 : t == T_VEC ? 1 + sym::choice(2, "tokens") : 1;
      for (int v = 0; v < nv; ++v) x.vals.push_back(one_value(t));
      src.push_back(x);
    }
    bool ok = model_store(c, oo, n, src), threw = false;
    for (size_t i = 0; i < src.size(); ++i) if (oo[src[i].opt].ty == T_SW) { Cell& z = cell(c, src[i].key); if (z.vals.empty()) z.vals.push_back("1"); }
    try { po::store(make(a ? d1 : d0, src), m); } catch (po::multiple_occurrences&) { threw = true; }
    SYM_ASSERT(threw == !ok, "fails exactly when a single-valued option is given twice in one source");
    if (threw) { sym::cover("multiple"); return; }
    if (!ok) return;
    if (s && k) twice = true;
    compare_map(m, c, oo, n, what);
  }
  sym::cover(twice ? "several" : "single");
}
// ---- C16 first source wins
static const DOpt A16[] = {{"str", T_STR, false, 0}, {"def", T_STR, false, "d"}, {"num", T_NUM, false, "5"}, {"w.*", T_STR, false, 0}, {"vec", T_VEC, false, 0}};
static const DOpt B16[] = {{"str", T_STR, false, "e"}, {"def", T_STR, false, "f"}, {"num", T_NUM, false, 0}, {"w.*", T_STR, false, 0}, {"vec", T_VEC, false, "v"}};
HARNESS(h_first) { sources(A16, B16, 5, 3, 2, Q(3, 4), "the first source that gives a value wins"); }
// a later source cannot change or fail because of an option that already has a value, whatever it says about it
HARNESS(h_first_later) {
  po::options_description d; declare(d, A16, 5);
  S v = one_value(T_STR), n = one_value(T_NUM);
  std::vector<Occ> s1, s2; Occ x;
  x.opt = 0; x.key = "str"; x.vals = VS(1, v); s1.push_back(x);
  x.opt = 2; x.key = "num"; x.vals = VS(1, n); s1.push_back(x);
  po::variables_map m; po::store(make(d, s1), m);
  int k = 1 + sym::choice(3, "again");
  for (int i = 0; i < k; ++i) {
    Occ y; y.opt = sym::choice(2, "which") * 2; y.key = A16[y.opt].name;
    int nt = sym::choice(3, "tokens"); for (int t = 0; t < nt; ++t) y.vals.push_back(sym::str_upto(0, 2, "later"));
    s2.push_back(y);
  }
  Kind r = run_kind([&] { po::store(make(d, s2), m); });
  SYM_ASSERT(r == OK, "a later source never fails because of an option that has a value");
  SYM_ASSERT(eqs(m["str"].as<S>(), v) && !m["str"].defaulted(), "value unchanged");
  SYM_ASSERT(m["num"].as<int>() == n[0] - '0' && !m["num"].defaulted(), "value unchanged");
  sym::cover("ok");
}
// a failing store leaves values of earlier sources intact, and they still win afterwards
HARNESS(h_first_failed) {
  po::options_description d; declare(d, A16, 5);
  bool h0 = sym::choice(2, "str given"), h1 = sym::choice(2, "vec given"), h2 = sym::choice(2, "def given");
  S v0 = sym::str(1, "v0"), v1 = sym::str(1, "v1"), v2 = sym::str(1, "v2");
  std::vector<Occ> s1, s2, s3; Occ x;
  if (h0) { x.opt = 0; x.key = "str"; x.vals = VS(1, v0); s1.push_back(x); }
  if (h1) { x.opt = 4; x.key = "vec"; x.vals = VS(1, v1); s1.push_back(x); }
  if (h2) { x.opt = 1; x.key = "def"; x.vals = VS(1, v2); s1.push_back(x); }
  po::variables_map m; po::store(make(d, s1), m);
  int at = sym::choice(4, "position");
  for (int i = 0; i < 4; ++i) {
    if (i == at) { x.opt = 2; x.key = "num"; x.vals = VS(1, "x" + sym::str(1, "bad")); s2.push_back(x); }
    if (i < 3) { static const int idx[] = {0, 4, 1}; bool g = i == 0 ? h0 : i == 1 ? h1 : h2; if (g) { x.opt = idx[i]; x.key = A16[idx[i]].name; x.vals = VS(1, sym::str(1, "second")); s2.push_back(x); } }
  }
  Kind r = run_kind([&] { po::store(make(d, s2), m); });
  SYM_ASSERT(r != OK, "the second source is rejected");
  for (int round = 0; round < 2; ++round) {
    if (h0) SYM_ASSERT(m.count("str") && eqs(m["str"].as<S>(), v0) && !m["str"].defaulted(), "earlier value intact");
    if (h1) SYM_ASSERT(m.count("vec") && m["vec"].as<VS>().size() == 1 && eqs(m["vec"].as<VS>()[0], v1), "earlier value intact");
    if (h2) SYM_ASSERT(m.count("def") && eqs(m["def"].as<S>(), v2) && !m["def"].defaulted(), "earlier value intact");
    if (!round) {
      static const int idx[] = {0, 4, 1};
      for (int i = 0; i < 3; ++i) if (i == 0 ? h0 : i == 1 ? h1 : h2) { x.opt = idx[i]; x.key = A16[idx[i]].name; x.vals = VS(1, sym::str(1, "third")); s3.push_back(x); }
      r = run_kind([&] { po::store(make(d, s3), m); });
      SYM_ASSERT(r == OK, "a third source can be stored");
    }
  }
  sym::cover("ok");
}
// a composing option that holds values keeps them, whatever a later source that fails says about it
HARNESS(h_failed_composing) {
  po::options_description d; d.add_options()("num,n", po::value<std::vector<int> >()->composing(), "")("txt", po::value<VS>()->composing()->multitoken(), "")("bad", po::value<int>(), "");
  int k = 1 + sym::choice(2, "earlier"); po::parsed_options p1(&d), p2(&d), p3(&d); S v = sym::str_of(2, "digits", "0123456789"), t = sym::str(1, "text");
  { po::option o; for (int i = 0; i < k; ++i) { o.string_key = "num"; o.value = VS(1, S(1, v[i])); o.original_tokens = o.value; p1.options.push_back(o); } o.string_key = "txt"; o.value = VS(1, t); p1.options.push_back(o); }
  po::variables_map m; po::store(p1, m);
  int n = 1 + sym::choice(3, "later");
  for (int i = 0; i < n; ++i) {
    po::option o; int w = sym::choice(3, "which"), tk = 1 + sym::choice(2, "tokens"); o.string_key = w == 0 ? "num" : w == 1 ? "txt" : "bad";
    for (int j = 0; j < tk; ++j) o.value.push_back(sym::str_of(1, "later", "7x"));
    o.original_tokens = o.value; p2.options.push_back(o);
  }
  Kind r = run_kind([&] { po::store(p2, m); });
  for (int round = 0; round < 2; ++round) {
    SYM_ASSERT(m.count("num") && !m["num"].empty() && !m["num"].defaulted() && m["num"].as<std::vector<int> >().size() >= (size_t)k, "earlier values intact");
    for (int i = 0; i < k; ++i) SYM_ASSERT(m["num"].as<std::vector<int> >()[i] == v[i] - '0', "earlier values intact");
    SYM_ASSERT(m.count("txt") && m["txt"].as<VS>().size() >= 1 && eqs(m["txt"].as<VS>()[0], t) && !m["txt"].defaulted(), "earlier values intact");
    if (!round) { po::option o; o.string_key = "num"; o.value = VS(1, "3"); o.original_tokens = o.value; p3.options.push_back(o); SYM_ASSERT(run_kind([&] { po::store(p3, m); }) == OK, "a third source can be stored"); }
  }
  SYM_ASSERT(m["num"].as<std::vector<int> >().back() == 3, "and is appended");
  sym::cover(r == OK ? "ok" : "failed");
}
// the real sources: command line, environment and file in any order of storing
extern "C" char** environ;
HARNESS(h_first_sources) {
  po::options_description d; d.add_options()("str,s", po::value<S>()->default_value("D"), "")("other", po::value<S>(), "");
  int first = sym::choice(3, "first"), dir = sym::choice(2, "direction"); bool g[3]; S v[3];
  for (int i = 0; i < 3; ++i) { g[i] = sym::choice(2, "given"); v[i] = sym::str_of(1, "value", "abcdefgh"); }
  po::variables_map m; int win = -1;
  for (int i = 0; i < 3; ++i) {
    int w = (first + (dir ? i : 3 - i)) % 3;
    if (win < 0 && g[w]) win = w;
    if (w == 0) { VS a; if (g[0]) { a.push_back("-s"); a.push_back(v[0]); } po::store(po::command_line_parser(a).options(d).run(), m); }
    else if (w == 1) { std::istringstream is(g[1] ? "str = " + v[1] + "\n" : "other=\n"); po::store(po::parse_config_file(is, d), m); }
    else { S e = "P_STR=" + v[2]; char* env[] = {g[2] ? &e[0] : 0, 0}; char** save = environ; environ = env; po::parsed_options p = po::parse_environment(d, "P_"); environ = save; po::store(p, m); }
  }
  po::notify(m);
  SYM_ASSERT(m.count("str") == 1 && eqs(m["str"].as<S>(), win < 0 ? S("D") : v[win]) && m["str"].defaulted() == (win < 0), "the first stored source that specified it wins");
  sym::cover(win < 0 ? "default" : "given");
}
// the option occurs without a value: that counts as given
HARNESS(h_first_switch) {
  po::options_description d; d.add_options()("flag,f", po::bool_switch(), "")("imp,i", po::value<S>()->implicit_value("I")->default_value("D"), "")("plain", "")("other", po::value<S>(), "");
  static const char* const nm[] = {"flag", "imp", "plain"}; int k = sym::choice(3, "option"), first = sym::choice(3, "first"), dir = sym::choice(2, "direction"); bool g[3]; S v[3]; const char* up[] = {"P_FLAG=", "P_IMP=", "P_PLAIN="};
  for (int i = 0; i < 3; ++i) { g[i] = sym::choice(2, "given"); v[i] = i == 0 ? S() : k == 0 ? S(sym::choice(2, "bool") ? "no" : "1") : sym::str_of(1, "value", "abcdefgh"); }
  po::variables_map m; int win = -1; bool failed = false;
  try {
    for (int i = 0; i < 3; ++i) {
      int w = (first + (dir ? i : 3 - i)) % 3;
      if (win < 0 && g[w]) win = w;
      if (w == 0) { VS a; if (g[0]) a.push_back(S("--") + nm[k]); po::store(po::command_line_parser(a).options(d).run(), m); }
      else if (w == 1) { std::istringstream is(g[1] ? S(nm[k]) + " = " + v[1] + "\n" : "other=\n"); po::store(po::parse_config_file(is, d), m); }
      else { S e = up[k] + v[2]; char* env[] = {g[2] ? &e[0] : 0, 0}; char** save = environ; environ = env; po::parsed_options p = po::parse_environment(d, "P_"); environ = save; po::store(p, m); }
    }
    po::notify(m);
  } catch (po::error&) { failed = true; }
  SYM_ASSERT(!failed, "a later source cannot fail"); if (failed) return;
  if (win < 0 && k == 2) { SYM_ASSERT(!m.count("plain"), "absent"); return; }
  SYM_ASSERT(m.count(nm[k]) == 1 && m[nm[k]].defaulted() == (win < 0), "given or not"); if (!m.count(nm[k])) return;
  if (k == 0) SYM_ASSERT(m["flag"].as<bool>() == (win == 0 || (win > 0 && v[win] == "1")), "the first stored source that specified it wins");
  else SYM_ASSERT(eqs(m[nm[k]].as<S>(), win < 0 ? S("D") : win == 0 ? S(k == 1 ? "I" : "") : v[win]), "the first stored source that specified it wins");
  sym::cover(win < 0 ? "default" : "given");
}
// many options, many sources: each option starts being given at its own source
HARNESS(h_first_many) {
  const int NS = 6, NO = 9;
  static const char* const nm[] = {"s0", "s1", "s2", "n0", "n1", "v0", "v1", "d0", "w.any"};
  po::options_description d, g("g");
  d.add_options()("s0,a", po::value<S>(), "")("s1", po::value<S>()->default_value("D1"), "")("n0,n", po::value<int>(), "")("v0", po::value<VS>(), "")("d0", po::value<S>()->default_value("D"), "");
  g.add_options()("s2", po::value<S>(), "")("n1", po::value<int>()->default_value(5), "")("v1,v", po::value<VS>()->default_value(VS(1, "V"), "V"), "")("w.*", po::value<S>(), "");
  d.add(g);
  int first[NO]; S val[NO];
  int x = sym::choice(NO, "option"), y = sym::choice(NO, "other option");
  for (int i = 0; i < NO; ++i) { first[i] = (i * 5 + 2) % (NS + 1); val[i] = i == 3 || i == 4 ? sym::str_of(1, "digit", "0123456789") : sym::str(2, "value"); }
  first[x] = sym::choice(NS + 1, "first"); first[y] = sym::choice(Q(3, NS + 1), "other first");
  po::variables_map m;
  for (int s = 0; s < NS; ++s) {
    std::vector<Occ> src;
    for (int i = 0; i < NO; ++i) {
      if (s < first[i] || (s > first[i] && (s + i) % 2)) continue;
      Occ o; o.opt = 0; o.key = nm[i]; o.vals = VS(1, s == first[i] ? val[i] : i == 3 || i == 4 ? S("7") : S(1, char('p' + s)));
      src.push_back(o);
    }
    Kind k = run_kind([&] { po::store(make(d, src), m); });
    SYM_ASSERT(k == OK, "every source can be stored");
    for (int i = 0; i < NO; ++i) {
      if (first[i] > s) {
        bool def = i == 1 || i == 4 || i == 6 || i == 7;
        SYM_ASSERT(m.count(nm[i]) == (def ? 1u : 0u) && (!def || m[nm[i]].defaulted()), "default or absent until a source gives it");
        continue;
      }
      SYM_ASSERT(m.count(nm[i]) == 1 && !m[nm[i]].defaulted(), "given");
      if (m.count(nm[i]) != 1) return;
      const po::variable_value& v = m[nm[i]];
      if (i == 3 || i == 4) SYM_ASSERT(v.as<int>() == val[i][0] - '0', "the first source wins");
      else if (i == 5 || i == 6) SYM_ASSERT(sym::same(v.as<VS>(), VS(1, val[i])), "the first source wins");
      else SYM_ASSERT(eqs(v.as<S>(), val[i]), "the first source wins");
    }
  }
  sym::cover("ok");
}
// ---- C17 composing and vector options
static const DOpt A17[] = {{"vec", T_VEC, false, 0}, {"com", T_VEC, true, 0}, {"cdef", T_VEC, true, "z"}, {"str", T_STR, false, 0}};
HARNESS(h_compose) { sources(A17, A17, 4, 3, 2, Q(3, 4), "values accumulate in order"); }
HARNESS(h_multiple) {        // twice a single-valued option
  po::options_description d; declare(d, A16, 5); d.add_options()("unt", new po::untyped_value(), "")("bool", po::value<bool>(), "");
  static const char* const nm[] = {"str", "def", "num", "unt", "bool", "w.q"};
  int w = sym::choice(6, "option"), between = sym::choice(3, "between");
  std::vector<Occ> s; Occ x; x.key = nm[w]; x.opt = 0;
  S a = w == 2 || w == 4 ? S("1") : sym::str(1, "first"), b = w == 2 || w == 4 ? S("0") : sym::str(1, "second");
  x.vals = VS(1, a); s.push_back(x);
  if (between) { Occ y; y.opt = 4; y.key = "vec"; y.vals = VS(1, "q"); s.push_back(y); }
  x.vals = VS(1, b); s.push_back(x);
  po::variables_map m; int got = 0; S who;
  try { po::store(make(d, s), m); } catch (po::multiple_occurrences& e) { got = 1; who = e.get_option_name(); } catch (po::error&) { got = 2; }
  SYM_ASSERT(got == 1, "a single-valued option given twice is a multiple occurrence");
  SYM_ASSERT(who.find(nm[w]) != S::npos, "the option is named");
  sym::cover("ok");
}
// ints, one or several tokens per occurrence, through the command line
HARNESS(h_vector_cmdline) {
  po::options_description d; d.add_options()("n,n", po::value<std::vector<int> >()->multitoken(), "")("c,c", po::value<VS>()->composing(), "");
  VS a, wc; std::vector<int> want; int k = 1 + sym::choice(Q(3, 4), "k");
  for (int i = 0; i < k; ++i) {
    int w = sym::choice(4, "form"); S x = sym::str_of(1, "digit", "0123456789");
    if (w == 0) { a.push_back("--n"); a.push_back(x); want.push_back(x[0] - '0'); if (sym::choice(2, "more")) { S y = sym::str_of(1, "digit", "0123456789"); a.push_back(y); want.push_back(y[0] - '0'); } }
    else if (w == 1) { a.push_back("-n" + x); want.push_back(x[0] - '0'); }
    else if (w == 2) { a.push_back("--c"); a.push_back(x); wc.push_back(x); }
    else { a.push_back("--c=" + x); wc.push_back(x); }
  }
  po::variables_map m; po::store(po::command_line_parser(a).options(d).run(), m);
  VS a2; int k2 = sym::choice(2, "later"); if (k2) { S y = sym::str(2, "later"); a2.push_back("--c=" + y); wc.push_back(y); a2.push_back("-n1"); if (want.empty()) want.push_back(1); }
  po::store(po::command_line_parser(a2).options(d).run(), m);
  SYM_ASSERT(m.count("n") == (want.empty() ? 0u : 1u) && m.count("c") == (wc.empty() ? 0u : 1u), "present iff given");
  if (wc.size()) { SYM_ASSERT(sym::same(m["c"].as<VS>(), wc), "composing values in order"); sym::cover("composing"); }
  if (want.size()) {
    const std::vector<int>& g = m["n"].as<std::vector<int> >();
    SYM_ASSERT(g.size() == want.size(), "all values are kept");
    for (size_t i = 0; i < g.size() && i < want.size(); ++i) SYM_ASSERT(g[i] == want[i], "values in order");
    sym::cover("vector");
  }
}
// long runs: many values per occurrence, many occurrences, many sources
HARNESS(h_compose_many) {
  po::options_description d; d.add_options()("com,c", po::value<VS>()->composing()->multitoken(), "")("vec,v", po::value<VS>()->multitoken(), "")("ints", po::value<std::vector<int> >()->composing()->multitoken()->default_value(std::vector<int>(2, 9), "9 9"), "");
  VS wc, wv; std::vector<int> wi; po::variables_map m; bool vdone = false;
  int ns = 4; int lenpick = sym::choice(3, "length");
  for (int s = 0; s < ns; ++s) {
    po::parsed_options p(&d); int order = sym::choice(2, "order"); VS sv;
    for (int k = 0; k < 6; ++k) {
      po::option o; int w = (k + order) % 3; o.string_key = w == 0 ? "com" : w == 1 ? "vec" : "ints";
      if (w == 1 && s == 0) continue;
      if (w == 2 && s == 2) continue;
      int nt = 1 + (lenpick * 7 + k * 3 + s) % 9;
      for (int t = 0; t < nt; ++t) {
        if (w == 2) { S x = sym::str_of(1, "digit", "0123456789"); o.value.push_back(x); wi.push_back(x[0] - '0'); }
        else { S x = t % 3 == 2 ? S(20, char('a' + t)) : sym::str(2, "value"); o.value.push_back(x); (w == 0 ? wc : sv).push_back(x); }
      }
      o.original_tokens = o.value; p.options.push_back(o);
    }
    if (!vdone && sv.size()) { wv = sv; vdone = true; }
    po::store(p, m);
    SYM_ASSERT(sym::same(m["com"].as<VS>(), wc), "composing values of all sources, in order");
    SYM_ASSERT(m.count("vec") == (vdone ? 1u : 0u) && (!vdone || sym::same(m["vec"].as<VS>(), wv)), "vector values of the first source that has any, in order");
    const std::vector<int>& g = m["ints"].as<std::vector<int> >(); bool same = g.size() == wi.size();
    for (size_t i = 0; same && i < g.size(); ++i) SYM_ASSERT(g[i] == wi[i], "numbers in order");
    SYM_ASSERT(same, "all numbers and no default");
  }
  sym::cover("ok");
}
// ---- C18 defaults
static const DOpt A18[] = {{"str", T_STR, false, 0}, {"def", T_STR, false, "d"}, {"cdef", T_VEC, true, "z"}, {"num", T_NUM, false, "5"}, {"sw", T_SW, false, "0"}};
static const DOpt B18[] = {{"str", T_STR, false, "e"}, {"def", T_STR, false, "f"}, {"cdef", T_VEC, true, "y"}, {"num", T_NUM, false, 0}, {"sw", T_SW, false, "0"}};
HARNESS(h_defaults) { sources(A18, B18, 5, 3, 2, Q(3, 4), "default or given value"); }
// names of every declared shape get their default under their key, and only those
HARNESS(h_default_names) {
  static const char* const decl[] = {"long", "long,l", ",l", "long,alias", "long,alias,l", "w.*"};
  static const char* const key[] = {"long", "long", "-l", "long", "long", ""};
  int w = sym::choice(6, "decl"); int ty = sym::choice(3, "type");
  bool flag = false;
  po::options_description d;
  if (ty == 0) d.add_options()(decl[w], po::value<S>()->default_value("D"), "");
  else if (ty == 1) d.add_options()(decl[w], po::value<S>(), "");
  else d.add_options()(decl[w], po::bool_switch(&flag), "");
  po::variables_map m;
  VS a; int src = sym::choice(3, "source");
  if (src == 0) po::store(po::command_line_parser(a).options(d).run(), m);
  else if (src == 1) { po::parsed_options p(&d); po::store(p, m); }
  else { po::parsed_options p(&d); po::store(p, m); po::store(p, m); }
  bool has = ty != 1 && key[w][0];
  SYM_ASSERT(m.size() == (has ? 1u : 0u), "only defaults are present");
  if (has) SYM_ASSERT(m.count(key[w]) == 1 && m[key[w]].defaulted() && !m[key[w]].empty(), "default under the option's key");
  if (has && ty == 0) SYM_ASSERT(m[key[w]].as<S>() == "D", "default value");
  SYM_ASSERT(m.count("other") == 0 && m["other"].empty() && !m["other"].defaulted(), "anything else is absent and empty");
  sym::cover(has ? "default" : "none");
}
// many options over several groups, a few of them given
HARNESS(h_defaults_many) {
  const int N = 12; po::options_description d, g[3]; static const char* const nm[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "oa", "ob"};
  for (int i = 0; i < N; ++i) {
    po::value_semantic* s = i % 4 == 3 ? (po::value_semantic*)po::value<int>()->default_value(i) : i % 4 == 2 ? (po::value_semantic*)po::bool_switch() : po::value<S>()->default_value(nm[i], "text");
    g[i / 4].add_options()((S(nm[i]) + "," + S(1, char('a' + i))).c_str(), s, "");
  }
  d.add(g[0]); g[1].add(g[2]); d.add(g[1]);
  int x = sym::choice(N, "given"), y = sym::choice(N, "given too"), how = sym::choice(3, "how"); VS v(N);
  VS a;
  for (int i = 0; i < N; ++i) {
    if (i != x && i != y) continue;
    v[i] = i % 4 == 3 ? sym::str_of(1, "digit", "0123456789") : sym::str_of(2, "value", "abcdefgh");
    if (i % 4 == 2) a.push_back(how ? S("--") + nm[i] : S("-") + char('a' + i));
    else a.push_back((how == 0 ? S("-") + char('a' + i) : S("--") + nm[i] + "=") + v[i]);
  }
  po::variables_map m; po::store(po::command_line_parser(a).options(d).run(), m);
  if (how == 2) po::store(po::command_line_parser(VS()).options(g[0]).run(), m);
  SYM_ASSERT(m.size() == N, "every option with a default is present");
  for (int i = 0; i < N && m.size() == N; ++i) {
    bool gv = i == x || i == y; const po::variable_value& q = m[nm[i]];
    SYM_ASSERT(!q.empty() && q.defaulted() == !gv, "defaulted exactly when not given");
    if (i % 4 == 3) SYM_ASSERT(q.as<int>() == (gv ? v[i][0] - '0' : i), "value");
    else if (i % 4 == 2) SYM_ASSERT(q.as<bool>() == gv, "value");
    else SYM_ASSERT(eqs(q.as<S>(), gv ? v[i] : S(nm[i])), "value");
  }
  po::notify(m);
  sym::cover("ok");
}
// ---- C19 required
HARNESS(h_required) {
  int ran = 0; 
  auto note = [&](const S&) { ++ran; };
  po::options_description d0, d1;
  d0.add_options()("req,r", po::value<S>()->required()->notifier(note), "")("opt", po::value<S>()->notifier(note), "");
  d1.add_options()("late", po::value<S>()->required()->notifier(note), "")("rdef", po::value<S>()->required()->default_value("d"), "")(",s", po::value<S>()->required(), "")("zero", po::value<S>()->zero_tokens()->implicit_value("")->required(), "");
  int ns = 1 + sym::choice(Q(2, 3), "sources");
  bool req = false, late = false, shrt = false, zero = false, use0 = false, use1 = false; S v; int notes = 0; bool opt = false;
  po::variables_map m;
  for (int s = 0; s < ns; ++s) {
    bool b = sym::choice(2, "desc"); VS a;
    if (!b) {
      use0 = true; v = sym::str(1, "value"); int g = sym::choice(4, "given");
      if (g & 1) { a.push_back("--req=" + v); req = true; }
      if (g & 2) { a.push_back("--opt=x"); opt = true; }
    } else {
      use1 = true; int g = sym::choice(8, "given");
      if (g & 1) { a.push_back("--late=y"); late = true; }
      if (g & 2) { a.push_back("-sq"); shrt = true; }
      if (g & 4) { a.push_back("--zero"); zero = true; }
    }
    po::store(po::command_line_parser(a).options(b ? d1 : d0).run(), m);
  }
  bool missing = (use0 && !req) || (use1 && (!late || !shrt || !zero));
  notes = (req ? 1 : 0) + (opt ? 1 : 0) + (late ? 1 : 0);
  bool threw = false; S who;
  try { po::notify(m); } catch (po::required_option& e) { threw = true; who = e.get_option_name(); }
  SYM_ASSERT(threw == missing, "notify fails iff a required option has no value");
  if (threw) {
    SYM_ASSERT(ran == 0, "no notifier ran");
    bool named = (use0 && !req && who == "--req") || (use1 && !late && who == "--late") || (use1 && !shrt && who == "-s") || (use1 && !zero && who == "--zero");
    SYM_ASSERT(named, "the error names a missing required option");
    sym::observe(who, "who"); sym::cover("missing");
  } else if (!missing) { SYM_ASSERT(ran == notes, "every notifier ran once"); sym::cover("ok"); }
}
// required through files, environment-like sources, wildcard neighbours and case-insensitive spelling
HARNESS(h_required_file) {
  po::options_description d; d.add_options()("need", po::value<S>()->required(), "")("sec.need", po::value<VS>()->required()->composing(), "")("w.*", po::value<S>(), "");
  S t; bool a = sym::choice(2, "need"), b = sym::choice(2, "section"), w = sym::choice(2, "wild");
  S v = sym::str_of(1, "value", "xyz");
  if (a) t += "need=" + v + "\n";
  if (w) t += "w.need=" + v + "\n";
  t += "[sec]\n"; if (b) t += "need = " + v + "\n";
  po::variables_map m; std::istringstream is(t); po::store(po::parse_config_file(is, d), m);
  bool threw = false; S who;
  try { po::notify(m); } catch (po::required_option& e) { threw = true; who = e.what(); }
  SYM_ASSERT(threw == !(a && b), "required iff missing");
  if (threw) SYM_ASSERT(!a ? who.find("need") != S::npos : who.find("sec.need") != S::npos, "named");
  sym::cover(threw ? "missing" : "ok");
}
HARNESS(h_required_case) {
  po::options_description d; d.add_options()("Need,N", po::value<S>()->required(), "");
  S n = sym::str(4, "name"); sym::assume(eqs(low(n), "need"));
  VS a; int style = ps::default_style | ps::case_insensitive;
  if (sym::choice(2, "short")) { S c = sym::str_of(1, "char", "nN"); a.push_back("-" + c + "v"); } else a.push_back("--" + n + "=v");
  po::variables_map m; po::store(po::command_line_parser(a).options(d).style(style).run(), m);
  Kind k = run_kind([&] { po::notify(m); });
  SYM_ASSERT(k == OK, "given in another case is given");
  sym::cover("ok");
}
// a source that failed on the required option gives it no value
HARNESS(h_required_failed) {
  int ran = 0; auto note = [&](const int&) { ++ran; };
  po::options_description d; d.add_options()("need,n", po::value<int>()->required()->notifier(note), "")("num", po::value<int>()->notifier(note), "");
  po::variables_map m; bool need = false, num = false; int ns = 1 + sym::choice(Q(3, 4), "sources"); bool known = false;
  for (int s = 0; s < ns; ++s) {
    std::vector<Occ> src; Occ x; x.opt = 0; int k = sym::choice(3, "occurrences"); bool ok = true; bool dn = need, dm = num;
    for (int i = 0; i < k; ++i) {
      bool w = sym::choice(2, "which"); bool bad = sym::choice(2, "bad");
      x.key = w ? "num" : "need"; x.vals = VS(1, bad ? S("x") : sym::str_of(1, "digit", "0123456789"));
      bool fin = w ? num : need;                    // a later source is not looked at
      if (!fin) { if (bad || (i && src[0].key == x.key)) ok = false; else if (ok) (w ? dm : dn) = true; }
      src.push_back(x);
    }
    Kind r = run_kind([&] { po::store(make(d, src), m); });
    SYM_ASSERT((r == OK) == ok, "fails exactly for a bad or repeated value");
    if (r != OK) { if (dn != need || dm != num) { sym::cover("partial"); return; } continue; }   // values before the bad one: left open
    known = true; need = dn; num = dm;
  }
  bool threw = false;
  try { po::notify(m); } catch (po::required_option&) { threw = true; }
  SYM_ASSERT(threw == (known && !need), "required iff it has no value");
  SYM_ASSERT(ran == (threw ? 0 : (need ? 1 : 0) + (num ? 1 : 0)), "notifiers");
  sym::cover(threw ? "missing" : "ok");
}
// many required options in several groups and descriptions, any one or two missing
HARNESS(h_required_many) {
  const int N = 10; po::options_description d, g[2], e; int ran = 0;
  for (int i = 0; i < N; ++i) {
    S nm = S("need") + char('a' + i);
    po::value_semantic* s = i % 3 == 2 ? (po::value_semantic*)po::value<VS>()->composing()->multitoken()->required()->notifier([&](const VS&) { ++ran; }) : po::value<S>()->required()->notifier([&](const S&) { ++ran; });
    (i < 4 ? d : i < 6 ? g[0] : i < 8 ? g[1] : e).add_options()(i == 5 ? ",f" : (nm + "," + S(1, char('a' + i))).c_str(), s, "");
  }
  g[0].add(g[1]); d.add(g[0]);
  int x = sym::choice(N + 1, "missing"), y = sym::choice(N + 1, "missing too"); VS a, b; S v = sym::str_of(1, "value", "abcdefgh");
  for (int i = 0; i < N; ++i) if (i != x && i != y) (i < 8 ? a : b).push_back(i % 2 ? S("-") + char('a' + i) + v : S("--need") + char('a' + i) + "=" + v);
  po::variables_map m; bool order = sym::choice(2, "order");
  for (int s = 0; s < 2; ++s) { bool first = (s == 0) != order; po::store(po::command_line_parser(first ? a : b).options(first ? d : e).run(), m); }
  bool threw = false; S who;
  try { po::notify(m); } catch (po::required_option& q) { threw = true; who = q.get_option_name(); }
  SYM_ASSERT(threw == (x < N || y < N), "required iff missing");
  if (threw) { S n1 = x == 5 ? S("-f") : S("--need") + char('a' + x), n2 = y == 5 ? S("-f") : S("--need") + char('a' + y); SYM_ASSERT((x < N && who == n1) || (y < N && who == n2), "a missing one is named"); SYM_ASSERT(!ran, "no notifier ran"); sym::cover("missing"); }
  else { SYM_ASSERT(ran == N, "all notifiers ran"); sym::cover("ok"); }
}
// ---- C35 a cleared map is like a new one
HARNESS(h_clear) {
  po::options_description d0, d1; declare(d0, A16, 5); declare(d1, A18, 5);
  int ran = 0; S target = "t";
  d0.add_options()("req", po::value<S>(&target)->required()->notifier([&](const S&) { ++ran; }), "");
  po::variables_map m, fresh; S v = sym::str(1, "value");
  int before = sym::choice(5, "before");
  if (before) {
    std::vector<Occ> s; Occ x; x.opt = 0;
    x.key = "str"; x.vals = VS(1, sym::str(1, "old")); if (before & 1) s.push_back(x);
    x.key = "req"; if (before & 2) s.push_back(x);
    x.key = "vec"; if (before == 3) s.push_back(x);
    x.key = "num"; x.vals = VS(1, "y"); if (before == 4) s.push_back(x);      // this one fails
    run_kind([&] { po::store(make(d0, s), m); });
    if (sym::choice(2, "notified")) run_kind([&] { po::notify(m); });
  }
  m.clear();
  SYM_ASSERT(m.empty() && m.size() == 0 && m.count("def") == 0 && m["str"].empty(), "nothing is left");
  ran = 0; target = "t";
  int after = sym::choice(3, "after");
  if (after < 2) {
    const po::options_description& d = after ? d1 : d0; std::vector<Occ> s; Occ x; x.opt = 0;
    x.key = "str"; x.vals = VS(1, v); if (sym::choice(2, "str")) s.push_back(x);
    x.key = "num"; x.vals = VS(1, "4"); if (sym::choice(2, "num")) s.push_back(x);
    if (!after) { x.key = "vec"; x.vals = VS(2, v); if (sym::choice(2, "vec")) s.push_back(x); x.key = "req"; x.vals = VS(1, v); if (sym::choice(2, "req")) s.push_back(x); }
    Kind a = run_kind([&] { po::store(make(d, s), m); }), b = run_kind([&] { po::store(make(d, s), fresh); });
    SYM_ASSERT(a == b && a == OK, "storing works as in a new map");
  }
  SYM_ASSERT(m.size() == fresh.size(), "same entries");
  if (m.size() != fresh.size()) return;
  std::map<S, po::variable_value>::iterator i = m.begin(), k = fresh.begin();
  for (; k != fresh.end(); ++i, ++k) {
    SYM_ASSERT(i->first == k->first && i->second.defaulted() == k->second.defaulted() && i->second.empty() == k->second.empty(), "same entries");
    if (i->first == "str" || i->first == "req") SYM_ASSERT(eqs(i->second.as<S>(), k->second.as<S>()), "same values");
    if (i->first == "vec") SYM_ASSERT(sym::same(i->second.as<VS>(), k->second.as<VS>()), "same values");
    if (i->first == "num") SYM_ASSERT(i->second.as<int>() == k->second.as<int>(), "same values");
  }
  Kind a = run_kind([&] { po::notify(m); }); int ra = ran; S ta = target; ran = 0; target = "t";
  Kind b = run_kind([&] { po::notify(fresh); });
  SYM_ASSERT(a == b && ra == ran && eqs(ta, target), "notify does the same");
  sym::cover(a == OK ? "ok" : "missing");
}
// access through as<T>: the stored value for its own type, an exception for any other
HARNESS(h_access) {
  po::options_description d; declare(d, A16, 5); d.add_options()("flag", "")("sw", po::bool_switch(), "");
  bool g[5]; static const char* const key[] = {"str", "num", "vec", "flag", "def"};
  std::vector<Occ> s; Occ x; x.opt = 0; S v = sym::str(1, "value"), n = sym::str_of(1, "digit", "0123456789");
  for (int i = 0; i < 5; ++i) { g[i] = sym::choice(2, "given"); x.key = key[i]; x.vals = i == 3 ? VS() : VS(i == 2 ? 2 : 1, i == 1 ? n : v); if (g[i]) s.push_back(x); }
  po::variables_map m; po::store(make(d, s), m);
  const po::variables_map& c = m; size_t size = m.size();
  int which = sym::choice(7, "which"), as = sym::choice(5, "type");
  static const char* const nm[] = {"str", "num", "vec", "flag", "def", "sw", "unknown"};
  static const int own[] = {0, 1, 2, 0, 0, 3, -1};
  bool has = which < 4 ? g[which] : which != 6;
  if (which == 1) has = true;                      // has a default
  const po::variable_value& q = c[nm[which]];
  bool ok = true;
  try {
    switch (as) {
      case 0: { S r = q.as<S>(); SYM_ASSERT(eqs(r, which == 3 ? S() : which == 4 && !g[4] ? S("d") : v), "value"); break; }
      case 1: { int r = q.as<int>(); SYM_ASSERT(r == (g[1] ? n[0] - '0' : 5), "value"); break; }
      case 2: { VS r = q.as<VS>(); SYM_ASSERT(r.size() == 2 && eqs(r[0], v) && eqs(r[1], v), "value"); break; }
      case 3: SYM_ASSERT(q.as<bool>() == false, "value"); break;
      case 4: q.as<long>(); break;
    }
  } catch (boost::bad_any_cast&) { ok = false; }
  SYM_ASSERT(ok == (has && own[which] == as), "as<T> succeeds exactly for an option that has a value of type T");
  SYM_ASSERT(c.size() == size && c.count(nm[which]) == (has ? 1u : 0u) && q.empty() == !has, "looking is not touching");
  sym::cover(ok ? "value" : "wrong");
}
// ---- C20 notify
struct Log { VS calls; };
HARNESS(h_notify) {
  Log lg; S ts = "before"; VS tv(1, "before"); int tn = -1; bool tb = true;
  int nots = 0, notv = 0, notn = 0, notb = 0; S ns_; VS nv_; int nn_ = 0; bool nb_ = false;
  po::options_description d;
  d.add_options()
    ("str", po::value<S>(&ts)->notifier([&](const S& x) { ++nots; ns_ = x; }), "")
    ("vec", po::value<VS>(&tv)->composing()->multitoken()->notifier([&](const VS& x) { ++notv; nv_ = x; }), "")
    ("num", po::value<int>(&tn)->default_value(5)->notifier([&](const int& x) { ++notn; nn_ = x; }), "")
    ("sw", po::bool_switch(&tb)->notifier([&](const bool& x) { ++notb; nb_ = x; }), "");
  po::variables_map m; bool gs = false, gn = false, gb = false; S ws; VS wv; int wn = 5;
  int nsrc = 1 + sym::choice(2, "sources");
  if (sym::choice(2, "user entry")) m.insert(std::make_pair(S("mine"), po::variable_value(boost::any(7), false)));
  for (int s = 0; s < nsrc; ++s) {
    std::vector<Occ> src; Occ x; int g = sym::choice(16, "given");
    if (g & 1) { x.opt = 0; x.key = "str"; x.vals = VS(1, sym::str(1, "str")); src.push_back(x); if (!gs) { gs = true; ws = x.vals[0]; } }
    if (g & 2) { x.opt = 0; x.key = "vec"; x.vals = VS(1, sym::str(1, "vec")); src.push_back(x); wv.push_back(x.vals[0]); }
    if (g & 4) { x.opt = 0; x.key = "num"; S t = sym::str_of(1, "num", "0123456789"); x.vals = VS(1, t); src.push_back(x); if (!gn) { gn = true; wn = t[0] - '0'; } }
    if (g & 8) { x.opt = 0; x.key = "sw"; x.vals = VS(); src.push_back(x); gb = true; }
    // the switch may be given by one source only without meeting its default; later sources are ignored
    po::store(make(d, src), m);
  }
  SYM_ASSERT(ts == "before" && tv.size() == 1 && tn == -1 && tb && !nots && !notv && !notn && !notb, "nothing is delivered before notify");
  po::notify(m);
  SYM_ASSERT(nots == (gs ? 1 : 0) && notv == (wv.empty() ? 0 : 1) && notn == 1 && notb == 1, "each notifier is called exactly once");
  SYM_ASSERT(eqs(ts, gs ? ws : S("before")) && (!gs || eqs(ns_, ws)), "string target");
  if (wv.size()) SYM_ASSERT(sym::same(tv, wv) && sym::same(nv_, wv), "vector target has all values"); else SYM_ASSERT(tv.size() == 1 && tv[0] == "before", "target untouched");
  SYM_ASSERT(tn == wn && nn_ == wn, "number target");
  SYM_ASSERT(tb == gb && nb_ == gb, "switch target");
  sym::observe(ts, "str"); sym::observe(tv, "vec"); sym::observe_int(tn, "num");
  sym::cover(gs ? "given" : "absent");
}
HARNESS(h_notify_many) {      // many options, each with target and notifier; any set of two or all but two given
  const int N = 10; po::options_description d, g; S target[N]; int count[N]; S seen[N]; VS vt(1, "before");
  for (int i = 0; i < N; ++i) {
    count[i] = 0; target[i] = "before";
    S nm = S("o") + char('a' + i);
    po::typed_value<S>* t = po::value<S>(&target[i])->notifier([&count, &seen, i](const S& x) { ++count[i]; seen[i] = x; });
    if (i % 4 == 1) t->default_value("D");
    (i < 5 ? d : g).add_options()((nm + "," + S(1, char('a' + i))).c_str(), t, "");
  }
  int cc = 0; VS ct; d.add_options()("cdef", po::value<VS>(&ct)->composing()->default_value(VS(1, "C"), "C")->notifier([&cc](const VS& c) { cc += c.size() == 1 && c[0] == "C"; }), "");
  d.add(g); d.add_options()("vec", po::value<VS>(&vt)->composing(), "");
  int x = sym::choice(N, "one"), y = sym::choice(N, "two"); bool inv = sym::choice(2, "all but");
  VS v(N), wv; VS a[2];
  for (int i = 0; i < N; ++i) {
    bool gv = (i == x || i == y) != inv; if (!gv) continue;
    v[i] = sym::str(1, "value"); sym::assume(v[i] != "-" );
    a[i % 2].push_back(S("--o") + char('a' + i)); a[i % 2].push_back(v[i]);
    if (i % 3 == 0) { a[i % 2].push_back("--vec"); a[i % 2].push_back(S("v") + char('0' + i)); }
  }
  for (int q = 0; q < 2; ++q) for (int i = 0; i < N; ++i) if (v[i].size() && i % 3 == 0 && i % 2 == q) wv.push_back(S("v") + char('0' + i));
  po::variables_map m; for (int s = 0; s < 2; ++s) po::store(po::command_line_parser(a[s]).options(d).run(), m);
  for (int i = 0; i < N; ++i) SYM_ASSERT(!count[i] && target[i] == "before", "nothing before notify");
  SYM_ASSERT(!cc && ct.empty(), "nothing before notify"); po::notify(m); SYM_ASSERT(cc == 1 && ct == VS(1, "C"), "a default of a composing option as well");
  for (int i = 0; i < N; ++i) {
    bool gv = !v[i].empty(), def = i % 4 == 1;
    SYM_ASSERT(count[i] == (gv || def ? 1 : 0), "each notifier exactly once");
    SYM_ASSERT(eqs(target[i], gv ? v[i] : def ? S("D") : S("before")) && (!count[i] || eqs(seen[i], target[i])), "its own value");
  }
  SYM_ASSERT(sym::same(vt, wv.empty() ? VS(1, "before") : wv), "vector target");
  sym::cover(inv ? "many" : "few");
}
// values stored only by a failed source or by user code are skipped, wildcards and chained maps are not confused
HARNESS(h_notify_user) {
  int calls = 0; S target = "t"; S seen;
  po::options_description d; d.add_options()("w.*", po::value<S>(&target)->notifier([&](const S& x) { ++calls; seen += x; }), "")("mine", po::value<S>(), "");
  po::variables_map m;
  bool u = sym::choice(2, "user"); int w = sym::choice(3, "wild");
  if (u) m.insert(std::make_pair(S("user"), po::variable_value(boost::any(S("u")), sym::choice(2, "defaulted"))));
  if (u) m.insert(std::make_pair(S("none"), po::variable_value()));
  std::vector<Occ> src; Occ x; x.opt = 0; S a = sym::str(1, "a"), b = sym::str(1, "b");
  if (w) { x.key = "w.a"; x.vals = VS(1, a); src.push_back(x); }
  if (w > 1) { x.key = "w.b"; x.vals = VS(1, b); src.push_back(x); }
  po::store(make(d, src), m);
  SYM_ASSERT(calls == 0, "not before notify");
  po::notify(m);
  SYM_ASSERT(calls == w, "once per option with a value");
  SYM_ASSERT(eqs(seen, w == 0 ? S() : w == 1 ? a : a + b), "with its value");
  if (u) SYM_ASSERT(m["user"].as<S>() == "u" && m.count("none") == 1, "user entries are left alone");
  sym::cover(w ? "some" : "none");
}
// ---- C21 chained maps
static bool holds(const po::variable_value& g, int st, const S& v, int i) { return st == 4 ? g.value().type() == typeid(int) && g.as<int>() == i : g.value().type() == typeid(S) && eqs(g.as<S>(), v); }
HARNESS(h_chain) {
  const int N = Q(3, 4);
  po::variables_map m[4]; int st[4]; S v[4]; bool viactor = false;
  for (int i = 0; i < N; ++i) {
    st[i] = sym::choice(5, "state");       // 0 absent, 1 defaulted, 2 explicit, 3 present but empty, 4 defaulted with a value of another type
    v[i] = sym::str(1, "value");
    if (st[i] == 1 || st[i] == 2) m[i].insert(std::make_pair(S("x"), po::variable_value(boost::any(v[i]), st[i] == 1)));
    if (st[i] == 4) m[i].insert(std::make_pair(S("x"), po::variable_value(boost::any(i), true)));
    if (st[i] == 3) m[i].insert(std::make_pair(S("x"), po::variable_value()));
    m[i].insert(std::make_pair(S("y"), po::variable_value(boost::any(i), false)));
  }
  int len = 1 + sym::choice(N, "length");
  for (int i = 0; i + 1 < len; ++i) m[i].next(&m[i + 1]);
  int win = -1;
  for (int i = 0; i < len && win < 0; ++i) if (st[i] == 2) win = i;
  for (int i = 0; i < len && win < 0; ++i) if (st[i] == 1 || st[i] == 4) win = i;
  const po::variable_value& g = m[0]["x"];
  if (win < 0) { SYM_ASSERT(g.empty(), "nothing along the chain"); sym::cover("none"); }
  else {
    SYM_ASSERT(!g.empty() && holds(g, st[win], v[win], win) && g.defaulted() == (st[win] != 2), "nearest explicit value, else nearest default");
    sym::cover(st[win] == 2 ? (win ? "explicit behind" : "explicit") : "default");
  }
  SYM_ASSERT(m[0]["y"].as<int>() == 0, "the nearest map wins");
  SYM_ASSERT(m[0]["never"].empty() && !m[0]["never"].defaulted() && m[0]["never"].value().empty(), "an unknown name is empty");
  for (int i = 0; i < N; ++i) {
    SYM_ASSERT(m[i].size() == 1u + (st[i] != 0), "looking up adds nothing");
    if (st[i] == 1 || st[i] == 2) SYM_ASSERT(eqs(m[i].find("x")->second.as<S>(), v[i]), "looking up changes nothing");
    // every map also answers for its own part of the chain
    int w = -1;
    for (int k = i; k < (i < len ? len : i + 1) && w < 0; ++k) if (st[k] == 2) w = k;
    for (int k = i; k < (i < len ? len : i + 1) && w < 0; ++k) if (st[k] == 1 || st[k] == 4) w = k;
    const po::variable_value& h = m[i]["x"];
    SYM_ASSERT(w < 0 ? h.empty() : (!h.empty() && holds(h, st[w], v[w], w)), "each map looks from itself on");
  }
}
HARNESS(h_chain_long) {       // a chain of many maps, values in two of them
  const int N = Q(7, 10); po::variables_map m[10]; S v[10]; int st[10];
  int a = sym::choice(N, "one"), b = sym::choice(N, "two");
  for (int i = 0; i < N; ++i) st[i] = i % 3 == 1 ? 3 : 0;
  st[a] = 1 + sym::choice(2, "state"); st[b] = 1 + sym::choice(2, "state");
  bool ctor = sym::choice(2, "relink");
  for (int i = 0; i < N; ++i) {
    v[i] = sym::str(1, "value");
    if (st[i] == 1 || st[i] == 2) m[i].insert(std::make_pair(S("x"), po::variable_value(boost::any(v[i]), st[i] == 1)));
    if (st[i] == 3) m[i].insert(std::make_pair(S("x"), po::variable_value()));
  }
  for (int i = 0; i + 1 < N; ++i) m[i].next(&m[i + 1]);
  for (int from = 0; from < N; ++from) {
    int len = N;
    if (ctor && from == N / 2) { m[N - 2].next(0); }          // the last map leaves the chain
    if (ctor && from >= N / 2) len = N - 1;
    int win = -1;
    if (from == N - 1) len = N;
    for (int i = from; i < len && win < 0; ++i) if (st[i] == 2) win = i;
    for (int i = from; i < len && win < 0; ++i) if (st[i] == 1) win = i;
    const po::variable_value& g = m[from]["x"];
    SYM_ASSERT(win < 0 ? g.empty() : !g.empty() && eqs(g.as<S>(), v[win]) && g.defaulted() == (st[win] == 1), "nearest explicit value, else nearest default");
  }
  sym::cover("ok");
}
// maps filled by store, chained by constructor
HARNESS(h_chain_store) {
  po::options_description d; d.add_options()("a", po::value<S>()->default_value("da"), "")("b", po::value<S>(), "");
  po::variables_map outer; po::variables_map inner(&outer);
  bool g[4]; S v[4]; std::vector<Occ> s[2];
  for (int i = 0; i < 4; ++i) {
    g[i] = sym::choice(2, "given"); v[i] = sym::str(1, "value");
    if (g[i]) { Occ x; x.opt = 0; x.key = i & 1 ? "b" : "a"; x.vals = VS(1, v[i]); s[i / 2].push_back(x); }
  }
  po::store(make(d, s[0]), inner); po::store(make(d, s[1]), outer);
  SYM_ASSERT(eqs(inner["a"].as<S>(), g[0] ? v[0] : g[2] ? v[2] : S("da")) && inner["a"].defaulted() == (!g[0] && !g[2]), "explicit in the outer map beats a default in the inner");
  if (g[1] || g[3]) SYM_ASSERT(eqs(inner["b"].as<S>(), g[1] ? v[1] : v[3]), "nearest"); else SYM_ASSERT(inner["b"].empty(), "absent");
  SYM_ASSERT(outer.count("b") == (g[3] ? 1u : 0u) && inner.count("b") == (g[1] ? 1u : 0u), "storing concerns one map only");
  inner.next(0);
  SYM_ASSERT(g[1] ? eqs(inner["b"].as<S>(), v[1]) : inner["b"].empty(), "unchained");
  sym::cover(g[0] ? "inner" : g[2] ? "outer" : "default");
}
// ---- C32 what was parsed is what the map holds
struct E2E { VS vals; int n; E2E() : n(0) {} };
static bool is_int(const S& s) { size_t i = (s.size() && (s[0] == '-' || s[0] == '+')) ? 1 : 0; if (i == s.size()) return false; unsigned ok = 1; for (; i < s.size(); ++i) ok &= (s[i] >= '0') & (s[i] <= '9'); return ok != 0; }
static void e2e(const VS& a, bool named, bool allow) {
  po::options_description d;
  d.add_options()("ab,a", po::value<S>(), "")("num,n", po::value<int>(), "")("vec,v", po::value<VS>()->multitoken(), "")("flag,f", "")("imp,i", po::value<S>()->implicit_value("I")->default_value("D"), "")("p", po::value<VS>(), "");
  po::positional_options_description pd; if (named) pd.add("p", -1);
  std::vector<po::option> r; po::parsed_options pr(&d);
  Kind k = run_kind([&] { po::command_line_parser q(a); q.options(d); if (allow) q.allow_unregistered(); if (named) q.positional(pd); pr = q.run(); });
  if (k != OK) { sym::cover("parse error"); return; }
  r = pr.options;
  static const char* const key[] = {"ab", "num", "vec", "flag", "imp", "p"};
  E2E w[6]; bool fine = true;
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].unregistered || r[i].string_key.empty()) continue;
    int x = -1; for (int q = 0; q < 6; ++q) if (r[i].string_key == key[q]) x = q;
    SYM_ASSERT(x >= 0, "a registered option has a declared key"); if (x < 0) return;
    if (x != 2 && x != 5 && w[x].n) fine = false;
    if (x == 1 && !(r[i].value.size() == 1 && is_int(r[i].value[0]))) fine = false;
    ++w[x].n; w[x].vals.insert(w[x].vals.end(), r[i].value.begin(), r[i].value.end());
  }
  if (w[4].n > 1) return;                      // implicit value after a value: left open
  po::variables_map m;
  k = run_kind([&] { po::store(pr, m); });
  SYM_ASSERT((k == OK) == fine, "storing succeeds exactly when every value suits its type and is given once");
  if (k != OK || !fine) { sym::cover("store error"); return; }
  size_t n = 1;
  for (int x = 0; x < 6; ++x) {
    if (x == 4) continue;
    SYM_ASSERT(m.count(key[x]) == (w[x].n ? 1u : 0u), "present exactly when it occurs");
    if (!w[x].n || !m.count(key[x])) continue;
    ++n; const po::variable_value& v = m[key[x]];
    SYM_ASSERT(!v.defaulted(), "not defaulted");
    if (x == 0) SYM_ASSERT(w[x].vals.size() == 1 && eqs(v.as<S>(), w[x].vals[0]), "string given");
    if (x == 1) { S t = w[x].vals[0]; if (t[0] == '+') t = t.substr(1); if (t.size() == 1) SYM_ASSERT(v.as<int>() == t[0] - '0', "number given"); }
    if (x == 2 || x == 5) SYM_ASSERT(sym::same(v.as<VS>(), w[x].vals), "all values given, in order");
    sym::cover(key[x]);
  }
  SYM_ASSERT(m.count("imp") == 1 && m["imp"].defaulted() == !w[4].n && eqs(m["imp"].as<S>(), !w[4].n ? S("D") : w[4].vals.empty() ? S("I") : w[4].vals[0]), "default, implicit or given");
  SYM_ASSERT(m.size() == n, "nothing else leaves a trace");
  sym::observe_int(m.size(), "size");
}
HARNESS(h_e2e) {             // free short command lines
  static const char* const pf[] = {"", "-", "--"};
  VS a; int k = 1 + sym::choice(Q(3, 3), "ntok");
  for (int i = 0; i < k; ++i) { S p = pf[sym::choice(3, "prefix")]; a.push_back(p + sym::str_upto(k == 3 ? 1 : 0, Q(2, 3) - (k == 3), "text", "-=anvfi1")); }
  bool pos = sym::choice(2, "positional"); bool allow = sym::choice(2, "allow"); e2e(a, pos, allow);
}
HARNESS(h_e2e_long) {        // well-formed occurrences with free values
  static const char* const head[] = {"--ab=", "-a", "--num=", "-n", "--vec=", "--imp=", "-i", "--un=", "", "--flag", "--imp", "-f"};
  VS a; int k = 1 + sym::choice(Q(2, 3), "n");
  for (int i = 0; i < k; ++i) {
    int h = sym::choice(12, "form"); S t = head[h];
    if (h < 9) t += sym::str_of(1 + sym::choice(Q(2, 2), "len"), "value", "-=a 17");
    a.push_back(t);
  }
  bool pos = sym::choice(2, "positional"); bool allow = sym::choice(2, "allow"); e2e(a, pos, allow);
}
// ---- C33: storing whatever a parser (built in or user written) hands over
HARNESS(h_store_robust) {
  S target; int ran = 0;
  po::options_description d;
  d.add_options()("ab,a", po::value<S>(&target)->required(), "")("n", po::value<int>(), "")("vi", po::value<std::vector<int> >()->composing(), "")("w*", po::value<VS>()->notifier([&](const VS&) { ++ran; }), "")
    ("f", "")("im", po::value<S>()->implicit_value("I"), "")("sw,s", po::bool_switch(), "")("bo", po::value<bool>(), "");
  po::variables_map m; int ns = 1 + sym::choice(2, "sources");
  static const char* const keys[] = {"ab", "n", "vi", "wx", "f", "im", "sw", "bo", ""};
  int total = Q(2, 3);
  for (int s = 0; s < ns; ++s) {
    po::parsed_options p(&d, sym::choice(2, "prefix") ? ps::allow_long : ps::allow_dash_for_short);
    int k = sym::choice(total + 1, "occurrences"); total -= k;
    for (int i = 0; i < k; ++i) {
      po::option o; int w = sym::choice(10, "key");
      o.string_key = w < 9 ? S(keys[w]) : sym::str_upto(1, 2, "keytext", "anw*-");
      int nt = sym::choice(3, "tokens"); for (int t = 0; t < nt; ++t) o.value.push_back(t ? S("x") : sym::str_upto(0, Q(1, 2), "token"));
      if (sym::choice(2, "original")) o.original_tokens.push_back("%" + o.string_key);
      o.case_insensitive = w == 9;
      p.options.push_back(o);
    }
    bool ok = true;
    try { po::store(p, m); }
    catch (po::error& e) { ok = false; S what = e.what(); SYM_ASSERT(!what.empty(), "a message"); sym::observe(what, "what"); }
    try { po::notify(m); sym::cover("notified"); } catch (po::required_option& e) { SYM_ASSERT(S(e.what()).find("-a") != S::npos, "names the option"); }
    sym::cover(ok ? "ok" : "error");
  }
  for (std::map<S, po::variable_value>::iterator i = m.begin(); i != m.end(); ++i) sym::observe(i->first, "key");
}
