// Option descriptions: C24 names, C25 lookup, C26 groups, C27 error messages.
#include "model.h"
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
// ---- C24
struct Names { VS longs; S sh; bool ok; };
// "long1,long2,...,s": the reading the documentation gives
static Names split_names(const S& d) {
  Names n; n.ok = true; VS p; S cur;
  for (size_t i = 0; i < d.size(); ++i) if (d[i] == ',') { p.push_back(cur); cur.clear(); } else cur += d[i];
  if (!cur.empty()) p.push_back(cur); else n.ok = false;          // a trailing comma is left open
  if (p.size() > 1 && p.back().size() == 1) { n.sh = "-" + p.back(); p.pop_back(); if (p.size() == 1 && p[0].empty()) p.clear(); }
  for (size_t i = 0; i < p.size(); ++i) if (p[i].empty()) n.ok = false;
  n.longs = p;
  return n;
}
static bool knows(const Names& n, const S& q) { unsigned r = 0; for (size_t i = 0; i < n.longs.size(); ++i) r |= eqs(n.longs[i], q); if (!n.sh.empty()) r |= eqs(n.sh, q); return r != 0; }
HARNESS(h_names) {
  S decl = sym::str_upto(1, Q(6, 7), "decl", "abc,");
  Names n = split_names(decl);
  if (!n.ok) return;
  po::option_description o(decl.c_str(), po::value<S>(), "text");
  S q = sym::str_upto(1, 3, "query", "abc-,");
  bool hit = o.match(q, false, false, false) == po::option_description::full_match;
  SYM_ASSERT(hit == knows(n, q), "exactly the declared names select the option");
  SYM_ASSERT((o.match(q, false, false, false) == po::option_description::no_match) == !hit, "nothing else selects it");
  S key = n.longs.empty() ? n.sh : n.longs[0];
  SYM_ASSERT(eqs(o.key(q), key), "key: first long name, else the short name");
  SYM_ASSERT(eqs(o.long_name(), n.longs.empty() ? S() : n.longs[0]), "long_name");
  std::pair<const S*, size_t> ln = o.long_names();
  SYM_ASSERT(ln.second == n.longs.size(), "long_names");
  for (size_t i = 0; i < ln.second && i < n.longs.size(); ++i) SYM_ASSERT(eqs(ln.first[i], n.longs[i]), "long_names");
  S dl = n.longs.empty() ? n.sh : "--" + n.longs[0], dd = n.longs.empty() ? n.sh : "-" + n.longs[0], plain = key;
  SYM_ASSERT(eqs(o.canonical_display_name(ps::allow_long), dl) && eqs(o.canonical_display_name(ps::allow_long_disguise), dd), "display name with the prefix of long options");
  SYM_ASSERT(eqs(o.canonical_display_name(ps::allow_dash_for_short), n.sh.empty() ? key : n.sh) && eqs(o.canonical_display_name(ps::allow_slash_for_short), n.sh.empty() ? key : "/" + n.sh.substr(1)), "display name with the prefix of short options");
  SYM_ASSERT(eqs(o.canonical_display_name(0), key), "display name without prefix");
  SYM_ASSERT(o.description() == "text", "description");
  sym::observe(key, "key"); sym::observe(o.format_name(), "format");
  sym::cover(hit ? "hit" : "miss");
  if (n.longs.size() > 1) sym::cover("aliases");
  if (n.longs.empty()) sym::cover("short only");
}
HARNESS(h_names_many) {      // several long names, all free
  S decl; int n = Q(4, 5);
  for (int i = 0; i < n; ++i) { S t = sym::str_upto(1, 2, "name", "ab"); if (i) decl += ","; decl += (i % 2 ? S(18, 'l') : S()) + t; }
  if (sym::choice(2, "short")) decl += ",s";
  Names nn = split_names(decl);
  po::option_description o(decl.c_str(), po::value<S>(), "text"), z("zz", po::value<S>(), "");
  S q = (sym::choice(2, "longer") ? S(18, 'l') : S()) + sym::str_upto(1, 2, "query", "ab-s");
  SYM_ASSERT((o.match(q, false, false, false) == po::option_description::full_match) == knows(nn, q), "exactly the declared names select the option");
  unsigned part = 0; for (size_t i = 0; i < nn.longs.size(); ++i) part |= pre(q, nn.longs[i]);
  po::option_description::match_result r = o.match(q, true, false, false);
  SYM_ASSERT(r == (knows(nn, q) ? po::option_description::full_match : part ? po::option_description::approximate_match : po::option_description::no_match), "a prefix of a declared name selects it approximately");
  std::pair<const S*, size_t> ln = o.long_names();
  SYM_ASSERT(ln.second == nn.longs.size(), "long_names");
  for (size_t i = 0; i < ln.second && i < nn.longs.size(); ++i) SYM_ASSERT(eqs(ln.first[i], nn.longs[i]), "long_names");
  SYM_ASSERT(eqs(o.key(q), nn.longs[0]), "key");
  sym::cover(knows(nn, q) ? "hit" : part ? "part" : "miss");
}
// every declared name works on a command line and is stored under the one key
HARNESS(h_names_cmdline) {
  S decl = sym::str_upto(1, Q(4, 5), "decl", "ab,"); sym::assume(decl[0] != '-');
  Names n = split_names(decl);
  if (!n.ok) return;
  for (size_t i = 0; i < n.longs.size(); ++i) for (size_t k = 0; k < i; ++k) sym::assume(!eqs(n.longs[i], n.longs[k]));
  po::options_description d; d.add_options()(decl.c_str(), po::value<S>(), "");
  VS tok; for (size_t i = 0; i < n.longs.size(); ++i) tok.push_back("--" + n.longs[i] + "=v");
  if (!n.sh.empty()) tok.push_back(n.sh + "v");
  for (size_t i = 0; i < tok.size(); ++i) {
    po::variables_map m; VS a(1, tok[i]);
    Kind k = run_kind([&] { po::store(po::command_line_parser(a).options(d).style(ps::default_style & ~ps::allow_guessing).run(), m); });
    SYM_ASSERT(k == OK, "every declared name is accepted");
    if (k != OK) return;
    S key = n.longs.empty() ? n.sh : n.longs[0];
    SYM_ASSERT(m.size() == 1 && m.count(key) == 1 && m[key].as<S>() == "v", "and stored under the key");
  }
  S q = sym::str_of(1 + sym::choice(2, "len"), "other", "abc");
  S t = "--" + q; unsigned known = 0; for (size_t i = 0; i < n.longs.size(); ++i) known |= eqs(n.longs[i], q);
  if (!known) {
    VS a; a.push_back(t); a.push_back("v"); po::variables_map m;
    Kind k = run_kind([&] { po::store(po::command_line_parser(a).options(d).style(ps::default_style & ~ps::allow_guessing).run(), m); });
    SYM_ASSERT(k == UNKNOWN, "no other name is");
    sym::cover("unknown");
  }
  sym::cover("ok");
}
// ---- C25
struct Found { int which; };      // index, -1 none, -2 ambiguous
static Found look(const std::vector<Names>& o, const S& q0, bool approx, bool lc, bool sc, bool& open) {
  int full = -1, nf = 0, ap = -1, na = 0; open = false;
  S q = lc ? low(q0) : q0, qs = sc ? low(q0) : q0;
  for (size_t i = 0; i < o.size(); ++i) {
    bool f = false, a = false;
    for (size_t k = 0; k < o[i].longs.size(); ++k) {
      S l = lc ? low(o[i].longs[k]) : o[i].longs[k];
      if (eqs(l, q)) f = true;
      if (l[l.size() - 1] == '*') { S p = l.substr(0, l.size() - 1); if (eqs(p, q)) open = true; else if (pre(p, q)) a = true; }
      if (approx && pre(q, l)) a = true;
    }
    if (!o[i].sh.empty()) { S s = sc ? low(o[i].sh) : o[i].sh; if (eqs(s, qs)) f = true; }
    if (f) { ++nf; full = (int)i; } else if (a) { ++na; ap = (int)i; }
  }
  Found r; r.which = nf > 1 ? -2 : nf ? full : na > 1 ? -2 : ap;
  if (nf) open = false;
  return r;
}
static int lib_find(const po::options_description& d, const S& q, bool ap, bool lc, bool sc) {
  try { const po::option_description* f = &d.find(q, ap, lc, sc); for (size_t i = 0; i < d.options().size(); ++i) if (d.options()[i].get() == f) return (int)i; return -4; }
  catch (po::unknown_option&) { return -1; } catch (po::ambiguous_option&) { return -2; }
}
static int lib_nothrow(const po::options_description& d, const S& q, bool ap, bool lc, bool sc) {
  try { const po::option_description* f = d.find_nothrow(q, ap, lc, sc); if (!f) return -1; for (size_t i = 0; i < d.options().size(); ++i) if (d.options()[i].get() == f) return (int)i; return -4; }
  catch (po::unknown_option&) { return -3; } catch (po::ambiguous_option&) { return -2; }
}
static void find_case(const VS& decl, const S& q) {
  std::vector<Names> nn; po::options_description d, r;
  for (size_t i = 0; i < decl.size(); ++i) { nn.push_back(split_names(decl[i])); if (!nn.back().ok) return; }
  for (size_t i = 0; i < decl.size(); ++i) { d.add_options()(decl[i].c_str(), po::value<S>(), ""); r.add_options()(decl[decl.size() - 1 - i].c_str(), po::value<S>(), ""); }
  bool ap = sym::choice(2, "approx"), lc = sym::choice(2, "longcase"), sc = sym::choice(2, "shortcase");
  bool open; Found f = look(nn, q, ap, lc, sc, open);
  int g = lib_find(d, q, ap, lc, sc), h = lib_nothrow(d, q, ap, lc, sc), b = lib_find(r, q, ap, lc, sc);
  SYM_ASSERT(g == h, "find_nothrow agrees with find");
  SYM_ASSERT(b == (g < 0 ? g : (int)decl.size() - 1 - g), "the order of declaration does not matter");
  if (open) return;
  SYM_ASSERT(g == f.which, "the declared option, unknown or ambiguous");
  sym::observe_int(g, "found");
  sym::cover(g >= 0 ? "found" : g == -1 ? "none" : "ambiguous");
}
HARNESS(h_find) {
  VS decl; int n = 1 + sym::choice(Q(2, 3), "options");
  for (int i = 0; i < n; ++i) { S s = sym::str_upto(1, Q(3, 3), "decl", "ab,*"); for (size_t k = 0; k + 1 < s.size(); ++k) sym::assume(s[k] != '*'); sym::assume(!(s.size() >= 2 && s[s.size() - 2] == ',' && s[s.size() - 1] == '*')); decl.push_back(s); }
  find_case(decl, sym::str_upto(1, 3, "query", "ab-"));
}
HARNESS(h_find_case) {       // letter case
  VS decl; int n = 1 + sym::choice(2, "options");
  for (int i = 0; i < n; ++i) decl.push_back(sym::str_upto(1, Q(2, 3), "decl", "aAb,"));
  find_case(decl, sym::str_upto(1, Q(2, 3), "query", "aAbB-"));
}
HARNESS(h_find_three) {      // exact beats prefix beats nothing, with three overlapping declarations
  static const char* const pool[] = {"all", "all-in,a", "al*", "b,al", "alt,all2", "ALL"};
  VS decl; int c[3]; int n = Q(3, 3);
  for (int i = 0; i < n; ++i) { c[i] = sym::choice(6, "pick"); for (int k = 0; k < i; ++k) sym::assume(c[i] != c[k]); decl.push_back(pool[c[i]]); }
  find_case(decl, sym::str_upto(1, Q(5, 6), "query", "alt-*A"));
}
HARNESS(h_find_aliases) {    // several long names for one option, one extending another, next to a second option
  S l1 = sym::str_upto(1, 2, "first", "ab"), l2 = sym::str_upto(2, 3, "second", "ab"), b = sym::str_upto(1, Q(2, 3), "other", "ab");
  S a = sym::choice(2, "swap") && l1.size() > 1 ? l2 + "," + l1 : l1 + "," + l2;
  if (sym::choice(2, "short")) a += ",s";
  VS decl; decl.push_back(a); decl.push_back(b);
  find_case(decl, sym::str_upto(1, 3, "query", "ab"));
}
HARNESS(h_find_many) {       // many declarations
  static const char* const all[] = {"a", "ab", "abc,x", "b.a,b", "b.ab", "c,cab", "cabc", "abd*", "d,d.a,d.ab", "e*", "AB,y", "abcabcabc", ",z", "aba,abaa,ab2", "dd", "cc", "dd,p", "cc,q", "dd", "cc", "cc,r"};
  VS decl(all, all + sizeof all / sizeof *all);
  find_case(decl, sym::str_upto(1, Q(4, 5), "query", "abcdA.-"));
}
// ---- C26 groups
struct Rec { const char* names; int kind; };      // 0 string, 1 flag, 2 default, 3 required, 4 vector
static const Rec R26[] = {{"ab,a", 0}, {"ac,c", 1}, {"def,d", 2}, {"req,r", 3}, {"vec,v", 4}};
static void put(po::options_description& d, int i) {
  switch (R26[i].kind) {
    case 0: d.add_options()(R26[i].names, po::value<S>(), "string"); break;
    case 1: d.add_options()(R26[i].names, "flag"); break;
    case 2: d.add_options()(R26[i].names, po::value<S>()->default_value("D"), "default"); break;
    case 3: d.add_options()(R26[i].names, po::value<S>()->required(), "required"); break;
    case 4: d.add_options()(R26[i].names, po::value<VS>()->multitoken(), "vector"); break;
  }
}
// shape: how the five options are spread over groups; always in the same order of declaration
static void grouped(po::options_description& root, int shape) {
  po::options_description g1("g1"), g2("g2"), g3("g3");
  switch (shape) {
    case 0: for (int i = 0; i < 5; ++i) put(g1, i); root.add(g1); break;
    case 1: put(root, 0); put(g1, 1); put(g1, 2); put(g2, 3); put(g2, 4); root.add(g1).add(g2); break;
    case 2: put(g1, 0); put(g2, 1); put(g3, 2); put(g3, 3); put(g3, 4); g2.add(g3); g1.add(g2); root.add(g1); break;
    case 3: put(g1, 0); root.add(g1); put(root, 1); put(g2, 2); put(g2, 3); root.add(g2); put(root, 4); break;
    case 4: put(g3, 0); put(g3, 1); g2.add(g3); put(g2, 2); g1.add(g2); put(g1, 3); root.add(g1); put(root, 4); break;
  }
}
static Kind run26(const po::options_description& d, const VS& a, std::vector<po::option>& r, po::variables_map& m, S& msg) {
  try { po::parsed_options p = po::command_line_parser(a).options(d).run(); r = p.options; po::store(p, m); po::notify(m); return OK; }
  catch (po::error& e) { msg = e.what(); 
    if (dynamic_cast<po::unknown_option*>(&e)) return UNKNOWN; if (dynamic_cast<po::ambiguous_option*>(&e)) return AMBIG; if (dynamic_cast<po::invalid_command_line_syntax*>(&e)) return SYNTAX; return OTHER_ERROR; }
}
static void same_run(const po::options_description& x, const po::options_description& y, const VS& a) {
  std::vector<po::option> r1, r2; po::variables_map m1, m2; S e1, e2;
  Kind k1 = run26(x, a, r1, m1, e1), k2 = run26(y, a, r2, m2, e2);
  SYM_ASSERT(k1 == k2 && eqs(e1, e2), "same outcome");
  if (k1 != k2) return;
  SYM_ASSERT(r1.size() == r2.size(), "same options");
  for (size_t i = 0; i < r1.size() && i < r2.size(); ++i)
    SYM_ASSERT(eqs(r1[i].string_key, r2[i].string_key) && sym::same(r1[i].value, r2[i].value) && r1[i].position_key == r2[i].position_key && r1[i].unregistered == r2[i].unregistered, "same options");
  SYM_ASSERT(m1.size() == m2.size(), "same variables");
  std::map<S, po::variable_value>::iterator i = m1.begin(), j = m2.begin();
  for (; i != m1.end() && j != m2.end(); ++i, ++j) {
    SYM_ASSERT(eqs(i->first, j->first) && i->second.defaulted() == j->second.defaulted() && i->second.empty() == j->second.empty(), "same variables");
    if (i->first == "vec") SYM_ASSERT(sym::same(i->second.as<VS>(), j->second.as<VS>()), "same values");
    else if (!i->second.empty()) SYM_ASSERT(eqs(i->second.as<S>(), j->second.as<S>()), "same values");
  }
  sym::cover(k1 == OK ? "ok" : "error");
}
HARNESS(h_group) {
  po::options_description flat("flat"), root("root");
  for (int i = 0; i < 5; ++i) put(flat, i);
  grouped(root, sym::choice(5, "shape"));
  SYM_ASSERT(root.options().size() == flat.options().size(), "same number of options");
  for (size_t i = 0; i < root.options().size(); ++i) SYM_ASSERT(root.options()[i]->long_name() == flat.options()[i]->long_name(), "same order");
  VS a; int n = sym::choice(Q(3, 3), "n");
  static const char* const pf[] = {"", "-", "--"};
  for (int i = 0; i < n; ++i) { S p = pf[sym::choice(3, "prefix")]; a.push_back(p + sym::str_upto(1, Q(2, 3), "text", "=abcdrv")); }
  if (sym::choice(2, "required")) a.push_back("--req=x");
  same_run(root, flat, a);
}
// every tree of groups: between two options any number of groups may end and begin
static void tree(po::options_description& g, int& i, int n, int depth, int maxd, int& left) {
  while (i < n) {
    int how = sym::choice(3, "next");      // 0: an option, 1: a group, 2: the end of this one
    if (how == 0) { put(g, i++); continue; }
    if (how == 1) { sym::assume(depth < maxd && left > 0); --left; po::options_description s("s"); tree(s, i, n, depth + 1, maxd, left); g.add(s); continue; }
    sym::assume(depth > 0); return;
  }
}
HARNESS(h_group_tree) {
  po::options_description flat("flat"), root("root"); int n = Q(4, 5), i = 0, left = Q(4, 5);
  for (int k = 0; k < n; ++k) put(flat, k);
  tree(root, i, n, 0, 3, left);
  SYM_ASSERT(root.options().size() == flat.options().size(), "same number of options");
  for (size_t k = 0; k < root.options().size() && k < flat.options().size(); ++k) SYM_ASSERT(root.options()[k]->long_name() == flat.options()[k]->long_name(), "same order");
  VS a; S v = sym::str(1, "value");
  switch (sym::choice(3, "args")) {
    case 0: a.push_back("--ab=" + v); a.push_back("-c"); a.push_back("-rx"); break;
    case 1: a.push_back("--req"); a.push_back(v); a.push_back("--de=" + v); break;
    case 2: a.push_back("--ac"); a.push_back("-a" + v); break;
  }
  same_run(root, flat, a);
}
HARNESS(h_group_many) {      // many groups added to each other, a few options in each
  po::options_description flat("flat"), root("root"); int at = sym::choice(4, "shape"); const int N = 12;
  std::vector<boost::shared_ptr<po::options_description> > g;
  for (int i = 0; i < N; ++i) {
    S nm = S("opt") + char('a' + i) + "," + S(1, char('a' + i));
    if (i % 3 == 0) g.push_back(boost::shared_ptr<po::options_description>(new po::options_description(S("group") + char('a' + i))));
    for (int w = 0; w < 2; ++w) {
      po::options_description& d = w ? *g.back() : flat;
      if (i % 4 == 0) d.add_options()(nm.c_str(), po::value<S>(), ""); else if (i % 4 == 1) d.add_options()(nm.c_str(), ""); else if (i % 4 == 2) d.add_options()(nm.c_str(), po::value<S>()->default_value("D"), ""); else d.add_options()(nm.c_str(), po::value<VS>()->multitoken(), "");
    }
  }
  if (at == 0) for (size_t i = 0; i < g.size(); ++i) root.add(*g[i]);
  else if (at == 1) { for (size_t i = g.size(); i-- > 1;) g[i - 1]->add(*g[i]); root.add(*g[0]); }
  else if (at == 2) { g[0]->add(*g[1]); g[2]->add(*g[3]); root.add(*g[0]).add(*g[2]); }
  else { root.add(*g[0]); g[1]->add(*g[2]).add(*g[3]); root.add(*g[1]); }
  SYM_ASSERT(root.options().size() == (size_t)N, "every option is in");
  for (int i = 0; i < N && root.options().size() == (size_t)N; ++i) SYM_ASSERT(root.options()[i]->long_name() == flat.options()[i]->long_name(), "in order");
  VS a; S t = sym::str_upto(1, Q(2, 3), "text", "abcdel=-");
  switch (sym::choice(4, "form")) { case 0: a.push_back("--opt" + t); break; case 1: a.push_back("-" + t); break; case 2: a.push_back("--op=" + t); break; case 3: a.push_back("-d"); a.push_back(t); a.push_back("x"); break; }
  a.push_back("--opta=x");
  std::vector<po::option> r1, r2; po::variables_map m1, m2; S e1, e2; Kind k1 = run26(root, a, r1, m1, e1), k2 = run26(flat, a, r2, m2, e2);
  SYM_ASSERT(k1 == k2 && eqs(e1, e2), "same outcome");
  SYM_ASSERT(r1.size() == r2.size() && m1.size() == m2.size(), "same options");
  for (size_t i = 0; i < r1.size() && i < r2.size(); ++i) SYM_ASSERT(eqs(r1[i].string_key, r2[i].string_key) && sym::same(r1[i].value, r2[i].value), "same options");
  sym::cover(k1 == OK ? "ok" : "error");
}
HARNESS(h_group_indep) {     // the group stays as it was; later changes to it do not reach the parent
  po::options_description root("root"), g("g"), sub("sub"), g0("g"), sub0("sub");
  put(sub, 0); put(sub0, 0); sub.add_options(); 
  put(g, 1); put(g0, 1); g.add(sub); g0.add(sub0);
  std::ostringstream before, after, parent1, parent2; before << g0;
  put(root, 4); root.add(g);
  after << g;
  SYM_ASSERT(before.str() == after.str() && g.options().size() == 2 && sub.options().size() == 1, "the added group is unchanged");
  parent1 << root;
  int how = sym::choice(3, "later");
  if (how == 0) put(g, 2); else if (how == 1) put(sub, 2); else { po::options_description x("x"); put(x, 2); put(x, 3); g.add(x); }
  parent2 << root;
  SYM_ASSERT(parent1.str() == parent2.str() && root.options().size() == 3, "later changes do not affect the parent");
  SYM_ASSERT(!root.find_nothrow("def", false) && !root.find_nothrow("req", false), "later changes do not affect the parent");
  // the group works on its own
  S v = sym::str(2, "value"); VS a(1, "--ab=" + v);
  po::variables_map m; Kind k = run_kind([&] { po::store(po::command_line_parser(a).options(g).run(), m); });
  SYM_ASSERT(k == OK && m.count("ab") && eqs(m["ab"].as<S>(), v), "the group is usable on its own");
  VS b(1, "--vec=x"); std::vector<po::option> r; k = run_kind([&] { r = po::command_line_parser(b).options(g).run().options; });
  SYM_ASSERT(k == UNKNOWN, "and does not know its parent's options");
  sym::cover("ok");
}
// ---- C27 error messages
static S subst(const S& t, const S& f1, const S& t1, const S& f2, const S& t2) {      // both at once
  S r;
  for (size_t i = 0; i < t.size();) if (t.compare(i, f1.size(), f1) == 0) { r += t1; i += f1.size(); } else if (t.compare(i, f2.size(), f2) == 0) { r += t2; i += f2.size(); } else r += t[i++];
  return r;
}
enum { N_ERR = 10 };
// Raises error number `w` about option `name` and value `v`; returns what()
static S raise(int w, const S& name, const S& v, bool& thrown) {
  thrown = false;
  po::options_description d; VS a; int style = 0;
  switch (w) {
    case 0: d.add_options()(name.c_str(), po::value<int>(), ""); a.push_back("--" + name + "=x" + v); break;
    case 1: d.add_options()(name.c_str(), po::value<bool>(), ""); a.push_back("--" + name); a.push_back("x" + v); break;
    case 2: d.add_options()(name.c_str(), po::value<S>(), ""); a.push_back("--" + name); break;                                   // missing
    case 3: d.add_options()(name.c_str(), ""); a.push_back("--" + name + "=x" + v); break;                                         // extra
    case 4: d.add_options()("zz", ""); a.push_back("--" + name); break;                                                      // unknown
    case 5: d.add_options()(name.c_str(), po::value<S>(), ""); a.push_back("--" + name + "=x"); a.push_back("--" + name + "=" + v + "y"); break;  // twice
    case 6: d.add_options()(name.c_str(), po::value<S>()->required(), ""); break;
    case 7: d.add_options()(name.c_str(), po::value<std::vector<int> >()->multitoken(), ""); a.push_back("--" + name); a.push_back("1"); a.push_back("x" + v); break;
    case 8: d.add_options()((name + ",q").c_str(), po::value<int>(), ""); a.push_back("-qx" + v); break;                              // short
    case 9: d.add_options()(name.c_str(), po::value<int>(), ""); style = ps::allow_long_disguise | ps::long_allow_adjacent; a.push_back("-" + name + "=x" + v); break;
  }
  try { po::variables_map m; po::store(po::command_line_parser(a).options(d).style(style).run(), m); po::notify(m); }
  catch (po::error& e) {
    thrown = true; S one = e.what(), two = e.what();
    SYM_ASSERT(eqs(one, two), "what() is stable");
    return one;
  }
  return S();
}
static void uniform(int w, const S& name, const S& v) {
  bool t1, t2; S plain = raise(w, "QNQ", "QVQ", t1), got = raise(w, name, v, t2);
  SYM_ASSERT(t1 && t2, "the error is raised");
  if (!t1 || !t2) return;
  SYM_ASSERT(plain.find('%') == S::npos, "no placeholder is left");
  SYM_ASSERT(plain.find("QNQ") != S::npos || (w == 8 && plain.find("-q") != S::npos), "the option is named");
  if (w == 0 || w == 1 || w == 7 || w == 8 || w == 9) SYM_ASSERT(plain.find("xQVQ") != S::npos, "the value is named");
  SYM_ASSERT(eqs(got, subst(plain, "QNQ", name, "QVQ", v)), "the message is the same text for every name and value");
  sym::observe(got, "what"); sym::cover("ok");
}
HARNESS(h_err_value) {
  int w = sym::choice(N_ERR, "error");
  S v = sym::str_upto(0, Q(3, 5), "value"); for (size_t i = 0; i < v.size(); ++i) sym::assume(v[i] != 0);
  uniform(w, "name", v);
}
HARNESS(h_err_name) {
  int w = sym::choice(N_ERR, "error");
  S n = sym::str_upto(2, Q(4, 5), "name"); for (size_t i = 0; i < n.size(); ++i) sym::assume(!sym::in(n[i], ",=*") & (n[i] != 0)); sym::assume(!sym::in(n[0], "-/"));
  if (w == 4) sym::assume(!(n[0] == 'z' && (n.size() == 1 || n[1] == 'z')));
  uniform(w, n, "v");
}
HARNESS(h_err_holder) {      // names and values that look like placeholders
  static const char* const ph[] = {"%value%", "%option%", "%canonical_option%", "%prefix%", "%original_token%", "%", "%%", "%value%%value%", "argument ('%value%')", "option '%canonical_option%'", "%invalid_line%"};
  int w = sym::choice(N_ERR, "error"); S v = ph[sym::choice(11, "value")], n = ph[sym::choice(11, "name")];
  S a = sym::str_upto(0, 1, "after", "%av'");
  uniform(w, n, v + a);
}
HARNESS(h_err_copy) {        // copies, assignment and repeated calls
  S v = sym::str_upto(0, Q(3, 4), "value", "%vao'"); S n = "name";
  po::options_description d; d.add_options()("name,n", po::value<int>(), "");
  VS a; a.push_back(sym::choice(2, "short") ? "-nx" + v : "--name=x" + v);
  bool caught = false;
  try { po::variables_map m; po::store(po::command_line_parser(a).options(d).run(), m); }
  catch (po::invalid_option_value& e) {
    caught = true;
    po::invalid_option_value c(e); S w0 = c.what(); S w1 = e.what(); po::invalid_option_value c2(e); S w2 = c2.what(); po::invalid_option_value c3("other"); c3 = c; S w3 = c3.what();
    const po::error& base = e; S w4 = base.what();
    SYM_ASSERT(eqs(w0, w1) && eqs(w1, w2) && eqs(w2, w3) && eqs(w3, w4), "copies and repetitions say the same");
    SYM_ASSERT(w1.find("x" + v) != S::npos, "value verbatim");
  }
  SYM_ASSERT(caught, "raised"); sym::cover("ok");
}
HARNESS(h_err_ambiguous) {
  po::options_description d; d.add_options()("alpha", "")("alps", "")("al%value%", "")("beta", "")("alpha2", "")("all", "")("alp-%", "")("alphabet", "");
  S q = sym::str_upto(2, 4, "query", "alph%"); sym::assume(q[0] == 'a' && q[1] == 'l');
  static const char* const all[] = {"alpha", "alps", "al%value%", "beta", "alpha2", "all", "alp-%", "alphabet"};
  VS a(1, "--" + q); S what; int got = 0; VS alt;
  try { po::command_line_parser(a).options(d).run(); } catch (po::ambiguous_option& e) { got = 1; what = e.what(); alt = e.alternatives(); } catch (po::error& e) { got = 2; }
  int n = 0; for (int i = 0; i < 8; ++i) if (pre(q, all[i])) ++n;
  SYM_ASSERT((got == 1) == (n > 1), "ambiguous");
  if (got != 1) return;
  SYM_ASSERT(what.find(q) != S::npos, "names the option");
  for (int i = 0; i < 8; ++i) if (pre(q, all[i])) SYM_ASSERT(what.find(S("--") + all[i]) != S::npos, "names every alternative");
  SYM_ASSERT((int)alt.size() == n, "alternatives");
  sym::observe(what, "what"); sym::cover("ok");
}
HARNESS(h_err_group) {       // an offending member of a group of short options is the one named
  po::options_description d; d.add_options()("aa,a", "")("bb,b", "")("num,n", po::value<int>(), "");
  S g = sym::str_of(Q(3, 4), "group", "abnxy");
  VS x(1, "-" + g); S what; int got = 0;
  try { po::variables_map m; po::store(po::command_line_parser(x).options(d).run(), m); }
  catch (po::multiple_occurrences&) { return; }
  catch (po::error& e) { got = 1; what = e.what(); }
  char bad = 0; S val;
  for (size_t i = 0; i < g.size() && !bad; ++i) { if (g[i] == 'x' || g[i] == 'y') bad = g[i]; if (g[i] == 'n') { bad = 'n'; val = g.substr(i + 1); } }
  for (size_t i = 0; i < g.size(); ++i) { if (g[i] == bad) break; for (size_t k = 0; k < i; ++k) if (g[k] == g[i]) return; }
  if (!bad) { SYM_ASSERT(!got, "fine"); return; }
  SYM_ASSERT(got == 1, "rejected");
  if (!got) return;
  S b; b += bad;
  SYM_ASSERT(what.find("'-" + b) != S::npos || what.find("'-" + g + "'") != S::npos || (bad == 'n' && what.find("'--num'") != S::npos), "the offending option is named");
  if (!val.empty()) SYM_ASSERT(what.find(val) != S::npos, "and its value");
  sym::observe(what, "what"); sym::cover("ok");
}
extern "C" char** environ;
HARNESS(h_err_env) {         // the environment, and options put together by the program: there is no original token
  po::options_description d; d.add_options()("num", po::value<int>(), "")("str", po::value<S>(), ""); bool env = sym::choice(2, "environment"); int w = sym::choice(3, "error");
  S n = sym::str_upto(1, Q(3, 4), "name"), v = sym::str_upto(0, Q(2, 3), "value"); for (size_t i = 0; i < n.size(); ++i) sym::assume((n[i] != 0) & (n[i] != '=')); for (size_t i = 0; i < v.size(); ++i) sym::assume(v[i] != 0);
  if (w == 0) n = "q" + n; else n = "num"; if (w) v = "x" + v;
  po::parsed_options p(&d);
  if (env) { S e = "V=" + v, o = "W=1"; char* ev[] = {&e[0], &o[0], 0}; char** save = environ; environ = ev; p = po::parse_environment(d, boost::function1<S, S>([&](const S& x) { return x == "V" ? n : x == "W" && w == 2 ? S("str") : S(); })); environ = save; }
  else { po::option o; o.string_key = n; o.value.push_back(v); p.options.push_back(o); if (w == 2) { o.string_key = "str"; p.options.insert(p.options.begin(), o); } }
  if (sym::choice(2, "prefix")) p.m_options_prefix = ps::allow_long;
  S what; bool thrown = false; po::variables_map m;
  try { po::store(p, m); } catch (po::unknown_option& e) { thrown = w == 0; what = e.what(); } catch (po::error& e) { thrown = w != 0; what = e.what(); }
  SYM_ASSERT(thrown, "rejected");
  SYM_ASSERT(what.find("'" + (p.m_options_prefix && w ? "--" + n : n) + "'") != S::npos, "the option is named");
  if (w) SYM_ASSERT(what.find(v) != S::npos, "the value is named");
  sym::observe(what, "what"); sym::cover("ok");
}
HARNESS(h_err_file) {
  po::options_description d; d.add_options()("num", po::value<int>(), "")("w.*", po::value<int>(), "");
  int w = sym::choice(4, "error"); S v = sym::str_upto(1, Q(3, 4), "text", "%vao'"), t, need;
  if (w == 0) { t = v + "\n"; need = v; } else if (w == 1) { t = "x" + v + "=1\n"; need = "x" + v; } else if (w == 2) { t = "num=" + v + "\n"; need = v; } else { t = "w." + v + "=x" + v + "\n"; need = "w." + v; }
  S what; bool thrown = false;
  try { std::istringstream is(t); po::variables_map m; po::store(po::parse_config_file(is, d), m); } catch (po::error& e) { thrown = true; what = e.what(); S again = e.what(); SYM_ASSERT(eqs(what, again), "stable"); }
  SYM_ASSERT(thrown, "rejected");
  if (!thrown) return;
  SYM_ASSERT(what.find(need) != S::npos, "the offending line, option or value is named");
  if (w == 2) SYM_ASSERT(what.find("num") != S::npos, "option named"); if (w == 3) SYM_ASSERT(what.find("x" + v) != S::npos, "value named");
  sym::observe(what, "what"); sym::cover("ok");
}
