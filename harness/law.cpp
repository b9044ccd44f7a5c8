// Copies (C43), unrelated declarations (C44), inputs put together (C45): laws that need no model of the format.
#include "law.h"
static const int STY[] = {0, ps::unix_style & ~ps::allow_guessing, ps::default_style | ps::case_insensitive, ps::default_style | ps::allow_long_disguise, ps::unix_style | ps::allow_slash_for_short};
static void declare(po::options_description& d, S* log = 0) {
  po::options_description g("group");
  d.add_options()("ab,a", po::value<S>()->notifier([log](const S& s) { if (log) *log += "a" + s; }), "first")("ac,b", "second")("c,x", po::value<VS>()->multitoken()->composing(), "third");
  g.add_options()("num,n", po::value<int>()->default_value(5), "number")("imp,i", po::value<S>()->implicit_value("I"), "implicit")("w*", po::value<S>(), "wild");
  d.add(g); d.add_options()("sw,s", po::bool_switch(), "switch");
}
static std::vector<po::option> hand(int n, const char* name) {       // options as a parser would give them
  std::vector<po::option> r;
  for (int i = 0; i < n; ++i) {
    static const char* const key[] = {"ab", "c", "num", "sw", "req"}; po::option o; o.string_key = key[sym::choice(5, name)];
    o.value.push_back(o.string_key == "sw" || o.string_key == "num" ? S("1") : sym::str_of(1, "token", "uvw")); if (o.string_key == "sw") o.value.clear();
    bool dup = false; for (size_t k = 0; k < r.size(); ++k) dup |= r[k].string_key == o.string_key && o.string_key != "c";
    if (!dup) r.push_back(o);
  }
  return r;
}
static Out put(po::variables_map& m, const po::options_description& d, const std::vector<po::option>& o) { return outcome([&] { po::parsed_options p(&d); p.options = o; po::store(p, m); return std::vector<po::option>(); }); }
// ---- C43
HARNESS(h_copy_map) {
  po::options_description d; declare(d); d.add_options()("req", po::value<S>()->required(), ""); po::options_description e; declare(e); bool reqd = sym::choice(2, "required");
  const po::options_description& x = reqd ? d : e; std::vector<po::option> o1 = hand(sym::choice(3, "n1"), "key"), o2 = hand(1 + sym::choice(Q(1, 2), "n2"), "key");
  if (!reqd) { o1.erase(std::remove_if(o1.begin(), o1.end(), [](const po::option& o) { return o.string_key == "req"; }), o1.end()); o2.erase(std::remove_if(o2.begin(), o2.end(), [](const po::option& o) { return o.string_key == "req"; }), o2.end()); }
  int how = sym::choice(4, "how"); bool first = sym::choice(2, "store first into the copy");
  po::variables_map next; next.insert(std::make_pair(S("chained"), po::variable_value(boost::any(S("n")), false)));
  boost::scoped_ptr<po::variables_map> m(new po::variables_map); put(*m, x, o1); m->next(&next); po::variables_map c;
  if (how == 0) c = *m; else if (how == 1) { std::vector<po::option> z(1); z[0].string_key = "ab"; z[0].value.push_back("old"); put(c, x, z); c = *m; } else if (how == 2) { po::variables_map t(*m); c = t; t.clear(); } else { po::variables_map t(*m); std::swap(c, t); }
  SYM_ASSERT(same_maps(*m, c), "a copy holds the same"); SYM_ASSERT(c["chained"].as<S>() == "n", "and continues in the same map");
  { po::variables_map other; other.insert(std::make_pair(S("chained"), po::variable_value(boost::any(S("o")), false))); (first ? c : *m).next(&other); SYM_ASSERT((first ? c : *m)["chained"].as<S>() == "o" && (first ? *m : c)["chained"].as<S>() == "n", "chaining one leaves the other"); c.next(&next); m->next(0); SYM_ASSERT(c["chained"].as<S>() == "n" && (*m)["chained"].empty(), "and so does unchaining"); }
  po::variables_map w1, w12; put(w1, x, o1); put(w12, x, o1); Out r = put(w12, x, o2); po::variables_map &t = first ? c : *m, &u = first ? *m : c;
  Out q = put(t, x, o2); SYM_ASSERT(q.k == r.k && eqs(q.what, r.what) && same_maps(t, w12), "storing more goes on from what was stored");
  SYM_ASSERT(same_maps(u, w1), "and does not touch the other");
  auto nt = [](po::variables_map& v) { return outcome([&] { po::notify(v); return std::vector<po::option>(); }); };
  Out n1 = nt(u), n2 = nt(w1), n3 = nt(t), n4 = nt(w12); SYM_ASSERT(same_out(n1, n2) && same_out(n3, n4), "required options are copied too");
  if (how != 3) m.reset();
  SYM_ASSERT(same_maps(c, first ? w12 : w1), "the copy outlives the original");
  c.clear(); SYM_ASSERT(c.empty() && (!m || same_maps(*m, first ? w1 : w12)), "clearing one leaves the other");
  sym::cover(n1.k == OK ? "ok" : "missing");
}
HARNESS(h_copy_value) {          // variable_value, option, parsed_options
  po::options_description d; declare(d); std::vector<po::option> o = hand(2, "key"); for (size_t i = 0; i < o.size(); ++i) if (o[i].string_key == "req") return;
  po::parsed_options p(&d, ps::allow_long); p.options = o; po::parsed_options p2(p), p3(0); p3 = p; SYM_ASSERT(same_opts(p2.options, o) && same_opts(p3.options, o) && p2.description == &d && p3.description == &d && p3.m_options_prefix == ps::allow_long, "parsed options");
  for (size_t i = 0; i < p2.options.size(); ++i) { p2.options[i].string_key += "q"; p2.options[i].value.push_back("q"); p2.options[i].original_tokens.push_back("q"); }
  SYM_ASSERT(same_opts(p.options, o) && same_opts(p3.options, o), "are copied");
  po::variables_map m; po::store(p, m); S k = o[0].string_key; po::variable_value a = m[k], b; b = a; SYM_ASSERT(same_value(a, m[k]) && same_value(b, a), "values");
  if (k == "ab") { a.as<S>() += "changed"; SYM_ASSERT(eqs(m[k].as<S>(), o[0].value[0]) && eqs(b.as<S>(), o[0].value[0]) && eqs(a.as<S>(), o[0].value[0] + "changed"), "are copied"); }
  if (k == "c") { a.as<VS>().push_back("changed"); SYM_ASSERT(m[k].as<VS>().size() + 1 == a.as<VS>().size() && b.as<VS>().size() == m[k].as<VS>().size(), "are copied"); }
  if (k == "num") { a.as<int>() = 99; SYM_ASSERT(m[k].as<int>() == 1 && b.as<int>() == 1 && a.as<int>() == 99, "are copied"); }
  a.value() = boost::any(); SYM_ASSERT(a.empty() && !m[k].empty() && !b.empty(), "emptying one leaves the others");
  sym::cover("ok");
}
HARNESS(h_copy_desc) {           // descriptions: what is added to one is not in the other
  boost::scoped_ptr<po::options_description> d(new po::options_description("Cap")); declare(*d); S s0 = show(*d); po::options_description c(*d); SYM_ASSERT(eqs(show(c), s0), "a copy prints the same");
  int what = sym::choice(3, "added"), to = sym::choice(2, "to"); po::options_description &x = to ? c : *d, &y = to ? *d : c; S log;
  po::options_description g("more"); g.add_options()("new,q", po::value<S>(), "new");
  if (what == 0) x.add_options()("new,q", po::value<S>(), "new"); else if (what == 1) x.add(g); else x.add(boost::shared_ptr<po::option_description>(new po::option_description("new,q", po::value<S>(), "new")));
  SYM_ASSERT(eqs(show(y), s0) && y.find_nothrow("new", false) == 0, "the other is as before"); SYM_ASSERT(x.find("new", false).long_name() == "new" && show(x) != s0, "the option is there");
  po::options_description f("Cap"); declare(f); po::options_description h("Cap"); declare(h); h.add_options()("new,q", po::value<S>(), "new");
  if (!to || sym::choice(2, "keep")) {} else d.reset();
  VS a; static const char* const pf[] = {"--", "-"}; a.push_back(pf[sym::choice(2, "prefix")] + sym::str_upto(1, Q(3, 4), "text", "abcnewq=s")); a.push_back("v");
  auto run = [&](const po::options_description& e) { return outcome([&] { return po::command_line_parser(a).options(e).run().options; }); };
  Out r1 = run(c), r2 = run(to ? h : f); SYM_ASSERT(same_out(r1, r2), "the copy parses as a description made alike");
  if (d) SYM_ASSERT(same_out(run(*d), run(to ? f : h)), "and so does the original");
  sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_copy_parser) {         // parsers: settings of one are not settings of the other
  po::options_description d, e; declare(d); e.add_options()("ab,n", po::value<VS>(), "")("bb", po::value<VS>(), ""); po::positional_options_description pos, pos2; pos.add("ab", 1).add("c", -1);
  pos2 = pos; pos2.add("c", 0); po::positional_options_description pos3(pos); SYM_ASSERT(pos3.max_total_count() == pos.max_total_count() && pos3.name_for_position(0) == "ab" && pos3.name_for_position(7) == "c", "a copied positional description");
  S x = sym::str_upto(1, Q(3, 4), "text", "-abn=x"); VS a; a.push_back(x); a.push_back("b"); int what = sym::choice(5, "changed"); bool base = sym::choice(2, "base");
  auto make = [&](po::command_line_parser& q) { q.options(d); if (base) q.style(STY[3]).positional(pos3).allow_unregistered(); };
  auto more = [&](po::command_line_parser& q) { switch (what) { case 0: q.style(STY[1]); break; case 1: q.options(e); break; case 2: q.positional(pos); break; case 3: q.allow_unregistered(); break; case 4: q.extra_parser([](const S& s) { return s == "b" ? std::make_pair(S("ab"), S("e")) : std::pair<S, S>(); }); break; } };
  po::command_line_parser q(a); make(q); po::command_line_parser r(q); bool orig = sym::choice(2, "original first"); more(orig ? q : r);
  po::command_line_parser f1(a), f2(a); make(f1); make(f2); more(f2);
  auto run = [](po::command_line_parser& p) { return outcome([&] { return p.run().options; }); };
  Out o1 = run(orig ? r : q), o2 = run(orig ? q : r); SYM_ASSERT(same_out(o1, run(f1)), "the one not changed"); SYM_ASSERT(same_out(o2, run(f2)), "the one changed");
  sym::cover(o1.k == OK ? "ok" : "error");
}
// ---- C44: one more option that nothing in the input can mean
static void stranger(po::options_description& d, int kind) {
  switch (kind) {
    case 0: d.add_options()("zzz,Z", "extra"); break; case 1: d.add_options()("zz,z", po::value<S>(), "extra"); break; case 2: d.add_options()("zyx", po::value<VS>()->multitoken()->composing(), "extra"); break;
    case 3: d.add_options()("z.*", po::value<S>(), "extra"); break; case 4: d.add_options()(",Z", po::value<int>()->implicit_value(3), "extra"); break; case 5: d.add_options()("zz,zy,zx", po::value<int>()->default_value(3), "extra"); break;
    case 6: for (int i = 0; i < 70; ++i) { char b[8]; b[0] = 'z'; b[1] = (char)('0' + i / 10); b[2] = (char)('0' + i % 10); b[3] = 0; d.add_options()(b, po::value<int>(), "extra"); } break;      // very many of them
  }
}
static void with_stranger(po::options_description& d, S* log, bool shrt = true) {
  int kind = sym::choice(7, "extra"); if (kind == 4 && !shrt) kind = 0; int at = kind == 6 ? 0 : sym::choice(3, "place");
  if (at == 0) stranger(d, kind); declare(d, log); if (at == 1) stranger(d, kind); if (at == 2) { po::options_description g("extra group"); stranger(g, kind); d.add(g); }
}
HARNESS(h_extra_cmdline) {
  po::options_description d, e; declare(d); with_stranger(e, 0); int st = STY[sym::choice(5, "style")]; bool allow = sym::choice(2, "allow");
  VS a; static const char* const pf[] = {"--", "-", "/", ""}; a.push_back(pf[sym::choice(4, "prefix")] + sym::str_upto(1, Q(2, 3), "text", "abcinsw=A-*")); a.push_back(sym::choice(2, "second") ? "b" : "-s"); if (Q(0, 1) && sym::choice(2, "third")) a.push_back("--num=3");
  if (a[0].find("=") != S::npos && a[0].find_first_not_of("-/") == a[0].find("=")) return;        // the empty name abbreviates every option
  auto run = [&](const po::options_description& x) { return outcome([&] { po::command_line_parser q(a); q.options(x).style(st); if (allow) q.allow_unregistered(); return q.run().options; }); };
  Out r1 = run(d), r2 = run(e); SYM_ASSERT(same_out(r1, r2), "an unrelated option changes nothing");
  sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_extra_file) {
  po::options_description d, e; declare(d); with_stranger(e, 0, false); bool allow = sym::choice(2, "allow"); S t = sym::str_upto(1, Q(4, 5), "text", "abcw=[]\n"); t += sym::choice(2, "more") ? "=1\nnum=7" : "\nab=2";
  auto run = [&](const po::options_description& x) { return outcome([&] { std::istringstream is(t); return po::parse_config_file(is, x, allow).options; }); };
  Out r1 = run(d), r2 = run(e); SYM_ASSERT(same_out(r1, r2), "an unrelated option changes nothing");
  sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_extra_env) {
  po::options_description d, e; declare(d); with_stranger(e, 0); S v1 = "P_" + sym::str_upto(1, Q(3, 4), "name", "ABac_N") + "=" + sym::str_upto(0, 2, "value", "x="), v2 = "P_AB=2", v3 = sym::str_of(2, "other", "PA_=") + "=";
  char* env[] = {&v1[0], &v3[0], &v2[0], 0}; extern char** environ; char** save = environ; environ = env; bool pref = sym::choice(2, "prefix");
  auto run = [&](const po::options_description& x) { return outcome([&] { return pref ? po::parse_environment(x, S("P_")).options : po::parse_environment(x, boost::function1<S, S>([&](const S& s) { S r; if (s.size() > 2) { r = s.substr(2); for (size_t i = 0; i < r.size(); ++i) r[i] = (char)(r[i] | 32); if (!x.find_nothrow(r, false)) r.clear(); } return r; })).options; }); };
  Out r1 = run(d), r2 = run(e); environ = save; SYM_ASSERT(same_out(r1, r2), "an unrelated option changes nothing");
  sym::cover(r1.o.empty() ? "none" : "some");
}
HARNESS(h_extra_store) {
  S l1, l2; po::options_description d, e; declare(d, &l1); with_stranger(e, &l2); std::vector<po::option> o = hand(sym::choice(Q(3, 4), "n"), "key"), o2 = hand(sym::choice(2, "n2"), "key");
  po::variables_map m1, m2; Out a1 = put(m1, d, o), b1 = put(m2, e, o), a2 = put(m1, d, o2), b2 = put(m2, e, o2); SYM_ASSERT(same_out(a1, b1) && same_out(a2, b2), "the same errors");
  auto nt = [](po::variables_map& v) { return outcome([&] { po::notify(v); return std::vector<po::option>(); }); };
  Out n1 = nt(m1), n2 = nt(m2); SYM_ASSERT(same_out(n1, n2) && eqs(l1, l2), "the same notifications");
  if (a1.k == OK && a2.k == OK) { SYM_ASSERT(same_maps(m1, m2, "zz"), "the same values"); if (m2.count("zz")) SYM_ASSERT(m2["zz"].defaulted() && m2["zz"].as<int>() == 3, "and the default"); }
  sym::cover(a1.k == OK && a2.k == OK ? "ok" : "error");
}
// ---- C45: parsing two inputs one behind the other
static bool closed(const po::option& o) {      // nothing that follows can become a value of it
  if (o.position_key >= 0 || o.unregistered) return true;
  if (o.string_key == "ac" || o.string_key == "sw") return true;
  if (o.string_key == "c") return false;
  return o.value.size() == 1;
}
HARNESS(h_concat_cmdline) {
  po::options_description d; declare(d); int st = STY[sym::choice(5, "style")]; bool allow = sym::choice(2, "allow"); VS a, b, ab; static const char* const pf[] = {"--", "-", ""};
  a.push_back(pf[sym::choice(3, "prefix")] + sym::str_upto(1, Q(2, 3), "text", "abciw=N/")); if (sym::choice(2, "two")) a.push_back(sym::choice(2, "which") ? "-s" : "p");
  b.push_back(pf[sym::choice(3, "prefix")] + sym::str_upto(0, Q(1, 2), "text", "abns=")); if (sym::choice(2, "two")) b.push_back(sym::choice(2, "which") ? "--num=3" : "q");
  for (size_t i = 0; i < a.size(); ++i) if (a[i] == "--") return; ab = a; ab.insert(ab.end(), b.begin(), b.end());
  auto run = [&](const VS& x) { return outcome([&] { po::command_line_parser q(x); q.options(d).style(st); if (allow) q.allow_unregistered(); return q.run().options; }); };
  Out ra = run(a), rb = run(b), r = run(ab);
  if (ra.k != OK) { if (ra.what.find("required argument") == S::npos) SYM_ASSERT(r.k == ra.k && eqs(r.what, ra.what), "the first error"); sym::cover("error"); return; }
  if (ra.o.empty() || !closed(ra.o.back())) { sym::cover("open"); return; }
  if (rb.k != OK) { SYM_ASSERT(r.k == rb.k && eqs(r.what, rb.what), "the error of the second part"); sym::cover("error"); return; }
  int n = 0; for (size_t i = 0; i < ra.o.size(); ++i) n += ra.o[i].position_key >= 0;
  SYM_ASSERT(r.k == OK && r.o.size() == ra.o.size() + rb.o.size(), "as many options as both"); if (r.k != OK || r.o.size() != ra.o.size() + rb.o.size()) return;
  for (size_t i = 0; i < r.o.size(); ++i) SYM_ASSERT(i < ra.o.size() ? same_opt(r.o[i], ra.o[i]) : same_opt(r.o[i], rb.o[i - ra.o.size()], n), "those of the first part, then those of the second");
  sym::cover("ok");
}
HARNESS(h_concat_file) {
  po::options_description d; declare(d); d.add_options()("s.ab", po::value<S>(), ""); bool allow = sym::choice(2, "allow"); S f = sym::str_upto(0, Q(2, 3), "text", "abw=# ") + (sym::choice(2, "value") ? "=1\n" : "\n"), g = sym::str_upto(0, Q(3, 4), "text", "abw=#[\n") + (sym::choice(2, "value") ? "=2\n" : "");
  int sect = sym::choice(3, "section"); if (sect) { f = "[s]\n" + f; g = (sect == 1 ? "[]\n" : "[s]\n") + g; } S g0 = sect == 1 ? g.substr(3) : g;      // [] ends the section
  auto run = [&](const S& t) { return outcome([&] { std::istringstream is(t); return po::parse_config_file(is, d, allow).options; }); };
  Out rf = run(f), rg = run(g0), r = run(f + g);
  if (rf.k != OK) { SYM_ASSERT(r.k == rf.k && eqs(r.what, rf.what), "the first error"); sym::cover("error"); return; }
  if (rg.k != OK) { SYM_ASSERT(r.k == rg.k && eqs(r.what, rg.what), "the error of the second part"); sym::cover("error"); return; }
  std::vector<po::option> w = rf.o; w.insert(w.end(), rg.o.begin(), rg.o.end()); SYM_ASSERT(r.k == OK && same_opts(r.o, w), "the options of the first part, then those of the second");
  sym::cover("ok");
}
HARNESS(h_concat_env) {
  po::options_description d; declare(d); VS v; int n = 1 + sym::choice(Q(3, 4), "n"), cut = sym::choice(n + 1, "cut"); for (int i = 0; i < n; ++i) v.push_back("P" + sym::str_of(Q(1, 2), "name", "_Pab") + (sym::choice(2, "value") ? "=" + sym::str_of(1, "value", "=x") : S("=")));
  std::vector<char*> all, one, two; for (int i = 0; i < n; ++i) { all.push_back(&v[i][0]); (i < cut ? one : two).push_back(&v[i][0]); } all.push_back(0); one.push_back(0); two.push_back(0); extern char** environ; char** save = environ;
  auto run = [&](std::vector<char*>& e) { environ = &e[0]; Out r = outcome([&] { return po::parse_environment(d, S("P")).options; }); environ = save; return r; };
  Out ra = run(one), rb = run(two), r = run(all); std::vector<po::option> w = ra.o; w.insert(w.end(), rb.o.begin(), rb.o.end());
  SYM_ASSERT(ra.k == OK && rb.k == OK && r.k == OK && same_opts(r.o, w), "the options of the first part, then those of the second"); sym::cover(w.size() > 1 ? "several" : "few");
}
HARNESS(h_concat_split) {
  S a = sym::str_upto(0, Q(4, 5), "text", "a \\\"'n"), b = sym::str_upto(0, Q(2, 4), "text", "b \\\"'"); S sep = sym::choice(2, "separator") ? " " : " \t"; bool open = false, esc = false;
  for (size_t i = 0; i < a.size(); ++i) { if (esc) esc = false; else if (a[i] == '\\') esc = true; else if (a[i] == '"' || a[i] == '\'') open = !open; }
  auto run = [&](const S& s, VS& r) { try { r = po::split_unix(s, " \t"); return true; } catch (std::exception&) { return false; } };
  VS ra, rb, r; bool ka = run(a, ra), kb = run(b, rb); if (open || esc) { sym::cover("open"); return; }
  bool k = run(a + sep + b, r); SYM_ASSERT(k == (ka && kb), "fails if a part does"); if (!k) { sym::cover("bad"); return; }
  ra.insert(ra.end(), rb.begin(), rb.end()); SYM_ASSERT(sym::same(r, ra), "the words of the first part, then those of the second"); sym::cover("ok");
}
// ---- C47: every spelling of an option
struct Item { int opt, sp; S v; };
static const char* const LN[] = {"name", "other", "vec", "flag"}; static const char SHN[] = "novf";
static void spelled(VS& a, const Item& it, int st) {       // appends the arguments; spelling 0 is --name=value
  S l = LN[it.opt], s(1, SHN[it.opt]); bool flag = it.opt == 3; S up = l, su(1, (char)(s[0] - 32)); for (size_t i = 0; i < up.size(); ++i) up[i] = (char)(up[i] - 32);
  bool slash = st & ps::allow_slash_for_short, dis = st & ps::allow_long_disguise, gs = st & ps::allow_guessing, ci = st & ps::long_case_insensitive, cs = st & ps::short_case_insensitive;
  int sp = it.sp;
  if ((sp == 2 || sp == 9) && !gs) sp = 0; if ((sp == 3 || sp == 10) && !ci) sp = 1; if ((sp == 6 || sp == 7) && !slash) sp -= 2; if ((sp == 8 || sp == 9 || sp == 10) && !dis) sp = 4; if ((sp == 11 || sp == 12) && !cs) sp -= 7; if (sp == 13 && !(dis && slash)) sp = 5;
  S w; bool next = false;
  switch (sp) {
    case 0: w = "--" + l + "="; break; case 1: w = "--" + l; next = true; break; case 2: w = "--" + l.substr(0, 2) + "="; break; case 3: w = "--" + up + "="; break;
    case 4: w = "-" + s; break; case 5: w = "-" + s; next = true; break; case 6: w = "/" + s; break; case 7: w = "/" + s; next = true; break;
    case 8: w = "-" + l + "="; break; case 9: w = "-" + l.substr(0, 2); next = true; break; case 10: w = "-" + up; next = true; break; case 11: w = "-" + su; break; case 12: w = "-" + su; next = true; break; default: w = "/" + l + "="; break;
  }
  if (flag) { if (w[w.size() - 1] == '=') w.resize(w.size() - 1); a.push_back(w); return; }
  if (next) { a.push_back(w); a.push_back(it.v); } else a.push_back(w + it.v);
}
static void spell_set(po::options_description& d) { d.add_options()("name,n", po::value<S>(), "")("other,o", po::value<int>()->default_value(5), "")("vec,v", po::value<VS>()->composing(), "")("flag,f", po::bool_switch(), ""); }
HARNESS(h_spell) {
  static const int sty[] = {ps::unix_style, ps::unix_style & ~ps::allow_guessing, ps::unix_style | ps::allow_slash_for_short, ps::unix_style | ps::allow_long_disguise, ps::unix_style | ps::case_insensitive, ps::unix_style | ps::allow_slash_for_short | ps::allow_long_disguise | ps::case_insensitive};
  po::options_description d; spell_set(d); po::positional_options_description pos; pos.add("vec", -1); int st = sty[sym::choice(6, "style")], n = Q(2, 3); int with = sym::choice(3, "with"); bool posn = with > 0, unreg = with > 1;
  VS a, c; int first = 0;
  for (int i = 0; i < n; ++i) {
    Item it; it.opt = i < 2 ? sym::choice(4, "option") : 2; it.sp = first = i == 0 ? sym::choice(14, "spelling") : (first + 1 + 3 * sym::choice(Q(3, 5), "spelling")) % 14; it.v = it.opt == 3 ? S() : it.opt == 1 ? sym::str_of(2, "number", "19x") : sym::str_of(Q(2, 3), "value", "xy1.:=");
    if (st & ps::allow_long_disguise) sym::assume(it.v.empty() || it.v[0] != (char)61);       // -n=v is then --n=v
    spelled(a, it, st); it.sp = 0; spelled(c, it, st);
    if (posn && i == 0) { a.push_back("p"); c.push_back("p"); }
  }
  auto run = [&](const VS& x, int style, po::variables_map& m, bool nt) { return outcome([&] { po::command_line_parser q(x); q.options(d).style(style); if (posn) q.positional(pos); if (unreg) q.allow_unregistered(); po::parsed_options o = q.run(); po::store(o, m); if (nt) po::notify(m); return o.options; }); };
  po::variables_map m1, m2, m3; Out r1 = run(a, st, m1, true), r2 = run(c, st, m2, true), r3 = run(c, ps::unix_style, m3, false);
  SYM_ASSERT(r1.k == r2.k && r2.k == r3.k, "however it is spelled, accepted or rejected");
  if (r1.k != OK || r2.k != OK || r3.k != OK) { sym::cover("error"); return; }
  SYM_ASSERT(same_maps(m1, m2) && same_maps(m2, m3), "the same values"); SYM_ASSERT(r1.o.size() == r2.o.size(), "as many options");
  for (size_t i = 0; i < r1.o.size() && i < r2.o.size(); ++i) SYM_ASSERT(eqs(r1.o[i].string_key, r2.o[i].string_key) && sym::same(r1.o[i].value, r2.o[i].value) && r1.o[i].position_key == r2.o[i].position_key && !r1.o[i].unregistered, "each with the same name and value");
  sym::cover("ok");
}
HARNESS(h_spell_group) {       // several short options in one argument
  po::options_description d; spell_set(d); d.add_options()("green,g", "")("hat,h", po::value<S>()->implicit_value("I"), ""); int st = sym::choice(2, "style") ? ps::unix_style : ps::unix_style | ps::short_case_insensitive;
  S g = "-"; VS c; int n = sym::choice(Q(3, 4), "flags"); bool hasf = false, up = st & ps::short_case_insensitive;
  for (int i = 0; i < n; ++i) { bool f = !hasf && sym::choice(2, "which"); bool u = up && sym::choice(2, "upper"); g += f ? (u ? 'F' : 'f') : (u ? 'G' : 'g'); c.push_back(f ? "--flag" : "--green"); hasf |= f; }
  VS a; int last = sym::choice(5, "last"); S v = sym::str_of(2, "value", "xgf-=1"); if (last == 3 || last == 4) { v = "1" + v.substr(0, 0) + sym::str_of(1, "number", "12"); }
  if (last == 0) { if (g.size() == 1) return; a.push_back(g); } else if (last == 1) { g += "v"; a.push_back(g + v); c.push_back("--vec=" + v); } else if (last == 2) { if (v[0] == '-') return; g += "n"; a.push_back(g); a.push_back(v); c.push_back("--name=" + v); } else if (last == 3) { g += "o"; a.push_back(g + v); c.push_back("--other=" + v); } else { g += "h"; a.push_back(g + v); c.push_back("--hat=" + v); }
  auto run = [&](const VS& x, po::variables_map& m) { return outcome([&] { po::parsed_options o = po::command_line_parser(x).options(d).style(st).run(); po::store(o, m); return o.options; }); };
  po::variables_map m1, m2; Out r1 = run(a, m1), r2 = run(c, m2); SYM_ASSERT(r1.k == r2.k, "as one by one"); if (r1.k != OK || r2.k != OK) { sym::cover("error"); return; }
  SYM_ASSERT(same_maps(m1, m2) && r1.o.size() == r2.o.size(), "the same values"); sym::cover("ok");
}
// ---- C48: the same options from a command line, a file, the environment or made by hand
static S plain(S w) { for (size_t p; (p = w.find("'--")) != S::npos;) w.erase(p + 1, 2); return w; }      // messages name options as the source spells them
struct Got { Out r; po::variables_map m; };
HARNESS(h_source) {
  S log; po::options_description d; static const char* const nm[] = {"name", "num", "yes", "vec", "imp", "ws", "sw"};
  d.add_options()("name,n", po::value<S>()->notifier([&log](const S& s) { log += "n" + s; }), "")("num", po::value<int>()->default_value(3)->notifier([&log](int) { log += "i"; }), "")("yes", po::value<bool>(), "")("vec,v", po::value<VS>()->composing(), "")("imp", po::value<S>()->implicit_value("I"), "")("ws", po::value<std::vector<int> >(), "")("sw", po::bool_switch()->notifier([&log](bool b) { log += b ? "t" : "f"; }), "")("must", po::value<S>()->required(), "");
  int n = 1 + sym::choice(Q(2, 3), "n"); std::vector<po::option> o; bool dup = false, must = sym::choice(2, "must");
  for (int i = 0; i < n; ++i) { po::option x; x.string_key = nm[i < 2 ? sym::choice(7, "option") : 3]; x.value.push_back(x.string_key == "sw" ? S() : x.string_key == "yes" ? (sym::choice(2, "bool") ? sym::str_of(2, "value", "noNx") : S("true")) : sym::str_of(2, "value", "a1-7.")); for (size_t k = 0; k < o.size(); ++k) dup |= o[k].string_key == x.string_key; o.push_back(x); }
  if (must) { po::option x; x.string_key = "must"; x.value.push_back("m"); o.push_back(x); }
  Got g[6]; S lg[6]; VS a; S t, e[5]; char* env[6] = {0}; 
  for (size_t i = 0; i < o.size(); ++i) { a.push_back("--" + o[i].string_key + (o[i].string_key == "sw" ? S() : "=" + o[i].value[0])); t += o[i].string_key + " = " + o[i].value[0] + "\n"; S u = o[i].string_key; for (size_t k = 0; k < u.size(); ++k) u[k] = (char)(u[k] - 32); e[i] = "Q_" + u + "=" + o[i].value[0]; env[i] = &e[i][0]; }
  for (int s = 0; s < 6; ++s) {
    if (s == 3 && dup) { g[3] = g[0]; lg[3] = lg[0]; continue; }
    log.clear(); po::variables_map& m = g[s].m;
    g[s].r = outcome([&] {
      if (s == 0) po::store(po::command_line_parser(a).options(d).run(), m);
      else if (s == 1) { std::istringstream is(t); po::store(po::parse_config_file(is, d), m); }
      else if (s == 2) { po::parsed_options p(&d); p.options = o; po::store(p, m); }
      else if (s == 3) { extern char** environ; char** save = environ; environ = env; po::parsed_options p(0); try { p = po::parse_environment(d, "Q_"); } catch (...) { environ = save; throw; } environ = save; po::store(p, m); }
      else if (s == 4) { std::vector<std::wstring> w; for (size_t i = 0; i < a.size(); ++i) w.push_back(std::wstring(a[i].begin(), a[i].end())); po::store(po::wcommand_line_parser(w).options(d).run(), m); }
      else { std::wistringstream is(std::wstring(t.begin(), t.end())); po::store(po::parse_config_file(is, d), m); }
      po::notify(m); return std::vector<po::option>();
    }); lg[s] = log;
  }
  for (int s = 1; s < 6; ++s) {
    SYM_ASSERT(g[s].r.k == g[0].r.k && eqs(plain(g[s].r.what), plain(g[0].r.what)), "accepted or rejected alike, with the same message");
    SYM_ASSERT(same_maps(g[s].m, g[0].m), "the same values, the same defaults"); SYM_ASSERT(eqs(lg[s], lg[0]), "the same notifications");
  }
  sym::cover(g[0].r.k == OK ? "ok" : must ? "error" : "missing");
}
