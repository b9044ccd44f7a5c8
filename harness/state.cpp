// Results depend on the arguments only (C36), the convenience entry points agree (C37), ownership of what is
// handed over (C38).
#include "model.h"
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
static S show(const po::options_description& d) { std::ostringstream o; o << d; return o.str(); }
struct Out { Kind k; S what; std::vector<po::option> o; int prefix; const po::options_description* d; Out() : k(OK), prefix(0), d(0) {} };
template <class F> static Out outcome(F f) {
  Out r;
  try { po::parsed_options p = f(); r.o = p.options; r.prefix = p.m_options_prefix; r.d = p.description; return r; }
  catch (po::unknown_option& e) { r.k = UNKNOWN; r.what = e.what(); } catch (po::ambiguous_option& e) { r.k = AMBIG; r.what = e.what(); }
  catch (po::invalid_command_line_syntax& e) { r.k = SYNTAX; r.what = e.what(); } catch (po::too_many_positional_options_error& e) { r.k = TOOMANY; r.what = e.what(); }
  catch (po::error& e) { r.k = OTHER_ERROR; r.what = e.what(); }
  return r;
}
static bool same_opts(const std::vector<po::option>& a, const std::vector<po::option>& b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1;
  for (size_t i = 0; i < a.size(); ++i) ok &= (unsigned)eqs(a[i].string_key, b[i].string_key) & (unsigned)sym::same(a[i].value, b[i].value) & (unsigned)sym::same(a[i].original_tokens, b[i].original_tokens)
      & (unsigned)(a[i].position_key == b[i].position_key) & (unsigned)(a[i].unregistered == b[i].unregistered) & (unsigned)(a[i].case_insensitive == b[i].case_insensitive);
  return ok != 0;
}
static bool same_out(const Out& a, const Out& b) { return a.k == b.k && eqs(a.what, b.what) && a.prefix == b.prefix && same_opts(a.o, b.o); }
static void declare(po::options_description& d) {
  po::options_description g("group");
  d.add_options()("ab,a", po::value<S>(), "first")("ac,b", "second")("c,x", po::value<VS>()->multitoken()->composing(), "third");
  g.add_options()("num,n", po::value<int>()->default_value(5), "number")("imp,i", po::value<S>()->implicit_value("I"), "implicit")("w*", po::value<S>(), "wild");
  d.add(g); d.add_options()("sw,s", po::bool_switch(), "switch");
}
static S tok(int n, const char* set) { static const char* const pf[] = {"", "-", "--"}; int p = sym::choice(3, "prefix"); return pf[p] + sym::str_upto(0, n, "text", set); }
static const int STY[] = {0, ps::unix_style & ~ps::allow_guessing, ps::default_style | ps::case_insensitive, ps::default_style | ps::allow_long_disguise};
static po::parsed_options run(const VS& a, const po::options_description& d, int style, bool allow, bool pos) {
  po::positional_options_description p; p.add("ab", 1).add("c", 2);
  po::command_line_parser q(a); q.options(d).style(style); if (allow) q.allow_unregistered(); if (pos) q.positional(p);
  return q.run();
}
// what happens in between: every other entry point, with and without failing
static void between(const po::options_description& d, int what, const S& t) {
  try {
    switch (what) {
      case 0: { VS a; a.push_back("--zz" + t); run(a, d, 0, false, false); break; }
      case 1: { VS a; a.push_back("-" + t); a.push_back("--num=x"); po::variables_map m; po::store(run(a, d, STY[2], true, true), m); break; }
      case 2: { std::istringstream is("[c]\nab=" + t + "\n" + t + "\n"); po::parse_config_file(is, d, false); break; }
      case 3: { show(d); po::split_unix("'" + t + "\\"); break; }
      case 4: { po::options_description e; e.add_options()("ab", po::value<int>()->required(), "")("c", ""); e.add(d); VS a(1, "--ab=" + t); po::variables_map m; po::store(run(a, e, STY[3], false, false), m); po::notify(m); break; }
      case 5: { d.find("a", true); break; }
      case 6: { std::vector<std::wstring> a; a.push_back(L"-i"); a.push_back(L"--c=" + std::wstring(t.begin(), t.end())); po::wcommand_line_parser q(a); po::variables_map m; po::store(q.options(d).run(), m); break; }
    }
  } catch (std::exception& e) { S w = e.what(); }
}
// ---- C36
HARNESS(h_again_cmdline) {
  po::options_description d("Options"), f("Options"); declare(d); declare(f);
  S before = show(d); VS a; int n = 1 + sym::choice(2, "ntok"); for (int i = 0; i < n; ++i) a.push_back(i ? sym::str_upto(1, Q(1, 2), "text", "-=ab") : tok(Q(2, 3), "-=abnis"));
  VS given = a; int st = sym::choice(4, "style"); bool allow = sym::choice(2, "allow"), pos = sym::choice(2, "positional");
  Out r1 = outcome([&] { return run(a, d, STY[st], allow, pos); }); Out keep = r1;
  SYM_ASSERT(sym::same(a, given), "the arguments are not changed");
  between(d, sym::choice(7, "between"), "q");
  Out r2 = outcome([&] { return run(a, d, STY[st], allow, pos); }), r3 = outcome([&] { return run(a, f, STY[st], allow, pos); });
  SYM_ASSERT(same_out(r1, r2), "the same call gives the same result");
  SYM_ASSERT(same_out(r1, r3), "a used description is like a new one");
  SYM_ASSERT(same_out(r1, keep), "earlier results stay");
  SYM_ASSERT(r1.k != OK || (r1.d == &d && r3.d == &f), "the result refers to the description given");
  SYM_ASSERT(eqs(show(d), before), "the description is not changed");
  sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_again_between) {       // free text in the call in between
  po::options_description d("Options"); declare(d); S before = show(d);
  VS a; a.push_back("--ab"); a.push_back("v"); a.push_back("-bn7"); a.push_back("--num"); a.push_back("8"); a.push_back("--wild=y"); a.push_back("--i"); a.push_back("plain"); a.resize(sym::choice(9, "ntok"));
  Out r1 = outcome([&] { return run(a, d, 0, false, true); });
  S t = sym::str_upto(0, Q(3, 4), "text", "-=ab \\'\n"); int k = 1 + sym::choice(2, "times");
  for (int i = 0; i < k; ++i) between(d, sym::choice(7, "between"), i ? S("q") : t);
  Out r2 = outcome([&] { return run(a, d, 0, false, true); });
  SYM_ASSERT(same_out(r1, r2), "the same call gives the same result"); SYM_ASSERT(eqs(show(d), before), "the description is not changed");
  sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_again_grow) {          // a description that is used, grows, and is used again is like one that was declared at once
  po::options_description d("Options"), f("Options"); declare(d); declare(f);
  VS a(1, tok(Q(2, 3), "-=aben")); if (sym::choice(2, "second")) a.push_back("v"); int st = sym::choice(4, "style"), more = sym::choice(4, "more"); bool allow = sym::choice(2, "allow");
  Out r0 = outcome([&] { return run(a, d, STY[st], allow, false); }); show(d); std::istringstream is0("ab=1\n"); po::parse_config_file(is0, d);
  auto grow = [&](po::options_description& x) {
    if (more == 0) x.add_options()("abe,e", po::value<S>(), "new"); else if (more == 1) x.add_options()("e", po::value<S>(), ""); 
    else if (more == 2) { po::options_description g("new group"); g.add_options()("be", "in group")("ab", "again"); x.add(g); } else x.add_options()("n*", po::value<S>(), "wild")(",e", po::value<S>(), "");
  };
  grow(d); grow(f);
  Out r1 = outcome([&] { return run(a, d, STY[st], allow, false); }), r2 = outcome([&] { return run(a, f, STY[st], allow, false); });
  SYM_ASSERT(same_out(r1, r2), "a description that has been used and has grown is like a new one"); SYM_ASSERT(eqs(show(d), show(f)), "and prints like it");
  std::istringstream i1("e=1\nbe=2\nna=3\n"), i2("e=1\nbe=2\nna=3\n");
  if (more != 3) { Out c1 = outcome([&] { return po::parse_config_file(i1, d, allow); }), c2 = outcome([&] { return po::parse_config_file(i2, f, allow); }); SYM_ASSERT(same_out(c1, c2), "and reads files like it"); }
  (void)r0; sym::cover(r1.k == OK ? "ok" : "error");
}
HARNESS(h_again_file) {
  po::options_description d("Options"), f("Options"); declare(d); declare(f); bool allow = sym::choice(2, "allow");
  S t = sym::str_upto(0, Q(4, 5), "text", "ab=[]#\nw"); if (sym::choice(2, "section")) t = "[s]\nab=1\n" + t;
  auto file = [&](const po::options_description& x) { std::istringstream is(t); return po::parse_config_file(is, x, allow); };
  Out r1 = outcome([&] { return file(d); }), keep = r1;
  if (sym::choice(2, "other description")) { po::options_description g; g.add_options()("a", "")("b*", "")("s.b", "")("w", ""); std::istringstream is("a=1\nbb=2\n[s]\nb=1"); po::parse_config_file(is, g); }
  else between(d, sym::choice(3, "between") * 2, "a");
  Out r2 = outcome([&] { return file(d); }), r3 = outcome([&] { return file(f); });
  SYM_ASSERT(same_out(r1, r2) && same_out(r1, r3) && same_out(r1, keep), "the same file gives the same result");
  sym::cover(r1.k == OK ? "ok" : "error");
}
extern "C" char** environ;
HARNESS(h_again_env) {
  po::options_description d; declare(d); S e = sym::str_upto(0, Q(4, 5), "entry", "ABb_="), e0 = e, o = "A_x=1", p = sym::str_upto(0, 2, "prefix", "AB_");
  char* env[] = {&e[0], &o[0], 0}; char** save = environ; environ = env;
  Out r1 = outcome([&] { return po::parse_environment(d, p); });
  environ = save; between(d, sym::choice(3, "between") * 2, "a"); environ = env;
  Out r2 = outcome([&] { return po::parse_environment(d, p); });
  environ = save;
  SYM_ASSERT(same_out(r1, r2) && eqs(e, e0) && env[2] == 0, "the same environment gives the same result, and is not changed");
  VS w; bool b1 = false, b2 = false; S t = sym::str_upto(0, Q(3, 4), "line", "a '\\"); VS w2;
  try { w = po::split_unix(t); } catch (std::exception&) { b1 = true; }
  try { po::split_unix("a 'b"); po::split_unix("\\"); } catch (std::exception&) {}
  try { w2 = po::split_unix(t); } catch (std::exception&) { b2 = true; }
  SYM_ASSERT(b1 == b2 && sym::same(w, w2), "the same line gives the same words");
  sym::cover(r1.o.empty() ? "none" : "some");
}
static bool same_maps(const po::variables_map& a, const po::variables_map& b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1;
  std::map<S, po::variable_value>::const_iterator i = a.begin(), k = b.begin();
  for (; i != a.end(); ++i, ++k) {
    ok &= eqs(i->first, k->first) & (i->second.empty() == k->second.empty()) & (i->second.defaulted() == k->second.defaulted());
    if (i->second.empty() || k->second.empty()) continue;
    if (i->second.value().type() != k->second.value().type()) return false;
    if (i->second.value().type() == typeid(S)) ok &= eqs(i->second.as<S>(), k->second.as<S>());
    else if (i->second.value().type() == typeid(VS)) ok &= sym::same(i->second.as<VS>(), k->second.as<VS>());
    else if (i->second.value().type() == typeid(int)) ok &= i->second.as<int>() == k->second.as<int>();
    else ok &= i->second.as<bool>() == k->second.as<bool>();
  }
  return ok != 0;
}
HARNESS(h_again_store) {          // storing changes neither its source nor the description, and means the same for every map
  po::options_description d("Options"); declare(d); S before = show(d);
  static const int pfx[] = {0, ps::allow_dash_for_short, ps::allow_long}; int kind = sym::choice(3, "source");      // with or without original tokens, in several styles
  po::parsed_options p(&d, pfx[kind]); int n = sym::choice(Q(3, 4), "n");
  for (int i = 0; i < n; ++i) {
    static const char* const key[] = {"ab", "c", "num", "imp", "wx", "sw", ""}; po::option o; o.string_key = key[sym::choice(7, "key")];
    int nt = sym::choice(3, "tokens"); for (int t = 0; t < nt; ++t) o.value.push_back(sym::str_upto(1, 1, "token", "17x")); if (kind != 1) o.original_tokens = o.value; p.options.push_back(o);
  }
  std::vector<po::option> keep = p.options;
  po::variables_map m1, m2, m3; S e1, e2; Kind k1, k2;
  auto st = [&](po::variables_map& m, S& e) { try { po::store(p, m); po::notify(m); return OK; } catch (po::multiple_occurrences& x) { e = x.what(); return TOOMANY; } catch (po::error& x) { e = x.what(); return OTHER_ERROR; } };
  k1 = st(m1, e1);
  SYM_ASSERT(same_opts(p.options, keep) && p.description == &d, "the source is not changed");
  between(d, sym::choice(2, "between") * 3 + 1, "a");
  k2 = st(m2, e2);
  SYM_ASSERT(k1 == k2 && eqs(e1, e2) && same_maps(m1, m2), "the same source gives the same map");
  if (k1 == OK) {
    po::variables_map copy(m1); SYM_ASSERT(same_maps(copy, m1), "a copy is the same");
    VS a; a.push_back("--ab=later"); a.push_back("--c=later"); po::store(run(a, d, 0, false, false), copy);
    SYM_ASSERT(same_maps(m1, m2), "and independent");
    po::notify(m1); SYM_ASSERT(same_maps(m1, m2), "notify changes no value");
  }
  SYM_ASSERT(eqs(show(d), before), "the description is not changed");
  sym::cover(k1 == OK ? "ok" : "error");
}
// ---- C37
HARNESS(h_entry_argv) {        // every way to say the same command line
  po::options_description d; declare(d); S x = tok(Q(3, 3), "-=abn"), y = sym::str_upto(0, Q(1, 2), "text", "-ab"), prog = sym::str_upto(0, 2, "program", "-ab");
  for (size_t i = 0; i < x.size(); ++i) sym::assume(x[i] != 0);
  int argc = sym::choice(4, "argc"); const char* av[] = {prog.c_str(), x.c_str(), y.c_str(), 0}; if (argc < 3) av[argc] = 0;
  VS a; if (argc > 1) a.push_back(x); if (argc > 2) a.push_back(y);
  int st = STY[sym::choice(4, "style")]; static const ps::style_t full[] = {ps::unix_style};
  Out r0 = outcome([&] { return po::command_line_parser(a).options(d).style(st ? st : (int)full[0]).run(); });
  Out r1 = outcome([&] { return po::parse_command_line(argc, av, d, st); });
  Out r2 = outcome([&] { return po::command_line_parser(argc, av).style(st).options(d).run(); });
  Out r3 = outcome([&] { return po::basic_command_line_parser<char>(a).style(st).options(d).extra_parser(po::ext_parser()).run(); });
  SYM_ASSERT(same_out(r0, r1), "parse_command_line is the parser with that description and style");
  SYM_ASSERT(same_out(r0, r2), "argc and argv without the program name are the arguments");
  SYM_ASSERT(same_out(r0, r3), "the order of settings does not matter, style 0 is the default and an empty extra parser is none");
  SYM_ASSERT(r0.k != OK || (r0.d == &d && r1.d == &d && r2.d == &d && r3.d == &d), "the description is attached");
  if (!st) { Out r4 = outcome([&] { return po::parse_command_line(argc, av, d); }), r5 = outcome([&] { return po::command_line_parser(a).options(d).run(); }), r6 = outcome([&] { return po::command_line_parser(a).options(d).style(ps::default_style).run(); });
    SYM_ASSERT(same_out(r0, r4) && same_out(r0, r5) && same_out(r0, r6), "the default style is unix_style"); }
  sym::cover(r0.k == OK ? "ok" : "error");
}
static std::pair<S, S> at_parser(const S& s) { return s.size() > 1 && s[0] == '@' ? std::make_pair(S("ab"), s.substr(1)) : std::pair<S, S>(); }
static std::pair<S, S> plus_parser(const S& s) { return s.size() > 1 && s[0] == '+' ? std::make_pair(S("bb"), s.substr(1)) : std::pair<S, S>(); }
HARNESS(h_entry_builder) {     // settings made several times and in any order: the last of each kind counts
  po::options_description d[2]; declare(d[0]); d[1].add_options()("ab,n", po::value<VS>(), "")("bb", po::value<VS>(), ""); po::positional_options_description pos[2]; pos[0].add("ab", 1).add("bb", -1); pos[1].add("bb", -1);
  S x = sym::str_of(Q(3, 4), "text", "-@+ab="); VS a; a.push_back(x); a.push_back("b");
  po::command_line_parser q(a); int sty = -1, desc = -1, po_ = -1, ext = -1; bool allow = false; int n = 1 + sym::choice(Q(3, 4), "settings");
  static const int styles[] = {0, ps::allow_short | ps::allow_dash_for_short | ps::short_allow_next, ps::unix_style | ps::allow_long_disguise};
  for (int i = 0; i < n; ++i) switch (sym::choice(5, "setting")) {
    case 0: sty = sym::choice(3, "style"); q.style(styles[sty]); break; case 1: desc = sym::choice(2, "description"); q.options(d[desc]); break; case 2: po_ = sym::choice(2, "positional"); q.positional(pos[po_]); break;
    case 3: ext = sym::choice(3, "extra"); q.extra_parser(ext == 0 ? po::ext_parser() : ext == 1 ? po::ext_parser(at_parser) : po::ext_parser(plus_parser)); break; case 4: allow = true; q.allow_unregistered(); break;
  }
  if (desc < 0) { desc = 0; q.options(d[0]); }
  Out r0 = outcome([&] { return q.run(); });
  Out r1 = outcome([&] { po::command_line_parser f(a); f.options(d[desc]); if (sty > 0) f.style(styles[sty]); if (po_ >= 0) f.positional(pos[po_]); if (ext == 1) f.extra_parser(at_parser); if (ext == 2) f.extra_parser(plus_parser); if (allow) f.allow_unregistered(); return f.run(); });
  SYM_ASSERT(same_out(r0, r1), "only the last setting of each kind counts");
  SYM_ASSERT(r0.k != OK || r0.d == &d[desc], "the description is attached");
  sym::cover(r0.k == OK ? "ok" : "error");
}
HARNESS(h_entry_ext) {
  po::options_description d; declare(d); S x = sym::str_upto(0, Q(3, 4), "text", "@-=ab"), y = sym::str_upto(0, 2, "text", "@-b");
  const char* av[] = {"prog", x.c_str(), y.c_str(), 0}; VS a; a.push_back(x); a.push_back(y);
  Out r0 = outcome([&] { return po::command_line_parser(a).options(d).extra_parser(at_parser).run(); });
  Out r1 = outcome([&] { return po::parse_command_line(3, av, d, 0, at_parser); });
  Out r2 = outcome([&] { return po::command_line_parser(3, av).extra_parser(at_parser).style(ps::default_style).options(d).run(); });
  SYM_ASSERT(same_out(r0, r1) && same_out(r0, r2), "the additional parser is used in the same way");
  sym::cover(r0.k == OK ? "ok" : "error");
}
static S ident(const S& n) { S l = low(n); return pre("p_", l) ? l.substr(2) : S(); }
HARNESS(h_entry_env) {
  po::options_description d; declare(d); S e = sym::str_upto(0, Q(4, 5), "entry", "Pp_=A"), o = "P_X=1", p = sym::choice(2, "prefix") ? "P_" : "P_A";
  char* env[] = {&e[0], &o[0], 0}; char** save = environ; environ = env;
  Out r0 = outcome([&] { return po::parse_environment(d, p); }), r1 = outcome([&] { return po::parse_environment(d, p.c_str()); });
  Out r2 = outcome([&] { return po::parse_environment(d, boost::function1<S, S>([&](const S& n) { return pre(p, n) ? low(n.substr(p.size())) : S(); })); });
  environ = save;
  SYM_ASSERT(same_out(r0, r1), "the prefix as std::string or const char*"); SYM_ASSERT(same_out(r0, r2), "a prefix is the mapper that strips it");
  SYM_ASSERT(r0.d == &d && r1.d == &d && r2.d == &d, "the description is attached");
  sym::cover(r0.o.size() > 1 ? "several" : "few");
}
HARNESS(h_entry_file) {        // allow_unregistered defaults to false; narrow and wide stream; the description is attached
  po::options_description d; declare(d); S t = sym::str_upto(0, Q(4, 5), "text", "abz=[]\n");
  Out r0 = outcome([&] { std::istringstream is(t); return po::parse_config_file(is, d, false); }), r1 = outcome([&] { std::istringstream is(t); return po::parse_config_file(is, d); });
  Out r2 = outcome([&] { std::wistringstream is(std::wstring(t.begin(), t.end())); return po::parse_config_file(is, d).utf8_encoded_options; });
  SYM_ASSERT(same_out(r0, r1) && same_out(r0, r2), "unregistered options are an error by default");
  SYM_ASSERT(r0.k != OK || (r0.d == &d && r1.d == &d && r2.d == &d), "the description is attached");
  sym::cover(r0.k == OK ? "ok" : "error");
}
HARNESS(h_entry_split) {
  S t = sym::str_upto(0, Q(4, 5), "text", "a'\"\\ \tn"); VS w[3]; bool b[3] = {false, false, false};
  for (int i = 0; i < 3; ++i) try { w[i] = i == 0 ? po::split_unix(t) : i == 1 ? po::split_unix(t, " \t", "'\"", "\\") : po::split_unix(t, "\t "); } catch (std::exception&) { b[i] = true; }
  SYM_ASSERT(b[0] == b[1] && b[0] == b[2] && sym::same(w[0], w[1]) && sym::same(w[0], w[2]), "the documented defaults");
  sym::cover(b[0] ? "bad" : "ok");
}
HARNESS(h_entry_declare) {     // every way to say the same option
  S desc = sym::str_upto(1, 2, "desc", "de"), nm = "n" + sym::str_of(1, "name", "ab"), v = sym::str_of(1, "value", "vw"); bool t1 = false, t2 = false; S s1, s2;
  po::options_description a("Cap"), b("Cap", po::options_description::m_default_line_length), c("Cap", po::options_description::m_default_line_length, po::options_description::m_default_line_length / 2);
  po::options_description* d[] = {&a, &b, &c};
  for (int i = 0; i < 3; ++i) {
    if (i == 0) d[i]->add_options()(nm.c_str(), po::value<S>(), desc.c_str())("flag,f", desc.c_str())("sw,s", po::bool_switch(), "")("val", po::value<S>(&s1), "");
    else if (i == 1) { po::options_description_easy_init e = d[i]->add_options(); e(nm.c_str(), po::value<S>(0), desc.c_str()); e("flag,f", new po::untyped_value(true), desc.c_str()); e("sw,s", po::bool_switch(&t1))("val", po::value<S>(&s2)); }
    else { typedef boost::shared_ptr<po::option_description> P; d[i]->add(P(new po::option_description(nm.c_str(), new po::typed_value<S>(0), desc.c_str()))); d[i]->add(P(new po::option_description("flag,f", new po::untyped_value(true), desc.c_str())));
      d[i]->add(P(new po::option_description("sw,s", po::value<bool>(&t2)->default_value(false)->zero_tokens()->implicit_value(true), ""))); d[i]->add(P(new po::option_description("val", po::value<S>()))); }
  }
  VS x; int w = sym::choice(5, "line"); if (w == 0) x.push_back("--" + nm + "=" + v); else if (w == 1) x.push_back("-fs"); else if (w == 2) { x.push_back("--flag=" + v); } else if (w == 3) { x.push_back("-s"); x.push_back(v); } else x.push_back("--val");
  Out r[3]; po::variables_map m[3];
  for (int i = 0; i < 3; ++i) r[i] = outcome([&] { po::parsed_options p = run(x, *d[i], 0, false, false); po::store(p, m[i]); po::notify(m[i]); return p; });
  SYM_ASSERT(same_out(r[0], r[1]) && same_out(r[0], r[2]), "the same outcome"); SYM_ASSERT(same_maps(m[0], m[1]) && same_maps(m[0], m[2]), "the same variables");
  SYM_ASSERT(eqs(show(a), show(b)), "the same help"); std::ostringstream o; a.print(o); SYM_ASSERT(eqs(o.str(), show(a)), "print and operator<< print the same");
  if (r[0].k == OK) SYM_ASSERT(t1 == (w == 1 || w == 3) && t2 == t1, "the same target");
  sym::cover(r[0].k == OK ? "ok" : "error");
}
// ---- C38
struct Counted : po::value_semantic {
  int *alive, *dead; bool def; Counted(int* a, int* d, bool f = false) : alive(a), dead(d), def(f) { ++*alive; }
  ~Counted() { --*alive; ++*dead; }
  S name() const { return "C"; } unsigned min_tokens() const { return 0; } unsigned max_tokens() const { return 1; } bool is_composing() const { return false; } bool is_required() const { return false; }
  void parse(boost::any& v, const VS& t, bool) const { if (t.size() && t[0] == "!") throw po::invalid_option_value(t[0]); v = boost::any(t.empty() ? S() : t[0]); }
  bool apply_default(boost::any& v) const { if (def) v = boost::any(S("d")); return def; } void notify(const boost::any&) const { ++*dead; --*dead; }
};
static S g_file;
static void scenario(const VS& a, int what, const S& t) {
  po::options_description d("Options"); declare(d); int alive = 0, dead = 0;
  d.add_options()("own,o", new Counted(&alive, &dead), "own");
  try {
    switch (what) {
      case 0: { po::parsed_options p = run(a, d, 0, true, true); po::variables_map m; po::store(p, m); po::notify(m); po::store(p, m); break; }
      case 1: { po::variables_map m; po::store(run(a, d, STY[3], false, true), m); po::notify(m); break; }
      case 2: { std::istringstream is(t); po::variables_map m; po::store(po::parse_config_file(is, d, false), m); po::notify(m); break; }
      case 3: { VS w = po::split_unix(t); po::variables_map m; po::store(run(w, d, 0, false, false), m); break; }
      case 4: { std::wstring w(t.begin(), t.end()); std::vector<std::wstring> x(1, L"--own" + w); po::variables_map m; po::store(po::wcommand_line_parser(x).options(d).run(), m); std::wistringstream is(w); po::parse_config_file(is, d, true); break; }
      case 6: { po::parse_config_file(g_file.c_str(), d, t.size() > 1); po::parse_config_file<wchar_t>(g_file.c_str(), d, true); break; }
      case 7: { po::parse_config_file<wchar_t>(g_file.c_str(), d, false); break; }
      case 5: { po::options_description e("E"); e.add(d); po::options_description f("F"); f.add(e).add(d); show(f); f.find(t.empty() ? "own" : t, true); break; }
    }
  } catch (std::exception& e) { S w = e.what(); }
}
HARNESS(h_leak_cmdline) {
  VS a; int n = 1 + sym::choice(2, "ntok"); for (int i = 0; i < n; ++i) a.push_back(i ? sym::str_upto(1, Q(2, 3), "text", "-=!b") : tok(Q(3, 4), "-=abno!"));
  int what = sym::choice(2, "what");
  scenario(a, what, ""); long before = sym::live(); scenario(a, what, "");   // the first run may set up buffers
  SYM_ASSERT(sym::live() == before, "everything allocated is released");
  sym::cover("ok");
}
HARNESS(h_leak_text) {
  int what = 2 + sym::choice(4, "what"); static const char* const set[] = {"a=[]\nno1", "a' \\-o", "=!ab\n", "aown*"}; S t = sym::str_upto(0, Q(5, 6), "text", set[what - 2]);
  VS a; scenario(a, what, t); long before = sym::live();
  scenario(a, what, t);
  SYM_ASSERT(sym::live() == before, "everything allocated is released");
  sym::cover("ok");
}
HARNESS(h_leak_file) {       // files by name: good, malformed, missing, unreadable
  int kind = sym::choice(3, "file"), what = 6 + sym::choice(2, "wide"); S t = kind ? S() : sym::str_upto(0, Q(4, 5), "text", "a=[]\nno1"); g_file = sym::file(kind, t); VS a;
  scenario(a, what, t); long before = sym::live();
  scenario(a, what, t);
  SYM_ASSERT(sym::live() == before, "everything allocated is released");
  sym::cover("ok");
}
HARNESS(h_own) {          // who owns a value_semantic: every description and map that uses it
  int alive = 0, dead = 0, shape = sym::choice(4, "shape"), order = sym::choice(6, "order"), use = sym::choice(3, "given or default"); S v = sym::str_of(1, "value", "ab!"); S note; int ran = 0; S target = "t"; if (use) sym::assume(v != "!");
  po::options_description *g = new po::options_description("g"), *top = new po::options_description("top"); po::variables_map* m = new po::variables_map;
  g->add_options()("own,o", new Counted(&alive, &dead, use != 0), "")("str", po::value<S>(&target)->default_value("df")->notifier([&](const S& x) { ++ran; note = x; }), "");
  SYM_ASSERT(alive == 1 && dead == 0, "handed over");
  if (shape == 1) top->add(*g); else if (shape == 2) { po::options_description mid("mid"); mid.add(*g); top->add(mid); } else if (shape == 3) { top->add(*g); po::options_description copy(*top); show(copy); }
  SYM_ASSERT(alive == 1 && dead == 0, "groups share it");
  VS a; if (use != 1) a.push_back("--own=" + v); if (use == 0) a.push_back("--str=" + v); bool stored = false;
  try { po::store(po::command_line_parser(a).options(shape ? *top : *g).run(), *m); stored = true; } catch (po::error&) {}
  SYM_ASSERT(stored == (v != "!"), "stored"); S own = use == 1 ? S("d") : v, str = use ? S("df") : v, help = show(shape ? *top : *g);
  SYM_ASSERT(alive == 1 && dead == 0, "still there");
  // the three parts end in any order; while one lives that knows the option, it works
  static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; bool lg = true, lt = true, lm = true;
  for (int i = 0; i < 3; ++i) {
    int w = ord[order][i]; if (w == 0) { delete g; lg = false; } else if (w == 1) { delete top; lt = false; } else { delete m; lm = false; }
    bool must = lg || (lt && shape) || (lm && stored);
    if (must) SYM_ASSERT(alive == 1 && dead == 0, "alive while a description or map uses it");
    if (lt && shape) { VS b(1, "-oq"); po::variables_map n; po::store(po::command_line_parser(b).options(*top).run(), n); SYM_ASSERT(n["own"].as<S>() == "q" && n["str"].as<S>() == "df", "the parent works without the group"); SYM_ASSERT(eqs(show(*top), help), "and prints the same"); }
    if (lm && stored) { int r = ran; po::notify(*m); SYM_ASSERT(ran == r + 1 && eqs(note, str) && eqs(target, str) && eqs((*m)["own"].as<S>(), own), "the map works without the descriptions"); }
  }
  SYM_ASSERT(alive == 0 && dead == 1, "destroyed exactly once in the end");
  sym::cover(stored ? "stored" : "failed");
}
// a file given by name: read like a stream; missing or unreadable: reading_file naming it
template <class C> static po::parsed_options by_name(const S& n, const po::options_description& d, int how, bool allow);
template <> po::parsed_options by_name<char>(const S& n, const po::options_description& d, int how, bool allow) { return how ? po::parse_config_file(n.c_str(), d, allow) : po::parse_config_file<char>(n.c_str(), d, allow); }
template <> po::parsed_options by_name<wchar_t>(const S& n, const po::options_description& d, int, bool allow) { return po::parse_config_file<wchar_t>(n.c_str(), d, allow).utf8_encoded_options; }
HARNESS(h_entry_named) {
  po::options_description d; declare(d); int kind = sym::choice(3, "file"), wide = sym::choice(2, "wide"), dflt = sym::choice(2, "default"), how = sym::choice(2, "how"); bool allow = sym::choice(2, "allow");
  S t = sym::str_upto(0, Q(4, 5), "text", "ab=#\nw["); if (sym::choice(2, "more")) t = "# first\n[s.t]\nab = 1\n[]\nab=2\n" + t;
  if (kind) sym::assume(t.empty());
  S n = sym::file(kind, t); bool reading = false; S what; Out r;
  r = outcome([&] { try { return wide ? by_name<wchar_t>(n, d, how, allow) : dflt && !allow ? po::parse_config_file(n.c_str(), d) : by_name<char>(n, d, how, allow); } catch (po::reading_file& e) { reading = true; what = e.what(); throw; } });
  SYM_ASSERT(reading == (kind != 0), "a file that is missing or cannot be read is an error of its own");
  if (reading) { SYM_ASSERT(what.find(n) != S::npos, "the file is named"); sym::cover(kind == 1 ? "missing" : "unreadable"); return; }
  Out q = outcome([&] { std::istringstream is(t); return po::parse_config_file(is, d, allow); });
  SYM_ASSERT(same_out(r, q) && (r.k != OK || r.d == &d), "the file is read like a stream of its content");
  sym::cover(r.k == OK ? "ok" : "error");
}
