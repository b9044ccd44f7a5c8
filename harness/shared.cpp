// Several threads at once (C46): what is only read may be shared, and nothing else is shared behind the user's back.
// One thread's work is run with everything that existed before marked as in use by other threads; a write to it that is
// not atomic (and not the guarded initialisation of a static) is a data race with a second thread doing the same.
#include "model.h"
#include <sstream>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
extern "C" char** environ;
static void declare(po::options_description& d) {
  po::options_description g("group");
  d.add_options()("ab,a", po::value<S>(), "first")("ac,b", "second")("c,x", po::value<VS>()->multitoken()->composing(), "third");
  g.add_options()("num,n", po::value<int>()->default_value(5), "number")("imp,i", po::value<S>()->implicit_value("I"), "implicit")("w*", po::value<S>(), "wild");
  d.add(g); d.add_options()("sw,s", po::bool_switch(), "switch")("req", po::value<S>()->required()->default_value("r"), "required");
}
template <class F> static void quietly(F f) { try { f(); } catch (std::exception& e) { S w = e.what(); (void)w.size(); } }
static VS some_args(int lo, int hi) {
  static const char* const form[] = {"--ab=", "--ac", "-a", "--a", "-b", "-bs", "--c", "--num=", "-n", "--imp", "--no", "-z", "", "--AB="}; static const bool text[] = {1, 0, 1, 0, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1};
  VS a; int n = lo + sym::choice(hi - lo + 1, "n");
  for (int i = 0; i < n; ++i) { int f = i && n > 2 ? sym::choice(4, "form") * 4 : sym::choice(14, "form"); if (f > 13) f = 13; S t = text[f] ? sym::str_upto(f == 12 ? 1 : 0, 1, "text") : S(); for (size_t k = 0; k < t.size(); ++k) sym::assume(t[k] != 0); a.push_back(form[f] + t); }
  return a;
}
static const int STY[] = {0, ps::unix_style & ~ps::allow_guessing, ps::default_style | ps::case_insensitive, ps::default_style | ps::allow_long_disguise, ps::unix_style | ps::allow_slash_for_short};
HARNESS(h_mt_cmdline) {
  po::options_description d("D"); declare(d); po::positional_options_description p; p.add("ab", 1).add("c", -1);
  VS a = some_args(1, Q(2, 3)); int style = STY[sym::choice(5, "style")]; bool allow = sym::choice(2, "unregistered");
  const po::options_description& cd = d; const po::positional_options_description& cp = p; const VS& ca = a;
  sym::threads([&cd, &cp, &ca, style, allow] {
    quietly([&] {
      po::command_line_parser q(ca); q.options(cd).positional(cp).style(style); if (allow) q.allow_unregistered();
      po::variables_map vm; po::parsed_options o = q.run(); po::store(o, vm); po::notify(vm); po::collect_unrecognized(o.options, po::include_positional);
    });
  });
  sym::cover("ok");
}
HARNESS(h_mt_file) {
  po::options_description d("D"); declare(d);
  S t = (sym::choice(2, "section") ? S("[w]\n") : S()) + sym::str_upto(1, Q(4, 5), "text", "ab=#\n w[") + (sym::choice(2, "more") ? "\nnum = 3\nsw=on\nw.x = y # c\n" : "");
  bool allow = sym::choice(2, "unregistered"); const po::options_description& cd = d; const S& ct = t;
  sym::threads([&cd, &ct, allow] {
    quietly([&] { std::istringstream is(ct); po::variables_map vm; po::store(po::parse_config_file(is, cd, allow), vm); po::notify(vm); });
    quietly([&] { std::wistringstream is(std::wstring(ct.begin(), ct.end())); po::variables_map vm; po::store(po::parse_config_file(is, cd, allow), vm); });
  });
  sym::cover("ok");
}
HARNESS(h_mt_env) {
  po::options_description d("D"); declare(d);
  S e1 = "PX_" + sym::str_of(2, "name", "ABC") + "=" + sym::str_upto(0, 1, "value", "v="), e2 = "PX_NUM=" + sym::str_upto(0, 1, "number", "1x");
  char* env[] = {&e1[0], &e2[0], 0}; char** was = environ; environ = env; const po::options_description& cd = d;
  sym::threads([&cd] {
    quietly([&] { po::variables_map vm; po::store(po::parse_environment(cd, "PX_"), vm); po::notify(vm); });
    quietly([&] { po::parse_environment(cd, boost::function1<S, S>([](const S& n) { return n == "PX_NUM" ? S("num") : S(); })); });
  });
  environ = was; sym::cover("ok");
}
HARNESS(h_mt_split) {
  S t = sym::str_upto(0, Q(5, 7), "text", "a \"'\\b"); const S& ct = t; std::wstring w(t.begin(), t.end()); const std::wstring& cw = w;
  sym::threads([&ct, &cw] { quietly([&] { po::split_unix(ct); }); quietly([&] { po::split_unix(cw, L" ", L"'\"", L"\\"); }); });
  sym::cover("ok");
}
HARNESS(h_mt_help) {
  po::options_description d("D", 60, 30); declare(d); S ds = "text " + sym::str_upto(0, Q(4, 6), "desc", "a \t\n") + " more text and even more of it, which must be wrapped"; d.add_options()("zz,z", po::value<int>()->value_name("V"), ds.c_str());
  S n = sym::str_upto(0, 3, "name", "abcwz"); bool approx = sym::choice(2, "approximate"), li = sym::choice(2, "long case"), si = sym::choice(2, "short case"); const po::options_description& cd = d; const S& cn = n;
  sym::threads([&] { quietly([&] { std::ostringstream o; o << cd; cd.print(o, 20); }); quietly([&] { cd.find(cn, approx, li, si).format_name(); }); quietly([&] { const po::option_description* f = cd.find_nothrow(cn, approx); if (f) { f->key(cn); f->canonical_display_name(ps::allow_long); f->format_parameter(); f->long_names(); f->match(cn, approx, li, si); } }); });
  sym::cover("ok");
}
static void fill(po::variables_map& vm, const po::options_description& d, const VS& a) { po::store(po::command_line_parser(a).options(d).run(), vm); }
HARNESS(h_mt_map) {
  po::options_description d("D"); declare(d); VS a1, a2; a1.push_back("--ab=" + sym::str_of(1, "text", "uv")); a1.push_back("-s"); a2.push_back("--num=7"); a2.push_back("--c"); a2.push_back("y");
  po::variables_map in, vm; fill(in, d, a1); fill(vm, d, a2); if (sym::choice(2, "chain")) vm.next(&in);
  static const char* const key[] = {"ab", "num", "sw", "c", "nowhere", ""}; S k = key[sym::choice(6, "key")]; const po::variables_map& cv = vm; const S& ck = k;
  sym::threads([&] {
    quietly([&] {
      const po::variable_value& v = cv[ck]; cv.count(ck); v.empty(); v.defaulted();
      try { v.as<S>(); v.as<int>(); } catch (boost::bad_any_cast&) {}
      po::variables_map copy(cv); copy.clear(); po::variables_map own; own.next(const_cast<po::variables_map*>(&cv)); own[ck];
    });
  });
  sym::cover("ok");
}
HARNESS(h_mt_store) {         // what was parsed once, stored by every thread into a map of its own
  po::options_description d("D"); declare(d); VS a = some_args(1, 2); po::parsed_options o(0);
  if (run_kind([&] { o = po::command_line_parser(a).options(d).run(); }) != OK) { sym::cover("error"); return; }
  const po::parsed_options& co = o;
  sym::threads([&co] { quietly([&] { po::variables_map vm; po::store(co, vm); po::notify(vm); po::store(co, vm); po::parsed_options mine(co); }); });
  sym::cover("ok");
}
HARNESS(h_mt_build) {         // every thread has descriptions, parser and map of its own
  VS a = some_args(1, 1); S n = sym::str_upto(0, 3, "name", "ab,"), v = sym::str_upto(0, 1, "value", "1x"); const VS& ca = a; const S &cn = n, &cv = v;
  sym::threads([&] {
    quietly([&] {
      po::options_description d("D"); declare(d); int target = 0; S got;
      d.add_options()(("o" + cn).c_str(), po::value<int>(&target)->notifier([&got](int) { got = "n"; })->value_name("N"), "more");
      po::positional_options_description p; p.add("num", 1).add("c", -1);
      VS b(ca); b.push_back(cv); po::variables_map vm; po::store(po::command_line_parser(b).options(d).positional(p).extra_parser([](const S& s) { return s == "@" ? std::make_pair(S("ac"), S()) : std::make_pair(S(), S()); }).run(), vm); po::notify(vm);
      std::ostringstream s; s << d;
    });
  });
  sym::cover("ok");
}
HARNESS(h_mt_wide) {
  po::options_description d("D"); declare(d); d.add_options()("wide", po::wvalue<std::wstring>(), "wide");
  std::vector<std::wstring> a; static const wchar_t* const form[] = {L"--ab=", L"--wide=", L"-a", L""}; S t = sym::str(1, "text"); sym::assume(t[0] != 0); sym::assume((unsigned char)t[0] < 128); a.push_back(form[sym::choice(4, "form")] + std::wstring(1, sym::choice(2, "high") ? (wchar_t)((unsigned char)t[0] + 0x400) : (wchar_t)(unsigned char)t[0]));
  const po::options_description& cd = d; const std::vector<std::wstring>& ca = a;
  sym::threads([&] { quietly([&] { po::variables_map vm; po::store(po::wcommand_line_parser(ca).options(cd).run(), vm); po::notify(vm); boost::from_utf8(boost::to_utf8(ca[0])); }); });
  sym::cover("ok");
}
