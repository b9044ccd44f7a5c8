// Names, values and texts are opaque (C49): replacing them consistently by others replaces them in the result.
#include "law.h"
// placeholder names and values consist of characters that occur once and in no message; the other run has arbitrary bytes for them
struct Ren {
  unsigned char to[256];
  Ren() { for (int i = 0; i < 256; ++i) to[i] = (unsigned char)i; }
  S operator()(const S& s) const { S r(s); for (size_t i = 0; i < r.size(); ++i) r[i] = (char)to[(unsigned char)r[i]]; return r; }
  VS operator()(const VS& v) const { VS r; for (size_t i = 0; i < v.size(); ++i) r.push_back((*this)(v[i])); return r; }
};
static S name(int i, int len) { S n(1, "QZVU"[i]); for (int k = 1; k < len; ++k) n += (char)(0x80 + 8 * i + k); return n; }
static const char SHORT[] = "567"; static const char* const VALUE[] = {"89", "0"};
static S sub(const S& b, const char* a) { for (size_t i = 0; i < b.size(); ++i) sym::assume(!sym::in(b[i], a)); return b; }
static void learn(Ren& r, const S& can, const S& to) { for (size_t i = 0; i < can.size(); ++i) r.to[(unsigned char)can[i]] = (unsigned char)to[i]; }
// one name, or the short names, or the values become arbitrary, without the characters in no (names) or vno (values)
static Ren renaming(const char* no, const char* vno, const char* vfirst, int len, bool cstr = false) {
  Ren r; int which = sym::choice(6, "which");
  if (which < 4) { S n = name(which, len), t = sub(sym::str(len, "name"), no); sym::assume(!sym::in(t[0], "-/QZVU")); sym::assume((unsigned char)(t[0] - 0x80) >= 32); for (int k = 0; k < len; ++k) sym::assume(t[k] != 0 && (k == 0 || !sym::in(t[k], k < 3 ? "QZVU" : "QZVU-"))); learn(r, n, t); }
  else if (which == 4) { S f; for (int i = 0; i < 3; ++i) { S t = sub(sym::str(1, "short"), no); sym::assume(!sym::in(t[0], "-/") && t[0] != 0); for (size_t k = 0; k < f.size(); ++k) sym::assume(f[k] != t[0]); f += t[0]; learn(r, S(1, SHORT[i]), t); } }
  else for (int i = 0; i < 2; ++i) { S v = VALUE[i], t = sub(sym::str(v.size(), "value"), vno); for (size_t k = 0; k < t.size(); ++k) sym::assume(!cstr || t[k] != 0); sym::assume(!sym::in(t[0], vfirst)); learn(r, v, t); }
  return r;
}
static void declare(po::options_description& d, const Ren& r, int len, bool req) {
  S n[4]; for (int i = 0; i < 3; ++i) n[i] = r(name(i, len) + "," + SHORT[i]);
  po::typed_value<S>* x = po::value<S>(); if (req) x->required();
  d.add_options()(n[0].c_str(), x, "")(n[1].c_str(), "")(n[2].c_str(), po::value<VS>()->multitoken(), "");
}
static bool renamed(const Ren& r, const Out& a, const Out& b) {
  if (a.k != b.k || a.o.size() != b.o.size() || a.alt.size() != b.alt.size()) return false;
  unsigned ok = (unsigned)eqs(S(r(a.what).c_str()), b.what);
  for (size_t i = 0; i < a.o.size(); ++i) {
    po::option w = a.o[i]; w.string_key = r(w.string_key); w.value = r(w.value); w.original_tokens = r(w.original_tokens); ok &= (unsigned)same_opt(w, b.o[i]);
  }
  return ok != 0;
}
static bool renamed(const Ren& r, const po::variables_map& a, const po::variables_map& b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1;
  for (po::variables_map::const_iterator i = a.begin(); i != a.end(); ++i) {
    const po::variable_value& v = b[r(i->first)]; const po::variable_value& u = i->second; if (v.empty() != u.empty() || v.defaulted() != u.defaulted()) return false;
    if (u.empty()) continue;
    if (u.value().type() != v.value().type()) return false;
    ok &= u.value().type() == typeid(S) ? (unsigned)eqs(r(u.as<S>()), v.as<S>()) : (unsigned)sym::same(r(u.as<VS>()), v.as<VS>());
  }
  return ok != 0;
}
HARNESS(h_rename_cmdline) {
  static const int size[] = {3, 7, 1}; int len = size[sym::choice(Q(2, 3), "length")], opt = sym::choice(3, "required, unregistered"); bool req = opt == 1, unreg = opt == 2; Ren id, r = renaming(",=*", "", "-", len); 
  VS a; int n = 1 + sym::choice(Q(2, 3), "n"); S X = name(0, len), Y = name(1, len), V = name(2, len), U = name(3, len);
  for (int i = 0; i < n; ++i) switch (sym::choice(i < 2 ? 14 : 5, "argument")) {
    case 0: a.push_back("--" + X + "=" + VALUE[0]); break; case 1: a.push_back("--" + Y); break; case 2: a.push_back("--" + V); a.push_back(VALUE[1]); a.push_back(VALUE[0]); break; case 3: a.push_back(VALUE[1]); break; case 4: a.push_back("--" + U); break;
    case 5: a.push_back("--" + X); break; case 6: a.push_back(S("-5") + VALUE[1]); break; case 7: a.push_back("-65"); a.push_back(VALUE[0]); break; case 8: a.push_back(S("-67") + VALUE[0]); break; case 9: a.push_back("--" + X.substr(0, 1) + "=" + VALUE[1]); break; case 10: a.push_back("--"); break; case 11: a.push_back("--" + U + "=" + VALUE[0]); break; case 12: a.push_back("--" + X + "="); break; default: a.push_back("--" + Y + "=" + VALUE[1]); break;
  }
  VS b = r(a); po::variables_map m[2]; Out o[2];
  for (int i = 0; i < 2; ++i) { po::options_description d; declare(d, i ? r : id, len, req); o[i] = outcome([&] { po::command_line_parser p(i ? b : a); p.options(d); if (unreg) p.allow_unregistered(); po::parsed_options q = p.run(); po::store(q, m[i]); po::notify(m[i]); return q.options; }); }
  SYM_ASSERT(renamed(r, o[0], o[1]), "the same options or error, renamed"); SYM_ASSERT(renamed(r, m[0], m[1]), "the same values, renamed"); sym::cover(o[0].k == OK ? "ok" : "error");
}
HARNESS(h_rename_file) {
  static const int size[] = {3, 7, 1}; int len = size[sym::choice(3, "length")], opt = sym::choice(3, "required, unregistered"); bool req = opt == 1, unreg = opt == 2; Ren id, r = renaming(",=*#[ \t\r\n", "# \t\r\n", "", len); 
  sym::assume(r.to[(unsigned char)name(3, len)[len - 1]] != '.');       // a section's last dot is not repeated
  S t; int n = 1 + sym::choice(Q(2, 3), "n"); S X = name(0, len), Y = name(1, len), V = name(2, len), U = name(3, len);
  for (int i = 0; i < n; ++i) switch (sym::choice(i < 2 ? 7 : 4, "line")) {
    case 0: t += X + "=" + VALUE[0] + "\n"; break; case 1: t += V + " = " + VALUE[1] + "\n"; break; case 2: t += "[" + U + "]\n"; break; case 3: t += "\t" + Y + "=\r\n"; break; case 4: t += U + "=" + VALUE[1] + "\n"; break; case 5: t += "[]\n" + V + "= " + VALUE[0] + "#" + VALUE[1] + "\n"; break; default: t += X + "\n"; break;
  }
  S u = r(t); po::variables_map m[2]; Out o[2];
  for (int i = 0; i < 2; ++i) { po::options_description d; declare(d, i ? r : id, len, req); S s = r(U + "." + V); d.add_options()(i ? s.c_str() : (U + "." + V).c_str(), po::value<S>(), ""); o[i] = outcome([&] { std::istringstream is(i ? u : t); po::parsed_options q = po::parse_config_file(is, d, unreg); po::store(q, m[i]); po::notify(m[i]); return q.options; }); }
  SYM_ASSERT(renamed(r, o[0], o[1]), "the same options or error, renamed"); SYM_ASSERT(renamed(r, m[0], m[1]), "the same values, renamed"); sym::cover(o[0].k == OK ? "ok" : "error");
}
HARNESS(h_rename_env) {
  static const int size[] = {3, 7, 1}; int len = size[sym::choice(3, "length")]; Ren id, r = renaming(",=*", "", "", len, true);  VS a; int n = 1 + sym::choice(Q(2, 3), "n");
  for (int i = 0; i < n; ++i) switch (sym::choice(5, "variable")) { case 0: a.push_back(S("P_") + name(0, len) + "=" + VALUE[0]); break; case 1: a.push_back(S("P_") + name(2, len) + "=" + VALUE[1]); break; case 2: a.push_back(S("P_") + name(3, len) + "="); break; case 3: a.push_back(name(1, len) + "=" + VALUE[1]); break; default: a.push_back(S("P_") + name(1, len) + "="); break; }
  VS b = a; Ren r2 = r; r2.to['P'] = 'P'; for (size_t i = 0; i < a.size(); ++i) b[i] = a[i][0] == 'P' ? "P_" + r(a[i].substr(2)) : r(a[i]); sym::assume(r.to['Z'] != 'P');
  Out o[2]; po::variables_map m[2]; extern char** environ; char** save = environ;
  for (int i = 0; i < 2; ++i) { po::options_description d; declare(d, i ? r : id, len, false); VS& v = i ? b : a; std::vector<char*> e; for (size_t k = 0; k < v.size(); ++k) e.push_back(&v[k][0]); e.push_back(0);
    o[i] = outcome([&] { environ = &e[0]; po::parsed_options q(0); try { q = po::parse_environment(d, [](const S& s) { return s.size() > 2 && s[0] == 'P' && s[1] == '_' ? s.substr(2) : S(); }); } catch (...) { environ = save; throw; } environ = save; po::store(q, m[i]); return q.options; }); }
  SYM_ASSERT(renamed(r, o[0], o[1]), "the same options or error, renamed"); SYM_ASSERT(renamed(r, m[0], m[1]), "the same values, renamed"); sym::cover(o[0].k == OK ? "ok" : "error");
}
HARNESS(h_rename_help) {       // only blanks, tabs and line feeds have a meaning in a text
  static const char* const text[] = {"QJX ZKW VBH UPD", "QJXZKWVBHUPD567890", "QJX\tZKW VBHUPD 567", "QJ\nXZ KWVBHUPD", "QJXZKWVBHUPD 567890 "}; S t = text[sym::choice(5, "text")]; Ren r; S x; for (const char* p = "QJXZKWVBHUPD567890"; *p; ++p) { S b = sub(sym::str(1, "byte"), " \t\n"); sym::assume(b[0] != 0); learn(r, S(1, *p), b); }
  unsigned w = 30 + sym::choice(Q(4, 10), "width"), mn = 12; S cap = sym::choice(2, "caption") ? "QJ X" : ""; sym::assume(r.to['Q'] != ',' && r.to['J'] != ',' && r.to['Z'] != ',' && r.to['K'] != ',' && r.to['5'] != ','); S out[2];
  for (int i = 0; i < 2; ++i) { Ren id; const Ren& q = i ? r : id; po::options_description d(q(cap), w, mn), g(q(S("Z K")), w, mn); d.add_options()(q("QJ,5").c_str(), po::value<S>()->value_name(q("UP")), q(t).c_str()); g.add_options()(q("ZK").c_str(), po::value<int>()->default_value(1, q("VB"))->implicit_value(2, q("67")), q(t).c_str()); d.add(g); out[i] = show(d); }
  SYM_ASSERT(eqs(r(out[0]), out[1]), "the same help, renamed"); sym::cover(cap.empty() ? "plain" : "caption");
}
HARNESS(h_rename_split) {      // only blanks, quotes and backslashes (and line feeds behind a backslash) have a meaning
  Ren r; for (const char* p = "QJX"; *p; ++p) { S b = sub(sym::str(1, "byte"), " \t\n\r\v\f\"'\\n"); learn(r, S(1, *p), b); }
  S a = sym::str_upto(1, Q(6, 8), "text", "Q \"\\"); for (size_t i = 0, k = 0; i < a.size(); ++i) if (a[i] == 'Q') { a[i] = "QJX"[k % 3]; ++k; }
  S b = r(a); VS u[2]; bool bad[2] = {false, false};
  for (int i = 0; i < 2; ++i) { const S& s = i ? b : a; try { u[i] = po::split_unix(s, " ", "\"", "\\"); } catch (std::exception&) { bad[i] = true; } }
  SYM_ASSERT(bad[0] == bad[1] && sym::same(r(u[0]), u[1]), "split_unix: the same words, renamed"); sym::cover(bad[0] ? "bad" : "ok");
}
// ---- C50: the order of different options in the input
static void declare50(po::options_description& d, S* log) {
  d.add_options()("ab,a", po::value<S>()->notifier([log](const S& s) { *log += "a" + s; }), "")("num,n", po::value<int>()->default_value(7)->notifier([log](int) { *log += "n"; }), "")("vec,v", po::value<VS>()->composing(), "")("flag,f", po::bool_switch()->notifier([log](bool b) { *log += b ? "f" : "-"; }), "")("sw,s", "")("imp,i", po::value<S>()->implicit_value("I"), "")("s.ab", po::value<std::vector<int> >(), "")("req,r", po::value<S>()->required(), "")("pos", po::value<VS>(), "")("w.*", po::value<S>(), "");
}
struct Swap { int key; S text; };
HARNESS(h_swap_cmdline) {
  S log[2];
  po::positional_options_description pos; pos.add("pos", -1); bool unreg = sym::choice(2, "unregistered"); std::vector<Swap> it; int n = 2 + sym::choice(3, "n"), at = sym::choice(n - 1, "at");
  for (int i = 0; i < n; ++i) {
    Swap x; x.key = (i == at || i == at + 1) && n < Q(4, 5) ? sym::choice(9, "item") : 2 * sym::choice(4, "item"); S v = sym::str_of(1 + (x.key != 1), "value", x.key == 1 ? "1x-" : "va1"); bool f = (i == at) && n < 4 && sym::choice(2, "short");
    switch (x.key) { case 0: x.text = (f ? "-a" : "--ab=") + v; break; case 1: x.text = (f ? "-n" : "--num=") + v; break; case 2: x.text = (f ? "-v" : "--vec=") + v; break; case 3: x.text = f ? "-f" : "--flag"; break; case 4: x.text = v; break; case 5: x.text = (f ? "-i" : "--imp=") + v; break; case 6: x.text = "--req=" + v; break; case 7: x.text = f ? "-s" : "--sw"; break; default: x.text = "--zz" + v; break; }
    it.push_back(x);
  }
  if (it[at].key == it[at + 1].key) return;
  bool req = false; for (int i = 0; i < n; ++i) req |= it[i].key == 6;       // not always the error of the missing one
  po::variables_map m[2]; Out o[2];
  for (int i = 0; i < 2; ++i) { VS a; for (int k = 0; k < n; ++k) a.push_back(it[i && k == at ? at + 1 : i && k == at + 1 ? at : k].text); if (!req) a.push_back("--req=r"); po::options_description e; declare50(e, &log[i]); o[i] = outcome([&] { po::command_line_parser p(a); p.options(e).positional(pos); if (unreg) p.allow_unregistered(); po::store(p.run(), m[i]); po::notify(m[i]); return std::vector<po::option>(); }); }
  SYM_ASSERT((o[0].k == OK) == (o[1].k == OK), "in either order, accepted or rejected"); if (o[0].k != OK || o[1].k != OK) { sym::cover("error"); return; }
  SYM_ASSERT(same_maps(m[0], m[1]) && eqs(log[0], log[1]), "the same values and notifications"); sym::cover("ok");
}
HARNESS(h_swap_file) {
  static const char* const nm[] = {"ab", "num", "vec", "flag", "s.ab", "imp", "req", "w.x", "zz"}; S log[2]; bool unreg = sym::choice(2, "unregistered"), store = sym::choice(2, "parsed options"); std::vector<Swap> it; int n = 2 + sym::choice(3, "n"), at = sym::choice(n - 1, "at");
  for (int i = 0; i < n; ++i) { Swap x; x.key = (i == at || i == at + 1) && n < Q(4, 5) ? sym::choice(store ? 8 : 9, "item") : 2 * sym::choice(4, "item"); x.text = x.key == 3 ? S(sym::choice(2, "bool") ? "no" : "x") : sym::str_of(1 + (x.key != 1), "value", x.key == 1 || x.key == 4 ? "1x-" : "va1"); it.push_back(x); }
  if (it[at].key == it[at + 1].key) return;
  bool req = false; for (int i = 0; i < n; ++i) req |= it[i].key == 6;       // not always the error of the missing one
  po::variables_map m[2]; Out o[2];
  for (int i = 0; i < 2; ++i) { S t; po::options_description e; declare50(e, &log[i]); po::parsed_options h(&e);
    for (int k = 0; k < n; ++k) { const Swap& x = it[i && k == at ? at + 1 : i && k == at + 1 ? at : k]; t += S(nm[x.key]) + "=" + x.text + "\n"; po::option p; p.string_key = nm[x.key]; p.value.push_back(x.text); h.options.push_back(p); }
    if (!req) { t += "req=r"; po::option p; p.string_key = "req"; p.value.push_back("r"); h.options.push_back(p); }
    o[i] = outcome([&] { if (store) po::store(h, m[i]); else { std::istringstream is(t); po::store(po::parse_config_file(is, e, unreg), m[i]); } po::notify(m[i]); return std::vector<po::option>(); }); }
  SYM_ASSERT((o[0].k == OK) == (o[1].k == OK), "in either order, accepted or rejected"); if (o[0].k != OK || o[1].k != OK) { sym::cover("error"); return; }
  SYM_ASSERT(same_maps(m[0], m[1]) && eqs(log[0], log[1]), "the same values and notifications"); sym::cover("ok");
}
