// Help output: C28 (what is printed, in which order) and C29 (wrapping of descriptions).
#include "model.h"
#include <sstream>
#include <boost/scoped_ptr.hpp>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
static S show(const po::options_description& d) { std::ostringstream o; o << d; return o.str(); }
static bool at(const S& s, size_t p, const S& w) { return p + w.size() <= s.size() && memcmp(s.data() + p, w.data(), w.size()) == 0; }
static bool spaces(const S& s, size_t p, size_t n) { if (p + n > s.size()) return false; unsigned r = 1; for (size_t i = 0; i < n; ++i) r &= s[p + i] == ' '; return r != 0; }

// ---- C29
// One paragraph element of the description and the lines it may legally be printed as.
struct Par { S text; size_t tab; };      // tab == npos: none
static void wrap_check(const S& text, unsigned L, unsigned mindesc, const char* names) {
  po::options_description d("T", L, mindesc);
  d.add_options()("z", "Z")(names, text.c_str());
  S out; bool thrown = false;
  try { out = show(d); } catch (po::error&) { thrown = true; }
  std::vector<Par> ps; bool bad = false, open = false;
  { Par p; p.tab = S::npos; unsigned tabs = 0;
    for (size_t i = 0; i <= text.size(); ++i) {
      if (i == text.size() || text[i] == '\n') { if (tabs > 1) bad = true; ps.push_back(p); p = Par(); p.tab = S::npos; tabs = 0; }
      else if (text[i] == '\t') { if (!tabs++) p.tab = p.text.size(); }
      else p.text += text[i];
    } }
  SYM_ASSERT(thrown == bad, "po::error if and only if a paragraph has more than one tab");
  if (thrown || bad) { sym::cover("tabs"); return; }
  // first line: the first option, whose description gives the column
  S head = "T:\n  --z "; SYM_ASSERT(at(out, 0, head), "caption and first option");
  size_t z = out.find('Z'); if (z == S::npos) { SYM_ASSERT(false, "first description printed"); return; }
  size_t col = z - 3;
  SYM_ASSERT(spaces(out, head.size(), z - head.size()), "padding"); SYM_ASSERT(at(out, z, "Z\n"), "end of line");
  SYM_ASSERT(col <= L - mindesc, "the reserved description columns are kept free");
  S nm = S("  --") + names + " "; size_t p = z + 2;
  SYM_ASSERT(at(out, p, nm), "second option's names"); p += nm.size();
  if (text.empty()) { SYM_ASSERT(eqs(out.substr(p), "\n"), "no description"); return; }
  if (nm.size() >= col) { SYM_ASSERT(at(out, p, "\n"), "long names: description on the next line"); ++p; SYM_ASSERT(spaces(out, p, col), "indented"); p += col; }
  else { SYM_ASSERT(spaces(out, p, col - nm.size()), "description column"); p += col - nm.size(); }
  SYM_ASSERT(p < out.size() && out[out.size() - 1] == '\n', "final newline");
  if (!(p < out.size())) return;
  std::vector<S> line(1);
  for (size_t i = p; i + 1 < out.size(); ++i) if (out[i] == '\n') line.push_back(S()); else line.back() += out[i];
  for (size_t i = 0; i < line.size(); ++i) SYM_ASSERT((i ? 0 : col) + line[i].size() < L, "no line reaches the line length");
  // which (paragraph, position) can line i start at?
  std::vector<std::vector<unsigned char> > reach(ps.size() + 1), next;
  for (size_t k = 0; k <= ps.size(); ++k) reach[k].assign(k < ps.size() ? ps[k].text.size() + 1 : 1, 0);
  reach[0][0] = 1;
  for (size_t i = 0; i < line.size(); ++i) {
    next = reach; for (size_t k = 0; k < next.size(); ++k) for (size_t q = 0; q < next[k].size(); ++q) next[k][q] = 0;
    for (size_t k = 0; k < ps.size(); ++k) for (size_t q = 0; q < reach[k].size(); ++q) {
      if (!reach[k][q]) continue;
      const S& t = ps[k].text;
      size_t first_avail = L - 1 - col, extra = 0;
      if (q && ps[k].tab != S::npos && ps[k].tab < first_avail) extra = ps[k].tab;
      for (int variant = 0; variant < 2; ++variant) {
        if (variant == 1) { if (!(q && ps[k].tab != S::npos && ps[k].tab + 1 == first_avail)) continue; extra = 0; }   // last position: left open
        size_t ind = (i ? col : 0) + extra, avail = first_avail - extra;
        if (line[i].size() < ind) continue;
        unsigned okind = spaces(line[i], 0, ind);
        S w = line[i].substr(ind);
        for (size_t skip = 0; skip < 2; ++skip) {
          if (skip && !(q && q < t.size())) continue;
          if (q + skip + w.size() > t.size()) continue;
          size_t e = q + skip + w.size();
          unsigned ok = okind & reach[k][q] & (unsigned)(memcmp(t.data() + q + skip, w.data(), w.size()) == 0);
          if (skip) ok &= t[q] == ' ';
          if (w.empty() && t.size()) continue;                     // only an empty paragraph gives an empty line
          if (e == t.size()) { next[k + 1][0] |= ok; continue; }
          // a break inside the paragraph: only where the rest does not fit
          ok &= (t.size() - q - skip) > avail;
          unsigned inword = (t[e - 1] != ' ') & (t[e] != ' ');
          // waste = characters of the line given up by breaking after its last space
          size_t sp = S::npos; for (size_t j = q + skip; j < e; ++j) if (t[j] == ' ') sp = j;
          if (inword) { if (sp != S::npos && e - (sp + 1) < avail / 2 && sp + 1 > q + skip) ok = 0; ok &= w.size() == avail; }
          else ok &= (unsigned)(w.size() == avail || w.size() + avail / 2 > avail);     // less than half of the line is given up
          next[k][e] |= ok;
        }
      }
    }
    reach = next;
  }
  SYM_ASSERT(reach[ps.size()][0] != 0, "the lines are the text, broken where lines are full, with nothing but single spaces at breaks dropped");
  if (ps.size() > 1) sym::cover("paragraphs");
  if (line.size() > ps.size()) sym::cover("wrapped");
  sym::observe(out, "out");
}
HARNESS(h_wrap) { unsigned w = 5 + sym::choice(Q(4, 6), "width"); wrap_check(sym::str_upto(1, Q(15, 18), "text", "ab "), 16 + w, w, "aa"); }
HARNESS(h_wrap_tab) { unsigned w = 5 + sym::choice(2, "width"); wrap_check(sym::str_upto(1, Q(8, 9), "text", "a \t\n"), 16 + w, w, "aa"); }
HARNESS(h_wrap_tab_late) { S a = sym::str_upto(0, 8, "before", "a "), b = sym::str_upto(1, Q(3, 4), "after", "b \t"); wrap_check(a + "\t" + b, 22, 6, "aa"); }
HARNESS(h_wrap_long_name) { wrap_check(sym::str_upto(0, Q(9, 10), "text", "a \n"), 20, 6 + sym::choice(2, "width"), "aaaabbbbccccdddd"); }
HARNESS(h_wrap_bytes) { S t = sym::str_upto(1, Q(7, 8), "text"); for (size_t i = 0; i < t.size(); ++i) sym::assume((t[i] != 0) & (t[i] != '\t')); wrap_check(t, 16 + 5, 5, "aa"); }
HARNESS(h_wrap_col) {      // every width around the size of the names
  unsigned n = 1 + sym::choice(Q(12, 20), "name"), w = 2 + sym::choice(Q(6, 9), "width");
  wrap_check(sym::str_of(Q(7, 8), "text", "a "), 14 + w, w, S(n, 'a').c_str());
}
HARNESS(h_wrap_real) {     // the line lengths programs use: long text, free bytes around the places where lines end
  unsigned L = sym::choice(2, "line") ? 120 : 80; size_t avail = L - 1 - 7;
  S t; int pat = sym::choice(3, "pattern"); size_t n = 2 * avail + 12 * sym::choice(2, "length");
  for (size_t i = 0; i < n; ++i) t += pat == 0 ? 'a' : pat == 1 ? (i % 9 == 8 ? ' ' : 'b') : (i % 30 == 29 ? ' ' : 'c');
  S w1 = sym::str_of(Q(9, 12), "first end", "a "), w2 = sym::str_of(Q(7, 10), "second end", "a ");
  for (size_t i = 0; i < w1.size(); ++i) t[avail - 6 + i] = w1[i];
  for (size_t i = 0; i < w2.size() && 2 * avail - 8 + i < t.size(); ++i) t[2 * avail - 8 + i] = w2[i];
  wrap_check(t, L, L / 2, "aa");
}
HARNESS(h_wrap_many) {     // many paragraphs, some indented, one free
  static const char* const par[] = {"First paragraph of the description.", "key\tvalue of the key, which goes on and on over the line", "", "  indented text which is long enough to need a second line", "x\t y", "aVeryLongWordThatCannotBeBrokenAnywhereAtAllAndGoesOnAndOnAndOn"};
  int at = sym::choice(4, "at"); S t;
  for (int i = 0; i < 6; ++i) { if (i) t += "\n"; if (i == at + 1) { t += sym::str_upto(0, Q(4, 5), "text", "a \t"); t += S(sym::choice(3, "more") * 16, 'm') + "\n"; } t += par[i]; }
  wrap_check(t, 48, 24, "aa");
}
// ---- C28
struct HOpt { S names, param, desc; };
struct HGroup { S caption; std::vector<HOpt> opts; std::vector<HGroup> subs; };
static const po::value_semantic* value_kind(int k, const S& vn, const S& dv, HOpt& h) {
  po::typed_value<S>* v = po::value<S>();
  S var = "arg";
  switch (k) {
    case 0: h.param = "arg"; break;
    case 1: h.param = "arg (=" + dv + ")"; v->default_value(dv); break;
    case 2: h.param = "[=arg(=" + dv + ")]"; v->implicit_value(dv); break;
    case 3: h.param = vn; v->value_name(vn); break;
    case 4: h.param = "[=" + vn + "(=" + dv + ")] (=" + dv + "z)"; v->value_name(vn)->implicit_value(dv)->default_value(dv + "z"); break;
    case 5: h.param = vn + " (=" + dv + ")"; v->value_name(vn)->required()->composing()->default_value(S("u"), dv); break;
    case 6: { h.param = "arg"; delete v; po::typed_value<VS>* m = po::value<VS>(); m->multitoken()->zero_tokens(); h.param = "arg"; return po::value<VS>()->multitoken(); }
    case 7: { delete v; h.param = ""; return po::bool_switch(); }
  }
  return v;
}
static bool put(const S& out, size_t& p, const S& w) { if (!at(out, p, w)) return false; p += w.size(); return true; }
// walk the output; col: the common description column (0: not seen yet)
static bool walk(const S& out, size_t& p, const HGroup& g, size_t& col, unsigned L, unsigned mind, bool& saw_new, bool fixed = false) {
  if (!g.caption.empty()) if (!put(out, p, g.caption + ":\n")) return false;
  for (size_t i = 0; i < g.opts.size(); ++i) {
    const HOpt& o = g.opts[i]; S head = "  " + o.names + " " + o.param;
    if (!put(out, p, head)) return false;
    if (!o.desc.empty()) {
      size_t n = head.size();
      if (p < out.size() && out[p] == '\n') { ++p; n = 0; saw_new = true; if (head.size() < (fixed ? col : L - mind)) return false; }
      size_t c = n; while (p < out.size() && out[p] == ' ') { ++p; ++c; }
      if (!col) col = c;
      if (c != col || (!fixed && c > L - mind)) return false;
      if (n == 0 ? head.size() < col : head.size() > col || (head.size() == col && head[head.size() - 1] != ' ')) return false;
      if (!put(out, p, o.desc)) return false;
    }
    if (!put(out, p, "\n")) return false;
  }
  for (size_t i = 0; i < g.subs.size(); ++i) { if (!put(out, p, "\n")) return false; if (!walk(out, p, g.subs[i], col, L, mind, saw_new, fixed)) return false; }
  return true;
}
static void finish(const po::options_description& d, const HGroup& g, unsigned L, unsigned mind) {
  S out = show(d); size_t p = 0, col = 0; bool nl = false;
  bool ok = walk(out, p, g, col, L, mind, nl);
  SYM_ASSERT(ok, "caption, then every option once, in order, with its names, argument and description in one column, then the groups");
  SYM_ASSERT(p == out.size(), "and nothing else");
  S again = show(d); SYM_ASSERT(eqs(out, again), "printing changes nothing");
  std::ostringstream o2; d.print(o2); SYM_ASSERT(eqs(o2.str(), out), "print prints the same");
  sym::observe(out, "out"); if (nl) sym::cover("new line"); else if (col) sym::cover("same line");
}
static HOpt add_opt(po::options_description& d, int shape, int kind, const S& lname, const S& sname, const S& vn, const S& dv, const S& desc) {
  HOpt h; S decl;
  if (shape == 0) { decl = lname; h.names = "--" + lname; } else if (shape == 1) { decl = "," + sname; h.names = "-" + sname; }
  else if (shape == 2) { decl = lname + "," + sname; h.names = "-" + sname + " [ --" + lname + " ]"; }
  else { decl = lname + "," + lname + "k," + sname; h.names = "-" + sname + " [ --" + lname + " ]"; }
  h.desc = desc;
  if (kind == 8) { h.param = ""; if (desc.empty()) d.add_options()(decl.c_str(), ""); else d.add_options()(decl.c_str(), desc.c_str()); }
  else { const po::value_semantic* v = value_kind(kind, vn, dv, h); if (desc.empty()) d.add_options()(decl.c_str(), v); else d.add_options()(decl.c_str(), v, desc.c_str()); }
  return h;
}
HARNESS(h_help_opts) {         // every shape of option
  bool cap = sym::choice(2, "caption"); unsigned L = 40, mind = 16;
  HGroup g; if (cap) g.caption = sym::str_of(2, "cap", "aA ");
  po::options_description d(g.caption, L, mind);
  int n = 1 + sym::choice(2, "n"); static const char* ln[] = {"p", "q", "r"}; static const char* sn[] = {"x", "y", "z"};
  for (int i = 0; i < n; ++i) {
    int kind = sym::choice(9, "kind"), shape = sym::choice(4, "shape");
    S dv = kind == 1 || kind == 2 || kind == 4 || kind == 5 ? sym::str_of(Q(2, 3), "default", "ab)") : S(), vn = kind >= 3 && kind <= 5 ? sym::str_of(1, "value name", "AB ") : S("v");
    S nm = ln[i] + sym::str_of(Q(2, 3), "name", "abc"), ds = i == 0 ? sym::str_upto(0, 2, "desc", "DE.") : S("FF");
    if (!ds.empty()) sym::assume(ds[0] != ' ');
    g.opts.push_back(add_opt(d, shape, kind, nm, sn[i], vn, dv, ds));
  }
  finish(d, g, L, mind);
}
HARNESS(h_help_width) {        // names around the width of the column, for several line lengths
  unsigned L = 32 + 8 * sym::choice(Q(3, 6), "line"), mind = 6 + 5 * sym::choice(Q(3, 5), "reserved");
  HGroup g; g.caption = "C"; po::options_description d(g.caption, L, mind);
  int k = sym::choice(Q(36, 60), "length");
  S n1 = S(1 + k, 'a'), n2 = "b" + sym::str_of(2, "name", "cd");
  g.opts.push_back(add_opt(d, 0, 0, n1, "", "", "", "D1"));
  g.opts.push_back(add_opt(d, 2, 8, n2, "x", "", "", "E2"));
  finish(d, g, L, mind);
}
HARNESS(h_help_groups) {       // groups, nested groups, options declared before and after a group is added
  int shape = sym::choice(16, "which");
  HGroup g, a, b, in; g.caption = "Top"; a.caption = sym::str_upto(0, 2, "caption", "GH"); b.caption = "B"; in.caption = "I";
  S da = sym::str_upto(0, 1, "desc", "XY"), na = "a" + sym::str_of(2, "name", "ab");
  unsigned wide = sym::choice(2, "wide");
  unsigned L = 50, mind = 20;
  po::options_description top(g.caption, L, mind), pa(a.caption, L, mind), pb(b.caption, L, mind), pi(in.caption, L, mind);
  if (shape & 1) g.opts.push_back(add_opt(top, 0, 0, "t1", "", "", "", "T"));
  a.opts.push_back(add_opt(pa, 0, 8, na, "", "", "", da));
  a.opts.push_back(add_opt(pa, 2, 3, "second", "s", wide ? "VALUEVALUEVALUE" : "V", "", "W"));
  if (shape & 2) { in.opts.push_back(add_opt(pi, 0, 1, "inner", "", "", "5", "V")); pa.add(pi); a.subs.push_back(in); }
  if (shape & 4) b.opts.push_back(add_opt(pb, 1, 0, "", "u", "", "", "U"));
  top.add(pa); g.subs.push_back(a);
  if (shape & 8) g.opts.push_back(add_opt(top, 0, 8, "t2", "", "", "", "S"));
  top.add(pb); g.subs.push_back(b);
  finish(top, g, L, mind);
  sym::cover(shape & 2 ? "nested" : "flat");
}
HARNESS(h_help_print) {        // print with a given column
  HGroup g, a, in; g.caption = sym::str_upto(0, 1, "cap", "cC"); a.caption = "A"; in.caption = "I"; unsigned L = 60, mind = 30, col = 5 + sym::choice(Q(20, 40), "column");
  po::options_description top(g.caption, L, mind), pa(a.caption, L, mind), pi(in.caption, L, mind);
  g.opts.push_back(add_opt(top, 0, 8, "t" + sym::str_upto(0, 3, "name", "tu"), "", "", "", "T1"));
  a.opts.push_back(add_opt(pa, 2, sym::choice(9, "kind"), "sec" + sym::str_of(1, "name", "tu"), "s", "VAL", "d", sym::str_upto(0, 2, "desc", "DE")));
  in.opts.push_back(add_opt(pi, 1, 0, "", "u", "", "", "UU")); pa.add(pi); a.subs.push_back(in); top.add(pa); g.subs.push_back(a);
  std::ostringstream o; top.print(o, col); S out = o.str(); size_t p = 0, c = col; bool nl = false;
  SYM_ASSERT(walk(out, p, g, c, L, mind, nl, true) && p == out.size(), "every option once, in order, with the descriptions in the given column, in the groups too");
  HGroup dflt = g; finish(top, dflt, L, mind);       // and without a width as always
}
HARNESS(h_help_many) {         // many options of every shape over several groups
  HGroup g, sub[3]; g.caption = "All"; unsigned L = 80, mind = 40;
  po::options_description top(g.caption, L, mind); boost::scoped_ptr<po::options_description> pd[3];
  int at = sym::choice(9, "at"), kind = sym::choice(9, "kind"), shape = sym::choice(4, "shape"); S nm = sym::str_of(2, "name", "xyz"), ds = sym::str_upto(0, 2, "desc", "DE."); if (!ds.empty()) sym::assume(ds[0] != ' ');
  for (int k = 0; k < 3; ++k) {
    sub[k].caption = k == 1 ? "" : S("Group ") + char('0' + k); pd[k].reset(new po::options_description(sub[k].caption, L, mind));
    for (int i = 0; i < 5; ++i) {
      int q = k * 5 + i; bool me = q / 2 == at && q % 2 == 0;
      S n = me ? S("opt") + nm : S(1 + (q * 7) % 11, char('a' + q)) + "q", d = me ? ds : q % 3 ? S(20 - q, 'd') : S();
      sub[k].opts.push_back(add_opt(*pd[k], me ? shape : q % 4, me ? kind : (q * 5) % 9, n, S(1, char('A' + q)), "VALUE", "dflt", d));
    }
  }
  if (sym::choice(2, "nest")) { pd[0]->add(*pd[1]); sub[0].subs.push_back(sub[1]); top.add(*pd[0]).add(*pd[2]); g.subs.push_back(sub[0]); g.subs.push_back(sub[2]); }
  else for (int k = 0; k < 3; ++k) { top.add(*pd[k]); g.subs.push_back(sub[k]); }
  finish(top, g, L, mind);
}
