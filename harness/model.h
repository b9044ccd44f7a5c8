// Reference model of command-line parsing, written from the documentation and independent of
// the implementation.  Parts of the input space whose meaning the documentation leaves open
// come back as `unspec` and are not judged.
#pragma once
#include "sym.h"
#include <boost/program_options.hpp>
#include <climits>
namespace po = boost::program_options;
namespace ps = boost::program_options::command_line_style;
typedef std::string S;
typedef std::vector<std::string> VS;

enum Kind { OK, UNKNOWN, AMBIG, SYNTAX, TOOMANY, OTHER_ERROR };
struct MOpt { VS longs; char sh; unsigned min, max; bool single_str() const { return max == 1; }
  S key() const { return longs.empty() ? S("-") + sh : longs[0]; } };
struct MTok { S key; VS vals, toks; bool pos, after, unreg; int position;
  MTok() : pos(false), after(false), unreg(false), position(-1) {} };
struct MRes { Kind kind; bool unspec; std::vector<MTok> out; std::string bad; MRes() : kind(OK), unspec(false) {} };
struct MCfg { bool longs, disguise, dash, slash, sticky, guess, cil, cis, allow;
  MCfg() : longs(true), disguise(false), dash(true), slash(false), sticky(true), guess(true), cil(false), cis(false), allow(false) {} };

inline char lowc(char c) { return (c >= 'A' && c <= 'Z') ? char(c + 32) : c; }
inline S low(const S& s) { S r(s); for (size_t i = 0; i < r.size(); ++i) { unsigned char c = r[i]; r[i] = char(c + 32 * (unsigned char)((c >= 'A') & (c <= 'Z'))); } return r; }
inline bool eqs(const S& a, const S& b) { return sym::same(a, b); }
inline bool pre(const S& p, const S& s) { return p.size() <= s.size() && memcmp(p.data(), s.data(), p.size()) == 0; }

struct Model {
  const std::vector<MOpt>& o; MCfg c; MRes r;
  Model(const std::vector<MOpt>& opts, const MCfg& cfg) : o(opts), c(cfg) {}
  // long name -> index, -1 unknown, -2 ambiguous
  int find_long(const S& name, bool guess) {
    S n = c.cil ? low(name) : name;
    int full = -1, nfull = 0, ap = -1, nap = 0;
    for (size_t i = 0; i < o.size(); ++i) {
      bool f = false, a = false;
      for (size_t k = 0; k < o[i].longs.size(); ++k) {
        S l = c.cil ? low(o[i].longs[k]) : o[i].longs[k];
        if (eqs(l, n)) f = true; else if (guess && pre(n, l)) a = true;
      }
      if (f) { full = (int)i; ++nfull; } else if (a) { ap = (int)i; ++nap; }
    }
    if (nfull > 1) return -2;
    if (nfull == 1) return full;
    if (nap > 1) return -2;
    return ap;
  }
  int find_short(char ch) {
    for (size_t i = 0; i < o.size(); ++i) if (o[i].sh && (c.cis ? lowc(o[i].sh) == lowc(ch) : o[i].sh == ch)) return (int)i;
    return -1;
  }
  bool fail(Kind k) { r.kind = k; return false; }
  bool open() { r.unspec = true; return false; }
  // Is a token following an option that needs a value available as that value?
  // 1 yes, 0 no (it is exactly a declared short option), -1 left open
  int as_value(const S& t) {
    if (t.size() < 2) return 1;
    if (t[0] == '-') {
      if (c.disguise) return -1;
      if (t[1] == '-') {
        if (!c.longs) return 1;
        if (t.size() == 2) return -1;
        // a long option in the place of a required value is that value (cmdline_test: "--bar --foo")
        return t[2] != '=' && t[t.size() - 1] != '=' && t[2] != '-' && t[2] != '/' ? 1 : -1;
      }
      if (!c.dash) return 1;
      if (t.size() == 2) return find_short(t[1]) >= 0 ? 0 : 1;
      return find_short(t[1]) >= 0 ? -1 : 1;
    }
    if (t[0] == '/' && (c.slash)) return -1;
    return 1;
  }
  bool run(const VS& a) {
    size_t i = 0; bool term = false;
    while (i < a.size()) {
      const S& t = a[i];
      if (term) { MTok m; m.pos = m.after = true; m.vals.push_back(t); m.toks.push_back(t); r.out.push_back(m); ++i; continue; }
      if (t.size() == 2 && t[0] == '-' && t[1] == '-') { term = true; ++i; continue; }
      MTok m; bool has = false; S val; int idx = -1;
      if (c.longs && t.size() >= 3 && t[0] == '-' && t[1] == '-') {
        size_t p = t.find('=');
        S name = t.substr(2, p == S::npos ? S::npos : p - 2);
        if (name.empty() || name[0] == '-' || name[0] == '/') return open();
        if (p != S::npos) { has = true; val = t.substr(p + 1); if (val.empty()) return fail(SYNTAX); }
        idx = find_long(name, c.guess);
        r.bad = name;
        m.key = name;
      } else if (c.disguise && t.size() >= 2 && ((t[0] == '-' && t[1] != '-') || (c.slash && t[0] == '/'))) {
        size_t p = t.find('=');
        S name = t.substr(1, p == S::npos ? S::npos : p - 1);
        if (name.empty() || name[0] == '-' || name[0] == '/') return open();
        idx = find_long(name, c.guess);
        if (idx == -2) return fail(AMBIG);
        if (idx >= 0) {
          if (p != S::npos) { has = true; val = t.substr(p + 1); if (val.empty()) return fail(SYNTAX); }
          m.key = name;
        } else goto shorts;
      } else {
      shorts:
        if (t.size() >= 2 && t[0] == '-' && t[1] != '-' && c.dash) {
          size_t q = 1;
          for (;;) {
            int k = find_short(t[q]);
            bool more = q + 1 < t.size();
            if (k >= 0 && more && c.sticky && o[k].max == 0) { MTok g; g.key = o[k].key(); r.out.push_back(g); ++q; continue; }
            idx = k; m.key = S("-") + t[q];
            if (more) { has = true; val = t.substr(q + 1); }
            break;
          }
          if (m.key == "--") return open();   // "-a-...": a dash inside a group
        } else if (t.size() >= 2 && t[0] == '/' && c.slash) {
          idx = find_short(t[1]); m.key = S("-") + t[1];
          if (t[1] == '-') return open();
          if (t.size() > 2) { has = true; val = t.substr(2); }
        } else {
          m.pos = true; m.vals.push_back(t); m.toks.push_back(t); r.out.push_back(m); ++i; continue;
        }
      }
      m.toks.push_back(t); ++i;
      if (idx == -2) return fail(AMBIG);
      if (idx == -1) {
        if (!c.allow) return fail(UNKNOWN);
        m.unreg = true; if (has) m.vals.push_back(val); r.out.push_back(m); continue;
      }
      m.key = o[idx].key();
      unsigned mn = o[idx].min, mx = o[idx].max;
      if (has) { if (mx == 0) return fail(SYNTAX); m.vals.push_back(val); }
      while (m.vals.size() < mn) {
        if (i >= a.size()) return fail(SYNTAX);
        int av = as_value(a[i]);
        if (av < 0) return open();
        if (av == 0) return fail(SYNTAX);
        m.vals.push_back(a[i]); m.toks.push_back(a[i]); ++i;
      }
      r.out.push_back(m);
    }
    // options that may take more values absorb the plain arguments right behind them
    std::vector<MTok> z;
    for (size_t k = 0; k < r.out.size(); ++k) {
      z.push_back(r.out[k]);
      MTok& m = z.back();
      if (m.pos) continue;
      if (m.unreg) continue;
      int d = -1; for (size_t q = 0; q < o.size(); ++q) if (eqs(o[q].key(), m.key)) d = (int)q;
      if (d < 0 || o[d].min >= o[d].max) continue;
      while (m.vals.size() < o[d].max && k + 1 < r.out.size() && r.out[k + 1].pos && !r.out[k + 1].after) {
        ++k; m.vals.push_back(r.out[k].vals[0]); m.toks.push_back(r.out[k].toks[0]);
      }
    }
    r.out.swap(z);
    int n = 0;
    for (size_t k = 0; k < r.out.size(); ++k) if (r.out[k].pos) r.out[k].position = n++;
    return true;
  }
};

// Names for positions; false = more positionals than names
inline bool name_positions(MRes& r, const VS& names, bool trailing) {
  for (size_t k = 0; k < r.out.size(); ++k) if (r.out[k].pos) {
    size_t p = (size_t)r.out[k].position;
    if (p < names.size()) r.out[k].key = names[p];
    else if (trailing) r.out[k].key = names.back();
    else { r.kind = TOOMANY; return false; }
  }
  return true;
}

template <class F> Kind run_kind(F f) {
  try { f(); return OK; }
  catch (po::unknown_option&) { return UNKNOWN; }
  catch (po::ambiguous_option&) { return AMBIG; }
  catch (po::invalid_command_line_syntax&) { return SYNTAX; }
  catch (po::too_many_positional_options_error&) { return TOOMANY; }
  catch (po::error&) { return OTHER_ERROR; }
}

inline VS joined(const po::parsed_options& p) {
  VS r; for (size_t i = 0; i < p.options.size(); ++i) r.insert(r.end(), p.options[i].original_tokens.begin(), p.options[i].original_tokens.end());
  return r;
}

// Compare what the library returned with what the model says
inline void compare(const std::vector<po::option>& got, const MRes& r, bool toks = true) {
  SYM_ASSERT(got.size() == r.out.size(), "number of parsed options differs from the documented reading");
  if (got.size() != r.out.size()) return;
  for (size_t i = 0; i < got.size(); ++i) {
    const po::option& g = got[i]; const MTok& m = r.out[i];
    SYM_ASSERT(eqs(g.string_key, m.key), "option key");
    SYM_ASSERT(sym::same(g.value, m.vals), "option values");
    SYM_ASSERT(g.unregistered == m.unreg, "unregistered flag");
    SYM_ASSERT(m.pos == (g.position_key != -1), "positional or not");
    if (m.pos) SYM_ASSERT(g.position_key == m.position, "position number");
    if (toks) SYM_ASSERT(sym::same(g.original_tokens, m.toks), "original tokens");
  }
}

inline void observe(const std::vector<po::option>& v) {
  for (size_t i = 0; i < v.size(); ++i) {
    sym::observe(v[i].string_key, "key"); sym::observe(v[i].value, "value"); sym::observe(v[i].original_tokens, "token");
    sym::observe_int(v[i].position_key, "pos"); sym::observe_int(v[i].unregistered, "unreg");
  }
}
inline int style_bits(const MCfg& c) {
  int s = 0;
  if (c.longs) s |= ps::allow_long;
  if (c.disguise) s |= ps::allow_long_disguise;
  if (c.longs || c.disguise) s |= ps::long_allow_adjacent | ps::long_allow_next;
  if (c.dash) s |= ps::allow_short | ps::allow_dash_for_short | ps::short_allow_adjacent | ps::short_allow_next;
  if (c.slash) s |= ps::allow_short | ps::allow_slash_for_short | ps::short_allow_adjacent | ps::short_allow_next;
  if (c.sticky) s |= ps::allow_sticky;
  if (c.guess) s |= ps::allow_guessing;
  if (c.cil) s |= ps::long_case_insensitive;
  if (c.cis) s |= ps::short_case_insensitive;
  return s;
}
