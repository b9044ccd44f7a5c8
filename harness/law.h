// Comparing what two runs give.
#pragma once
#include "model.h"
#include <sstream>
#include <algorithm>
#include <boost/scoped_ptr.hpp>
#ifdef THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
static S show(const po::options_description& d) { std::ostringstream o; o << d; return o.str(); }
struct Out { Kind k; S what; VS alt; std::vector<po::option> o; Out() : k(OK) {} };
template <class F> static Out outcome(F f) {
  Out r;
  try { r.o = f(); return r; }
  catch (po::unknown_option& e) { r.k = UNKNOWN; r.what = e.what(); } catch (po::ambiguous_option& e) { r.k = AMBIG; r.what = e.what(); r.alt = e.alternatives(); }
  catch (po::invalid_command_line_syntax& e) { r.k = SYNTAX; r.what = e.what(); } catch (po::too_many_positional_options_error& e) { r.k = TOOMANY; r.what = e.what(); }
  catch (po::error& e) { r.k = OTHER_ERROR; r.what = e.what(); }
  return r;
}
static bool same_opt(const po::option& a, const po::option& b, int shift = 0) {
  return ((unsigned)eqs(a.string_key, b.string_key) & (unsigned)sym::same(a.value, b.value) & (unsigned)sym::same(a.original_tokens, b.original_tokens)
      & (unsigned)(b.position_key < 0 ? a.position_key == b.position_key : a.position_key == b.position_key + shift) & (unsigned)(a.unregistered == b.unregistered) & (unsigned)(a.case_insensitive == b.case_insensitive)) != 0;
}
static bool same_opts(const std::vector<po::option>& a, const std::vector<po::option>& b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1; for (size_t i = 0; i < a.size(); ++i) ok &= (unsigned)same_opt(a[i], b[i]);
  return ok != 0;
}
static bool same_out(const Out& a, const Out& b) { return a.k == b.k && eqs(a.what, b.what) && sym::same(a.alt, b.alt) && same_opts(a.o, b.o); }
static bool same_value(const po::variable_value& a, const po::variable_value& b) {
  if (a.empty() != b.empty() || a.defaulted() != b.defaulted()) return false;
  if (a.empty()) return true;
  if (a.value().type() != b.value().type()) return false;
  if (a.value().type() == typeid(S)) return eqs(a.as<S>(), b.as<S>());
  if (a.value().type() == typeid(int)) return a.as<int>() == b.as<int>();
  if (a.value().type() == typeid(std::vector<int>)) return a.as<std::vector<int> >() == b.as<std::vector<int> >();
  if (a.value().type() == typeid(VS)) return sym::same(a.as<VS>(), b.as<VS>());
  return a.as<bool>() == b.as<bool>();
}
static bool same_maps(const po::variables_map& a, const po::variables_map& b, const S& but = "") {
  std::map<S, po::variable_value>::const_iterator i = a.begin(), k = b.begin(); unsigned ok = 1;
  for (; i != a.end(); ++i, ++k) { if (!but.empty() && k != b.end() && k->first == but) ++k; if (k == b.end() || !eqs(i->first, k->first)) return false; ok &= (unsigned)same_value(i->second, k->second); }
  if (!but.empty() && k != b.end() && k->first == but) ++k;
  return ok && k == b.end();
}
