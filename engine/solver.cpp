#include "solver.h"
#include <chrono>
SolverStats SS;
unsigned z3RLimit = 40000000;
static Z3_context ctx; static Z3_solver sol;
static std::unordered_map<uint32_t, Z3_ast> varAst;
static std::unordered_map<Expr*, Dom> ttCache;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  sol = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sol);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), z3RLimit);
  Z3_solver_set_params(ctx, sol, p);
}
static Z3_ast b2v(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
static Z3_ast tr(Expr* e) {
  if (e->z3) return e->z3;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
    case O_VAR: { std::string n = e->undef ? "undef" : "v" + std::to_string(e->c);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, 8)); break; }
    case O_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case O_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case O_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case O_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case O_EQ: r = b2v(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case O_ULT: r = b2v(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case O_ULE: r = b2v(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case O_SLT: r = b2v(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case O_SLE: r = b2v(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, tr(e->a), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))), tr(e->b), tr(e->d)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, tr(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
  }
  e->z3 = r;
  return r;
}
static Z3_ast asBool(Expr* e) { return Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }

static const Dom& tt(Expr* e) {
  auto it = ttCache.find(e);
  if (it != ttCache.end()) return it->second;
  uint32_t v = e->vars->v[0];
  std::vector<uint8_t> m(v + 1, 0);
  Dom d;
  for (int i = 0; i < 256; i++) { m[v] = i; if (evalExpr(e, m)) d.set(i); }
  return ttCache[e] = d;
}
void pcGrow(PathCond& p, uint32_t n) { while (p.dom.size() < n) { p.dom.push_back(Dom().set()); } if (p.model.size() < n) p.model.resize(n, 0); }
void pcAdd(PathCond& p, Expr* c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND) { pcAdd(p, c->a); pcAdd(p, c->b); return; }
  size_t nv = c->vars->v.size();
  if (nv == 0) return;
  if (nv == 1) { for (auto u : p.unary) if (u == c) return; p.unary.push_back(c); p.dom[c->vars->v[0]] &= tt(c); return; }
  for (auto u : p.multi) if (u == c) return;
  p.multi.push_back(c);
}
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

static Res z3solve(const std::vector<Expr*>& cs, const std::vector<uint32_t>& vars, std::vector<std::pair<uint32_t, uint8_t>>& out) {
  double t0 = now();
  Z3_solver_push(ctx, sol);
  for (auto c : cs) Z3_solver_assert(ctx, sol, asBool(c));
  Z3_lbool r = Z3_solver_check(ctx, sol);
  SS.z3Queries++;
  Res res = UNKNOWN;
  if (r == Z3_L_TRUE) {
    SS.z3Sat++;
    res = SAT;
    Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
    for (auto v : vars) {
      Z3_ast o = nullptr; uint64_t val = 0;
      Z3_model_eval(ctx, m, tr(mkVar(v)), true, &o);
      if (o) Z3_get_numeral_uint64(ctx, o, &val);
      out.push_back({v, (uint8_t)val});
    }
    Z3_model_dec_ref(ctx, m);
  } else if (r == Z3_L_FALSE) { SS.z3Unsat++; res = UNSAT; }
  else SS.z3Unknown++;
  Z3_solver_pop(ctx, sol, 1);
  SS.z3Time += now() - t0;
  return res;
}
Res pcCheck(const PathCond& p, Expr* c, std::vector<uint8_t>& model, bool forceZ3) {
  if (c->op == O_CONST) { if (c->c) model = p.model; return c->c ? SAT : UNSAT; }
  if (c->vars->v.empty()) { model = p.model; return evalExpr(c, p.model) ? SAT : UNSAT; }
  bool inMulti = false;
  if (c->vars->v.size() == 1) {
    uint32_t v = c->vars->v[0];
    for (auto m : p.multi) if (std::binary_search(m->vars->v.begin(), m->vars->v.end(), v)) { inMulti = true; break; }
    if (!inMulti) {
      SS.domQueries++;
      Dom d = p.dom[v] & tt(c);
      Res r = d.any() ? SAT : UNSAT;
      if (!forceZ3) {
        if (r == SAT) { model = p.model; if (!d.test(model[v])) model[v] = (uint8_t)d._Find_first(); }
        if ((SS.domQueries & 127) != 1 || SS.xchecks >= 200) return r;
        // cross-check a sample of byte-domain answers with z3
        std::vector<Expr*> cs; for (auto u : p.unary) if (u->vars->v[0] == v) cs.push_back(u);
        cs.push_back(c);
        std::vector<std::pair<uint32_t, uint8_t>> o;
        SS.xchecks++;
        Res z = z3solve(cs, {}, o);
        if (z != UNKNOWN && z != r) { SS.xmismatch++; fprintf(stderr, "domain/z3 mismatch\n"); abort(); }
        return r;
      }
    }
  }
  // slice
  std::set<uint32_t> vs(c->vars->v.begin(), c->vars->v.end());
  std::vector<Expr*> cs; std::vector<char> used(p.multi.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < p.multi.size(); i++) if (!used[i]) {
      bool hit = false;
      for (auto v : p.multi[i]->vars->v) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(p.multi[i]); for (auto v : p.multi[i]->vars->v) vs.insert(v); ch = true; }
    }
  }
  for (auto u : p.unary) if (vs.count(u->vars->v[0])) cs.push_back(u);
  std::vector<uint32_t> key; key.reserve(cs.size() + 1);
  for (auto e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(c->id);
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    cs.push_back(c);
    CacheEnt ce;
    // cheap witness attempts on two bytes or fewer free variables of c (exact answers still come from z3)
    ce.r = z3solve(cs, std::vector<uint32_t>(vs.begin(), vs.end()), ce.m);
    it = qcache.emplace(std::move(key), std::move(ce)).first;
  } else SS.cacheHits++;
  if (it->second.r == SAT) { model = p.model; for (auto& kv : it->second.m) model[kv.first] = kv.second; }
  return it->second.r;
}

// e rewritten with what the byte domains already decide (conditions over one byte, bytes with one value left); e itself beyond a size limit
Expr* pcRestrict(const PathCond& p, Expr* e) {
  if (e->vars->v.size() < 2) return e;
  struct R { const PathCond& p; std::unordered_map<Expr*, Expr*> m; bool over = false;
    Expr* go(Expr* e) {
      size_t nv = e->vars->v.size();
      if (!nv || over) return e;
      if (nv == 1) {
        const Dom& d = p.dom[e->vars->v[0]];
        if (e->w == 1) { const Dom& t = tt(e); if ((d & t).none()) return mkConst(0, 1); if ((d & ~t).none()) return mkConst(1, 1); }
        if (d.count() == 1) { std::vector<uint8_t> mm(e->vars->v[0] + 1, 0); mm[e->vars->v[0]] = (uint8_t)d._Find_first(); return mkConst(evalExpr(e, mm), e->w); }
        if (e->w == 1) return e;
      }
      if (e->op == O_VAR) return e;
      auto it = m.find(e); if (it != m.end()) return it->second;
      if (m.size() > 3000) { over = true; return e; }
      Expr* r;
      if (e->op == O_ITE) {
        Expr* c = go(e->a);
        if (c->op == O_CONST) r = c->c ? go(e->b) : go(e->d);
        else { Expr* x = go(e->b); Expr* y = go(e->d); r = c == e->a && x == e->b && y == e->d ? e : mkIte(c, x, y); }
      } else {
        Expr* x = go(e->a); Expr* y = e->b ? go(e->b) : nullptr;
        if (x == e->a && y == e->b) r = e;
        else switch (e->op) {
          case O_EQ: r = mkEq(x, y); break;
          case O_ZEXT: r = mkZext(x, e->w); break;
          case O_SEXT: r = mkSext(x, e->w); break;
          case O_EXTRACT: r = mkExtract(x, (unsigned)e->c, e->w); break;
          case O_CONCAT: r = mkConcat(x, y); break;
          default: r = mkBin((Op)e->op, x, y); break;
        }
      }
      return m[e] = r;
    } } r{p, {}};
  Expr* x = r.go(e);
  return r.over ? e : x;
}
// the conditions over one byte that choose between values inside e; false when there are more than lim
bool pcChoices(Expr* e, std::vector<Expr*>& out, size_t lim) {
  std::set<Expr*> seen; std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (x->op <= O_VAR || x->vars->v.empty() || !seen.insert(x).second) continue;
    if (seen.size() > 3000) return false;
    if (x->w == 1 && x->vars->v.size() == 1) { if (out.size() == lim) return false; out.push_back(x); continue; }
    if (x->a) st.push_back(x->a);
    if (x->b) st.push_back(x->b);
    if (x->d) st.push_back(x->d);
  }
  return true;
}
