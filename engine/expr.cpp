#include "expr.h"
#include <deque>
#include <map>

static std::deque<Expr> arena;
struct Key { uint64_t h; };
static std::unordered_multimap<uint64_t, Expr*> table_;
static std::map<std::vector<uint32_t>, VarSet*> vsTable;
static const VarSet* emptyVS = nullptr;
size_t exprCount() { return arena.size(); }

static const VarSet* internVS(const std::vector<uint32_t>& v) {
  auto it = vsTable.find(v);
  if (it != vsTable.end()) return it->second;
  VarSet* s = new VarSet{v};
  vsTable[v] = s;
  return s;
}
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
  if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return internVS(r);
}
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

static Expr* cons(uint8_t op, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* d) {
  uint64_t h = mix(mix(mix(mix(mix(op * 131 + w, c), (uint64_t)a), (uint64_t)b), (uint64_t)d), 77);
  auto r = table_.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr* e = it->second;
    if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
  }
  if (!emptyVS) emptyVS = internVS({});
  arena.emplace_back();
  Expr* e = &arena.back();
  e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = arena.size(); e->z3 = nullptr; e->ev_epoch = 0; e->neg = nullptr;
  e->undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
  const VarSet* vs = emptyVS;
  if (op == O_VAR) { if (c == ~0ull) e->undef = true; else vs = internVS({(uint32_t)c}); }
  if (a) vs = unionVS(vs, a->vars);
  if (b) vs = unionVS(vs, b->vars);
  if (d) vs = unionVS(vs, d->vars);
  e->vars = vs;
  table_.emplace(h, e);
  return e;
}
Expr* mkConst(uint64_t c, unsigned w) { return cons(O_CONST, w, c & maskw(w), 0, 0, 0); }
Expr* mkVar(uint32_t idx) { return cons(O_VAR, 8, idx, 0, 0, 0); }
Expr* mkUndef8() { return cons(O_VAR, 8, ~0ull, 0, 0, 0); }

static uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? x / y : m;
    case O_UREM: return y ? x % y : x;
    case O_SDIV: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
    case O_SREM: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << y) & m;
    case O_LSHR: return y >= w ? 0 : x >> y;
    case O_ASHR: { int64_t a = sextw(x, w); return (uint64_t)(y >= w ? (a < 0 ? -1 : 0) : (a >> y)) & m; }
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sextw(x, w) < sextw(y, w);
    case O_SLE: return sextw(x, w) <= sextw(y, w);
    default: abort();
  }
}
static bool isC(Expr* e) { return e->op == O_CONST; }

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->neg) return a->neg;
  Expr* r;
  if (a->op == O_XOR && isC(a->b) && a->b->c == 1) r = a->a;
  else if (a->op == O_ULT) r = mkBin(O_ULE, a->b, a->a);
  else if (a->op == O_ULE) r = mkBin(O_ULT, a->b, a->a);
  else if (a->op == O_SLT) r = mkBin(O_SLE, a->b, a->a);
  else if (a->op == O_SLE) r = mkBin(O_SLT, a->b, a->a);
  else r = cons(O_XOR, 1, 0, a, mkConst(1, 1), 0);
  a->neg = r; if (!isC(r)) r->neg = a;
  return r;
}

Expr* mkEq(Expr* a, Expr* b) {
  if (a == b && !a->undef) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    uint64_t k = b->c;
    switch (a->op) {
      case O_ZEXT: if (k > maskw(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(k, a->a->w));
      case O_SEXT: { uint64_t t = k & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & maskw(a->w)) != k) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
      case O_ITE: {
        Expr *x = mkEq(a->b, b), *y = mkEq(a->d, b);
        return mkIte(a->a, x, y);
      }
      case O_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(k - a->b->c, a->w)); break;
      case O_SUB: if (k == 0) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, mkConst(a->a->c - k, a->w)); break;
      case O_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(k ^ a->b->c, a->w));
                  if (k == 0) return mkEq(a->a, a->b); break;
      case O_CONCAT: { Expr* h = mkEq(a->a, mkConst(k >> a->b->w, a->a->w)); if (isC(h) && !h->c) return h;
                       return mkAnd(h, mkEq(a->b, mkConst(k & maskw(a->b->w), a->b->w))); }
      default: break;
    }
    if (a->w == 1) return k ? a : mkNot(a);
  } else {
    if (a->w == 1) return mkNot(mkBin(O_XOR, a, b));
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (a->id > b->id) std::swap(a, b);
  }
  return cons(O_EQ, 1, 0, a, b, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->op == O_XOR && isC(c->b)) return mkIte(mkNot(c), b, a);
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return cons(O_ITE, a->w, 0, c, a, b);
}
Expr* mkZext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  return cons(O_ZEXT, w, 0, a, 0, 0);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return cons(O_SEXT, w, 0, a, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  switch (a->op) {
    case O_EXTRACT: return mkExtract(a->a, off + a->c, w);
    case O_CONCAT: {
      unsigned lw = a->b->w;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case O_ZEXT:
      if (off >= a->a->w) return mkConst(0, w);
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      return mkZext(mkExtract(a->a, off, a->a->w - off), w);
    case O_SEXT:
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      if (off == 0) return mkSext(a->a, w);
      break;
    case O_AND: case O_OR: case O_XOR:
      return mkBin((Op)a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (off == 0) return mkBin((Op)a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case O_ITE:
      if (isC(a->b) || isC(a->d) || a->b->op == O_ZEXT || a->d->op == O_ZEXT || a->b->op == O_ITE || a->d->op == O_ITE)
        return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
      break;
    case O_SHL:
      if (isC(a->b)) { uint64_t s = a->b->c; if (off >= s) { if (s < a->w) return mkExtract(a->a, off - s, w); }
        else if (off + w <= s) return mkConst(0, w); }
      break;
    case O_LSHR:
      if (isC(a->b)) { uint64_t s = a->b->c; if (off + s + w <= a->w) return mkExtract(a->a, off + s, w);
        if (off + s >= a->w) return mkConst(0, w); }
      break;
    default: break;
  }
  return cons(O_EXTRACT, w, off, a, 0, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  // concat(extract(x, lw..), x') where lo is an un-extracted narrower piece: zext case
  if (hi->op == O_EXTRACT && hi->a->op == O_ZEXT && hi->c >= hi->a->a->w) return mkZext(lo, w);
  // concat(hi, concat(mid, lo')) with hi,mid mergeable
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  if (lo->op == O_ZEXT && isC(hi) && hi->c == 0) return mkZext(lo->a, w);
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return cons(O_CONCAT, w, 0, hi, lo, 0);
}

static bool allLeafConstIte(Expr* e, int budget) {
  if (isC(e)) return true;
  if (e->op != O_ITE || budget <= 0) return false;
  return allLeafConstIte(e->b, budget - 1) && allLeafConstIte(e->d, budget - 1);
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (op == O_EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), op >= O_ULT && op <= O_SLE ? 1 : w);
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->c + b->c, w));
        if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, mkConst(a->a->c + b->c, w), a->b);
        if (a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(O_ADD, a->b, b), mkBin(O_ADD, a->d, b));
      } else {
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
        if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
        if (b->op == O_SUB && b->b == a) return b->a;
        if (a->op == O_SUB && a->b == b) return a->a;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->c, w));
      if (a->op == O_ADD && a->a == b) return a->b;
      if (a->op == O_ADD && a->b == b) return a->a;
      if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst(0 - b->b->c, w));
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
      if (isC(a) && b->op == O_ITE && allLeafConstIte(b, 64)) return mkIte(b->a, mkBin(O_SUB, a, b->b), mkBin(O_SUB, a, b->d));
      break;
    case O_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(b->c), w));
        if (a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
      }
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->c & b->c, w));
        if ((b->c & (b->c + 1)) == 0) { unsigned n = __builtin_popcountll(b->c); return mkZext(mkExtract(a, 0, n), w); }
        if (a->op == O_ZEXT) return mkZext(mkBin(O_AND, a->a, mkConst(b->c, a->a->w)), w);
        if (a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
        if (a->op == O_CONCAT) return mkConcat(mkBin(O_AND, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(O_AND, a->b, mkConst(b->c, a->b->w)));
      } else {
        if (w == 1 && (a->neg == b)) return mkConst(0, 1);
        if (w == 1 && b->op == O_AND && (b->a == a || b->b == a)) return b;
        if (w == 1 && a->op == O_AND && (a->a == b || a->b == b)) return a;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
      } else {
        if (w == 1 && (a->neg == b)) return mkConst(1, 1);
        if (w == 1 && b->op == O_OR && (b->a == a || b->b == a)) return b;
        if (w == 1 && a->op == O_OR && (a->a == b || a->b == b)) return a;
        // disjoint pieces:  (zext lo) | (x << k)  with k >= width(lo)
        for (int i = 0; i < 2; i++) {
          Expr* x = i ? b : a; Expr* y = i ? a : b;
          if (x->op == O_ZEXT && y->op == O_SHL && isC(y->b) && y->b->c >= x->a->w && y->b->c < w) {
            unsigned k = y->b->c;
            return mkConcat(mkExtract(y->a, 0, w - k), mkZext(x->a, k));
          }
          if (x->op == O_ZEXT && y->op == O_CONCAT && isC(y->b) && y->b->c == 0 && x->a->w <= y->b->w)
            return mkConcat(y->a, mkZext(x->a, y->b->w));
        }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->c ^ b->c, w));
        if (a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
        if (a->op == O_ZEXT && b->c <= maskw(a->a->w)) return mkZext(mkBin(O_XOR, a->a, mkConst(b->c, a->a->w)), w);
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case O_SHL:
      if (isC(b)) {
        uint64_t s = b->c; if (s == 0) return a; if (s >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_LSHR:
      if (isC(b)) {
        uint64_t s = b->c; if (s == 0) return a; if (s >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, s, w - s), w);
      }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_ASHR:
      if (isC(b)) {
        uint64_t s = b->c; if (s == 0) return a; if (s < w) return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case O_UDIV:
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->c), w));
      break;
    case O_UREM:
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(O_AND, a, mkConst(b->c - 1, w));
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b)) {
        if (b->c == 0) return mkConst(0, 1);
        if (b->c == 1) return mkEq(a, mkConst(0, w));
        if (a->op == O_ZEXT) { if (b->c > maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULT, a->a, mkConst(b->c, a->a->w)); }
        if (a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
      }
      if (isC(a)) {
        if (a->c == m) return mkConst(0, 1);
        if (a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
        if (b->op == O_ZEXT) { if (a->c >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->c, b->a->w), b->a); }
        if (b->op == O_ITE && allLeafConstIte(b, 64)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a);
      return cons(op, 1, 0, a, b, 0);
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (b->c == m) return mkConst(1, 1);
        if (b->c == 0) return mkEq(a, b);
        return mkBin(O_ULT, a, mkConst(b->c + 1, w));
      }
      if (isC(a)) {
        if (a->c == 0) return mkConst(1, 1);
        return mkBin(O_ULT, mkConst(a->c - 1, w), b);
      }
      return cons(op, 1, 0, a, b, 0);
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b);
      if (a->op == O_ZEXT && isC(b)) { if (sextw(b->c, w) <= 0) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (b->op == O_ZEXT && isC(a)) { if (sextw(a->c, w) < 0) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      if (isC(b) && a->op == O_SEXT) {
        int64_t k = sextw(b->c, w); unsigned n = a->a->w; int64_t mx = (int64_t)(maskw(n) >> 1), mn = -mx - 1;
        if (k > mx) return mkConst(1, 1);
        if (k <= mn) return mkConst(0, 1);
        return mkBin(O_SLT, a->a, mkConst((uint64_t)k, n));
      }
      if (isC(a) && b->op == O_SEXT) {
        int64_t k = sextw(a->c, w); unsigned n = b->a->w; int64_t mx = (int64_t)(maskw(n) >> 1), mn = -mx - 1;
        if (k >= mx) return mkConst(0, 1);
        if (k < mn) return mkConst(1, 1);
        return mkBin(O_SLT, mkConst((uint64_t)k, n), b->a);
      }
      if (isC(b) && a->op == O_ITE && allLeafConstIte(a, 64)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
      if (isC(a) && b->op == O_ITE && allLeafConstIte(b, 64)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
      return cons(op, 1, 0, a, b, 0);
    case O_SLE:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) { if (sextw(b->c, w) == (int64_t)(m >> 1)) return mkConst(1, 1); return mkBin(O_SLT, a, mkConst(b->c + 1, w)); }
      if (isC(a)) { if (a->c == (m >> 1) + 1) return mkConst(1, 1); return mkBin(O_SLT, mkConst(a->c - 1, w), b); }
      return cons(op, 1, 0, a, b, 0);
    default: break;
  }
  return cons(op, w, 0, a, b, 0);
}

static uint64_t epoch_ = 0;
static uint64_t ev(Expr* e, const std::vector<uint8_t>& m) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return e->c == ~0ull ? 0 : (e->c < m.size() ? m[e->c] : 0);
  if (e->ev_epoch == epoch_) return e->ev_val;
  uint64_t r;
  switch (e->op) {
    case O_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
    case O_ZEXT: r = ev(e->a, m); break;
    case O_SEXT: r = (uint64_t)sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case O_EXTRACT: r = (ev(e->a, m) >> e->c) & maskw(e->w); break;
    case O_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    default: { uint64_t x = ev(e->a, m), y = ev(e->b, m); r = foldBin((Op)e->op, x, y, e->a->w); }
  }
  e->ev_epoch = epoch_; e->ev_val = r;
  return r;
}
uint64_t evalExpr(Expr* e, const std::vector<uint8_t>& m) { ++epoch_; return ev(e, m); }

std::string exprStr(Expr* e, int depth) {
  static const char* n[] = {"c","v","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","=","<u","<=u","<s","<=s","ite","zx","sx","ex","cat"};
  if (e->op == O_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == O_VAR) return e->c == ~0ull ? "undef" : "v" + std::to_string(e->c);
  if (depth == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
  if (e->a) s += " " + exprStr(e->a, depth - 1);
  if (e->b) s += " " + exprStr(e->b, depth - 1);
  if (e->d) s += " " + exprStr(e->d, depth - 1);
  return s + ")";
}

// e with every undefined byte replaced by k
Expr* substUndef(Expr* e, unsigned k) {
  if (!e->undef) return e;
  std::unordered_map<Expr*, Expr*> memo;
  struct R { std::unordered_map<Expr*, Expr*>& m; unsigned k; Expr* go(Expr* e) {
    if (!e->undef) return e;
    auto it = m.find(e); if (it != m.end()) return it->second;
    Expr* r;
    switch (e->op) {
      case O_VAR: r = mkConst(k, 8); break;
      case O_EQ: r = mkEq(go(e->a), go(e->b)); break;
      case O_ITE: r = mkIte(go(e->a), go(e->b), go(e->d)); break;
      case O_ZEXT: r = mkZext(go(e->a), e->w); break;
      case O_SEXT: r = mkSext(go(e->a), e->w); break;
      case O_EXTRACT: r = mkExtract(go(e->a), (unsigned)e->c, e->w); break;
      case O_CONCAT: r = mkConcat(go(e->a), go(e->b)); break;
      default: r = mkBin((Op)e->op, go(e->a), go(e->b)); break;
    }
    return m[e] = r;
  } } r{memo, k};
  return r.go(e);
}
