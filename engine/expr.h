// Hash-consed bit-vector expressions (widths 1..64) and simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT };

struct VarSet { std::vector<uint32_t> v; };   // sorted

struct Expr {
  uint8_t op; uint8_t w; bool undef;
  uint32_t id;
  uint64_t c;                 // const value / var index / extract low bit
  Expr *a, *b, *d;
  const VarSet* vars;
  Z3_ast z3;
  mutable uint64_t ev_epoch, ev_val;
  Expr* neg;                  // cached negation (w==1)
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

Expr* mkConst(uint64_t c, unsigned w);
Expr* mkVar(uint32_t idx);            // 8 bit
Expr* mkUndef8();
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkNot(Expr* a);                 // w==1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(O_AND, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(O_OR, a, b); }
Expr* substUndef(Expr* e, unsigned k);
uint64_t evalExpr(Expr* e, const std::vector<uint8_t>& model);
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();
