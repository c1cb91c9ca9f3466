// Symbolic expressions: hash-consed bit-vector DAG.  IEEE floats are bit-vectors of
// 32/64 bits; FP operations are nodes whose operands/results are the IEEE bit patterns.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_TABLE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FMA, O_FLT, O_FLE, O_FEQ, O_FUNO,
  O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_FPTOSI, O_FPTOUI, O_FROUND, O_LIBM1, O_LIBM2
};

struct Expr;
struct Shadow { Expr *n; i64 lo, hi; int e; bool negz; }; // value == n * 2^e exactly (n signed)
struct Tbl { std::vector<u64> v; };

struct Expr {
  Op op; u8 nk; uint16_t w; u32 aux;      // aux: extract low bit / sym index / rounding mode / libm id
  Expr *k[3];
  u128 c;                                  // const value
  Tbl *t;
  u64 umin, umax;                          // unsigned range (valid for w<=64)
  Shadow *sh;
  bool hasfp;                              // contains a term of z3's FP theory
  Expr *sup, *canon;                       // the only symbol this depends on (MULTI if several); tabulated form
  Z3_ast zbv, zbool, zfp;
  u32 gen; u128 val;                       // evaluation memo
  u32 id; u64 hash;
};

struct Unsupported { std::string what; };

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, int w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }
static inline double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float b2f(u32 b) { float d; memcpy(&d, &b, 4); return d; }
static inline u32 f2b(float d) { u32 b; memcpy(&b, &d, 4); return b; }

extern Z3_context Z;
Expr *mkConst(u128 v, int w);
Expr *mk(Op op, int w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u32 aux = 0, Tbl *t = nullptr);
Expr *mkSym(u32 idx, int w, u64 lo, u64 hi);
Expr *mkBin(Op op, int w, Expr *a, Expr *b);
Expr *mkDomain(Expr *s, u64 n);
Expr *mkNot(Expr *a);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, int w);
Expr *mkSext(Expr *a, int w);
Expr *mkExtract(Expr *a, int lo, int w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkTable(Expr *idx, const std::vector<u64> &v, int w);
Expr *mkFBin(Op op, int w, Expr *a, Expr *b);
Expr *mkFUn(Op op, int w, Expr *a, u32 aux = 0);
Expr *mkFCmp(Op op, Expr *a, Expr *b);
Expr *mkFNeg(Expr *a);
Expr *mkFAbs(Expr *a);
Expr *mkSiToFp(Expr *a, int w, bool sgn);
Expr *mkFpToI(Expr *a, int w, bool sgn);
Expr *mkFpExt(Expr *a);
Expr *mkFpTrunc(Expr *a);
Expr *mkDyadic(Expr *n, i64 lo, i64 hi, int e); // f64 value n*2^e
u128 evalOp(Op op, int w, int kw, u32 aux, Tbl *t, u128 a, u128 b, u128 c);
u128 evalExpr(Expr *e, const std::vector<u64> &model);
void newEvalGen();
Z3_ast zBV(Expr *e);
Z3_ast zBool(Expr *e);
static inline bool isC(Expr *e) { return e->op == O_CONST; }
extern u64 g_nexprs;
