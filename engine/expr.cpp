#include "expr.h"
#include <fenv.h>
#include <functional>
Z3_context Z;
u64 g_nexprs = 0;
static u32 g_gen = 1;
static const size_t TBL_LIMIT = 4096;

struct Key { u64 h; };
static std::unordered_multimap<u64, Expr *> g_cons;
static std::unordered_multimap<u64, Tbl *> g_tbls;

static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static void ranges(Expr *e) {
  int w = e->w; u64 full = w >= 64 ? ~0ULL : ((1ULL << w) - 1);
  e->umin = 0; e->umax = full;
  if (w > 64) return;
  auto a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op) {
  case O_CONST: e->umin = e->umax = (u64)e->c; break;
  case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
  case O_ADD: { u128 lo = (u128)a->umin + b->umin, hi = (u128)a->umax + b->umax;
    if (hi <= full) { e->umin = (u64)lo; e->umax = (u64)hi; }
    else if (isC(b) && lo > full) { e->umin = (u64)(lo & full); e->umax = (u64)(hi & full); } break; }
  case O_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
  case O_MUL: { u128 hi = (u128)a->umax * b->umax; if (hi <= full) { e->umin = a->umin * b->umin; e->umax = (u64)hi; } break; }
  case O_AND: e->umax = std::min(a->umax, b->umax); break;
  case O_OR: case O_XOR: { u64 m = a->umax | b->umax; int s = 64 - (m ? __builtin_clzll(m) : 64); e->umax = s >= 64 ? ~0ULL : (1ULL << s) - 1; if (e->umax > full) e->umax = full; if (e->op == O_OR) e->umin = std::max(a->umin, b->umin); break; }
  case O_LSHR: if (isC(b) && b->c < (u128)w) { e->umin = a->umin >> (u64)b->c; e->umax = a->umax >> (u64)b->c; } else e->umax = a->umax; break;
  case O_SHL: if (isC(b) && b->c < (u128)w) { u128 hi = (u128)a->umax << (u64)b->c; if (hi <= full) { e->umin = a->umin << (u64)b->c; e->umax = (u64)hi; } } break;
  case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
  case O_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
  case O_ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); break;
  case O_TABLE: { u64 lo = ~0ULL, hi = 0; for (u64 i = a->umin; i <= a->umax && i < e->t->v.size(); i++) { lo = std::min(lo, e->t->v[i]); hi = std::max(hi, e->t->v[i]); } if (lo <= hi) { e->umin = lo; e->umax = hi; } break; }
  case O_EXTRACT: if (e->aux == 0 && a->w <= 64) { if (a->umax <= full) { e->umin = a->umin; e->umax = a->umax; } }
    else if (a->w <= 64 && (a->umax >> e->aux) <= full) { e->umin = a->umin >> e->aux; e->umax = a->umax >> e->aux; } break;
  case O_CONCAT: { int lw = b->w; e->umin = (a->umin << lw) | b->umin; e->umax = (a->umax << lw) | b->umax; break; }
  default: break;
  }
}

static Expr *const MULTI = (Expr *)1;
static Expr *intern(Op op, int w, Expr *a, Expr *b, Expr *c, u32 aux, Tbl *t, u128 cv) {
  u64 h = hmix(op, w); h = hmix(h, (u64)a); h = hmix(h, (u64)b); h = hmix(h, (u64)c); h = hmix(h, aux); h = hmix(h, (u64)t); h = hmix(h, (u64)cv); h = hmix(h, (u64)(cv >> 64));
  auto r = g_cons.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Expr *e = it->second; if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->aux == aux && e->t == t && e->c == cv) return e; }
  Expr *e = new Expr(); memset((void *)e, 0, sizeof *e);
  e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->nk = (a != 0) + (b != 0) + (c != 0); e->aux = aux; e->t = t; e->c = cv; e->hash = h; e->id = ++g_nexprs;
  if (op == O_SYM) e->sup = e; else for (Expr *k : {a, b, c}) if (k && k->sup) { if (!e->sup) e->sup = k->sup; else if (e->sup != k->sup) e->sup = MULTI; }
  ranges(e); g_cons.emplace(h, e); return e;
}
Expr *mkConst(u128 v, int w) { return intern(O_CONST, w, 0, 0, 0, 0, 0, v & maskw(w)); }
Expr *mkSym(u32 idx, int w, u64 lo, u64 hi) { Expr *e = intern(O_SYM, w, 0, 0, 0, idx, 0, 0); e->umin = lo; e->umax = hi; return e; }

Expr *mkDomain(Expr *s, u64 n) { return intern(O_ULE, 1, s, mkConst(n, s->w), 0, 0, 0, 0); }
static double froundmode(double x, u32 m) { switch (m) { case 0: return floor(x); case 1: return ceil(x); case 2: return trunc(x); case 3: return round(x); default: return nearbyint(x); } }
static double libm1(u32 id, double x) { switch (id) { case 0: return sin(x); case 1: return cos(x); case 2: return tan(x); case 3: return asin(x); case 4: return acos(x); case 5: return atan(x); case 6: return exp(x); case 7: return log(x); case 8: return log10(x); case 9: return log2(x); case 10: return cbrt(x); case 11: return sinh(x); case 12: return cosh(x); case 13: return tanh(x); case 14: return exp2(x); } abort(); }
static double libm2(u32 id, double x, double y) { switch (id) { case 0: return atan2(x, y); case 1: return pow(x, y); case 2: return hypot(x, y); case 3: return fmod(x, y); } abort(); }

u128 evalOp(Op op, int w, int kw, u32 aux, Tbl *t, u128 a, u128 b, u128 c) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) : a;
  case O_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case O_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m; case O_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
  case O_ASHR: { i128 x = sx(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx(a, kw) < sx(b, kw); case O_SLE: return sx(a, kw) <= sx(b, kw);
  case O_ITE: return a ? b : c; case O_ZEXT: return a; case O_SEXT: return (u128)sx(a, kw) & m;
  case O_EXTRACT: return (a >> aux) & m; case O_CONCAT: abort();
  case O_TABLE: return (size_t)a < t->v.size() ? t->v[(size_t)a] : 0;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
    if (w == 64) { double x = b2d(a), y = b2d(b), r; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmod(x, y); } return d2b(r); }
    else { float x = b2f(a), y = b2f(b), r; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmodf(x, y); } return f2b(r); }
  case O_FMA: return w == 64 ? (u128)d2b(fma(b2d(a), b2d(b), b2d(c))) : (u128)f2b(fmaf(b2f(a), b2f(b), b2f(c)));
  case O_FSQRT: return w == 64 ? (u128)d2b(sqrt(b2d(a))) : (u128)f2b(sqrtf(b2f(a)));
  case O_FROUND: return w == 64 ? (u128)d2b(froundmode(b2d(a), aux)) : (u128)f2b((float)froundmode(b2f(a), aux));
  case O_FLT: return kw == 64 ? b2d(a) < b2d(b) : b2f(a) < b2f(b);
  case O_FLE: return kw == 64 ? b2d(a) <= b2d(b) : b2f(a) <= b2f(b);
  case O_FEQ: return kw == 64 ? b2d(a) == b2d(b) : b2f(a) == b2f(b);
  case O_FUNO: return kw == 64 ? (b2d(a) != b2d(a) || b2d(b) != b2d(b)) : (b2f(a) != b2f(a) || b2f(b) != b2f(b));
  case O_SITOFP: return w == 64 ? (u128)d2b((double)sx(a, kw)) : (u128)f2b((float)sx(a, kw));
  case O_UITOFP: return w == 64 ? (u128)d2b((double)a) : (u128)f2b((float)a);
  case O_FPEXT: return d2b((double)b2f(a)); case O_FPTRUNC: return f2b((float)b2d(a));
  case O_FPTOSI: { double x = kw == 64 ? b2d(a) : (double)b2f(a); if (x != x) return 0; long double hi = ldexpl(1, w - 1); if (x >= hi) return maskw(w - 1); if (x <= -hi) return (u128)1 << (w - 1); return (u128)(i128)x & m; }
  case O_FPTOUI: { double x = kw == 64 ? b2d(a) : (double)b2f(a); if (!(x > 0)) return 0; if (x >= ldexp(1, w)) return m; return (u128)x & m; }
  case O_LIBM1: return w == 64 ? (u128)d2b(libm1(aux, b2d(a))) : (u128)f2b((float)libm1(aux, b2f(a)));
  case O_LIBM2: return w == 64 ? (u128)d2b(libm2(aux, b2d(a), b2d(b))) : (u128)f2b((float)libm2(aux, b2f(a), b2f(b)));
  default: abort();
  }
}
void newEvalGen() { g_gen++; }
static u128 evalRec(Expr *e, const std::vector<u64> &m) {
  if (e->op == O_CONST) return e->c;
  if (e->gen == g_gen) return e->val;
  u128 r;
  if (e->op == O_SYM) r = e->aux < m.size() ? m[e->aux] : 0;
  else if (e->op == O_ITE) r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m);
  else if (e->op == O_CONCAT) r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m);
  else { u128 a = evalRec(e->k[0], m), b = e->k[1] ? evalRec(e->k[1], m) : 0, c = e->k[2] ? evalRec(e->k[2], m) : 0; r = evalOp(e->op, e->w, e->k[0]->w, e->aux, e->t, a, b, c); }
  e->gen = g_gen; e->val = r; return r;
}
u128 evalExpr(Expr *e, const std::vector<u64> &m) { return evalRec(e, m); }

static bool small(Expr *e) { return e->sup && e->sup != MULTI && e->sup->w <= 8; }
static void tabulate(Expr *e, std::vector<u64> &v) {
  static std::vector<u64> m; Expr *s = e->sup; if (m.size() <= s->aux) m.resize(s->aux + 1, 0);
  v.clear(); for (u64 i = 0; i < (1ULL << s->w); i++) { m[s->aux] = i; newEvalGen(); v.push_back((u64)evalExpr(e, m)); }
  newEvalGen();
}
Expr *mk(Op op, int w, Expr *a, Expr *b, Expr *c, u32 aux, Tbl *t) {
  if (op != O_CONCAT && isC(a) && (!b || isC(b)) && (!c || isC(c))) return mkConst(evalOp(op, w, a->w, aux, t, a->c, b ? b->c : 0, c ? c->c : 0), w);
  Expr *e = intern(op, w, a, b, c, aux, t, 0);
  if (e->canon) return e->canon;
  if (w == 1 && e->umin == e->umax) return mkConst(e->umin, 1);
  if (w <= 64 && op != O_TABLE && small(e)) { // expressions of one small symbol become value tables
    bool tabs = true, any = false; for (Expr *k : {a, b, c}) if (k && !isC(k)) { any = true; if (k->op != O_TABLE || k->k[0] != e->sup) tabs = false; }
    if (w == 1 || (tabs && any)) { std::vector<u64> v; tabulate(e, v); e->canon = mkTable(e->sup, v, w); return e->canon; }
  }
  return e;
}
Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == O_XOR && isC(a->k[1])) return a->k[0];
  return mk(O_XOR, 1, a, mkConst(1, 1));
}
static Tbl *internTbl(const std::vector<u64> &v) {
  u64 h = v.size(); for (u64 x : v) h = hmix(h, x);
  auto r = g_tbls.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (it->second->v == v) return it->second;
  Tbl *t = new Tbl{v}; g_tbls.emplace(h, t); return t;
}
Expr *mkTable(Expr *idx, const std::vector<u64> &v, int w) {
  if (isC(idx)) return mkConst((size_t)idx->c < v.size() ? v[(size_t)idx->c] : 0, w);
  if (idx->op != O_SYM && small(idx)) { std::vector<u64> iv; tabulate(idx, iv); for (u64 &x : iv) x = x < v.size() ? v[x] : 0; return mkTable(idx->sup, iv, w); }
  bool same = true; u64 lo = idx->umin, hi = std::min<u64>(idx->umax, v.size() - 1);
  for (u64 i = lo; i <= hi; i++) if (v[i] != v[lo]) { same = false; break; }
  if (same) return mkConst(v[lo], w);
  if (idx->op == O_TABLE) { std::vector<u64> nv; for (u64 x : idx->t->v) nv.push_back(x < v.size() ? v[x] : 0); return mkTable(idx->k[0], nv, w); }
  return mk(O_TABLE, w, idx, 0, 0, 0, internTbl(v));
}
// push unary-with-constants operators through small tables / ites of constants
static bool isFpRes(Expr *e) { return e->sh && !e->sh->negz && e->op != O_TABLE && e->op != O_SYM && e->w == 64; }
// integer view of a float with few possible values: a table of its bit patterns
static Expr *intView(Expr *a) {
  if (!isFpRes(a) || (u64)(a->sh->hi - a->sh->lo) >= 512) return a;
  Shadow &s = *a->sh; int w = std::max<int>(s.n->w + 1, 2); Expr *idx = mkBin(O_SUB, w, mkSext(s.n, w), mkConst((u128)(i128)s.lo, w));
  std::vector<u64> v; for (i64 x = s.lo; x <= s.hi; x++) v.push_back(d2b(ldexp((double)x, s.e)));
  return mkTable(idx, v, 64);
}
// equality of a float's bits with a constant, through the exact integer shadow
static Expr *shEqConst(Expr *a, u128 c) {
  double d = b2d((u64)c); Shadow &s = *a->sh; if (!std::isfinite(d) || (d == 0 && std::signbit(d))) return mkConst(0, 1);
  double n = ldexp(d, -s.e); if (ldexp(n, s.e) != d || n != floor(n) || n < (double)s.lo || n > (double)s.hi) return mkConst(0, 1);
  return mkEq(s.n, mkConst((u128)(i128)(i64)n, s.n->w));
}
Expr *mkEq(Expr *a, Expr *b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (a->w <= 64 && b->w <= 64) { if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1); }
  if (isC(b) && isFpRes(a)) return shEqConst(a, b->c);
  if (isC(b)) {
    if (a->w == 1) return b->c ? a : mkNot(a);
    if (a->op == O_ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1); return mkEq(a->k[0], mkConst(b->c, a->k[0]->w)); }
    if (a->op == O_SEXT) { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sx(t, a->k[0]->w) & maskw(a->w)) != b->c) return mkConst(0, 1); return mkEq(a->k[0], mkConst(t, a->k[0]->w)); }
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) { bool p = a->k[1]->c == b->c, q = a->k[2]->c == b->c; if (p && q) return mkConst(1, 1); if (!p && !q) return mkConst(0, 1); return p ? a->k[0] : mkNot(a->k[0]); }
    if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == O_ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
    if (a->op == O_XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
    if (a->op == O_TABLE) { std::vector<u64> v; for (u64 x : a->t->v) v.push_back(x == (u64)b->c); return mkTable(a->k[0], v, 1); }
    if (a->op == O_CONCAT) { int lw = a->k[1]->w; return mkBin(O_AND, 1, mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->c, lw))); }
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
  if (a->w == 1) return mkNot(mkBin(O_XOR, 1, a, b));
  if (a->id > b->id) std::swap(a, b);
  return mk(O_EQ, 1, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, 1, c, b) : mkBin(O_AND, 1, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, 1, mkNot(c), a) : mkBin(O_AND, 1, c, a);
  }
  if (c->op == O_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  Expr *e = mk(O_ITE, a->w, c, a, b);
  return e;
}
Expr *mkZext(Expr *a, int w) { if (a->w == w) return a; if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_TABLE && w <= 64) return mkTable(a->k[0], a->t->v, w);
  return mk(O_ZEXT, w, a); }
Expr *mkSext(Expr *a, int w) { if (a->w == w) return a; if (a->op == O_ZEXT && a->w > a->k[0]->w) return mkZext(a->k[0], w); if (a->op == O_SEXT) return mkSext(a->k[0], w);
  if (a->op == O_TABLE && w <= 64) { std::vector<u64> v; for (u64 x : a->t->v) v.push_back((u64)((u128)sx(x, a->w) & maskw(w))); return mkTable(a->k[0], v, w); }
  return mk(O_SEXT, w, a); }
Expr *mkExtract(Expr *a, int lo, int w) {
  if (lo == 0 && a->w == w) return a;
  if (isFpRes(a)) { Expr *t = intView(a); if (t != a) return mkExtract(t, lo, w); }
  if (a->op == O_EXTRACT) return mkExtract(a->k[0], lo + a->aux, w);
  if (a->op == O_ZEXT) { int kw = a->k[0]->w; if (lo >= kw) return mkConst(0, w); if (lo + w <= kw) return mkExtract(a->k[0], lo, w); return mkZext(mkExtract(a->k[0], lo, kw - lo), w); }
  if (a->op == O_SEXT) { int kw = a->k[0]->w; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSext(a->k[0], w); }
  if (a->op == O_CONCAT) { int lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (a->op == O_TABLE && a->w <= 64) { std::vector<u64> v; for (u64 x : a->t->v) v.push_back((u64)(((u128)x >> lo) & maskw(w))); return mkTable(a->k[0], v, w); }
  if (a->op == O_SHL && isC(a->k[1]) && a->k[1]->c < (u128)a->w) { int c = (int)a->k[1]->c; if (lo >= c) return mkExtract(a->k[0], lo - c, w); if (lo + w <= c) return mkConst(0, w); if (lo == 0 && w > c) return mkConcat(mkExtract(a->k[0], 0, w - c), mkConst(0, c)); }
  if (a->op == O_LSHR && isC(a->k[1]) && a->k[1]->c < (u128)a->w) { int c = (int)a->k[1]->c; if (lo + c + w <= a->w) return mkExtract(a->k[0], lo + c, w); }
  if (a->op == O_OR || a->op == O_XOR) { Expr *p = mkExtract(a->k[0], lo, w), *q = mkExtract(a->k[1], lo, w); if (isC(p) || isC(q) || w <= 8) return mkBin(a->op, w, p, q); }
  if (lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL)) {
    if (isC(a->k[0]) || isC(a->k[1]) || a->k[0]->op == O_ZEXT || a->k[0]->op == O_SEXT) return mkBin(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); }
  return mk(O_EXTRACT, w, a, 0, 0, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->aux == lo->w) return mkExtract(hi->k[0], 0, w);
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->k[0]->op == O_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w) return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return mk(O_CONCAT, w, hi, lo);
}
static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR; }
Expr *mkBin(Op op, int w, Expr *a, Expr *b) {
  if (op == O_EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) return mk(op, w, a, b);
  if (commut(op) && isC(a)) std::swap(a, b);
  if (isFpRes(a)) a = intView(a); if (isFpRes(b)) b = intView(b);
  if (isC(a) && isC(b)) return mk(op, w, a, b);
  u128 ones = maskw(a->w);
  switch (op) {
  case O_ADD: if (isC(b) && b->c == 0) return a; if (isC(b) && a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w)); break;
  case O_SUB: if (a == b) return mkConst(0, w); if (isC(b)) return mkBin(O_ADD, w, a, mkConst((u128)0 - b->c, w)); break;
  case O_MUL: if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } break;
  case O_AND: if (a == b) return a; if (isC(b)) { if (b->c == 0) return b; if (b->c == ones) return a; 
      if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
      if (w <= 64) { u64 m = (u64)b->c; if ((m & (m + 1)) == 0 && a->umax <= m) return a; }
      if (w <= 128 && ((b->c & (b->c + 1)) == 0)) { int n = 0; u128 t = b->c; while (t) { n++; t >>= 1; } return mkZext(mkExtract(a, 0, n), w); } }
    if (w == 1 && (a == mkNot(b))) return mkConst(0, 1); break;
  case O_OR: if (a == b) return a; if (isC(b)) { if (b->c == 0) return a; if (b->c == ones) return b; } if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
    if (w > 1 && b->op == O_ZEXT && a->op == O_SHL && isC(a->k[1]) && a->k[1]->c >= (u128)b->k[0]->w && a->k[0]->op == O_ZEXT) { int s = (int)a->k[1]->c; int kw = a->k[0]->k[0]->w; if (s + kw <= w) return mkZext(mkConcat(a->k[0]->k[0], mkZext(b->k[0], s)), w); }
    if (w > 1 && a->op == O_ZEXT && b->op == O_SHL) return mkBin(O_OR, w, b, a);
    break;
  case O_XOR: if (a == b) return mkConst(0, w); if (isC(b) && b->c == 0) return a; if (isC(b) && a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, w, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); break;
  case O_SHL: case O_LSHR: case O_ASHR: if (isC(b) && b->c == 0) return a; if (isC(a) && a->c == 0) return a;
    if (op == O_LSHR && isC(b) && b->c < (u128)w) return mkZext(mkExtract(a, (int)b->c, w - (int)b->c), w);
    if (op == O_ASHR && isC(b) && b->c < (u128)w) return mkSext(mkExtract(a, (int)b->c, w - (int)b->c), w);
    break;
  case O_UDIV: if (isC(b) && b->c == 1) return a; break;
  case O_ULT: if (a == b) return mkConst(0, 1); if (a->w <= 64) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, 1, a->k[0], b->k[0]);
    if (isC(b) && a->op == O_ZEXT && b->c <= maskw(a->k[0]->w)) return mkBin(op, 1, a->k[0], mkConst(b->c, a->k[0]->w));
    if (isC(a) && b->op == O_ZEXT && a->c <= maskw(b->k[0]->w)) return mkBin(op, 1, mkConst(a->c, b->k[0]->w), b->k[0]);
    if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->w)); break;
  case O_ULE: return mkNot(mkBin(O_ULT, 1, b, a));
  case O_SLT: if (a == b) return mkConst(0, 1); if (a->w <= 64) { u64 half = 1ULL << (a->w - 1); if (a->umax < half && b->umax < half) return mkBin(O_ULT, 1, a, b); if (a->umax < half && b->umin >= half) return mkConst(0, 1); if (a->umin >= half && b->umax < half) return mkConst(1, 1); }
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, 1, a->k[0], b->k[0]);
    if (isC(b) && a->op == O_SEXT) { int kw = a->k[0]->w; i128 v = sx(b->c, b->w); if (v > sx(maskw(kw - 1), kw)) return mkConst(1, 1); if (v < -(((i128)1) << (kw - 1))) return mkConst(0, 1); return mkBin(op, 1, a->k[0], mkConst((u128)v, kw)); }
    if (isC(a) && b->op == O_SEXT) { int kw = b->k[0]->w; i128 v = sx(a->c, a->w); if (v > sx(maskw(kw - 1), kw)) return mkConst(0, 1); if (v < -(((i128)1) << (kw - 1))) return mkConst(1, 1); return mkBin(op, 1, mkConst((u128)v, kw), b->k[0]); }
    break;
  case O_SLE: return mkNot(mkBin(O_SLT, 1, b, a));
  default: break;
  }
  if (w > 1 && w <= 64 && a->op == O_TABLE && isC(b) && a->w <= 64 && op != O_CONCAT) { std::vector<u64> v; for (u64 x : a->t->v) v.push_back((u64)evalOp(op, w, a->w, 0, 0, x, b->c, 0)); return mkTable(a->k[0], v, w); }
  if (w == 1 && (op == O_ULT || op == O_SLT)) {
    if (a->op == O_TABLE && isC(b)) { std::vector<u64> v; for (u64 x : a->t->v) v.push_back((u64)evalOp(op, 1, a->w, 0, 0, x, b->c, 0)); return mkTable(a->k[0], v, 1); }
    if (b->op == O_TABLE && isC(a)) { std::vector<u64> v; for (u64 x : b->t->v) v.push_back((u64)evalOp(op, 1, a->w, 0, 0, a->c, x, 0)); return mkTable(b->k[0], v, 1); }
  }
  if (commut(op) && !isC(b) && a->id > b->id) std::swap(a, b);
  return mk(op, w, a, b);
}

// ---------------------------------------------------------------- floats
static int bitsFor(i128 lo, i128 hi) { int w = 2; while (!(lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1)))) w++; return w; }
static bool shOf(Expr *a, Shadow &s) {
  if (a->w != 64) return false;
  if (a->sh) { s = *a->sh; return true; }
  if (!isC(a)) return false;
  double d = b2d((u64)a->c); if (!std::isfinite(d)) return false;
  if (d == 0) { s = {mkConst(0, 2), 0, 0, 0, std::signbit(d)}; return true; }
  int e; double m = frexp(d, &e); i64 n = (i64)ldexp(m, 53); e -= 53; while (!(n & 1)) { n >>= 1; e++; }
  if (e > 0 && e < 40 && (n < 0 ? -n : n) < (1LL << 20)) { n <<= e; e = 0; }
  s = {mkConst((u128)n, bitsFor(n, n)), n, n, e, false}; return true;
}
static Expr *fit(Expr *n, i128 lo, i128 hi) { int w = bitsFor(lo, hi); if (n->w == w) return n; return n->w > w ? mkExtract(n, 0, w) : mkSext(n, w); }
static bool alignSh(Shadow &a, Shadow &b) {
  if (a.lo == 0 && a.hi == 0) a.e = b.e; if (b.lo == 0 && b.hi == 0) b.e = a.e;
  if (a.e == b.e) return true;
  Shadow &x = a.e > b.e ? a : b; int d = x.e - std::min(a.e, b.e); if (d > 50) return false;
  i128 lo = (i128)x.lo << d, hi = (i128)x.hi << d; i128 lim = (i128)1 << 58; if (lo < -lim || hi > lim) return false;
  int w = bitsFor(lo, hi); x.n = mkBin(O_SHL, w, mkSext(fit(x.n, x.lo, x.hi), w), mkConst(d, w)); x.lo = (i64)lo; x.hi = (i64)hi; x.e -= d; return true;
}
static void setSh(Expr *e, Expr *n, i128 lo, i128 hi, int ex, bool negz) {
  i128 lim = (i128)1 << 53; if (lo < -lim || hi > lim || ex < -900 || ex > 800) return;
  if (e->op == O_CONST || e->sh) return;
  e->sh = new Shadow{fit(n, lo, hi), (i64)lo, (i64)hi, ex, negz};
}
// finite-domain view: idx expression (unsigned, 0..n-1) and list of f64/f32 bit patterns
static bool finDom(Expr *a, Expr *&idx, std::vector<u64> &vals, size_t limit = 1024) {
  if (isC(a)) { idx = nullptr; vals = {(u64)a->c}; return true; }
  if (a->op == O_TABLE) { if (a->t->v.size() > limit) return false; idx = a->k[0]; vals = a->t->v; return true; }
  if (a->sh && !a->sh->negz && (u64)(a->sh->hi - a->sh->lo) < limit) {
    Shadow &s = *a->sh; int w = std::max<int>(s.n->w + 1, 2); idx = mkBin(O_SUB, w, mkSext(s.n, w), mkConst((u128)(i128)s.lo, w));
    vals.clear(); for (i64 v = s.lo; v <= s.hi; v++) vals.push_back(d2b(ldexp((double)v, s.e))); return true;
  }
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) { idx = a->k[0]; vals = {(u64)a->k[2]->c, (u64)a->k[1]->c}; return true; }
  return false;
}
static Expr *finUnary(Op op, int w, int kw, u32 aux, Expr *a) {
  Expr *i; std::vector<u64> v; if (isC(a) || !finDom(a, i, v)) return nullptr;
  for (auto &x : v) x = (u64)evalOp(op, w, kw, aux, 0, x, 0, 0);
  return mkTable(i, v, w);
}
static Expr *finBinary(Op op, int w, int kw, u32 aux, Expr *a, Expr *b) {
  Expr *i, *j; std::vector<u64> u, v; if (!finDom(a, i, u) || !finDom(b, j, v)) return nullptr;
  if (!i && !j) return nullptr;
  if (!j) { for (auto &x : u) x = (u64)evalOp(op, w, kw, aux, 0, x, v[0], 0); return mkTable(i, u, w); }
  if (!i) { for (auto &x : v) x = (u64)evalOp(op, w, kw, aux, 0, u[0], x, 0); return mkTable(j, v, w); }
  if (i == j && u.size() == v.size()) { for (size_t k = 0; k < u.size(); k++) u[k] = (u64)evalOp(op, w, kw, aux, 0, u[k], v[k], 0); return mkTable(i, u, w); }
  if (u.size() * v.size() > TBL_LIMIT) return nullptr;
  std::vector<u64> r; for (u64 x : u) for (u64 y : v) r.push_back((u64)evalOp(op, w, kw, aux, 0, x, y, 0));
  int ww = 2; while (((u64)1 << ww) <= r.size()) ww++;
  Expr *ii = i->w > ww ? mkExtract(i, 0, ww) : mkZext(i, ww), *jj = j->w > ww ? mkExtract(j, 0, ww) : mkZext(j, ww);
  Expr *idx = mkBin(O_ADD, ww, mkBin(O_MUL, ww, ii, mkConst(v.size(), ww)), jj);
  return mkTable(idx, r, w);
}
static bool fpView(Expr *e) { // is best translated through the FP theory
  switch (e->op) { case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FSQRT: case O_FMA: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: case O_FROUND: return true;
  case O_ITE: return fpView(e->k[1]) || fpView(e->k[2]); default: return false; }
}
Expr *mkFNeg(Expr *a) {
  Expr *e = mkBin(O_XOR, a->w, a, mkConst((u128)1 << (a->w - 1), a->w));
  Shadow s; if (!isC(e) && shOf(a, s)) { int w = s.n->w + 1; setSh(e, mkBin(O_SUB, w, mkConst(0, w), mkSext(s.n, w)), -(i128)s.hi, -(i128)s.lo, s.e, s.lo <= 0 && s.hi >= 0); }
  return e;
}
Expr *mkFAbs(Expr *a) {
  if (a->w == 64 && a->sh && a->sh->lo >= 0 && !a->sh->negz) return a;
  Expr *e = mkBin(O_AND, a->w, a, mkConst(((u128)1 << (a->w - 1)) - 1, a->w));
  Shadow s; if (!isC(e) && shOf(a, s)) { int w = s.n->w + 1; Expr *x = mkSext(s.n, w); i128 hi = std::max<i128>(s.hi, -(i128)s.lo); i128 lo = s.lo > 0 ? s.lo : s.hi < 0 ? -(i128)s.hi : 0; setSh(e, mkIte(mkBin(O_SLT, 1, x, mkConst(0, w)), mkBin(O_SUB, w, mkConst(0, w), x), x), lo, hi, s.e, false); }
  return e;
}
static bool fits32(Expr *a);
Expr *mkFBin(Op op, int w, Expr *a, Expr *b) {
  if (isC(a) && isC(b)) return mk(op, w, a, b);
  if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);  // commutative (NaN payloads are not modelled)
  if (op == O_FMUL && isC(b) && w == 64 && b2d(b->c) == 1.0) return a;
  if (op == O_FMUL && isC(a) && w == 64 && b2d(a->c) == 1.0) return b;
  if (w == 32 && op != O_FREM && (a->op == O_FPTRUNC || isC(a)) && (b->op == O_FPTRUNC || isC(b))) { // + - * / in double and rounded once more is exact
    Expr *e = mkFBin(op, 64, mkFpExt(a), mkFpExt(b)); if (isC(e) || fits32(e)) return mkFpTrunc(e);
  }
  if (op == O_FDIV && isC(b) && w == 64) { double d = b2d((u64)b->c); int ex; if (std::isfinite(d) && d != 0 && fabs(frexp(d, &ex)) == 0.5 && abs(ex) < 1000) return mkFBin(O_FMUL, w, a, mkConst(d2b(1 / d), 64)); }
  Shadow s, t; bool have = w == 64 && shOf(a, s) && shOf(b, t);
  if (have && op != O_FDIV && op != O_FREM) {
    Expr *e = nullptr;
    if (op == O_FADD || op == O_FSUB) {
      if (alignSh(s, t)) {
        i128 lo = op == O_FADD ? (i128)s.lo + t.lo : (i128)s.lo - t.hi, hi = op == O_FADD ? (i128)s.hi + t.hi : (i128)s.hi - t.lo;
        int bw = std::max({bitsFor(lo, hi), (int)s.n->w, (int)t.n->w});
        e = mk(op, w, a, b); setSh(e, mkBin(op == O_FADD ? O_ADD : O_SUB, bw, mkSext(s.n, bw), mkSext(t.n, bw)), lo, hi, s.e, op == O_FADD ? (s.negz && t.negz) : s.negz);
      }
    } else if (op == O_FMUL) {
      i128 c[4] = {(i128)s.lo * t.lo, (i128)s.lo * t.hi, (i128)s.hi * t.lo, (i128)s.hi * t.hi};
      i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
      if (a == b) { lo = std::max<i128>(lo, 0); if (s.lo > 0 || s.hi < 0) lo = std::min((i128)s.lo * s.lo, (i128)s.hi * s.hi); }
      if (lo > -((i128)1 << 53) && hi < ((i128)1 << 53)) {
        int bw = std::max({bitsFor(lo, hi), (int)s.n->w, (int)t.n->w});
        bool zero = (s.lo <= 0 && s.hi >= 0) || (t.lo <= 0 && t.hi >= 0), neg = s.lo < 0 || t.lo < 0 || s.negz || t.negz;
        e = mk(op, w, a, b); Expr *prod = nullptr;
        if (a == b && s.n->w <= 7 && s.lo != s.hi) { std::vector<u64> tv((size_t)1 << s.n->w, 0); for (i64 x = s.lo; x <= s.hi; x++) tv[(u64)x & (u64)maskw(s.n->w)] = (u64)(x * x); prod = mkTable(s.n, tv, bw); }
        setSh(e, prod ? prod : mkBin(O_MUL, bw, mkSext(s.n, bw), mkSext(t.n, bw)), lo, hi, s.e + t.e, a == b ? false : (zero && neg));
      }
    }
    if (e && (isC(e) || e->sh)) return e;
  }
  if (op == O_FDIV && have && t.lo == t.hi && t.lo != 0) { // division by a power of two
    i64 d = t.lo < 0 ? -t.lo : t.lo; if ((d & (d - 1)) == 0) { int l = __builtin_ctzll(d); double inv = ldexp(t.lo < 0 ? -1.0 : 1.0, -(l + t.e)); return mkFBin(O_FMUL, w, a, mkConst(d2b(inv), 64)); }
  }
  if (Expr *r = finBinary(op, w, w, 0, a, b)) return r;
  return mk(op, w, a, b);
}
Expr *mkFUn(Op op, int w, Expr *a, u32 aux) {
  if (isC(a)) return mk(op, w, a, 0, 0, aux);
  if (op == O_FROUND && a->sh && a->sh->e >= 0) return a;
  if (Expr *r = finUnary(op, w, a->w, aux, a)) return r;
  return mk(op, w, a, 0, 0, aux);
}
static Expr *fnanBV(Expr *a) { int w = a->w; u128 inf = w == 64 ? (u128)0x7ff0000000000000ULL : 0x7f800000; return mkBin(O_ULT, 1, mkConst(inf, w), mkBin(O_AND, w, a, mkConst(((u128)1 << (w - 1)) - 1, w))); }
// total-order key for non-NaN values with -0 == +0
Expr *mkFCmp(Op op, Expr *a, Expr *b) {
  if (isC(a) && isC(b)) return mk(op, 1, a, b);
  if (a->w == 32 && (a->op == O_FPTRUNC || isC(a)) && (b->op == O_FPTRUNC || isC(b))) { Expr *x = mkFpExt(a), *y = mkFpExt(b); if ((isC(x) || x->sh) && (isC(y) || y->sh)) return mkFCmp(op, x, y); }
  Shadow s, t; 
  if (a->w == 64 && shOf(a, s) && shOf(b, t)) {
    if (op == O_FUNO) return mkConst(0, 1);
    if (alignSh(s, t)) { int w = std::max(s.n->w, t.n->w); Expr *x = mkSext(s.n, w), *y = mkSext(t.n, w);
      if (s.hi < t.lo) return mkConst(op != O_FEQ, 1); if (s.lo > t.hi) return mkConst(0, 1);
      return op == O_FEQ ? mkEq(x, y) : op == O_FLT ? mkBin(O_SLT, 1, x, y) : mkBin(O_SLE, 1, x, y); }
  }
  { // comparisons of merged values: decide per alternative, so that exact values stay in integer logic
    auto leaves = [](Expr *e) { int n = 0; std::function<void(Expr *)> f = [&](Expr *x) { if (n > 32) return; if (x->op == O_ITE && !x->sh) { f(x->k[1]); f(x->k[2]); } else n++; }; f(e); return n; };
    int la = leaves(a), lb = leaves(b);
    if (la * lb > 1 && la * lb <= 32) {
      if (la > 1) return mkIte(a->k[0], mkFCmp(op, a->k[1], b), mkFCmp(op, a->k[2], b));
      return mkIte(b->k[0], mkFCmp(op, a, b->k[1]), mkFCmp(op, a, b->k[2]));
    }
  }
  if (a->w == 64 && (isC(a) || isC(b))) { // constant (infinite, NaN or of another scale) against an exact value
    Expr *x = isC(a) ? b : a; double c = b2d((u64)(isC(a) ? a : b)->c); Shadow h;
    if (!isC(x) && shOf(x, h)) {
      if (op == O_FUNO) return mkConst(c != c, 1);
      if (c != c) return mkConst(0, 1);
      if (std::isinf(c)) { if (op == O_FEQ) return mkConst(0, 1); return mkConst((c > 0) != isC(a), 1); }
      long double q = ldexpl((long double)c, -h.e);
      if (fabsl(q) < 1e17L) { // c is never NaN here; n op q with integer n
        long double fl = floorl(q), ce = ceill(q); int w = std::max<int>(h.n->w + 1, 60);
        Expr *n = mkSext(h.n, w); auto K = [&](long double z) { return mkConst((u128)(i128)z, w); };
        if (op == O_FEQ) return fl == ce ? mkEq(n, K(fl)) : mkConst(0, 1);
        if (isC(a)) return op == O_FLT ? mkBin(O_SLT, 1, K(fl), n) : mkBin(O_SLE, 1, K(ce), n);
        return op == O_FLT ? mkBin(O_SLT, 1, n, K(ce)) : mkBin(O_SLE, 1, n, K(fl));
      }
    }
  }
  { Expr *i, *j; std::vector<u64> u, v;
    if (finDom(a, i, u, 4096) && finDom(b, j, v, 4096)) {
      if (!j || !i || i == j) { if (Expr *r = finBinary(op, 1, a->w, 0, a, b)) return r; }
      else { // rank transform
        auto val = [&](u64 x) { return a->w == 64 ? b2d(x) : (double)b2f((u32)x); };
        std::vector<double> all; bool nan = false; for (u64 x : u) if (val(x) == val(x)) all.push_back(val(x)); else nan = true; for (u64 x : v) if (val(x) == val(x)) all.push_back(val(x)); else nan = true;
        std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
        auto rk = [&](u64 x) -> u64 { double d = val(x); if (d != d) return 0; return std::lower_bound(all.begin(), all.end(), d) - all.begin(); };
        int w = 2; while (((u64)1 << w) <= all.size()) w++;
        std::vector<u64> ru, rv, nu, nv; for (u64 x : u) { ru.push_back(rk(x)); nu.push_back(val(x) != val(x)); } for (u64 x : v) { rv.push_back(rk(x)); nv.push_back(val(x) != val(x)); }
        Expr *x = mkTable(i, ru, w), *y = mkTable(j, rv, w), *n = nan ? mkBin(O_OR, 1, mkTable(i, nu, 1), mkTable(j, nv, 1)) : mkConst(0, 1);
        if (op == O_FUNO) return n;
        Expr *r = op == O_FEQ ? mkEq(x, y) : op == O_FLT ? mkBin(O_ULT, 1, x, y) : mkBin(O_ULE, 1, x, y);
        return mkBin(O_AND, 1, r, mkNot(n));
      } } }
  if (op == O_FUNO && !fpView(a) && !fpView(b)) { Expr *r = isC(a) ? mkConst(0, 1) : fnanBV(a); if (isC(a) && evalOp(O_FUNO, 1, a->w, 0, 0, a->c, a->c, 0)) return mkConst(1, 1); if (isC(b)) { if (evalOp(O_FUNO, 1, a->w, 0, 0, b->c, b->c, 0)) return mkConst(1, 1); return r; } if (a == b) return r; return mkBin(O_OR, 1, r, fnanBV(b)); }
  if (a == b && op == O_FLT) return mkConst(0, 1);
  if (a == b && (op == O_FLE || op == O_FEQ)) return mkNot(mkFCmp(O_FUNO, a, a));
  return mk(op, 1, a, b);
}
Expr *mkDyadic(Expr *n, i64 lo, i64 hi, int e) {
  Expr *f = mk(O_SITOFP, 64, mkSext(n, 64)); if (!f->sh && !isC(f)) f->sh = new Shadow{fit(n, lo, hi), lo, hi, 0, false};
  if (e == 0) return f; return mkFBin(O_FMUL, 64, f, mkConst(d2b(ldexp(1.0, e)), 64));
}
Expr *mkSiToFp(Expr *a, int w, bool sgn) {
  if (isC(a)) return mk(sgn ? O_SITOFP : O_UITOFP, w, a);
  if (a->op == O_TABLE) return finUnary(sgn ? O_SITOFP : O_UITOFP, w, a->w, 0, a);
  if (w == 64) {
    Expr *x = a; bool s2 = sgn; while (x->op == O_ZEXT) { x = x->k[0]; s2 = false; } while (s2 && x->op == O_SEXT) x = x->k[0];
    i128 lo, hi; if (s2) { lo = -((i128)1 << (x->w - 1)); hi = ((i128)1 << (x->w - 1)) - 1; if (x->w <= 64 && x->umax <= (u64)hi) { lo = x->umin; hi = x->umax; } } else { lo = x->w <= 64 ? x->umin : 0; hi = x->w <= 64 ? (i128)x->umax : (i128)1 << 100; }
    Expr *e = mk(sgn ? O_SITOFP : O_UITOFP, w, a);
    if (lo >= -((i128)1 << 53) && hi <= ((i128)1 << 53)) { Expr *n = s2 ? x : mkZext(x, x->w + 1); setSh(e, n, lo, hi, 0, false); }
    return e;
  }
  return mk(sgn ? O_SITOFP : O_UITOFP, w, a);
}
Expr *mkFpToI(Expr *a, int w, bool sgn) {
  Op op = sgn ? O_FPTOSI : O_FPTOUI;
  if (isC(a)) return mk(op, w, a);
  if (a->sh && a->sh->e >= 0 && a->sh->e < 8 && (sgn || a->sh->lo >= 0)) { Shadow s = *a->sh; Expr *n = fit(s.n, s.lo, s.hi); if (n->w + s.e < w) return mkBin(O_SHL, w, mkSext(n, w), mkConst(s.e, w)); }
  if (Expr *r = finUnary(op, w, a->w, 0, a)) return r;
  return mk(op, w, a);
}
static bool fits32(Expr *a) { if (!a->sh || a->w != 64) return false; Shadow &s = *a->sh; return s.lo > -(1 << 24) && s.hi < (1 << 24) && s.e > -100 && s.e < 100; } // exactly a single
Expr *mkFpExt(Expr *a) { if (isC(a)) return mk(O_FPEXT, 64, a); if (a->op == O_FPTRUNC && fits32(a->k[0])) return a->k[0]; if (Expr *r = finUnary(O_FPEXT, 64, 32, 0, a)) return r; return mk(O_FPEXT, 64, a); }
Expr *mkFpTrunc(Expr *a) { if (isC(a)) return mk(O_FPTRUNC, 32, a); if (a->op == O_FPEXT) return a->k[0]; if (fits32(a)) return mk(O_FPTRUNC, 32, a); if (Expr *r = finUnary(O_FPTRUNC, 32, 64, 0, a)) return r; return mk(O_FPTRUNC, 32, a); }

// ---------------------------------------------------------------- z3
static Z3_sort S_bv(int w) { return Z3_mk_bv_sort(Z, w); }
static Z3_sort S_fp(int w) { static Z3_sort d = Z3_mk_fpa_sort_double(Z), f = Z3_mk_fpa_sort_single(Z); return w == 64 ? d : f; }
static Z3_ast RNE() { static Z3_ast r = Z3_mk_fpa_rne(Z); return r; }
static Z3_ast zFP(Expr *e);
static Z3_ast zconst(u128 v, int w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, S_bv(w));
  Z3_ast lo = Z3_mk_unsigned_int64(Z, (u64)v, S_bv(64)), hi = Z3_mk_unsigned_int64(Z, (u64)(v >> 64), S_bv(w - 64)); return Z3_mk_concat(Z, hi, lo);
}
static Z3_ast tblTree(Z3_ast idx, int iw, const std::vector<std::pair<u64, u64>> &runs, size_t lo, size_t hi, int w) { // runs: (start,value)
  if (hi - lo == 1) return w == 1 ? (runs[lo].second ? Z3_mk_true(Z) : Z3_mk_false(Z)) : zconst(runs[lo].second, w);
  size_t mid = (lo + hi) / 2;
  Z3_ast c = Z3_mk_bvult(Z, idx, zconst(runs[mid].first, iw));
  return Z3_mk_ite(Z, c, tblTree(idx, iw, runs, lo, mid, w), tblTree(idx, iw, runs, mid, hi, w));
}
static Z3_ast zTable(Expr *e) {
  std::vector<std::pair<u64, u64>> runs; auto &v = e->t->v; u64 lo = e->k[0]->umin, hi = std::min<u64>(e->k[0]->umax, v.size() - 1);
  for (u64 i = lo; i <= hi; i++) if (runs.empty() || runs.back().second != v[i]) runs.push_back({i, v[i]});
  return tblTree(zBV(e->k[0]), e->k[0]->w, runs, 0, runs.size(), e->w);
}
Z3_ast zBool(Expr *e) {
  if (e->w != 1) abort();
  if (e->zbool) return e->zbool;
  Z3_ast r; Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case O_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case O_EQ: r = Z3_mk_eq(Z, zBV(a), zBV(b)); break;
  case O_ULT: r = Z3_mk_bvult(Z, zBV(a), zBV(b)); break;
  case O_ULE: r = Z3_mk_bvule(Z, zBV(a), zBV(b)); break;
  case O_SLT: r = Z3_mk_bvslt(Z, zBV(a), zBV(b)); break;
  case O_SLE: r = Z3_mk_bvsle(Z, zBV(a), zBV(b)); break;
  case O_AND: { Z3_ast x[2] = {zBool(a), zBool(b)}; r = Z3_mk_and(Z, 2, x); break; }
  case O_OR: { Z3_ast x[2] = {zBool(a), zBool(b)}; r = Z3_mk_or(Z, 2, x); break; }
  case O_XOR: if (isC(b)) r = b->c ? Z3_mk_not(Z, zBool(a)) : zBool(a); else r = Z3_mk_xor(Z, zBool(a), zBool(b)); break;
  case O_ITE: r = Z3_mk_ite(Z, zBool(a), zBool(b), zBool(e->k[2])); break;
  case O_TABLE: r = zTable(e); break;
  case O_FLT: case O_FLE: case O_FEQ: case O_FUNO:
    if (!fpView(a) && !fpView(b)) {
      int w = a->w; u128 inf = w == 64 ? (u128)0x7ff0000000000000ULL : 0x7f800000, mm = ((u128)1 << (w - 1)) - 1;
      Z3_ast x = zBV(a), y = zBV(b), M = zconst(mm, w), I = zconst(inf, w), z0 = zconst(0, w);
      Z3_ast ax = Z3_mk_bvand(Z, x, M), ay = Z3_mk_bvand(Z, y, M);
      Z3_ast nn[2] = {Z3_mk_bvule(Z, ax, I), Z3_mk_bvule(Z, ay, I)}; Z3_ast ord = Z3_mk_and(Z, 2, nn);
      if (e->op == O_FUNO) { r = Z3_mk_not(Z, ord); break; }
      Z3_ast zz[2] = {Z3_mk_eq(Z, ax, z0), Z3_mk_eq(Z, ay, z0)}; Z3_ast bothz = Z3_mk_and(Z, 2, zz);
      Z3_ast core;
      if (e->op == O_FEQ) { Z3_ast o[2] = {bothz, Z3_mk_eq(Z, x, y)}; core = Z3_mk_or(Z, 2, o); }
      else {
        Z3_ast sxn = Z3_mk_bvslt(Z, x, z0), syn = Z3_mk_bvslt(Z, y, z0);
        bool le = e->op == O_FLE;
        Z3_ast pos = le ? Z3_mk_bvule(Z, x, y) : Z3_mk_bvult(Z, x, y), neg = le ? Z3_mk_bvule(Z, y, x) : Z3_mk_bvult(Z, y, x);
        Z3_ast cmp = Z3_mk_ite(Z, sxn, Z3_mk_ite(Z, syn, neg, Z3_mk_true(Z)), Z3_mk_ite(Z, syn, Z3_mk_false(Z), pos));
        core = Z3_mk_ite(Z, bothz, le ? Z3_mk_true(Z) : Z3_mk_false(Z), cmp);
      }
      Z3_ast an[2] = {ord, core}; r = Z3_mk_and(Z, 2, an);
    } else {
      e->hasfp = true; Z3_ast x = zFP(a), y = zFP(b);
      if (e->op == O_FLT) r = Z3_mk_fpa_lt(Z, x, y); else if (e->op == O_FLE) r = Z3_mk_fpa_leq(Z, x, y); else if (e->op == O_FEQ) r = Z3_mk_fpa_eq(Z, x, y);
      else { Z3_ast o[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)}; r = Z3_mk_or(Z, 2, o); }
    } break;
  default: r = Z3_mk_eq(Z, zBV(e), zconst(1, 1)); break;
  }
  for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->hasfp) e->hasfp = true;
  return e->zbool = r;
}
static Z3_ast zFP(Expr *e) {
  if (e->zfp) return e->zfp;
  Z3_ast r; Expr *a = e->k[0], *b = e->k[1]; int w = e->w;
  if (e->sh && !e->sh->negz && w == 64) {
    Shadow &s = *e->sh; Z3_ast i = Z3_mk_fpa_to_fp_signed(Z, RNE(), zBV(s.n), S_fp(64));
    r = s.e == 0 ? i : Z3_mk_fpa_mul(Z, RNE(), i, Z3_mk_fpa_numeral_double(Z, ldexp(1.0, s.e), S_fp(64)));
    return e->zfp = r;
  }
  switch (e->op) {
  case O_FADD: r = Z3_mk_fpa_add(Z, RNE(), zFP(a), zFP(b)); break; case O_FSUB: r = Z3_mk_fpa_sub(Z, RNE(), zFP(a), zFP(b)); break;
  case O_FMUL: r = Z3_mk_fpa_mul(Z, RNE(), zFP(a), zFP(b)); break; case O_FDIV: r = Z3_mk_fpa_div(Z, RNE(), zFP(a), zFP(b)); break;
  case O_FMA: r = Z3_mk_fpa_fma(Z, RNE(), zFP(a), zFP(b), zFP(e->k[2])); break;
  case O_FSQRT: r = Z3_mk_fpa_sqrt(Z, RNE(), zFP(a)); break;
  case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(Z, RNE(), zBV(a), S_fp(w)); break; case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(Z, RNE(), zBV(a), S_fp(w)); break;
  case O_FPEXT: r = Z3_mk_fpa_to_fp_float(Z, RNE(), zFP(a), S_fp(64)); break; case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(Z, RNE(), zFP(a), S_fp(32)); break;
  case O_FROUND: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(Z) : e->aux == 1 ? Z3_mk_fpa_rtp(Z) : e->aux == 2 ? Z3_mk_fpa_rtz(Z) : e->aux == 3 ? Z3_mk_fpa_rna(Z) : Z3_mk_fpa_rne(Z); r = Z3_mk_fpa_round_to_integral(Z, m, zFP(a)); break; }
  case O_ITE: r = fpView(e) ? Z3_mk_ite(Z, zBool(a), zFP(b), zFP(e->k[2])) : Z3_mk_fpa_to_fp_bv(Z, zBV(e), S_fp(w)); break;
  case O_FREM: case O_LIBM1: case O_LIBM2: throw Unsupported{"z3 translation of libm/frem on symbolic value"};
  default: r = Z3_mk_fpa_to_fp_bv(Z, zBV(e), S_fp(w)); break;
  }
  return e->zfp = r;
}
Z3_ast zBV(Expr *e) {
  if (e->zbv) return e->zbv;
  Z3_ast r; Expr *a = e->k[0], *b = e->k[1]; int w = e->w;
  switch (e->op) {
  case O_CONST: r = zconst(e->c, w); break;
  case O_SYM: { char nm[32]; snprintf(nm, 32, "s%u", e->aux); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), S_bv(w)); break; }
  case O_ADD: r = Z3_mk_bvadd(Z, zBV(a), zBV(b)); break; case O_SUB: r = Z3_mk_bvsub(Z, zBV(a), zBV(b)); break; case O_MUL: r = Z3_mk_bvmul(Z, zBV(a), zBV(b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(Z, zBV(a), zBV(b)); break; case O_SDIV: r = Z3_mk_bvsdiv(Z, zBV(a), zBV(b)); break;
  case O_UREM: r = Z3_mk_bvurem(Z, zBV(a), zBV(b)); break; case O_SREM: r = Z3_mk_bvsrem(Z, zBV(a), zBV(b)); break;
  case O_SHL: r = Z3_mk_bvshl(Z, zBV(a), zBV(b)); break; case O_LSHR: r = Z3_mk_bvlshr(Z, zBV(a), zBV(b)); break; case O_ASHR: r = Z3_mk_bvashr(Z, zBV(a), zBV(b)); break;
  case O_AND: if (w == 1) goto viaBool; r = Z3_mk_bvand(Z, zBV(a), zBV(b)); break; case O_OR: if (w == 1) goto viaBool; r = Z3_mk_bvor(Z, zBV(a), zBV(b)); break;
  case O_XOR: if (w == 1) goto viaBool; r = Z3_mk_bvxor(Z, zBV(a), zBV(b)); break;
  case O_ITE: if (w == 1) goto viaBool; r = Z3_mk_ite(Z, zBool(a), zBV(b), zBV(e->k[2])); break;
  case O_ZEXT: if (a->w == 1) r = Z3_mk_ite(Z, zBool(a), zconst(1, w), zconst(0, w)); else r = Z3_mk_zero_ext(Z, w - a->w, zBV(a)); break;
  case O_SEXT: if (a->w == 1) r = Z3_mk_ite(Z, zBool(a), zconst(maskw(w), w), zconst(0, w)); else r = Z3_mk_sign_ext(Z, w - a->w, zBV(a)); break;
  case O_EXTRACT: r = Z3_mk_extract(Z, e->aux + w - 1, e->aux, zBV(a)); break;
  case O_CONCAT: r = Z3_mk_concat(Z, zBV(a), zBV(b)); break;
  case O_TABLE: if (w == 1) goto viaBool; r = zTable(e); break;
  case O_FPTOSI: { e->hasfp = true; Z3_ast x = zFP(a); Z3_ast cv = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), x, w); Z3_ast hi = Z3_mk_fpa_numeral_double(Z, ldexp(1.0, w - 1), S_fp(64)); Z3_ast xd = a->w == 64 ? x : Z3_mk_fpa_to_fp_float(Z, RNE(), x, S_fp(64));
    r = Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, x), zconst(0, w), Z3_mk_ite(Z, Z3_mk_fpa_geq(Z, xd, hi), zconst(maskw(w - 1), w), Z3_mk_ite(Z, Z3_mk_fpa_leq(Z, xd, Z3_mk_fpa_neg(Z, hi)), zconst((u128)1 << (w - 1), w), cv))); break; }
  case O_FPTOUI: { e->hasfp = true; Z3_ast x = zFP(a); Z3_ast cv = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), x, w); Z3_ast hi = Z3_mk_fpa_numeral_double(Z, ldexp(1.0, w), S_fp(64)); Z3_ast xd = a->w == 64 ? x : Z3_mk_fpa_to_fp_float(Z, RNE(), x, S_fp(64));
    r = Z3_mk_ite(Z, Z3_mk_not(Z, Z3_mk_fpa_gt(Z, xd, Z3_mk_fpa_numeral_double(Z, 0.0, S_fp(64)))), zconst(0, w), Z3_mk_ite(Z, Z3_mk_fpa_geq(Z, xd, hi), zconst(maskw(w), w), cv)); break; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FSQRT: case O_FMA: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: case O_FROUND:
    { e->hasfp = true; Z3_ast x = zFP(e); r = Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, x), zconst(w == 64 ? (u128)0x7ff8000000000000ULL : 0x7fc00000, w), Z3_mk_fpa_to_ieee_bv(Z, x)); break; }
  case O_LIBM1: case O_LIBM2: throw Unsupported{"z3 translation of libm on symbolic value"};
  default: viaBool: r = Z3_mk_ite(Z, zBool(e), zconst(1, 1), zconst(0, 1)); break;
  }
  for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->hasfp) e->hasfp = true;
  return e->zbv = r;
}
