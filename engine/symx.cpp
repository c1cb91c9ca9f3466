// symx: path-forking symbolic executor for LLVM IR (rustc's LLVM, read through the LLVM-C API).
// Control flow forks with fork(2); values are concrete or expr.h DAGs; z3 decides feasibility
// of every symbolic branch, every vp_check and every symbolic address.
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/BitWriter.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <llvm-c/Error.h>
#include <llvm-c/DebugInfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <unordered_set>
#include <set>

using std::string; using std::vector;
extern "C" { const char *LLVMGetRawDataValues(LLVMValueRef, size_t *); LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned); LLVMValueRef LLVMIsACondBrInst(LLVMValueRef); LLVMValueRef LLVMIsAUncondBrInst(LLVMValueRef); }

// ------------------------------------------------------------------ shared state
struct Shared {
  sem_t tokens;
  volatile u64 paths, oks, infeasible, forks, queries, qsat, qunsat, qunknown, fallbacks, instrs, checks, checksym, violations, errors, solver_ns, samples, maxdepth, allocs;
  volatile u32 stop; // 1 = stop requested
  volatile u64 covers[256];
  volatile u8 fnhit[1];
};
static Shared *SH; static size_t SHsz;
static string g_out; static int g_outfd = -1;
static double g_deadline; static u64 g_maxsamples = 400; static u64 g_maxviol = 5; static u32 g_qtimeout = 60000;
static int g_trace = 0; static u64 g_instrs = 0, g_pathinstr = 0; static u64 g_maxpathinstr = 30000000ULL;
static u64 g_allocmax = 1ULL << 31;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define INC(f) __sync_fetch_and_add(&SH->f, 1)
#define ADDN(f, n) __sync_fetch_and_add(&SH->f, n)

// ------------------------------------------------------------------ values, memory
struct Val { u64 lo, hi; Expr *e; };
static inline Val C(u64 v) { return Val{v, 0, nullptr}; }
static inline Val C128(u128 v) { return Val{(u64)v, (u64)(v >> 64), nullptr}; }
static inline u128 cv(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static inline Val fromE(Expr *e) { if (isC(e)) return C128(e->c); return Val{0, 0, e}; }
static inline Expr *toE(const Val &v, int w) { return v.e ? v.e : mkConst(cv(v), w); }

struct SymB { Expr *e; u32 idx; };
struct Obj { u32 size; u8 *d; SymB *s; u8 kind; u8 live; u8 isconst; u32 cap; LLVMValueRef g; };
enum { K_NONE, K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
static vector<Obj> objs(1);
static vector<u32> freeStack;
static const u64 BASEOFF = 0x10000;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) + BASEOFF; }
static u64 newObj(u64 size, u8 kind, bool zero = false) {
  u32 id;
  if (kind == K_STACK && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
  else { id = objs.size(); objs.push_back(Obj{}); }
  Obj &o = objs[id];
  if (o.cap < size || !o.d) { free(o.d); o.cap = size ? size : 1; o.d = (u8 *)malloc(o.cap); }
  o.size = size; o.kind = kind; o.live = 1; o.isconst = 0; o.s = nullptr; o.g = nullptr;
  memset(o.d, zero ? 0 : 0xA5, size);
  return addrOf(id);
}
static void freeObj(u32 id) { Obj &o = objs[id]; o.live = 0; free(o.s); o.s = nullptr; if (o.kind == K_STACK) freeStack.push_back(id); else { free(o.d); o.d = nullptr; o.cap = 0; } }

// ------------------------------------------------------------------ path state
static vector<Expr *> PC; static vector<u64> model; static vector<u8> symw; // model values by symbol index
struct Input { Val v; int kind; };  // kind 0: raw bits (v) ; the replay stream
static vector<Input> inputs;
static vector<std::pair<Val, int>> observes;
static vector<pid_t> kids;
static bool g_panicok = false; static string g_label; static vector<string> notes;
static u32 depth = 0;

struct PathEnd { string kind, detail; };

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw Unsupported{string("z3 error ") + Z3_get_error_msg(c, e)}; }

static void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); }
// one incremental solver for pure bit-vector path conditions, one for those with IEEE terms
static Z3_solver solvers[3]; static size_t assertedN[3]; static double bvCost = 0; // 0: bit-vectors, small; 1: IEEE terms; 2: bit-vectors, large (SAT based)
static Z3_solver mkOne(const char *lg) {
  Z3_solver s = !strcmp(lg, "simple") ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, lg));
  Z3_solver_inc_ref(Z, s); setTimeout(s, g_qtimeout); return s;
}
static std::unordered_map<Expr *, Z3_ast> lits;
static Z3_ast litOf(Expr *c, Z3_solver s) {
  auto it = lits.find(c); if (it != lits.end()) return it->second;
  if (c->op == O_XOR && c->w == 1 && isC(c->k[1]) && c->k[1]->c) { Z3_ast l = Z3_mk_not(Z, litOf(c->k[0], s)); Z3_inc_ref(Z, l); return lits[c] = l; }
  char nm[32]; snprintf(nm, 32, "q%u", c->id); Z3_ast l = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z));
  Z3_inc_ref(Z, l); Z3_solver_assert(Z, s, Z3_mk_eq(Z, l, zBool(c))); return lits[c] = l;
}
static void assertPC(int k) {
  if (!solvers[k]) { const char *lg = getenv(k == 1 ? "SYMX_FPLOGIC" : k == 2 ? "SYMX_LOGIC2" : "SYMX_LOGIC"); solvers[k] = mkOne(lg ? lg : k == 1 ? "QF_FPBV" : k == 2 ? "QF_BV" : "QF_ABV"); }
  while (assertedN[k] < PC.size()) { Z3_solver_assert(Z, solvers[k], k == 2 && !isC(PC[assertedN[k]]) ? litOf(PC[assertedN[k]], solvers[2]) : zBool(PC[assertedN[k]])); assertedN[k]++; }
}
static unsigned g_qcur = 0; static size_t fpScanned = 0; static bool pcHasFp = false;
static double g_bvswitch = getenv("SYMX_SWITCH") ? atof(getenv("SYMX_SWITCH")) : 0.003;
static int solverFor(Expr *c) { zBool(c); while (fpScanned < PC.size()) { Expr *p = PC[fpScanned++]; zBool(p); pcHasFp |= p->hasfp; } return pcHasFp || c->hasfp ? 1 : bvCost > g_bvswitch ? 2 : 0; }
static void addPC(Expr *c) { if (isC(c)) { if (!c->c) throw PathEnd{"error", "false path constraint"}; return; } PC.push_back(c); }

static void dumpExpr(Expr *e, int d) { fprintf(stderr, "%*sop%d w%d aux%u c=%lx val=%lx\n", d, "", e->op, e->w, e->aux, (unsigned long)e->c, (unsigned long)e->val); if (d < 24) for (int i = 0; i < 3; i++) if (e->k[i]) dumpExpr(e->k[i], d + 2); }
// is PC /\ c satisfiable? on sat fills m.
static bool feasible(Expr *c, vector<u64> &m) {
  if (isC(c)) { if (c->c) m = model; return (bool)c->c; }
  if (now() > g_deadline || SH->stop) throw PathEnd{"stopped", "deadline"};
  double t0 = now(); { double left = (g_deadline - t0) * 1000; unsigned q = left < g_qtimeout ? (unsigned)std::max(1000.0, left) : g_qtimeout; if (q != g_qcur) { g_qcur = q; for (auto s : solvers) if (s) setTimeout(s, q); } }
  int sk = solverFor(c); assertPC(sk); Z3_solver solver = solvers[sk];
  bool asm_ = sk == 2; Z3_ast lit = nullptr;
  if (asm_) { lit = litOf(c, solver); } else { Z3_solver_push(Z, solver); Z3_solver_assert(Z, solver, zBool(c)); }
  if (getenv("SYMX_DUMP")) { char fn[300]; snprintf(fn, 300, "%s/q%d_%lu.smt2", getenv("SYMX_DUMP"), (int)getpid(), (unsigned long)SH->queries); FILE *qf = fopen(fn, "w"); fprintf(qf, "%s(check-sat)\n", Z3_solver_to_string(Z, solver)); fclose(qf); }
  Z3_lbool r = asm_ ? Z3_solver_check_assumptions(Z, solver, 1, &lit) : Z3_solver_check(Z, solver); INC(queries); if (sk == 0) bvCost = bvCost * 0.9 + (now() - t0) * 0.1;
  Z3_solver used = solver; bool fell = false;
  if (r == Z3_L_UNDEF && !SH->stop && now() < g_deadline) { // second opinion from a fresh general solver
    INC(fallbacks); fell = true; used = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, used); setTimeout(used, (unsigned)std::min(2.0 * g_qtimeout, std::max(1000.0, (g_deadline - now()) * 1000)));
    for (Expr *p : PC) Z3_solver_assert(Z, used, zBool(p)); Z3_solver_assert(Z, used, zBool(c)); r = Z3_solver_check(Z, used);
  }
  struct Rel { Z3_solver s; bool f; ~Rel() { if (f) Z3_solver_dec_ref(Z, s); } } rel{used, fell};
  bool res = false;
  if (r == Z3_L_TRUE) {
    INC(qsat); res = true;
    Z3_model zm = Z3_solver_get_model(Z, used); Z3_model_inc_ref(Z, zm);
    m.assign(symw.size(), 0);
    unsigned n = Z3_model_get_num_consts(Z, zm);
    vector<char> seen(symw.size(), 0);
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(Z, zm, i); string nm = Z3_get_symbol_string(Z, Z3_get_decl_name(Z, d));
      if (nm[0] != 's' || nm.size() < 2 || !isdigit(nm[1])) continue; size_t k = atol(nm.c_str() + 1); if (k >= symw.size()) continue;
      Z3_ast v = Z3_model_get_const_interp(Z, zm, d); uint64_t u = 0; if (v && Z3_get_numeral_uint64(Z, v, &u)) { m[k] = u; seen[k] = 1; }
    }
    Z3_model_dec_ref(Z, zm);
    for (size_t k = 0; k < m.size(); k++) if (!seen[k] && k < model.size()) m[k] = model[k]; // unconstrained: keep old
    if (!asm_) Z3_solver_pop(Z, solver, 1);
    newEvalGen(); bool bad = !evalExpr(c, m); for (Expr *p : PC) if (!evalExpr(p, m)) bad = true;
    if (bad) { // symbols absent from the model may be constrained only with them; retry by completing with zero
      for (size_t k = 0; k < m.size(); k++) if (!seen[k]) m[k] = 0;
      newEvalGen(); bad = !evalExpr(c, m); for (Expr *p : PC) if (!evalExpr(p, m)) bad = true;
      if (bad && g_trace) { fprintf(stderr, "model:"); for (u64 x : m) fprintf(stderr, " %lu", x); newEvalGen(); fprintf(stderr, "\nc=%lu\n", (u64)evalExpr(c, m)); dumpExpr(c, 0); }
      if (bad) throw PathEnd{"error", "solver model does not satisfy the path condition when evaluated"};
    }
    newEvalGen();
  } else { if (!asm_) Z3_solver_pop(Z, solver, 1); if (r == Z3_L_FALSE) INC(qunsat); else { INC(qunknown); ADDN(solver_ns, (u64)((now() - t0) * 1e9)); throw PathEnd{"unknown", "solver gave up"}; } }
  ADDN(solver_ns, (u64)((now() - t0) * 1e9));
  if (g_trace > 1) fprintf(stderr, "[q %s %.3fs]\n", res ? "sat" : "unsat", now() - t0);
  return res;
}
static bool evalBool(Expr *c) { newEvalGen(); return evalExpr(c, model) != 0; }

static void reap(bool block) {
  for (size_t i = 0; i < kids.size();) {
    int st; pid_t p = waitpid(kids[i], &st, block ? 0 : WNOHANG);
    if (p == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { INC(errors); fprintf(stderr, "child %d died (status %d)\n", (int)p, st); } kids.erase(kids.begin() + i); }
    else if (p < 0 && errno != EINTR) { kids.erase(kids.begin() + i); }
    else i++;
  }
}
static vector<u64> g_cnt;
// fork: returns true in the child
static bool doFork() {
  INC(forks); depth++;
  reap(false);
  bool par = sem_trywait(&SH->tokens) == 0;
  pid_t p = fork();
  if (p < 0) { usleep(10000); p = fork(); if (p < 0) throw PathEnd{"error", "fork failed"}; }
  if (p == 0) { kids.clear(); g_instrs = 0; if (par) g_label = "P"; else g_label = ""; return true; }
  if (par) kids.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (!WIFEXITED(st) || WEXITSTATUS(st)) { INC(errors); fprintf(stderr, "child %d died (status %d)\n", (int)p, st); } }
  return false;
}
// pending vp_checks: decided together by one query per fork-free stretch
static vector<std::pair<Expr *, string>> pend;
static void violation(const string &id, const string &detail, const vector<u64> &m);
static void flushChecks() {
  if (pend.empty()) return;
  vector<std::pair<Expr *, string>> q; q.swap(pend);
  Expr *all = mkConst(1, 1); for (auto &c : q) all = mkBin(O_AND, 1, all, c.first);
  vector<u64> m2; if (!feasible(mkNot(all), m2)) return;
  for (auto &c : q) { newEvalGen(); if (!evalExpr(c.first, m2)) { violation("check", c.second, m2); break; } }
  vector<u64> m3; if (!feasible(all, m3)) throw PathEnd{"violated", ""}; addPC(all); model = m3;
}
static bool branchOn(Expr *c) {
  if (isC(c)) return (bool)c->c;
  flushChecks();
  bool mv = evalBool(c);
  vector<u64> m2; Expr *other = mv ? mkNot(c) : c;
  if (!feasible(other, m2)) return mv;
  if (doFork()) { addPC(other); model = m2; return !mv; }
  addPC(mv ? c : mkNot(c)); return mv;
}
static u128 concretize(Expr *e) {
  if (!isC(e)) flushChecks();
  for (int n = 0;; n++) {
    if (isC(e)) return e->c;
    newEvalGen(); u128 v = evalExpr(e, model);
    Expr *eq = mkEq(e, mkConst(v, e->w)); vector<u64> m2;
    if (!feasible(mkNot(eq), m2)) return v;
    if (n > 70000) throw PathEnd{"unknown", "too many values while concretizing"};
    if (doFork()) { addPC(mkNot(eq)); model = m2; continue; }
    addPC(eq); return v;
  }
}
static u64 conc(Val &v, int w) { if (v.e) { v = C128(concretize(v.e)); } return v.lo; }

// ------------------------------------------------------------------ reporting
static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string stackStr();
static void record(const string &kind, const string &detail, const vector<u64> &m, bool withObs) {
  newEvalGen(); string s = "{\"kind\":\"" + kind + "\",\"detail\":\"" + jesc(detail) + "\",\"inputs\":[";
  for (size_t i = 0; i < inputs.size(); i++) { u64 v = inputs[i].v.e ? (u64)evalExpr(inputs[i].v.e, m) : inputs[i].v.lo; s += (i ? "," : "") + std::to_string(v); }
  s += "]";
  { s += ",\"obs\":["; bool f = true; for (auto &o : observes) { u64 v = o.first.e ? (u64)evalExpr(o.first.e, m) : o.first.lo; if (o.second == 1) { double d = b2d(v); if (d != d) v = 0x7ff8000000000000ULL; } s += (f ? "" : ",") + std::to_string(v); f = false; } s += "]"; }
  if (!withObs) s += ",\"stack\":\"" + jesc(stackStr()) + "\"";
  s += ",\"depth\":" + std::to_string(depth) + ",\"pc\":" + std::to_string(PC.size()) + ",\"instrs\":" + std::to_string(g_pathinstr) + "}\n";
  if (write(g_outfd, s.data(), s.size()) != (ssize_t)s.size()) INC(errors);
}
static void violation(const string &id, const string &detail, const vector<u64> &m) {
  u64 n = INC(violations); record("violation", id + "|" + detail, m, false); if (n + 1 >= g_maxviol) SH->stop = 2;
}

// ------------------------------------------------------------------ program representation
static LLVMModuleRef M; static LLVMTargetDataRef TD;
struct Lane { int w; u32 off; u8 fp; }; // scalar leaf of a type: width, memory offset, 1 = float, 2 = ptr
struct TyInfo { vector<Lane> l; u64 size; bool bitvec; };
static std::unordered_map<LLVMTypeRef, TyInfo *> tyCache;
static void flat(LLVMTypeRef t, u32 off, vector<Lane> &o) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMIntegerTypeKind: o.push_back({(int)LLVMGetIntTypeWidth(t), off, 0}); break;
  case LLVMFloatTypeKind: o.push_back({32, off, 1}); break;
  case LLVMDoubleTypeKind: o.push_back({64, off, 1}); break;
  case LLVMHalfTypeKind: o.push_back({16, off, 1}); break;
  case LLVMFP128TypeKind: o.push_back({128, off, 1}); break;
  case LLVMPointerTypeKind: o.push_back({64, off, 2}); break;
  case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o); break; }
  case LLVMArrayTypeKind: { u64 n = LLVMGetArrayLength2(t); LLVMTypeRef e = LLVMGetElementType(t); u64 s = LLVMABISizeOfType(TD, e); for (u64 i = 0; i < n; i++) flat(e, off + i * s, o); break; }
  case LLVMVectorTypeKind: { unsigned n = LLVMGetVectorSize(t); LLVMTypeRef e = LLVMGetElementType(t); u64 s = LLVMStoreSizeOfType(TD, e); for (unsigned i = 0; i < n; i++) flat(e, off + i * s, o); break; }
  case LLVMVoidTypeKind: break;
  default: throw Unsupported{"type kind " + std::to_string((int)LLVMGetTypeKind(t))};
  }
}
static TyInfo *ty(LLVMTypeRef t) {
  auto it = tyCache.find(t); if (it != tyCache.end()) return it->second;
  TyInfo *i = new TyInfo(); i->bitvec = false;
  if (LLVMGetTypeKind(t) != LLVMVoidTypeKind) { i->size = LLVMStoreSizeOfType(TD, t); flat(t, 0, i->l); if (LLVMGetTypeKind(t) == LLVMVectorTypeKind && i->l[0].w % 8) i->bitvec = true; } else i->size = 0;
  tyCache[t] = i; return i;
}
struct Fn;
struct Edge { u32 target; vector<int> src; vector<int> dst; vector<int> n; };
struct Ins {
  LLVMOpcode op; int dst; int nd; int w; int sub; // sub: predicate / flags
  vector<int> a; // operand base slots (negative = const pool)
  TyInfo *t, *t2; vector<u64> x; Fn *callee; vector<int> an; LLVMValueRef src; vector<Edge> *edges; vector<std::pair<u128, int>> *cases; int iid;
};
struct Fn { LLVMValueRef f; string name; bool decoded = false, ext = false; int nargs; vector<int> argslot, argn; int nslots = 0; vector<vector<Ins>> bb; u64 addr; int handler = -1; u32 idx; TyInfo *ret; };
static std::unordered_map<LLVMValueRef, Fn *> fnMap; static vector<Fn *> fnByObj; static std::unordered_map<u32, Fn *> objFn;
static vector<Fn *> allFns; static std::unordered_map<LLVMValueRef, u32> fnOrder; static vector<string> fnNames;
static std::unordered_map<LLVMValueRef, u64> globAddr;
static vector<Val> cpool;
static std::map<std::pair<LLVMValueRef, int>, int> cpoolIdx;
static int handlerFor(const string &n);

static Fn *getFn(LLVMValueRef f) {
  auto it = fnMap.find(f); if (it != fnMap.end()) return it->second;
  Fn *x = new Fn(); x->f = f; size_t l; const char *s = LLVMGetValueName2(f, &l); x->name = string(s, l); fnMap[f] = x;
  x->ext = LLVMIsDeclaration(f); x->handler = handlerFor(x->name); x->idx = fnOrder.count(f) ? fnOrder[f] : 0; allFns.push_back(x);
  x->addr = newObj(1, K_FUNC); objFn[(u32)(x->addr >> 32)] = x; return x;
}
static void constVals(LLVMValueRef v, vector<Val> &out);
static void storeVals(u8 *d, TyInfo *t, const vector<Val> &v) { for (size_t i = 0; i < t->l.size(); i++) { u128 x = cv(v[i]); memcpy(d + t->l[i].off, &x, (t->l[i].w + 7) / 8); } }
static void initGlobal(u8 *d, LLVMValueRef c) {
  LLVMTypeRef t = LLVMTypeOf(c);
  if (LLVMIsAConstantAggregateZero(c) || LLVMIsUndef(c) || LLVMIsPoison(c)) return; // zeroed already
  LLVMTypeKind k = LLVMGetTypeKind(t);
  if (LLVMIsAConstantDataArray(c)) { size_t n = 0; const char *p = LLVMGetRawDataValues(c, &n); memcpy(d, p, n); return; }
  if (k == LLVMStructTypeKind) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) initGlobal(d + LLVMOffsetOfElement(TD, t, i), LLVMGetAggregateElement(c, i)); return; }
  if (k == LLVMArrayTypeKind) { u64 n = LLVMGetArrayLength2(t); u64 s = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (u64 i = 0; i < n; i++) initGlobal(d + i * s, LLVMGetAggregateElement(c, i)); return; }
  vector<Val> v; constVals(c, v); storeVals(d, ty(t), v);
}
static u64 globalAddr(LLVMValueRef g) {
  auto it = globAddr.find(g); if (it != globAddr.end()) return it->second;
  if (LLVMIsAFunction(g)) return globAddr[g] = getFn(g)->addr;
  if (LLVMIsAGlobalAlias(g)) { vector<Val> v; constVals(LLVMAliasGetAliasee(g), v); return globAddr[g] = v[0].lo; }
  LLVMTypeRef t = LLVMGlobalGetValueType(g); u64 sz = LLVMABISizeOfType(TD, t);
  u64 a = newObj(sz, K_GLOBAL, true); u32 id = a >> 32; objs[id].isconst = LLVMIsGlobalConstant(g); objs[id].g = g; globAddr[g] = a;
  LLVMValueRef in = LLVMGetInitializer(g); if (in) { vector<u8> tmp(sz + 16, 0); initGlobal(tmp.data(), in); memcpy(objs[id].d, tmp.data(), sz); }
  return a;
}
static i64 gepConst(LLVMValueRef v);
static void constVals(LLVMValueRef v, vector<Val> &out) {
  LLVMTypeRef t = LLVMTypeOf(v); LLVMTypeKind tk = LLVMGetTypeKind(t);
  if (tk == LLVMVectorTypeKind && (LLVMIsAConstantInt(v) || LLVMIsAConstantFP(v))) { // splat
    unsigned n = LLVMGetVectorSize(t); for (unsigned i = 0; i < n; i++) { LLVMValueRef x = LLVMGetAggregateElement(v, i); if (!x || x == v) throw Unsupported{"splat constant"}; constVals(x, out); } return;
  }
  if (LLVMIsAConstantInt(v)) {
    int w = LLVMGetIntTypeWidth(t);
    if (w <= 64) out.push_back(C(LLVMConstIntGetZExtValue(v)));
    else { char *s = LLVMPrintValueToString(v); char *p = strchr(s, ' ') + 1; bool neg = *p == '-'; if (neg) p++; u128 r = 0; while (isdigit(*p)) r = r * 10 + (*p++ - '0'); if (neg) r = (u128)0 - r; LLVMDisposeMessage(s); out.push_back(C128(r & maskw(w))); }
    return;
  }
  if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); 
    if (d != d) { // keep NaN bits through text
      out.push_back(tk == LLVMFloatTypeKind ? C(0x7fc00000) : C(0x7ff8000000000000ULL)); char *s = LLVMPrintValueToString(v); char *p = strstr(s, "0x"); if (p && tk == LLVMDoubleTypeKind) out.back() = C(strtoull(p, 0, 16)); LLVMDisposeMessage(s); return; }
    out.push_back(tk == LLVMFloatTypeKind ? C(f2b((float)d)) : C(d2b(d))); return; }
  if (LLVMIsAGlobalValue(v)) { out.push_back(C(globalAddr(v))); return; }
  if (LLVMIsAConstantPointerNull(v)) { out.push_back(C(0)); return; }
  if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantAggregateZero(v)) { size_t n = ty(t)->l.size(); for (size_t i = 0; i < n; i++) out.push_back(C(0)); return; }
  if (tk == LLVMStructTypeKind || tk == LLVMArrayTypeKind || tk == LLVMVectorTypeKind) {
    unsigned n = tk == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : tk == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
    for (unsigned i = 0; i < n; i++) constVals(LLVMGetAggregateElement(v, i), out); return;
  }
  if (LLVMIsAConstantExpr(v)) {
    LLVMOpcode op = LLVMGetConstOpcode(v); vector<Val> a, b; constVals(LLVMGetOperand(v, 0), a); int w = ty(t)->l[0].w;
    switch (op) {
    case LLVMGetElementPtr: { u64 base = a[0].lo; LLVMTypeRef cur = LLVMGetGEPSourceElementType(v); unsigned n = LLVMGetNumOperands(v);
      for (unsigned i = 1; i < n; i++) { vector<Val> ix; constVals(LLVMGetOperand(v, i), ix); i64 k = (i64)sx(ix[0].lo, ty(LLVMTypeOf(LLVMGetOperand(v, i)))->l[0].w);
        if (i == 1) { base += k * LLVMABISizeOfType(TD, cur); continue; }
        if (LLVMGetTypeKind(cur) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(TD, cur, k); cur = LLVMStructGetTypeAtIndex(cur, k); } else { cur = LLVMGetElementType(cur); base += k * LLVMABISizeOfType(TD, cur); } }
      out.push_back(C(base)); return; }
    case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: case LLVMAddrSpaceCast: out.push_back(C128(cv(a[0]) & maskw(w))); return;
    case LLVMSub: constVals(LLVMGetOperand(v, 1), b); out.push_back(C((a[0].lo - b[0].lo) & (u64)maskw(w))); return;
    case LLVMAdd: constVals(LLVMGetOperand(v, 1), b); out.push_back(C((a[0].lo + b[0].lo) & (u64)maskw(w))); return;
    case LLVMXor: constVals(LLVMGetOperand(v, 1), b); out.push_back(C((a[0].lo ^ b[0].lo) & (u64)maskw(w))); return;
    default: throw Unsupported{"constant expression opcode " + std::to_string(op)};
    }
  }
  char *s = LLVMPrintValueToString(v); string m = s; throw Unsupported{"constant " + m.substr(0, 120)};
}

// ------------------------------------------------------------------ decoding
static std::unordered_map<LLVMValueRef, int> slotOf; static Fn *curDec;
static int operand(LLVMValueRef v) {
  if (LLVMIsConstant(v)) {
    auto key = std::make_pair(v, 0); auto it = cpoolIdx.find(key); if (it != cpoolIdx.end()) return it->second;
    vector<Val> o; constVals(v, o); int base = -(int)cpool.size() - 1; // slot i of const at cpool[~base - ... ] laid out downward
    for (auto &x : o) cpool.push_back(x); if (o.empty()) cpool.push_back(C(0)); cpoolIdx[key] = base; return base;
  }
  auto it = slotOf.find(v); if (it == slotOf.end()) throw Unsupported{"operand without slot"}; return it->second;
}
static int iidCounter = 0;
enum Intr { I_NONE, I_EXPECT, I_NOP, I_MEMCPY, I_MEMSET, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_UMULO, I_SMULO, I_UADDS, I_USUBS, I_SADDS, I_SSUBS, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_BITREV, I_FSHL, I_FSHR, I_FABS, I_SQRT, I_FLOOR, I_CEIL, I_TRUNC, I_ROUND, I_RINT, I_COPYSIGN, I_MINNUM, I_MAXNUM, I_POWI, I_FMA, I_FPTOSI, I_FPTOUI, I_ISFPC, I_TRAP, I_TLS, I_PTRMASK, I_LIBM1, I_LIBM2, I_PMOVMSK, I_REDOR, I_REDADD, I_UCMP, I_SCMP, I_IDENT, I_REDAND, I_REDUMAX, I_LOADREL, I_OBJSIZE, I_FMULADD, I_REDMUL, I_REDXOR, I_ASSUME };
struct IName { const char *n; Intr i; int x; };
static IName inames[] = {
  {"llvm.expect", I_EXPECT, 0}, {"llvm.assume", I_ASSUME, 0}, {"llvm.dbg.", I_NOP, 0}, {"llvm.lifetime", I_NOP, 0}, {"llvm.experimental.noalias", I_NOP, 0}, {"llvm.invariant", I_NOP, 0}, {"llvm.prefetch", I_NOP, 0}, {"llvm.donothing", I_NOP, 0}, {"llvm.fake.use", I_NOP, 0}, {"llvm.sideeffect", I_NOP, 0}, {"llvm.x86.sse2.pause", I_NOP, 0},
  {"llvm.memcpy", I_MEMCPY, 0}, {"llvm.memmove", I_MEMCPY, 0}, {"llvm.memset", I_MEMSET, 0},
  {"llvm.uadd.with.overflow", I_UADDO, 0}, {"llvm.sadd.with.overflow", I_SADDO, 0}, {"llvm.usub.with.overflow", I_USUBO, 0}, {"llvm.ssub.with.overflow", I_SSUBO, 0}, {"llvm.umul.with.overflow", I_UMULO, 0}, {"llvm.smul.with.overflow", I_SMULO, 0},
  {"llvm.uadd.sat", I_UADDS, 0}, {"llvm.usub.sat", I_USUBS, 0}, {"llvm.sadd.sat", I_SADDS, 0}, {"llvm.ssub.sat", I_SSUBS, 0},
  {"llvm.umin", I_UMIN, 0}, {"llvm.umax", I_UMAX, 0}, {"llvm.smin", I_SMIN, 0}, {"llvm.smax", I_SMAX, 0}, {"llvm.abs", I_ABS, 0}, {"llvm.ctpop", I_CTPOP, 0}, {"llvm.ctlz", I_CTLZ, 0}, {"llvm.cttz", I_CTTZ, 0}, {"llvm.bswap", I_BSWAP, 0}, {"llvm.bitreverse", I_BITREV, 0}, {"llvm.fshl", I_FSHL, 0}, {"llvm.fshr", I_FSHR, 0},
  {"llvm.fabs", I_FABS, 0}, {"llvm.sqrt", I_SQRT, 0}, {"llvm.floor", I_FLOOR, 0}, {"llvm.ceil", I_CEIL, 0}, {"llvm.trunc", I_TRUNC, 0}, {"llvm.roundeven", I_RINT, 0}, {"llvm.round", I_ROUND, 0}, {"llvm.rint", I_RINT, 0}, {"llvm.nearbyint", I_RINT, 0}, {"llvm.copysign", I_COPYSIGN, 0}, {"llvm.minnum", I_MINNUM, 0}, {"llvm.maxnum", I_MAXNUM, 0}, {"llvm.minimumnum", I_MINNUM, 0}, {"llvm.maximumnum", I_MAXNUM, 0}, {"llvm.powi", I_POWI, 0}, {"llvm.fmuladd", I_FMULADD, 0}, {"llvm.fma.", I_FMA, 0}, {"llvm.fptosi.sat", I_FPTOSI, 0}, {"llvm.fptoui.sat", I_FPTOUI, 0}, {"llvm.is.fpclass", I_ISFPC, 0},
  {"llvm.trap", I_TRAP, 0}, {"llvm.debugtrap", I_TRAP, 0}, {"llvm.ubsantrap", I_TRAP, 0}, {"llvm.threadlocal.address", I_TLS, 0}, {"llvm.ptrmask", I_PTRMASK, 0},
  {"llvm.sin.", I_LIBM1, 0}, {"llvm.cos.", I_LIBM1, 1}, {"llvm.tan.", I_LIBM1, 2}, {"llvm.asin.", I_LIBM1, 3}, {"llvm.acos.", I_LIBM1, 4}, {"llvm.atan.", I_LIBM1, 5}, {"llvm.exp.", I_LIBM1, 6}, {"llvm.log.", I_LIBM1, 7}, {"llvm.log10", I_LIBM1, 8}, {"llvm.log2", I_LIBM1, 9}, {"llvm.exp2", I_LIBM1, 14}, {"llvm.pow.", I_LIBM2, 1}, {"llvm.atan2", I_LIBM2, 0},
  {"llvm.x86.sse2.pmovmskb", I_PMOVMSK, 0}, {"llvm.vector.reduce.or", I_REDOR, 0}, {"llvm.vector.reduce.add", I_REDADD, 0}, {"llvm.vector.reduce.and", I_REDAND, 0}, {"llvm.vector.reduce.umax", I_REDUMAX, 0}, {"llvm.vector.reduce.mul", I_REDMUL, 0}, {"llvm.vector.reduce.xor", I_REDXOR, 0}, {"llvm.ucmp", I_UCMP, 0}, {"llvm.scmp", I_SCMP, 0}, {"llvm.ssa.copy", I_IDENT, 0}, {"llvm.launder", I_IDENT, 0}, {"llvm.strip", I_IDENT, 0}, {"llvm.arithmetic.fence", I_IDENT, 0}, {"llvm.load.relative", I_LOADREL, 0}, {"llvm.objectsize", I_OBJSIZE, 0},
};
static void decode(Fn *fn) {
  if (fn->decoded) return; fn->decoded = true;
  slotOf.clear(); int ns = 0; LLVMValueRef f = fn->f;
  fn->nargs = LLVMCountParams(f);
  for (int i = 0; i < fn->nargs; i++) { LLVMValueRef p = LLVMGetParam(f, i); slotOf[p] = ns; fn->argslot.push_back(ns); int n = ty(LLVMTypeOf(p))->l.size(); fn->argn.push_back(n); ns += n; }
  std::unordered_map<LLVMBasicBlockRef, int> bbi; vector<LLVMBasicBlockRef> bbs;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) {
    bbi[b] = bbs.size(); bbs.push_back(b);
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { if (LLVMGetTypeKind(LLVMTypeOf(i)) == LLVMTokenTypeKind) continue; if (LLVMGetInstructionOpcode(i) == LLVMLandingPad) { slotOf[i] = ns; ns += 2; continue; } int n = ty(LLVMTypeOf(i))->l.size(); if (n) { slotOf[i] = ns; ns += n; } }
  }
  fn->nslots = ns; fn->bb.resize(bbs.size());
  auto mkEdge = [&](LLVMBasicBlockRef from, LLVMBasicBlockRef to) { Edge e; e.target = bbi[to];
    for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
      unsigned n = LLVMCountIncoming(i); bool ok = false; for (unsigned k = 0; k < n; k++) if (LLVMGetIncomingBlock(i, k) == from) { e.src.push_back(operand(LLVMGetIncomingValue(i, k))); ok = true; break; }
      if (!ok) throw Unsupported{"phi without incoming"}; e.dst.push_back(slotOf[i]); e.n.push_back(ty(LLVMTypeOf(i))->l.size()); }
    return e; };
  for (size_t bi = 0; bi < bbs.size(); bi++) {
    for (LLVMValueRef i = LLVMGetFirstInstruction(bbs[bi]); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i); if (op == LLVMPHI) continue;
      bool condbr = LLVMIsACondBrInst(i) != nullptr; if (condbr || LLVMIsAUncondBrInst(i)) op = LLVMBr;
      Ins x{}; x.op = op; x.src = i; x.iid = iidCounter++; x.callee = nullptr; x.edges = nullptr; x.cases = nullptr;
      LLVMTypeRef rt = LLVMTypeOf(i); 
      if (op != LLVMLandingPad && LLVMGetTypeKind(rt) != LLVMTokenTypeKind) { x.t = ty(rt); x.nd = x.t->l.size(); x.dst = x.nd ? slotOf[i] : -1; x.w = x.nd ? x.t->l[0].w : 0; }
      unsigned no = LLVMGetNumOperands(i);
      try {
      switch (op) {
      case LLVMBr: case LLVMSwitch: case 1000: {
        x.edges = new vector<Edge>();
        unsigned n = LLVMGetNumSuccessors(i);
        if (op == LLVMBr) { if (condbr) x.a.push_back(operand(LLVMGetCondition(i))); for (unsigned k = 0; k < n; k++) x.edges->push_back(mkEdge(bbs[bi], LLVMGetSuccessor(i, k))); }
        else { x.a.push_back(operand(LLVMGetOperand(i, 0))); x.w = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l[0].w; x.cases = new vector<std::pair<u128, int>>();
          x.edges->push_back(mkEdge(bbs[bi], LLVMGetSwitchDefaultDest(i)));
          for (unsigned k = 1; k < n; k++) { LLVMValueRef c = LLVMGetSwitchCaseValue(i, k); vector<Val> v; constVals(c, v); x.cases->push_back({cv(v[0]), (int)x.edges->size()}); x.edges->push_back(mkEdge(bbs[bi], LLVMGetSuccessor(i, k))); } }
        break; }
      case LLVMRet: if (no) { x.a.push_back(operand(LLVMGetOperand(i, 0))); x.nd = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l.size(); } break;
      case LLVMUnreachable: case LLVMResume: case LLVMLandingPad: break;
      case LLVMCall: case LLVMInvoke: {
        unsigned na = LLVMGetNumArgOperands(i);
        LLVMValueRef cvv = LLVMGetCalledValue(i);
        string nm; if (LLVMIsAFunction(cvv)) { size_t l; const char *s = LLVMGetValueName2(cvv, &l); nm = string(s, l); }
        bool nop = nm.compare(0, 9, "llvm.dbg.") == 0 || nm.compare(0, 13, "llvm.lifetime") == 0 || nm.find("noalias.scope") != string::npos;
        if (nop) { continue; }
        for (unsigned k = 0; k < na; k++) { LLVMValueRef o = LLVMGetOperand(i, k); if (LLVMGetTypeKind(LLVMTypeOf(o)) == LLVMMetadataTypeKind) { x.a.push_back(0); x.an.push_back(0); continue; } x.a.push_back(operand(o)); x.an.push_back(ty(LLVMTypeOf(o))->l.size()); x.x.push_back(x.an.back() ? ty(LLVMTypeOf(o))->l[0].w : 0); }
        if (!nm.empty()) {
          if (nm.compare(0, 5, "llvm.") == 0) { x.sub = -1; for (auto &in : inames) if (nm.compare(0, strlen(in.n), in.n) == 0) { x.sub = in.i; x.x.push_back(in.x); break; } if (x.sub == -1) x.callee = getFn(cvv); else if (x.sub == I_NOP) continue; }
          else { x.callee = getFn(cvv); }
        } else x.x.push_back((u64)(i64)operand(cvv));
        if (x.sub > 0 && (x.sub == I_FPTOSI || x.sub == I_FPTOUI)) x.t2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
        if (x.sub > 0 && na) x.t2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
        if (op == LLVMInvoke) { x.edges = new vector<Edge>(); x.edges->push_back(mkEdge(bbs[bi], LLVMGetNormalDest(i))); }
        break; }
      case LLVMGetElementPtr: { // base + const + sum idx*scale
        x.a.push_back(operand(LLVMGetOperand(i, 0))); LLVMTypeRef cur = LLVMGetGEPSourceElementType(i); u64 cst = 0; vector<u64> sc; 
        for (unsigned k = 1; k < no; k++) { LLVMValueRef o = LLVMGetOperand(i, k); u64 s; bool st = k > 1 && LLVMGetTypeKind(cur) == LLVMStructTypeKind;
          if (st) { u64 fi = LLVMConstIntGetZExtValue(o); cst += LLVMOffsetOfElement(TD, cur, fi); cur = LLVMStructGetTypeAtIndex(cur, fi); continue; }
          if (k > 1) cur = LLVMGetElementType(cur); s = LLVMABISizeOfType(TD, cur);
          if (LLVMIsAConstantInt(o)) { cst += (u64)LLVMConstIntGetSExtValue(o) * s; continue; }
          x.a.push_back(operand(o)); sc.push_back(s); sc.push_back(ty(LLVMTypeOf(o))->l[0].w); }
        x.x.push_back(cst); for (u64 s : sc) x.x.push_back(s); break; }
      case LLVMAlloca: x.x.push_back(LLVMABISizeOfType(TD, LLVMGetAllocatedType(i))); x.a.push_back(operand(LLVMGetOperand(i, 0))); break;
      case LLVMStore: x.a.push_back(operand(LLVMGetOperand(i, 0))); x.a.push_back(operand(LLVMGetOperand(i, 1))); x.t2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0))); break;
      case LLVMLoad: x.a.push_back(operand(LLVMGetOperand(i, 0))); break;
      case LLVMICmp: x.sub = LLVMGetICmpPredicate(i); for (unsigned k = 0; k < 2; k++) x.a.push_back(operand(LLVMGetOperand(i, k))); x.w = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l[0].w; break;
      case LLVMFCmp: x.sub = LLVMGetFCmpPredicate(i); for (unsigned k = 0; k < 2; k++) x.a.push_back(operand(LLVMGetOperand(i, k))); x.w = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l[0].w; break;
      case LLVMExtractValue: case LLVMInsertValue: {
        LLVMTypeRef cur = LLVMTypeOf(LLVMGetOperand(i, 0)); unsigned ni = LLVMGetNumIndices(i); const unsigned *ix = LLVMGetIndices(i); int off = 0;
        for (unsigned k = 0; k < ni; k++) { if (LLVMGetTypeKind(cur) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) off += ty(LLVMStructGetTypeAtIndex(cur, q))->l.size(); cur = LLVMStructGetTypeAtIndex(cur, ix[k]); } else { LLVMTypeRef el = LLVMGetElementType(cur); off += ix[k] * ty(el)->l.size(); cur = el; } }
        if (LLVMGetInstructionOpcode(LLVMIsAInstruction(LLVMGetOperand(i, 0)) ? LLVMGetOperand(i, 0) : i) == LLVMLandingPad) { x.a.push_back(0); x.sub = 0; break; }
        x.a.push_back(operand(LLVMGetOperand(i, 0))); x.sub = off; if (op == LLVMInsertValue) { x.a.push_back(operand(LLVMGetOperand(i, 1))); x.x.push_back(ty(LLVMTypeOf(LLVMGetOperand(i, 1)))->l.size()); } break; }
      case LLVMShuffleVector: x.a.push_back(operand(LLVMGetOperand(i, 0))); x.a.push_back(operand(LLVMGetOperand(i, 1))); x.sub = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l.size(); for (unsigned k = 0; k < LLVMGetNumMaskElements(i); k++) x.x.push_back((u64)(i64)LLVMGetMaskValue(i, k)); break;
      case LLVMSelect: for (unsigned k = 0; k < 3; k++) x.a.push_back(operand(LLVMGetOperand(i, k))); x.sub = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l.size(); break;
      case LLVMAtomicRMW: x.sub = LLVMGetAtomicRMWBinOp(i); x.a.push_back(operand(LLVMGetOperand(i, 0))); x.a.push_back(operand(LLVMGetOperand(i, 1))); break;
      case LLVMExtractElement: case LLVMInsertElement: for (unsigned k = 0; k < no; k++) x.a.push_back(operand(LLVMGetOperand(i, k))); x.sub = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->l.size(); break;
      default: for (unsigned k = 0; k < no; k++) { x.a.push_back(operand(LLVMGetOperand(i, k))); } if (no) x.t2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0))); break;
      }
      } catch (Unsupported &u) { x.op = (LLVMOpcode)9999; x.callee = nullptr; x.src = i; x.sub = 0; static std::map<int, string> dummy; x.x.clear(); notes.push_back("decode " + fn->name + ": " + u.what); }
      fn->bb[bi].push_back(x);
    }
  }
}

// ------------------------------------------------------------------ memory access
struct Frame { Fn *fn; size_t base; vector<u32> allocas; int bb, pc; int callDst; };
static vector<Frame> stack; static vector<Val> R; static size_t Rtop = 0;
static string curSite() { return stack.empty() ? "" : stack.back().fn->name; }
static string stackStr() { string s; int n = 0; for (int i = (int)stack.size() - 1; i >= 0 && n < 14; i--, n++) { s += (n ? ";" : "") + stack[i].fn->name; auto &f = stack[i]; if (f.bb >= 0 && f.bb < (int)f.fn->bb.size() && f.pc >= 0 && f.pc < (int)f.fn->bb[f.bb].size()) { unsigned ln = LLVMGetDebugLocLine(f.fn->bb[f.bb][f.pc].src); s += ":" + std::to_string(ln); } } return s; }

[[noreturn]] static void memErr(const string &w) { if (g_panicok && false) throw PathEnd{"ok", ""}; throw PathEnd{"ub", w}; }
static Obj &objAt(u64 a, u64 n, bool wr, u32 &off) {
  u32 id = a >> 32; u64 o = (a & 0xffffffff) - BASEOFF;
  if (id == 0 || id >= objs.size()) memErr("access through invalid pointer");
  Obj &ob = objs[id]; if (!ob.live) memErr("use after free");
  if (ob.kind == K_FUNC) memErr("data access to function");
  if (o > ob.size || o + n > ob.size) memErr("out of bounds access: offset " + std::to_string((i64)o) + " size " + std::to_string(ob.size));
  if (wr && ob.isconst) memErr("write to constant"); off = o; return ob;
}
static Val loadAt(u64 a, int w) {
  int n = (w + 7) / 8; u32 off; Obj &o = objAt(a, n, false, off);
  if (o.s) {
    bool any = false; for (int i = 0; i < n; i++) if (o.s[off + i].e) { any = true; break; }
    if (any) {
      Expr *e0 = o.s[off].e; bool whole = e0 && o.s[off].idx == 0 && e0->w == ((w == 1 && e0->w == 1) ? 1 : n * 8) ;
      if (whole) for (int i = 1; i < n; i++) if (o.s[off + i].e != e0 || o.s[off + i].idx != (u32)i) { whole = false; break; }
      if (whole) return fromE(e0->w == w ? e0 : mkExtract(e0, 0, w));
      Expr *r = nullptr;
      for (int i = 0; i < n; i++) { SymB &b = o.s[off + i]; Expr *x; if (b.e) { Expr *be = b.e->w < 8 ? mkZext(b.e, 8) : b.e; x = b.e->w < 8 ? be : mkExtract(be, b.idx * 8, 8); } else x = mkConst(o.d[off + i], 8); r = r ? mkConcat(x, r) : x; }
      return fromE(r->w == w ? r : mkExtract(r, 0, w));
    }
  }
  u64 lo = 0, hi = 0; if (n <= 8) memcpy(&lo, o.d + off, n); else { memcpy(&lo, o.d + off, 8); memcpy(&hi, o.d + off + 8, n - 8); }
  if (w < 64) lo &= ((u64)1 << w) - 1; return Val{lo, hi, nullptr};
}
static void storeAt(u64 a, const Val &v, int w) {
  int n = (w + 7) / 8; u32 off; Obj &o = objAt(a, n, true, off);
  if (v.e) {
    if (!o.s) o.s = (SymB *)calloc(o.size, sizeof(SymB));
    Expr *e = v.e; if (w % 8) e = mkZext(e, n * 8);
    if (isC(e)) { u128 c = e->c; memcpy(o.d + off, &c, n); for (int i = 0; i < n; i++) o.s[off + i].e = nullptr; return; }
    for (int i = 0; i < n; i++) o.s[off + i] = {e, (u32)i};
  } else {
    u128 c = cv(v); memcpy(o.d + off, &c, n); if (o.s) for (int i = 0; i < n; i++) o.s[off + i].e = nullptr;
  }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; u32 so, dq; { objAt(s, n, false, so); } { objAt(d, n, true, dq); }
  Obj &S = objs[s >> 32], &D = objs[d >> 32];
  memmove(D.d + dq, S.d + so, n);
  if (S.s) { if (!D.s) D.s = (SymB *)calloc(D.size, sizeof(SymB)); memmove(D.s + dq, S.s + so, n * sizeof(SymB)); }
  else if (D.s) memset((void *)(D.s + dq), 0, n * sizeof(SymB));
}
// symbolic address -> concrete (forks), except table-like loads handled by symLoad
static u64 ptr(Val &v) { if (v.e) { u64 a = (u64)concretize(v.e); v = C(a); } return v.lo; }
static bool symLoad(Expr *pe, int w, Val &out) {
  newEvalGen(); u64 a = (u64)evalExpr(pe, model); u32 id = a >> 32; int n = (w + 7) / 8;
  if (!id || id >= objs.size()) return false; Obj &o = objs[id]; if (!o.live || o.kind == K_FUNC || o.size > 65536 || o.size < (u32)n) return false;
  u64 base = addrOf(id); Expr *off = mkBin(O_SUB, 64, pe, mkConst(base, 64)); vector<u64> m2;
  if (feasible(mkBin(O_ULT, 1, mkConst(o.size - n, 64), off), m2)) return false;
  // stride: product with a constant
  u64 stride = 1, rest = 0; Expr *ix = off; if (ix->op == O_ADD && isC(ix->k[1])) { rest = (u64)ix->k[1]->c; ix = ix->k[0]; }
  if (ix->op == O_MUL && isC(ix->k[1])) stride = (u64)ix->k[1]->c; else if (ix->op == O_SHL && isC(ix->k[1])) stride = 1ULL << (u64)ix->k[1]->c; else if (ix->op == O_CONCAT && isC(ix->k[1]) && ix->k[1]->c == 0) stride = 1ULL << ix->k[1]->w;
  else if (ix->op == O_ZEXT && ix->k[0]->op == O_CONCAT && isC(ix->k[0]->k[1]) && ix->k[0]->k[1]->c == 0) stride = 1ULL << ix->k[0]->k[1]->w;
  if (!stride || stride > 4096) return false;
  rest %= stride; u64 cnt = (o.size - n - rest) / stride + 1; if (o.size < rest + n) return false; if (cnt > 5000 || w > 64) return false;
  vector<u64> tab; for (u64 i = 0; i < cnt; i++) { u64 q = i * stride + rest; if (o.s) for (int k = 0; k < n; k++) if (o.s[q + k].e) return false; u64 v = 0; memcpy(&v, o.d + q, n); tab.push_back(w < 64 ? v & (((u64)1 << w) - 1) : v); }
  // index = (off-rest)/stride ; off-rest is a multiple of stride whenever 'stride' was syntactically found without wrap; confirm
  Expr *d = mkBin(O_SUB, 64, off, mkConst(rest, 64)); Expr *idx;
  if (stride == 1) idx = d; else {
    if ((stride & (stride - 1)) == 0) { int l = __builtin_ctzll(stride); if (feasible(mkNot(mkEq(mkExtract(d, 0, l), mkConst(0, l))), m2)) return false; idx = mkBin(O_LSHR, 64, d, mkConst(l, 64)); }
    else { if (ix->op == O_MUL && d == ix) idx = ix->k[0]; else return false; }
    if (feasible(mkBin(O_ULT, 1, mkConst(cnt - 1, 64), idx), m2)) return false;
  }
  int iw = 1; while (((u64)1 << iw) < cnt) iw++; idx = mkExtract(idx, 0, iw);
  out = fromE(mkTable(idx, tab, w)); return true;
}

// ------------------------------------------------------------------ arithmetic on Vals
static Val bin(Op op, int w, const Val &a, const Val &b) {
  if (!a.e && !b.e) { if (op >= O_EQ && op <= O_SLE) return C128(evalOp(op, 1, w, 0, 0, cv(a), cv(b), 0)); return C128(evalOp(op, w, w, 0, 0, cv(a), cv(b), 0)); }
  int rw = (op >= O_EQ && op <= O_SLE) ? 1 : w; return fromE(mkBin(op, rw, toE(a, w), toE(b, w)));
}
static Val notv(const Val &a) { return a.e ? fromE(mkNot(a.e)) : C(!a.lo); }
static Val ite(const Val &c, const Val &a, const Val &b, int w) { if (!c.e) return c.lo ? a : b; if (!a.e && !b.e && cv(a) == cv(b)) return a; return fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
static Val zext(const Val &a, int w0, int w) { return a.e ? fromE(mkZext(a.e, w)) : a; }
static Val sext(const Val &a, int w0, int w) { return a.e ? fromE(mkSext(a.e, w)) : C128((u128)sx(cv(a), w0) & maskw(w)); }
static Val trunc_(const Val &a, int w) { return a.e ? fromE(mkExtract(a.e, 0, w)) : C128(cv(a) & maskw(w)); }
static Val itef(const Val &c, Val a, Val b, int w) { // float select keeps shadows
  if (!c.e) return c.lo ? a : b; Expr *x = toE(a, w), *y = toE(b, w); if (w == 32 && (x->op == O_FPTRUNC || isC(x)) && (y->op == O_FPTRUNC || isC(y))) { Val r = itef(c, fromE(mkFpExt(x)), fromE(mkFpExt(y)), 64); if (!r.e || r.e->sh) return fromE(mkFpTrunc(toE(r, 64))); }
  Expr *e = mkIte(c.e, x, y);
  if (w == 64 && !isC(e) && e->op == O_ITE && !e->sh && !(isC(x) && isC(y))) {
    auto g = [](Expr *q, Shadow &s) { if (q->sh) { s = *q->sh; return true; } if (isC(q)) { double d = b2d(q->c); if (d == 0 && std::signbit(d)) return false; if (std::isfinite(d) && d == (double)(i64)d && fabs(d) < 1e9) { i64 n = (i64)d; s = {mkConst((u128)(i128)n, 64), n, n, 0, false}; return true; }
      int ex; if (std::isfinite(d) && std::isnormal(d)) { i64 n = (i64)ldexp(frexp(d, &ex), 53); ex -= 53; while (!(n & 1)) { n /= 2; ex++; } if (std::abs(n) < (1LL << 30)) { s = {mkConst((u128)(i128)n, 64), n, n, ex, false}; return true; } } } return false; };
    Shadow s, t; bool both = g(x, s) && g(y, t); if (both && !s.lo && !s.hi) s.e = t.e; if (both && !t.lo && !t.hi) t.e = s.e;
    if (both && std::abs(s.e - t.e) < 30) { int ex = std::min(s.e, t.e); i128 l1 = (i128)s.lo << (s.e - ex), h1 = (i128)s.hi << (s.e - ex), l2 = (i128)t.lo << (t.e - ex), h2 = (i128)t.hi << (t.e - ex); i128 lo = std::min(l1, l2), hi = std::max(h1, h2), lim = (i128)1 << 53;
      if (lo > -lim && hi < lim) { int ww = 60; Expr *p = mkBin(O_SHL, ww, s.n->w > ww ? mkExtract(s.n, 0, ww) : mkSext(s.n, ww), mkConst(s.e - ex, ww)), *q = mkBin(O_SHL, ww, t.n->w > ww ? mkExtract(t.n, 0, ww) : mkSext(t.n, ww), mkConst(t.e - ex, ww)); int bw = 2; while (!(lo >= -((i128)1 << (bw - 1)) && hi < ((i128)1 << (bw - 1)))) bw++;
        e->sh = new Shadow{mkIte(c.e, mkExtract(p, 0, bw), mkExtract(q, 0, bw)), (i64)lo, (i64)hi, ex, s.negz || t.negz}; } }
  }
  return fromE(e);
}
static Val fbin(Op op, int w, const Val &a, const Val &b) { if (!a.e && !b.e) return C128(evalOp(op, w, w, 0, 0, cv(a), cv(b), 0)); return fromE(mkFBin(op, w, toE(a, w), toE(b, w))); }
static Val fun(Op op, int w, const Val &a, u32 aux = 0) { if (!a.e) return C128(evalOp(op, w, w, aux, 0, cv(a), 0, 0)); return fromE(mkFUn(op, w, a.e, aux)); }
static Val fc(Op op, int w, const Val &a, const Val &b) { if (!a.e && !b.e) return C128(evalOp(op, 1, w, 0, 0, cv(a), cv(b), 0)); return fromE(mkFCmp(op, toE(a, w), toE(b, w))); }
static Val andv(const Val &a, const Val &b) { return bin(O_AND, 1, a, b); }
static Val orv(const Val &a, const Val &b) { return bin(O_OR, 1, a, b); }
static Val fcmp(int p, int w, const Val &a, const Val &b) {
  switch (p) {
  case LLVMRealPredicateFalse: return C(0); case LLVMRealPredicateTrue: return C(1);
  case LLVMRealOEQ: return fc(O_FEQ, w, a, b); case LLVMRealUNE: return notv(fc(O_FEQ, w, a, b));
  case LLVMRealOGT: return fc(O_FLT, w, b, a); case LLVMRealOGE: return fc(O_FLE, w, b, a); case LLVMRealOLT: return fc(O_FLT, w, a, b); case LLVMRealOLE: return fc(O_FLE, w, a, b);
  case LLVMRealUGT: return notv(fc(O_FLE, w, a, b)); case LLVMRealUGE: return notv(fc(O_FLT, w, a, b)); case LLVMRealULT: return notv(fc(O_FLE, w, b, a)); case LLVMRealULE: return notv(fc(O_FLT, w, b, a));
  case LLVMRealORD: return notv(fc(O_FUNO, w, a, b)); case LLVMRealUNO: return fc(O_FUNO, w, a, b);
  case LLVMRealONE: return orv(fc(O_FLT, w, a, b), fc(O_FLT, w, b, a)); case LLVMRealUEQ: return notv(orv(fc(O_FLT, w, a, b), fc(O_FLT, w, b, a)));
  }
  throw Unsupported{"fcmp"};
}
static Val icmp(int p, int w, const Val &a, const Val &b) {
  switch (p) {
  case LLVMIntEQ: return bin(O_EQ, w, a, b); case LLVMIntNE: return notv(bin(O_EQ, w, a, b));
  case LLVMIntUGT: return bin(O_ULT, w, b, a); case LLVMIntUGE: return bin(O_ULE, w, b, a); case LLVMIntULT: return bin(O_ULT, w, a, b); case LLVMIntULE: return bin(O_ULE, w, a, b);
  case LLVMIntSGT: return bin(O_SLT, w, b, a); case LLVMIntSGE: return bin(O_SLE, w, b, a); case LLVMIntSLT: return bin(O_SLT, w, a, b); case LLVMIntSLE: return bin(O_SLE, w, a, b);
  }
  throw Unsupported{"icmp"};
}
static Val fneg(const Val &a, int w) { return a.e ? fromE(mkFNeg(a.e)) : C128(cv(a) ^ ((u128)1 << (w - 1))); }
// widen range knowledge of an integer about to become a float
static void boundInt(Val &v, int w, bool sgn) {}
static Val i2f(Val a, int w0, int w, bool sgn) {
  if (!a.e) return C128(evalOp(sgn ? O_SITOFP : O_UITOFP, w, w0, 0, 0, cv(a), 0, 0));
  if (a.e->op == O_ITE && isC(a.e->k[1]) && isC(a.e->k[2])) return fromE(mkIte(a.e->k[0], mkSiToFp(a.e->k[1], w, sgn), mkSiToFp(a.e->k[2], w, sgn)));
  Expr *r = mkSiToFp(a.e, w, sgn);
  if (w == 64 && !r->sh && !isC(r) && r->op != O_TABLE && w0 <= 64) { // ask the solver for a small range
    vector<u64> m2; for (int b : {8, 16, 24, 32, 48, 52}) { if (b >= w0) break;
      Expr *inr; if (sgn) { i128 h = (i128)1 << b; inr = mkBin(O_AND, 1, mkBin(O_SLE, 1, mkConst((u128)(-h), w0), a.e), mkBin(O_SLT, 1, a.e, mkConst((u128)h, w0))); } else inr = mkBin(O_ULT, 1, a.e, mkConst((u128)1 << b, w0));
      if (!feasible(mkNot(inr), m2)) { i64 h = (i64)1 << b; Expr *n = sgn ? mkExtract(a.e, 0, b + 1) : mkZext(mkExtract(a.e, 0, b), b + 1); r->sh = new Shadow{n, sgn ? -h : 0, h - 1, 0, false}; break; } }
  }
  return fromE(r);
}
static Val powi(Val a, i64 n, int w) { bool neg = n < 0; u64 b = neg ? -n : n; Val r = C(w == 64 ? d2b(1.0) : f2b(1.0f)); for (;;) { if (b & 1) r = fbin(O_FMUL, w, r, a); b >>= 1; if (!b) break; a = fbin(O_FMUL, w, a, a); } if (neg) r = fbin(O_FDIV, w, C(w == 64 ? d2b(1.0) : f2b(1.0f)), r); return r; }

// ------------------------------------------------------------------ externals
enum { H_ALLOC = 1, H_ALLOCZ, H_DEALLOC, H_REALLOC, H_MALLOC, H_CALLOC, H_FREE, H_CREALLOC, H_PMEMALIGN, H_PANIC, H_NOP, H_MEMCPY, H_MEMSET, H_MEMCMP, H_BCMP, H_STRLEN, H_MEMCHR, H_RANDKEYS, H_HASH0, H_WRITE, H_LIBM1, H_LIBM2, H_ABORT, H_VPSYM, H_VPRANGE, H_VPDY, H_VPASSUME, H_VPCHECK, H_VPOBS, H_VPOBSF, H_VPCOVER, H_VPCONC, H_VPPANICOK, H_VPNOTE, H_OOM, H_ZERO, H_NOUNWIND, H_VPALLOCS, H_FMTF64, H_MEMRCHR, H_VPISSYM, H_GETRANDOM };
struct HName { const char *n; int h; bool exact; int x; };
static HName hnames[] = {
  {"___rust_alloc_zeroed", H_ALLOCZ, false}, {"___rust_alloc", H_ALLOC, false}, {"___rust_dealloc", H_DEALLOC, false}, {"___rust_realloc", H_REALLOC, false},
  {"__rust_no_alloc_shim", H_NOP, false}, {"9panicking9panic_fmt", H_PANIC, false}, {"9panicking18panic_nounwind_fmt", H_NOUNWIND, false}, {"18handle_alloc_error", H_OOM, false}, {"rust_begin_unwind", H_PANIC, false},
  {"20hashmap_random_keys", H_RANDKEYS, false},
  {"getrandom", H_GETRANDOM, true}, {"malloc", H_MALLOC, true}, {"calloc", H_CALLOC, true}, {"free", H_FREE, true}, {"realloc", H_CREALLOC, true}, {"posix_memalign", H_PMEMALIGN, true}, {"memcpy", H_MEMCPY, true}, {"memmove", H_MEMCPY, true}, {"memset", H_MEMSET, true}, {"memcmp", H_MEMCMP, true}, {"bcmp", H_BCMP, true}, {"strlen", H_STRLEN, true}, {"memchr", H_MEMCHR, true}, {"memrchr", H_MEMRCHR, true}, {"write", H_WRITE, true}, {"abort", H_ABORT, true},
  {"sin", H_LIBM1, true, 0}, {"cos", H_LIBM1, true, 1}, {"tan", H_LIBM1, true, 2}, {"asin", H_LIBM1, true, 3}, {"acos", H_LIBM1, true, 4}, {"atan", H_LIBM1, true, 5}, {"exp", H_LIBM1, true, 6}, {"log", H_LIBM1, true, 7}, {"cbrt", H_LIBM1, true, 10}, {"sinh", H_LIBM1, true, 11}, {"cosh", H_LIBM1, true, 12}, {"tanh", H_LIBM1, true, 13}, {"atan2", H_LIBM2, true, 0}, {"pow", H_LIBM2, true, 1}, {"hypot", H_LIBM2, true, 2}, {"fmod", H_LIBM2, true, 3},
  {"vp_sym", H_VPSYM, true}, {"vp_range", H_VPRANGE, true}, {"vp_dy", H_VPDY, true}, {"vp_assume", H_VPASSUME, true}, {"vp_check", H_VPCHECK, true}, {"vp_obs", H_VPOBS, true}, {"vp_obs_f", H_VPOBSF, true}, {"vp_cover", H_VPCOVER, true}, {"vp_conc", H_VPCONC, true}, {"vp_panic_ok", H_VPPANICOK, true}, {"vp_alloc_peak", H_VPALLOCS, true}, {"vp_is_sym", H_VPISSYM, true},
};
static bool isHasherFinish(const string &n) {
  // Hasher::finish of SipHash / DefaultHasher / Fnv: every hash value is a legal hash, so use 0
  auto ends = [&](const char *s) { size_t l = strlen(s); return n.size() >= l && n.compare(n.size() - l, l, s) == 0; };
  if (n.find("6finish") == string::npos) return false;
  if (!ends("6finish") && n.find("6finishCs") == string::npos && n.find("6finishB") == string::npos) return false;
  return n.find("6Hasher") != string::npos && (n.find("SipHasher13") != string::npos || n.find("DefaultHasher") != string::npos || n.find("FnvHasher") != string::npos || n.find("3sip6Hasher") != string::npos);
}
static std::unordered_map<string, int> libmx;
static int handlerFor(const string &n) {
  for (auto &h : hnames) { if (h.exact ? n == h.n : n.find(h.n) != string::npos) { libmx[n] = h.x; return h.h; } }
  if (isHasherFinish(n)) return H_HASH0;
  return -1;
}
static u64 heapAlloc(Val size, bool zero) {
  if (size.e) {
    // allocation of symbolic size: object gets the largest feasible size (bounds of the real request are enforced by safe Rust)
    vector<u64> m2; u64 cap = 0;
    for (int b = 4; b <= 24; b++) { if (!feasible(mkBin(O_ULT, 1, mkConst((u64)1 << b, 64), size.e), m2)) { cap = (u64)1 << b; break; } }
    if (!cap) { // split: huge vs not
      Val big = fromE(mkBin(O_ULT, 1, mkConst(g_allocmax, 64), size.e));
      if (branchOn(toE(big, 1))) throw PathEnd{"oom", "allocation larger than " + std::to_string(g_allocmax) + " bytes requested"};
      cap = 1 << 24;
      Expr *big2 = mkBin(O_ULT, 1, mkConst(cap, 64), size.e);
      if (branchOn(big2)) cap = 1 << 25; // contents beyond 32 MiB cannot be touched within the input bounds (checked by object bounds)
    }
    return newObj(cap, K_HEAP, zero);
  }
  if (size.lo > g_allocmax) throw PathEnd{"oom", "allocation of " + std::to_string(size.lo) + " bytes requested"};
  if (size.lo > (1u << 28)) return newObj(1 << 28, K_HEAP, false);
  return newObj(size.lo, K_HEAP, zero);
}
static string rdStr(u64 p, u64 n) { string s; for (u64 i = 0; i < n && i < 400; i++) { Val v = loadAt(p + i, 8); s += v.e ? '?' : (char)v.lo; } return s; }
static void panicEnd(const vector<Val> &a) {
  string loc = "?"; try { u64 l = a.back().lo; Val f = loadAt(l, 64), n = loadAt(l + 8, 64), ln = loadAt(l + 16, 32); loc = rdStr(f.lo, n.lo) + ":" + std::to_string(ln.lo); } catch (...) {}
  throw PathEnd{"panic", loc};
}
static void addInput(Val v) { inputs.push_back({v, 0}); }
static Val callExt(Fn *f, vector<Val> &a, const vector<int> &an, TyInfo *rt, vector<Val> &ret) {
  switch (f->handler) {
  case H_ALLOC: case H_MALLOC: return C(heapAlloc(a[0], false));
  case H_ALLOCZ: return C(heapAlloc(a[0], true));
  case H_CALLOC: { conc(a[0], 64); conc(a[1], 64); return C(heapAlloc(C(a[0].lo * a[1].lo), true)); }
  case H_DEALLOC: case H_FREE: { u64 p = ptr(a[0]); if (!p) return C(0); u32 id = p >> 32; if (id >= objs.size() || objs[id].kind != K_HEAP || !objs[id].live || p != addrOf(id)) memErr("invalid free"); freeObj(id); return C(0); }
  case H_REALLOC: case H_CREALLOC: { u64 p = ptr(a[0]); Val ns = f->handler == H_REALLOC ? a[3] : a[1]; u64 q = heapAlloc(ns, false); if (p) { u64 n = std::min(objs[p >> 32].size, objs[q >> 32].size); copyMem(q, p, n); freeObj(p >> 32); } return C(q); }
  case H_PMEMALIGN: { u64 q = heapAlloc(a[2], false); storeAt(ptr(a[0]), C(q), 64); return C(0); }
  case H_PANIC: case H_NOUNWIND: panicEnd(a); break;
  case H_OOM: throw PathEnd{"oom", "allocation failure"};
  case H_ABORT: throw PathEnd{"panic", "abort"};
  case H_NOP: return C(0);
  case H_MEMCPY: copyMem(ptr(a[0]), ptr(a[1]), conc(a[2], 64)); return a[0];
  case H_MEMSET: { u64 n = conc(a[2], 64), p = ptr(a[0]); Val b = trunc_(a[1], 8); for (u64 i = 0; i < n; i++) storeAt(p + i, b, 8); return a[0]; }
  case H_MEMCMP: case H_BCMP: { u64 n = conc(a[2], 64), p = ptr(a[0]), q = ptr(a[1]); Val r = C(0);
    for (u64 i = n; i-- > 0;) { Val x = loadAt(p + i, 8), y = loadAt(q + i, 8); Val eq = bin(O_EQ, 8, x, y); Val lt = f->handler == H_BCMP ? C(0) : bin(O_ULT, 8, x, y); r = ite(eq, r, ite(lt, C(0xffffffff), C(1), 32), 32); } return r; }
  case H_STRLEN: { u64 p = ptr(a[0]), n = 0; for (;; n++) { Val v = loadAt(p + n, 8); Val z = bin(O_EQ, 8, v, C(0)); if (branchOn(toE(z, 1))) break; } return C(n); }
  case H_MEMCHR: { u64 p = ptr(a[0]), n = conc(a[2], 64); Val c = trunc_(a[1], 8); for (u64 i = 0; i < n; i++) if (branchOn(toE(bin(O_EQ, 8, loadAt(p + i, 8), c), 1))) return C(p + i); return C(0); }
  case H_MEMRCHR: { u64 p = ptr(a[0]), n = conc(a[2], 64); Val c = trunc_(a[1], 8); for (u64 i = n; i-- > 0;) if (branchOn(toE(bin(O_EQ, 8, loadAt(p + i, 8), c), 1))) return C(p + i); return C(0); }
  case H_RANDKEYS: ret = {C(0x0123456789abcdefULL), C(0xfedcba9876543210ULL)}; return C(0);
  case H_HASH0: return C(0);
  case H_GETRANDOM: { u64 n = conc(a[1], 64), p = ptr(a[0]); for (u64 i = 0; i < n; i++) storeAt(p + i, C(i * 7 + 1 & 255), 8); return C(n); }
  case H_WRITE: return a[2];
  case H_LIBM1: { u32 id = libmx[f->name]; if (!a[0].e) return fun(O_LIBM1, 64, a[0], id); Expr *r = mkFUn(O_LIBM1, 64, a[0].e, id); if (r->op == O_LIBM1) { conc(a[0], 64); return fun(O_LIBM1, 64, a[0], id); } return fromE(r); }
  case H_LIBM2: { u32 id = libmx[f->name]; if (a[0].e || a[1].e) { conc(a[0], 64); conc(a[1], 64); } return C128(evalOp(O_LIBM2, 64, 64, id, 0, cv(a[0]), cv(a[1]), 0)); }
  case H_VPSYM: { int w = a[0].lo; u32 idx = symw.size(); symw.push_back(w); model.push_back(0); Expr *s = mkSym(idx, w, 0, w >= 64 ? ~0ULL : (1ULL << w) - 1); Val v = fromE(mkZext(s, 64)); addInput(v); return v; }
  case H_VPRANGE: { i64 lo = a[0].lo, hi = a[1].lo; if (lo == hi) { addInput(C((u64)lo)); return C((u64)lo); } u64 n = (u64)(hi - lo); int w = 1; while (w < 64 && ((u64)1 << w) <= n) w++; u32 idx = symw.size(); symw.push_back(w); model.push_back(0);
    Expr *s = mkSym(idx, w, 0, n); if (n != (w >= 64 ? ~0ULL : ((u64)1 << w) - 1)) PC.push_back(mkDomain(s, n));
    Expr *v = mkBin(O_ADD, 64, mkZext(s, 64), mkConst((u64)lo, 64)); addInput(fromE(v)); return fromE(v); }
  case H_VPDY: { i64 lo = a[0].lo, hi = a[1].lo; int e = (int)(i64)sx(a[2].lo, 32); if (lo == hi) { Val r = C(d2b(ldexp((double)lo, e))); addInput(r); return r; } u64 n = (u64)(hi - lo); int w = 1; while (((u64)1 << w) <= n) w++; u32 idx = symw.size(); symw.push_back(w); model.push_back(0);
    Expr *s = mkSym(idx, w, 0, n); if (n != ((u64)1 << w) - 1) PC.push_back(mkDomain(s, n));
    int bw = 2; while (!(lo >= -((i128)1 << (bw - 1)) && hi < ((i128)1 << (bw - 1)))) bw++; bw = std::max(bw, w + 1); Expr *nn = mkBin(O_ADD, bw, mkZext(s, bw), mkConst((u128)(i128)lo, bw));
    Val v = fromE(mkDyadic(nn, lo, hi, e)); addInput(v); return v; }
  case H_VPASSUME: { flushChecks(); Expr *c = toE(trunc_(a[0], 1), 1); if (isC(c)) { if (!c->c) throw PathEnd{"infeasible", ""}; return C(0); } if (!evalBool(c)) { vector<u64> m2; if (!feasible(c, m2)) throw PathEnd{"infeasible", ""}; model = m2; } addPC(c); return C(0); }
  case H_VPCHECK: { INC(checks); string id = rdStr(a[1].lo, a[2].lo); Expr *c = toE(trunc_(a[0], 1), 1); if (isC(c)) { if (!c->c) throw PathEnd{"check", id}; return C(0); }
    INC(checksym); if (!evalBool(c)) { vector<u64> m2; violation("check", id, model); if (!feasible(c, m2)) throw PathEnd{"violated", ""}; model = m2; addPC(c); return C(0); }
    pend.push_back({c, id}); if (pend.size() >= 64) flushChecks(); return C(0); }
  case H_VPOBS: observes.push_back({a[0], 0}); return C(0);
  case H_VPOBSF: observes.push_back({a[0], 1}); return C(0);
  case H_VPCOVER: ADDN(covers[conc(a[0], 32) & 255], 1); return C(0);
  case H_VPCONC: { u64 v = conc(a[0], 64); return C(v); }
  case H_VPPANICOK: g_panicok = a[0].lo & 1; return C(0);
  case H_VPISSYM: return C(a[0].e ? 1 : 0);
  }
  throw Unsupported{"external function " + f->name};
}

// ------------------------------------------------------------------ interpreter
static inline Val &slot(size_t base, int s, int k) { if (s >= 0) return R[base + s + k]; return cpool[(-s - 1) + k]; }
static Val intrinsic(Ins &I, size_t base, int lane) {
  auto A = [&](int k) -> Val & { return slot(base, I.a[k], I.an[k] > 1 ? lane : 0); };
  int w = I.t2 && I.t2->l.size() ? I.t2->l[lane < (int)I.t2->l.size() ? lane : 0].w : I.w;
  switch (I.sub) {
  case I_EXPECT: case I_IDENT: case I_TLS: return A(0);
  case I_UADDS: { Val r = bin(O_ADD, w, A(0), A(1)); return ite(bin(O_ULT, w, r, A(0)), C128(maskw(w)), r, w); }
  case I_USUBS: return ite(bin(O_ULT, w, A(0), A(1)), C(0), bin(O_SUB, w, A(0), A(1)), w);
  case I_SADDS: case I_SSUBS: { Val x = sext(A(0), w, w + 1), y = sext(A(1), w, w + 1); Val r = bin(I.sub == I_SADDS ? O_ADD : O_SUB, w + 1, x, y); u128 mx = maskw(w - 1), mn = (u128)0 - ((u128)1 << (w - 1)); Val hi = C128(mx), lo = C128(mn & maskw(w + 1)); Val q = ite(bin(O_SLT, w + 1, hi, r), hi, ite(bin(O_SLT, w + 1, r, lo), lo, r, w + 1), w + 1); return trunc_(q, w); }
  case I_UMIN: return ite(bin(O_ULT, w, A(0), A(1)), A(0), A(1), w); case I_UMAX: return ite(bin(O_ULT, w, A(0), A(1)), A(1), A(0), w);
  case I_SMIN: return ite(bin(O_SLT, w, A(0), A(1)), A(0), A(1), w); case I_SMAX: return ite(bin(O_SLT, w, A(0), A(1)), A(1), A(0), w);
  case I_ABS: return ite(bin(O_SLT, w, A(0), C(0)), bin(O_SUB, w, C(0), A(0)), A(0), w);
  case I_CTPOP: { Val r = C(0); if (!A(0).e) { return C(__builtin_popcountll(A(0).lo) + __builtin_popcountll(A(0).hi)); } for (int i = 0; i < w; i++) r = bin(O_ADD, w, r, zext(fromE(mkExtract(A(0).e, i, 1)), 1, w)); return r; }
  case I_CTLZ: { Val v = A(0); if (!v.e) { u128 x = cv(v); int n = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) n++; return C(n); } Val r = C(w); for (int i = 0; i < w; i++) r = ite(fromE(mkExtract(v.e, i, 1)), C(w - 1 - i), r, w); return r; }
  case I_CTTZ: { Val v = A(0); if (!v.e) { u128 x = cv(v); int n = 0; while (n < w && !((x >> n) & 1)) n++; return C(n); } Val r = C(w); for (int i = w - 1; i >= 0; i--) r = ite(fromE(mkExtract(v.e, i, 1)), C(i), r, w); return r; }
  case I_BSWAP: { Val v = A(0); if (!v.e) { u128 x = cv(v), r = 0; for (int i = 0; i < w; i += 8) r |= ((x >> i) & 0xff) << (w - 8 - i); return C128(r); } Expr *r = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = mkExtract(v.e, i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r); }
  case I_BITREV: { Val v = A(0); if (!v.e) { u128 x = cv(v), r = 0; for (int i = 0; i < w; i++) r |= ((x >> i) & 1) << (w - 1 - i); return C128(r); } Expr *r = nullptr; for (int i = 0; i < w; i++) { Expr *b = mkExtract(v.e, i, 1); r = r ? mkConcat(r, b) : b; } return fromE(r); }
  case I_FSHL: case I_FSHR: { u64 s = conc(A(2), w) % w; if (I.sub == I_FSHL) { if (!s) return A(0); return bin(O_OR, w, bin(O_SHL, w, A(0), C(s)), bin(O_LSHR, w, A(1), C(w - s))); } if (!s) return A(1); return bin(O_OR, w, bin(O_SHL, w, A(0), C(w - s)), bin(O_LSHR, w, A(1), C(s))); }
  case I_FABS: return A(0).e ? fromE(mkFAbs(A(0).e)) : C128(cv(A(0)) & (((u128)1 << (w - 1)) - 1));
  case I_SQRT: return fun(O_FSQRT, w, A(0)); case I_FLOOR: return fun(O_FROUND, w, A(0), 0); case I_CEIL: return fun(O_FROUND, w, A(0), 1); case I_TRUNC: return fun(O_FROUND, w, A(0), 2); case I_ROUND: return fun(O_FROUND, w, A(0), 3); case I_RINT: return fun(O_FROUND, w, A(0), 4);
  case I_COPYSIGN: { Val m = C128(((u128)1 << (w - 1)) - 1), s = C128((u128)1 << (w - 1)); return bin(O_OR, w, bin(O_AND, w, A(0), m), bin(O_AND, w, A(1), s)); }
  case I_MINNUM: { Val x = A(0), y = A(1); return itef(fc(O_FUNO, w, x, x), y, itef(fc(O_FUNO, w, y, y), x, itef(fc(O_FLT, w, y, x), y, x, w), w), w); }
  case I_MAXNUM: { Val x = A(0), y = A(1); return itef(fc(O_FUNO, w, x, x), y, itef(fc(O_FUNO, w, y, y), x, itef(fc(O_FLT, w, x, y), y, x, w), w), w); }
  case I_POWI: { i64 n = (i64)sx(conc(A(1), 32), 32); return powi(A(0), n, w); }
  case I_FMULADD: return fbin(O_FADD, w, fbin(O_FMUL, w, A(0), A(1)), A(2));
  case I_FMA: if (!A(0).e && !A(1).e && !A(2).e) return C128(evalOp(O_FMA, w, w, 0, 0, cv(A(0)), cv(A(1)), cv(A(2)))); return fromE(mk(O_FMA, w, toE(A(0), w), toE(A(1), w), toE(A(2), w)));
  case I_FPTOSI: case I_FPTOUI: { int dw = I.t->l[lane].w; bool s = I.sub == I_FPTOSI; if (!A(0).e) return C128(evalOp(s ? O_FPTOSI : O_FPTOUI, dw, w, 0, 0, cv(A(0)), 0, 0)); return fromE(mkFpToI(A(0).e, dw, s)); }
  case I_ISFPC: { u64 m = A(1).lo; u64 infb = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000, mn = w == 64 ? 0x0010000000000000ULL : 0x00800000, qb = w == 64 ? 0x0008000000000000ULL : 0x00400000; Val x = A(0), ab = bin(O_AND, w, x, C128(((u128)1 << (w - 1)) - 1)); Val neg = bin(O_SLT, w, x, C(0)); Val r = C(0);
    auto add = [&](u64 bit, Val c) { if (m & bit) r = orv(r, c); }; Val nan = bin(O_ULT, w, C(infb), ab); Val q = notv(bin(O_EQ, w, bin(O_AND, w, x, C(qb)), C(0)));
    add(1, andv(nan, notv(q))); add(2, andv(nan, q)); Val inf = bin(O_EQ, w, ab, C(infb)), nor = andv(bin(O_ULE, w, C(mn), ab), bin(O_ULT, w, ab, C(infb))), zer = bin(O_EQ, w, ab, C(0)), sub = andv(bin(O_ULT, w, C(0), ab), bin(O_ULT, w, ab, C(mn)));
    add(4, andv(inf, neg)); add(8, andv(nor, neg)); add(16, andv(sub, neg)); add(32, andv(zer, neg)); add(64, andv(zer, notv(neg))); add(128, andv(sub, notv(neg))); add(256, andv(nor, notv(neg))); add(512, andv(inf, notv(neg))); return r; }
  case I_PTRMASK: return bin(O_AND, 64, A(0), A(1));
  case I_LIBM1: { u32 id = I.x.back(); Val &v = A(0); if (!v.e) return fun(O_LIBM1, w, v, id); Expr *r = mkFUn(O_LIBM1, w, v.e, id); if (r->op == O_LIBM1) { Val t = v; conc(t, w); return fun(O_LIBM1, w, t, id); } return fromE(r); }
  case I_LIBM2: { u32 id = I.x.back(); Val x = A(0), y = A(1); if (!x.e && !y.e) return C128(evalOp(O_LIBM2, w, w, id, 0, cv(x), cv(y), 0)); conc(x, w); conc(y, w); return C128(evalOp(O_LIBM2, w, w, id, 0, cv(x), cv(y), 0)); }
  case I_UCMP: case I_SCMP: { Op o = I.sub == I_UCMP ? O_ULT : O_SLT; int rw = I.w; return ite(bin(o, w, A(0), A(1)), C128(maskw(rw)), ite(bin(O_EQ, w, A(0), A(1)), C(0), C(1), rw), rw); }
  case I_OBJSIZE: return C(A(1).lo ? 0 : ~0ULL);
  }
  throw Unsupported{"intrinsic " + std::to_string(I.sub)};
}
static void pushFrame(Fn *f, int dst) {
  decode(f); SH->fnhit[f->idx < 60000 ? f->idx : 0] = 1;
  Frame fr; fr.fn = f; fr.base = Rtop; fr.bb = 0; fr.pc = 0; fr.callDst = dst; if (Rtop + f->nslots + 64 > R.size()) R.resize((Rtop + f->nslots + 64) * 2); Rtop += f->nslots; stack.push_back(std::move(fr));
  if (stack.size() > 4000) throw PathEnd{"panic", "stack overflow (call depth > 4000)"};
}
static void takeEdge(Frame &fr, Edge &e) {
  static vector<Val> tmp; size_t n = e.src.size();
  if (n == 1 && e.n[0] == 1) R[fr.base + e.dst[0]] = slot(fr.base, e.src[0], 0);
  else if (n) { tmp.clear(); for (size_t i = 0; i < n; i++) for (int k = 0; k < e.n[i]; k++) tmp.push_back(slot(fr.base, e.src[i], k)); size_t q = 0; for (size_t i = 0; i < n; i++) for (int k = 0; k < e.n[i]; k++) R[fr.base + e.dst[i] + k] = tmp[q++]; }
  fr.bb = e.target; fr.pc = 0;
}
static void loadTy(u64 a, TyInfo *t, size_t base, int dst) {
  if (t->bitvec) { int n = t->l.size(); Val v = loadAt(a, (n + 7) / 8 * 8); for (int i = 0; i < n; i++) R[base + dst + i] = v.e ? fromE(mkExtract(v.e, i, 1)) : C((cv(v) >> i) & 1); return; }
  for (size_t i = 0; i < t->l.size(); i++) R[base + dst + i] = loadAt(a + t->l[i].off, t->l[i].w);
}
static Val packBits(size_t base, int s, int n, int ew) { // vector -> integer of n*ew bits
  bool sym = false; for (int i = 0; i < n; i++) if (slot(base, s, i).e) sym = true;
  if (!sym) { u128 r = 0; for (int i = 0; i < n; i++) r |= (cv(slot(base, s, i)) & maskw(ew)) << (i * ew); return C128(r); }
  Expr *r = nullptr; for (int i = 0; i < n; i++) { Expr *x = toE(slot(base, s, i), ew); r = r ? mkConcat(x, r) : x; } return fromE(r);
}
static void run() {
  for (;;) {
    Frame &fr = stack.back(); size_t B = fr.base; Ins &I = fr.fn->bb[fr.bb][fr.pc];
    g_pathinstr++; g_instrs++;
    if ((g_pathinstr & 0xffff) == 0) { if (now() > g_deadline || SH->stop) throw PathEnd{"stopped", "deadline"}; if (g_pathinstr > g_maxpathinstr) throw PathEnd{"hang", "more than " + std::to_string(g_maxpathinstr) + " instructions on one path"}; }
    if (g_trace > 2) { char *s = LLVMPrintValueToString(I.src); fprintf(stderr, "%*s%s\n", (int)stack.size(), "", s); LLVMDisposeMessage(s); }
    #define SL(k, i) slot(B, I.a[k], i)
    switch ((int)I.op) {
    case LLVMBr: {
      if (I.a.empty()) { takeEdge(fr, (*I.edges)[0]); continue; }
      Val &c = SL(0, 0); bool t = c.e ? branchOn(c.e) : (c.lo & 1); takeEdge(stack.back(), (*I.edges)[t ? 0 : 1]); continue; }
    case LLVMSwitch: {
      Val v = SL(0, 0); int tgt = 0;
      if (!v.e) { u128 x = cv(v); for (auto &c : *I.cases) if (c.first == x) { tgt = c.second; break; } }
      else { for (auto &c : *I.cases) if (branchOn(mkEq(v.e, mkConst(c.first, I.w)))) { tgt = c.second; break; } }
      takeEdge(stack.back(), (*I.edges)[tgt]); continue; }
    case LLVMRet: {
      int n = I.a.empty() ? 0 : I.nd; static vector<Val> rv; rv.clear(); for (int i = 0; i < n; i++) rv.push_back(SL(0, i));
      for (u32 id : fr.allocas) freeObj(id); Rtop = B; int d = fr.callDst; stack.pop_back(); if (stack.empty()) return;
      Frame &p = stack.back(); if (d >= 0) for (int i = 0; i < n; i++) R[p.base + d + i] = rv[i];
      Ins &CI = p.fn->bb[p.bb][p.pc]; if (CI.op == LLVMInvoke) takeEdge(p, (*CI.edges)[0]); else p.pc++; continue; }
    case LLVMUnreachable: throw PathEnd{"ub", "unreachable executed"};
    case LLVMCall: case LLVMInvoke: {
      Fn *f = I.callee;
      if (!f && I.sub <= 0) { Val fv = slot(B, (int)(i64)I.x.back(), 0); u64 a = ptr(fv); auto it = objFn.find((u32)(a >> 32)); if (it == objFn.end()) memErr("call through invalid pointer"); f = it->second; }
      if (f) {
        if (f->handler > 0 || f->ext) {
          vector<Val> args; vector<int> an; for (size_t k = 0; k < I.a.size(); k++) for (int q = 0; q < I.an[k]; q++) args.push_back(SL(k, q));
          if (f->handler < 0) throw Unsupported{"external function " + f->name};
          vector<Val> ret; Val r = callExt(f, args, an, I.t, ret); Frame &fr2 = stack.back();
          if (I.nd == 1) R[B + I.dst] = r; else if (I.nd > 1) for (int i = 0; i < I.nd; i++) R[B + I.dst + i] = i < (int)ret.size() ? ret[i] : C(0);
          if (I.op == LLVMInvoke) takeEdge(fr2, (*I.edges)[0]); else fr2.pc++; continue;
        }
        pushFrame(f, I.nd ? I.dst : -1); Frame &nf = stack.back();
        for (size_t k = 0; k < I.a.size() && k < nf.fn->argslot.size(); k++) for (int q = 0; q < I.an[k]; q++) R[nf.base + nf.fn->argslot[k] + q] = slot(B, I.a[k], q);
        continue;
      }
      switch (I.sub) {
      case I_ASSUME: break;
      case I_MEMCPY: { u64 n = conc(SL(2, 0), 64); if (n) copyMem(ptr(SL(0, 0)), ptr(SL(1, 0)), n); break; }
      case I_MEMSET: { u64 n = conc(SL(2, 0), 64); if (n) { u64 p = ptr(SL(0, 0)); Val b = SL(1, 0); if (!b.e) { u32 off; Obj &o = objAt(p, n, true, off); memset(o.d + off, (int)b.lo, n); if (o.s) memset((void *)(o.s + off), 0, n * sizeof(SymB)); } else for (u64 i = 0; i < n; i++) storeAt(p + i, b, 8); } break; }
      case I_TRAP: throw PathEnd{"panic", "trap"};
      case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
        int w = I.t->l[0].w; Val a = SL(0, 0), b = SL(1, 0), r, o;
        switch (I.sub) {
        case I_UADDO: r = bin(O_ADD, w, a, b); o = bin(O_ULT, w, r, a); if (o.e) { Expr *x = toE(a, w), *y = toE(b, w); if (w <= 64 && (u128)x->umax + y->umax <= maskw(w)) o = C(0); } break;
        case I_USUBO: r = bin(O_SUB, w, a, b); o = bin(O_ULT, w, a, b); break;
        case I_UMULO: r = bin(O_MUL, w, a, b); if (!a.e && !b.e) { u128 p; o = C(w <= 64 ? (((u128)a.lo * b.lo) > maskw(w)) : __builtin_mul_overflow(cv(a), cv(b), &p)); } else { Expr *x = toE(a, w), *y = toE(b, w); if (w <= 64 && (u128)x->umax * y->umax <= maskw(w)) o = C(0); else if (!b.e && b.lo) o = bin(O_ULT, w, C128(maskw(w) / cv(b)), a); else if (!a.e && a.lo) o = bin(O_ULT, w, C128(maskw(w) / cv(a)), b); else { if (w > 64) throw Unsupported{"umul.overflow i128 symbolic"}; Expr *p = mkBin(O_MUL, 2 * w, mkZext(x, 2 * w), mkZext(y, 2 * w)); o = fromE(mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w)))); } } break;
        default: { if (w > 64 && (a.e || b.e)) throw Unsupported{"signed overflow i128"}; int W = I.sub == I_SMULO ? 2 * w : w + 1; Val x = sext(a, w, W), y = sext(b, w, W); Val p = bin(I.sub == I_SADDO ? O_ADD : I.sub == I_SSUBO ? O_SUB : O_MUL, W, x, y); r = trunc_(p, w); o = notv(bin(O_EQ, W, sext(r, w, W), p)); }
        }
        R[B + I.dst] = r; R[B + I.dst + 1] = o; break; }
      case I_PMOVMSK: { u32 m = 0; bool sym = false; for (int i = 0; i < 16; i++) if (SL(0, i).e) sym = true; if (!sym) { for (int i = 0; i < 16; i++) m |= ((SL(0, i).lo >> 7) & 1) << i; R[B + I.dst] = C(m); } else { Expr *r = nullptr; for (int i = 0; i < 16; i++) { Expr *b = mkExtract(toE(SL(0, i), 8), 7, 1); r = r ? mkConcat(b, r) : b; } R[B + I.dst] = fromE(mkZext(r, 32)); } break; }
      case I_REDOR: case I_REDADD: case I_REDAND: case I_REDUMAX: case I_REDMUL: case I_REDXOR: { Val r = SL(0, 0); for (int i = 1; i < I.an[0]; i++) { if (I.sub == I_REDUMAX) r = ite(bin(O_ULT, I.w, r, SL(0, i)), SL(0, i), r, I.w); else r = bin(I.sub == I_REDOR ? O_OR : I.sub == I_REDADD ? O_ADD : I.sub == I_REDMUL ? O_MUL : I.sub == I_REDXOR ? O_XOR : O_AND, I.w, r, SL(0, i)); } R[B + I.dst] = r; break; }
      case I_LOADREL: { u64 p = ptr(SL(0, 0)); u64 o = conc(SL(1, 0), 64); Val v = loadAt(p + o, 32); R[B + I.dst] = C(p + (i64)sx(v.lo, 32)); break; }
      default: for (int i = 0; i < I.nd; i++) { Val r = intrinsic(I, B, i); R[B + I.dst + i] = r; }
      }
      { Frame &f2 = stack.back(); if (I.op == LLVMInvoke) takeEdge(f2, (*I.edges)[0]); else f2.pc++; } continue; }
    case LLVMAlloca: { u64 n = conc(SL(0, 0), 64); u64 a = newObj(I.x[0] * n, K_STACK); fr.allocas.push_back(a >> 32); R[B + I.dst] = C(a); break; }
    case LLVMLoad: {
      Val &p = SL(0, 0);
      if (p.e && I.t->l.size() == 1) { Val o; if (symLoad(p.e, I.t->l[0].w, o)) { R[B + I.dst] = o; break; } }
      u64 a = ptr(p); if (I.t->l.size() == 1) R[B + I.dst] = loadAt(a, I.t->l[0].w); else loadTy(a, I.t, B, I.dst); break; }
    case LLVMStore: {
      u64 a = ptr(SL(1, 0)); TyInfo *t = I.t2; if (t->bitvec) { Val v = packBits(B, I.a[0], t->l.size(), 1); int w = (t->l.size() + 7) / 8 * 8; storeAt(a, zext(v, t->l.size(), w), w); break; }
      for (size_t i = 0; i < t->l.size(); i++) storeAt(a + t->l[i].off, SL(0, i), t->l[i].w); break; }
    case LLVMGetElementPtr: {
      if (I.nd > 1) throw Unsupported{"vector gep"};
      Val r = SL(0, 0); u64 c = I.x[0]; for (size_t k = 1; k < I.a.size(); k++) { u64 s = I.x[1 + 2 * (k - 1)]; int w = I.x[2 + 2 * (k - 1)]; Val ix = sext(SL(k, 0), w, 64); if (!ix.e) c += ix.lo * s; else r = bin(O_ADD, 64, r, bin(O_MUL, 64, ix, C(s))); }
      if (c) r = bin(O_ADD, 64, r, C(c)); R[B + I.dst] = r; break; }
    case LLVMICmp: for (int i = 0; i < I.nd; i++) { Val r = icmp(I.sub, I.w, SL(0, i), SL(1, i)); R[B + I.dst + i] = r; } break;
    case LLVMFCmp: for (int i = 0; i < I.nd; i++) { Val r = fcmp(I.sub, I.w, SL(0, i), SL(1, i)); R[B + I.dst + i] = r; } break;
    #define BINOP(L, O) case L: for (int i = 0; i < I.nd; i++) { Val r = bin(O, I.w, SL(0, i), SL(1, i)); R[B + I.dst + i] = r; } break;
    BINOP(LLVMAdd, O_ADD) BINOP(LLVMSub, O_SUB) BINOP(LLVMMul, O_MUL) BINOP(LLVMShl, O_SHL) BINOP(LLVMLShr, O_LSHR) BINOP(LLVMAShr, O_ASHR) BINOP(LLVMAnd, O_AND) BINOP(LLVMOr, O_OR) BINOP(LLVMXor, O_XOR)
    case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: for (int i = 0; i < I.nd; i++) {
      Val d = SL(1, i); if (d.e) { if (branchOn(mkEq(d.e, mkConst(0, I.w)))) memErr("division by zero"); } else if (!cv(d)) memErr("division by zero");
      Val r = bin(I.op == LLVMUDiv ? O_UDIV : I.op == LLVMSDiv ? O_SDIV : I.op == LLVMURem ? O_UREM : O_SREM, I.w, SL(0, i), d); R[B + I.dst + i] = r; } break;
    #define FBIN(L, O) case L: for (int i = 0; i < I.nd; i++) { Val r = fbin(O, I.w, SL(0, i), SL(1, i)); R[B + I.dst + i] = r; } break;
    FBIN(LLVMFAdd, O_FADD) FBIN(LLVMFSub, O_FSUB) FBIN(LLVMFMul, O_FMUL) FBIN(LLVMFDiv, O_FDIV) FBIN(LLVMFRem, O_FREM)
    case LLVMFNeg: for (int i = 0; i < I.nd; i++) { Val r = fneg(SL(0, i), I.w); R[B + I.dst + i] = r; } break;
    case LLVMTrunc: for (int i = 0; i < I.nd; i++) { Val r = trunc_(SL(0, i), I.w); R[B + I.dst + i] = r; } break;
    case LLVMZExt: for (int i = 0; i < I.nd; i++) { Val r = zext(SL(0, i), I.t2->l[0].w, I.w); R[B + I.dst + i] = r; } break;
    case LLVMSExt: for (int i = 0; i < I.nd; i++) { Val r = sext(SL(0, i), I.t2->l[0].w, I.w); R[B + I.dst + i] = r; } break;
    case LLVMPtrToInt: case LLVMIntToPtr: case 69: for (int i = 0; i < I.nd; i++) { int w0 = I.t2->l[0].w; Val r = I.w < w0 ? trunc_(SL(0, i), I.w) : zext(SL(0, i), w0, I.w); R[B + I.dst + i] = r; } break;
    case LLVMBitCast: { size_t n0 = I.t2->l.size(), n1 = I.t->l.size(); int w0 = I.t2->l[0].w, w1 = I.t->l[0].w;
      if (n0 == n1) { for (size_t i = 0; i < n1; i++) { Val v = SL(0, i); R[B + I.dst + i] = v; } break; }
      Val v; if ((u64)n0 * w0 > 128) { // regroup lanes
        static vector<Val> tmp; tmp.clear(); if (w1 > w0) { int g = w1 / w0; for (size_t i = 0; i < n1; i++) { Expr *r = nullptr; bool s = false; u128 c = 0; for (int k = 0; k < g; k++) { Val &x = SL(0, i * g + k); if (x.e) s = true; } if (!s) { for (int k = 0; k < g; k++) c |= cv(SL(0, i * g + k)) << (k * w0); tmp.push_back(C128(c)); } else { for (int k = 0; k < g; k++) { Expr *x = toE(SL(0, i * g + k), w0); r = r ? mkConcat(x, r) : x; } tmp.push_back(fromE(r)); } } }
        else { int g = w0 / w1; for (size_t i = 0; i < n1; i++) { Val &x = SL(0, i / g); int sh = (i % g) * w1; tmp.push_back(x.e ? fromE(mkExtract(x.e, sh, w1)) : C128((cv(x) >> sh) & maskw(w1))); } }
        for (size_t i = 0; i < n1; i++) R[B + I.dst + i] = tmp[i]; break; }
      v = packBits(B, I.a[0], n0, w0); for (size_t i = 0; i < n1; i++) R[B + I.dst + i] = v.e ? fromE(mkExtract(v.e, i * w1, w1)) : C128((cv(v) >> (i * w1)) & maskw(w1)); break; }
    case LLVMSIToFP: case LLVMUIToFP: for (int i = 0; i < I.nd; i++) { Val r = i2f(SL(0, i), I.t2->l[0].w, I.w, I.op == LLVMSIToFP); R[B + I.dst + i] = r; } break;
    case LLVMFPToSI: case LLVMFPToUI: for (int i = 0; i < I.nd; i++) { Val v = SL(0, i); bool s = I.op == LLVMFPToSI; R[B + I.dst + i] = v.e ? fromE(mkFpToI(v.e, I.w, s)) : C128(evalOp(s ? O_FPTOSI : O_FPTOUI, I.w, I.t2->l[0].w, 0, 0, cv(v), 0, 0)); } break;
    case LLVMFPExt: for (int i = 0; i < I.nd; i++) { Val v = SL(0, i); R[B + I.dst + i] = v.e ? fromE(mkFpExt(v.e)) : C(d2b((double)b2f((u32)v.lo))); } break;
    case LLVMFPTrunc: for (int i = 0; i < I.nd; i++) { Val v = SL(0, i); R[B + I.dst + i] = v.e ? fromE(mkFpTrunc(v.e)) : C(f2b((float)b2d(v.lo))); } break;
    case LLVMFreeze: for (int i = 0; i < I.nd; i++) { Val v = SL(0, i); R[B + I.dst + i] = v; } break;
    case LLVMExtractValue: { static vector<Val> t; t.clear(); for (int i = 0; i < I.nd; i++) t.push_back(SL(0, I.sub + i)); for (int i = 0; i < I.nd; i++) R[B + I.dst + i] = t[i]; break; }
    case LLVMInsertValue: { for (int i = 0; i < I.nd; i++) { Val v = SL(0, i); R[B + I.dst + i] = v; } for (u64 i = 0; i < I.x[0]; i++) { Val v = SL(1, i); R[B + I.dst + I.sub + i] = v; } break; }
    case LLVMExtractElement: { u64 k = conc(SL(1, 0), 64); Val v = k < (u64)I.sub ? SL(0, k) : C(0); R[B + I.dst] = v; break; }
    case LLVMInsertElement: { u64 k = conc(SL(2, 0), 64); for (int i = 0; i < I.nd; i++) { Val v = (u64)i == k ? SL(1, 0) : SL(0, i); R[B + I.dst + i] = v; } break; }
    case LLVMShuffleVector: { static vector<Val> t; t.clear(); for (int i = 0; i < I.nd; i++) { i64 m = (i64)I.x[i]; t.push_back(m < 0 || m > 100000 ? C(0) : m < I.sub ? SL(0, m) : SL(1, m - I.sub)); } for (int i = 0; i < I.nd; i++) R[B + I.dst + i] = t[i]; break; }
    case LLVMSelect: {
      if (I.sub == 1) { Val c = SL(0, 0);
        if (!c.e) { int k = c.lo & 1 ? 1 : 2; for (int i = 0; i < I.nd; i++) { Val v = SL(k, i); R[B + I.dst + i] = v; } break; }
        bool fork = false; if (I.t->l[0].fp == 2) fork = true; // pointers: fork instead of building symbolic addresses
        if (fork) { bool same = true; for (int i = 0; i < I.nd; i++) if (SL(1, i).e || SL(2, i).e || cv(SL(1, i)) != cv(SL(2, i))) same = false; int k = same ? 1 : branchOn(c.e) ? 1 : 2; for (int i = 0; i < I.nd; i++) { Val v = SL(k, i); R[B + I.dst + i] = v; } break; }
        for (int i = 0; i < I.nd; i++) { Val v = I.t->l[i].fp == 1 ? itef(c, SL(1, i), SL(2, i), I.t->l[i].w) : ite(c, SL(1, i), SL(2, i), I.t->l[i].w); R[B + I.dst + i] = v; }
      } else for (int i = 0; i < I.nd; i++) { Val v = I.t->l[i].fp == 1 ? itef(SL(0, i), SL(1, i), SL(2, i), I.t->l[i].w) : ite(SL(0, i), SL(1, i), SL(2, i), I.t->l[i].w); R[B + I.dst + i] = v; }
      break; }
    case LLVMAtomicRMW: { u64 a = ptr(SL(0, 0)); Val o = loadAt(a, I.w), v = SL(1, 0), n; switch (I.sub) { case LLVMAtomicRMWBinOpXchg: n = v; break; case LLVMAtomicRMWBinOpAdd: n = bin(O_ADD, I.w, o, v); break; case LLVMAtomicRMWBinOpSub: n = bin(O_SUB, I.w, o, v); break; case LLVMAtomicRMWBinOpAnd: n = bin(O_AND, I.w, o, v); break; case LLVMAtomicRMWBinOpOr: n = bin(O_OR, I.w, o, v); break; case LLVMAtomicRMWBinOpXor: n = bin(O_XOR, I.w, o, v); break; default: throw Unsupported{"atomicrmw"}; } storeAt(a, n, I.w); R[B + I.dst] = o; break; }
    case LLVMAtomicCmpXchg: { u64 a = ptr(SL(0, 0)); int w = I.t->l[0].w; Val o = loadAt(a, w), e = SL(1, 0), n = SL(2, 0); Val eq = bin(O_EQ, w, o, e); bool t = eq.e ? branchOn(eq.e) : eq.lo; if (t) storeAt(a, n, w); R[B + I.dst] = o; R[B + I.dst + 1] = C(t); break; }
    case LLVMFence: break;
    case LLVMLandingPad: case LLVMResume: throw PathEnd{"error", "landing pad reached"};
    default: { char *s = LLVMPrintValueToString(I.src); string m = s; LLVMDisposeMessage(s); throw Unsupported{"instruction " + m.substr(0, 200)}; }
    }
    stack.back().pc++;
  }
}

// ------------------------------------------------------------------ driver
static void prep(const char *in, const char *out, const vector<string> &keep, const string &passes) {
  LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(in, &mb, &err)) { fprintf(stderr, "%s\n", err); exit(3); }
  if (LLVMParseBitcodeInContext2(ctx, mb, &M)) { fprintf(stderr, "cannot parse %s\n", in); exit(3); }
  unsigned kNoInline = LLVMGetEnumAttributeKindForName("noinline", 8), kOptNone = LLVMGetEnumAttributeKindForName("optnone", 7), kAlways = LLVMGetEnumAttributeKindForName("alwaysinline", 12), kInl = LLVMGetEnumAttributeKindForName("inlinehint", 10);
  vector<LLVMValueRef> dead;
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    size_t l; const char *s = LLVMGetValueName2(f, &l); string n(s, l); if (n.compare(0, 5, "llvm.") == 0) continue;
    bool h = n.compare(0, 2, "h_") == 0; bool keepit = h; 
    bool ni = h || handlerFor(n) > 0 || n.find("7rust_3d") != string::npos || n.compare(0, 3, "vp_") == 0;
    // keep closures of rust_3d inlinable: they carry the crate name but are one call deep
    if (ni) { LLVMRemoveEnumAttributeAtIndex(f, LLVMAttributeFunctionIndex, kAlways); LLVMRemoveEnumAttributeAtIndex(f, LLVMAttributeFunctionIndex, kInl); LLVMAddAttributeAtIndex(f, LLVMAttributeFunctionIndex, LLVMCreateEnumAttribute(ctx, kNoInline, 0)); }
    if (!LLVMIsDeclaration(f)) LLVMSetLinkage(f, keepit ? LLVMExternalLinkage : LLVMInternalLinkage);
  }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { size_t l; const char *s = LLVMGetValueName2(g, &l); string n(s, l); if (n.compare(0, 5, "llvm.") == 0) continue; if (!LLVMIsDeclaration(g)) LLVMSetLinkage(g, LLVMInternalLinkage); }
  if (LLVMValueRef u = LLVMGetNamedGlobal(M, "llvm.used")) LLVMDeleteGlobal(u);
  if (LLVMValueRef u = LLVMGetNamedGlobal(M, "llvm.compiler.used")) LLVMDeleteGlobal(u);
  LLVMInitializeX86TargetInfo(); LLVMInitializeX86Target(); LLVMInitializeX86TargetMC();
  LLVMTargetRef T; LLVMTargetMachineRef TM = nullptr; if (!LLVMGetTargetFromTriple(LLVMGetTarget(M), &T, &err)) TM = LLVMCreateTargetMachine(T, LLVMGetTarget(M), "x86-64", "", LLVMCodeGenLevelDefault, LLVMRelocStatic, LLVMCodeModelDefault);
  LLVMPassBuilderOptionsRef o = LLVMCreatePassBuilderOptions(); LLVMPassBuilderOptionsSetLoopVectorization(o, 0); LLVMPassBuilderOptionsSetSLPVectorization(o, 0); LLVMPassBuilderOptionsSetLoopUnrolling(o, 0); LLVMPassBuilderOptionsSetMergeFunctions(o, 0);
  LLVMErrorRef e = LLVMRunPasses(M, passes.c_str(), TM, o); if (e) { fprintf(stderr, "passes: %s\n", LLVMGetErrorMessage(e)); exit(3); }
  if (LLVMWriteBitcodeToFile(M, out)) exit(3);
}
static void onterm(int) { _exit(9); }
int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: symx prep IN OUT [passes] | symx run BC FN OUT [opts]\n"); return 3; }
  if (string(argv[1]) == "prep") { prep(argv[2], argv[3], {}, argc > 4 ? argv[4] : "globaldce,lower-invoke,globaldce,default<O2>,globaldce"); return 0; }
  string bc = argv[2], fname = argv[3]; g_out = argv[4]; double tmo = 600; int jobs = 8; string logic;
  for (int i = 5; i < argc; i++) { string a = argv[i]; if (a == "-t") tmo = atof(argv[++i]); else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-q") g_qtimeout = atoi(argv[++i]); else if (a == "-v") g_trace = atoi(argv[++i]); else if (a == "-s") g_maxsamples = atoll(argv[++i]); else if (a == "-m") g_maxviol = atoll(argv[++i]); else if (a == "-I") g_maxpathinstr = atoll(argv[++i]); else if (a == "-A") g_allocmax = atoll(argv[++i]); }
  double t0 = now(); g_deadline = t0 + tmo;
  SHsz = sizeof(Shared) + 70000; SH = (Shared *)mmap(0, SHsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&SH->tokens, 1, jobs - 1);
  g_outfd = open(g_out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(), &mb, &err)) { fprintf(stderr, "%s\n", err); return 3; }
  if (LLVMParseBitcodeInContext2(ctx, mb, &M)) { fprintf(stderr, "cannot parse bitcode\n"); return 3; }
  TD = LLVMGetModuleDataLayout(M);
  for (LLVMValueRef q = LLVMGetFirstFunction(M); q; q = LLVMGetNextFunction(q)) { fnOrder[q] = fnNames.size(); size_t l; const char *s = LLVMGetValueName2(q, &l); fnNames.push_back(string(s, l)); }
  LLVMValueRef f = LLVMGetNamedFunction(M, fname.c_str()); if (!f) { fprintf(stderr, "no function %s\n", fname.c_str()); return 3; }
  if (const char *gp = getenv("SYMX_Z3")) { string s = gp; size_t p = 0; while (p < s.size()) { size_t q = s.find(",", p); if (q == string::npos) q = s.size(); string kv = s.substr(p, q - p); size_t e = kv.find("="); Z3_global_param_set(kv.substr(0, e).c_str(), kv.substr(e + 1).c_str()); p = q + 1; } }
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
  double t1 = now(); pid_t root = getpid(); signal(SIGTERM, onterm);
  R.resize(1 << 16);
  string kind = "ok", detail;
  try { try { pushFrame(getFn(f), -1); run(); } catch (PathEnd &p) { if (p.kind == "stopped" || p.kind == "unknown") throw; flushChecks(); throw; } flushChecks(); }
  catch (PathEnd &p) { kind = p.kind; detail = p.detail; }
  catch (Unsupported &u) { kind = "unsupported"; detail = u.what + " in " + curSite(); for (auto &n : notes) detail += "; " + n; }
  // path finished
  ADDN(instrs, g_instrs); { u64 d = SH->maxdepth; while (depth > d && !__sync_bool_compare_and_swap(&SH->maxdepth, d, (u64)depth)) d = SH->maxdepth; }
  if (kind == "panic" && g_panicok) { kind = "ok"; }
  if (kind == "ok") { INC(paths); INC(oks); u64 n = INC(samples); if (n < g_maxsamples) record("ok", detail, model, true); }
  else if (kind == "infeasible") INC(infeasible);
  else if (kind == "violated") INC(paths);
  else if (kind == "check" || kind == "panic" || kind == "ub" || kind == "oom" || kind == "hang") { INC(paths); violation(kind, detail, model); }
  else if (kind == "stopped" && SH->stop == 2) { /* enough violations */ }
  else { INC(errors); if (SH->errors < 20) record(kind, detail, model, false); }
  bool isroot = getpid() == root;
  if (!isroot && g_label == "P") sem_post(&SH->tokens); else if (isroot) sem_post(&SH->tokens);
  // note: a sequential child shares its parent's token
  while (!kids.empty()) reap(true);
  if (!isroot) _exit(0);
  FILE *o = fopen((g_out + ".sum").c_str(), "w");
  fprintf(o, "{\"harness\":\"%s\",\"paths\":%lu,\"ok\":%lu,\"infeasible\":%lu,\"forks\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"fallbacks\":%lu,\"instrs\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"violations\":%lu,\"errors\":%lu,\"solver_s\":%.3f,\"stop\":%u,\"maxdepth\":%lu,\"wall_s\":%.3f,\"load_s\":%.3f,\"covers\":{", fname.c_str(), SH->paths, SH->oks, SH->infeasible, SH->forks, SH->queries, SH->qsat, SH->qunsat, SH->qunknown, SH->fallbacks, SH->instrs, SH->checks, SH->checksym, SH->violations, SH->errors, SH->solver_ns * 1e-9, SH->stop, SH->maxdepth, now() - t0, t1 - t0);
  bool first = true; for (int i = 0; i < 256; i++) if (SH->covers[i]) { fprintf(o, "%s\"%d\":%lu", first ? "" : ",", i, SH->covers[i]); first = false; }
  fprintf(o, "},\"functions\":["); first = true;
  for (size_t i = 0; i < fnNames.size() && i < 60000; i++) if (SH->fnhit[i] && fnNames[i].find("rust_3d") != string::npos) { fprintf(o, "%s\"%s\"", first ? "" : ",", fnNames[i].c_str()); first = false; }
  fprintf(o, "]}\n"); fclose(o);
  return 0;
}
