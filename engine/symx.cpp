#include "symx.h"
#include "renames.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <algorithm>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::shared_ptr; using std::make_shared;

// ---------------------------------------------------------------- globals
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static map<const GlobalValue *, uint64_t> gaddr; static map<uint64_t, Function *> fnAt;
static map<Function *, FnInfo *> fninfo;
static vector<std::unique_ptr<State>> work;
static Expr uninitSentinel; static const E UNINIT = &uninitSentinel;
static string repoPrefix = "/repo/";
static const unsigned SLOT = 24; static const uint64_t BASEOFF = 0x1000;
static uint64_t maxInst = 20000000, maxPaths = 1000000000ull; static double maxTime = 600, grace = -1; static int maxPreempt = -1, maxCrashes = 1;
static map<string, int64_t> cfg; static uint64_t traceFlag = 0; static bool quiet = true;
static std::chrono::steady_clock::time_point T0;
struct Stat { uint64_t paths = 0, killed = 0, pruned = 0, preBounded = 0, forks = 0, insts = 0, decisions = 0, visops = 0, oblig = 0, obligTrivial = 0, obligSolver = 0, obligUnknown = 0, violations = 0, uninitReads = 0; } S;
static map<string, uint64_t> assertHits, reachHits, assertViol, assertSolver;
struct Viol { string label, kind, detail; vector<std::pair<string, vector<uint8_t>>> syms; vector<int> sched; vector<string> stack, obs; };
static vector<Viol> viols; static map<string, int> violCount; static int maxPerLabel = 1;
static vector<Viol> witnesses; static map<string,int> witCount; static int maxWitness = 2;
struct EngineError { string msg; };
[[noreturn]] static void fail(const string &m) { throw EngineError{m}; }
struct PathEnd { int why; };          // 0 killed(assume) 1 violation 2 pruned
static State *CS = nullptr;           // state being executed

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static string typeStr(Type *t) { string s; raw_string_ostream o(s); t->print(o); return o.str(); }
static string instStr(Instruction *i) { string s; raw_string_ostream o(s); i->print(o); return o.str(); }
static string locOf(Instruction *I) { if (auto l = I->getDebugLoc()) { string f = l->getFilename().str(); return f + ":" + std::to_string(l.getLine()); } return "?"; }

static vector<string> stackOf(State &s) {
  vector<string> r; auto &t = s.th[s.cur];
  for (int i = (int)t.st.size() - 1; i >= 0 && r.size() < 40; i--) { auto &f = t.st[i]; auto &bb = f.fn->bbs[f.bb]; int ip = std::min<int>(f.ip, bb.ins.size() - 1); if (i != (int)t.st.size() - 1 && ip > 0) ip--; r.push_back(demangle(f.fn->F->getName().str()) + " at " + locOf(bb.ins[ip].I)); }
  return r; }

// ---------------------------------------------------------------- path condition
static void addPC(State &s, E c) { if (isC(c)) return; if (c->op == Op::And) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } for (E e : s.pc) if (e == c) return; s.pc.push_back(c); }
static bool modelTrue(State &s, E c) { return evalExpr(c, s.model) != 0; }
static bool feasible(State &s, E c, Model *m) { // is pc /\ c satisfiable; m receives merged model
  if (isC(c)) return c->c != 0;
  if (modelTrue(s, c)) { if (m) *m = s.model; gSolverStats.modelHits++; return true; }
  Model mm = s.model; SatRes r = solve(s.pc, c, &mm);
  if (r == SatRes::Unknown) fail("solver returned unknown on a branch condition");
  if (r == SatRes::Sat) { if (m) *m = mm; return true; } return false; }
static std::unique_ptr<State> cloneState(State &s) { S.forks++; auto n = std::make_unique<State>(s); n->depth++; return n; }
static void concModel(State &s, Model &m) { (void)s; (void)m; }

static vector<std::pair<string, vector<uint8_t>>> dumpSyms(State &s, const Model &m) {
  vector<std::pair<string, vector<uint8_t>>> r;
  for (auto &sr : s.symrecs.vec()) { vector<uint8_t> b; for (uint32_t id : sr.syms) { auto it = m.v.find(id); u128 v = it == m.v.end() ? 0 : it->second; unsigned w = symWidth(id); for (unsigned i = 0; i < (w + 7) / 8; i++) b.push_back((uint8_t)(v >> (8 * i))); } r.push_back({sr.name, b}); }
  return r; }
static vector<string> obsOf(State &s) { return s.obs.vec(); }
static Viol mkViol(State &s, const string &label, const string &kind, const string &detail, const Model &m) {
  Viol v; v.label = label; v.kind = kind; v.detail = detail; v.syms = dumpSyms(s, m); v.sched = s.sched.vec(); v.stack = stackOf(s); v.obs = obsOf(s); return v; }
static void report(State &s, const string &label, const string &kind, const string &detail, const Model &m) {
  S.violations++; if (grace >= 0) { maxTime = std::min(maxTime, now() + grace); grace = -1; } string key = label + "|" + kind; if (violCount[key]++ < maxPerLabel) viols.push_back(mkViol(s, label, kind, detail, m));
  if (!quiet) { fprintf(stderr, "VIOL %s %s %s\n", label.c_str(), kind.c_str(), detail.c_str()); for (auto &l : stackOf(s)) fprintf(stderr, "   %s\n", l.c_str()); } }
[[noreturn]] static void violate(State &s, const string &kind, const string &detail) { report(s, kind, kind, detail, s.model); throw PathEnd{1}; }

// re-execution fork: fix e to one value in s, leave the other values to a state that re-executes this instruction
static u128 concretize(State &s, E e) {
  if (isC(e)) return e->c;
  u128 v = evalExpr(e, s.model); E eq = mkEq(mkConst(v, e->w), e);
  if (isC(eq)) return v;
  Model m; if (feasible(s, mkNot1(eq), &m)) { static int shown; if (!quiet && shown++ < 12) { fprintf(stderr, "CONC %llu\n", (unsigned long long)v); for (auto &l : stackOf(s)) fprintf(stderr, "   %s\n", l.c_str()); } auto n = cloneState(s); addPC(*n, mkNot1(eq)); n->model = m; work.push_back(std::move(n)); }
  addPC(s, eq); return v; }
static Val conc(State &s, const Val &v) { if (v.conc()) return v; return Val(concretize(s, v.e), v.w); }

// ---------------------------------------------------------------- memory
static inline uint32_t idOf(uint64_t a) { return (uint32_t)(a >> SLOT); }
static uint32_t newObj(State &s, uint64_t size, ObjKind k, bool init, const char *what) {
  Obj o; o.size = size; o.kind = k; o.alive = true; o.what = what;
  auto b = make_shared<Backing>(); b->c.assign(size, 0); if (!init) b->s.assign(size, UNINIT);
  o.backing = (uint32_t)s.backs.push(b);
  uint32_t id = (uint32_t)s.objs.n; o.base = ((uint64_t)id << SLOT) + BASEOFF; if (size > (1u << 23)) fail("object too large: " + std::to_string(size));
  s.objs.push(o); return id; }
static Backing &backMut(State &s, uint32_t b) { auto &p = s.backs.mut(b); if (p.use_count() > 1) p = make_shared<Backing>(*p); return *p; }
static uint64_t effSize(State &s, const Obj &o) { if (o.kind != OAlias) return o.size; uint64_t bs = s.backs.get(o.backing)->c.size(); if (o.boff >= bs) return 0; return std::min(o.size, bs - o.boff); }

static string ptrDesc(State &s, uint64_t a) { char b[200]; uint32_t id = idOf(a); if (a < 4096) { snprintf(b, 200, "null-ish pointer 0x%llx", (unsigned long long)a); return b; }
  if (id < s.objs.n) { auto &o = s.objs.get(id); snprintf(b, 200, "object %s size %llu offset %lld%s", o.what, (unsigned long long)o.size, (long long)(a - o.base), o.alive ? "" : " (dead)"); return b; }
  snprintf(b, 200, "wild pointer 0x%llx", (unsigned long long)a); return b; }

// resolve pointer for n bytes; returns obj id and concrete offset. Reports violations. May fork (re-exec).
static uint32_t resolve(State &s, const Val &p, uint64_t n, bool wr, uint64_t &off) {
  uint64_t a;
  if (p.conc()) a = p.u();
  else {
    // provenance: constant addend of the address
    E e = p.e; uint32_t pid = 0; 
    if (e->op == Op::Add && isC(e->k[0])) { uint32_t id = idOf((uint64_t)e->k[0]->c); if (id < s.objs.n && id > 0) pid = id; 
      else { id = idOf((uint64_t)e->k[0]->c + (1u<<23)); if (id < s.objs.n && id > 0) pid = id; } }
    if (pid) { auto &o = s.objs.get(pid); uint64_t sz = effSize(s, o);
      if (o.alive) {
        E rel = mkBin(Op::Add, mkConst((u128)0 - o.base, 64), e);
        E ok = sz >= n ? mkBin(Op::Ule, rel, mkConst(sz - n, 64)) : mkConst(0, 1);
        Model m; if (feasible(s, mkNot1(ok), &m)) { char d[160]; snprintf(d, 160, "%s of %llu bytes outside %s of size %llu (offset %lld)", wr ? "write" : "read", (unsigned long long)n, o.what, (unsigned long long)sz, (long long)evalExpr(rel, m)); report(s, "memory-safety", "out-of-bounds", d, m); }
        Model m2; if (!feasible(s, ok, &m2)) throw PathEnd{1}; addPC(s, ok); s.model = m2; } }
    a = (uint64_t)concretize(s, e);
  }
  uint32_t id = idOf(a);
  if (a < (1ull << SLOT)) violate(s, "null-dereference", string(wr ? "write to " : "read from ") + ptrDesc(s, a));
  if (id >= s.objs.n) violate(s, "out-of-bounds", string(wr ? "write to " : "read from ") + ptrDesc(s, a));
  auto &o = s.objs.get(id);
  if (!o.alive) violate(s, "use-after-free", string(wr ? "write to " : "read from ") + ptrDesc(s, a));
  off = a - o.base; uint64_t sz = effSize(s, o);
  if (off > sz || n > sz - off) violate(s, "out-of-bounds", string(wr ? "write to " : "read from ") + ptrDesc(s, a) + " (" + std::to_string(n) + " bytes)");
  if (wr && (o.kind == OConst || o.kind == OFunc)) violate(s, "write-to-constant", ptrDesc(s, a));
  return id; }

// The k-th symbol of one name along a path is the same symbol on every path, so that sibling paths share expressions.
static E freshSym(State &s, const string &name, unsigned w) {
  if (!s.vars) s.vars = std::make_shared<std::map<string,int>>(); else if (s.vars.use_count() > 1) s.vars = std::make_shared<std::map<string,int>>(*s.vars);
  static std::map<std::pair<std::pair<string,int>,unsigned>,E> tab;
  E &e = tab[{{name, (*s.vars)[name]++}, w}]; if (!e) e = mkSym(name, w); return e; }
static Val loadBytes(State &s, uint32_t id, uint64_t off, unsigned nbytes) { // -> bitvector of nbytes*8
  const Obj &o = s.objs.get(id); uint64_t bo = o.boff + off; const Backing *b = s.backs.get(o.backing).get();
  bool sym = false; if (!b->s.empty()) for (unsigned i = 0; i < nbytes; i++) if (b->s[bo + i]) { sym = true; break; }
  if (!sym) { u128 v = 0; for (unsigned i = 0; i < nbytes; i++) v |= (u128)b->c[bo + i] << (8 * i); return Val(v, nbytes * 8); }
  bool un = false; for (unsigned i = 0; i < nbytes; i++) if (b->s[bo + i] == UNINIT) un = true;
  if (un) { Backing &bm = backMut(s, o.backing); for (unsigned i = 0; i < nbytes; i++) if (bm.s[bo + i] == UNINIT) { bm.s[bo + i] = freshSym(s, "uninit", 8); S.uninitReads++; } b = &bm; }
  E r = nullptr; for (int i = nbytes - 1; i >= 0; i--) { E x = b->s[bo + i] ? b->s[bo + i] : mkConst(b->c[bo + i], 8); r = r ? mkConcat(r, x) : x; }
  return Val(r); }
static void storeBytes(State &s, uint32_t id, uint64_t off, unsigned nbytes, const Val &v) {
  const Obj &o = s.objs.get(id); uint64_t bo = o.boff + off; Backing &b = backMut(s, o.backing);
  if (v.conc()) { for (unsigned i = 0; i < nbytes; i++) b.c[bo + i] = (uint8_t)(v.c >> (8 * i)); if (!b.s.empty()) for (unsigned i = 0; i < nbytes; i++) b.s[bo + i] = nullptr; return; }
  if (b.s.empty()) b.s.assign(b.c.size(), nullptr);
  E e = v.e; if (e->w < nbytes * 8) e = mkZExt(e, nbytes * 8);
  for (unsigned i = 0; i < nbytes; i++) { E x = mkExtract(e, 8 * i, 8); if (isC(x)) { b.c[bo + i] = (uint8_t)x->c; b.s[bo + i] = nullptr; } else b.s[bo + i] = x; } }

static Val loadTyped(State &s, uint32_t id, uint64_t off, Type *t) {
  if (auto st = dyn_cast<StructType>(t)) { Val r; r.agg = make_shared<vector<Val>>(); auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadTyped(s, id, off + sl->getElementOffset(i), st->getElementType(i))); return r; }
  if (auto at = dyn_cast<ArrayType>(t)) { Val r; r.agg = make_shared<vector<Val>>(); uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadTyped(s, id, off + i * es, at->getElementType())); return r; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = make_shared<vector<Val>>(); uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) r.agg->push_back(loadTyped(s, id, off + i * es, vt->getElementType())); return r; }
  unsigned bits = (unsigned)DL->getTypeSizeInBits(t), nb = (bits + 7) / 8; if (bits > 128) fail("load of type " + typeStr(t));
  Val v = loadBytes(s, id, off, nb); if (bits != nb * 8) { if (v.conc()) return Val(v.c, bits); return Val(mkExtract(v.e, 0, bits)); } return v; }
static void storeTyped(State &s, uint32_t id, uint64_t off, Type *t, const Val &v) {
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(s, id, off + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTyped(s, id, off + i * es, at->getElementType(), (*v.agg)[i]); return; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) storeTyped(s, id, off + i * es, vt->getElementType(), (*v.agg)[i]); return; }
  unsigned bits = (unsigned)DL->getTypeSizeInBits(t), nb = (bits + 7) / 8; if (bits > 128) fail("store of type " + typeStr(t));
  storeBytes(s, id, off, nb, v); }

static string readCStr(State &s, const Val &p, bool *sym = nullptr) { string r; uint64_t a = conc(s, p).u(); for (int i = 0; i < 4096; i++) { uint64_t off; uint32_t id = resolve(s, Val(a + i, 64), 1, false, off); Val v = loadBytes(s, id, off, 1); if (!v.conc()) { if (sym) *sym = true; v = Val(evalExpr(v.e, s.model), 8); } if (!v.c) break; r.push_back((char)v.c); } return r; }

// ---------------------------------------------------------------- constants
static Val zeroOf(Type *t) {
  if (auto st = dyn_cast<StructType>(t)) { Val r; r.agg = make_shared<vector<Val>>(); for (auto e : st->elements()) r.agg->push_back(zeroOf(e)); return r; }
  if (auto at = dyn_cast<ArrayType>(t)) { Val r; r.agg = make_shared<vector<Val>>(at->getNumElements(), zeroOf(at->getElementType())); return r; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = make_shared<vector<Val>>(vt->getNumElements(), zeroOf(vt->getElementType())); return r; }
  return Val(0, (unsigned)DL->getTypeSizeInBits(t)); }
static Val doBin(unsigned opc, const Val &a, const Val &b, Type *t, State *s);
static Val doCmp(CmpInst::Predicate p, const Val &a, const Val &b);
static Val doCast(unsigned opc, const Val &a, Type *from, Type *to);
static Val constVal(const Constant *c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { APInt v = ci->getValue(); u128 r = v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth()), 0); if (v.getBitWidth() > 64) r |= (u128)v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth() - 64), 64) << 64; if (v.getBitWidth() > 128) fail("wide const"); return Val(r, v.getBitWidth()); }
  if (auto cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth() > 64) { u128 r = v.extractBitsAsZExtValue(64, 0); r |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64; return Val(r, v.getBitWidth()); } return Val(v.getZExtValue(), v.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return Val(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto gv = dyn_cast<GlobalAlias>(c)) return constVal(gv->getAliasee());
  if (auto gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) fail("no address for global " + gv->getName().str()); return Val(it->second, 64); }
  if (auto ca = dyn_cast<ConstantAggregate>(c)) { Val r; r.agg = make_shared<vector<Val>>(); for (unsigned i = 0; i < ca->getNumOperands(); i++) r.agg->push_back(constVal(ca->getOperand(i))); return r; }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) { Val r; r.agg = make_shared<vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constVal(cd->getElementAsConstant(i))); return r; }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fail("const gep"); Val b = constVal(ce->getOperand(0)); return Val(b.c + off.getZExtValue(), 64); }
    if (ce->isCast()) return doCast(ce->getOpcode(), constVal(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
    if (ce->getOpcode() == Instruction::ICmp) return doCmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    return doBin(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), ce->getType(), nullptr); }
  if (auto dl = dyn_cast<DSOLocalEquivalent>(c)) return constVal(dl->getGlobalValue());
  string str; raw_string_ostream o(str); c->print(o); fail("constant: " + o.str()); }

// ---------------------------------------------------------------- operations
static double toD(const Val &v) { if (!v.conc()) fail("arithmetic on a symbolic floating-point value"); if (v.w == 32) { float f; uint32_t x = (uint32_t)v.c; memcpy(&f, &x, 4); return f; } if (v.w == 64) { double d; uint64_t x = (uint64_t)v.c; memcpy(&d, &x, 8); return d; } if (v.w == 80) { long double d = 0; memcpy(&d, &v.c, 10); return (double)d; } fail("fp width"); }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return Val(x, 32); } if (w == 64) { uint64_t x; memcpy(&x, &d, 8); return Val(x, 64); } if (w == 80) { long double l = d; u128 x = 0; memcpy(&x, &l, 10); return Val(x, 80); } fail("fp width"); }
static Val doBin(unsigned opc, const Val &a, const Val &b, Type *t, State *s) {
  if (a.agg) { Val r; r.agg = make_shared<vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(doBin(opc, (*a.agg)[i], (*b.agg)[i], t->getScalarType(), s)); return r; }
  Op op;
  if ((opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FMul || opc == Instruction::FDiv) && (a.w == 32 || a.w == 64)) return Val(mkFBin(opc == Instruction::FAdd ? Op::FAdd : opc == Instruction::FSub ? Op::FSub : opc == Instruction::FMul ? Op::FMul : Op::FDiv, a.expr(), b.expr()));
  switch (opc) {
    case Instruction::FAdd: return fromD(toD(a) + toD(b), a.w); case Instruction::FSub: return fromD(toD(a) - toD(b), a.w);
    case Instruction::FMul: return fromD(toD(a) * toD(b), a.w); case Instruction::FDiv: return fromD(toD(a) / toD(b), a.w);
    case Instruction::FRem: return fromD(fmod(toD(a), toD(b)), a.w);
    case Instruction::Sub: if (a.conc() && b.conc()) return Val(a.c - b.c, a.w); if (b.conc()) return Val(mkBin(Op::Add, mkConst((u128)0 - b.c, a.w), a.expr())); return Val(mkBin(Op::Add, a.expr(), mkBin(Op::Mul, mkConst(maskw(a.w), a.w), b.expr())));
    case Instruction::Add: op = Op::Add; break; case Instruction::Mul: op = Op::Mul; break;
    case Instruction::UDiv: op = Op::UDiv; break; case Instruction::SDiv: op = Op::SDiv; break; case Instruction::URem: op = Op::URem; break; case Instruction::SRem: op = Op::SRem; break;
    case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break; case Instruction::Xor: op = Op::Xor; break;
    case Instruction::Shl: op = Op::Shl; break; case Instruction::LShr: op = Op::LShr; break; case Instruction::AShr: op = Op::AShr; break;
    default: fail("binop " + std::to_string(opc)); }
  if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && s) {
    E z = mkEq(mkConst(0, b.w), b.expr()); Model m; if (isC(z) ? z->c != 0 : feasible(*s, z, &m)) { if (isC(z)) violate(*s, "division-by-zero", "division by zero"); report(*s, "division-by-zero", "division-by-zero", "divisor can be zero", m); Model m2; if (!feasible(*s, mkNot1(z), &m2)) throw PathEnd{1}; addPC(*s, mkNot1(z)); s->model = m2; } }
  if (a.conc() && b.conc()) { u128 r; if (!foldBin(op, a.c, b.c, a.w, r)) fail("fold"); return Val(r, a.w); }
  return Val(mkBin(op, a.expr(), b.expr())); }
static Val doCmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.agg) { Val r; r.agg = make_shared<vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(doCmp(p, (*a.agg)[i], (*b.agg)[i])); return r; }
  if (CmpInst::isFPPredicate(p) && !(a.conc() && b.conc()) && (a.w == 32 || a.w == 64)) { // exact on the bit patterns
    unsigned w = a.w; u128 inf = w == 32 ? 0x7f800000u : 0x7ff0000000000000ull; auto mag = [&](const Val &v) { return mkBin(Op::And, mkConst(maskw(w - 1), w), v.expr()); }; auto nan = [&](const Val &v) { return mkBin(Op::Ult, mkConst(inf, w), mag(v)); }; auto neg = [&](const Val &v) { return mkExtract(v.expr(), w - 1, 1); };
    E x = a.expr(), y = b.expr(), u = mkBin(Op::Or, nan(a), nan(b)), zz = mkEq(mkConst(0, w), mkBin(Op::Or, mag(a), mag(b))), eq = mkBin(Op::Or, mkEq(x, y), zz);
    auto lt = [&](const Val &p, const Val &q) { E pe = p.expr(), qe = q.expr(); return mkBin(Op::And, mkNot1(zz), mkIte(neg(p), mkIte(neg(q), mkBin(Op::Ult, qe, pe), mkConst(1, 1)), mkIte(neg(q), mkConst(0, 1), mkBin(Op::Ult, pe, qe)))); };
    unsigned k = (unsigned)p; E r = mkConst(0, 1); // bit 0: equal, 1: greater, 2: less, 3: unordered
    if (k & 1) r = mkBin(Op::Or, r, eq); if (k & 2) r = mkBin(Op::Or, r, lt(b, a)); if (k & 4) r = mkBin(Op::Or, r, lt(a, b)); r = mkBin(Op::And, r, mkNot1(u)); if (k & 8) r = mkBin(Op::Or, r, u); return Val(r); }
  if (CmpInst::isFPPredicate(p)) { double x = toD(a), y = toD(b); bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (p) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_OGT: r = !u && x > y; break; case CmpInst::FCMP_OGE: r = !u && x >= y; break; case CmpInst::FCMP_OLT: r = !u && x < y; break; case CmpInst::FCMP_OLE: r = !u && x <= y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break; case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; case CmpInst::FCMP_UNE: r = u || x != y; break; default: r = true; }
    return Val(r, 1); }
  if (a.conc() && b.conc()) { i128 x = sextw(a.c, a.w), y = sextw(b.c, b.w); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; }
    return Val(r, 1); }
  E x = a.expr(), y = b.expr();
  switch (p) { case CmpInst::ICMP_EQ: return Val(mkEq(x, y)); case CmpInst::ICMP_NE: return Val(mkNot1(mkEq(x, y))); case CmpInst::ICMP_UGT: return Val(mkBin(Op::Ult, y, x)); case CmpInst::ICMP_UGE: return Val(mkBin(Op::Ule, y, x)); case CmpInst::ICMP_ULT: return Val(mkBin(Op::Ult, x, y)); case CmpInst::ICMP_ULE: return Val(mkBin(Op::Ule, x, y)); case CmpInst::ICMP_SGT: return Val(mkBin(Op::Slt, y, x)); case CmpInst::ICMP_SGE: return Val(mkBin(Op::Sle, y, x)); case CmpInst::ICMP_SLT: return Val(mkBin(Op::Slt, x, y)); default: return Val(mkBin(Op::Sle, x, y)); } }
static Val doCast(unsigned opc, const Val &a, Type *from, Type *to) {
  if (a.agg && to->isVectorTy() && opc != Instruction::BitCast) { Val r; r.agg = make_shared<vector<Val>>(); for (auto &x : *a.agg) r.agg->push_back(doCast(opc, x, from->getScalarType(), to->getScalarType())); return r; }
  if (opc == Instruction::BitCast && (from->isVectorTy() || to->isVectorTy())) {
    E bits = nullptr; if (a.agg) { for (int i = (int)a.agg->size() - 1; i >= 0; i--) { E x = (*a.agg)[i].expr(); bits = bits ? mkConcat(bits, x) : x; } } else bits = a.expr();
    if (auto vt = dyn_cast<FixedVectorType>(to)) { Val r; r.agg = make_shared<vector<Val>>(); unsigned ew = DL->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(Val(mkExtract(bits, i * ew, ew))); return r; } return Val(bits); }
  unsigned tw = (unsigned)DL->getTypeSizeInBits(to);
  switch (opc) {
    case Instruction::BitCast: return a; case Instruction::AddrSpaceCast: return a;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: if (a.conc()) return Val(a.c, tw); return Val(mkZExt(a.e, tw));
    case Instruction::SExt: if (a.conc()) return Val((u128)sextw(a.c, a.w), tw); return Val(mkSExt(a.e, tw));
    case Instruction::Trunc: if (a.conc()) return Val(a.c, tw); return Val(mkExtract(a.e, 0, tw));
    case Instruction::FPExt: case Instruction::FPTrunc: if ((a.w == 32 || a.w == 64) && (tw == 32 || tw == 64)) return Val(mkFCast(Op::FCvt, a.expr(), tw)); return fromD(toD(a), tw);
    case Instruction::FPToSI: case Instruction::FPToUI: if (!a.conc() && (a.w == 32 || a.w == 64)) return Val(mkFCast(opc == Instruction::FPToSI ? Op::FToS : Op::FToU, a.expr(), tw)); if (opc == Instruction::FPToUI) return Val((u128)(uint64_t)toD(a), tw); return Val((u128)(i128)(int64_t)toD(a), tw);
    case Instruction::SIToFP: if (tw == 32 || tw == 64) return Val(mkFCast(Op::SToF, a.expr(), tw)); if (!a.conc()) fail("sitofp on symbolic"); return fromD((double)(int64_t)sextw(a.c, a.w), tw); case Instruction::UIToFP: if (tw == 32 || tw == 64) return Val(mkFCast(Op::UToF, a.expr(), tw)); if (!a.conc()) fail("uitofp on symbolic"); return fromD((double)(uint64_t)a.c, tw); }
  fail("cast"); }

// ---------------------------------------------------------------- function decoding
static int lookupBuiltin(const string &n);
static FnInfo *getFn(Function *F) {
  auto it = fninfo.find(F); if (it != fninfo.end()) return it->second;
  FnInfo *fi = new FnInfo(); fninfo[F] = fi; fi->F = F;
  if (auto sp = F->getSubprogram()) { fi->where = (sp->getFilename().str()[0] == '/' ? sp->getFilename().str() : sp->getDirectory().str() + "/" + sp->getFilename().str()); fi->inRepo = fi->where.rfind(repoPrefix, 0) == 0; }
  map<const Value *, int> slot; for (auto &a : F->args()) slot[&a] = fi->nslots++;
  for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) slot[&i] = fi->nslots++;
  map<const Constant *, int> cidx;
  auto opIdx = [&](Value *v) -> int {
    auto s = slot.find(v); if (s != slot.end()) return s->second;
    if (auto c = dyn_cast<Constant>(v)) { auto f = cidx.find(c); if (f != cidx.end()) return f->second; fi->consts.push_back(constVal(c)); int r = ~(int)(fi->consts.size() - 1); cidx[c] = r; return r; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { fi->consts.push_back(Val(0, 64)); return ~(int)(fi->consts.size() - 1); }
    fail("operand kind"); };
  for (auto &bb : *F) { fi->bbIdx[&bb] = fi->bbs.size(); fi->bbs.push_back({&bb, {}}); }
  for (auto &b : fi->bbs) for (auto &i : *b.bb) {
      fi->ninst++;
      DInst d; d.I = &i; d.opc = i.getOpcode(); d.dst = i.getType()->isVoidTy() ? -1 : slot[&i]; d.w = i.getType()->isSized() && !i.getType()->isVoidTy() ? (unsigned)DL->getTypeSizeInBits(i.getType()) : 0;
      if (auto cb = dyn_cast<CallBase>(&i)) {
        for (auto &a : cb->args()) d.ops.push_back(opIdx(a.get()));
        Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        d.callee = dyn_cast<Function>(cv); if (!d.callee) { if (isa<InlineAsm>(cv)) d.builtin = -2; else d.ops.push_back(opIdx(cb->getCalledOperand())); }
        if (d.callee) d.builtin = lookupBuiltin(d.callee->getName().str());
        if (auto iv = dyn_cast<InvokeInst>(&i)) d.succ = {fi->bbIdx[iv->getNormalDest()], fi->bbIdx[iv->getUnwindDest()]};
      } else if (auto g = dyn_cast<GetElementPtrInst>(&i)) {
        d.gep = make_shared<GepInfo>(); d.ops.push_back(opIdx(g->getPointerOperand())); if (g->getType()->isVectorTy()) fail("vector gep");
        for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *op = gi.getOperand();
          if (auto st = gi.getStructTypeOrNull()) { d.gep->coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); }
          else { int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(op)) d.gep->coff += sz * ci->getSExtValue(); else d.gep->terms.push_back({opIdx(op), sz}); } }
      } else if (auto p = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { d.succ.push_back(fi->bbIdx[p->getIncomingBlock(k)]); d.ops.push_back(opIdx(p->getIncomingValue(k))); } }
      else if (auto br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) d.ops.push_back(opIdx(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.succ.push_back(fi->bbIdx[br->getSuccessor(k)]); }
      else if (auto sw = dyn_cast<SwitchInst>(&i)) { d.ops.push_back(opIdx(sw->getCondition())); d.succ.push_back(fi->bbIdx[sw->getDefaultDest()]); for (auto &c : sw->cases()) { d.ops.push_back(opIdx(c.getCaseValue())); d.succ.push_back(fi->bbIdx[c.getCaseSuccessor()]); } }
      else if (isa<LandingPadInst>(&i)) {}
      else for (auto &o : i.operands()) d.ops.push_back(opIdx(o.get()));
      b.ins.push_back(std::move(d)); }
  return fi; }

static inline Val getOp(Frame &f, int o) { return o >= 0 ? f.regs[o] : f.fn->consts[~o]; }

// ---------------------------------------------------------------- calls
static void pushFrame(State &s, int t, Function *F, const vector<Val> &args) {
  if (F->isDeclaration()) fail("call to undefined function " + F->getName().str());
  FnInfo *fi = getFn(F); fi->executed = true; auto &st = s.th[t].st; if (st.size() > 400) violate(s, "stack-overflow", "call depth over 400 in " + demangle(F->getName().str()));
  st.emplace_back(); Frame &f = st.back(); f.fn = fi; f.regs.resize(fi->nslots); size_t n = F->arg_size();
  for (size_t i = 0; i < n; i++) { if (i >= args.size()) fail("missing argument"); f.regs[i] = args[i]; }
  unsigned i = 0; for (auto &a : F->args()) { if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); uint64_t off; uint32_t id = resolve(s, f.regs[i], sz, false, off); uint32_t nid = newObj(s, sz, OStack, false, "byval"); f.allocas.push_back(nid);
      Backing src = *s.backs.get(s.objs.get(id).backing); uint64_t bo = s.objs.get(id).boff + off; Backing &d = backMut(s, s.objs.get(nid).backing); for (uint64_t k = 0; k < sz; k++) { d.c[k] = src.c[bo + k]; d.s[k] = src.s.empty() ? nullptr : src.s[bo + k]; } f.regs[i] = Val(s.objs.get(nid).base, 64); } i++; }
  for (size_t k = n; k < args.size(); k++) f.varargs.push_back(args[k]); }
static void freeAllocas(State &s, Frame &f) { for (uint32_t id : f.allocas) { Obj &o = s.objs.mut(id); o.alive = false; s.backs.mut(o.backing).reset(); } }
static void finishCall(State &s, Thread &t, const Val *ret) { // current top frame is the caller; ip at the call
  Frame &f = t.st.back(); DInst &d = f.fn->bbs[f.bb].ins[f.ip]; if (d.dst >= 0 && ret) f.regs[d.dst] = *ret; (void)s;
  if (d.opc == Instruction::Invoke) { f.prev = f.bb; f.bb = d.succ[0]; f.ip = 0; } else f.ip++; }

// ---------------------------------------------------------------- exceptions
static map<uint64_t, int> typeIds; static int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[ti] = n; return n; }
static vector<uint64_t> tiBases(State &s, uint64_t ti) { // direct bases
  vector<uint64_t> r; uint32_t id = idOf(ti); if (id >= s.objs.n) return r; const Obj &o = s.objs.get(id); if (o.size < 24) return r;
  uint64_t b = loadBytes(s, id, 16, 8).u();
  uint32_t bid = idOf(b); if (o.size == 24 && bid < s.objs.n && bid > 0) { r.push_back(b); return r; }
  if (o.size >= 40) { unsigned n = (unsigned)loadBytes(s, id, 20, 4).u(); for (unsigned i = 0; i < n && 24 + 16 * i + 8 <= o.size; i++) r.push_back(loadBytes(s, id, 24 + 16 * i, 8).u()); }
  return r; }
static bool tiMatch(State &s, uint64_t thrown, uint64_t want) { if (thrown == want) return true; for (uint64_t b : tiBases(s, thrown)) if (tiMatch(s, b, want)) return true; return false; }
static string tiName(State &s, uint64_t ti) { for (auto &g : gaddr) if (g.second == ti) return demangle(g.first->getName().str()); (void)s; return "?"; }
static void unwind(State &s, Exc ex) { // throw ex from the current thread's current position (top frame at the throwing call)
  Thread &t = s.th[s.cur]; vector<string> where = stackOf(s);
  while (!t.st.empty()) {
    Frame &f = t.st.back(); DInst &d = f.fn->bbs[f.bb].ins[f.ip];
    if (d.opc == Instruction::Invoke) {
      BasicBlock *ub = f.fn->bbs[d.succ[1]].bb; LandingPadInst *lp = ub->getLandingPadInst(); int sel = -1; 
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (lp->isCatch(i)) { Val c = constVal(lp->getClause(i)); if (c.u() == 0) sel = typeId(0); else if (tiMatch(s, ex.tinfo, c.u())) sel = typeId(c.u()); }
        else { // filter: matches if thrown type not in list
          Constant *fl = lp->getClause(i); bool in = false; if (auto ca = dyn_cast<ConstantArray>(fl)) for (unsigned k = 0; k < ca->getNumOperands(); k++) { Val c = constVal(ca->getOperand(k)); if (tiMatch(s, ex.tinfo, c.u())) in = true; } if (!in) violate(s, "terminate", "exception specification violated by " + tiName(s, ex.tinfo)); } }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) { Val r; r.agg = make_shared<vector<Val>>(); r.agg->push_back(Val(ex.obj, 64)); r.agg->push_back(Val(sel, 32));
        f.prev = f.bb; f.bb = d.succ[1]; f.ip = 0;
        // phis first handled by block entry; landingpad is first non-phi: stash result
        BBInfo &nb = f.fn->bbs[f.bb]; vector<std::pair<int, Val>> phis; while (nb.ins[f.ip].opc == Instruction::PHI) { DInst &p = nb.ins[f.ip]; for (size_t k = 0; k < p.succ.size(); k++) if (p.succ[k] == f.prev) { phis.push_back({p.dst, getOp(f, p.ops[k])}); break; } f.ip++; } for (auto &p : phis) f.regs[p.first] = p.second;
        DInst &l = nb.ins[f.ip]; if (l.dst >= 0) f.regs[l.dst] = r; f.ip++;
        return; } }
    freeAllocas(s, f); t.st.pop_back(); }
  t.status = TDone; t.uncaught = true;
  { Viol v = mkViol(s, "terminate", "uncaught-exception", "uncaught exception of type " + tiName(s, ex.tinfo), s.model); v.stack = where; S.violations++; if (violCount["terminate|uncaught"]++ < maxPerLabel) viols.push_back(v); if (!quiet) { fprintf(stderr, "UNCAUGHT %s\n", tiName(s, ex.tinfo).c_str()); for (auto &l : where) fprintf(stderr, "   %s\n", l.c_str()); } }
  throw PathEnd{1}; }
static map<uint64_t, Exc> dummy;
static map<uint64_t, uint64_t> excTypes;  // exception object address -> type info (object ids are never reused)
static void throwStd(State &s, const char *tiSym) { GlobalVariable *g = M->getGlobalVariable(tiSym, true); if (!g) fail(string("no typeinfo ") + tiSym); uint32_t id = newObj(s, 64, OHeap, true, "std exception"); uint64_t a = s.objs.get(id).base; excTypes[a] = gaddr[g]; if (auto *v = M->getGlobalVariable("sx_excvt", true)) storeBytes(s, id, 0, 8, Val(gaddr[v], 64)); unwind(s, Exc{a, gaddr[g]}); }

// ---------------------------------------------------------------- scheduling
static int liveThreads(State &s) { int n = 0; for (auto &t : s.th) if (t.status != TDone && t.status != TCrashed) n++; return n; }
static bool indep(const PendOp &a, const PendOp &b) { if (!a.write && !b.write) return true; return a.key + a.len <= b.key || b.key + b.len <= a.key; }
static bool ovl(uint64_t k1, uint64_t n1, uint64_t k2, uint64_t n2) { return k1 < k2 + n2 && k2 < k1 + n1; }
static void wroteKey(State &s, int by, const PendOp &op, bool wake = true) { // wake: a thread resumed from sx_block only takes something away, so it cannot enable other blocked threads
  { auto &r = s.th[by].reads; std::pair<uint64_t, uint64_t> k(op.key, op.len); if (std::find(r.begin(), r.end(), k) == r.end()) r.push_back(k); }
  if (!op.write) return; s.writes++; s.th[by].ownWrites++;
  for (size_t i = 0; i < s.th.size(); i++) { if ((int)i == by) continue; Thread &t = s.th[i];
    if (t.status == TBlocked && t.recheck) { if (wake && ovl(t.blockKey, 1, op.key, op.len)) { t.status = TRun; t.pend.known = false; } continue; }
    if (t.status == TBlocked) { if (wake && ovl(t.blockKey, 1, op.key, op.len)) { t.status = TRun; t.pend = PendOp{t.blockKey, 1, true, true}; t.blockedDecl = true; } continue; }
    bool hit = t.reads.empty(); for (auto &k : t.reads) if (ovl(k.first, k.second, op.key, op.len)) { hit = true; break; }
    if (hit) { if (t.status == TSleeping) { t.status = TRun; t.pend.known = false; t.dirty = true; } else t.dirty = true; }
    if (t.status == TRun && t.pend.known && !t.granted && ovl(t.pend.key, t.pend.len, op.key, op.len) && !t.blockedDecl) { t.pend.known = false; t.stale = true; } } }
// returns true if current thread may execute the visible operation now; false => yield to scheduler
static bool visible(State &s, uint64_t key, uint64_t len, bool write) {
  Thread &t = s.th[s.cur]; t.stale = false; t.blockedDecl = false;
  if (t.granted) { t.granted = false; S.visops++; s.visops++; PendOp op{key, len, write, true}; t.pend.known = false; wroteKey(s, s.cur, op); return true; }
  if (liveThreads(s) == 1 && !(t.canCrash && s.crashes < maxCrashes)) { S.visops++; s.visops++; wroteKey(s, s.cur, PendOp{key, len, write, true}); return true; }
  t.pend = PendOp{key, len, write, true}; return false; }

static void crashPid(State &s, int pid) { for (auto &t : s.th) if (t.pid == pid && t.canCrash && t.status != TDone) t.status = TCrashed; s.crashes++; }

// choose what to run next. Returns false if the state is finished/pruned (caller drops it).
static bool schedule(State &s) {
  for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TRun && !s.th[i].pend.known) { s.cur = i; return true; }
  vector<int> cand; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TRun) cand.push_back(i);
  if (cand.empty()) {
    for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TJoin) { s.th[i].status = TRun; s.th[i].pend.known = false; s.cur = i; return true; }
    if (s.th[0].status == TDone) return false;
    s.cur = 0; report(s, "deadlock", "deadlock", "the main program waits forever", s.model); throw PathEnd{1}; }
  S.decisions++;
  vector<int> avail; for (int t : cand) if (!s.sleep.count(t)) avail.push_back(t);
  if (avail.empty()) throw PathEnd{2};
  // prefer to continue the last thread
  std::stable_sort(avail.begin(), avail.end(), [&](int a, int b) { return (a == s.lastRan) > (b == s.lastRan); });
  struct Alt { int t; bool crash; std::set<int> sleep; int pre; };
  vector<Alt> alts; std::set<int> done = s.sleep;
  bool lastEnabled = std::find(cand.begin(), cand.end(), s.lastRan) != cand.end();
  for (int t : avail) {
    int pre = s.preempt + (lastEnabled && t != s.lastRan ? 1 : 0);
    if (maxPreempt >= 0 && pre > maxPreempt) { S.preBounded++; continue; }
    std::set<int> sl; for (int u : done) if (indep(s.th[u].pend, s.th[t].pend)) sl.insert(u);
    alts.push_back({t, false, sl, pre});
    if (s.th[t].canCrash && s.crashes < maxCrashes) alts.push_back({t, true, {}, pre});
    done.insert(t); }
  if (alts.empty()) throw PathEnd{2};
  bool rec = liveThreads(s) > 1 || s.th[s.cur].canCrash;
  for (size_t i = alts.size(); i-- > 0;) {
    State *n; std::unique_ptr<State> own; if (i > 0) { own = cloneState(s); n = own.get(); } else n = &s;
    Alt &a = alts[i]; 
    if (a.crash) { (void)rec; n->sched.push(1000 + n->th[a.t].pid); crashPid(*n, n->th[a.t].pid); n->sleep.clear(); n->lastRan = -1; }
    else { n->sched.push(a.t); n->cur = a.t; n->lastRan = a.t; n->th[a.t].granted = true; n->sleep = a.sleep; n->preempt = a.pre; }
    if (i > 0) work.push_back(std::move(own)); }
  if (alts[0].crash) return schedule(s);
  return true; }

// ---------------------------------------------------------------- builtins
typedef std::function<bool(State &, DInst &, vector<Val> &, Val &)> BFn;   // return true: done (finishCall with ret); false: handled control itself / retry
static vector<std::pair<string, BFn>> builtins; static map<string, int> builtinIdx; static vector<std::pair<string, int>> builtinPrefix;
static int lookupBuiltin(const string &n) { auto it = builtinIdx.find(n); if (it != builtinIdx.end()) return it->second; for (auto &p : builtinPrefix) if (n.rfind(p.first, 0) == 0) return p.second; return -1; }
static void B(const string &n, BFn f) { builtinIdx[n] = builtins.size(); builtins.push_back({n, f}); }
static void BP(const string &n, BFn f) { builtinPrefix.push_back({n, (int)builtins.size()}); builtins.push_back({n, f}); }

// memcpy between objects; shared chunks are visible operations of 4 bytes: handled by a per-frame progress register in `prog`
static void copyRaw(State &s, uint32_t di, uint64_t doff, uint32_t si, uint64_t soff, uint64_t n) {
  if (!n) return; shared_ptr<Backing> src = s.backs.get(s.objs.get(si).backing); uint64_t sb = s.objs.get(si).boff + soff; uint64_t db = s.objs.get(di).boff + doff;
  Backing tmp; vector<uint8_t> c(src->c.begin() + sb, src->c.begin() + sb + n); vector<E> sy; if (!src->s.empty()) sy.assign(src->s.begin() + sb, src->s.begin() + sb + n); src.reset();
  Backing &d = backMut(s, s.objs.get(di).backing); std::copy(c.begin(), c.end(), d.c.begin() + db);
  bool any = false; for (E e : sy) if (e) any = true;
  if (any && d.s.empty()) d.s.assign(d.c.size(), nullptr);
  if (!d.s.empty()) for (uint64_t i = 0; i < n; i++) d.s[db + i] = sy.empty() ? nullptr : sy[i]; }

static void sxAssert(State &s, E c, const string &label) {
  assertHits[label]++; S.oblig++;
  if (isC(c)) { S.obligTrivial++; if (!c->c) { report(s, label, "assertion", "assertion false on this path", s.model); throw PathEnd{1}; } return; }
  S.obligSolver++; assertSolver[label]++;
  Model m = s.model; E nc = mkNot1(c); SatRes r = modelTrue(s, nc) ? SatRes::Sat : solve(s.pc, nc, &m);
  if (r == SatRes::Unknown) { S.obligUnknown++; fail("solver returned unknown on assertion " + label); }
  if (r == SatRes::Sat) { report(s, label, "assertion", "assertion can be false: " + exprStr(c, 5), m); Model m2; if (!feasible(s, c, &m2)) throw PathEnd{1}; addPC(s, c); s.model = m2; } }

static Val symBytes(State &s, uint64_t a, uint64_t n, const string &name) {
  uint64_t off; uint32_t id = resolve(s, Val(a, 64), n, true, off); SymRec r; r.name = name;
  for (uint64_t i = 0; i < n; i++) { E e = freshSym(s, name + "[" + std::to_string(i) + "]", 8); r.syms.push_back((uint32_t)e->c); storeBytes(s, id, off + i, 1, Val(e)); }
  s.symrecs.push(r); return Val(0, 32); }

static Function *fnOf(State &s, const Val &p) { (void)s; auto it = fnAt.find(p.u()); return it == fnAt.end() ? nullptr : it->second; }

static void initBuiltins() {
  auto nop = [](State &, DInst &d, vector<Val> &, Val &r) { if (d.dst >= 0) r = zeroOf(d.I->getType()); return true; };
  for (const char *p : {"llvm.lifetime.", "llvm.dbg.", "llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.prefetch", "llvm.invariant.", "llvm.va_end", "llvm.donothing", "llvm.stackrestore", "llvm.stacksave", "llvm.sideeffect", "llvm.pseudoprobe"}) BP(p, nop);
  auto ident = [](State &, DInst &, vector<Val> &a, Val &r) { r = a[0]; return true; };
  for (const char *p : {"llvm.launder.invariant", "llvm.strip.invariant", "llvm.expect", "llvm.threadlocal.address", "llvm.ssa.copy", "llvm.annotation", "llvm.ptr.annotation"}) BP(p, ident);
  BP("llvm.is.constant", [](State &, DInst &, vector<Val> &, Val &r) { r = Val(0, 1); return true; });
  BP("llvm.objectsize", [](State &, DInst &d, vector<Val> &a, Val &r) { r = Val(a[1].c ? 0 : ~(u128)0, d.w); return true; });
  BP("llvm.trap", [](State &s, DInst &, vector<Val> &, Val &) { violate(s, "trap", "llvm.trap executed"); return false; });
  auto minmax = [](CmpInst::Predicate p) { return [p](State &, DInst &, vector<Val> &a, Val &r) { if (a[0].agg) { r.agg = make_shared<vector<Val>>(); for (size_t i = 0; i < a[0].agg->size(); i++) { Val c = doCmp(p, (*a[0].agg)[i], (*a[1].agg)[i]); if (!c.conc()) r.agg->push_back(Val(mkIte(c.e, (*a[0].agg)[i].expr(), (*a[1].agg)[i].expr()))); else r.agg->push_back(c.c ? (*a[0].agg)[i] : (*a[1].agg)[i]); } return true; } Val c = doCmp(p, a[0], a[1]); if (c.conc()) r = c.c ? a[0] : a[1]; else r = Val(mkIte(c.e, a[0].expr(), a[1].expr())); return true; }; };
  BP("llvm.umax.", minmax(CmpInst::ICMP_UGT)); BP("llvm.umin.", minmax(CmpInst::ICMP_ULT)); BP("llvm.smax.", minmax(CmpInst::ICMP_SGT)); BP("llvm.smin.", minmax(CmpInst::ICMP_SLT));
  BP("llvm.abs.", [](State &, DInst &, vector<Val> &a, Val &r) { if (a[0].conc()) { i128 v = sextw(a[0].c, a[0].w); r = Val((u128)(v < 0 ? -v : v), a[0].w); } else { E n = mkBin(Op::Mul, mkConst(maskw(a[0].w), a[0].w), a[0].e); r = Val(mkIte(mkBin(Op::Slt, a[0].e, mkConst(0, a[0].w)), n, a[0].e)); } return true; });
  BP("llvm.ctpop.", [](State &s, DInst &, vector<Val> &a, Val &r) { Val v = conc(s, a[0]); int n = 0; for (unsigned i = 0; i < v.w; i++) n += (int)((v.c >> i) & 1); r = Val(n, v.w); return true; });
  BP("llvm.ctlz.", [](State &s, DInst &, vector<Val> &a, Val &r) { Val v = conc(s, a[0]); int n = 0; for (int i = v.w - 1; i >= 0 && !((v.c >> i) & 1); i--) n++; r = Val(n, v.w); return true; });
  BP("llvm.cttz.", [](State &s, DInst &, vector<Val> &a, Val &r) { Val v = conc(s, a[0]); int n = 0; for (unsigned i = 0; i < v.w && !((v.c >> i) & 1); i++) n++; r = Val(n, v.w); return true; });
  BP("llvm.bswap.", [](State &, DInst &, vector<Val> &a, Val &r) { E e = a[0].expr(), o = nullptr; for (unsigned i = 0; i < e->w / 8; i++) { E x = mkExtract(e, 8 * i, 8); o = o ? mkConcat(o, x) : x; } r = Val(o); return true; });
  auto fsh = [](bool left) { return [left](State &s, DInst &, vector<Val> &a, Val &r) { unsigned w = a[0].w; unsigned k = (unsigned)(conc(s, a[2]).c % w); if (!left) k = (w - k) % w; if (k == 0) { r = left ? a[0] : a[1]; return true; } r = Val(mkConcat(mkExtract(a[0].expr(), 0, w - k), mkExtract(a[1].expr(), w - k, k))); return true; }; };
  BP("llvm.fshl.", fsh(true)); BP("llvm.fshr.", fsh(false));
  auto ovf = [](unsigned opc, bool sg) { return [opc, sg](State &s, DInst &, vector<Val> &a, Val &r) { unsigned w = a[0].w; r.agg = make_shared<vector<Val>>(); Val v = doBin(opc, a[0], a[1], nullptr, nullptr); r.agg->push_back(v); (void)s;
      if (a[0].conc() && a[1].conc()) { bool o; if (sg) { i128 x = sextw(a[0].c, w), y = sextw(a[1].c, w), z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; o = z != sextw(v.c, w); } else { u128 x = a[0].c, y = a[1].c; if (opc == Instruction::Sub) o = x < y; else { u128 z = opc == Instruction::Add ? x + y : x * y; o = z != v.c; } } r.agg->push_back(Val(o, 1)); return true; }
      unsigned W = std::min(128u, opc == Instruction::Mul ? 2 * w : w + 1); auto ext = [&](const Val &x) { return sg ? mkSExt(x.expr(), W) : mkZExt(x.expr(), W); }; Val wide = doBin(opc, Val(ext(a[0])), Val(ext(a[1])), nullptr, nullptr); r.agg->push_back(Val(mkNot1(mkEq(wide.expr(), ext(v))))); return true; }; };
  BP("llvm.sadd.with", ovf(Instruction::Add, true)); BP("llvm.uadd.with", ovf(Instruction::Add, false)); BP("llvm.ssub.with", ovf(Instruction::Sub, true)); BP("llvm.usub.with", ovf(Instruction::Sub, false)); BP("llvm.smul.with", ovf(Instruction::Mul, true)); BP("llvm.umul.with", ovf(Instruction::Mul, false));
  BP("llvm.usub.sat", [](State &, DInst &, vector<Val> &a, Val &r) { Val c = doCmp(CmpInst::ICMP_ULT, a[0], a[1]); Val d = doBin(Instruction::Sub, a[0], a[1], nullptr, nullptr); if (c.conc()) r = c.c ? Val(0, a[0].w) : d; else r = Val(mkIte(c.e, mkConst(0, a[0].w), d.expr())); return true; });
  BP("llvm.uadd.sat", [](State &, DInst &, vector<Val> &a, Val &r) { Val d = doBin(Instruction::Add, a[0], a[1], nullptr, nullptr); Val c = doCmp(CmpInst::ICMP_ULT, d, a[0]); if (c.conc()) r = c.c ? Val(maskw(a[0].w), a[0].w) : d; else r = Val(mkIte(c.e, mkConst(maskw(a[0].w), a[0].w), d.expr())); return true; });
  auto f1 = [](double (*fn)(double)) { return [fn](State &, DInst &, vector<Val> &a, Val &r) { r = fromD(fn(toD(a[0])), a[0].w); return true; }; };
  BP("llvm.fabs.", [](State &, DInst &, vector<Val> &a, Val &r) { if (a[0].agg) return false; r = Val(mkBin(Op::And, mkConst(maskw(a[0].w - 1), a[0].w), a[0].expr())); return true; }); BP("llvm.floor.", f1(floor)); BP("llvm.ceil.", f1(ceil)); BP("llvm.sqrt.", f1(sqrt)); B("ceil", f1(ceil)); B("floor", f1(floor)); B("sqrt", f1(sqrt));
  BP("llvm.load.relative.", [](State &s, DInst &, vector<Val> &a, Val &r) { Val o = conc(s, a[1]); uint64_t off; uint32_t id = resolve(s, Val(a[0].c + o.c, 64), 4, false, off); Val d = loadBytes(s, id, off, 4); r = Val(a[0].c + (u128)sextw(d.c, 32), 64); return true; });
  BP("llvm.eh.typeid.for", [](State &, DInst &, vector<Val> &a, Val &r) { r = Val(typeId(a[0].u()), 32); return true; });
  BP("llvm.vector.reduce.", [](State &, DInst &d, vector<Val> &, Val &) -> bool { fail("vector reduce " + instStr(d.I)); });
  // memory intrinsics (forward copies of at most 4 bytes at a time when shared memory is involved)
  auto cpy = [](State &s, DInst &d, vector<Val> &a, Val &r) -> bool {
    Val dst = conc(s, a[0]), src = conc(s, a[1]); uint64_t n = conc(s, a[2]).u(); if (d.dst >= 0) r = a[0]; if (!n) return true;
    uint64_t doff, soff; uint32_t si = resolve(s, src, n, false, soff), di = resolve(s, dst, n, true, doff);
    if ((s.objs.get(si).shared || s.objs.get(di).shared) && s.multi) {
      Frame &f = s.th[s.cur].st.back(); // progress in a hidden vararg slot
      if (f.varargs.empty() || f.varargs.back().w != 7777) { Val p; p.w = 7777; p.c = 0; f.varargs.push_back(p); }
      for (;;) { uint64_t pos = (uint64_t)(s.th[s.cur].st.back().varargs.back().c >> 1); bool half = s.th[s.cur].st.back().varargs.back().c & 1; if (pos >= n) break; uint64_t k = std::min<uint64_t>(4, n - pos);
        bool sh1 = s.objs.get(si).shared, sh2 = s.objs.get(di).shared;
        if (!half && sh1) { auto &o = s.objs.get(si); if (!visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + soff + pos), k, false)) return false; }
        s.th[s.cur].st.back().varargs.back().c |= 1;
        // note: source value is read when the write happens; the pair is atomic only if both are shared (not the case here)
        if (sh2) { auto &o = s.objs.get(di); if (!visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + doff + pos), k, true)) return false; }
        copyRaw(s, di, doff + pos, si, soff + pos, k); s.th[s.cur].st.back().varargs.back().c = (u128)(pos + k) << 1; }
      s.th[s.cur].st.back().varargs.pop_back(); return true; }
    copyRaw(s, di, doff, si, soff, n); return true; };
  BP("llvm.memcpy.", cpy); BP("llvm.memmove.", cpy); B("memcpy", cpy); B("memmove", cpy);
  auto mset = [](State &s, DInst &d, vector<Val> &a, Val &r) -> bool { Val dst = conc(s, a[0]); uint64_t n = conc(s, a[2]).u(); if (d.dst >= 0) r = a[0]; if (!n) return true; uint64_t off; uint32_t id = resolve(s, dst, n, true, off);
    if (s.objs.get(id).shared && s.multi) { auto &o = s.objs.get(id); if (!visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + off), n, true)) return false; }
    Val b = a[1].conc() ? Val(a[1].c, 8) : Val(mkExtract(a[1].e, 0, 8)); 
    if (b.conc()) { const Obj &o = s.objs.get(id); Backing &bk = backMut(s, o.backing); uint64_t bo = o.boff + off; std::fill(bk.c.begin() + bo, bk.c.begin() + bo + n, (uint8_t)b.c); if (!bk.s.empty()) std::fill(bk.s.begin() + bo, bk.s.begin() + bo + n, (E) nullptr); }
    else for (uint64_t i = 0; i < n; i++) storeBytes(s, id, off + i, 1, b); return true; };
  BP("llvm.memset.", mset); B("memset", mset);
  B("llvm.va_start", [](State &s, DInst &, vector<Val> &a, Val &) { // all arguments from the overflow area
    Frame &f = s.th[s.cur].st.back(); vector<Val> va = f.varargs; uint32_t id = newObj(s, 8 * va.size() + 8, OStack, true, "varargs"); s.th[s.cur].st.back().allocas.push_back(id);
    for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.agg) fail("aggregate vararg"); storeBytes(s, id, 8 * i, 8, v.conc() ? Val(v.c, 64) : Val(mkZExt(v.e, 64))); }
    uint64_t off; uint32_t v = resolve(s, a[0], 24, true, off); storeBytes(s, v, off, 4, Val(48, 32)); storeBytes(s, v, off + 4, 4, Val(176, 32)); storeBytes(s, v, off + 8, 8, Val(s.objs.get(id).base, 64)); storeBytes(s, v, off + 16, 8, Val(0, 64)); return true; });
  B("llvm.va_copy", [](State &s, DInst &, vector<Val> &a, Val &) { uint64_t o1, o2; uint32_t d = resolve(s, a[0], 24, true, o1), sr = resolve(s, a[1], 24, false, o2); copyRaw(s, d, o1, sr, o2, 24); return true; });
  // heap
  auto alloc = [](const char *what) { return [what](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t n = conc(s, a[0]).u(); if (n > (1u << 23)) { // a request no allocator of this model satisfies
        r = Val(0, 64); if (what[0] == 'n') { throwStd(s, "_ZTISt9bad_alloc"); return false; } return true; } uint32_t id = newObj(s, n, OHeap, false, what); s.objs.mut(id).how = what[0] == 'n' ? 1 : 2; r = Val(s.objs.get(id).base, 64); return true; }; };
  B("malloc", alloc("malloc")); B("_Znwm", alloc("new")); B("_Znam", alloc("new[]"));
  B("_ZnwmSt11align_val_t", alloc("new")); B("_ZnwmRKSt9nothrow_t", alloc("malloc")); B("_ZnamRKSt9nothrow_t", alloc("malloc"));
  B("calloc", [](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t n = conc(s, a[0]).u() * conc(s, a[1]).u(); uint32_t id = newObj(s, n, OHeap, true, "calloc"); s.objs.mut(id).how = 2; r = Val(s.objs.get(id).base, 64); return true; });
  auto fre = [](State &s, DInst &, vector<Val> &a, Val &) { Val p = conc(s, a[0]); if (!p.c) return true; uint32_t id = idOf(p.u()); if (id >= s.objs.n) violate(s, "invalid-free", ptrDesc(s, p.u())); const Obj &o = s.objs.get(id); if (!o.alive) violate(s, "double-free", ptrDesc(s, p.u())); if (o.kind != OHeap || o.base != p.u()) violate(s, "invalid-free", ptrDesc(s, p.u())); Obj &om = s.objs.mut(id); om.alive = false; s.backs.mut(om.backing).reset(); return true; };
  for (const char *n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) B(n, fre);
  B("sx_objsize", [](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t off; uint32_t id = resolve(s, a[0], 0, false, off); r = Val(s.objs.get(id).size, 64); return true; });
  // exceptions
  B("__cxa_allocate_exception", [](State &s, DInst &, vector<Val> &a, Val &r) { uint32_t id = newObj(s, a[0].u() + 16, OHeap, false, "exception"); r = Val(s.objs.get(id).base, 64); return true; });
  B("__cxa_free_exception", [](State &, DInst &, vector<Val> &, Val &) { return true; });
  B("__cxa_throw", [](State &s, DInst &, vector<Val> &a, Val &) { excTypes[a[0].u()] = a[1].u(); unwind(s, Exc{a[0].u(), a[1].u()}); return false; });
  B("__cxa_begin_catch", [](State &s, DInst &, vector<Val> &a, Val &r) { s.th[s.cur].caught.push_back(Exc{a[0].u(), excTypes[a[0].u()]}); r = a[0]; return true; });
  B("__cxa_get_exception_ptr", [](State &, DInst &, vector<Val> &a, Val &r) { r = a[0]; return true; });
  B("__cxa_end_catch", [](State &s, DInst &, vector<Val> &, Val &) { auto &c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); return true; });
  B("__cxa_rethrow", [](State &s, DInst &, vector<Val> &, Val &) { auto &c = s.th[s.cur].caught; if (c.empty()) violate(s, "terminate", "rethrow without exception"); Exc e = c.back(); unwind(s, e); return false; });
  B("_ZSt17current_exceptionv", [](State &s, DInst &, vector<Val> &a, Val &) { auto &c = s.th[s.cur].caught; uint64_t off; uint32_t id = resolve(s, a[0], 8, true, off); storeBytes(s, id, off, 8, Val(c.empty() ? 0 : c.back().obj, 64)); return true; });
  B("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [](State &s, DInst &, vector<Val> &a, Val &) { uint64_t off; uint32_t id = resolve(s, a[0], 8, false, off); uint64_t o = conc(s, loadBytes(s, id, off, 8)).u(); if (!o) violate(s, "terminate", "rethrow of an empty exception_ptr"); unwind(s, Exc{o, excTypes[o]}); return false; });
  B("__cxa_init_primary_exception", [](State &, DInst &, vector<Val> &a, Val &r) { excTypes[a[0].u()] = a[1].u(); r = a[0]; return true; });
  B("sx_fmt_double", [](State &s, DInst &, vector<Val> &a, Val &r) { string f = string("%.*") + (char)conc(s, a[2]).u(); Val v = conc(s, a[4]); char b[400]; int n = snprintf(b, sizeof b, f.c_str(), (int)conc(s, a[3]).u(), toD(v)); uint64_t off; uint32_t id = resolve(s, a[0], n + 1, true, off); for (int i = 0; i <= n; i++) storeBytes(s, id, off + i, 1, Val((unsigned char)b[i], 8)); r = Val(n, 32); return true; });
  auto term = [](State &s, DInst &, vector<Val> &, Val &) { violate(s, "terminate", "std::terminate called"); return false; };
  B("_ZSt9terminatev", term); B("abort", [](State &s, DInst &, vector<Val> &, Val &) { violate(s, "abort", "abort called"); return false; });
  B("__assert_fail", [](State &s, DInst &, vector<Val> &a, Val &) { violate(s, "assert", "assert failed: " + readCStr(s, a[0])); return false; });
  B("__cxa_pure_virtual", term); B("__cxa_call_unexpected", term); B("__cxa_call_terminate", term);
  B("sx_throw_std", [](State &s, DInst &, vector<Val> &a, Val &) { string n = readCStr(s, a[0]); throwStd(s, n.c_str()); return false; });
  auto thr = [](const char *ti) { return [ti](State &s, DInst &, vector<Val> &, Val &) { throwStd(s, ti); return false; }; };
  B("_ZSt20__throw_length_errorPKc", thr("_ZTISt12length_error")); B("_ZSt19__throw_logic_errorPKc", thr("_ZTISt11logic_error")); B("_ZSt20__throw_out_of_rangePKc", thr("_ZTISt12out_of_range")); B("_ZSt24__throw_out_of_range_fmtPKcz", thr("_ZTISt12out_of_range")); B("_ZSt17__throw_bad_allocv", thr("_ZTISt9bad_alloc")); B("_ZSt28__throw_bad_array_new_lengthv", thr("_ZTISt9bad_alloc")); B("_ZSt25__throw_bad_function_callv", thr("_ZTISt17bad_function_call")); B("_ZSt24__throw_invalid_argumentPKc", thr("_ZTISt16invalid_argument")); B("_ZSt21__throw_runtime_errorPKc", thr("_ZTISt13runtime_error")); B("_ZSt16__throw_bad_castv", thr("_ZTISt8bad_cast")); B("_ZSt20__throw_system_errori", thr("_ZTISt13runtime_error"));
  // static guards and at-exit registration
  B("__cxa_guard_acquire", [](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t off; uint32_t id = resolve(s, a[0], 8, true, off); Val v = loadBytes(s, id, off, 1); r = Val(v.c ? 0 : 1, 32); return true; });
  B("__cxa_guard_release", [](State &s, DInst &, vector<Val> &a, Val &) { uint64_t off; uint32_t id = resolve(s, a[0], 8, true, off); storeBytes(s, id, off, 1, Val(1, 8)); return true; });
  B("__cxa_guard_abort", nop); B("__cxa_atexit", nop); B("atexit", nop);
  for (const char *p : {"_ZNSt8ios_base4InitC", "_ZNSt8ios_base4InitD", "_ZNSo", "_ZStls", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZNKSt5ctype", "_ZNSt9basic_ios", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZSt5flush", "_ZNSt6localeC", "_ZNSt6localeD"})
    BP(p, [](State &s, DInst &d, vector<Val> &a, Val &r) { if (d.dst >= 0) { r = !a.empty() && !a[0].agg && d.I->getType()->isPointerTy() ? a[0] : zeroOf(d.I->getType()); } (void)s; return true; });
  B("fflush", nop); B("perror", nop); B("fputs", nop); B("fputc", nop); B("fwrite", [](State &, DInst &, vector<Val> &a, Val &r) { r = a[2]; return true; }); B("fprintf", nop);
  // symbolic execution interface
  B("sx_make_symbolic", [](State &s, DInst &, vector<Val> &a, Val &) { Val p = conc(s, a[0]); uint64_t n = conc(s, a[1]).u(); symBytes(s, p.u(), n, std::to_string(s.cur) + ":" + readCStr(s, a[2])); return true; });
  B("sx_sym_u64", [](State &s, DInst &, vector<Val> &a, Val &r) { string n = std::to_string(s.cur) + ":" + readCStr(s, a[0]); E e = freshSym(s, n, 64); SymRec sr; sr.name = n; sr.syms.push_back((uint32_t)e->c); s.symrecs.push(sr); r = Val(e); return true; });
  B("sx_sym_u32", [](State &s, DInst &, vector<Val> &a, Val &r) { string n = std::to_string(s.cur) + ":" + readCStr(s, a[0]); E e = freshSym(s, n, 32); SymRec sr; sr.name = n; sr.syms.push_back((uint32_t)e->c); s.symrecs.push(sr); r = Val(e); return true; });
  B("sx_concretize", [](State &s, DInst &, vector<Val> &a, Val &r) { r = conc(s, a[0]); return true; });
  B("sx_assume", [](State &s, DInst &, vector<Val> &a, Val &) { E c = mkNot1(mkEq(mkConst(0, a[0].w), a[0].expr())); if (isC(c)) { if (!c->c) throw PathEnd{0}; return true; } Model m; if (!feasible(s, c, &m)) throw PathEnd{0}; addPC(s, c); s.model = m; return true; });
  B("sx_assert", [](State &s, DInst &, vector<Val> &a, Val &) { E c = mkNot1(mkEq(mkConst(0, a[0].w), a[0].expr())); sxAssert(s, c, readCStr(s, a[1])); return true; });
  B("sx_possible", [](State &s, DInst &, vector<Val> &a, Val &r) { E c = mkNot1(mkEq(mkConst(0, a[0].w), a[0].expr())); Model m; r = Val(feasible(s, c, &m), 32); return true; });
  B("sx_reach", [](State &s, DInst &, vector<Val> &a, Val &) { string l = readCStr(s, a[0]); reachHits[l]++; if (witCount[l]++ < maxWitness) { Viol v = mkViol(s, l, "witness", "", s.model); witnesses.push_back(v); } return true; });
  B("sx_observe", [](State &s, DInst &, vector<Val> &a, Val &) { string l = readCStr(s, a[0]); u128 v = a[1].conc() ? a[1].c : evalExpr(a[1].e, s.model); s.obs.push(l + "=" + std::to_string((long long)(int64_t)v)); return true; });
  B("sx_cfg", [](State &s, DInst &, vector<Val> &a, Val &r) { string n = readCStr(s, a[0]); auto it = cfg.find(n); r = Val(it == cfg.end() ? (u128)a[1].c : (u128)(i128)it->second, 32); return true; });
  B("sx_native", [](State &, DInst &, vector<Val> &, Val &r) { r = Val(0, 32); return true; });
  B("sx_tid", [](State &s, DInst &, vector<Val> &, Val &r) { r = Val(s.cur, 32); return true; });
  B("sx_pid", [](State &s, DInst &, vector<Val> &, Val &r) { r = Val(s.th[s.cur].pid, 32); return true; });
  B("sx_set_pid", [](State &s, DInst &, vector<Val> &a, Val &) { s.th[s.cur].pid = (int)a[0].u(); return true; });
  B("sx_set_max_crashes", [](State &s, DInst &, vector<Val> &a, Val &) { (void)s; maxCrashes = (int)a[0].u(); return true; });
  B("sx_log", [](State &s, DInst &, vector<Val> &a, Val &) { if (!quiet) fprintf(stderr, "LOG[%d] %s %lld\n", s.cur, readCStr(s, a[0]).c_str(), (long long)(a[1].conc() ? sextw(a[1].c, a[1].w) : -999999)); return true; });
  B("sx_spawn", [](State &s, DInst &, vector<Val> &a, Val &r) { Function *F = fnOf(s, conc(s, a[0])); if (!F) fail("spawn: not a function"); Thread t; t.pid = (int)a[2].u(); t.canCrash = a[3].u() != 0; s.th.push_back(t); int id = s.th.size() - 1; s.multi = true; pushFrame(s, id, F, {a[1]}); r = Val(id, 32); return true; });
  B("sx_join", [](State &s, DInst &, vector<Val> &, Val &r) { Thread &t = s.th[s.cur];
    if (t.blockKey != 0xfeedULL) { bool need = false; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && (s.th[i].status == TRun || s.th[i].status == TSleeping || s.th[i].status == TBlocked)) need = true; if (need) { t.status = TJoin; t.blockKey = 0xfeedULL; return false; } }
    t.blockKey = 0; int stuck = 0; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && (s.th[i].status == TBlocked || s.th[i].status == TSleeping)) stuck++; s.sleep.clear(); r = Val(stuck, 32); return true; });
  B("sx_thread_state", [](State &s, DInst &, vector<Val> &a, Val &r) { auto st = s.th.at(a[0].u()).status; r = Val(st == TDone ? 0 : st == TCrashed ? 2 : st == TBlocked || st == TSleeping ? 1 : 3, 32); return true; });
  B("sx_kill", [](State &s, DInst &, vector<Val> &a, Val &) { int p = (int)a[0].u(); for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].pid == p && s.th[i].status != TDone) { s.th[i].status = TCrashed; s.sleep.erase((int)i); } return true; });
  B("sx_exit_thread", [](State &s, DInst &, vector<Val> &, Val &) { Thread &t = s.th[s.cur]; while (!t.st.empty()) { freeAllocas(s, t.st.back()); t.st.pop_back(); } t.status = TDone; return false; });
  B("sx_visible", [](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t k = a[0].u(); r = Val(1, 32); if (s.th[s.cur].stale) { s.th[s.cur].stale = false; r = Val(0, 32); return true; } return visible(s, k, 1, conc(s, a[1]).c != 0); });
  B("sx_block", [](State &s, DInst &, vector<Val> &a, Val &) { // blocked until another thread writes key; returns when rescheduled
    Thread &t = s.th[s.cur]; uint64_t k = a[0].u();
    if (t.granted) { t.granted = false; t.blockedDecl = false; t.pend.known = false; S.visops++; wroteKey(s, s.cur, PendOp{k, 1, true, true}, false); return true; }
    t.status = TBlocked; t.blockKey = k; t.pend.known = false; return false; });
  B("sx_await", [](State &s, DInst &, vector<Val> &a, Val &) { // waits, without a step of its own, until another thread writes key; the caller then looks again
    Thread &t = s.th[s.cur]; if (t.recheck) { t.recheck = false; return true; }
    t.recheck = true; t.stale = false; t.status = TBlocked; t.blockKey = a[0].u(); t.pend.known = false; return false; });
  B("sx_wrote", [](State &s, DInst &, vector<Val> &a, Val &) { wroteKey(s, s.cur, PendOp{a[0].u(), 1, true, true}); return true; }); // a write that commutes with everything before it in its thread: not a step
  B("sx_sleep", [](State &s, DInst &, vector<Val> &, Val &) { // returns once another thread has written something this thread looked at since its last sleep
    Thread &t = s.th[s.cur]; if (t.dirty) { t.dirty = false; t.reads.clear(); return true; }
    if (liveThreads(s) == 1) violate(s, "hang", "polling for a change nobody can make"); 
    t.status = TSleeping; t.pend.known = false; return false; });
  B("sx_segment", [](State &s, DInst &, vector<Val> &a, Val &r) { (void)a; uint32_t id = newObj(s, 0, OGlobal, true, "shared memory segment"); s.objs.mut(id).shared = true; r = Val(s.objs.get(id).base, 64); return true; });
  B("sx_violation", [](State &s, DInst &, vector<Val> &a, Val &) { report(s, readCStr(s, a[0]), "model", readCStr(s, a[1]), s.model); throw PathEnd{1}; return true; });
  B("sx_alias", [](State &s, DInst &, vector<Val> &a, Val &r) { uint64_t off; uint32_t id = resolve(s, conc(s, a[0]), 0, false, off); Obj o = s.objs.get(id); Obj n; n.size = conc(s, a[1]).u(); n.boff = o.boff + off; n.backing = o.backing; n.kind = OAlias; n.alive = true; n.shared = true; n.what = "shared mapping"; uint32_t nid = s.objs.n; n.base = ((uint64_t)nid << SLOT) + BASEOFF; s.objs.push(n); r = Val(n.base, 64); return true; });
  B("sx_unalias", [](State &s, DInst &, vector<Val> &a, Val &r) { Val p = conc(s, a[0]); uint32_t id = idOf(p.u()); if (id >= s.objs.n || s.objs.get(id).kind != OAlias || !s.objs.get(id).alive || s.objs.get(id).base != p.u()) { r = Val(0xffffffff, 32); return true; } s.objs.mut(id).alive = false; r = Val(0, 32); return true; });
  B("sx_resize", [](State &s, DInst &, vector<Val> &a, Val &) { uint64_t off; uint32_t id = resolve(s, conc(s, a[0]), 0, false, off); uint64_t n = conc(s, a[1]).u(); Obj &o = s.objs.mut(id); Backing &b = backMut(s, o.backing); b.c.resize(n, 0); if (!b.s.empty()) b.s.resize(n, nullptr); o.size = n; return true; });
  B("__errno_location", [](State &s, DInst &, vector<Val> &, Val &r) { Thread &t = s.th[s.cur]; if (!t.errnoObj) t.errnoObj = s.objs.get(newObj(s, 4, OGlobal, true, "errno")).base; r = Val(s.th[s.cur].errnoObj, 64); return true; });
}

// ---------------------------------------------------------------- interpreter
static void enterBlock(Frame &f, int to) {
  f.prev = f.bb; f.bb = to; f.ip = 0; BBInfo &b = f.fn->bbs[to]; if (b.ins[0].opc != Instruction::PHI) return;
  Val tmp[64]; int n = 0; size_t i = 0; vector<Val> big; vector<int> dst;
  for (; b.ins[i].opc == Instruction::PHI; i++) { DInst &p = b.ins[i]; for (size_t k = 0; k < p.succ.size(); k++) if (p.succ[k] == f.prev) { big.push_back(getOp(f, p.ops[k])); dst.push_back(p.dst); break; } }
  for (size_t k = 0; k < dst.size(); k++) f.regs[dst[k]] = std::move(big[k]); f.ip = i; (void)tmp; (void)n; }

static bool branchSym(State &s, E c) { // returns taken side for s, pushing the other if feasible
  bool side = modelTrue(s, c); E mine = side ? c : mkNot1(c), other = side ? mkNot1(c) : c;
  Model m; SatRes r; { Model mm = s.model; r = solve(s.pc, other, &mm); if (r == SatRes::Unknown) fail("solver unknown on branch"); m = mm; }
  if (r == SatRes::Sat) { auto n = cloneState(s); addPC(*n, other); n->model = m; work.push_back(std::move(n)); }
  addPC(s, mine); return side; }

static void runLoop(State &s) {
  CS = &s; uint64_t localCount = 0;
  for (;;) {
    Thread *tp = &s.th[s.cur];
    if (tp->status != TRun || (tp->pend.known && !tp->granted)) { if (!schedule(s)) return; tp = &s.th[s.cur]; }
    if (tp->st.empty()) { if (tp->status == TRun) tp->status = TDone; if (s.cur == 0) return; tp->pend.known = false; continue; }
    Frame &f = tp->st.back(); BBInfo &curBB = f.fn->bbs[f.bb]; curBB.seen = true; DInst &d = curBB.ins[f.ip];
    S.insts++; s.insts++; if (s.insts > maxInst) { violate(s, "hang", "no termination within " + std::to_string(maxInst) + " instructions"); }
    if ((++localCount & 0xffff) == 0 && now() > maxTime) fail("time budget exhausted");
    if (traceFlag) { fprintf(stderr, "[%d] %s: %s\n", s.cur, f.fn->F->getName().str().c_str(), instStr(d.I).c_str()); }
    switch (d.opc) {
      case Instruction::Load: {
        Val p = getOp(f, d.ops[0]); Type *t = d.I->getType(); uint64_t n = DL->getTypeStoreSize(t); uint64_t off; uint32_t id = resolve(s, p, n, false, off);
        const Obj &o = s.objs.get(id); if (o.shared && s.multi && !visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + off), n, false)) break;
        Val v = loadTyped(s, id, off, t); Frame &f2 = s.th[s.cur].st.back(); f2.regs[d.dst] = v; f2.ip++; break; }
      case Instruction::Store: {
        Type *t = d.I->getOperand(0)->getType(); Val p = getOp(f, d.ops[1]); uint64_t n = DL->getTypeStoreSize(t); uint64_t off; uint32_t id = resolve(s, p, n, true, off);
        const Obj &o = s.objs.get(id); if (o.shared && s.multi && !visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + off), n, true)) break;
        storeTyped(s, id, off, t, getOp(s.th[s.cur].st.back(), d.ops[0])); s.th[s.cur].st.back().ip++; break; }
      case Instruction::AtomicRMW: {
        auto ai = cast<AtomicRMWInst>(d.I); Type *t = ai->getType(); Val p = getOp(f, d.ops[0]), v = getOp(f, d.ops[1]); uint64_t n = DL->getTypeStoreSize(t), off; uint32_t id = resolve(s, p, n, true, off); const Obj &o = s.objs.get(id); if (o.shared && s.multi && !visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + off), n, true)) break;
        Val old = loadTyped(s, id, off, t), nv; switch (ai->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = doBin(Instruction::Add, old, v, t, nullptr); break; case AtomicRMWInst::Sub: nv = doBin(Instruction::Sub, old, v, t, nullptr); break; case AtomicRMWInst::And: nv = doBin(Instruction::And, old, v, t, nullptr); break; case AtomicRMWInst::Or: nv = doBin(Instruction::Or, old, v, t, nullptr); break; case AtomicRMWInst::Xor: nv = doBin(Instruction::Xor, old, v, t, nullptr); break; default: fail("atomicrmw"); }
        storeTyped(s, id, off, t, nv); f.regs[d.dst] = old; f.ip++; break; }
      case Instruction::AtomicCmpXchg: {
        auto ai = cast<AtomicCmpXchgInst>(d.I); Type *t = ai->getNewValOperand()->getType(); Val p = getOp(f, d.ops[0]), ex = getOp(f, d.ops[1]), nv = getOp(f, d.ops[2]); uint64_t n = DL->getTypeStoreSize(t), off; uint32_t id = resolve(s, p, n, true, off); const Obj &o = s.objs.get(id); if (o.shared && s.multi && !visible(s, (1ull << 63) | ((uint64_t)o.backing << 32) | (o.boff + off), n, true)) break;
        Val old = loadTyped(s, id, off, t); Val c = doCmp(CmpInst::ICMP_EQ, old, ex); Val st = c.conc() ? (c.c ? nv : old) : Val(mkIte(c.e, nv.expr(), old.expr())); storeTyped(s, id, off, t, st); Val r; r.agg = make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(c); f.regs[d.dst] = r; f.ip++; break; }
      case Instruction::Fence: f.ip++; break;
      case Instruction::Alloca: { auto ai = cast<AllocaInst>(d.I); uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * conc(s, getOp(f, d.ops[0])).u(); uint32_t id = newObj(s, n, OStack, false, "stack variable"); f.allocas.push_back(id); f.regs[d.dst] = Val(s.objs.get(id).base, 64); f.ip++; break; }
      case Instruction::GetElementPtr: {
        Val b = getOp(f, d.ops[0]); bool cc = b.conc(); uint64_t a = b.u() + d.gep->coff; E sym = nullptr; if (!cc) { sym = b.e; a = d.gep->coff; }
        for (auto &t : d.gep->terms) { Val i = getOp(f, t.first); if (i.conc()) a += (uint64_t)((int64_t)sextw(i.c, i.w) * t.second); else { E x = mkBin(Op::Mul, mkConst((u128)(i128)t.second, 64), mkSExt(i.e, 64)); sym = sym ? mkBin(Op::Add, sym, x) : x; cc = false; } }
        if (cc) f.regs[d.dst] = Val(a, 64); else f.regs[d.dst] = Val(mkBin(Op::Add, mkConst(a, 64), sym)); f.ip++; break; }
      case Instruction::ICmp: case Instruction::FCmp: f.regs[d.dst] = doCmp(cast<CmpInst>(d.I)->getPredicate(), getOp(f, d.ops[0]), getOp(f, d.ops[1])); f.ip++; break;
      case Instruction::Select: { Val c = getOp(f, d.ops[0]), a = getOp(f, d.ops[1]), b = getOp(f, d.ops[2]);
        if (c.agg) { Val r; r.agg = make_shared<vector<Val>>(); for (size_t i = 0; i < c.agg->size(); i++) { Val ci = (*c.agg)[i]; r.agg->push_back(ci.conc() ? (ci.c ? (*a.agg)[i] : (*b.agg)[i]) : Val(mkIte(ci.e, (*a.agg)[i].expr(), (*b.agg)[i].expr()))); } f.regs[d.dst] = r; f.ip++; break; }
        if (!c.conc() && (a.agg || d.I->getType()->isPointerTy())) { // fork on pointers to keep addresses simple
          bool side = branchSym(s, c.e); f.regs[d.dst] = side ? a : b; f.ip++; break; }
        if (c.conc()) f.regs[d.dst] = c.c ? a : b; else f.regs[d.dst] = Val(mkIte(c.e, a.expr(), b.expr())); f.ip++; break; }
      case Instruction::Br: { if (d.ops.empty()) { enterBlock(f, d.succ[0]); break; } Val c = getOp(f, d.ops[0]); bool side = c.conc() ? c.c != 0 : branchSym(s, c.e); enterBlock(f, d.succ[side ? 0 : 1]); break; }
      case Instruction::Switch: { Val c = getOp(f, d.ops[0]); int to = d.succ[0];
        if (!c.conc()) { // one branch per destination, not per value
          for (size_t i = 1; i < d.ops.size(); i++) { bool first = true; for (size_t j = 1; j < i; j++) if (d.succ[j] == d.succ[i]) first = false; if (!first) continue;
            E hit = nullptr; for (size_t j = i; j < d.ops.size(); j++) if (d.succ[j] == d.succ[i]) { E q = mkEq(mkConst(getOp(f, d.ops[j]).c, c.w), c.e); hit = hit ? mkBin(Op::Or, hit, q) : q; }
            if (branchSym(s, hit)) { to = d.succ[i]; break; } }
          enterBlock(f, to); break; }
        for (size_t i = 1; i < d.ops.size(); i++) if (getOp(f, d.ops[i]).c == c.c) { to = d.succ[i]; break; } enterBlock(f, to); break; }
      case Instruction::Ret: {
        Val r; bool has = !d.ops.empty(); if (has) r = getOp(f, d.ops[0]); freeAllocas(s, f); tp->st.pop_back(); if (!tp->st.empty()) { finishCall(s, *tp, has ? &r : nullptr); Frame &c = tp->st.back(); BBInfo &nb = c.fn->bbs[c.bb]; if (c.ip == 0 && nb.ins[0].opc == Instruction::PHI) { int to = c.bb; c.bb = c.prev; enterBlock(c, to); } } break; }
      case Instruction::Unreachable: violate(s, "unreachable", "undefined behaviour: unreachable code reached");
      case Instruction::Resume: { Val v = getOp(f, d.ops[0]); uint64_t o = (*v.agg)[0].u(); unwind(s, Exc{o, excTypes[o]}); break; }
      case Instruction::LandingPad: fail("landingpad reached normally");
      case Instruction::ExtractValue: { Val v = getOp(f, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val x = (*v.agg)[i]; v = x; } f.regs[d.dst] = v; f.ip++; break; }
      case Instruction::InsertValue: { Val v = getOp(f, d.ops[0]), x = getOp(f, d.ops[1]); auto idx = cast<InsertValueInst>(d.I)->getIndices();
        std::function<Val(const Val &, size_t)> ins = [&](const Val &cur, size_t k) -> Val { if (k == idx.size()) return x; Val n = cur; n.agg = make_shared<vector<Val>>(*cur.agg); (*n.agg)[idx[k]] = ins((*cur.agg)[idx[k]], k + 1); return n; }; f.regs[d.dst] = ins(v, 0); f.ip++; break; }
      case Instruction::ExtractElement: { Val v = getOp(f, d.ops[0]); Val i = conc(s, getOp(f, d.ops[1])); f.regs[d.dst] = (*v.agg)[i.u()]; f.ip++; break; }
      case Instruction::InsertElement: { Val v = getOp(f, d.ops[0]); Val i = conc(s, getOp(f, d.ops[2])); Val n = v; n.agg = make_shared<vector<Val>>(*v.agg); (*n.agg)[i.u()] = getOp(f, d.ops[1]); f.regs[d.dst] = n; f.ip++; break; }
      case Instruction::ShuffleVector: { auto sv = cast<ShuffleVectorInst>(d.I); Val a = getOp(f, d.ops[0]), b = getOp(f, d.ops[1]); Val r; r.agg = make_shared<vector<Val>>(); int n = a.agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); f.regs[d.dst] = r; f.ip++; break; }
      case Instruction::Freeze: f.regs[d.dst] = getOp(f, d.ops[0]); f.ip++; break;
      case Instruction::FNeg: { Val a = getOp(f, d.ops[0]); f.regs[d.dst] = a.conc() ? Val(a.c ^ ((u128)1 << (a.w - 1)), a.w) : Val(mkBin(Op::Xor, mkConst((u128)1 << (a.w - 1), a.w), a.e)); f.ip++; break; }
      case Instruction::Call: case Instruction::Invoke: {
        vector<Val> args; args.reserve(d.ops.size()); size_t na = cast<CallBase>(d.I)->arg_size(); for (size_t i = 0; i < na; i++) args.push_back(getOp(f, d.ops[i]));
        Function *F = d.callee; int bi = d.builtin;
        if (bi == -2) { // inline asm: only empty barriers
          f.ip++; break; }
        if (!F) { Val fp = conc(s, getOp(f, d.ops.back())); F = fnOf(s, fp); if (!F) violate(s, "bad-call", "indirect call to " + ptrDesc(s, fp.u())); bi = lookupBuiltin(F->getName().str()); }
        if (bi >= 0 && F->isDeclaration()) { Val r; bool done = builtins[bi].second(s, d, args, r); if (done) { Thread &t2 = s.th[s.cur]; finishCall(s, t2, &r); Frame &c = t2.st.back(); if (c.ip == 0 && d.opc == Instruction::Invoke && c.fn->bbs[c.bb].ins[0].opc == Instruction::PHI) { int to = c.bb; c.bb = c.prev; enterBlock(c, to); } } break; }
        if (F->isDeclaration()) fail("unsupported external function " + demangle(F->getName().str()) + " (" + F->getName().str() + ") called from " + demangle(f.fn->F->getName().str()));
        pushFrame(s, s.cur, F, args); break; }
      default:
        if (d.I->isBinaryOp()) { Val r = doBin(d.opc, getOp(f, d.ops[0]), getOp(f, d.ops[1]), d.I->getType(), &s); Frame &f2 = s.th[s.cur].st.back(); f2.regs[d.dst] = r; f2.ip++; break; }
        if (d.I->isCast()) { f.regs[d.dst] = doCast(d.opc, getOp(f, d.ops[0]), d.I->getOperand(0)->getType(), d.I->getType()); f.ip++; break; }
        fail("instruction " + instStr(d.I)); } } }

// ---------------------------------------------------------------- driver
static string jstr(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string violJson(const Viol &v) { std::ostringstream o; o << "{\"label\":" << jstr(v.label) << ",\"kind\":" << jstr(v.kind) << ",\"detail\":" << jstr(v.detail) << ",\"syms\":["; bool f = true; for (auto &p : v.syms) { o << (f ? "" : ",") << "[" << jstr(p.first) << ",\""; for (uint8_t b : p.second) { char x[4]; snprintf(x, 4, "%02x", b); o << x; } o << "\"]"; f = false; } o << "],\"sched\":["; f = true; for (int t : v.sched) { o << (f ? "" : ",") << t; f = false; } o << "],\"stack\":["; f = true; for (auto &l : v.stack) { o << (f ? "" : ",") << jstr(l); f = false; } o << "],\"obs\":["; f = true; for (auto &l : v.obs) { o << (f ? "" : ",") << jstr(l); f = false; } o << "]}"; return o.str(); }

static void layoutGlobals(State &s) {
  s.objs.push(Obj()); s.backs.push(make_shared<Backing>());  // id 0 = null page
  for (auto &F : *M) { Obj o; o.kind = OFunc; o.size = 1; o.alive = true; o.what = "function"; uint32_t id = s.objs.n; o.base = ((uint64_t)id << SLOT) + BASEOFF; auto b = make_shared<Backing>(); b->c.assign(1, 0); o.backing = s.backs.push(b); s.objs.push(o); gaddr[&F] = o.base; fnAt[o.base] = &F; }
  for (auto &G : M->globals()) { uint64_t sz = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration() && sz < 64) sz = 64; uint32_t id = newObj(s, sz, OGlobal, true, strdup(G.getName().str().c_str())); gaddr[&G] = s.objs.get(id).base; }
  for (auto &G : M->globals()) if (G.hasInitializer()) { storeTyped(s, idOf(gaddr[&G]), 0, G.getValueType(), constVal(G.getInitializer())); if (G.isConstant()) s.objs.mut(idOf(gaddr[&G])).kind = OConst; } }

int main(int argc, char **argv) {
  string bc, entry = "sx_main", out; T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nxt = [&]() -> string { return argv[++i]; };
    if (a == "--entry") entry = nxt(); else if (a == "--out") out = nxt(); else if (a == "--time") maxTime = atof(nxt().c_str()); else if (a == "--max-inst") maxInst = strtoull(nxt().c_str(), 0, 10); else if (a == "--preempt") maxPreempt = atoi(nxt().c_str()); else if (a == "--crashes") maxCrashes = atoi(nxt().c_str()); else if (a == "--max-paths") maxPaths = strtoull(nxt().c_str(), 0, 10); else if (a == "--grace") grace = atof(nxt().c_str()); else if (a == "--trace") traceFlag = 1; else if (a == "-v") quiet = false; else if (a == "--repo") repoPrefix = nxt(); else if (a == "--per-label") maxPerLabel = atoi(nxt().c_str()); else if (a == "--witness") maxWitness = atoi(nxt().c_str());
    else if (a == "--dump-smt") { string d = nxt(); solverSetDump(d, atoi(nxt().c_str())); }
    else if (a == "--cfg") { string kv = nxt(); size_t e = kv.find('='); cfg[kv.substr(0, e)] = strtoll(kv.c_str() + e + 1, 0, 10); } else bc = a; }
  SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("symx", errs()); return 2; }
  DL = &M->getDataLayout(); applyModelRenames(*M);
  uninitSentinel.op = Op::Sym; uninitSentinel.w = 8; uninitSentinel.id = 0;
  static vector<uint32_t> none; uninitSentinel.syms = &none;
  initBuiltins(); string error; std::unique_ptr<State> s;
  try {
    auto s0 = std::make_unique<State>(); layoutGlobals(*s0); Thread t; s0->th.push_back(t);
    // global constructors then the entry
    vector<std::pair<int, Function *>> ctors; if (auto g = M->getGlobalVariable("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : ca->operands()) { auto cs = cast<ConstantStruct>(o); if (auto F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ctors) { pushFrame(*s0, 0, c.second, {}); s0->th[0].status = TRun; runLoop(*s0); s0->th[0].status = TRun; if (!work.empty()) fail("fork in constructors"); }
    Function *F = M->getFunction(entry); if (!F) fail("no entry " + entry); pushFrame(*s0, 0, F, {}); s0->th[0].status = TRun; s0->insts = 0; work.push_back(std::move(s0));
    while (!work.empty()) { CS = nullptr; s = std::move(work.back()); work.pop_back(); if (now() > maxTime) fail("time budget exhausted"); if (S.paths > maxPaths) fail("path budget exhausted");
      try { runLoop(*s); S.paths++; } catch (PathEnd &e) { if (e.why == 0) S.killed++; else if (e.why == 1) S.paths++; else S.pruned++; } }
  } catch (EngineError &e) { error = e.msg; if (CS) { for (auto &l : stackOf(*CS)) error += "\n   " + l; } }
  std::ostringstream o; o << "{\"error\":" << jstr(error) << ",\"entry\":" << jstr(entry) << ",\"wall\":" << now() << ",\"paths\":" << S.paths << ",\"infeasible\":" << S.killed << ",\"redundant\":" << S.pruned << ",\"preempt_bounded\":" << S.preBounded << ",\"forks\":" << S.forks << ",\"insts\":" << S.insts << ",\"decisions\":" << S.decisions << ",\"visible_ops\":" << S.visops
    << ",\"obligations\":" << S.oblig << ",\"oblig_folded\":" << S.obligTrivial << ",\"oblig_solver\":" << S.obligSolver << ",\"uninit_reads\":" << S.uninitReads << ",\"solver\":{\"queries\":" << gSolverStats.queries << ",\"sat\":" << gSolverStats.sat << ",\"unsat\":" << gSolverStats.unsat << ",\"unknown\":" << gSolverStats.unknown << ",\"cache_hits\":" << gSolverStats.cacheHits << ",\"model_hits\":" << gSolverStats.modelHits << ",\"seconds\":" << gSolverStats.seconds << ",\"max_seconds\":" << gSolverStats.maxSeconds << "},\"exprs\":" << numExprs();
  auto mp = [&](const char *n, map<string, uint64_t> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &p : m) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; } o << "}"; };
  mp("asserts", assertHits); mp("asserts_by_solver", assertSolver); mp("reached", reachHits);
  // functions of the repository that were executed, inlined ones included
  std::set<const DISubprogram *> sps; for (auto &p : fninfo) for (auto &b : p.second->bbs) if (b.seen) for (auto &I : *b.bb) for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto sp = l->getScope()->getSubprogram()) sps.insert(sp);
  std::set<string> fns; for (auto sp : sps) { string fl = sp->getFilename().str(); if (fl.empty() || fl[0] != '/') fl = sp->getDirectory().str() + "/" + fl; if (fl.rfind(repoPrefix, 0) == 0) fns.insert(sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())); }
  o << ",\"functions\":["; bool f = true; for (auto &n : fns) { o << (f ? "" : ",") << jstr(n); f = false; } o << "]";
  o << ",\"violations\":["; f = true; for (auto &v : viols) { o << (f ? "" : ",") << violJson(v); f = false; } o << "],\"nviol\":" << S.violations << ",\"witnesses\":["; f = true; for (auto &v : witnesses) { o << (f ? "" : ",") << violJson(v); f = false; } o << "]}";
  if (!out.empty()) { std::ofstream of(out); of << o.str() << "\n"; } else printf("%s\n", o.str().c_str());
  return error.empty() ? (viols.empty() ? 0 : 1) : 2; }
