// symx: symbolic executor for LLVM IR with model-level threads. See DESIGN.md.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>

struct Val {
  u128 c = 0; E e = nullptr; uint16_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(u128 v, unsigned w_) : c(v & maskw(w_)), w(w_) {}
  explicit Val(E x) { if (isC(x)) { c = x->c; w = x->w; } else { e = x; w = x->w; } }
  bool conc() const { return !e; }
  E expr() const { return e ? e : mkConst(c, w); }
  uint64_t u() const { return (uint64_t)c; }
};

struct Backing { std::vector<uint8_t> c; std::vector<E> s; };  // s empty => concrete
enum ObjKind : uint8_t { OGlobal, OConst, OStack, OHeap, OAlias, OFunc };
struct Obj { uint64_t base = 0, size = 0, boff = 0; uint32_t backing = 0; ObjKind kind = OHeap; bool alive = false, shared = false; uint8_t how = 0; const char *what = ""; };

template <class T> struct CowArr {           // chunked persistent array
  static const size_t N = 64;
  struct Chunk { T v[N]; };
  std::vector<std::shared_ptr<Chunk>> ch; size_t n = 0;
  const T &get(size_t i) const { return ch[i / N]->v[i % N]; }
  T &mut(size_t i) { auto &p = ch[i / N]; if (p.use_count() > 1) p = std::make_shared<Chunk>(*p); return p->v[i % N]; }
  size_t push(const T &t) { if (n / N >= ch.size()) ch.push_back(std::make_shared<Chunk>()); size_t i = n++; mut(i) = t; return i; }
};

struct GepInfo { uint64_t coff = 0; std::vector<std::pair<int,int64_t>> terms; };
struct FnInfo;
struct DInst { llvm::Instruction *I = nullptr; std::vector<int> ops; int dst = -1; unsigned w = 0; unsigned opc = 0; std::shared_ptr<GepInfo> gep; llvm::Function *callee = nullptr; FnInfo *cfi = nullptr; int builtin = -1; std::vector<int> succ; };  // ops>=0 slot, <0 constant ~idx
struct FnInfo;
struct BBInfo { llvm::BasicBlock *bb; std::vector<DInst> ins; bool seen = false; };
struct FnInfo { llvm::Function *F; std::vector<BBInfo> bbs; std::map<llvm::BasicBlock *, int> bbIdx; unsigned nslots = 0; std::vector<Val> consts; bool inRepo = false; std::string where; bool executed = false; uint64_t ninst = 0; };

struct Frame { FnInfo *fn; int bb = 0, ip = 0, prev = -1; std::vector<Val> regs; std::vector<uint32_t> allocas; std::vector<Val> varargs; };
template <class T> struct PList { struct N { T v; std::shared_ptr<N> p; size_t len = 0; ~N() { while (p && p.use_count() == 1) { std::shared_ptr<N> q = std::move(p->p); p = std::move(q); } } }; std::shared_ptr<N> h;
  void push(T v) { auto n = std::make_shared<N>(); n->v = std::move(v); n->p = h; n->len = h ? h->len + 1 : 1; h = n; }
  size_t size() const { return h ? h->len : 0; }
  std::vector<T> vec() const { std::vector<T> r(size()); size_t i = r.size(); for (auto n = h.get(); n; n = n->p.get()) r[--i] = n->v; return r; } };

enum TStatus : uint8_t { TRun, TBlocked, TSleeping, TJoin, TDone, TCrashed };
struct PendOp { uint64_t key = 0, len = 1; bool write = false; bool known = false; };
struct Exc { uint64_t obj = 0, tinfo = 0; };
struct Thread { std::vector<Frame> st; TStatus status = TRun; int pid = 0; bool canCrash = false; uint64_t blockKey = 0; PendOp pend; bool granted = false; uint64_t seenWrites = 0, ownWrites = 0; std::vector<Exc> caught; uint64_t errnoObj = 0; int nameId = 0; int steps = 0; bool uncaught = false; bool stale = false, dirty = false, blockedDecl = false, recheck = false; std::vector<std::pair<uint64_t,uint64_t>> reads; };

struct SymRec { std::string name; std::vector<uint32_t> syms; };  // one per byte-group, in creation order
struct State {
  CowArr<Obj> objs; CowArr<std::shared_ptr<Backing>> backs;
  std::vector<Thread> th; int cur = 0; bool multi = false;
  std::vector<E> pc; Model model;
  PList<SymRec> symrecs; PList<int> sched; PList<std::string> obs;
  std::set<int> sleep;               // sleep set: thread ids (bit 16+: crash actions)
  int preempt = 0, crashes = 0, lastRan = -1; uint64_t writes = 0; uint64_t insts = 0; uint64_t visops = 0;
  std::shared_ptr<std::map<std::string,int>> vars; // symbols made so far, by name
  int depth = 0;
};
