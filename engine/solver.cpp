#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <set>
#include <fstream>
#include <cstdio>
using namespace std;
SolverStats gSolverStats;
static z3::context &ctx(){ static z3::context*c=new z3::context(); return *c; }
static unordered_map<uint32_t,Z3_ast> memo;
static string dumpDir; static unsigned dumpMax=0, dumped=0; static unsigned tmo=60000;
void solverSetDump(const string&d,unsigned n){ dumpDir=d; dumpMax=n; }
void solverSetTimeoutMs(unsigned ms){ tmo=ms; }
static z3::expr toB(z3::expr e){ return z3::ite(e,ctx().bv_val(1,1),ctx().bv_val(0,1)); }
static Z3_sort fsort(unsigned w){ return w==32?Z3_mk_fpa_sort_32(ctx()):Z3_mk_fpa_sort_64(ctx()); }
static z3::expr toF(z3::expr a,unsigned w){ return z3::expr(ctx(),Z3_mk_fpa_to_fp_bv(ctx(),a,fsort(w))); }
static z3::expr nanB(z3::expr a,unsigned w){ z3::expr m=a.extract(w-2,0); return z3::ugt(m,ctx().bv_val(w==32?(uint64_t)0x7f800000u:(uint64_t)0x7ff0000000000000ull,w-1)); }
static z3::expr quietB(unsigned w){ return ctx().bv_val(w==32?(uint64_t)0x00400000u:(uint64_t)0x0008000000000000ull,w); }
static z3::expr tr(E e){
  auto it=memo.find(e->id); if(it!=memo.end()) return z3::expr(ctx(),it->second);
  z3::context&c=ctx(); z3::expr r(c);
  auto K=[&](int i){return tr(e->k[i]);};
  auto B=[&](z3::expr x){return x==c.bv_val(1,1);};
  switch(e->op){
    case Op::Const:{ if(e->w<=64) r=c.bv_val((uint64_t)e->c,e->w); else r=z3::concat(c.bv_val((uint64_t)(e->c>>64),e->w-64),c.bv_val((uint64_t)e->c,64)); break; }
    case Op::Sym: r=c.bv_const(("v"+to_string((uint32_t)e->c)).c_str(),e->w); break;
    case Op::Add:r=K(0)+K(1);break; case Op::Mul:r=K(0)*K(1);break;
    case Op::UDiv:r=z3::udiv(K(0),K(1));break; case Op::SDiv:r=K(0)/K(1);break;
    case Op::URem:r=z3::urem(K(0),K(1));break; case Op::SRem:r=z3::srem(K(0),K(1));break;
    case Op::And:r=K(0)&K(1);break; case Op::Or:r=K(0)|K(1);break; case Op::Xor:r=K(0)^K(1);break;
    case Op::Shl:r=z3::shl(K(0),K(1));break; case Op::LShr:r=z3::lshr(K(0),K(1));break; case Op::AShr:r=z3::ashr(K(0),K(1));break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv:{ unsigned w=e->w; z3::expr a=K(0),b=K(1),rm=z3::expr(c,Z3_mk_fpa_rne(c)),x=toF(a,w),y=toF(b,w);
      z3::expr q(c,e->op==Op::FAdd?Z3_mk_fpa_add(c,rm,x,y):e->op==Op::FSub?Z3_mk_fpa_sub(c,rm,x,y):e->op==Op::FMul?Z3_mk_fpa_mul(c,rm,x,y):Z3_mk_fpa_div(c,rm,x,y));
      r=z3::ite(nanB(a,w),a|quietB(w),z3::ite(nanB(b,w),b|quietB(w),z3::ite(z3::expr(c,Z3_mk_fpa_is_nan(c,q)),c.bv_val(w==32?(uint64_t)0xffc00000u:(uint64_t)0xfff8000000000000ull,w),z3::expr(c,Z3_mk_fpa_to_ieee_bv(c,q))))); break; }
    case Op::FCvt:{ unsigned w=e->k[0]->w; z3::expr a=K(0),rm=z3::expr(c,Z3_mk_fpa_rne(c)),q(c,Z3_mk_fpa_to_fp_float(c,rm,toF(a,w),fsort(e->w)));
      z3::expr n=e->w==64?z3::concat(z3::concat(a.extract(31,31),c.bv_val(0xfff,12)),z3::concat(a.extract(21,0),c.bv_val(0,29))):z3::concat(z3::concat(a.extract(63,63),c.bv_val(0x1ff,9)),a.extract(50,29));
      r=z3::ite(nanB(a,w),n,z3::expr(c,Z3_mk_fpa_to_ieee_bv(c,q))); break; }
    case Op::SToF: case Op::UToF:{ z3::expr rm=z3::expr(c,Z3_mk_fpa_rne(c)); z3::expr q(c,e->op==Op::SToF?Z3_mk_fpa_to_fp_signed(c,rm,K(0),fsort(e->w)):Z3_mk_fpa_to_fp_unsigned(c,rm,K(0),fsort(e->w))); r=z3::expr(c,Z3_mk_fpa_to_ieee_bv(c,q)); break; }
    case Op::FToS: case Op::FToU:{ unsigned w=e->k[0]->w; bool sg=e->op==Op::FToS; unsigned cw=sg?(e->w>=64?64:32):64; z3::expr a=K(0),x=toF(a,w),rm=z3::expr(c,Z3_mk_fpa_rtz(c)); z3::expr f=z3::expr(c,Z3_mk_fpa_to_fp_float(c,rm,x,fsort(64)));
      auto D=[&](double d){ return z3::expr(c,Z3_mk_fpa_numeral_double(c,d,fsort(64))); }; auto lt=[&](z3::expr p,z3::expr q){ return z3::expr(c,Z3_mk_fpa_lt(c,p,q)); }; double h=cw==64?0x1p63:0x1p31;
      z3::expr ok=sg?(z3::expr(c,Z3_mk_fpa_geq(c,f,D(-h)))&&lt(f,D(h))):(lt(D(-1),f)&&lt(f,D(0x1p64))); z3::expr v=sg?z3::expr(c,Z3_mk_fpa_to_sbv(c,rm,f,cw)):z3::expr(c,Z3_mk_fpa_to_ubv(c,rm,f,cw));
      z3::expr bad=sg?c.bv_val((uint64_t)1<<(cw-1),cw):c.bv_val(~(uint64_t)0,cw); z3::expr t=z3::ite(ok,v,bad); r=e->w==cw?t:e->w<cw?t.extract(e->w-1,0):z3::sext(t,e->w-cw); break; }
    case Op::Concat:r=z3::concat(K(0),K(1));break;
    case Op::Extract:r=K(0).extract((unsigned)e->c+e->w-1,(unsigned)e->c);break;
    case Op::ZExt:r=z3::zext(K(0),e->w-e->k[0]->w);break; case Op::SExt:r=z3::sext(K(0),e->w-e->k[0]->w);break;
    case Op::Ite:r=z3::ite(B(K(0)),K(1),K(2));break;
    case Op::Eq:r=toB(K(0)==K(1));break; case Op::Ult:r=toB(z3::ult(K(0),K(1)));break; case Op::Ule:r=toB(z3::ule(K(0),K(1)));break;
    case Op::Slt:r=toB(K(0)<K(1));break; case Op::Sle:r=toB(K(0)<=K(1));break;
  }
  Z3_ast a=r; Z3_inc_ref(c,a); memo[e->id]=a; return r; }
static z3::expr trBool(E e){ // direct boolean
  z3::context&c=ctx();
  switch(e->op){ case Op::Eq:return tr(e->k[0])==tr(e->k[1]); case Op::Ult:return z3::ult(tr(e->k[0]),tr(e->k[1])); case Op::Ule:return z3::ule(tr(e->k[0]),tr(e->k[1]));
    case Op::Slt:return tr(e->k[0])<tr(e->k[1]); case Op::Sle:return tr(e->k[0])<=tr(e->k[1]); 
    case Op::And:return trBool(e->k[0])&&trBool(e->k[1]); case Op::Or:return trBool(e->k[0])||trBool(e->k[1]);
    case Op::Xor: if(isC(e->k[0])&&e->k[0]->c==1) return !trBool(e->k[1]); break;
    case Op::Const: return c.bool_val(e->c!=0); default:break; }
  return tr(e)==c.bv_val(1,1); }

// Linear integer encoding (exact: every operation is followed by its wrap-around), used for queries with divisions by constants.
struct NoInt{};
struct IV{ z3::expr e; u128 hi; };
static z3::expr ic(u128 v){ string t; if(!v) t="0"; while(v){ t.insert(t.begin(),(char)('0'+(int)(v%10))); v/=10; } return ctx().int_val(t.c_str()); }
static map<uint32_t,u128> symHi; static map<uint32_t,IV> imemo; static map<uint32_t,z3::expr> bmemo;
static IV ti(E e);
static z3::expr tib(E e);
static z3::expr isg(E e){ IV v=ti(e); u128 h=(u128)1<<(e->w-1); if(v.hi<h) return v.e; return z3::ite(v.e>=ic(h),v.e-ic((u128)1<<e->w),v.e); }
static IV wrapS(z3::expr s,unsigned w){ return {z3::ite(s<0,s+ic((u128)1<<w),s),maskw(w)}; } // s in [-2^w, 2^w)
static IV ti(E e){
  auto it=imemo.find(e->id); if(it!=imemo.end()) return it->second;
  if(e->w>64) throw NoInt(); z3::context&c=ctx(); unsigned w=e->w; u128 M=(u128)1<<w; IV r{c.int_val(0),maskw(w)};
  auto one=[&](z3::expr b){ return IV{z3::ite(b,c.int_val(1),c.int_val(0)),1}; };
  auto cst=[&](int i){ if(!isC(e->k[i])) throw NoInt(); return e->k[i]->c; };
  switch(e->op){
    case Op::Const: r={ic(e->c),e->c}; break;
    case Op::Sym: r.e=c.int_const(("i"+to_string((uint32_t)e->c)).c_str()); if(symHi.count((uint32_t)e->c)) r.hi=symHi[(uint32_t)e->c]; break;
    case Op::Add:{ E x=e->k[0],y=e->k[1]; if(isC(x)) std::swap(x,y); IV a=ti(x); 
      if(isC(y)&&y->c>=M/2){ z3::expr d=a.e-ic(M-y->c); r=wrapS(d,w); break; }
      IV b=ti(y); z3::expr s=a.e+b.e; if(a.hi+b.hi<M) r={s,a.hi+b.hi}; else r.e=z3::ite(s>=ic(M),s-ic(M),s); break; }
    case Op::Mul:{ E x=e->k[0],y=e->k[1]; if(isC(x)) std::swap(x,y); if(!isC(y)) throw NoInt(); IV a=ti(x); u128 k=y->c; if(k>=M/2){ r.e=z3::mod(-(a.e*ic(M-k)),ic(M)); break; } if(a.hi<=(~(u128)0>>1)/(k?k:1)&&a.hi*k<M) r={a.e*ic(k),a.hi*k}; else r.e=z3::mod(a.e*ic(k),ic(M)); break; }
    case Op::UDiv:{ u128 k=cst(1); if(!k) throw NoInt(); IV a=ti(e->k[0]); r={a.e/ic(k),a.hi/k}; break; }
    case Op::URem:{ u128 k=cst(1); if(!k) throw NoInt(); IV a=ti(e->k[0]); r={z3::mod(a.e,ic(k)),a.hi<k-1?a.hi:k-1}; break; }
    case Op::SDiv: case Op::SRem:{ u128 k=cst(1); if(!k||k>=M/2) throw NoInt(); IV a0=ti(e->k[0]); if(a0.hi<M/2){ if(e->op==Op::SDiv) r={a0.e/ic(k),a0.hi/k}; else r={z3::mod(a0.e,ic(k)),a0.hi<k-1?a0.hi:k-1}; break; } z3::expr s=isg(e->k[0]); z3::expr q=z3::ite(s>=0,s/ic(k),-((-s)/ic(k))); if(e->op==Op::SDiv) r=wrapS(q,w); else r=wrapS(s-q*ic(k),w); break; }
    case Op::And: case Op::Or: case Op::Xor: if(w==1){ r=one(tib(e)); break; } 
      if(e->op==Op::And){ E x=e->k[0],y=e->k[1]; if(isC(x)) std::swap(x,y); if(isC(y)&&((y->c+1)&y->c)==0){ r={z3::mod(ti(x).e,ic(y->c+1)),y->c}; break; } } throw NoInt();
    case Op::Shl:{ u128 k=cst(1); if(k>=w) throw NoInt(); r.e=z3::mod(ti(e->k[0]).e*ic((u128)1<<k),ic(M)); break; }
    case Op::LShr:{ u128 k=cst(1); if(k>=w) throw NoInt(); IV a=ti(e->k[0]); r={a.e/ic((u128)1<<k),a.hi>>k}; break; }
    case Op::AShr:{ u128 k=cst(1); if(k>=w) throw NoInt(); r=wrapS(isg(e->k[0])/ic((u128)1<<k),w); break; }
    case Op::Concat:{ IV a=ti(e->k[0]),b=ti(e->k[1]); unsigned l=e->k[1]->w; r={a.e*ic((u128)1<<l)+b.e,(a.hi<<l)+b.hi}; break; }
    case Op::Extract:{ IV a=ti(e->k[0]); unsigned o=(unsigned)e->c; z3::expr x=o?a.e/ic((u128)1<<o):a.e; if((a.hi>>o)<M) r={x,a.hi>>o}; else r.e=z3::mod(x,ic(M)); break; }
    case Op::ZExt: r=ti(e->k[0]); break;
    case Op::SExt:{ IV a=ti(e->k[0]); u128 h=(u128)1<<(e->k[0]->w-1); if(a.hi<h) r=a; else r.e=z3::ite(a.e>=ic(h),a.e+ic(M-((u128)1<<e->k[0]->w)),a.e); break; }
    case Op::Ite:{ IV a=ti(e->k[1]),b=ti(e->k[2]); r={z3::ite(tib(e->k[0]),a.e,b.e),max(a.hi,b.hi)}; break; }
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FCvt: case Op::SToF: case Op::UToF: case Op::FToS: case Op::FToU: throw NoInt();
    default: r=one(tib(e)); }
  imemo.emplace(e->id,r); return r; }
static z3::expr tib(E e){
  auto it=bmemo.find(e->id); if(it!=bmemo.end()) return it->second;
  z3::context&c=ctx(); z3::expr r(c);
  switch(e->op){
    case Op::Const: r=c.bool_val(e->c!=0); break;
    case Op::Eq: if(e->k[0]->w==1) r=tib(e->k[0])==tib(e->k[1]); else r=ti(e->k[0]).e==ti(e->k[1]).e; break;
    case Op::Ult: r=ti(e->k[0]).e<ti(e->k[1]).e; break; case Op::Ule: r=ti(e->k[0]).e<=ti(e->k[1]).e; break;
    case Op::Slt: r=isg(e->k[0])<isg(e->k[1]); break; case Op::Sle: r=isg(e->k[0])<=isg(e->k[1]); break;
    case Op::And: r=tib(e->k[0])&&tib(e->k[1]); break; case Op::Or: r=tib(e->k[0])||tib(e->k[1]); break; case Op::Xor: r=tib(e->k[0])!=tib(e->k[1]); break;
    case Op::Ite: r=z3::ite(tib(e->k[0]),tib(e->k[1]),tib(e->k[2])); break;
    default: r=ti(e).e==1; }
  bmemo.emplace(e->id,r); return r; }
static unordered_map<uint32_t,char> divMemo;
static bool hasDiv(E e){ if(e->op==Op::Const||e->op==Op::Sym) return false; auto it=divMemo.find(e->id); if(it!=divMemo.end()) return it->second; bool r=(e->op==Op::UDiv||e->op==Op::SDiv||e->op==Op::URem||e->op==Op::SRem)&&e->w>=16; for(int i=0;i<3&&!r;i++) if(e->k[i]) r=hasDiv(e->k[i]); divMemo[e->id]=r; return r; }
static unordered_map<uint32_t,char> fpMemo;
static bool hasFP(E e){ if(e->op==Op::Const||e->op==Op::Sym) return false; auto it=fpMemo.find(e->id); if(it!=fpMemo.end()) return it->second; bool r=e->op>=Op::FAdd&&e->op<=Op::FToU; for(int i=0;i<3&&!r;i++) if(e->k[i]) r=hasFP(e->k[i]); fpMemo[e->id]=r; return r; }
// upper bounds of symbols that the conjuncts state directly
static void boundOf(E e,bool neg){
  if(e->op==Op::Xor&&isC(e->k[0])&&e->w==1&&e->k[0]->c==1) return boundOf(e->k[1],!neg);
  if(e->op==Op::And&&e->w==1&&!neg){ boundOf(e->k[0],false); boundOf(e->k[1],false); return; }
  E a=e->k[0],b=e->k[1]; Op o=e->op; if(o!=Op::Ult&&o!=Op::Ule&&o!=Op::Slt&&o!=Op::Sle) return;
  if(neg){ swap(a,b); o=o==Op::Ult?Op::Ule:o==Op::Ule?Op::Ult:o==Op::Slt?Op::Sle:Op::Slt; } // not(a<b) is b<=a
  auto put=[&](E s,u128 h){ uint32_t i=(uint32_t)s->c; if(!symHi.count(i)||symHi[i]>h) symHi[i]=h; };
  if((o==Op::Slt||o==Op::Sle)&&b->op==Op::Sym&&isC(a)&&sextw(a->c,a->w)>=(o==Op::Slt?-1:0)) put(b,maskw(b->w-1));
  if((o==Op::Ult||o==Op::Ule)&&a->op==Op::Sym&&isC(b)) put(a,b->c); }
// 0: no answer
static z3::check_result solveInt(const vector<E>&use,E extra,vector<pair<uint32_t,u128>>&mv){
  bool d=extra&&hasDiv(extra); for(E e:use) d=d||hasDiv(e); if(!d) return z3::unknown;
  symHi.clear(); imemo.clear(); bmemo.clear(); for(E e:use) boundOf(e,false); if(extra) boundOf(extra,false);
  try{ z3::solver s(ctx()); z3::params p(ctx()); p.set("timeout",20000u); s.set(p); set<uint32_t> S; 
    for(E e:use){ s.add(tib(e)); S.insert(e->syms->begin(),e->syms->end()); } if(extra){ s.add(tib(extra)); S.insert(extra->syms->begin(),extra->syms->end()); }
    for(uint32_t x:S){ z3::expr v=ti(symExpr(x)).e; s.add(v>=0&&v<ic((u128)1<<symWidth(x))); }
    if(getenv("SX_DEBUG_INT")) fprintf(stderr,"%s\n",s.to_smt2().c_str());
    auto r=s.check(); if(r==z3::sat){ z3::model m=s.get_model(); Model md; for(uint32_t x:S){ z3::expr v=m.eval(ti(symExpr(x)).e,true); uint64_t n=0; if(!v.is_numeral_u64(n)) return z3::unknown; mv.push_back({x,n}); md.v[x]=n; }
      for(E e:use) if(!evalExpr(e,md)) return mv.clear(),z3::unknown; if(extra&&!evalExpr(extra,md)) return mv.clear(),z3::unknown; } // the model is checked against the bit-vector meaning
    return r; }catch(NoInt&){ if(getenv("SX_DEBUG_INT")) fprintf(stderr,"no integer form\n"); return z3::unknown; }catch(z3::exception&){ return z3::unknown; } }
struct CacheEnt{ SatRes r; vector<pair<uint32_t,u128>> m; };
static map<vector<uint32_t>,CacheEnt> cache;

SatRes solve(const vector<E>&pc,E extra,Model*m,bool slice){
  if(extra&&isC(extra)){ if(!extra->c) return SatRes::Unsat; }
  vector<E> use; 
  if(slice&&extra&&!isC(extra)){
    set<uint32_t> S(extra->syms->begin(),extra->syms->end()); vector<char> in(pc.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]){ for(uint32_t s:*pc[i]->syms) if(S.count(s)){ in[i]=1; ch=true; S.insert(pc[i]->syms->begin(),pc[i]->syms->end()); break; } } }
    for(size_t i=0;i<pc.size();i++) if(in[i]) use.push_back(pc[i]);
  } else use=pc;
  vector<uint32_t> key; for(E e:use) key.push_back(e->id); sort(key.begin(),key.end()); key.erase(unique(key.begin(),key.end()),key.end()); key.push_back(extra?extra->id:0);
  auto it=cache.find(key);
  if(it!=cache.end()){ gSolverStats.cacheHits++; if(m&&it->second.r==SatRes::Sat) for(auto&p:it->second.m) m->v[p.first]=p.second; return it->second.r; }
  auto t0=chrono::steady_clock::now();
  z3::context&c=ctx();
  static z3::solver *inc=nullptr;
  if(!inc){ inc=new z3::solver(c,z3::solver::simple()); z3::params p(c); p.set("timeout",2000u); inc->set(p);} 
  CacheEnt ent; ent.r=SatRes::Unknown;
  auto getModel=[&](z3::model mod){ set<uint32_t> S; for(E e:use) S.insert(e->syms->begin(),e->syms->end()); if(extra) S.insert(extra->syms->begin(),extra->syms->end());
      for(uint32_t s:S){ unsigned w=symWidth(s); z3::expr v=mod.eval(tr(symExpr(s)),true); u128 val=0;
        if(w<=64) val=v.get_numeral_uint64(); else { z3::expr hi=mod.eval(tr(symExpr(s)).extract(w-1,64),true), lo=mod.eval(tr(symExpr(s)).extract(63,0),true); val=((u128)hi.get_numeral_uint64()<<64)|lo.get_numeral_uint64(); }
        ent.m.push_back({s,val}); } };
  z3::check_result ir=solveInt(use,extra,ent.m); if(ir==z3::sat) ent.r=SatRes::Sat; else if(ir==z3::unsat) ent.r=SatRes::Unsat; else ent.m.clear();
  if(ent.r==SatRes::Unknown) try{
    inc->push(); for(E e:use) inc->add(trBool(e)); if(extra) inc->add(trBool(extra));
    if(!dumpDir.empty()&&dumped<dumpMax){ ofstream f(dumpDir+"/q"+to_string(dumped)+".smt2"); f<<"(set-logic QF_BVFP)\n"<<inc->to_smt2(); }
    auto r=inc->check();
    if(r==z3::sat){ ent.r=SatRes::Sat; getModel(inc->get_model()); } else if(r==z3::unsat) ent.r=SatRes::Unsat;
    inc->pop();
    if(r==z3::unknown){
      bool fp=extra&&hasFP(extra); for(E e:use) fp=fp||hasFP(e);
      z3::solver s=fp?z3::tactic(c,"qffpbv").mk_solver():(z3::tactic(c,"simplify")&z3::tactic(c,"propagate-values")&z3::tactic(c,"solve-eqs")&z3::tactic(c,"bit-blast")&z3::tactic(c,"sat")).mk_solver();
      z3::params p(c); p.set("timeout",tmo); s.set(p);
      for(E e:use) s.add(trBool(e)); if(extra) s.add(trBool(extra));
      r=s.check(); if(r==z3::sat){ ent.r=SatRes::Sat; getModel(s.get_model()); } else if(r==z3::unsat) ent.r=SatRes::Unsat; }
  }catch(z3::exception&ex){ fprintf(stderr,"z3: %s\n",ex.msg()); ent.r=SatRes::Unknown; }
  double dt=chrono::duration<double>(chrono::steady_clock::now()-t0).count();
  gSolverStats.queries++; gSolverStats.seconds+=dt; gSolverStats.maxSeconds=max(gSolverStats.maxSeconds,dt);
  if(ent.r==SatRes::Sat) gSolverStats.sat++; else if(ent.r==SatRes::Unsat) gSolverStats.unsat++; else gSolverStats.unknown++;
  if(!dumpDir.empty()&&dumped<dumpMax){ ofstream f(dumpDir+"/q"+to_string(dumped)+".res"); f<<(ent.r==SatRes::Sat?"sat":ent.r==SatRes::Unsat?"unsat":"unknown")<<"\n"; dumped++; }
  if(m&&ent.r==SatRes::Sat) for(auto&p:ent.m) m->v[p.first]=p.second;
  SatRes r=ent.r; if(cache.size()<400000) cache.emplace(std::move(key),std::move(ent)); return r; }
