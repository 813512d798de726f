#include "expr.h"
#include <unordered_set>
#include <set>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace std;
namespace {
struct Key{ Op op; uint16_t w; u128 c; E k[3]; };
struct KH{ size_t operator()(const Expr*e)const{ size_t h=(size_t)e->op*1315423911u^e->w*2654435761u; h^=(size_t)(e->c)*0x9E3779B97F4A7C15ull^(size_t)(e->c>>64)*0xC2B2AE3D27D4EB4Full; for(int i=0;i<3;i++) h=h*1099511628211ull^(e->k[i]?e->k[i]->id+1:0); return h; } };
struct KE{ bool operator()(const Expr*a,const Expr*b)const{ return a->op==b->op&&a->w==b->w&&a->c==b->c&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]; } };
unordered_set<const Expr*,KH,KE> table;
uint32_t nextId=1;
vector<string> symNames; vector<unsigned> symWs; vector<E> symEs;
set<vector<uint32_t>> symsets; const vector<uint32_t>* emptySet=nullptr;
const vector<uint32_t>* internSet(vector<uint32_t>&&v){ return &*symsets.insert(std::move(v)).first; }
struct PH{ size_t operator()(const pair<const void*,const void*>&p)const{ return (size_t)p.first*31^(size_t)p.second; } };
unordered_map<pair<const void*,const void*>,const vector<uint32_t>*,PH> unionMemo;
const vector<uint32_t>* uni(const vector<uint32_t>*a,const vector<uint32_t>*b){
  if(a==b||b->empty()) return a; if(a->empty()) return b; if(a>b) swap(a,b);
  auto key=make_pair((const void*)a,(const void*)b); auto it=unionMemo.find(key); if(it!=unionMemo.end()) return it->second;
  vector<uint32_t> r; set_union(a->begin(),a->end(),b->begin(),b->end(),back_inserter(r));
  auto p=internSet(std::move(r)); unionMemo[key]=p; return p; }
E intern(Op op,unsigned w,u128 c,E a=nullptr,E b=nullptr,E d=nullptr){
  Expr t; t.op=op;t.w=w;t.c=c;t.k[0]=a;t.k[1]=b;t.k[2]=d;t.id=0;t.syms=nullptr;
  auto it=table.find(&t); if(it!=table.end()) return *it;
  Expr*e=new Expr(t); e->id=nextId++;
  if(!emptySet) emptySet=internSet({});
  if(op==Op::Sym) e->syms=internSet({(uint32_t)c});
  else { const vector<uint32_t>*s=emptySet; for(int i=0;i<3;i++) if(e->k[i]) s=uni(s,e->k[i]->syms); e->syms=s; }
  table.insert(e); return e; }
}
size_t numExprs(){ return table.size(); }
E mkConst(u128 v,unsigned w){
  static E small[129][2];
  v&=maskw(w);
  if(v<2&&w<=128){ E&s=small[w][(int)v]; if(!s) s=intern(Op::Const,w,v); return s; }
  return intern(Op::Const,w,v); }
E mkSym(const string&name,unsigned w){ uint32_t i=symNames.size(); symNames.push_back(name); symWs.push_back(w); E e=intern(Op::Sym,w,i); symEs.push_back(e); return e; }
const string&symName(uint32_t i){return symNames[i];} unsigned symWidth(uint32_t i){return symWs[i];} E symExpr(uint32_t i){return symEs[i];}

bool foldBin(Op op,u128 a,u128 b,unsigned w,u128&r){
  u128 m=maskw(w); a&=m;b&=m;
  switch(op){
    case Op::Add:r=a+b;break; case Op::Mul:r=a*b;break;
    case Op::UDiv: if(!b) return false; r=a/b;break;
    case Op::URem: if(!b) return false; r=a%b;break;
    case Op::SDiv: if(!b) return false; r=(u128)(sextw(a,w)/sextw(b,w));break;
    case Op::SRem: if(!b) return false; r=(u128)(sextw(a,w)%sextw(b,w));break;
    case Op::And:r=a&b;break; case Op::Or:r=a|b;break; case Op::Xor:r=a^b;break;
    case Op::Shl:r=b>=w?0:a<<(unsigned)b;break; case Op::LShr:r=b>=w?0:a>>(unsigned)b;break;
    case Op::AShr:r=(u128)(sextw(a,w)>>(unsigned)(b>=w?w-1:b));break;
    case Op::Eq:r=a==b;return true; case Op::Ult:r=a<b;return true; case Op::Ule:r=a<=b;return true;
    case Op::Slt:r=sextw(a,w)<sextw(b,w);return true; case Op::Sle:r=sextw(a,w)<=sextw(b,w);return true;
    default:return false; }
  r&=m; return true; }

E mkNot1(E a){
  if(isC(a)) return mkConst(!a->c,1);
  if(a->op==Op::Xor&&a->w==1&&isC(a->k[0])&&a->k[0]->c==1) return a->k[1];
  if(a->op==Op::Ult) return mkBin(Op::Ule,a->k[1],a->k[0]);
  if(a->op==Op::Ule) return mkBin(Op::Ult,a->k[1],a->k[0]);
  if(a->op==Op::Slt) return mkBin(Op::Sle,a->k[1],a->k[0]);
  if(a->op==Op::Sle) return mkBin(Op::Slt,a->k[1],a->k[0]);
  return intern(Op::Xor,1,0,mkConst(1,1),a); }

E mkEq(E a,E b){
  if(a==b) return mkConst(1,1);
  if(isC(b)) swap(a,b);
  if(isC(a)){
    if(isC(b)) return mkConst(a->c==b->c,1);
    if(a->w==1) return a->c?b:mkNot1(b);
    if(b->op==Op::ZExt){ E k=b->k[0]; if(a->c&~maskw(k->w)) return mkConst(0,1); return mkEq(mkConst(a->c,k->w),k); }
    if(b->op==Op::SExt){ E k=b->k[0]; u128 lo=a->c&maskw(k->w); if(((u128)sextw(lo,k->w)&maskw(a->w))!=a->c) return mkConst(0,1); return mkEq(mkConst(lo,k->w),k); }
    if(b->op==Op::Concat){ E hi=b->k[0],lo=b->k[1]; E r1=mkEq(mkConst(a->c>>lo->w,hi->w),hi); if(isC(r1)&&!r1->c) return r1; E r2=mkEq(mkConst(a->c,lo->w),lo); return mkBin(Op::And,r1,r2); }
    if(b->op==Op::Add&&isC(b->k[0])) return mkEq(mkConst(a->c-b->k[0]->c,a->w),b->k[1]);
    if(b->op==Op::Ite&&(isC(b->k[1])||isC(b->k[2]))){ return mkIte(b->k[0],mkEq(a,b->k[1]),mkEq(a,b->k[2])); }
    if(b->op==Op::Xor&&isC(b->k[0])) return mkEq(mkConst(a->c^b->k[0]->c,a->w),b->k[1]);
  }
  if(a->id>b->id&&!isC(a)) swap(a,b);
  return intern(Op::Eq,1,0,a,b); }

E mkIte(E c,E a,E b){
  if(isC(c)) return c->c?a:b; if(a==b) return a;
  if(a->w==1){ if(isC(a)&&isC(b)) return a->c?c:mkNot1(c);
    if(isC(a)) return a->c? mkBin(Op::Or,c,b) : mkBin(Op::And,mkNot1(c),b);
    if(isC(b)) return b->c? mkBin(Op::Or,mkNot1(c),a) : mkBin(Op::And,c,a); }
  return intern(Op::Ite,a->w,0,c,a,b); }

E mkExtract(E a,unsigned off,unsigned w){
  if(off==0&&w==a->w) return a;
  switch(a->op){
    case Op::Const:return mkConst(a->c>>off,w);
    case Op::Extract:return mkExtract(a->k[0],off+(unsigned)a->c,w);
    case Op::Concat:{ unsigned lw=a->k[1]->w; if(off+w<=lw) return mkExtract(a->k[1],off,w); if(off>=lw) return mkExtract(a->k[0],off-lw,w);
      return mkConcat(mkExtract(a->k[0],0,off+w-lw),mkExtract(a->k[1],off,lw-off)); }
    case Op::ZExt:{ unsigned kw=a->k[0]->w; if(off+w<=kw) return mkExtract(a->k[0],off,w); if(off>=kw) return mkConst(0,w); return mkZExt(mkExtract(a->k[0],off,kw-off),w); }
    case Op::SExt:{ unsigned kw=a->k[0]->w; if(off+w<=kw) return mkExtract(a->k[0],off,w); if(off==0) return mkSExt(a->k[0],w); break; }
    case Op::And: case Op::Or: case Op::Xor: return mkBin(a->op,mkExtract(a->k[0],off,w),mkExtract(a->k[1],off,w));
    case Op::Add: case Op::Mul: if(off==0&&(w>8||w==1)) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
    case Op::Ite: if(isC(a->k[1])||isC(a->k[2])) return mkIte(a->k[0],mkExtract(a->k[1],off,w),mkExtract(a->k[2],off,w)); break;
    case Op::Shl: if(isC(a->k[1])){ unsigned s=(unsigned)a->k[1]->c; if(off>=s) return mkExtract(a->k[0],off-s,w); if(off+w<=s) return mkConst(0,w); } break;
    case Op::LShr: if(isC(a->k[1])){ unsigned s=(unsigned)a->k[1]->c; if(off+s+w<=a->w) return mkExtract(a->k[0],off+s,w); if(off+s>=a->w) return mkConst(0,w);} break;
    default:break; }
  return intern(Op::Extract,w,off,a); }

E mkConcat(E hi,E lo){
  unsigned w=hi->w+lo->w;
  if(w>128){ fprintf(stderr,"concat too wide\n"); abort(); }
  if(isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
  if(isC(hi)&&hi->c==0) return mkZExt(lo,w);
  auto base=[](E e)->E{return e->op==Op::Extract?e->k[0]:e;}; auto off=[](E e)->unsigned{return e->op==Op::Extract?(unsigned)e->c:0;};
  if(!isC(hi)&&!isC(lo)&&base(hi)==base(lo)&&off(hi)==off(lo)+lo->w&&hi->op==Op::Extract&&lo->op==Op::Extract) return mkExtract(base(hi),off(lo),w);
  // pieces of a sign extension
  if(hi->op==Op::Extract&&hi->k[0]->op==Op::SExt){ E k=hi->k[0]->k[0]; if((base(lo)==k||lo==k)&&(unsigned)hi->c==(lo==k?0:off(lo))+lo->w) return mkExtract(hi->k[0],lo==k?0:off(lo),w); }
  // (x . (y . z)) with x,y adjacent extracts
  if(lo->op==Op::Concat){ E m=lo->k[0]; if(m->op==Op::Extract&&hi->op==Op::Extract&&m->k[0]==hi->k[0]&&(unsigned)hi->c==(unsigned)m->c+m->w) return mkConcat(mkExtract(hi->k[0],(unsigned)m->c,hi->w+m->w),lo->k[1]);
    if(isC(m)&&isC(hi)) return mkConcat(mkConst((hi->c<<m->w)|m->c,hi->w+m->w),lo->k[1]); }
  return intern(Op::Concat,w,0,hi,lo); }

E mkZExt(E a,unsigned w){
  if(w==a->w) return a; if(w<a->w) return mkExtract(a,0,w);
  if(isC(a)) return mkConst(a->c,w);
  if(a->op==Op::ZExt) return mkZExt(a->k[0],w);
  return intern(Op::ZExt,w,0,a); }
E mkSExt(E a,unsigned w){
  if(w==a->w) return a; if(w<a->w) return mkExtract(a,0,w);
  if(isC(a)) return mkConst((u128)sextw(a->c,a->w),w);
  if(a->op==Op::SExt) return mkSExt(a->k[0],w);
  if(a->op==Op::ZExt) return mkZExt(a->k[0],w);
  return intern(Op::SExt,w,0,a); }

static inline bool comm(Op o){ return o==Op::Add||o==Op::Mul||o==Op::And||o==Op::Or||o==Op::Xor; }
E mkBin(Op op,E a,E b){
  unsigned w=a->w;
  if(op==Op::Eq) return mkEq(a,b);
  if(isC(a)&&isC(b)){ u128 r; if(foldBin(op,a->c,b->c,w,r)) return mkConst(r,(op>=Op::Eq)?1:w); }
  if(comm(op)&&isC(b)) swap(a,b);
  switch(op){
    case Op::Add:
      if(isC(a)){ if(a->c==0) return b; if(b->op==Op::Add&&isC(b->k[0])) return mkBin(Op::Add,mkConst(a->c+b->k[0]->c,w),b->k[1]); }
      else { if(a->op==Op::Add&&isC(a->k[0])) return mkBin(Op::Add,a->k[0],mkBin(Op::Add,a->k[1],b));
             if(b->op==Op::Add&&isC(b->k[0])) return mkBin(Op::Add,b->k[0],mkBin(Op::Add,a,b->k[1])); 
             // x + (-1*x)
             if(b->op==Op::Mul&&isC(b->k[0])&&b->k[0]->c==maskw(w)&&b->k[1]==a) return mkConst(0,w);
             if(a->op==Op::Mul&&isC(a->k[0])&&a->k[0]->c==maskw(w)&&a->k[1]==b) return mkConst(0,w);
             // x - c*(x/c) is x%c
             for(int sw=0;sw<2;sw++){ E x=sw?b:a,y=sw?a:b; if(y->op==Op::Mul&&isC(y->k[0])&&(y->k[1]->op==Op::UDiv||y->k[1]->op==Op::SDiv)&&y->k[1]->k[0]==x&&isC(y->k[1]->k[1])&&((y->k[0]->c+y->k[1]->k[1]->c)&maskw(w))==0) return mkBin(y->k[1]->op==Op::UDiv?Op::URem:Op::SRem,x,y->k[1]->k[1]); } }
      break;
    case Op::Mul:
      if(isC(a)){ if(a->c==0) return a; if(a->c==1) return b; if(b->op==Op::Mul&&isC(b->k[0])) return mkBin(Op::Mul,mkConst(a->c*b->k[0]->c,w),b->k[1]);
        if(b->op==Op::Add&&isC(b->k[0])) return mkBin(Op::Add,mkConst(a->c*b->k[0]->c,w),mkBin(Op::Mul,a,b->k[1])); }
      break;
    case Op::And: if(a==b) return a; if(isC(a)){ if(a->c==0) return a; if(a->c==maskw(w)) return b;
        // low mask
        { u128 m=a->c; if((m&(m+1))==0){ unsigned n=0; while(m){n++;m>>=1;} return mkZExt(mkExtract(b,0,n),w);} }
        if(b->op==Op::And&&isC(b->k[0])) return mkBin(Op::And,mkConst(a->c&b->k[0]->c,w),b->k[1]); }
      if(w==1&&(a==mkNot1(b))) return mkConst(0,1);
      break;
    case Op::Or: if(a==b) return a; if(isC(a)){ if(a->c==0) return b; if(a->c==maskw(w)) return a; }
      if(w==1&&(a==mkNot1(b))) return mkConst(1,1);
      // zext(x) | (concat/shl) merging of bytes
      if(a->op==Op::Shl||b->op==Op::Shl||a->op==Op::ZExt||b->op==Op::ZExt||a->op==Op::Concat||b->op==Op::Concat){
        // try disjoint split: find E x,y such that low part from one, high from other
        for(int sw=0;sw<2;sw++){ E lo=sw?b:a, hi=sw?a:b; 
          if(lo->op==Op::ZExt){ unsigned n=lo->k[0]->w; E hl=mkExtract(hi,0,n); if(isC(hl)&&hl->c==0) return mkConcat(mkExtract(hi,n,w-n),lo->k[0]); } } }
      break;
    case Op::Xor: if(a==b) return mkConst(0,w); if(isC(a)){ if(a->c==0) return b; if(b->op==Op::Xor&&isC(b->k[0])) return mkBin(Op::Xor,mkConst(a->c^b->k[0]->c,w),b->k[1]); if(w==1) return mkNot1(b);} break;
    case Op::Shl: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); } break;
    case Op::LShr: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkZExt(mkExtract(a,s,w-s),w);} break;
    case Op::AShr: if(isC(b)){ if(b->c==0) return a; unsigned s=b->c>=w?w-1:(unsigned)b->c; return mkSExt(mkExtract(a,s,w-s),w);} break;
    case Op::UDiv: if(isC(b)){ if(b->c==1) return a; if(b->c&&!(b->c&(b->c-1))){ unsigned s=0; while(!((b->c>>s)&1)) s++; return mkBin(Op::LShr,a,mkConst(s,w)); } } break;
    case Op::URem: if(isC(b)){ if(b->c==1) return mkConst(0,w); if(b->c&&!(b->c&(b->c-1))) return mkBin(Op::And,mkConst(b->c-1,w),a);} break;
    case Op::SDiv: if(isC(b)&&b->c==1) return a; break;
    case Op::Ult: if(a==b) return mkConst(0,1); if(isC(b)&&b->c==0) return mkConst(0,1); if(isC(b)&&b->c==1) return mkEq(mkConst(0,w),a); if(isC(a)&&a->c==maskw(w)) return mkConst(0,1);
      if(isC(b)&&a->op==Op::ZExt){ E k=a->k[0]; if(b->c>maskw(k->w)) return mkConst(1,1); return mkBin(Op::Ult,k,mkConst(b->c,k->w)); }
      if(isC(a)&&b->op==Op::ZExt){ E k=b->k[0]; if(a->c>=maskw(k->w)) return mkConst(0,1); return mkBin(Op::Ult,mkConst(a->c,k->w),k); }
      break;
    case Op::Ule: if(a==b) return mkConst(1,1); if(isC(a)&&a->c==0) return mkConst(1,1); if(isC(b)&&b->c==maskw(w)) return mkConst(1,1);
      if(isC(b)&&a->op==Op::ZExt){ E k=a->k[0]; if(b->c>=maskw(k->w)) return mkConst(1,1); return mkBin(Op::Ule,k,mkConst(b->c,k->w)); }
      if(isC(a)&&b->op==Op::ZExt){ E k=b->k[0]; if(a->c>maskw(k->w)) return mkConst(0,1); return mkBin(Op::Ule,mkConst(a->c,k->w),k); }
      break;
    case Op::Slt: case Op::Sle: if(a==b) return mkConst(op==Op::Sle,1);
      if(a->op==Op::ZExt&&isC(b)){ if(sextw(b->c,w)<0) return mkConst(0,1); return mkBin(op==Op::Slt?Op::Ult:Op::Ule,a,b);} 
      if(b->op==Op::ZExt&&isC(a)){ if(sextw(a->c,w)<0) return mkConst(1,1); return mkBin(op==Op::Slt?Op::Ult:Op::Ule,a,b);} 
      if(a->op==Op::SExt&&b->op==Op::SExt&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
      if(a->op==Op::SExt&&isC(b)){ E k=a->k[0]; i128 v=sextw(b->c,w); i128 mx=(i128)(maskw(k->w-1)), mn=-mx-1; if(v>mx) return mkConst(1,1); if(v<mn) return mkConst(0,1); return mkBin(op,k,mkConst((u128)v,k->w)); }
      if(b->op==Op::SExt&&isC(a)){ E k=b->k[0]; i128 v=sextw(a->c,w); i128 mx=(i128)(maskw(k->w-1)), mn=-mx-1; if(v>mx) return mkConst(0,1); if(v<mn) return mkConst(1,1); return mkBin(op,mkConst((u128)v,k->w),k); }
      break;
    default:break; }
  if(comm(op)&&!isC(a)&&a->id>b->id) swap(a,b);
  return intern(op,(op>=Op::Eq)?1:w,0,a,b); }

template<class T,class U> static T bitc(U u){ T t; static_assert(sizeof(T)==sizeof(U),""); memcpy(&t,&u,sizeof t); return t; }
static bool nanBits(u128 v,unsigned w){ return w==32?((uint32_t)v&0x7fffffffu)>0x7f800000u:((uint64_t)v&0x7fffffffffffffffull)>0x7ff0000000000000ull; }
// w: width of the operands, rw: of the result. NaN operands are returned quieted, the first one first; a NaN made from numbers is the negative default one.
u128 fpEval(Op op,u128 a,u128 b,unsigned w,unsigned rw){
  u128 quiet=w==32?0x00400000u:0x0008000000000000ull, dflt=w==32?0xffc00000u:0xfff8000000000000ull;
  auto F=[&](u128 v){ return w==32?(double)bitc<float>((uint32_t)v):bitc<double>((uint64_t)v); };
  if(op==Op::FAdd||op==Op::FSub||op==Op::FMul||op==Op::FDiv){
    if(nanBits(a,w)) return a|quiet; if(nanBits(b,w)) return b|quiet; u128 r;
    if(w==32){ float x=bitc<float>((uint32_t)a),y=bitc<float>((uint32_t)b); r=bitc<uint32_t>(op==Op::FAdd?x+y:op==Op::FSub?x-y:op==Op::FMul?x*y:x/y); }
    else { double x=bitc<double>((uint64_t)a),y=bitc<double>((uint64_t)b); r=bitc<uint64_t>(op==Op::FAdd?x+y:op==Op::FSub?x-y:op==Op::FMul?x*y:x/y); }
    return nanBits(r,w)?dflt:r; }
  switch(op){
    case Op::FCvt: if(nanBits(a,w)){ if(rw>w){ uint64_t x=(uint64_t)a; return ((x>>31)<<63)|0x7ff8000000000000ull|((x&0x7fffff)<<29); } uint64_t x=(uint64_t)a; return (uint32_t)(((x>>63)<<31)|0x7fc00000u|((x>>29)&0x7fffff)); }
      return rw==32?bitc<uint32_t>((float)F(a)):bitc<uint64_t>(F(a));
    case Op::SToF:{ int64_t x=(int64_t)sextw(a,w); return rw==32?bitc<uint32_t>((float)x):bitc<uint64_t>((double)x); }
    case Op::UToF:{ uint64_t x=(uint64_t)a; return rw==32?bitc<uint32_t>((float)x):bitc<uint64_t>((double)x); }
    case Op::FToS:{ double x=F(a); double h=rw>=64?0x1p63:0x1p31; if(!(x>=-h&&x<h)) return ((u128)1<<((rw>=64?64:32)-1))&maskw(rw); return (u128)(i128)(int64_t)x&maskw(rw); }
    default:{ double x=F(a); if(!(x>-1&&x<0x1p64)) return maskw(rw); return (u128)(uint64_t)x&maskw(rw); } } }
E mkFBin(Op op,E a,E b){ if(isC(a)&&isC(b)) return mkConst(fpEval(op,a->c,b->c,a->w,a->w),a->w); return intern(op,a->w,0,a,b); }
E mkFCast(Op op,E a,unsigned w){ if(isC(a)) return mkConst(fpEval(op,a->c,0,a->w,w),w); if(op==Op::FCvt&&w==a->w) return a; return intern(op,w,0,a); }

static u128 evr(E e,const Model&m,unordered_map<uint32_t,u128>&memo){
  if(e->op==Op::Const) return e->c;
  if(e->op==Op::Sym){ auto it=m.v.find((uint32_t)e->c); return it==m.v.end()?0:it->second; }
  auto it=memo.find(e->id); if(it!=memo.end()) return it->second;
  u128 r=0;
  switch(e->op){
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: r=fpEval(e->op,evr(e->k[0],m,memo),evr(e->k[1],m,memo),e->w,e->w);break;
    case Op::FCvt: case Op::SToF: case Op::UToF: case Op::FToS: case Op::FToU: r=fpEval(e->op,evr(e->k[0],m,memo),0,e->k[0]->w,e->w);break;
    case Op::Concat: r=(evr(e->k[0],m,memo)<<e->k[1]->w)|evr(e->k[1],m,memo);break;
    case Op::Extract: r=(evr(e->k[0],m,memo)>>(unsigned)e->c)&maskw(e->w);break;
    case Op::ZExt: r=evr(e->k[0],m,memo);break;
    case Op::SExt: r=(u128)sextw(evr(e->k[0],m,memo),e->k[0]->w)&maskw(e->w);break;
    case Op::Ite: r=evr(e->k[0],m,memo)?evr(e->k[1],m,memo):evr(e->k[2],m,memo);break;
    default:{ u128 a=evr(e->k[0],m,memo),b=evr(e->k[1],m,memo); unsigned w=e->k[0]->w;
      if(!foldBin(e->op,a,b,w,r)){ // SMT-LIB division by zero semantics
        bool neg=sextw(a,w)<0;
        if(e->op==Op::UDiv) r=maskw(w); else if(e->op==Op::SDiv) r=neg?1:maskw(w); else r=a; } } }
  memo[e->id]=r; return r; }
u128 evalExpr(E e,const Model&m){ unordered_map<uint32_t,u128> memo; return evr(e,m,memo); }

string exprStr(E e,int d){
  static const char*nm[]={"const","sym","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","f+","f-","f*","f/","fcvt","s2f","u2f","f2s","f2u","concat","extract","zext","sext","ite","==","<u","<=u","<s","<=s"};
  if(e->op==Op::Const){ char b[64]; if(e->c>>64) snprintf(b,64,"0x%llx%016llx",(unsigned long long)(e->c>>64),(unsigned long long)e->c); else snprintf(b,64,"%llu:%u",(unsigned long long)e->c,e->w); return b; }
  if(e->op==Op::Sym) return symNames[(size_t)e->c];
  if(d<=0) return "...";
  string s="("+string(nm[(int)e->op]); if(e->op==Op::Extract) s+="["+to_string((unsigned)e->c)+":"+to_string(e->w)+"]"; if(e->op==Op::ZExt||e->op==Op::SExt) s+=to_string(e->w);
  for(int i=0;i<3;i++) if(e->k[i]) s+=" "+exprStr(e->k[i],d-1); return s+")"; }
