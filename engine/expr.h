// Hash-consed bit-vector expressions with constant folding and light simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t { Const, Sym, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
                          FAdd, FSub, FMul, FDiv, FCvt, SToF, UToF, FToS, FToU, // IEEE arithmetic on bit patterns, x86 rules for NaNs
                          Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle };

struct Expr {
  Op op; uint16_t w; uint32_t id;
  u128 c;                       // Const: value; Sym: symbol index; Extract: offset
  const Expr *k[3];
  const std::vector<uint32_t> *syms;   // interned, sorted set of symbols occurring
};
typedef const Expr *E;

inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline i128 sextw(u128 v, unsigned w){ if(w>=128) return (i128)v; unsigned s=128-w; return ((i128)(v<<s))>>s; }

E mkConst(u128 v, unsigned w);
E mkSym(const std::string &name, unsigned w);
const std::string &symName(uint32_t idx);
unsigned symWidth(uint32_t idx);
E symExpr(uint32_t idx);
E mkBin(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkFBin(Op op, E a, E b);
E mkFCast(Op op, E a, unsigned w); // FCvt, SToF, UToF, FToS, FToU
u128 fpEval(Op op, u128 a, u128 b, unsigned w, unsigned rw);
E mkNot1(E a);               // 1-bit not
inline bool isC(E e){ return e->op==Op::Const; }
bool foldBin(Op op, u128 a, u128 b, unsigned w, u128 &r); // false if undefined (div by 0)

struct Model { std::unordered_map<uint32_t,u128> v; };
u128 evalExpr(E e, const Model &m);     // missing symbols evaluate to 0
std::string exprStr(E e, int depth=6);
size_t numExprs();
