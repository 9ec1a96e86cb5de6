// Hash-consed bit-vector (and binary64) expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // IEEE binary64 operations on 64-bit patterns (round-to-nearest-even)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE,
};

struct Expr {
  Op op; uint16_t w; uint16_t aux; // aux: EXTRACT low bit
  uint32_t id;
  u128 c;               // CONST value / VAR index
  const Expr *k[3];
  u128 lo, hi;          // unsigned range (inclusive)
  mutable uint32_t evEpoch; mutable u128 ev;
  mutable Z3_ast z;
  mutable uint32_t mark;
  bool isC() const { return op == O_CONST; }
};
typedef const Expr *E;

struct VarInfo { std::string name; unsigned w; u128 lo, hi; };

u128 maskw(unsigned w);
s128 sextv(u128 v, unsigned w);
E mkC(u128 v, unsigned w);
E mkVar(unsigned idx, unsigned w, u128 lo, u128 hi);
E mkBin(Op op, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
E mkNot(E a); // width 1
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(0, 1); }
inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
inline E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(O_OR, a, b); }
// evaluation under an assignment (missing vars evaluate to their lower bound)
typedef std::vector<u128> Assign;
u128 evalE(E e, const Assign &m);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
double bits2d(uint64_t b);
uint64_t d2bits(double d);

extern Z3_context gZ;
void z3Init();
Z3_ast toZ3(E e);
size_t exprCount();
std::string exprStr(E e, int depth = 6);
E mkRawUle(E a, E b); // not simplified: used to assert the range of a variable
