// Expression DAG (hash-consed), simplifier, evaluator and solver front end of symx.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {

enum Op : uint8_t {
   CONST, VAR,
   ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
   EXTRACT, CONCAT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
   FFROMBV, FADD, FMUL, FDIV, FNEG, FABS, FSQRT, FFMA, FRND,
   FOEQ, FOLT, FOLE, FISNAN, FISINF, FID,
   FCVT, STOF, UTOF, FTOS, FTOU, UF
};

struct Expr {
   Op op;
   bool fp;      // floating-point sort of width w (32 or 64), else a bit vector of width w
   uint8_t w;
   uint32_t aux; // EXTRACT: low bit; FRND: mode; UF, VAR: name id
   uint64_t c;   // CONST
   std::vector<const Expr*> k;
   uint32_t id;
   bool hasUF;
   bool hasFPArith;
   const std::vector<uint32_t>* vars; // sorted ids of variables; UF names are 0x80000000|id
};
using E = const Expr*;

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
   if(w >= 64) return (int64_t)v;
   uint64_t m = 1ull << (w - 1);
   v &= mask(w);
   return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; E def; E defConstraint; };
extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gUFs;

E mkConst(uint64_t v, unsigned w);
E mkFConst(uint64_t bits, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a); // width 1
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkCmp(Op op, E a, E b); // ULT ULE SLT SLE
E mkF2(Op op, E a, E b);  // FADD FMUL FDIV and comparisons FOEQ FOLT FOLE FID
E mkFsub(E a, E b);
E mkF1(Op op, E a, unsigned aux = 0); // FNEG FABS FSQRT FRND FISNAN FISINF
E mkFma(E a, E b, E c);
E mkFromBV(E a);
E mkToBV(E a);
E mkFcvt(E a, unsigned w);
E mkIntToFp(E a, unsigned w, bool sgn);
E mkFpToInt(E a, unsigned w, bool sgn);
E mkUF(const std::string& name, const std::vector<E>& args, unsigned w);

struct Model {
   std::vector<uint64_t> var;
   std::vector<uint8_t> st;
   std::vector<uint64_t> val;
   // 1 = known value, 2 = not evaluable (uninterpreted function)
   int eval(E e, uint64_t& out);
};
using ModelP = std::shared_ptr<Model>;

enum Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
   uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0, cacheHits = 0, cvc5 = 0;
   double time = 0, maxTime = 0;
};
extern SolverStats gStats;
extern unsigned gTimeoutMs, gBranchMs;
extern bool gNoCvc5;

// Is pc ∧ cond satisfiable? base: a model of pc (or null). On SAT, model (possibly null on success by another
// solver) satisfies pc ∧ cond.
Res solve(const std::vector<E>& pc, const std::vector<E>& cond, ModelP base, ModelP& model,
          unsigned timeoutMs = 0);
std::string str(E e, int depth = 4);

} // namespace sx
