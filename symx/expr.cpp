#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include <z3.h>

namespace sx {

std::vector<VarInfo> gVars;
std::vector<std::string> gUFs;
static std::unordered_map<std::string, uint32_t> varByName, ufByName;
SolverStats gStats;
unsigned gTimeoutMs = 60000, gBranchMs = 10000;
bool gNoCvc5 = false;

// ---------------------------------------------------------------- hash consing
struct Key {
   Op op; bool fp; uint8_t w; uint32_t aux; uint64_t c; std::vector<E> k;
   bool operator==(const Key& o) const {
      return op == o.op && fp == o.fp && w == o.w && aux == o.aux && c == o.c && k == o.k;
   }
};
struct KeyH {
   size_t operator()(const Key& x) const {
      uint64_t h = x.op * 0x9e3779b97f4a7c15ull + x.fp * 77 + x.w * 1315423911ull + x.aux * 2654435761ull;
      h ^= x.c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
      for(E e : x.k) h = (h ^ (uint64_t)e->id) * 0x100000001b3ull + (h >> 29);
      return h;
   }
};
static std::unordered_map<Key, E, KeyH> table;
static std::set<std::vector<uint32_t>> varSets;
static uint32_t nextId = 1;

static const std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v) {
   std::sort(v.begin(), v.end());
   v.erase(std::unique(v.begin(), v.end()), v.end());
   return &*varSets.insert(std::move(v)).first;
}

static E mk(Op op, bool fp, unsigned w, std::vector<E> k, uint32_t aux = 0, uint64_t c = 0) {
   Key key{op, fp, (uint8_t)w, aux, c, std::move(k)};
   auto it = table.find(key);
   if(it != table.end()) return it->second;
   auto* e = new Expr{op, fp, (uint8_t)w, aux, c, key.k, nextId++, op == UF, false, nullptr};
   e->hasFPArith = (op >= FADD && op <= FTOU && op != FNEG && op != FABS && op != FISNAN && op != FISINF
                    && op != FID && op != FOEQ && op != FOLT && op != FOLE);
   if(e->k.size() == 1 && op != VAR) {
      e->vars = e->k[0]->vars;
      e->hasUF |= e->k[0]->hasUF;
      e->hasFPArith |= e->k[0]->hasFPArith;
      if(op == UF) {
         auto v = *e->vars;
         v.push_back(0x80000000u | aux);
         e->vars = internVars(std::move(v));
      }
   } else {
      std::vector<uint32_t> v;
      for(E x : e->k) {
         v.insert(v.end(), x->vars->begin(), x->vars->end());
         e->hasUF |= x->hasUF;
         e->hasFPArith |= x->hasFPArith;
      }
      if(op == VAR) v.push_back(aux);
      if(op == UF) v.push_back(0x80000000u | aux);
      e->vars = internVars(std::move(v));
   }
   table.emplace(std::move(key), e);
   return e;
}

// ---------------------------------------------------------------- concrete arithmetic
static double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float asF(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static uint64_t ofD(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t ofF(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static uint64_t binC(Op op, uint64_t a, uint64_t b, unsigned w) {
   uint64_t m = mask(w);
   a &= m; b &= m;
   int64_t sa = sext64(a, w), sb = sext64(b, w);
   switch(op) {
      case ADD: return (a + b) & m;
      case SUB: return (a - b) & m;
      case MUL: return (a * b) & m;
      case UDIV: return b ? (a / b) & m : m;
      case UREM: return b ? (a % b) & m : a;
      case SDIV:
         if(!b) return sa < 0 ? 1 : m;
         if(sb == -1) return (0 - a) & m;
         return (uint64_t)(sa / sb) & m;
      case SREM:
         if(!b) return a;
         if(sb == -1) return 0;
         return (uint64_t)(sa % sb) & m;
      case AND: return a & b;
      case OR: return a | b;
      case XOR: return a ^ b;
      case SHL: return b >= w ? 0 : (a << b) & m;
      case LSHR: return b >= w ? 0 : a >> b;
      case ASHR: return b >= w ? (sa < 0 ? m : 0) : (uint64_t)(sa >> b) & m;
      case EQ: return a == b;
      case ULT: return a < b;
      case ULE: return a <= b;
      case SLT: return sa < sb;
      case SLE: return sa <= sb;
      default: throw std::logic_error("binC");
   }
}
static bool isNanC(uint64_t b, unsigned w) { return w == 64 ? std::isnan(asD(b)) : std::isnan(asF(b)); }

static uint64_t f2C(Op op, uint64_t a, uint64_t b, unsigned w) {
   if(w == 64) {
      volatile double x = asD(a), y = asD(b);
      switch(op) {
         case FADD: return ofD(x + y);
         case FMUL: return ofD(x * y);
         case FDIV: return ofD(x / y);
         case FOEQ: return x == y;
         case FOLT: return x < y;
         case FOLE: return x <= y;
         case FID: return (std::isnan(x) && std::isnan(y)) || a == b;
         default: break;
      }
   } else {
      volatile float x = asF(a), y = asF(b);
      switch(op) {
         case FADD: return ofF(x + y);
         case FMUL: return ofF(x * y);
         case FDIV: return ofF(x / y);
         case FOEQ: return x == y;
         case FOLT: return x < y;
         case FOLE: return x <= y;
         case FID: return (std::isnan(x) && std::isnan(y)) || (uint32_t)a == (uint32_t)b;
         default: break;
      }
   }
   throw std::logic_error("f2C");
}
static uint64_t f1C(Op op, uint64_t a, unsigned w, unsigned aux) {
   if(op == FNEG) return a ^ (1ull << (w - 1));
   if(op == FABS) return a & ~(1ull << (w - 1));
   double x = w == 64 ? asD(a) : (double)asF(a);
   double r;
   switch(op) {
      case FISNAN: return std::isnan(x);
      case FISINF: return std::isinf(x);
      case FSQRT: return w == 64 ? ofD(std::sqrt(x)) : ofF(std::sqrt(asF(a)));
      case FRND:
         switch(aux) {
            case 0: r = std::nearbyint(x); break;
            case 1: r = std::round(x); break;
            case 2: r = std::floor(x); break;
            case 3: r = std::ceil(x); break;
            default: r = std::trunc(x); break;
         }
         return w == 64 ? ofD(r) : ofF((float)r);
      default: throw std::logic_error("f1C");
   }
}
static uint64_t cvtC(Op op, uint64_t a, unsigned wi, unsigned wo) {
   switch(op) {
      case FCVT: return wo == 64 ? (wi == 64 ? a : ofD(asF(a))) : (wi == 32 ? a : ofF((float)asD(a)));
      case STOF: { int64_t s = sext64(a, wi); return wo == 64 ? ofD((double)s) : ofF((float)s); }
      case UTOF: { uint64_t s = a & mask(wi); return wo == 64 ? ofD((double)s) : ofF((float)s); }
      case FTOS: {
         double d = std::trunc(wi == 64 ? asD(a) : asF(a));
         double lim = std::ldexp(1.0, (int)wo - 1);
         if(!(d >= -lim && d < lim)) return 1ull << (wo - 1); // as x86
         return (uint64_t)(int64_t)d & mask(wo);
      }
      case FTOU: {
         double d = std::trunc(wi == 64 ? asD(a) : asF(a));
         if(!(d >= 0 && d < std::ldexp(1.0, (int)wo))) return 0;
         return (uint64_t)d & mask(wo);
      }
      default: throw std::logic_error("cvtC");
   }
}

// ---------------------------------------------------------------- constructors
E mkConst(uint64_t v, unsigned w) { return mk(CONST, false, w, {}, 0, v & mask(w)); }
E mkFConst(uint64_t v, unsigned w) { return mk(CONST, true, w, {}, 0, v & mask(w)); }
E mkVar(const std::string& name, unsigned w) {
   auto it = varByName.find(name);
   uint32_t i;
   if(it == varByName.end()) {
      i = (uint32_t)gVars.size();
      gVars.push_back({name, w, nullptr, nullptr});
      varByName[name] = i;
   } else {
      i = it->second;
      if(gVars[i].w != w) throw std::runtime_error("variable redeclared with another width: " + name);
   }
   return mk(VAR, false, w, {}, i);
}
E mkNot(E a) {
   if(a->op == CONST) return mkConst(!a->c, 1);
   if(a->op == XOR && a->k[1]->op == CONST) return a->k[0];
   return mk(XOR, false, 1, {a, mkConst(1, 1)});
}
static bool isNotOf(E a, E b) {
   return (a->op == XOR && a->w == 1 && a->k[1]->op == CONST && a->k[0] == b)
       || (b->op == XOR && b->w == 1 && b->k[1]->op == CONST && b->k[0] == a);
}
static bool commut(Op op) {
   return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD
       || op == FMUL || op == FOEQ || op == FID;
}

E mkBin(Op op, E a, E b) {
   if(op == EQ) return mkEq(a, b);
   if(op == ULT || op == ULE || op == SLT || op == SLE) return mkCmp(op, a, b);
   unsigned w = a->w;
   if(a->op == CONST && b->op == CONST) return mkConst(binC(op, a->c, b->c, w), w);
   if(commut(op)) {
      // constants to the right, otherwise by id
      if(a->op == CONST || (b->op != CONST && a->id > b->id)) std::swap(a, b);
   }
   uint64_t m = mask(w);
   if(b->op == CONST) {
      uint64_t c = b->c;
      switch(op) {
         case ADD:
            if(c == 0) return a;
            if(a->op == ADD && a->k[1]->op == CONST) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + c, w));
            break;
         case SUB:
            if(w == 1) break;
            return mkBin(ADD, a, mkConst(0 - c, w));
         case MUL:
            if(c == 0) return b;
            if(c == 1) return a;
            break;
         case UDIV: case SDIV:
            if(c == 1 && w > 1) return a;
            break;
         case AND:
            if(c == 0) return b;
            if(c == m) return a;
            break;
         case OR:
            if(c == 0) return a;
            if(c == m) return b;
            break;
         case XOR:
            if(c == 0) return a;
            if(w == 1) return mkNot(a);
            if(a->op == XOR && a->k[1]->op == CONST) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ c, w));
            break;
         case SHL: case LSHR: case ASHR:
            if(c == 0) return a;
            break;
         default: break;
      }
   }
   if(a == b) {
      switch(op) {
         case SUB: case XOR: return mkConst(0, w);
         case AND: case OR: return a;
         default: break;
      }
   }
   // sums and products as sorted chains: the order of operations does not matter modulo 2^w
   if((op == ADD || op == MUL) && w > 1 && (a->op == op || b->op == op)) {
      std::vector<E> t;
      uint64_t c = op == ADD ? 0 : 1;
      std::function<bool(E)> flat = [&](E e) {
         if(e->op == op) return flat(e->k[0]) && flat(e->k[1]);
         if(e->op == CONST) c = mask(w) & (op == ADD ? c + e->c : c * e->c);
         else t.push_back(e);
         return t.size() <= 40;
      };
      if(flat(a) && flat(b)) {
         std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; });
         E r = t.empty() ? nullptr : t[0];
         for(size_t i = 1; i < t.size(); ++i) r = mk(op, false, w, {r, t[i]});
         E ec = mkConst(c, w);
         if(!r || (op == MUL && ec->c == 0)) return ec;
         if(ec->c == (op == ADD ? 0u : 1u)) return r;
         return mk(op, false, w, {r, ec});
      }
   }
   if(w == 1) {
      if(op == AND && isNotOf(a, b)) return mkConst(0, 1);
      if(op == OR && isNotOf(a, b)) return mkConst(1, 1);
      if(op == ADD || op == SUB) return mkBin(XOR, a, b);
      if(op == MUL) return mkBin(AND, a, b);
   }
   // bool logic on zero-extended booleans
   if((op == AND || op == OR || op == XOR) && a->op == ZEXT && a->k[0]->w == 1) {
      if(b->op == ZEXT && b->k[0]->w == 1) return mkZext(mkBin(op, a->k[0], b->k[0]), w);
      if(b->op == CONST && b->c <= 1) return mkZext(mkBin(op, a->k[0], mkConst(b->c, 1)), w);
      if(op == AND && b->op == CONST) return mkZext(mkBin(op, a->k[0], mkConst(b->c & 1, 1)), w);
   }
   return mk(op, false, w, {a, b});
}
E mkExtract(E a, unsigned lo, unsigned w) {
   if(lo == 0 && w == a->w) return a;
   if(a->op == CONST) return mkConst(a->c >> lo, w);
   if(a->op == EXTRACT) return mkExtract(a->k[0], a->aux + lo, w);
   if(a->op == ZEXT) {
      unsigned iw = a->k[0]->w;
      if(lo >= iw) return mkConst(0, w);
      if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if(lo == 0) return mkZext(a->k[0], w);
   }
   if(a->op == SEXT) {
      unsigned iw = a->k[0]->w;
      if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if(lo == 0 && w > iw) return mkSext(a->k[0], w);
   }
   if(a->op == CONCAT) {
      unsigned lw = a->k[1]->w;
      if(lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if(lo >= lw) return mkExtract(a->k[0], lo - lw, w);
   }
   if(a->op == ITE && (a->k[1]->op == CONST || a->k[2]->op == CONST))
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
   if(lo == 0 && (a->op == AND || a->op == OR || a->op == XOR) && w == 1)
      return mkBin(a->op, mkExtract(a->k[0], 0, 1), mkExtract(a->k[1], 0, 1));
   return mk(EXTRACT, false, w, {a}, lo);
}
E mkConcat(E hi, E lo) {
   unsigned w = hi->w + lo->w;
   if(w > 64) throw std::runtime_error("concat wider than 64 bits");
   if(hi->op == CONST && lo->op == CONST) return mkConst((hi->c << lo->w) | lo->c, w);
   if(hi->op == CONST && hi->c == 0) return mkZext(lo, w);
   if(hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
      return mkExtract(hi->k[0], lo->aux, w);
   if(hi->op == EXTRACT && lo == hi->k[0] && false) return nullptr;
   return mk(CONCAT, false, w, {hi, lo});
}
E mkZext(E a, unsigned w) {
   if(w == a->w) return a;
   if(a->op == CONST) return mkConst(a->c, w);
   if(a->op == ZEXT) return mkZext(a->k[0], w);
   return mk(ZEXT, false, w, {a});
}
E mkSext(E a, unsigned w) {
   if(w == a->w) return a;
   if(a->op == CONST) return mkConst((uint64_t)sext64(a->c, a->w), w);
   if(a->op == SEXT) return mkSext(a->k[0], w);
   if(a->op == ZEXT) return mkZext(a->k[0], w);
   return mk(SEXT, false, w, {a});
}
E mkIte(E c, E a, E b) {
   // x > 0 ? x : 0 - x is the absolute value, for zeros and NaN too
   if(a->fp && a->op != CONST && b->op == FADD && c == mkF2(FOLT, mkFConst(0, a->w), a) && b == mkF2(FADD, mkFConst(0, a->w), mkF1(FNEG, a))) return mkF1(FABS, a);
   if(a == b) return a;
   if(c->op == CONST) return c->c ? a : b;
   if(c->op == XOR && c->k[1]->op == CONST) return mkIte(c->k[0], b, a);
   if(a->w == 1 && !a->fp) {
      if(a->op == CONST) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
      if(b->op == CONST) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
   }
   if(!a->fp && a->op == CONST && b->op == CONST && a->c == 1 && b->c == 0) return mkZext(c, a->w);
   if(!a->fp && a->op == CONST && b->op == CONST && a->c == 0 && b->c == 1) return mkZext(mkNot(c), a->w);
   return mk(ITE, a->fp, a->w, {c, a, b});
}
E mkEq(E a, E b) {
   if(a->w != b->w || a->fp || b->fp) throw std::logic_error("mkEq sorts");
   if(a == b) return mkConst(1, 1);
   if(a->op == CONST && b->op == CONST) return mkConst(a->c == b->c, 1);
   if(a->op == CONST || (b->op != CONST && a->id > b->id)) std::swap(a, b);
   if(b->op == CONST) {
      if(a->w == 1) return b->c ? a : mkNot(a);
      if(a->op == ZEXT) {
         unsigned iw = a->k[0]->w;
         if(b->c & ~mask(iw)) return mkConst(0, 1);
         return mkEq(a->k[0], mkConst(b->c, iw));
      }
      if(a->op == SEXT) {
         unsigned iw = a->k[0]->w;
         if((mask(a->w) & (uint64_t)sext64(b->c, iw)) != b->c) return mkConst(0, 1);
         return mkEq(a->k[0], mkConst(b->c, iw));
      }
      if(a->op == ADD && a->k[1]->op == CONST) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if(a->op == ITE && (a->k[1]->op == CONST || a->k[2]->op == CONST))
         return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
   }
   if(a->w == 1) {
      if(isNotOf(a, b)) return mkConst(0, 1);
      return mkNot(mkBin(XOR, a, b));
   }
   if((a->op == ZEXT && b->op == ZEXT || a->op == SEXT && b->op == SEXT) && a->k[0]->w == b->k[0]->w)
      return mkEq(a->k[0], b->k[0]);
   return mk(EQ, false, 1, {a, b});
}
E mkCmp(Op op, E a, E b) {
   unsigned w = a->w;
   if(a->op == CONST && b->op == CONST) return mkConst(binC(op, a->c, b->c, w), 1);
   if(a == b) return mkConst(op == ULE || op == SLE, 1);
   if(op == ULT && b->op == CONST && b->c == 0) return mkConst(0, 1);
   if(op == ULT && b->op == CONST && b->c == 1) return mkEq(a, mkConst(0, w));
   if(op == ULE && a->op == CONST && a->c == 0) return mkConst(1, 1);
   // a zero-extended boolean against a constant
   if(a->op == ZEXT && a->k[0]->w == 1 && b->op == CONST && w > 1) {
      E c = a->k[0];
      return mkIte(c, mkConst(binC(op, 1, b->c, w), 1), mkConst(binC(op, 0, b->c, w), 1));
   }
   if(b->op == ZEXT && b->k[0]->w == 1 && a->op == CONST && w > 1) {
      E c = b->k[0];
      return mkIte(c, mkConst(binC(op, a->c, 1, w), 1), mkConst(binC(op, a->c, 0, w), 1));
   }
   if(a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
   // canonical: LE as NOT of LT swapped
   if(op == ULE) return mkNot(mkCmp(ULT, b, a));
   if(op == SLE) return mkNot(mkCmp(SLT, b, a));
   return mk(op, false, 1, {a, b});
}
// Never -0: a sum is -0 only if both terms are (rounding to nearest).
static bool noNegZero(E e, int d = 0) {
   if(e->op == FABS || (e->op == CONST && (e->c & mask(e->w - 1)))) return true;
   if(e->op == CONST) return e->c == 0;
   if(e->op != FADD || d > 4) return false;
   E a = e->k[0], b = e->k[1];
   return (a->op == FNEG && a->k[0] == b) || (b->op == FNEG && b->k[0] == a) || noNegZero(a, d + 1) || noNegZero(b, d + 1);
}
E mkF2(Op op, E a, E b) {
   unsigned w = a->w;
   if(!a->fp || !b->fp || a->w != b->w) throw std::logic_error("mkF2 sorts");
   bool cmp = op == FOEQ || op == FOLT || op == FOLE || op == FID;
   if(a->op == CONST && b->op == CONST) {
      uint64_t r = f2C(op, a->c, b->c, w);
      return cmp ? mkConst(r, 1) : mkFConst(r, w);
   }
   // Exact identities of IEEE arithmetic (all NaNs are one value here).
   auto isC = [&](E e, double d) { return e->op == CONST && e->c == (w == 64 ? ofD(d) : ofF(float(d))); };
   if(op == FMUL) {
      if(a->op == CONST) std::swap(a, b);
      if(isC(b, 1)) return a;
      if(isC(b, -1)) return mkF1(FNEG, a);
      if(isC(b, 2)) return mkF2(FADD, a, a);
      if(a->op == FNEG || b->op == FNEG) {
         bool n = (a->op == FNEG) != (b->op == FNEG);
         E p = mkF2(FMUL, a->op == FNEG ? a->k[0] : a, b->op == FNEG ? b->k[0] : b);
         return n ? mkF1(FNEG, p) : p;
      }
   }
   if(op == FDIV) {
      if(isC(b, 1)) return a;
      if(isC(b, -1)) return mkF1(FNEG, a);
      if(a->op == FNEG || b->op == FNEG) {
         bool n = (a->op == FNEG) != (b->op == FNEG);
         E p = mkF2(FDIV, a->op == FNEG ? a->k[0] : a, b->op == FNEG ? b->k[0] : b);
         return n ? mkF1(FNEG, p) : p;
      }
   }
   if(op == FADD) {
      if(isC(b, -0.0)) return a;
      if(isC(a, -0.0)) return b;
      if(isC(a, 0) && noNegZero(b)) return b;
      if(isC(b, 0) && noNegZero(a)) return a;
   }
   // comparisons do not tell zeros apart; comparisons of negated values
   if(op == FOEQ || op == FOLT || op == FOLE) {
      if(isC(a, -0.0)) a = mkFConst(0, w);
      if(isC(b, -0.0)) b = mkFConst(0, w);
      auto neg = [](E e) { return e->op == FNEG; };
      if((neg(a) && (neg(b) || b->op == CONST)) || (neg(b) && a->op == CONST)) return mkF2(op, mkF1(FNEG, b), mkF1(FNEG, a));
   }
   if(op == FOEQ || op == FOLT || op == FOLE) {
      auto flip = [](E e) { return e->op == FNEG && e->k[0]->op == FADD ? mkF2(FADD, mkF1(FNEG, e->k[0]->k[0]), mkF1(FNEG, e->k[0]->k[1])) : e; };
      a = flip(a);
      b = flip(b);
   }
   // the sign of a sum, exact with gradual underflow (infinity - infinity is not ordered)
   if(op == FOLT && a->op == CONST && (a->c & mask(w - 1)) == 0 && b->op == FADD) return mkF2(FOLT, mkF1(FNEG, b->k[1]), b->k[0]);
   if(op == FOLT && b->op == CONST && (b->c & mask(w - 1)) == 0 && a->op == FADD) return mkF2(FOLT, a->k[0], mkF1(FNEG, a->k[1]));
   if(commut(op) && a->id > b->id) std::swap(a, b);
   if(a == b) {
      if(op == FID) return mkConst(1, 1);
      if(op == FOLT) return mkConst(0, 1);
      if(op == FOEQ || op == FOLE) return mkNot(mkF1(FISNAN, a));
   }
   return mk(op, !cmp, cmp ? 1 : w, {a, b});
}
E mkFsub(E a, E b) { return mkF2(FADD, a, mkF1(FNEG, b)); }
E mkF1(Op op, E a, unsigned aux) {
   bool pred = op == FISNAN || op == FISINF;
   if(a->op == CONST) {
      uint64_t r = f1C(op, a->c, a->w, aux);
      return pred ? mkConst(r, 1) : mkFConst(r, a->w);
   }
   if(op == FNEG && a->op == FNEG) return a->k[0];
   if(op == FABS && a->op == FADD && (a->k[0]->op == FNEG || a->k[1]->op == FNEG)) { // |x - y| is |y - x|
      E n = mkF2(FADD, mkF1(FNEG, a->k[0]), mkF1(FNEG, a->k[1]));
      if(n->id < a->id) a = n;
   }
   if(op == FABS && a->op == FADD && ((a->k[0]->op == FNEG && a->k[0]->k[0] == a->k[1]) || (a->k[1]->op == FNEG && a->k[1]->k[0] == a->k[0]))) return a;
   if(op == FABS && (a->op == FNEG || a->op == FABS)) return mkF1(FABS, a->k[0]);
   if(pred && (a->op == FNEG || a->op == FABS)) return mkF1(op, a->k[0]);
   if(op == FISNAN && (a->op == STOF || a->op == UTOF)) return mkConst(0, 1);
   return mk(op, !pred, pred ? 1 : a->w, {a}, aux);
}
E mkFma(E a, E b, E c) {
   if(a->op == CONST && b->op == CONST && c->op == CONST) {
      if(a->w == 64) return mkFConst(ofD(std::fma(asD(a->c), asD(b->c), asD(c->c))), 64);
      return mkFConst(ofF(std::fma(asF(a->c), asF(b->c), asF(c->c))), 32);
   }
   if(a->id > b->id) std::swap(a, b);
   return mk(FFMA, true, a->w, {a, b, c});
}
E mkFromBV(E a) {
   if(a->op == CONST) return mkFConst(a->c, a->w);
   if(a->op == ITE) return mkIte(a->k[0], mkFromBV(a->k[1]), mkFromBV(a->k[2]));
   if(a->op == VAR && gVars[a->aux].def) return gVars[a->aux].def;
   if((a->op == XOR || a->op == AND) && (a->w == 32 || a->w == 64) && a->k[1]->op == CONST) {
      if(a->op == XOR && a->k[1]->c == 1ull << (a->w - 1)) return mkF1(FNEG, mkFromBV(a->k[0]));
      if(a->op == AND && a->k[1]->c == mask(a->w) >> 1) return mkF1(FABS, mkFromBV(a->k[0]));
   }
   return mk(FFROMBV, true, a->w, {a});
}
E mkToBV(E a) {
   if(!a->fp) return a;
   if(a->op == CONST) return mkConst(a->c, a->w);
   if(a->op == FFROMBV) return a->k[0];
   if(a->op == ITE) return mkIte(a->k[0], mkToBV(a->k[1]), mkToBV(a->k[2]));
   if(a->op == FNEG) return mkBin(XOR, mkToBV(a->k[0]), mkConst(1ull << (a->w - 1), a->w));
   if(a->op == FABS) return mkBin(AND, mkToBV(a->k[0]), mkConst(mask(a->w) >> 1, a->w));
   E v = mkVar("!bits" + std::to_string(a->id), a->w);
   if(!gVars[v->aux].def) {
      gVars[v->aux].defConstraint = mk(FID, false, 1, {mk(FFROMBV, true, a->w, {v}), a});
      gVars[v->aux].def = a;
   }
   return v;
}
E mkFcvt(E a, unsigned w) {
   if(a->w == w) return a;
   if(a->op == CONST) return mkFConst(cvtC(FCVT, a->c, a->w, w), w);
   return mk(FCVT, true, w, {a});
}
E mkIntToFp(E a, unsigned w, bool s) {
   if(a->op == CONST) return mkFConst(cvtC(s ? STOF : UTOF, a->c, a->w, w), w);
   return mk(s ? STOF : UTOF, true, w, {a});
}
E mkFpToInt(E a, unsigned w, bool s) {
   if(a->op == CONST) return mkConst(cvtC(s ? FTOS : FTOU, a->c, a->w, w), w);
   return mk(s ? FTOS : FTOU, false, w, {a});
}
E mkUF(const std::string& name, const std::vector<E>& args, unsigned w) {
   auto it = ufByName.find(name);
   uint32_t i;
   if(it == ufByName.end()) {
      i = (uint32_t)gUFs.size();
      gUFs.push_back(name);
      ufByName[name] = i;
   } else i = it->second;
   return mk(UF, true, w, args, i);
}

static const char* opName[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
   "extract","concat","zext","sext","ite","eq","ult","ule","slt","sle","frombv","fadd","fmul","fdiv","fneg","fabs","fsqrt","fma","frnd",
   "foeq","folt","fole","isnan","isinf","fid","fcvt","stof","utof","ftos","ftou","uf"};
std::string str(E e, int d) {
   if(e->op == CONST) {
      if(e->fp) { char b[64]; snprintf(b, 64, "%.17g", e->w == 64 ? asD(e->c) : (double)asF(e->c)); return b; }
      return std::to_string(sext64(e->c, e->w));
   }
   if(e->op == VAR) return gVars[e->aux].name;
   std::string s = e->op == UF ? gUFs[e->aux] : opName[e->op];
   s += "(";
   if(d == 0) return s + "..)";
   for(size_t i = 0; i < e->k.size(); ++i) s += (i ? "," : "") + str(e->k[i], d - 1);
   return s + ")";
}

// ---------------------------------------------------------------- evaluation
int Model::eval(E e, uint64_t& out) {
   if(e->op == CONST) { out = e->c; return 1; }
   if(e->id >= st.size()) { st.resize(e->id + 1024, 0); val.resize(e->id + 1024, 0); }
   if(st[e->id]) { out = val[e->id]; return st[e->id]; }
   uint64_t r = 0;
   int s = 1;
   auto K = [&](size_t i, uint64_t& o) { return eval(e->k[i], o); };
   uint64_t a = 0, b = 0, c = 0;
   switch(e->op) {
      case VAR:
         if(gVars[e->aux].def) s = eval(gVars[e->aux].def, r);
         else r = e->aux < var.size() ? var[e->aux] & mask(e->w) : 0;
         break;
      case UF: s = 2; break;
      case ITE:
         if((s = K(0, a)) == 1) s = a ? K(1, r) : K(2, r);
         break;
      case AND:
         if(e->w == 1) {
            int sa = K(0, a), sb = K(1, b);
            if((sa == 1 && !a) || (sb == 1 && !b)) { r = 0; s = 1; }
            else if(sa == 1 && sb == 1) r = a & b;
            else s = 2;
            break;
         }
         [[fallthrough]];
      case OR:
         if(e->w == 1 && e->op == OR) {
            int sa = K(0, a), sb = K(1, b);
            if((sa == 1 && a) || (sb == 1 && b)) { r = 1; s = 1; }
            else if(sa == 1 && sb == 1) r = a | b;
            else s = 2;
            break;
         }
         [[fallthrough]];
      default: {
         if(e->k.size() > 0 && K(0, a) != 1) { s = 2; break; }
         if(e->k.size() > 1 && K(1, b) != 1) { s = 2; break; }
         if(e->k.size() > 2 && K(2, c) != 1) { s = 2; break; }
         unsigned kw = e->k[0]->w;
         switch(e->op) {
            case EXTRACT: r = (a >> e->aux) & mask(e->w); break;
            case CONCAT: r = (a << e->k[1]->w) | b; break;
            case ZEXT: r = a; break;
            case SEXT: r = (uint64_t)sext64(a, kw) & mask(e->w); break;
            case FFROMBV: r = a; break;
            case FADD: case FMUL: case FDIV: case FOEQ: case FOLT: case FOLE: case FID: r = f2C(e->op, a, b, kw); break;
            case FNEG: case FABS: case FSQRT: case FRND: case FISNAN: case FISINF: r = f1C(e->op, a, kw, e->aux); break;
            case FFMA: r = kw == 64 ? ofD(std::fma(asD(a), asD(b), asD(c))) : ofF(std::fma(asF(a), asF(b), asF(c))); break;
            case FCVT: case STOF: case UTOF: case FTOS: case FTOU: r = cvtC(e->op, a, kw, e->w); break;
            default: r = binC(e->op, a, b, kw);
         }
      }
   }
   if(e->id >= st.size()) { st.resize(e->id + 1024, 0); val.resize(e->id + 1024, 0); }
   st[e->id] = (uint8_t)s;
   val[e->id] = r;
   out = r;
   return s;
}

// ---------------------------------------------------------------- z3
static Z3_context ctx;
static std::vector<Z3_ast> memoB, memoV;
static std::unordered_map<uint32_t, Z3_func_decl> ufDecl;
static std::string z3err;
static void errh(Z3_context c, Z3_error_code e) { z3err = Z3_get_error_msg(c, e); throw std::runtime_error("z3: " + z3err); }
static void initZ3() {
   if(ctx) return;
   Z3_config cfg = Z3_mk_config();
   ctx = Z3_mk_context(cfg);
   Z3_set_error_handler(ctx, errh);
}
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast tv(E e);
// The bits of a floating-point leaf (all NaNs are one value in comparisons), or null.
static E leafBits(E e) {
   if(e->op == CONST) return mkConst(e->c, e->w);
   if(e->op == FFROMBV) return e->k[0];
   if(e->op != FNEG && e->op != FABS) return nullptr;
   E b = leafBits(e->k[0]);
   if(!b) return nullptr;
   return e->op == FNEG ? mkBin(XOR, b, mkConst(1ull << (e->w - 1), e->w)) : mkBin(AND, b, mkConst(mask(e->w) >> 1, e->w));
}
// Comparisons of leaves as comparisons of their bits, which the bit-vector solver decides quickly.
static E lowerFP(E e) {
   E x = leafBits(e->k[0]), y = e->k.size() > 1 ? leafBits(e->k[1]) : x;
   if(!x || !y) return nullptr;
   unsigned w = x->w;
   uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
   E absm = mkConst(mask(w) >> 1, w), einf = mkConst(inf, w), zero = mkConst(0, w);
   auto nan = [&](E b) { return mkCmp(ULT, einf, mkBin(AND, b, absm)); };
   auto both0 = [&] { return mkEq(mkBin(AND, mkBin(OR, x, y), absm), zero); };
   auto key = [&](E b) { return mkIte(mkCmp(SLT, b, zero), mkBin(XOR, b, absm), b); };
   auto ordered = [&](E c) { return mkBin(AND, c, mkBin(AND, mkNot(nan(x)), mkNot(nan(y)))); };
   switch(e->op) {
      case FISNAN: return nan(x);
      case FISINF: return mkEq(mkBin(AND, x, absm), einf);
      case FID: return mkBin(OR, mkEq(x, y), mkBin(AND, nan(x), nan(y)));
      case FOEQ: return ordered(mkBin(OR, mkEq(x, y), both0()));
      case FOLE: return ordered(mkBin(OR, mkCmp(SLE, key(x), key(y)), both0()));
      case FOLT: return ordered(mkBin(AND, mkCmp(SLT, key(x), key(y)), mkNot(both0())));
      default: return nullptr;
   }
}
static Z3_ast tb(E e) { // width-1 bit vector as Bool
   if(e->id < memoB.size() && memoB[e->id]) return memoB[e->id];
   Z3_ast r;
   if(e->op == FOEQ || e->op == FOLT || e->op == FOLE || e->op == FID || e->op == FISNAN || e->op == FISINF)
      if(E l = lowerFP(e)) {
         r = tb(l);
         if(e->id >= memoB.size()) memoB.resize(e->id + 1024, nullptr);
         memoB[e->id] = r;
         return r;
      }
   switch(e->op) {
      case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case AND: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
      case OR: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
      case XOR:
         if(e->k[1]->op == CONST) { r = tb(e->k[0]); if(e->k[1]->c) r = Z3_mk_not(ctx, r); }
         else r = Z3_mk_xor(ctx, tb(e->k[0]), tb(e->k[1]));
         break;
      case ITE: r = Z3_mk_ite(ctx, tb(e->k[0]), tb(e->k[1]), tb(e->k[2])); break;
      case EQ: r = Z3_mk_eq(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case ULT: r = Z3_mk_bvult(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case ULE: r = Z3_mk_bvule(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case SLT: r = Z3_mk_bvslt(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case SLE: r = Z3_mk_bvsle(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case FOEQ: r = Z3_mk_fpa_eq(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case FOLT: r = Z3_mk_fpa_lt(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case FOLE: r = Z3_mk_fpa_leq(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case FID: r = Z3_mk_eq(ctx, tv(e->k[0]), tv(e->k[1])); break;
      case FISNAN: r = Z3_mk_fpa_is_nan(ctx, tv(e->k[0])); break;
      case FISINF: r = Z3_mk_fpa_is_infinite(ctx, tv(e->k[0])); break;
      default: r = Z3_mk_eq(ctx, tv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
   }
   if(e->id >= memoB.size()) memoB.resize(e->id + 1024, nullptr);
   memoB[e->id] = r;
   return r;
}
static bool isBoolOp(E e) {
   if(e->w != 1 || e->fp) return false;
   switch(e->op) {
      case CONST: case AND: case OR: case XOR: case ITE: case EQ: case ULT: case ULE: case SLT: case SLE:
      case FOEQ: case FOLT: case FOLE: case FID: case FISNAN: case FISINF: return true;
      default: return false;
   }
}
static Z3_ast tv(E e) {
   if(e->id < memoV.size() && memoV[e->id]) return memoV[e->id];
   Z3_ast r;
   auto k = [&](int i) { return tv(e->k[i]); };
   if(isBoolOp(e)) {
      Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
      r = Z3_mk_ite(ctx, tb(e), Z3_mk_unsigned_int64(ctx, 1, b1), Z3_mk_unsigned_int64(ctx, 0, b1));
   } else switch(e->op) {
      case CONST: {
         Z3_ast b = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w));
         r = e->fp ? (isNanC(e->c, e->w) ? Z3_mk_fpa_nan(ctx, fsort(e->w)) : Z3_mk_fpa_to_fp_bv(ctx, b, fsort(e->w))) : b;
         if(e->fp) r = Z3_simplify(ctx, r);
         break;
      }
      case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, gVars[e->aux].name.c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
      case ADD: r = Z3_mk_bvadd(ctx, k(0), k(1)); break;
      case SUB: r = Z3_mk_bvsub(ctx, k(0), k(1)); break;
      case MUL: r = Z3_mk_bvmul(ctx, k(0), k(1)); break;
      case UDIV: r = Z3_mk_bvudiv(ctx, k(0), k(1)); break;
      case SDIV: r = Z3_mk_bvsdiv(ctx, k(0), k(1)); break;
      case UREM: r = Z3_mk_bvurem(ctx, k(0), k(1)); break;
      case SREM: r = Z3_mk_bvsrem(ctx, k(0), k(1)); break;
      case AND: r = Z3_mk_bvand(ctx, k(0), k(1)); break;
      case OR: r = Z3_mk_bvor(ctx, k(0), k(1)); break;
      case XOR: r = Z3_mk_bvxor(ctx, k(0), k(1)); break;
      case SHL: r = Z3_mk_bvshl(ctx, k(0), k(1)); break;
      case LSHR: r = Z3_mk_bvlshr(ctx, k(0), k(1)); break;
      case ASHR: r = Z3_mk_bvashr(ctx, k(0), k(1)); break;
      case EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, k(0)); break;
      case CONCAT: r = Z3_mk_concat(ctx, k(0), k(1)); break;
      case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, k(0)); break;
      case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, k(0)); break;
      case ITE: r = Z3_mk_ite(ctx, tb(e->k[0]), k(1), k(2)); break;
      case FFROMBV: r = Z3_mk_fpa_to_fp_bv(ctx, k(0), fsort(e->w)); break;
      case FADD:
         // a + (-b) as a subtraction
         r = e->k[1]->op == FNEG ? Z3_mk_fpa_sub(ctx, rne(), k(0), tv(e->k[1]->k[0]))
                                 : Z3_mk_fpa_add(ctx, rne(), k(0), k(1));
         break;
      case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), k(0), k(1)); break;
      case FDIV: r = Z3_mk_fpa_div(ctx, rne(), k(0), k(1)); break;
      case FNEG: r = Z3_mk_fpa_neg(ctx, k(0)); break;
      case FABS: r = Z3_mk_fpa_abs(ctx, k(0)); break;
      case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), k(0)); break;
      case FFMA: r = Z3_mk_fpa_fma(ctx, rne(), k(0), k(1), k(2)); break;
      case FRND: {
         Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rne(ctx) : e->aux == 1 ? Z3_mk_fpa_rna(ctx) : e->aux == 2 ? Z3_mk_fpa_rtn(ctx)
                   : e->aux == 3 ? Z3_mk_fpa_rtp(ctx) : Z3_mk_fpa_rtz(ctx);
         r = Z3_mk_fpa_round_to_integral(ctx, rm, k(0));
         break;
      }
      case FCVT: r = Z3_mk_fpa_to_fp_float(ctx, rne(), k(0), fsort(e->w)); break;
      case STOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), k(0), fsort(e->w)); break;
      case UTOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), k(0), fsort(e->w)); break;
      case FTOS: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), k(0), e->w); break;
      case FTOU: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), k(0), e->w); break;
      case UF: {
         std::vector<Z3_ast> a;
         std::vector<Z3_sort> s;
         for(E x : e->k) { a.push_back(tv(x)); s.push_back(x->fp ? fsort(x->w) : Z3_mk_bv_sort(ctx, x->w)); }
         auto& d = ufDecl[e->aux];
         if(!d) d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, gUFs[e->aux].c_str()), (unsigned)s.size(), s.data(), fsort(e->w));
         r = Z3_mk_app(ctx, d, (unsigned)a.size(), a.data());
         break;
      }
      default: throw std::logic_error(std::string("tv: ") + opName[e->op]);
   }
   if(e->id >= memoV.size()) memoV.resize(e->id + 1024, nullptr);
   memoV[e->id] = r;
   return r;
}

// ---------------------------------------------------------------- queries
struct QK {
   std::vector<uint32_t> ids;
   bool operator==(const QK& o) const { return ids == o.ids; }
};
struct QKH { size_t operator()(const QK& q) const { uint64_t h = 1469598103934665603ull; for(auto i : q.ids) h = (h ^ i) * 1099511628211ull; return h; } };
struct QR { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; unsigned ms = 0; };
static std::unordered_map<QK, QR, QKH> qcache;
static std::vector<ModelP> recent;

// Tries values for the variables of a conjunction.
static bool guess(const std::vector<E>& sl, const std::unordered_set<uint32_t>& vs, ModelP base, std::vector<std::pair<uint32_t, uint64_t>>& out) {
   std::vector<uint32_t> vars;
   for(uint32_t v : vs) {
      if(v & 0x80000000u) return false;
      vars.push_back(v);
   }
   std::sort(vars.begin(), vars.end());
   if(vars.empty()) return false;
   std::vector<E> nodes;
   std::unordered_set<E> seen;
   std::vector<E> st(sl.begin(), sl.end());
   while(!st.empty()) {
      E e = st.back();
      st.pop_back();
      if(!seen.insert(e).second) continue;
      nodes.push_back(e);
      if(nodes.size() > 4000) return false;
      for(E k : e->k) st.push_back(k);
   }
   uint64_t rng = 0x9e3779b97f4a7c15ull;
   auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
   static const double sp[] = {0, -0.0, 1, -1, 2, -2, 0.5, 3, 10, -10, 1e-3, 1e-7, 1e10, -1e10, 1e-30, 1e30, 1 / 0.0, -1 / 0.0, 1e-310, 1.5};
   Model m;
   if(base) m.var = base->var;
   if(m.var.size() < gVars.size()) m.var.resize(gVars.size(), 0);
   std::vector<uint64_t> orig;
   for(uint32_t v : vars) orig.push_back(m.var[v]);
   uint32_t top = 0;
   for(E e : nodes) top = std::max(top, e->id);
   m.st.assign(top + 1, 0);
   m.val.assign(top + 1, 0);
   int tries = std::min<int>(400, (int)(200000 / nodes.size()));
   for(int t = 0; t < tries; ++t) {
      for(size_t i = 0; i < vars.size(); ++i) {
         uint32_t v = vars[i];
         unsigned w = gVars[v].w;
         uint64_t x = base ? orig[i] : 0;
         if(!base || rnd() % vars.size() < 2) switch(rnd() % 7) {
            case 0: x = rnd() & mask(w); break;
            case 1: x = m.var[vars[rnd() % vars.size()]] & mask(w); break;
            case 2: x = (x + (rnd() % 5) - 2) & mask(w); break;
            case 3: x = (x ^ (1ull << (rnd() % w))) & mask(w); break;
            case 4: x = (x ^ (1ull << (w - 1))) & mask(w); break;
            default: {
               double d = sp[rnd() % (sizeof sp / sizeof *sp)];
               x = w == 64 ? ofD(d) : w == 32 ? ofF((float)d) : rnd() & mask(w);
            }
         }
         m.var[v] = x & mask(w);
      }
      for(E e : nodes) m.st[e->id] = 0;
      bool ok = true;
      uint64_t o;
      for(size_t i = sl.size(); ok && i-- > 0;) ok = m.eval(sl[i], o) == 1 && o;
      if(ok) {
         for(uint32_t v : vars) out.push_back({v, m.var[v]});
         return true;
      }
   }
   return false;
}
static Res runCvc5(const std::vector<E>& cs, unsigned ms) {
   std::vector<Z3_ast> as;
   for(size_t i = 0; i + 1 < cs.size(); ++i) as.push_back(tb(cs[i]));
   const char* s = Z3_benchmark_to_smtlib_string(ctx, "q", "ALL", "unknown", "", (unsigned)as.size(), as.data(), tb(cs.back()));
   char tmpl[] = "/tmp/symxqXXXXXX";
   int fd = mkstemp(tmpl);
   if(fd < 0) return UNKNOWN;
   FILE* f = fdopen(fd, "w");
   fputs(s, f);
   fclose(f);
   std::string cmd = "cvc5 --tlimit=" + std::to_string(ms) + " " + tmpl + " 2>&1";
   FILE* p = popen(cmd.c_str(), "r");
   std::string out;
   char buf[256];
   while(p && fgets(buf, sizeof buf, p)) out += buf;
   if(p) pclose(p);
   unlink(tmpl);
   gStats.cvc5++;
   if(out.find("(error") != std::string::npos) return UNKNOWN;
   if(out.rfind("unsat", 0) == 0) return UNSAT;
   return UNKNOWN;
}

Res solve(const std::vector<E>& pc, const std::vector<E>& cond, ModelP base, ModelP& model, unsigned timeoutMs) {
   initZ3();
   if(!timeoutMs) timeoutMs = gTimeoutMs;
   // constants
   std::vector<E> cs;
   for(E c : cond) {
      if(c->op == CONST) { if(!c->c) return UNSAT; continue; }
      cs.push_back(c);
   }
   if(cs.empty()) { model = base; return SAT; }
   // direct implication
   // slice: transitive closure over shared variables
   std::unordered_set<uint32_t> vs;
   std::vector<uint32_t> work;
   std::vector<E> defs;
   std::unordered_set<E> inS;
   auto addVars = [&](E e) { for(uint32_t v : *e->vars) if(vs.insert(v).second) work.push_back(v); };
   std::vector<E> sl;
   for(E c : cs) if(inS.insert(c).second) { sl.push_back(c); addVars(c); }
   std::vector<char> used(pc.size(), 0);
   bool change = true;
   while(change) {
      change = false;
      while(!work.empty()) {
         uint32_t v = work.back();
         work.pop_back();
         if(!(v & 0x80000000u) && gVars[v].defConstraint) {
            E d = gVars[v].defConstraint;
            if(inS.insert(d).second) { sl.push_back(d); addVars(d); }
         }
      }
      for(size_t i = 0; i < pc.size(); ++i) {
         if(used[i]) continue;
         bool hit = false;
         for(uint32_t v : *pc[i]->vars) if(vs.count(v)) { hit = true; break; }
         if(hit) {
            used[i] = 1;
            change = true;
            if(inS.insert(pc[i]).second) { sl.push_back(pc[i]); addVars(pc[i]); }
         }
      }
   }
   for(E c : sl) for(E d : cs) if(isNotOf(c, d)) return UNSAT;
   // model reuse
   auto tryModel = [&](ModelP m) {
      if(!m) return false;
      uint64_t o;
      for(E c : sl) if(m->eval(c, o) != 1 || !o) return false;
      return true;
   };
   auto compose = [&](const std::vector<std::pair<uint32_t, uint64_t>>& vals) {
      auto m = std::make_shared<Model>();
      if(base) m->var = base->var;
      if(m->var.size() < gVars.size()) m->var.resize(gVars.size(), 0);
      for(auto& [v, x] : vals) m->var[v] = x;
      return m;
   };
   auto fromModel = [&](ModelP r) {
      std::vector<std::pair<uint32_t, uint64_t>> vals;
      for(uint32_t v : vs) if(!(v & 0x80000000u)) vals.push_back({v, v < r->var.size() ? r->var[v] : 0});
      return compose(vals);
   };
   if(tryModel(base)) { gStats.modelHits++; model = base; return SAT; }
   for(auto it = recent.rbegin(); it != recent.rend(); ++it)
      if(tryModel(*it)) { gStats.modelHits++; model = base ? fromModel(*it) : nullptr; return SAT; }
   QK key;
   for(E c : sl) key.ids.push_back(c->id);
   std::sort(key.ids.begin(), key.ids.end());
   auto it = qcache.find(key);
   if(it != qcache.end() && (it->second.r != UNKNOWN || it->second.ms >= timeoutMs)) {
      gStats.cacheHits++;
      if(it->second.r == SAT) model = base ? compose(it->second.vals) : nullptr;
      return it->second.r;
   }
   bool fp = false, uf = false;
   for(E c : sl) fp |= c->hasFPArith, uf |= c->hasUF;
   if(fp && !uf) { // a witness by trial, which is only believed after evaluation
      std::vector<std::pair<uint32_t, uint64_t>> vals;
      if(guess(sl, vs, base, vals)) {
         gStats.modelHits++;
         model = compose(vals);
         qcache[key] = QR{SAT, vals, timeoutMs};
         return SAT;
      }
   }
   auto t0 = std::chrono::steady_clock::now();
   Res res = UNKNOWN;
   QR qr{UNKNOWN, {}};
   std::vector<Z3_ast> asts;
   for(E c : sl) asts.push_back(tb(c));
   Z3_solver s = fp ? Z3_mk_solver(ctx) : Z3_mk_simple_solver(ctx);
   Z3_solver_inc_ref(ctx, s);
   Z3_params p = Z3_mk_params(ctx);
   Z3_params_inc_ref(ctx, p);
   Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), fp && !gNoCvc5 ? std::max(2000u, timeoutMs / 2) : timeoutMs);
   Z3_solver_set_params(ctx, s, p);
   for(auto a : asts) Z3_solver_assert(ctx, s, a);
   Z3_lbool lr = Z3_solver_check(ctx, s);
   gStats.queries++;
   if(lr == Z3_L_FALSE) res = UNSAT;
   else if(lr == Z3_L_TRUE) {
      res = SAT;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for(uint32_t v : vs) {
         if(v & 0x80000000u) continue;
         Z3_ast out;
         E ve = mkVar(gVars[v].name, gVars[v].w);
         uint64_t x = 0;
         if(Z3_model_eval(ctx, m, tv(ve), true, &out)) Z3_get_numeral_uint64(ctx, out, &x);
         qr.vals.push_back({v, x});
      }
      Z3_model_dec_ref(ctx, m);
      model = compose(qr.vals);
   }
   Z3_params_dec_ref(ctx, p);
   Z3_solver_dec_ref(ctx, s);
   if(res == UNKNOWN && !gNoCvc5) res = runCvc5(sl, timeoutMs);
   double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   gStats.time += dt;
   if(const char* slow = getenv("SYMX_SLOW"); slow && dt > 0.3) {
      static int k = 0;
      std::vector<Z3_ast> as;
      for(size_t i = 0; i + 1 < sl.size(); ++i) as.push_back(tb(sl[i]));
      FILE* f = fopen((std::string(slow) + "." + std::to_string(k++) + ".smt2").c_str(), "w");
      fprintf(f, "; %.2f s, %s\n%s", dt, res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown",
              Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", "unknown", "", (unsigned)as.size(), as.data(), tb(sl.back())));
      fclose(f);
   }
   gStats.maxTime = std::max(gStats.maxTime, dt);
   if(res == SAT) {
      gStats.sat++;
      recent.push_back(model);
      if(recent.size() > 24) recent.erase(recent.begin());
      if(!base) model = nullptr;
   } else if(res == UNSAT) gStats.unsat++;
   else gStats.unknown++;
   qr.r = res;
   qr.ms = timeoutMs;
   qcache[key] = qr;
   return res;
}

} // namespace sx
