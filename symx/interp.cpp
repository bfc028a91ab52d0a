#include <sys/stat.h>
// symx: symbolic executor for LLVM IR (textual or bitcode) of the C++ harnesses.
// Paths are explored depth first by re-execution: a trace of recorded decisions is replayed, then extended.
#include "expr.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <pthread.h>
#include <set>
#include <sys/resource.h>

using namespace sx;
using llvm::cast;
using llvm::dyn_cast;
using llvm::isa;

namespace {

double now() {
   using namespace std::chrono;
   return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values
struct Val;
using Agg = std::shared_ptr<std::vector<Val>>;
struct Val {
   uint64_t c = 0;
   E e = nullptr;     // symbolic if set
   uint32_t prov = 0; // object a pointer was derived from
   Agg agg;
};
Val cv(uint64_t c) { Val v; v.c = c; return v; }
Val ev(E e) {
   Val v;
   if(e->op == CONST) v.c = e->c;
   else v.e = e;
   return v;
}

struct PathEnd { const char* why; };
struct Unsupported { std::string what; };
struct Bound { std::string what; };

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { KGlobal, KConst, KStack, KHeap, KFunc, KExc };
enum AKind : uint8_t { ANone, ANew, ANewArr, AMalloc, ANewAl, ANewArrAl };
struct Cell { E e; uint32_t n; uint32_t prov; };
struct Obj {
   uint64_t base = 0, size = 0;
   Kind kind = KHeap;
   AKind ak = ANone;
   bool alive = true;
   std::vector<uint8_t> data, st; // st: 0 uninitialised, 1 concrete, 2 symbolic
   std::vector<uint32_t> owner;   // start of the symbolic cell that covers a byte
   std::unordered_map<uint32_t, Cell> cells;
   std::string name;
};

struct Opnd { int slot; Val cst; };
struct DInst {
   const llvm::Instruction* I;
   unsigned opc;
   int dst = -1;
   unsigned w = 0;      // width of the result (or of the compared operands)
   bool fp = false;
   std::vector<Opnd> ops;
   int64_t gepOff = 0;
   std::vector<std::pair<int, uint64_t>> gepVar; // operand index in ops, scale
   std::vector<unsigned> gepW;
   const llvm::Function* callee = nullptr;
   int stub = -1;
   int b0 = -1, b1 = -1;
   uint64_t size = 0;
   std::vector<std::pair<uint64_t, int>> cases;
};
struct DBlock {
   std::vector<DInst> insts;
   std::vector<int> preds; // unused
   std::map<int, std::vector<std::pair<int, Opnd>>> phis; // pred block -> assignments
   const llvm::BasicBlock* bb;
};
struct DFunc {
   const llvm::Function* F;
   std::vector<DBlock> blocks;
   unsigned nslots = 0;
   uint64_t calls = 0;
};

const llvm::DataLayout* DL;
llvm::Module* M;
std::vector<Obj*> objs; // index = id
size_t nGlobals;
std::vector<std::pair<uint32_t, Obj>> mutableImages;
std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
std::unordered_map<uint64_t, const llvm::Function*> faddr;
std::unordered_map<const llvm::Function*, DFunc*> dfuncs;

uint64_t baseOf(uint32_t id, uint64_t align) { return ((uint64_t)id << 32) + 0x80000000ull + (align >= 64 ? 0 : align >= 32 ? 32 : 16); }

uint32_t newObj(uint64_t size, Kind k, uint64_t align, const std::string& name, bool zero = false) {
   auto* o = new Obj;
   uint32_t id = (uint32_t)objs.size();
   o->base = baseOf(id, align);
   o->size = size;
   o->kind = k;
   o->data.assign(size, 0);
   o->st.assign(size, zero ? 1 : 0);
   o->name = name;
   objs.push_back(o);
   return id;
}

// ---------------------------------------------------------------- options and results
std::string harness, cexPrefix;
uint64_t maxPaths = 200000, maxInsts = 8000000;
double timeLimit = 600, tStart = 0, tViol = 0;
// After a violation only a little more is explored.
std::string stopFile; // exists once another harness has found a violation
bool stopped() {
   static double next = 0;
   static bool yes = false;
   if(yes || stopFile.empty() || now() < next) return yes;
   next = now() + 1;
   struct stat st;
   return yes = stat(stopFile.c_str(), &st) == 0 && time(nullptr) - st.st_mtime > 45;
}
bool outOfTime() { return now() - tStart > timeLimit || (tViol > 0 && now() - tViol > 25) || stopped(); }
bool traceOn = false;
bool freeUF = false;

struct SiteStat { uint64_t reached = 0, queries = 0, concrete = 0; };
std::map<std::string, SiteStat> sites;
std::map<std::string, uint64_t> reachSites;
struct Viol { std::string msg, file, where; };
std::vector<Viol> viols;
std::set<std::string> violMsgs;
std::vector<std::string> problems;
uint64_t nPaths, nInstTotal, nInstPath, nEnded, nDecisions, nChecks, nCheckQueries, nMemChecks;
std::map<std::string, uint64_t> endReasons;
uint64_t maxEnum = 512;

// ---------------------------------------------------------------- path state
struct Opt { E cons; uint64_t payload; ModelP model; E fact = nullptr; }; // fact: what the path condition implies already
struct Ev { std::vector<Opt> opts; size_t cur = 0; };
std::vector<Ev> trace;
size_t tpos;
std::vector<E> pc;
std::unordered_set<E> pcSet;
ModelP curModel;
struct Input { std::string name; E e; };
std::vector<Input> inputs;
std::map<std::string, int> nameCount;
std::vector<uint64_t> oomFails;
int oomBudget;
uint64_t oomOrd;
bool oomOn;
int abortOk;
uint64_t undefCnt;
std::vector<std::pair<const DFunc*, const llvm::Instruction*>> stack;
std::vector<std::string> pathSites;
uint64_t nextSample = 1, nSamples;
uint64_t maxSamples = 6;

void addPC(E c) {
   if(!c || c->op == CONST) return;
   if(c->op == AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
   if(pcSet.insert(c).second) pc.push_back(c);
}

std::string where() {
   std::string s;
   int n = 0;
   for(size_t i = stack.size(); i-- > 0 && n < 6;) {
      std::string d = llvm::demangle(stack[i].first->F->getName().str());
      if(d.size() > 140) d = d.substr(0, 140) + "...";
      s += (n++ ? " <- " : "") + d;
   }
   return s;
}

void addFact(E c) {
   if(!c || c->op == CONST) return;
   if(c->op == AND && c->w == 1) { addFact(c->k[0]); addFact(c->k[1]); return; }
   pcSet.insert(c);
}

uint64_t choose(const std::function<std::vector<Opt>()>& gen) {
   if(tpos < trace.size()) {
      auto& o = trace[tpos].opts[trace[tpos].cur];
      ++tpos;
      addPC(o.cons);
      addFact(o.fact);
      curModel = o.model;
      return o.payload;
   }
   Ev e;
   e.opts = gen();
   if(e.opts.empty()) throw PathEnd{"infeasible"};
   if(e.opts.size() > 1) ++nDecisions;
   trace.push_back(std::move(e));
   ++tpos;
   auto& o = trace.back().opts[0];
   addPC(o.cons);
   addFact(o.fact);
   curModel = o.model;
   return o.payload;
}

bool fpLeaf(E e) {
   while(e->op == FNEG || e->op == FABS) e = e->k[0];
   return e->op == CONST || e->op == UF || e->op == VAR || (e->op == FFROMBV && (e->k[0]->op == VAR || e->k[0]->op == UF));
}
// The part of the path condition without floating-point arithmetic: enough to order leaves.
const std::vector<E>& leafPC() {
   static std::vector<E> l;
   l.clear();
   for(E c : pc) {
      if(!c->hasFPArith) { l.push_back(c); continue; }
      // x / y > 0 needs equal signs
      if(c->op == FOLT && c->k[0]->op == CONST && c->k[0]->c == 0 && c->k[1]->op == FDIV) {
         E a = mkF2(FOLT, c->k[0], c->k[1]->k[0]), b = mkF2(FOLT, c->k[0], c->k[1]->k[1]);
         if(!a->hasFPArith && !b->hasFPArith) l.push_back(mkEq(a, b));
      }
   }
   return l;
}
// +0 + x where the path decides the sign of x, else null. (0 + -0 is +0, so x itself only if x is not zero.)
template <class F>
E addZero(E z, E x, F imp) {
   if(z->op != CONST || z->c != 0 || x->op == CONST) return nullptr;
   if(imp(mkF2(FOEQ, x, z)) == 0) return x;
   if(imp(mkF2(FOLT, x, z)) == 0) return mkF1(FABS, x);
   return nullptr;
}
// The same question without an event: only for use where the answer is not part of the path.
int impliedNow(E c, std::unordered_map<E, int>& memo) {
   if(c->op == CONST) return (int)c->c;
   if(pcSet.count(c)) return 1;
   E n = mkNot(c);
   if(pcSet.count(n)) return 0;
   auto it = memo.find(c);
   if(it != memo.end()) return it->second;
   E f = c;
   if(n->op == FOLT || n->op == FOLE || n->op == FOEQ) f = n;
   if((f->op != FOLT && f->op != FOLE && f->op != FOEQ) || !fpLeaf(f->k[0]) || !fpLeaf(f->k[1])) return -1;
   int ans = -1;
   uint64_t v = 0;
   ModelP m;
   int known = curModel ? curModel->eval(c, v) : 0;
   if(known != 1 || v) { if(solve(leafPC(), {n}, nullptr, m, 500) == UNSAT) ans = 1; }
   if(ans == -1 && (known != 1 || !v)) { if(solve(leafPC(), {c}, nullptr, m, 500) == UNSAT) ans = 0; }
   return memo[c] = ans;
}
// An expression that is equal to e on this path, with sums with zero and absolute values of leaves resolved.
E reduce(E e, std::unordered_map<E, E>& done, std::unordered_map<E, int>& memo) {
   if(e->op == FABS && e->k[0]->op != CONST) {
      E l = e->k[0], z = mkFConst(0, l->w);
      if(impliedNow(mkF2(FOLT, z, l), memo) == 1) return reduce(l, done, memo);
      if(impliedNow(mkF2(FOLT, l, z), memo) == 1) return mkF1(FNEG, reduce(l, done, memo));
      if(fpLeaf(l)) return e;
   }
   if(e->k.empty() || (!e->hasFPArith && !(e->op == ITE && e->fp))) return e;
   auto it = done.find(e);
   if(it != done.end()) return it->second;
   if(e->op == ITE && e->fp)
      if(int d = impliedNow(e->k[0], memo); d >= 0) return done[e] = reduce(e->k[d ? 1 : 2], done, memo);
   std::vector<E> k;
   bool same = true;
   for(E x : e->k) { k.push_back(reduce(x, done, memo)); same &= k.back() == x; }
   E r = e;
   if(e->op == FADD) {
      auto imp = [&](E c) { return impliedNow(c, memo); };
      if(E q = addZero(e->k[0], e->k[1], imp)) r = reduce(q, done, memo);
      else if(E q2 = addZero(e->k[1], e->k[0], imp)) r = reduce(q2, done, memo);
      else if(!same) r = mkF2(FADD, k[0], k[1]);
   } else if(!same) {
      switch(e->op) {
         case FMUL: case FDIV: case FOEQ: case FOLT: case FOLE: case FID: r = mkF2(e->op, k[0], k[1]); break;
         case FNEG: case FABS: case FSQRT: case FRND: case FISNAN: case FISINF: r = mkF1(e->op, k[0], e->aux); break;
         case FFMA: r = mkFma(k[0], k[1], k[2]); break;
         case FCVT: r = mkFcvt(k[0], e->w); break;
         case ITE: r = mkIte(k[0], k[1], k[2]); break;
         case AND: case OR: case XOR: r = mkBin(e->op, k[0], k[1]); break;
         case EQ: r = mkEq(k[0], k[1]); break;
         default: break;
      }
   }
   return done[e] = r;
}

// ms 0: the time limit of a check.
Res feasible(E c, ModelP& m, unsigned ms = 0) {
   if(c->op == CONST) { m = curModel; return c->c ? SAT : UNSAT; }
   if(pcSet.count(c)) { m = curModel; return SAT; }
   if(pcSet.count(mkNot(c))) return UNSAT;
   static std::vector<E> rpc, key;
   static std::unordered_map<E, E> done;
   static std::unordered_map<E, int> memo;
   bool arith = c->hasFPArith;
   for(size_t i = pc.size(); !arith && i-- > 0;) arith = pc[i]->hasFPArith;
   if(arith) { // with everything resolved that the order of leaves decides
      if(!c->hasFPArith && solve(leafPC(), {c}, nullptr, m, ms) == UNSAT) return UNSAT;
      m = nullptr;
      if(key != pc) {
         key = pc;
         done.clear();
         memo.clear();
         rpc.clear();
         for(E x : pc) rpc.push_back(x->hasFPArith ? reduce(x, done, memo) : x);
      }
      if(c->hasFPArith) c = reduce(c, done, memo);
      if(c->op == CONST) { m = curModel; return c->c ? SAT : UNSAT; }
      E n = mkNot(c);
      for(E x : rpc) {
         if(x == c) { m = curModel; return SAT; }
         if(x == n) return UNSAT;
      }
   }
   double t0 = now();
   Res r = solve(arith ? rpc : pc, {c}, curModel, m, ms);
   if(getenv("SYMX_DEBUG") && now() - t0 > 1) {
      fprintf(stderr, "QUERY %.1f %d %s\n", now() - t0, (int)r, str(c, 12).c_str());
      for(E x : pc) fprintf(stderr, "   pc %s\n", str(x, 12).c_str());
   }
   return r;
}

bool branch(E c) {
   if(c->op == CONST) return c->c;
   return choose([&] {
      if(outOfTime()) throw Bound{"time limit within a path"};
      std::vector<Opt> o;
      ModelP mt, mf;
      // A side of unknown feasibility is explored too.
      unsigned ms = c->hasFPArith ? gBranchMs : 0;
      Res rt = feasible(c, mt, ms);
      Res rf = rt == UNSAT ? SAT : feasible(mkNot(c), mf, ms);
      if(rt == UNSAT) mf = curModel;
      if(rt != UNSAT) o.push_back({rf == UNSAT ? nullptr : c, 1, rf == UNSAT ? curModel : rt == SAT ? mt : nullptr, rf == UNSAT ? c : nullptr});
      if(rf != UNSAT) o.push_back({rt == UNSAT ? nullptr : mkNot(c), 0, rt == UNSAT ? curModel : rf == SAT ? mf : nullptr, rt == UNSAT ? mkNot(c) : nullptr});
      return o;
   });
}

// A comparison of floating-point leaves that the path condition decides: 1 or 0; otherwise -1.
// It keeps terms of floating-point arithmetic free of conditionals. Recorded as an event, so that a path
// that is run again gets the same answer.
int implied(E c) {
   if(c->op == CONST) return (int)c->c;
   if(pcSet.count(c)) return 1;
   E n = mkNot(c);
   if(pcSet.count(n)) return 0;
   E f = c;
   if(n->op == FOLT || n->op == FOLE || n->op == FOEQ) f = n;
   if((f->op != FOLT && f->op != FOLE && f->op != FOEQ) || !fpLeaf(f->k[0]) || !fpLeaf(f->k[1])) return -1;
   uint64_t r = choose([&] {
      uint64_t v = 0, ans = 2;
      ModelP m;
      int known = curModel ? curModel->eval(c, v) : 0;
      if(known != 1 || v) { if(solve(leafPC(), {n}, nullptr, m, 500) == UNSAT) ans = 1; }
      if(ans == 2 && (known != 1 || !v)) { if(solve(leafPC(), {c}, nullptr, m, 500) == UNSAT) ans = 0; }
      return std::vector<Opt>{{nullptr, ans, curModel, ans == 1 ? c : ans == 0 ? n : nullptr}};
   });
   return r == 2 ? -1 : (int)r;
}

void writeCex(const std::string& msg, ModelP m) {
   std::string file = cexPrefix + "." + std::to_string(viols.size()) + ".cex";
   FILE* f = fopen(file.c_str(), "w");
   if(!f) return;
   fprintf(f, "# harness %s\n# %s\n# at %s\n", harness.c_str(), msg.c_str(), where().c_str());
   fprintf(f, "harness %s\n", harness.c_str());
   for(auto& in : inputs) {
      uint64_t v = 0;
      m->eval(in.e, v);
      fprintf(f, "in %s %u %016llx\n", in.name.c_str(), in.e->w, (unsigned long long)v);
   }
   for(auto o : oomFails) fprintf(f, "oom %llu\n", (unsigned long long)o);
   fclose(f);
   viols.push_back({msg, file, where()});
}

// A witness of a finished path with the checks it passes, for validation against the native build.
void writeSample() {
   if(nSamples >= maxSamples || nPaths < nextSample || !curModel) return;
   std::vector<uint64_t> vals;
   for(auto& in : inputs) { uint64_t v = 0; if(curModel->eval(in.e, v) != 1) return; vals.push_back(v); }
   uint64_t o;
   for(E c : pc) if(curModel->eval(c, o) != 1 || !o) return;
   nextSample = nPaths * 2 + 1;
   std::string file = cexPrefix + ".s" + std::to_string(nSamples++) + ".in";
   FILE* f = fopen(file.c_str(), "w");
   if(!f) return;
   fprintf(f, "harness %s\n", harness.c_str());
   for(size_t i = 0; i < inputs.size(); ++i) fprintf(f, "in %s %u %016llx\n", inputs[i].name.c_str(), inputs[i].e->w, (unsigned long long)vals[i]);
   for(auto x : oomFails) fprintf(f, "oom %llu\n", (unsigned long long)x);
   for(auto& m : pathSites) fprintf(f, "check %s\n", m.c_str());
   fclose(f);
}

void reportViolation(const std::string& msg, E cond /* holds on the violating inputs, may be null */) {
   if(violMsgs.count(msg) || viols.size() >= 6) return;
   ModelP m;
   // A full query: the path condition as it is, without slicing.
   std::vector<E> all = pc;
   if(cond) all.push_back(cond);
   ModelP base = std::make_shared<Model>();
   Res r = solve({}, all, base, m, gTimeoutMs * 2);
   if(r == SAT && m) {
      violMsgs.insert(msg);
      if(tViol == 0) tViol = now();
      writeCex(msg, m);
   } else if(r == UNKNOWN) problems.push_back("unknown: " + msg + " at " + where());
}

// A definite error on this path.
[[noreturn]] void fail(const std::string& msg) {
   reportViolation(msg, nullptr);
   throw PathEnd{"violation"};
}

// c must hold for every value on the path.
void require(E c, const std::string& msg, bool isCheck) {
   if(c->op == CONST && c->c) return;
   if(tpos < trace.size()) { choose([] { return std::vector<Opt>{}; }); return; }
   ModelP m;
   if(isCheck) ++nCheckQueries;
   else ++nMemChecks;
   double t0 = now();
   Res r = c->op == CONST ? SAT : feasible(mkNot(c), m);
   if(getenv("SYMX_DEBUG") && now() - t0 > 1) fprintf(stderr, "SLOW %.1f %s: %s\n", now() - t0, msg.c_str(), str(c, 12).c_str());
   if(r == UNKNOWN) {
      problems.push_back("solver gave no answer: " + msg + " at " + where());
      if(getenv("SYMX_DEBUG")) fprintf(stderr, "UNKNOWN %s: %s\n", msg.c_str(), str(c, 12).c_str());
      choose([&] { return std::vector<Opt>{{c, 1, nullptr}}; });
      return;
   }
   if(r == UNSAT) { choose([&] { return std::vector<Opt>{{nullptr, 1, curModel, c}}; }); return; }
   reportViolation(msg, c->op == CONST ? nullptr : mkNot(c));
   // go on with the inputs on which it holds
   choose([&] {
      std::vector<Opt> o;
      ModelP m2;
      if(c->op != CONST && feasible(c, m2) != UNSAT) o.push_back({c, 1, m2});
      return o;
   });
}

void assumeE(E c) {
   if(c->op == CONST) {
      if(!c->c) throw PathEnd{"assume"};
      return;
   }
   choose([&] {
      std::vector<Opt> o;
      ModelP m;
      Res r = feasible(c, m);
      if(r != UNSAT) o.push_back({c, 1, r == SAT ? m : nullptr});
      return o;
   });
}

// All values of e on this path, one path for each.
uint64_t enumerate(E e, const char* what) {
   if(e->op == CONST) return e->c;
   return choose([&] {
      std::vector<Opt> o;
      std::vector<E> no;
      for(;;) {
         ModelP m;
         Res r = solve(pc, no, curModel, m);
         if(r == UNSAT) break;
         if(r == UNKNOWN || !m) {
            // no usable model: ask for one of everything
            std::vector<E> all = pc;
            all.insert(all.end(), no.begin(), no.end());
            ModelP base = std::make_shared<Model>();
            r = solve({}, all, base, m);
            if(r == UNSAT) break;
            if(r == UNKNOWN || !m) throw Bound{std::string("cannot enumerate ") + what};
         }
         uint64_t v;
         if(m->eval(e, v) != 1) throw Bound{std::string("cannot evaluate ") + what};
         E eq = mkEq(e, mkConst(v, e->w));
         o.push_back({eq, v, m});
         no.push_back(mkNot(eq));
         if(outOfTime()) throw Bound{std::string("time limit while enumerating ") + what};
         if(o.size() > maxEnum) throw Bound{std::string("more than ") + std::to_string(maxEnum) + " values: " + what + " " + str(e)};
      }
      return o;
   });
}

// ---------------------------------------------------------------- memory access
Obj* findObj(uint64_t addr, uint32_t prov) {
   uint32_t id = prov ? prov : (uint32_t)(addr >> 32);
   if(id == 0 || id >= objs.size()) return nullptr;
   return objs[id];
}
const char* kindName(Kind k) {
   switch(k) { case KGlobal: case KConst: return "global"; case KStack: return "stack"; case KHeap: return "heap"; case KFunc: return "function"; default: return "exception"; }
}

void breakCell(Obj* o, uint32_t start) {
   auto it = o->cells.find(start);
   if(it == o->cells.end()) return;
   Cell c = it->second;
   o->cells.erase(it);
   E b = mkToBV(c.e);
   for(uint32_t i = 0; i < c.n; ++i) {
      E x = mkExtract(b, 8 * i, 8);
      uint32_t p = start + i;
      if(x->op == CONST) { o->st[p] = 1; o->data[p] = (uint8_t)x->c; }
      else { o->st[p] = 2; o->owner[p] = p; o->cells[p] = Cell{x, 1, 0}; }
   }
}
void clearRange(Obj* o, uint32_t off, uint32_t n) {
   if(o->cells.empty()) return;
   for(uint32_t i = off; i < off + n; ++i) {
      if(o->st[i] != 2) continue;
      uint32_t s = o->owner[i];
      auto it = o->cells.find(s);
      if(s < off || s + it->second.n > off + n) { breakCell(o, s); s = o->owner[i]; if(o->st[i] != 2) { continue; } it = o->cells.find(i); }
      uint32_t cn = it->second.n;
      o->cells.erase(it);
      for(uint32_t j = 0; j < cn; ++j) o->st[s + j] = 1;
   }
}
void writeSym(Obj* o, uint32_t off, uint32_t n, E e, uint32_t prov) {
   clearRange(o, off, n);
   if(o->owner.empty()) o->owner.assign(o->size, 0);
   for(uint32_t i = 0; i < n; ++i) { o->st[off + i] = 2; o->owner[off + i] = off; }
   o->cells[off] = Cell{e, n, prov};
}
void writeConc(Obj* o, uint32_t off, uint32_t n, uint64_t v) {
   clearRange(o, off, n);
   for(uint32_t i = 0; i < n; ++i) { o->data[off + i] = (uint8_t)(v >> (8 * i)); o->st[off + i] = 1; }
}

// Resolves an access of n bytes: checks liveness and bounds for every value of the address, splits on the offset.
Obj* access(const Val& p, uint64_t n, bool write, uint64_t& off, const char* what) {
   if(!p.e) {
      Obj* o = findObj(p.c, p.prov);
      if(!o) fail(std::string(p.c < 4096 ? "null pointer access" : "wild pointer access") + " (" + what + ")");
      if(o->kind == KFunc) fail("access to a function");
      if(!o->alive) fail(std::string("use of dead ") + kindName(o->kind) + " memory (" + what + ")");
      off = p.c - o->base;
      if(off > o->size || n > o->size - off) {
         fail(std::string(kindName(o->kind)) + " out of bounds (" + what + ")");
      }
      if(write && o->kind == KConst) fail("write to constant memory");
      return o;
   }
   Obj* o = p.prov ? objs[p.prov] : nullptr;
   if(!o) {
      // provenance unknown: split over the addresses
      Val q;
      q.c = enumerate(p.e, "address");
      return access(q, n, write, off, what);
   }
   if(!o->alive) fail(std::string("use of dead ") + kindName(o->kind) + " memory (" + what + ")");
   if(n > o->size) fail(std::string(kindName(o->kind)) + " out of bounds (" + what + ")");
   E offE = mkBin(SUB, p.e, mkConst(o->base, 64));
   E in = mkNot(mkCmp(ULT, mkConst(o->size - n, 64), offE));
   require(in, std::string(kindName(o->kind)) + " out of bounds (" + what + ")", false);
   off = enumerate(offE, "offset");
   if(write && o->kind == KConst) fail("write to constant memory");
   return o;
}

E byteAt(Obj* o, uint32_t i) {
   if(o->st[i] == 1) return mkConst(o->data[i], 8);
   if(o->st[i] == 2) {
      uint32_t s = o->owner[i];
      return mkExtract(mkToBV(o->cells[s].e), 8 * (i - s), 8);
   }
   E u = mkVar("!undef" + std::to_string(undefCnt++), 8);
   writeSym(o, i, 1, u, 0);
   return u;
}

unsigned bitsOf(llvm::Type* t) {
   if(t->isIntegerTy()) return t->getIntegerBitWidth();
   if(t->isDoubleTy()) return 64;
   if(t->isFloatTy()) return 32;
   if(t->isPointerTy()) return 64;
   return 0;
}
bool isAgg(llvm::Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
std::string tyName(llvm::Type* t) { std::string s; llvm::raw_string_ostream os(s); t->print(os); return os.str(); }

Val loadScalar(Obj* o, uint64_t off, llvm::Type* t) {
   unsigned w = bitsOf(t);
   if(!w || w > 64) throw Unsupported{"load of type " + tyName(t)};
   unsigned n = (w + 7) / 8;
   bool conc = true;
   for(unsigned i = 0; i < n; ++i) if(o->st[off + i] != 1) { conc = false; break; }
   if(conc) {
      uint64_t v = 0;
      for(unsigned i = 0; i < n; ++i) v |= (uint64_t)o->data[off + i] << (8 * i);
      Val r = cv(v & mask(w));
      return r;
   }
   bool fp = t->isFloatingPointTy();
   if(o->st[off] == 2 && o->owner[off] == off) {
      auto& c = o->cells[(uint32_t)off];
      if(c.n == n) {
         E e = c.e;
         if(fp) e = e->fp ? e : mkFromBV(e);
         else {
            if(e->fp) e = mkToBV(e);
            if(e->w > w) e = mkExtract(e, 0, w);
         }
         Val r = ev(e);
         r.prov = c.prov;
         return r;
      }
   }
   E e = byteAt(o, (uint32_t)off);
   for(unsigned i = 1; i < n; ++i) e = mkConcat(byteAt(o, (uint32_t)off + i), e);
   if(w % 8) e = mkExtract(e, 0, w);
   if(fp) e = mkFromBV(e);
   return ev(e);
}
E toE(const Val& v, llvm::Type* t) {
   if(v.e) return v.e;
   unsigned w = bitsOf(t);
   if(!w || w > 64) throw Unsupported{"value of type " + tyName(t)};
   return t->isFloatingPointTy() ? mkFConst(v.c, w) : mkConst(v.c, w);
}
void storeScalar(Obj* o, uint64_t off, llvm::Type* t, const Val& v) {
   unsigned w = bitsOf(t);
   if(!w || w > 64) throw Unsupported{"store of type " + tyName(t)};
   unsigned n = (w + 7) / 8;
   if(!v.e) { writeConc(o, (uint32_t)off, n, v.c); return; }
   E e = v.e;
   if(!e->fp && e->w < n * 8) e = mkZext(e, n * 8);
   if(e->op == CONST) { writeConc(o, (uint32_t)off, n, e->c); return; }
   writeSym(o, (uint32_t)off, n, e, v.prov);
}
llvm::Type* elemTy(llvm::Type* t, unsigned i) {
   if(auto* s = dyn_cast<llvm::StructType>(t)) return s->getElementType(i);
   if(auto* a = dyn_cast<llvm::ArrayType>(t)) return a->getElementType();
   return cast<llvm::VectorType>(t)->getElementType();
}
unsigned elemN(llvm::Type* t) {
   if(auto* s = dyn_cast<llvm::StructType>(t)) return s->getNumElements();
   if(auto* a = dyn_cast<llvm::ArrayType>(t)) return (unsigned)a->getNumElements();
   return cast<llvm::FixedVectorType>(t)->getNumElements();
}
uint64_t elemOff(llvm::Type* t, unsigned i) {
   if(auto* s = dyn_cast<llvm::StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
   return i * DL->getTypeAllocSize(elemTy(t, i));
}
Val loadTy(Obj* o, uint64_t off, llvm::Type* t) {
   if(!isAgg(t)) return loadScalar(o, off, t);
   Val v;
   v.agg = std::make_shared<std::vector<Val>>();
   for(unsigned i = 0; i < elemN(t); ++i) v.agg->push_back(loadTy(o, off + elemOff(t, i), elemTy(t, i)));
   return v;
}
void storeTy(Obj* o, uint64_t off, llvm::Type* t, const Val& v) {
   if(!isAgg(t)) { storeScalar(o, off, t, v); return; }
   for(unsigned i = 0; i < elemN(t); ++i) storeTy(o, off + elemOff(t, i), elemTy(t, i), v.agg ? (*v.agg)[i] : Val{});
}

uint64_t concLen(const Val& v, const char* what) { return v.e ? enumerate(v.e, what) : v.c; }

void memCopy(const Val& d, const Val& s, uint64_t n) {
   if(!n) return;
   uint64_t od, os;
   Obj* S = access(s, n, false, os, "memcpy source");
   Obj* D = access(d, n, true, od, "memcpy destination");
   // snapshot
   std::vector<uint8_t> data(S->data.begin() + os, S->data.begin() + os + n), st(S->st.begin() + os, S->st.begin() + os + n);
   std::vector<std::pair<uint32_t, Cell>> cs;
   for(uint64_t i = 0; i < n;) {
      if(st[i] != 2) { ++i; continue; }
      uint32_t o = S->owner[os + i];
      Cell c = S->cells[o];
      if(o >= os && o + c.n <= os + n) { cs.push_back({(uint32_t)(o - os), c}); i = o - os + c.n; }
      else { E b = byteAt(S, (uint32_t)(os + i)); cs.push_back({(uint32_t)i, Cell{b, 1, 0}}); ++i; }
   }
   clearRange(D, (uint32_t)od, (uint32_t)n);
   for(uint64_t i = 0; i < n; ++i) { D->data[od + i] = data[i]; D->st[od + i] = st[i] == 2 ? 1 : st[i]; }
   for(auto& [o, c] : cs) {
      if(c.e->op == CONST) writeConc(D, (uint32_t)(od + o), c.n, c.e->c);
      else writeSym(D, (uint32_t)(od + o), c.n, c.e, c.prov);
   }
}

// ---------------------------------------------------------------- constants
Val constVal(const llvm::Constant* C);
void storeConst(Obj* o, uint64_t off, const llvm::Constant* C) {
   llvm::Type* t = C->getType();
   if(isa<llvm::UndefValue>(C)) { // also poison
      for(uint64_t i = 0; i < DL->getTypeStoreSize(t); ++i) { o->data[off + i] = 0; o->st[off + i] = 1; }
      return;
   }
   if(C->isNullValue()) {
      for(uint64_t i = 0; i < DL->getTypeAllocSize(t) && off + i < o->size; ++i) { o->data[off + i] = 0; o->st[off + i] = 1; }
      return;
   }
   if(auto* d = dyn_cast<llvm::ConstantDataSequential>(C)) {
      uint64_t es = DL->getTypeAllocSize(d->getElementType());
      for(unsigned i = 0; i < d->getNumElements(); ++i) storeConst(o, off + i * es, d->getElementAsConstant(i));
      return;
   }
   if(isAgg(t)) {
      // padding is initialised
      for(uint64_t i = 0; i < DL->getTypeAllocSize(t); ++i) o->st[off + i] = 1;
      for(unsigned i = 0; i < elemN(t); ++i) storeConst(o, off + elemOff(t, i), C->getAggregateElement(i));
      return;
   }
   unsigned w = bitsOf(t);
   if(!w || w > 64) { // e.g. long double constants: left symbolic-free but unusable
      for(uint64_t i = 0; i < DL->getTypeStoreSize(t); ++i) { o->data[off + i] = 0; o->st[off + i] = 1; }
      if(w > 64 && isa<llvm::ConstantInt>(C)) {
         auto& a = cast<llvm::ConstantInt>(C)->getValue();
         for(uint64_t i = 0; i < DL->getTypeStoreSize(t); ++i) o->data[off + i] = (uint8_t)a.extractBitsAsZExtValue(8, i * 8);
      }
      return;
   }
   storeScalar(o, off, t, constVal(C));
}
Val constVal(const llvm::Constant* C) {
   llvm::Type* t = C->getType();
   if(auto* i = dyn_cast<llvm::ConstantInt>(C)) {
      if(i->getBitWidth() > 64) throw Unsupported{"integer constant wider than 64 bits"};
      return cv(i->getZExtValue());
   }
   if(auto* f = dyn_cast<llvm::ConstantFP>(C)) {
      if(!t->isDoubleTy() && !t->isFloatTy()) throw Unsupported{"constant of type " + tyName(t)};
      return cv(f->getValueAPF().bitcastToAPInt().getZExtValue());
   }
   if(isAgg(t)) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      for(unsigned i = 0; i < elemN(t); ++i) v.agg->push_back(constVal(C->getAggregateElement(i)));
      return v;
   }
   if(isa<llvm::ConstantPointerNull>(C) || isa<llvm::UndefValue>(C)) return cv(0);
   if(auto* g = dyn_cast<llvm::GlobalValue>(C)) {
      auto it = gaddr.find(g);
      if(it == gaddr.end()) throw Unsupported{"no address for " + g->getName().str()};
      return cv(it->second);
   }
   if(auto* ce = dyn_cast<llvm::ConstantExpr>(C)) {
      switch(ce->getOpcode()) {
         case llvm::Instruction::GetElementPtr: {
            llvm::APInt off(64, 0);
            if(!cast<llvm::GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
            Val b = constVal(cast<llvm::Constant>(ce->getOperand(0)));
            b.c += (uint64_t)off.getSExtValue();
            return b;
         }
         case llvm::Instruction::BitCast: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr:
         case llvm::Instruction::AddrSpaceCast: {
            Val b = constVal(ce->getOperand(0));
            b.c &= mask(bitsOf(t));
            return b;
         }
         case llvm::Instruction::Sub: return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
         case llvm::Instruction::Add: return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
         default: break;
      }
   }
   std::string s;
   llvm::raw_string_ostream os(s);
   C->print(os);
   throw Unsupported{"constant " + s};
}

// ---------------------------------------------------------------- decoding
int stubId(const llvm::Function* F);
DFunc* decode(const llvm::Function* F) {
   auto it = dfuncs.find(F);
   if(it != dfuncs.end()) return it->second;
   auto* d = new DFunc;
   d->F = F;
   dfuncs[F] = d;
   std::unordered_map<const llvm::Value*, int> slot;
   std::unordered_map<const llvm::BasicBlock*, int> bid;
   for(auto& a : F->args()) slot[&a] = (int)d->nslots++;
   int nb = 0;
   for(auto& B : *F) {
      bid[&B] = nb++;
      for(auto& I : B) if(!I.getType()->isVoidTy()) slot[&I] = (int)d->nslots++;
   }
   auto opnd = [&](const llvm::Value* v) -> Opnd {
      if(auto* c = dyn_cast<llvm::Constant>(v)) {
         try { return {-1, constVal(c)}; }
         catch(Unsupported&) { return {-2, Val{}}; }
      }
      auto s = slot.find(v);
      if(s == slot.end()) return {-2, Val{}}; // metadata, basic blocks, inline asm
      return {s->second, Val{}};
   };
   d->blocks.resize(nb);
   for(auto& B : *F) {
      auto& db = d->blocks[bid[&B]];
      db.bb = &B;
      for(auto& I : B) {
         if(auto* phi = dyn_cast<llvm::PHINode>(&I)) {
            for(unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
               db.phis[bid[phi->getIncomingBlock(i)]].push_back({slot[phi], opnd(phi->getIncomingValue(i))});
            continue;
         }
         DInst x;
         x.I = &I;
         x.opc = I.getOpcode();
         if(!I.getType()->isVoidTy()) x.dst = slot[&I];
         x.w = bitsOf(I.getType());
         x.fp = I.getType()->isFloatingPointTy();
         if(auto* g = dyn_cast<llvm::GetElementPtrInst>(&I)) {
            llvm::MapVector<llvm::Value*, llvm::APInt> vo;
            llvm::APInt co(64, 0);
            if(!g->hasAllConstantIndices() && !cast<llvm::GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) { x.opc = 9999; }
            else if(g->hasAllConstantIndices()) cast<llvm::GEPOperator>(g)->accumulateConstantOffset(*DL, co);
            x.ops.push_back(opnd(g->getPointerOperand()));
            x.gepOff = co.getSExtValue();
            for(auto& [v, s] : vo) {
               x.gepVar.push_back({(int)x.ops.size(), s.getZExtValue()});
               x.gepW.push_back(bitsOf(v->getType()));
               x.ops.push_back(opnd(v));
            }
         } else if(auto* c = dyn_cast<llvm::CallBase>(&I)) {
            x.callee = c->getCalledFunction();
            for(auto& a : c->args()) x.ops.push_back(opnd(a.get()));
            if(!x.callee) {
               x.ops.push_back(opnd(c->getCalledOperand()));
            } else if(x.callee->isDeclaration()) x.stub = stubId(x.callee);
            else {
               x.stub = stubId(x.callee); // defined functions that are replaced by a model
            }
            if(auto* iv = dyn_cast<llvm::InvokeInst>(&I)) {
               x.b0 = bid[iv->getNormalDest()];
               x.b1 = bid[iv->getUnwindDest()];
            }
         } else if(auto* br = dyn_cast<llvm::BranchInst>(&I)) {
            if(br->isConditional()) {
               x.ops.push_back(opnd(br->getCondition()));
               x.b0 = bid[br->getSuccessor(0)];
               x.b1 = bid[br->getSuccessor(1)];
            } else x.b0 = bid[br->getSuccessor(0)];
         } else if(auto* sw = dyn_cast<llvm::SwitchInst>(&I)) {
            x.ops.push_back(opnd(sw->getCondition()));
            x.w = bitsOf(sw->getCondition()->getType());
            x.b0 = bid[sw->getDefaultDest()];
            for(auto& cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), bid[cs.getCaseSuccessor()]});
         } else {
            for(auto& o : I.operands()) x.ops.push_back(opnd(o.get()));
            if(isa<llvm::CmpInst>(&I)) { x.w = bitsOf(I.getOperand(0)->getType()); x.fp = I.getOperand(0)->getType()->isFloatingPointTy(); }
            if(auto* a = dyn_cast<llvm::AllocaInst>(&I)) x.size = DL->getTypeAllocSize(a->getAllocatedType());
            if(auto* l = dyn_cast<llvm::LoadInst>(&I)) x.size = DL->getTypeStoreSize(l->getType());
            if(auto* s = dyn_cast<llvm::StoreInst>(&I)) x.size = DL->getTypeStoreSize(s->getValueOperand()->getType());
         }
         db.insts.push_back(std::move(x));
      }
   }
   return d;
}

// ---------------------------------------------------------------- exceptions
enum Status { RET, THROW };
struct Exc { uint64_t obj, ti; const llvm::GlobalValue* tig; uint64_t dtor; int handlers; };
Exc curExc;
std::vector<Exc> caught;
std::unordered_map<uint64_t, const llvm::GlobalValue*> tiByAddr;

const llvm::GlobalValue* tiBase(const llvm::GlobalValue* t) {
   auto* g = dyn_cast<llvm::GlobalVariable>(t);
   if(g && g->hasInitializer() && g->getInitializer()->getNumOperands() >= 3)
      return dyn_cast<llvm::GlobalValue>(g->getInitializer()->getOperand(2)->stripPointerCasts());
   return nullptr;
}
std::string stdBase(const std::string& n) {
   static const std::map<std::string, std::string> m = {
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
   auto it = m.find(n);
   return it == m.end() ? "" : it->second;
}
bool tiMatches(std::string thrown, const llvm::GlobalValue* thrownG, const std::string& want) {
   while(true) {
      if(thrown == want) return true;
      const llvm::GlobalValue* b = thrownG ? tiBase(thrownG) : nullptr;
      if(b) { thrownG = b; thrown = b->getName().str(); continue; }
      std::string s = stdBase(thrown);
      if(s.empty()) return false;
      thrown = s;
      thrownG = M->getNamedValue(s);
   }
}
std::string thrownName;

Status throwStd(const char* ti) {
   uint32_t id = newObj(16, KExc, 16, "exception", true);
   curExc = {objs[id]->base, 0, M->getNamedValue(ti), 0, 0};
   thrownName = ti;
   return THROW;
}
[[noreturn]] void aborted(const char* what) {
   if(abortOk) throw PathEnd{"abort"};
   fail(std::string("abort: ") + what);
}

// ---------------------------------------------------------------- execution
Status exec(DFunc* d, std::vector<Val>& args, Val& ret);
Status callStub(DInst& x, int id, std::vector<Val>& a, Val& ret);

std::vector<std::string> stubNames;
std::unordered_map<const llvm::Function*, int> stubIds;

E opE(const DInst& x, unsigned i, const std::vector<Val>& fr) {
   auto& o = x.ops[i];
   const Val& v = o.slot >= 0 ? fr[o.slot] : o.cst;
   return toE(v, x.I->getOperand(i)->getType());
}

void divCheck(E b, unsigned w, bool sgn, E a) {
   E nz = mkNot(mkEq(b, mkConst(0, w)));
   require(nz, "integer division by zero", false);
   if(sgn) {
      E ov = mkBin(AND, mkEq(b, mkConst(mask(w), w)), mkEq(a, mkConst(1ull << (w - 1), w)));
      require(mkNot(ov), "signed division overflow (MIN / -1)", false);
   }
}

Val doIntBin(unsigned opc, const Val& a, const Val& b, unsigned w, const DInst& x) {
   using I = llvm::Instruction;
   if(!w || w > 64) throw Unsupported{"integer operation on " + tyName(x.I->getType())};
   Op op;
   switch(opc) {
      case I::Add: op = ADD; break; case I::Sub: op = SUB; break; case I::Mul: op = MUL; break;
      case I::UDiv: op = UDIV; break; case I::SDiv: op = SDIV; break; case I::URem: op = UREM; break;
      case I::SRem: op = SREM; break; case I::And: op = AND; break; case I::Or: op = OR; break;
      case I::Xor: op = XOR; break; case I::Shl: op = SHL; break; case I::LShr: op = LSHR; break;
      default: op = ASHR; break;
   }
   if(!a.e && !b.e) {
      uint64_t m = mask(w), p = a.c & m, q = b.c & m;
      switch(op) {
         case ADD: return cv((p + q) & m);
         case SUB: return cv((p - q) & m);
         case MUL: return cv((p * q) & m);
         case AND: return cv(p & q);
         case OR: return cv(p | q);
         case XOR: return cv(p ^ q);
         default: break;
      }
   }
   E ea = a.e ? a.e : mkConst(a.c, w), eb = b.e ? b.e : mkConst(b.c, w);
   if(op == UDIV || op == SDIV || op == UREM || op == SREM) divCheck(eb, w, op == SDIV || op == SREM, ea);
   if(op == SHL || op == LSHR || op == ASHR) {
      if(!(eb->op == CONST && eb->c < w)) require(mkCmp(ULT, eb, mkConst(w, w)), "shift count out of range", false);
   }
   return ev(mkBin(op, ea, eb));
}

E fcmp(llvm::CmpInst::Predicate p, E a, E b) {
   using P = llvm::CmpInst;
   E uno = mkBin(OR, mkF1(FISNAN, a), mkF1(FISNAN, b));
   switch(p) {
      case P::FCMP_FALSE: return mkConst(0, 1);
      case P::FCMP_TRUE: return mkConst(1, 1);
      case P::FCMP_OEQ: return mkF2(FOEQ, a, b);
      case P::FCMP_OGT: return mkF2(FOLT, b, a);
      case P::FCMP_OGE: return mkF2(FOLE, b, a);
      case P::FCMP_OLT: return mkF2(FOLT, a, b);
      case P::FCMP_OLE: return mkF2(FOLE, a, b);
      case P::FCMP_ONE: return mkBin(OR, mkF2(FOLT, a, b), mkF2(FOLT, b, a));
      case P::FCMP_ORD: return mkNot(uno);
      case P::FCMP_UNO: return uno;
      case P::FCMP_UEQ: return mkNot(mkBin(OR, mkF2(FOLT, a, b), mkF2(FOLT, b, a)));
      case P::FCMP_UGT: return mkNot(mkF2(FOLE, a, b));
      case P::FCMP_UGE: return mkNot(mkF2(FOLT, a, b));
      case P::FCMP_ULT: return mkNot(mkF2(FOLE, b, a));
      case P::FCMP_ULE: return mkNot(mkF2(FOLT, b, a));
      case P::FCMP_UNE: return mkNot(mkF2(FOEQ, a, b));
      default: throw Unsupported{"fcmp"};
   }
}
E icmp(llvm::CmpInst::Predicate p, E a, E b) {
   using P = llvm::CmpInst;
   switch(p) {
      case P::ICMP_EQ: return mkEq(a, b);
      case P::ICMP_NE: return mkNot(mkEq(a, b));
      case P::ICMP_UGT: return mkCmp(ULT, b, a);
      case P::ICMP_UGE: return mkCmp(ULE, b, a);
      case P::ICMP_ULT: return mkCmp(ULT, a, b);
      case P::ICMP_ULE: return mkCmp(ULE, a, b);
      case P::ICMP_SGT: return mkCmp(SLT, b, a);
      case P::ICMP_SGE: return mkCmp(SLE, b, a);
      case P::ICMP_SLT: return mkCmp(SLT, a, b);
      default: return mkCmp(SLE, a, b);
   }
}

void lifetime(const Val& p, bool start) {
   if(p.e) return;
   Obj* o = findObj(p.c, p.prov);
   if(!o || o->kind != KStack) return;
   if(start) {
      o->alive = true;
      o->cells.clear();
      std::fill(o->st.begin(), o->st.end(), 0);
   } else o->alive = false;
}

struct FrameGuard {
   size_t first;
   std::vector<uint32_t>& ids;
   ~FrameGuard() {
      for(uint32_t i : ids) {
         Obj* o = objs[i];
         o->alive = false;
         o->cells.clear();
         std::vector<uint8_t>().swap(o->data);
         std::vector<uint8_t>().swap(o->st);
         std::vector<uint32_t>().swap(o->owner);
      }
      stack.pop_back();
   }
};

Status exec(DFunc* d, std::vector<Val>& args, Val& ret) {
   if(stack.size() > 4000) fail("recursion does not end");
   d->calls++;
   std::vector<Val> fr(d->nslots);
   size_t na = d->F->arg_size();
   for(size_t i = 0; i < na && i < args.size(); ++i) fr[i] = args[i];
   // byval arguments are copied by the caller's convention
   std::vector<uint32_t> allocas;
   stack.push_back({d, nullptr});
   FrameGuard guard{0, allocas};
   for(size_t i = 0; i < na; ++i) {
      auto* A = d->F->getArg((unsigned)i);
      if(A->hasByValAttr()) {
         uint64_t n = DL->getTypeAllocSize(A->getParamByValType());
         uint32_t id = newObj(n, KStack, 16, "byval");
         allocas.push_back(id);
         memCopy(cv(objs[id]->base), fr[i], n);
         fr[i] = cv(objs[id]->base);
      }
   }
   int b = 0, prev = -1;
   using I = llvm::Instruction;
   std::vector<std::pair<int, Val>> tmp;
   for(;;) {
      DBlock& B = d->blocks[b];
      if(!B.phis.empty()) {
         tmp.clear();
         for(auto& [s, o] : B.phis[prev]) tmp.push_back({s, o.slot >= 0 ? fr[o.slot] : o.cst});
         for(auto& [s, v] : tmp) fr[s] = v;
      }
      int next = -1;
      for(auto& x : B.insts) {
         if(++nInstPath > maxInsts) { if(tpos < trace.size()) throw Bound{"instructions on one path"}; fail("does not end within " + std::to_string(maxInsts) + " steps"); }
         if((nInstPath & 0xffff) == 0 && outOfTime()) throw Bound{"time limit within a path"};
         stack.back().second = x.I;
         auto op = [&](unsigned i) -> const Val& {
            auto& o = x.ops[i];
            if(o.slot >= 0) return fr[o.slot];
            if(o.slot == -2) throw Unsupported{"operand of " + std::string(x.I->getOpcodeName()) + " " + tyName(x.I->getType())};
            return o.cst;
         };
         switch(x.opc) {
            case I::Ret:
               if(!x.ops.empty()) ret = op(0);
               return RET;
            case I::Br:
               if(x.ops.empty()) next = x.b0;
               else {
                  const Val& c = op(0);
                  next = (c.e ? branch(c.e) : (c.c & 1)) ? x.b0 : x.b1;
               }
               break;
            case I::Switch: {
               const Val& c = op(0);
               next = x.b0;
               for(auto& [v, t] : x.cases) {
                  bool hit = c.e ? branch(mkEq(c.e, mkConst(v, x.w))) : c.c == v;
                  if(hit) { next = t; break; }
               }
               break;
            }
            case I::Unreachable: aborted("unreachable");
            case I::Alloca: {
               uint64_t n = x.size;
               const Val& cnt = op(0);
               n *= concLen(cnt, "alloca");
               uint32_t id = newObj(n, KStack, cast<llvm::AllocaInst>(x.I)->getAlign().value(), "");
               allocas.push_back(id);
               fr[x.dst] = cv(objs[id]->base);
               break;
            }
            case I::Load: {
               llvm::Type* t = x.I->getType();
               uint64_t off;
               Obj* o = access(op(0), x.size, false, off, "read");
               fr[x.dst] = loadTy(o, off, t);
               break;
            }
            case I::Store: {
               uint64_t off;
               Obj* o = access(op(1), x.size, true, off, "write");
               storeTy(o, off, x.I->getOperand(0)->getType(), op(0));
               break;
            }
            case I::GetElementPtr: {
               Val p = op(0);
               if(x.I->getType()->isVectorTy()) throw Unsupported{"vector gep"};
               uint32_t prov = p.prov ? p.prov : (p.e ? 0 : (uint32_t)(p.c >> 32));
               if(prov >= objs.size()) prov = 0;
               bool sym = p.e != nullptr;
               for(auto& [i, s] : x.gepVar) sym |= op(i).e != nullptr;
               if(!sym) {
                  uint64_t c = p.c + (uint64_t)x.gepOff;
                  for(size_t j = 0; j < x.gepVar.size(); ++j) c += (uint64_t)sext64(op(x.gepVar[j].first).c, x.gepW[j]) * x.gepVar[j].second;
                  Val r = cv(c);
                  r.prov = prov;
                  fr[x.dst] = r;
               } else {
                  E e = p.e ? p.e : mkConst(p.c, 64);
                  e = mkBin(ADD, e, mkConst((uint64_t)x.gepOff, 64));
                  for(size_t j = 0; j < x.gepVar.size(); ++j) {
                     const Val& v = op(x.gepVar[j].first);
                     E ie = v.e ? v.e : mkConst(v.c, x.gepW[j]);
                     e = mkBin(ADD, e, mkBin(MUL, mkSext(ie, 64), mkConst(x.gepVar[j].second, 64)));
                  }
                  Val r = ev(e);
                  r.prov = prov;
                  fr[x.dst] = r;
               }
               break;
            }
            case I::Add: case I::Sub: case I::Mul: case I::UDiv: case I::SDiv: case I::URem: case I::SRem:
            case I::And: case I::Or: case I::Xor: case I::Shl: case I::LShr: case I::AShr:
               fr[x.dst] = doIntBin(x.opc, op(0), op(1), x.w, x);
               break;
            case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem: {
               if(x.w != 32 && x.w != 64) throw Unsupported{"arithmetic on " + tyName(x.I->getType())};
               E a = opE(x, 0, fr), c = opE(x, 1, fr);
               E r = nullptr;
               // x + 0 and 0 - x where the path condition decides the sign of x
               if(x.opc == I::FAdd) { r = addZero(c, a, implied); if(!r) r = addZero(a, c, implied); }
               else if(x.opc == I::FSub && a->op == CONST && a->c == 0 && c->op != CONST) r = addZero(a, mkF1(FNEG, c), implied);
               if(r) ;
               else if(x.opc == I::FAdd) r = mkF2(FADD, a, c);
               else if(x.opc == I::FSub) r = mkFsub(a, c);
               else if(x.opc == I::FMul) r = mkF2(FMUL, a, c);
               else if(x.opc == I::FDiv) r = mkF2(FDIV, a, c);
               else r = mkUF("fmod", {a, c}, x.w);
               fr[x.dst] = ev(r);
               break;
            }
            case I::FNeg: fr[x.dst] = ev(mkF1(FNEG, opE(x, 0, fr))); break;
            case I::ICmp: {
               const Val &a = op(0), &c = op(1);
               auto pr = cast<llvm::CmpInst>(x.I)->getPredicate();
               if(!x.w || x.w > 64) throw Unsupported{"icmp on " + tyName(x.I->getOperand(0)->getType())};
               E ea = a.e ? a.e : mkConst(a.c, x.w), eb = c.e ? c.e : mkConst(c.c, x.w);
               fr[x.dst] = ev(icmp(pr, ea, eb));
               break;
            }
            case I::FCmp:
               if(x.w != 32 && x.w != 64) throw Unsupported{"fcmp on " + tyName(x.I->getOperand(0)->getType())};
               fr[x.dst] = ev(fcmp(cast<llvm::CmpInst>(x.I)->getPredicate(), opE(x, 0, fr), opE(x, 1, fr)));
               break;
            case I::Trunc: {
               const Val& a = op(0);
               if(bitsOf(x.I->getOperand(0)->getType()) > 64 || !x.w) throw Unsupported{"wide trunc"};
               fr[x.dst] = a.e ? ev(mkExtract(a.e, 0, x.w)) : cv(a.c & mask(x.w));
               break;
            }
            case I::ZExt: {
               const Val& a = op(0);
               if(!x.w || x.w > 64) throw Unsupported{"zext to " + tyName(x.I->getType())};
               fr[x.dst] = a.e ? ev(mkZext(a.e, x.w)) : a;
               break;
            }
            case I::SExt: {
               const Val& a = op(0);
               if(!x.w || x.w > 64) throw Unsupported{"sext to " + tyName(x.I->getType())};
               unsigned iw = bitsOf(x.I->getOperand(0)->getType());
               fr[x.dst] = a.e ? ev(mkSext(a.e, x.w)) : cv((uint64_t)sext64(a.c, iw) & mask(x.w));
               break;
            }
            case I::FPTrunc: case I::FPExt: {
               unsigned iw = bitsOf(x.I->getOperand(0)->getType());
               if((x.w != 32 && x.w != 64) || (iw != 32 && iw != 64)) throw Unsupported{"conversion to " + tyName(x.I->getType())};
               fr[x.dst] = ev(mkFcvt(opE(x, 0, fr), x.w));
               break;
            }
            case I::SIToFP: case I::UIToFP:
               if(x.w != 32 && x.w != 64) throw Unsupported{"conversion to " + tyName(x.I->getType())};
               fr[x.dst] = ev(mkIntToFp(opE(x, 0, fr), x.w, x.opc == I::SIToFP));
               break;
            case I::FPToSI: case I::FPToUI: fr[x.dst] = ev(mkFpToInt(opE(x, 0, fr), x.w, x.opc == I::FPToSI)); break;
            case I::PtrToInt: {
               Val v = op(0);
               if(x.w < 64) v = v.e ? ev(mkExtract(v.e, 0, x.w)) : cv(v.c & mask(x.w));
               v.prov = 0;
               fr[x.dst] = v;
               break;
            }
            case I::IntToPtr: fr[x.dst] = op(0); break;
            case I::BitCast: {
               const Val& a = op(0);
               llvm::Type *f = x.I->getOperand(0)->getType(), *t = x.I->getType();
               if(isAgg(f) || isAgg(t)) {
                  // through memory
                  uint32_t id = newObj(DL->getTypeStoreSize(f), KStack, 16, "cast");
                  allocas.push_back(id);
                  storeTy(objs[id], 0, f, a);
                  fr[x.dst] = loadTy(objs[id], 0, t);
               } else if(f->isFloatingPointTy() && !t->isFloatingPointTy()) fr[x.dst] = a.e ? ev(mkToBV(a.e)) : a;
               else if(!f->isFloatingPointTy() && t->isFloatingPointTy()) fr[x.dst] = a.e ? ev(mkFromBV(a.e)) : a;
               else fr[x.dst] = a;
               break;
            }
            case I::Select: {
               const Val& c = op(0);
               if(!c.e) { fr[x.dst] = (c.c & 1) ? op(1) : op(2); break; }
               const Val &p = op(1), &q = op(2);
               llvm::Type* t = x.I->getType();
               if(isAgg(t) || t->isPointerTy()) { fr[x.dst] = branch(c.e) ? p : q; break; }
               if(t->isFloatingPointTy())
                  if(int d = implied(c.e); d >= 0) { fr[x.dst] = d ? p : q; break; }
               fr[x.dst] = ev(mkIte(c.e, toE(p, t), toE(q, t)));
               break;
            }
            case I::ExtractValue: {
               Val v = op(0);
               for(unsigned i : cast<llvm::ExtractValueInst>(x.I)->indices()) { Val t = (*v.agg)[i]; v = t; }
               fr[x.dst] = v;
               break;
            }
            case I::InsertValue: {
               auto* iv = cast<llvm::InsertValueInst>(x.I);
               std::function<Val(llvm::Type*, const Val&, llvm::ArrayRef<unsigned>, const Val&)> ins = [&](llvm::Type* t, const Val& a, llvm::ArrayRef<unsigned> ix, const Val& n) -> Val {
                  if(ix.empty()) return n;
                  Val r;
                  r.agg = std::make_shared<std::vector<Val>>();
                  if(a.agg) *r.agg = *a.agg;
                  else r.agg->resize(elemN(t));
                  (*r.agg)[ix[0]] = ins(elemTy(t, ix[0]), (*r.agg)[ix[0]], ix.drop_front(), n);
                  return r;
               };
               fr[x.dst] = ins(x.I->getType(), op(0), iv->getIndices(), op(1));
               break;
            }
            case I::ExtractElement: {
               uint64_t i = concLen(op(1), "element");
               Val v = op(0);
               fr[x.dst] = (*v.agg)[i];
               break;
            }
            case I::InsertElement: {
               uint64_t i = concLen(op(2), "element");
               Val r, a = op(0);
               r.agg = std::make_shared<std::vector<Val>>();
               if(a.agg) *r.agg = *a.agg;
               else r.agg->resize(elemN(x.I->getType()));
               (*r.agg)[i] = op(1);
               fr[x.dst] = r;
               break;
            }
            case I::Freeze: fr[x.dst] = op(0); break;
            case I::Fence: break;
            case I::LandingPad: {
               auto* lp = cast<llvm::LandingPadInst>(x.I);
               uint64_t sel = 0;
               bool hit = false;
               for(unsigned i = 0; i < lp->getNumClauses() && !hit; ++i) {
                  if(!lp->isCatch(i)) continue;
                  auto* c = lp->getClause(i)->stripPointerCasts();
                  if(isa<llvm::ConstantPointerNull>(c)) { hit = true; sel = 1; break; }
                  auto* g = cast<llvm::GlobalValue>(c);
                  if(tiMatches(thrownName, curExc.tig, g->getName().str())) { hit = true; sel = (gaddr[g] >> 32) & 0x7fffffff; }
               }
               (void)hit;
               Val v;
               v.agg = std::make_shared<std::vector<Val>>();
               v.agg->push_back(cv(curExc.obj));
               v.agg->push_back(cv(sel));
               fr[x.dst] = v;
               break;
            }
            case I::Resume: return THROW;
            case I::Call: case I::Invoke: {
               std::vector<Val> a;
               const llvm::Function* callee = x.callee;
               unsigned n = cast<llvm::CallBase>(x.I)->arg_size();
               int stub = x.stub;
               if(callee && callee->isIntrinsic()) {
                  // metadata operands are not values
                  a.reserve(n);
                  for(unsigned i = 0; i < n; ++i) a.push_back(x.ops[i].slot >= 0 ? fr[x.ops[i].slot] : x.ops[i].cst);
               } else {
                  a.reserve(n);
                  for(unsigned i = 0; i < n; ++i) a.push_back(op(i));
               }
               if(!callee) {
                  Val f = op(n);
                  uint64_t fa = concLen(f, "function pointer");
                  auto it = faddr.find(fa);
                  if(it == faddr.end()) fail("call through a bad function pointer");
                  callee = it->second;
                  stub = stubId(callee);
               }
               Status st;
               Val r;
               if(stub >= 0) st = callStub(x, stub, a, r);
               else if(callee->isDeclaration()) throw Unsupported{"call of " + llvm::demangle(callee->getName().str())};
               else st = exec(decode(callee), a, r);
               if(st == THROW) {
                  if(x.opc == I::Invoke) { next = x.b1; break; }
                  if(cast<llvm::CallBase>(x.I)->doesNotThrow()) aborted("exception leaves a noexcept call");
                  return THROW;
               }
               if(x.dst >= 0) fr[x.dst] = r;
               if(x.opc == I::Invoke) next = x.b0;
               break;
            }
            default: throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
         }
         if(next >= 0) break;
      }
      prev = b;
      b = next;
   }
}

// ---------------------------------------------------------------- models of external functions
enum Stub {
   S_SYM_I64, S_SYM_I32, S_SYM_I16, S_SYM_I8, S_SYM_F64, S_SYM_F32, S_ASSUME, S_CHECK, S_CONC, S_SAME, S_OOM, S_LIVE, S_ABORTOK, S_REACH,
   S_NEW, S_NEWARR, S_NEWAL, S_NEWARRAL, S_DEL, S_DELARR, S_DELAL, S_DELARRAL, S_MALLOC, S_FREE, S_REALLOC,
   S_CXA_ALLOC, S_CXA_FREE, S_CXA_THROW, S_CXA_BEGIN, S_CXA_END, S_CXA_RETHROW, S_TERMINATE, S_ASSERTFAIL, S_ABORT,
   S_BADALLOC, S_BADARR, S_LENERR, S_LOGICERR, S_OORANGE, S_INVARG, S_NOP, S_ZERO, S_GUARD, S_STRLEN, S_MEMCMP, S_MEMCHR, S_MEMCPY, S_MEMSET,
   S_MATH1, S_MATH2, S_RAND, S_WHAT,
   S_I_MEMCPY, S_I_MEMSET, S_I_LIFE0, S_I_LIFE1, S_I_EXPECT, S_I_OV, S_I_MINMAX, S_I_ABS, S_I_FP1, S_I_FP2, S_I_FMA, S_I_FPCLASS, S_I_TYPEID, S_I_OBJSIZE, S_I_BIT, S_I_FSH
};
struct StubInfo { int id; std::string name; };
std::vector<StubInfo> stubInfos;

int stubId(const llvm::Function* F) {
   auto it = stubIds.find(F);
   if(it != stubIds.end()) return it->second;
   static const std::map<std::string, int> tab = {
      {"sym_i64", S_SYM_I64}, {"sym_i32", S_SYM_I32}, {"sym_i16", S_SYM_I16}, {"sym_i8", S_SYM_I8}, {"sym_f64", S_SYM_F64}, {"sym_f32", S_SYM_F32},
      {"sym_assume", S_ASSUME}, {"sym_check", S_CHECK}, {"sym_conc", S_CONC}, {"sym_same_f64", S_SAME}, {"sym_same_f32", S_SAME}, {"sym_oom", S_OOM},
      {"sym_live", S_LIVE}, {"sym_abort_ok", S_ABORTOK}, {"sym_reach", S_REACH},
      {"_Znwm", S_NEW}, {"_Znam", S_NEWARR}, {"_ZnwmSt11align_val_t", S_NEWAL}, {"_ZnamSt11align_val_t", S_NEWARRAL},
      {"_ZdlPv", S_DEL}, {"_ZdlPvm", S_DEL}, {"_ZdaPv", S_DELARR}, {"_ZdaPvm", S_DELARR},
      {"_ZdlPvSt11align_val_t", S_DELAL}, {"_ZdlPvmSt11align_val_t", S_DELAL}, {"_ZdaPvSt11align_val_t", S_DELARRAL}, {"_ZdaPvmSt11align_val_t", S_DELARRAL},
      {"malloc", S_MALLOC}, {"free", S_FREE},
      {"__cxa_allocate_exception", S_CXA_ALLOC}, {"__cxa_free_exception", S_CXA_FREE}, {"__cxa_throw", S_CXA_THROW}, {"__cxa_begin_catch", S_CXA_BEGIN},
      {"__cxa_end_catch", S_CXA_END}, {"__cxa_rethrow", S_CXA_RETHROW}, {"_ZSt9terminatev", S_TERMINATE}, {"__clang_call_terminate", S_TERMINATE},
      {"__assert_fail", S_ASSERTFAIL}, {"abort", S_ABORT}, {"_ZSt17__throw_bad_allocv", S_BADALLOC}, {"_ZSt28__throw_bad_array_new_lengthv", S_BADARR},
      {"__cxa_throw_bad_array_new_length", S_BADARR}, {"_ZSt20__throw_length_errorPKc", S_LENERR}, {"_ZSt19__throw_logic_errorPKc", S_LOGICERR},
      {"_ZSt24__throw_out_of_range_fmtPKcz", S_OORANGE}, {"_ZSt20__throw_out_of_rangePKc", S_OORANGE}, {"_ZSt24__throw_invalid_argumentPKc", S_INVARG},
      {"__cxa_atexit", S_ZERO}, {"_ZNSt8ios_base4InitC1Ev", S_NOP}, {"_ZNSt8ios_base4InitD1Ev", S_NOP}, {"_ZNSt9exceptionD2Ev", S_NOP}, {"_ZNSt9exceptionD1Ev", S_NOP},
      {"_ZNKSt9exception4whatEv", S_WHAT},
      {"__cxa_guard_acquire", S_GUARD}, {"__cxa_guard_release", S_NOP}, {"__cxa_guard_abort", S_NOP},
      {"strlen", S_STRLEN}, {"memcmp", S_MEMCMP}, {"bcmp", S_MEMCMP}, {"memchr", S_MEMCHR}, {"memcpy", S_MEMCPY}, {"memmove", S_MEMCPY}, {"memset", S_MEMSET},
      {"rand", S_RAND}, {"srand", S_NOP}, {"time", S_ZERO}};
   static const std::set<std::string> m1 = {"sqrt", "sqrtf", "exp", "expf", "exp2", "exp2f", "expm1", "expm1f", "log", "logf", "log2", "log2f", "log10", "log10f", "log1p", "log1pf",
      "sin", "sinf", "cos", "cosf", "tan", "tanf", "asin", "asinf", "acos", "acosf", "atan", "atanf", "sinh", "sinhf", "cosh", "coshf", "tanh", "tanhf",
      "asinh", "asinhf", "acosh", "acoshf", "atanh", "atanhf", "cbrt", "cbrtf", "erf", "erff", "erfc", "erfcf", "tgamma", "tgammaf", "lgamma", "lgammaf",
      "floor", "floorf", "ceil", "ceilf", "trunc", "truncf", "round", "roundf", "rint", "rintf", "nearbyint", "nearbyintf", "fabs", "fabsf"};
   static const std::set<std::string> m2 = {"pow", "powf", "fmod", "fmodf", "atan2", "atan2f", "hypot", "hypotf", "remainder", "fdim", "nextafter", "fmin", "fmax", "fminf", "fmaxf", "copysign", "copysignf"};
   std::string n = F->getName().str();
   int id = -1;
   if(F->isIntrinsic()) {
      auto sw = [&](const char* p) { return n.rfind(p, 0) == 0; };
      if(sw("llvm.memcpy.") || sw("llvm.memmove.")) id = S_I_MEMCPY;
      else if(sw("llvm.memset.")) id = S_I_MEMSET;
      else if(sw("llvm.lifetime.start")) id = S_I_LIFE1;
      else if(sw("llvm.lifetime.end")) id = S_I_LIFE0;
      else if(sw("llvm.expect") || sw("llvm.ptr.annotation") || sw("llvm.launder") || sw("llvm.strip") || sw("llvm.threadlocal.address")) id = S_I_EXPECT;
      else if(sw("llvm.assume") || sw("llvm.dbg") || sw("llvm.experimental.noalias") || sw("llvm.stackrestore") || sw("llvm.donothing") || sw("llvm.invariant")) id = S_NOP;
      else if(n.find(".with.overflow.") != std::string::npos) id = S_I_OV;
      else if(sw("llvm.smax.") || sw("llvm.smin.") || sw("llvm.umax.") || sw("llvm.umin.")) id = S_I_MINMAX;
      else if(sw("llvm.abs.")) id = S_I_ABS;
      else if(sw("llvm.fabs.") || sw("llvm.sqrt.") || sw("llvm.floor.") || sw("llvm.ceil.") || sw("llvm.trunc.") || sw("llvm.round.") || sw("llvm.rint.") || sw("llvm.nearbyint.")
              || sw("llvm.roundeven.") || sw("llvm.exp") || sw("llvm.log") || sw("llvm.sin.") || sw("llvm.cos.")) id = S_I_FP1;
      else if(sw("llvm.copysign.") || sw("llvm.minnum.") || sw("llvm.maxnum.") || sw("llvm.pow.")) id = S_I_FP2;
      else if(sw("llvm.fma.") || sw("llvm.fmuladd.")) id = S_I_FMA;
      else if(sw("llvm.is.fpclass.")) id = S_I_FPCLASS;
      else if(sw("llvm.eh.typeid.for")) id = S_I_TYPEID;
      else if(sw("llvm.objectsize") || sw("llvm.is.constant")) id = S_I_OBJSIZE;
      else if(sw("llvm.stacksave")) id = S_ZERO;
      else if(sw("llvm.ctpop") || sw("llvm.ctlz") || sw("llvm.cttz")) id = S_I_BIT;
      else if(sw("llvm.trap") || sw("llvm.debugtrap") || sw("llvm.ubsantrap")) id = S_ABORT;
   } else {
      auto t = tab.find(n);
      if(t != tab.end()) id = t->second;
      else if(F->isDeclaration() && m1.count(n)) id = S_MATH1;
      else if(F->isDeclaration() && m2.count(n)) id = S_MATH2;
   }
   int r = -1;
   if(id >= 0) {
      r = (int)stubInfos.size();
      stubInfos.push_back({id, n});
   }
   stubIds[F] = r;
   return r;
}

std::string cstr(const Val& p) {
   std::string s;
   for(uint64_t i = 0; i < 4096; ++i) {
      Val q = p;
      q.c += i;
      uint64_t off;
      Obj* o = access(q, 1, false, off, "string");
      if(o->st[off] != 1) throw Unsupported{"symbolic string"};
      if(!o->data[off]) break;
      s += (char)o->data[off];
   }
   return s;
}

Status doAlloc(const Val& n, AKind k, uint64_t align, Val& ret) {
   constexpr uint64_t LIMIT = 8192;
   E ne = n.e;
   bool big = ne ? branch(mkCmp(ULT, mkConst(LIMIT, 64), ne)) : n.c > LIMIT;
   if(big) return throwStd("_ZTISt9bad_alloc");
   uint64_t size = concLen(n, "allocation size");
   if(oomOn) {
      uint64_t ord = oomOrd++;
      if(oomBudget > 0) {
         uint64_t f = choose([&] { return std::vector<Opt>{{nullptr, 0, curModel}, {nullptr, 1, curModel}}; });
         if(f) {
            --oomBudget;
            oomFails.push_back(ord);
            return throwStd("_ZTISt9bad_alloc");
         }
      }
   }
   uint32_t id = newObj(size, KHeap, align, "");
   objs[id]->ak = k;
   ret = cv(objs[id]->base);
   return RET;
}
void doFree(const Val& p, AKind k) {
   uint64_t a = p.e ? enumerate(p.e, "freed pointer") : p.c;
   if(!a) return;
   Obj* o = findObj(a, p.prov);
   if(!o || o->kind != KHeap || a != o->base) fail("free of a pointer that was not allocated");
   if(!o->alive) fail("double free");
   if(o->ak != k) fail("mismatched allocation and deallocation functions");
   o->alive = false;
}
Val symInput(const Val& nm, unsigned w, bool fp) {
   std::string n = cstr(nm);
   int k = nameCount[n]++;
   std::string full = n + "#" + std::to_string(k);
   E e = mkVar(full + "." + std::to_string(w), w);
   inputs.push_back({full, e});
   return ev(fp ? mkFromBV(e) : e);
}
std::string fbase(std::string n, unsigned w) { // float variants share no function with double ones
   if(w == 32 && n.size() > 1 && n.back() == 'f') n.pop_back();
   return n + (w == 32 ? "$f32" : "$f64");
}
Val mathCall(std::string n, const std::vector<E>& a, unsigned w) {
   std::string b = n;
   if(w == 32 && n.size() > 1 && n.back() == 'f') b.pop_back();
   if(b == "sqrt") return ev(mkF1(FSQRT, a[0]));
   if(b == "fabs") {
      if(a[0]->op != CONST) {
         E z = mkFConst(0, a[0]->w);
         if(implied(mkF2(FOLT, z, a[0])) == 1) return ev(a[0]);
         if(implied(mkF2(FOLT, a[0], z)) == 1) return ev(mkF1(FNEG, a[0]));
      }
      return ev(mkF1(FABS, a[0]));
   }
   if(b == "floor") return ev(mkF1(FRND, a[0], 2));
   if(b == "ceil") return ev(mkF1(FRND, a[0], 3));
   if(b == "trunc") return ev(mkF1(FRND, a[0], 4));
   if(b == "round") return ev(mkF1(FRND, a[0], 1));
   if(b == "rint" || b == "nearbyint" || b == "roundeven") return ev(mkF1(FRND, a[0], 0));
   if(b == "copysign") {
      E m = mkConst(1ull << (w - 1), w);
      E x = mkBin(AND, mkToBV(a[0]), mkConst(mask(w) >> 1, w));
      return ev(mkFromBV(mkBin(OR, x, mkBin(AND, mkToBV(a[1]), m))));
   }
   if(b == "fmin" || b == "minnum") return ev(mkIte(mkF1(FISNAN, a[0]), a[1], mkIte(mkF1(FISNAN, a[1]), a[0], mkIte(mkF2(FOLT, a[1], a[0]), a[1], a[0]))));
   if(b == "fmax" || b == "maxnum") return ev(mkIte(mkF1(FISNAN, a[0]), a[1], mkIte(mkF1(FISNAN, a[1]), a[0], mkIte(mkF2(FOLT, a[0], a[1]), a[1], a[0]))));
   bool conc = !freeUF;
   for(E e : a) conc &= e->op == CONST;
   if(conc) {
      if(void* f = dlsym(RTLD_DEFAULT, (w == 32 ? b + "f" : b).c_str())) {
         auto D = [](uint64_t x) { double d; memcpy(&d, &x, 8); return d; };
         auto F = [](uint64_t x) { uint32_t y = (uint32_t)x; float d; memcpy(&d, &y, 4); return d; };
         uint64_t r = 0;
         if(w == 64) {
            double d = a.size() == 1 ? ((double (*)(double))f)(D(a[0]->c)) : ((double (*)(double, double))f)(D(a[0]->c), D(a[1]->c));
            memcpy(&r, &d, 8);
         } else {
            float d = a.size() == 1 ? ((float (*)(float))f)(F(a[0]->c)) : ((float (*)(float, float))f)(F(a[0]->c), F(a[1]->c));
            memcpy(&r, &d, 4);
         }
         return cv(r);
      }
   }
   return ev(mkUF(b + (w == 32 ? "$f32" : "$f64"), a, w));
}

Status callStub(DInst& x, int sid, std::vector<Val>& a, Val& ret) {
   auto& si = stubInfos[sid];
   const std::string& n = si.name;
   auto* CB = cast<llvm::CallBase>(x.I);
   auto ae = [&](unsigned i) { return toE(a[i], CB->getArgOperand(i)->getType()); };
   switch(si.id) {
      case S_SYM_I64: ret = symInput(a[0], 64, false); return RET;
      case S_SYM_I32: ret = symInput(a[0], 32, false); return RET;
      case S_SYM_I16: ret = symInput(a[0], 16, false); return RET;
      case S_SYM_I8: ret = symInput(a[0], 8, false); return RET;
      case S_SYM_F64: ret = symInput(a[0], 64, true); return RET;
      case S_SYM_F32: ret = symInput(a[0], 32, true); return RET;
      case S_ASSUME: assumeE(ae(0)); return RET;
      case S_CHECK: {
         std::string m = cstr(a[1]);
         auto& s = sites[m];
         bool fresh = tpos >= trace.size();
         s.reached++;
         E c = ae(0);
         if(c->op == CONST) { if(fresh) s.concrete++; } else if(fresh) s.queries++;
         ++nChecks;
         pathSites.push_back(m);
         require(c, "check: " + m, true);
         return RET;
      }
      case S_REACH: reachSites[cstr(a[0])]++; return RET;
      case S_CONC: ret = cv(a[0].e ? enumerate(a[0].e, "sym_conc") : a[0].c); return RET;
      case S_SAME: ret = ev(mkF2(FID, ae(0), ae(1))); return RET;
      case S_OOM: oomBudget = (int)concLen(a[0], "oom"); oomOn = true; return RET;
      case S_LIVE: {
         uint64_t k = 0;
         for(size_t i = nGlobals; i < objs.size(); ++i) k += objs[i]->kind == KHeap && objs[i]->alive;
         ret = cv(k);
         return RET;
      }
      case S_ABORTOK: abortOk = (int)a[0].c; return RET;
      case S_NEW: return doAlloc(a[0], ANew, 16, ret);
      case S_NEWARR: return doAlloc(a[0], ANewArr, 16, ret);
      case S_NEWAL: return doAlloc(a[0], ANewAl, a[1].c, ret);
      case S_NEWARRAL: return doAlloc(a[0], ANewArrAl, a[1].c, ret);
      case S_MALLOC: return doAlloc(a[0], AMalloc, 16, ret);
      case S_DEL: doFree(a[0], ANew); return RET;
      case S_DELARR: doFree(a[0], ANewArr); return RET;
      case S_DELAL: doFree(a[0], ANewAl); return RET;
      case S_DELARRAL: doFree(a[0], ANewArrAl); return RET;
      case S_FREE: doFree(a[0], AMalloc); return RET;
      case S_CXA_ALLOC: {
         uint32_t id = newObj(concLen(a[0], "exception"), KExc, 16, "exception");
         ret = cv(objs[id]->base);
         return RET;
      }
      case S_CXA_FREE: return RET;
      case S_CXA_THROW: {
         curExc = {a[0].c, a[1].c, nullptr, a[2].c, 0};
         auto it = tiByAddr.find(a[1].c);
         if(it == tiByAddr.end()) throw Unsupported{"thrown type"};
         curExc.tig = it->second;
         thrownName = it->second->getName().str();
         return THROW;
      }
      case S_CXA_BEGIN: caught.push_back(curExc); ret = cv(a[0].c); return RET;
      case S_CXA_END: {
         if(caught.empty()) return RET;
         Exc e = caught.back();
         caught.pop_back();
         bool again = false; // rethrown and still in flight
         if(e.handlers < 0) again = true;
         if(!again && e.dtor) {
            auto it = faddr.find(e.dtor);
            std::vector<Val> da{cv(e.obj)};
            Val r;
            if(it != faddr.end() && stubId(it->second) < 0) exec(decode(it->second), da, r);
         }
         if(!again) { if(Obj* o = findObj(e.obj, 0)) o->alive = false; }
         return RET;
      }
      case S_CXA_RETHROW: {
         if(caught.empty()) aborted("rethrow without an exception");
         curExc = caught.back();
         caught.back().handlers = -1;
         thrownName = curExc.tig ? curExc.tig->getName().str() : thrownName;
         return THROW;
      }
      case S_TERMINATE: aborted("std::terminate");
      case S_ASSERTFAIL: aborted(("assertion failed: " + cstr(a[0])).c_str());
      case S_ABORT: aborted("abort");
      case S_BADALLOC: return throwStd("_ZTISt9bad_alloc");
      case S_BADARR: return throwStd("_ZTISt20bad_array_new_length");
      case S_LENERR: return throwStd("_ZTISt12length_error");
      case S_LOGICERR: return throwStd("_ZTISt11logic_error");
      case S_OORANGE: return throwStd("_ZTISt12out_of_range");
      case S_INVARG: return throwStd("_ZTISt16invalid_argument");
      case S_NOP: return RET;
      case S_ZERO: ret = cv(0); return RET;
      case S_WHAT: ret = cv(0); return RET;
      case S_GUARD: {
         uint64_t off;
         Obj* o = access(a[0], 1, true, off, "guard");
         ret = cv(o->data[off] ? 0 : 1);
         o->data[off] = 1;
         return RET;
      }
      case S_STRLEN: ret = cv(cstr(a[0]).size()); return RET;
      case S_MEMCMP: {
         uint64_t len = concLen(a[2], "memcmp length");
         E r = mkConst(0, 32);
         if(len) {
            uint64_t o1, o2;
            Obj* A = access(a[0], len, false, o1, "memcmp");
            Obj* B = access(a[1], len, false, o2, "memcmp");
            for(uint64_t i = len; i-- > 0;) {
               E p = byteAt(A, (uint32_t)(o1 + i)), q = byteAt(B, (uint32_t)(o2 + i));
               r = mkIte(mkEq(p, q), r, mkIte(mkCmp(ULT, p, q), mkConst(0xffffffff, 32), mkConst(1, 32)));
            }
         }
         ret = ev(r);
         return RET;
      }
      case S_MEMCPY: memCopy(a[0], a[1], concLen(a[2], "memcpy length")); ret = a[0]; return RET;
      case S_I_MEMCPY: memCopy(a[0], a[1], concLen(a[2], "memcpy length")); return RET;
      case S_MEMSET: case S_I_MEMSET: {
         uint64_t len = concLen(a[2], "memset length");
         if(len) {
            uint64_t off;
            Obj* o = access(a[0], len, true, off, "memset");
            clearRange(o, (uint32_t)off, (uint32_t)len);
            if(a[1].e) { E b = mkExtract(a[1].e, 0, 8); for(uint64_t i = 0; i < len; ++i) writeSym(o, (uint32_t)(off + i), 1, b, 0); }
            else for(uint64_t i = 0; i < len; ++i) { o->data[off + i] = (uint8_t)a[1].c; o->st[off + i] = 1; }
         }
         ret = a[0];
         return RET;
      }
      case S_MATH1: { E p = ae(0); ret = mathCall(n, {p}, p->w); return RET; }
      case S_MATH2: { E p = ae(0); ret = mathCall(n, {p, ae(1)}, p->w); return RET; }
      case S_RAND: {
         int k = nameCount["rand"]++;
         std::string full = "rand#" + std::to_string(k);
         E e = mkVar(full, 32);
         inputs.push_back({full, e});
         assumeE(mkNot(mkCmp(SLT, e, mkConst(0, 32))));
         ret = ev(e);
         return RET;
      }
      case S_I_LIFE0: lifetime(a[1], false); return RET;
      case S_I_LIFE1: lifetime(a[1], true); return RET;
      case S_I_EXPECT: ret = a[0]; return RET;
      case S_I_OV: {
         E p = ae(0), q = ae(1);
         unsigned w = p->w;
         E r, ov;
         bool s = n.find(".s") != std::string::npos && n.rfind("llvm.s", 0) == 0;
         if(n.find("add") != std::string::npos) {
            r = mkBin(ADD, p, q);
            if(s) ov = mkBin(AND, mkEq(mkExtract(p, w - 1, 1), mkExtract(q, w - 1, 1)), mkNot(mkEq(mkExtract(p, w - 1, 1), mkExtract(r, w - 1, 1))));
            else ov = mkCmp(ULT, r, p);
         } else if(n.find("sub") != std::string::npos) {
            r = mkBin(SUB, p, q);
            if(s) ov = mkBin(AND, mkNot(mkEq(mkExtract(p, w - 1, 1), mkExtract(q, w - 1, 1))), mkNot(mkEq(mkExtract(p, w - 1, 1), mkExtract(r, w - 1, 1))));
            else ov = mkCmp(ULT, p, q);
         } else {
            r = mkBin(MUL, p, q);
            if(q->op != CONST) std::swap(p, q);
            if(q->op == CONST && q->c != 0) {
               if(s) {
                  // p in [MIN/q, MAX/q]
                  int64_t c = sext64(q->c, w), mx = (int64_t)(mask(w) >> 1), mn = -mx - 1;
                  if(c == -1) ov = mkEq(p, mkConst((uint64_t)mn, w));
                  else {
                     int64_t lo = c > 0 ? mn / c : mx / c, hi = c > 0 ? mx / c : mn / c;
                     ov = mkBin(OR, mkCmp(SLT, p, mkConst((uint64_t)lo, w)), mkCmp(SLT, mkConst((uint64_t)hi, w), p));
                  }
               } else ov = mkCmp(ULT, mkConst(mask(w) / q->c, w), p);
            } else if(q->op == CONST) ov = mkConst(0, 1);
            else if(!s) // q != 0 and p > MAX / q
               ov = mkBin(AND, mkNot(mkEq(q, mkConst(0, w))), mkCmp(ULT, mkBin(UDIV, mkConst(mask(w), w), q), p));
            else {
               // r / q != p, or MIN * -1
               E nz = mkNot(mkEq(q, mkConst(0, w)));
               E m1 = mkBin(AND, mkEq(q, mkConst(mask(w), w)), mkEq(p, mkConst(1ull << (w - 1), w)));
               ov = mkBin(AND, nz, mkBin(OR, m1, mkNot(mkEq(mkBin(SDIV, r, q), p))));
            }
         }
         ret.agg = std::make_shared<std::vector<Val>>();
         ret.agg->push_back(ev(r));
         ret.agg->push_back(ev(ov));
         return RET;
      }
      case S_I_MINMAX: {
         E p = ae(0), q = ae(1);
         Op c = n[5] == 's' ? SLT : ULT;
         bool mx = n.find("max") != std::string::npos;
         ret = ev(mkIte(mkCmp(c, p, q), mx ? q : p, mx ? p : q));
         return RET;
      }
      case S_I_ABS: {
         E p = ae(0);
         ret = ev(mkIte(mkCmp(SLT, p, mkConst(0, p->w)), mkBin(SUB, mkConst(0, p->w), p), p));
         return RET;
      }
      case S_I_FP1: {
         E p = ae(0);
         std::string b = n.substr(5, n.find('.', 5) - 5);
         ret = mathCall(p->w == 32 ? b + "f" : b, {p}, p->w);
         return RET;
      }
      case S_I_FP2: {
         E p = ae(0);
         std::string b = n.substr(5, n.find('.', 5) - 5);
         ret = mathCall(p->w == 32 ? b + "f" : b, {p, ae(1)}, p->w);
         return RET;
      }
      case S_I_FMA: {
         E p = ae(0), q = ae(1), r = ae(2);
         ret = ev(n.rfind("llvm.fmuladd", 0) == 0 ? mkF2(FADD, mkF2(FMUL, p, q), r) : mkFma(p, q, r));
         return RET;
      }
      case S_I_FPCLASS: {
         E p = ae(0);
         uint64_t m = a[1].c;
         unsigned w = p->w;
         E r = mkConst(0, 1);
         uint64_t infb = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, sg = 1ull << (w - 1);
         uint64_t mnorm = w == 64 ? 0x0010000000000000ull : 0x00800000ull;
         E inf = mkFConst(infb, w), ninf = mkFConst(infb | sg, w), zero = mkFConst(0, w), nm = mkFConst(mnorm, w), nnm = mkFConst(mnorm | sg, w);
         E nan = mkF1(FISNAN, p);
         if((m & 3) == 3) r = mkBin(OR, r, nan);
         else if(m & 3) throw Unsupported{"is.fpclass of one kind of NaN"};
         if(m & 4) r = mkBin(OR, r, mkF2(FOEQ, p, ninf));
         if(m & 8) r = mkBin(OR, r, mkBin(AND, mkF2(FOLT, ninf, p), mkF2(FOLE, p, nnm)));
         if(m & 16) r = mkBin(OR, r, mkBin(AND, mkF2(FOLT, nnm, p), mkF2(FOLT, p, zero)));
         bool nz = m & 32, pz = m & 64;
         if(nz && pz) r = mkBin(OR, r, mkF2(FOEQ, p, zero));
         else if(nz) r = mkBin(OR, r, mkF2(FID, p, mkFConst(sg, w)));
         else if(pz) r = mkBin(OR, r, mkF2(FID, p, zero));
         if(m & 128) r = mkBin(OR, r, mkBin(AND, mkF2(FOLT, zero, p), mkF2(FOLT, p, nm)));
         if(m & 256) r = mkBin(OR, r, mkBin(AND, mkF2(FOLE, nm, p), mkF2(FOLT, p, inf)));
         if(m & 512) r = mkBin(OR, r, mkF2(FOEQ, p, inf));
         // finite / infinite in one piece
         if(m == 0x1f8) r = mkNot(mkBin(OR, nan, mkF1(FISINF, p)));
         if(m == 0x204) r = mkF1(FISINF, p);
         if(m == 0x3) r = nan;
         ret = ev(r);
         return RET;
      }
      case S_I_TYPEID: ret = cv((a[0].c >> 32) & 0x7fffffff); return RET;
      case S_I_OBJSIZE: ret = cv(n.rfind("llvm.is.constant", 0) == 0 ? 0 : ~0ull & mask(x.w)); return RET;
      case S_I_BIT: {
         if(a[0].e) {
            E p = ae(0);
            unsigned w = p->w;
            E r = mkConst(n.find("ctpop") != std::string::npos ? 0 : w, w);
            if(n.find("ctpop") != std::string::npos) for(unsigned i = 0; i < w; ++i) r = mkBin(ADD, r, mkZext(mkExtract(p, i, 1), w));
            else if(n.find("ctlz") != std::string::npos) for(unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(p, i, 1), mkConst(w - 1 - i, w), r);
            else for(unsigned i = w; i-- > 0;) r = mkIte(mkExtract(p, i, 1), mkConst(i, w), r);
            ret = ev(r);
            return RET;
         }
         uint64_t v = a[0].c & mask(x.w), r;
         if(n.find("ctpop") != std::string::npos) r = (uint64_t)__builtin_popcountll(v);
         else if(n.find("ctlz") != std::string::npos) r = v ? (uint64_t)__builtin_clzll(v) - (64 - x.w) : x.w;
         else r = v ? (uint64_t)__builtin_ctzll(v) : x.w;
         ret = cv(r);
         return RET;
      }
      default: throw Unsupported{"call of " + llvm::demangle(n)};
   }
}

// ---------------------------------------------------------------- globals and paths
void setupGlobals() {
   objs.push_back(nullptr); // id 0 is null
   for(auto& F : *M) {
      uint32_t id = newObj(1, KFunc, 16, F.getName().str());
      gaddr[&F] = objs[id]->base;
      faddr[objs[id]->base] = &F;
   }
   std::vector<std::pair<uint32_t, const llvm::GlobalVariable*>> init;
   for(auto& G : M->globals()) {
      uint64_t n = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
      uint64_t al = G.getAlign() ? G.getAlign()->value() : 16;
      uint32_t id = newObj(n, G.isConstant() ? KConst : KGlobal, al, G.getName().str(), true);
      gaddr[&G] = objs[id]->base;
      if(G.hasInitializer()) init.push_back({id, &G});
      if(G.getName().starts_with("_ZTI")) tiByAddr[objs[id]->base] = &G;
   }
   for(auto& A : M->aliases()) {
      auto* t = dyn_cast<llvm::GlobalValue>(A.getAliasee()->stripPointerCasts());
      if(t) {
         gaddr[&A] = gaddr[t];
      }
   }
   for(auto& [id, G] : init) {
      if(G->getName() == "llvm.global_ctors" || G->getName() == "llvm.used" || G->getName() == "llvm.compiler.used") continue;
      try { storeConst(objs[id], 0, G->getInitializer()); }
      catch(Unsupported& u) { if(traceOn) fprintf(stderr, "global %s: %s\n", G->getName().str().c_str(), u.what.c_str()); }
   }
   nGlobals = objs.size();
   for(size_t i = 1; i < nGlobals; ++i) if(objs[i]->kind == KGlobal) mutableImages.push_back({(uint32_t)i, *objs[i]});
}

void resetPath() {
   for(size_t i = nGlobals; i < objs.size(); ++i) delete objs[i];
   objs.resize(nGlobals);
   for(auto& [id, o] : mutableImages) *objs[id] = o;
   tpos = 0;
   pc.clear();
   pcSet.clear();
   curModel = std::make_shared<Model>();
   inputs.clear();
   nameCount.clear();
   oomFails.clear();
   oomBudget = 0;
   oomOrd = 0;
   oomOn = false;
   abortOk = 0;
   undefCnt = 0;
   stack.clear();
   pathSites.clear();
   caught.clear();
   nInstPath = 0;
}

bool backtrack() {
   while(!trace.empty()) {
      if(++trace.back().cur < trace.back().opts.size()) return true;
      trace.pop_back();
   }
   return false;
}

std::string js(const std::string& s) {
   std::string r = "\"";
   for(unsigned char c : s) {
      if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += (char)c;
   }
   return r + "\"";
}

int result = 2;
std::string outFile;
std::vector<std::string> samplePaths;

void run() {
   double t0 = tStart = now();
   auto* F = M->getFunction("h_" + harness);
   bool complete = false;
   if(!F) problems.push_back("no harness " + harness);
   else {
      setupGlobals();
      // dynamic initialisers of the module
      std::vector<const llvm::Function*> ctors;
      if(auto* G = M->getNamedGlobal("llvm.global_ctors"))
         if(auto* A = dyn_cast<llvm::ConstantArray>(G->getInitializer()))
            for(auto& o : A->operands()) if(auto* f = dyn_cast<llvm::Function>(cast<llvm::Constant>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
      DFunc* d = decode(F);
      complete = true;
      for(;;) {
         if(nPaths >= maxPaths) { problems.push_back("bound: more than " + std::to_string(maxPaths) + " paths"); complete = false; break; }
         if(outOfTime()) { problems.push_back("bound: time limit after " + std::to_string(nPaths) + " paths"); complete = false; break; }
         resetPath();
         ++nPaths;
         const char* why = "returned";
         try {
            for(auto* c : ctors) { std::vector<Val> a; Val r; exec(decode(c), a, r); }
            std::vector<Val> a;
            Val r;
            if(exec(d, a, r) == THROW) fail("uncaught exception " + llvm::demangle(thrownName));
            uint64_t k = 0;
            for(size_t i = nGlobals; i < objs.size(); ++i) k += objs[i]->kind == KHeap && objs[i]->alive;
            if(k) fail("memory leak: " + std::to_string(k) + " blocks");
         } catch(PathEnd& p) { why = p.why; }
         catch(Unsupported& u) {
            problems.push_back("unsupported: " + u.what + " at " + where());
            why = "unsupported";
         } catch(Bound& b) {
            problems.push_back("bound: " + b.what + " at " + where());
            why = "bound";
         } catch(std::exception& e) {
            problems.push_back(std::string("internal: ") + e.what() + " at " + where());
            why = "internal";
         }
         endReasons[why]++;
         if(std::string(why) == "returned") writeSample();
         nInstTotal += nInstPath;
         if(samplePaths.size() < 3 && std::string(why) == "returned") {
            std::string s;
            for(auto& in : inputs) { uint64_t v = 0; if(curModel) curModel->eval(in.e, v); s += (s.empty() ? "" : " ") + in.name + "=" + (in.e->w == 64 || in.e->w == 32 ? std::to_string(sext64(v, in.e->w)) : std::to_string(v)); if(s.size() > 300) break; }
            std::string pcs;
            for(size_t i = 0; i < pc.size() && pcs.size() < 400; ++i) pcs += (i ? " & " : "") + str(pc[i], 4);
            samplePaths.push_back("path condition: " + pcs + " ; a witness: " + s);
         }
         if(problems.size() > 5) { complete = false; break; }
         if(viols.size() >= 4) { complete = false; break; }
         if(!backtrack()) break;
      }
   }
   // vacuity: every check in the module's harness function must have been reached (decided by the driver from sites)
   double dt = now() - t0;
   FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
   fprintf(f, "{\"harness\":%s,\"complete\":%s,\"paths\":%llu,\"instructions\":%llu,\"decisions\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"memory_queries\":%llu,",
           js(harness).c_str(), complete ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nInstTotal, (unsigned long long)nDecisions,
           (unsigned long long)nChecks, (unsigned long long)nCheckQueries, (unsigned long long)nMemChecks);
   fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"cvc5\":%llu,\"time_s\":%.3f,\"max_s\":%.3f},",
           (unsigned long long)gStats.queries, (unsigned long long)gStats.sat, (unsigned long long)gStats.unsat, (unsigned long long)gStats.unknown,
           (unsigned long long)gStats.modelHits, (unsigned long long)gStats.cacheHits, (unsigned long long)gStats.cvc5, gStats.time, gStats.maxTime);
   fprintf(f, "\"samples_written\":%llu,\"wall_s\":%.3f,\"ends\":{", (unsigned long long)nSamples, dt);
   bool first = true;
   for(auto& [k, v] : endReasons) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(k).c_str(), (unsigned long long)v); first = false; }
   fprintf(f, "},\"sites\":{");
   first = true;
   for(auto& [k, v] : sites) {
      fprintf(f, "%s%s:{\"reached\":%llu,\"solver\":%llu,\"concrete\":%llu}", first ? "" : ",", js(k).c_str(), (unsigned long long)v.reached, (unsigned long long)v.queries, (unsigned long long)v.concrete);
      first = false;
   }
   fprintf(f, "},\"reach\":{");
   first = true;
   for(auto& [k, v] : reachSites) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(k).c_str(), (unsigned long long)v); first = false; }
   fprintf(f, "},\"violations\":[");
   first = true;
   for(auto& v : viols) { fprintf(f, "%s{\"msg\":%s,\"file\":%s,\"where\":%s}", first ? "" : ",", js(v.msg).c_str(), js(v.file).c_str(), js(v.where).c_str()); first = false; }
   fprintf(f, "],\"problems\":[");
   first = true;
   for(auto& v : problems) { fprintf(f, "%s%s", first ? "" : ",", js(v).c_str()); first = false; }
   fprintf(f, "],\"samples\":[");
   first = true;
   for(auto& v : samplePaths) { fprintf(f, "%s%s", first ? "" : ",", js(v).c_str()); first = false; }
   fprintf(f, "],\"functions\":[");
   first = true;
   std::set<std::string> fn;
   uint64_t nf = 0;
   for(auto& [F2, d2] : dfuncs) {
      if(!d2->calls) continue;
      ++nf;
      std::string s = llvm::demangle(F2->getName().str());
      if(s.find("spp::") == std::string::npos) continue;
      // the qualified name without template arguments and parameters
      std::string o;
      int depth = 0;
      for(size_t i = 0; i < s.size(); ++i) {
         char c = s[i];
         if(c == '<' && !(i >= 8 && s.substr(i - 8, 8) == "operator")) { ++depth; continue; }
         if(c == '>' && depth > 0 && s[i - 1] != '-') { --depth; continue; }
         if(depth == 0) { if(c == '(') break; o += c; }
      }
      size_t sp = o.rfind(' ');
      if(sp != std::string::npos && o.find("operator") == std::string::npos) o = o.substr(sp + 1);
      if(o.find("spp::") != std::string::npos) fn.insert(o.substr(o.find("spp::")));
   }
   for(auto& s : fn) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
   fprintf(f, "],\"functions_executed\":%llu}\n", (unsigned long long)nf);
   if(f != stdout) fclose(f);
   result = !viols.empty() ? 1 : (!problems.empty() || !complete) ? 2 : 0;
}

void* thr(void*) { run(); return nullptr; }

} // namespace

int main(int argc, char** argv) {
   std::string file;
   for(int i = 1; i < argc; ++i) {
      std::string s = argv[i];
      auto next = [&] { return std::string(argv[++i]); };
      if(s == "--harness") harness = next();
      else if(s == "--out") outFile = next();
      else if(s == "--cex") cexPrefix = next();
      else if(s == "--max-paths") maxPaths = std::stoull(next());
      else if(s == "--max-insts") maxInsts = std::stoull(next());
      else if(s == "--time") timeLimit = std::stod(next());
      else if(s == "--stop") stopFile = next();
      else if(s == "--query-ms") gTimeoutMs = (unsigned)std::stoul(next());
      else if(s == "--branch-ms") gBranchMs = (unsigned)std::stoul(next());
      else if(s == "--samples") maxSamples = std::stoull(next());
      else if(s == "--no-cvc5") gNoCvc5 = true;
      else if(s == "--trace") traceOn = true;
      else file = s;
   }
   if(cexPrefix.empty()) cexPrefix = harness;
   llvm::LLVMContext C;
   llvm::SMDiagnostic err;
   auto mod = llvm::parseIRFile(file, err, C);
   if(!mod) { err.print("symx", llvm::errs()); return 3; }
   M = mod.get();
   DL = &M->getDataLayout();
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstacksize(&at, 1ull << 30);
   pthread_t t;
   pthread_create(&t, &at, thr, nullptr);
   pthread_join(t, nullptr);
   fflush(stdout);
   _exit(result);
}
