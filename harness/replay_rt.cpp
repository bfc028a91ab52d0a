// Native replay runtime: runs one harness of the real build on the values the solver chose.
// usage: replay FILE. Exit 1: the violation shows. 0: the run is clean. 3: the run diverged from the file. 4: an assumption failed.
#include "sym.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>

namespace {
struct In { char name[64]; unsigned w; unsigned long long v; };
constexpr int MAXIN = 100000;
In* ins;
int nIn, posIn;
unsigned long long oom[64];
int nOom;
bool oomOn;
unsigned long long oomOrd;
int abortOk;
bool active;
char harnessName[128];
char (*expects)[160];
int nExpect, posExpect;
bool validate;
int failed;

struct Blk { void* p; int kind; bool alive; };
constexpr int MAXB = 1 << 16;
Blk* blks;
int nBlk;
long live;

struct HList { const char* n; void (*f)(); HList* next; };
HList* hl;

void die(const char* what, const char* msg, int code) {
   fprintf(stderr, "REPLAY: %s%s\n", what, msg);
   fflush(stderr);
   _exit(code);
}
unsigned long long input(const char* name, unsigned w) {
   static std::map<std::string, int>* cnt;
   bool a = active;
   active = false;
   if(!cnt) cnt = new std::map<std::string, int>;
   int k = (*cnt)[name]++;
   active = a;
   char full[128];
   snprintf(full, sizeof full, "%s#%d", name, k);
   if(posIn >= nIn) die("diverged: no more inputs at ", full, 3);
   In& i = ins[posIn++];
   if(strcmp(i.name, full) || i.w != w) die("diverged: unexpected input ", full, 3);
   return i.v;
}
void* alloc(std::size_t n, int kind, std::size_t al) {
   if(active) {
      if(n > 8192) throw std::bad_alloc{};
      if(oomOn) {
         unsigned long long o = oomOrd++;
         for(int i = 0; i < nOom; ++i) if(oom[i] == o) throw std::bad_alloc{};
      }
   }
   void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al ? (n + al - 1) / al * al : al) : malloc(n ? n : 1);
   if(!p) throw std::bad_alloc{};
   if(active) {
      const char* f = getenv("REPLAY_FILL");
      memset(p, f ? (int)strtol(f, nullptr, 0) : 0xbe, n);
      if(nBlk < MAXB) blks[nBlk++] = {p, kind, true};
      ++live;
   }
   return p;
}
void release(void* p, int kind) {
   if(!p) return;
   for(int i = nBlk; i-- > 0;)
      if(blks[i].p == p && blks[i].alive) {
         if(blks[i].kind != kind) die("violated ", "mismatched allocation and deallocation functions", 1);
         blks[i].alive = false;
         --live;
         break;
      }
   free(p);
}
} // namespace

SymReg::SymReg(const char* n, void (*f)()) {
   hl = new HList{n, f, hl};
}

void* operator new(std::size_t n) { return alloc(n, 1, 16); }
void* operator new[](std::size_t n) { return alloc(n, 2, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return alloc(n, 3, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return alloc(n, 4, (std::size_t)a); }
void operator delete(void* p) noexcept { release(p, 1); }
void operator delete(void* p, std::size_t) noexcept { release(p, 1); }
void operator delete[](void* p) noexcept { release(p, 2); }
void operator delete[](void* p, std::size_t) noexcept { release(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { release(p, 3); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release(p, 3); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p, 4); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { release(p, 4); }

extern "C" {
std::int64_t sym_i64(const char* n) noexcept { return (std::int64_t)input(n, 64); }
std::int32_t sym_i32(const char* n) noexcept { return (std::int32_t)input(n, 32); }
std::int16_t sym_i16(const char* n) noexcept { return (std::int16_t)input(n, 16); }
std::int8_t sym_i8(const char* n) noexcept { return (std::int8_t)input(n, 8); }
double sym_f64(const char* n) noexcept { auto v = input(n, 64); double d; memcpy(&d, &v, 8); return d; }
float sym_f32(const char* n) noexcept { auto v = (unsigned)input(n, 32); float d; memcpy(&d, &v, 4); return d; }
void sym_assume(bool c) noexcept { if(!c) die("assumption failed", "", 4); }
void sym_check(bool c, const char* what) noexcept {
   if(validate) {
      if(posExpect >= nExpect || strcmp(expects[posExpect], what)) die("diverged: reached check ", what, 3);
      ++posExpect;
   }
   if(!c) {
      fprintf(stderr, "REPLAY: violated check: %s\n", what);
      failed = 1;
      if(!validate) { fflush(stderr); _exit(1); }
   }
}
std::int64_t sym_conc(std::int64_t x) noexcept { return x; }
bool sym_same_f64(double a, double b) noexcept { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, 8) == 0; }
bool sym_same_f32(float a, float b) noexcept { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, 4) == 0; }
void sym_oom(std::int32_t) noexcept { oomOn = true; }
std::int64_t sym_live() noexcept { return live; }
void sym_abort_ok(std::int32_t on) noexcept { abortOk = on; }
void sym_reach(const char*) noexcept {}
int rand() noexcept { return (int)input("rand", 32); }
void srand(unsigned) noexcept {}
[[noreturn]] void __assert_fail(const char* a, const char*, unsigned, const char*) noexcept {
   if(abortOk) _exit(0);
   die("violated abort: assertion failed: ", a, 1);
   _exit(1);
}
}

int main(int argc, char** argv) {
   if(argc < 2) return 9;
   ins = (In*)calloc(MAXIN, sizeof(In));
   blks = (Blk*)calloc(MAXB, sizeof(Blk));
   expects = (char(*)[160])calloc(20000, 160);
   FILE* f = fopen(argv[1], "r");
   if(!f) return 9;
   char line[512];
   while(fgets(line, sizeof line, f)) {
      line[strcspn(line, "\n")] = 0;
      if(sscanf(line, "harness %127s", harnessName) == 1) continue;
      if(nIn < MAXIN && sscanf(line, "in %63s %u %llx", ins[nIn].name, &ins[nIn].w, &ins[nIn].v) == 3) { ++nIn; continue; }
      if(nOom < 64 && sscanf(line, "oom %llu", &oom[nOom]) == 1) { ++nOom; continue; }
      if(nExpect < 20000 && strncmp(line, "check ", 6) == 0) snprintf(expects[nExpect++], 160, "%s", line + 6);
   }
   fclose(f);
   validate = argc > 2 && strcmp(argv[2], "--validate") == 0;
   std::set_terminate([] {
      if(abortOk) _exit(0);
      die("violated abort: ", "std::terminate", 1);
      _exit(1);
   });
   for(HList* h = hl; h; h = h->next)
      if(strcmp(h->n, harnessName) == 0) {
         active = true;
         try { h->f(); }
         catch(...) { die("violated ", "uncaught exception", 1); }
         active = false;
         if(live > 0) die("violated ", "memory leak", 1);
         if(validate && posExpect != nExpect) die("diverged: ", "checks of the file were not reached", 3);
         if(validate && posIn != nIn) die("diverged: ", "inputs were not consumed", 3);
         if(failed) _exit(1);
         fprintf(stderr, "REPLAY: clean\n");
         _exit(0);
      }
   die("no harness ", harnessName, 9);
}
