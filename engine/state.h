// bsym - symbolic machine state: objects, frames, threads.
#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <map>
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>

struct V { uint64_t c; Expr* e; };
static inline V CV(uint64_t c) { return V{c, nullptr}; }
static inline V EV(Expr* e) { return isC(e) ? V{e->val, nullptr} : V{0, e}; }
static inline Expr* X(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_HEAP, OK_FUNC };
struct Obj {
  int rc = 1; uint64_t base = 0; uint64_t size = 0; ObjKind kind; bool freed = false; bool zero = false;
  uint8_t* data = nullptr; Expr** sym = nullptr; uint8_t* un = nullptr; uint32_t symCount = 0;
  const char* name = ""; uint32_t allocSite = 0;
  ~Obj() { free(data); free(sym); free(un); }
};
static const int PG = 64;
struct Page { int rc = 1; Obj* o[PG] = {}; };
struct ObjTab {
  std::vector<Page*> pages;
  ObjTab() {}
  ObjTab(const ObjTab& o) : pages(o.pages) { for (Page* p : pages) if (p) p->rc++; }
  ObjTab& operator=(const ObjTab&) = delete;
  ~ObjTab() { for (Page* p : pages) rel(p); }
  static void relObj(Obj* o) { if (o && --o->rc == 0) delete o; }
  static void rel(Page* p) { if (p && --p->rc == 0) { for (Obj* o : p->o) relObj(o); delete p; } }
  Obj* get(uint64_t i) const { size_t p = i / PG; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[i % PG]; }
  Page* wpage(size_t p) {
    if (p >= pages.size()) pages.resize(p + 1, nullptr);
    if (!pages[p]) return pages[p] = new Page();
    if (pages[p]->rc > 1) { Page* n = new Page(); for (int i = 0; i < PG; i++) { n->o[i] = pages[p]->o[i]; if (n->o[i]) n->o[i]->rc++; } pages[p]->rc--; pages[p] = n; }
    return pages[p];
  }
  void set(uint64_t i, Obj* o) { Page* p = wpage(i / PG); relObj(p->o[i % PG]); p->o[i % PG] = o; }
  Obj* wget(uint64_t i) { // unshared
    Page* p = wpage(i / PG); Obj*& o = p->o[i % PG];
    if (o->rc > 1) {
      Obj* n = new Obj(); n->base = o->base; n->size = o->size; n->kind = o->kind; n->freed = o->freed; n->name = o->name; n->symCount = o->symCount; n->allocSite = o->allocSite;
      if (o->data) { n->data = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size); }
      if (o->sym && o->symCount) { n->sym = (Expr**)malloc(o->size * sizeof(Expr*)); memcpy(n->sym, o->sym, o->size * sizeof(Expr*)); }
      if (o->un) { n->un = (uint8_t*)malloc(o->size); memcpy(n->un, o->un, o->size); }
      o->rc--; o = n;
    }
    return o;
  }
};

struct FnInfo;
struct Frame {
  int rc = 1; FnInfo* fi; std::vector<V> s; int pc = 0; int block = 0; int retDst = -1; int retN = 0; std::vector<uint32_t> allocas; std::vector<V> varargs;
  int mergeRegion = 0;
};
enum TStat : uint8_t { T_RUN, T_BLOCK_MUTEX, T_BLOCK_COND, T_DONE, T_BLOCK_JOIN, T_BLOCK_FUTEX, T_BLOCK_RD, T_BLOCK_WR };
struct Thread { std::vector<Frame*> fr; TStat st = T_RUN; uint64_t waitOn = 0; uint64_t mtx = 0; bool timed = false; std::vector<uint32_t> vc; uint64_t tls = 0; bool parked = false; int phase = 0; std::vector<uint32_t> pend, frel; std::vector<std::pair<uint64_t, uint64_t>> tlsMap; };

struct ModelP { int rc = 1; Model m; };
struct State {
  uint64_t id = 0;
  ObjTab tab, stk;
  std::vector<Thread> th; int cur = 0;
  std::vector<Expr*> pc;
  std::shared_ptr<Model> model;
  uint32_t nextHeap = 0; uint32_t nextStk = 0; std::vector<uint32_t> freeStk;
  uint32_t uninitCtr = 0;
  std::vector<std::pair<std::string, Expr*>> inputs; std::map<std::string, int> nameCtr;
  int64_t heapLive = 0; int mallocFailLeft = 0; int mallocCtr = 0;
  int mergeMode = 0; int pickNo = 0; uint64_t pickHash = 0; uint64_t steps = 0;
  std::map<uint64_t, int> mtx; // mutex address -> owner+1 ; rwlocks: -readers
  int preempts = 0; int schedCtr = 0; uint64_t clock = 0;
  std::set<std::string> reached;
  bool multi = false;
  std::vector<std::string> trace;
  std::map<uint64_t, std::vector<uint32_t>> syncVC; // release clocks per sync address
  std::map<uint64_t, std::pair<int, uint32_t>> lastW; std::map<uint64_t, std::map<int, uint32_t>> lastR; // race detection (8-byte granules)
  State() {}
  State(const State& o) = default;
  ~State() { for (auto& t : th) for (Frame* f : t.fr) if (--f->rc == 0) delete f; }
  State* clone() const { State* s = new State(*this); for (auto& t : s->th) for (Frame* f : t.fr) f->rc++; return s; }
  std::vector<Frame*>& frames() { return th[cur].fr; }
  Frame* top() { auto& fr = th[cur].fr; Frame*& f = fr.back(); if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return f; }
};
