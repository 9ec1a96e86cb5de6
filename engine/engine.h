// State, memory and value representation of the symbolic executor.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <set>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

enum VK : uint8_t { VC, VE, VF };
struct SymFP;
struct Val {
  VK k; uint16_t w;
  union { uint64_t u; E e; const SymFP *f; };
};
inline Val vc(uint64_t u, unsigned w) { Val v; v.k = VC; v.w = w; v.u = w >= 64 ? u : u & ((1ull << w) - 1); return v; }
inline Val ve(E e) {
  Val v;
  if (e->isC() && e->w <= 64) return vc((uint64_t)e->c, e->w);
  v.k = VE; v.w = e->w; v.e = e; return v;
}
inline Val vf(const SymFP *f) { Val v; v.k = VF; v.w = 64; v.f = f; return v; }

// A symbolic binary64 value over a finite domain, represented exactly:
//  INT: n * 2^-sc, n a signed bit-vector in [lo,hi], |n| < 2^53, zero is +0.0
//  TAB: tab[idx], idx an unsigned bit-vector < tab.size()
struct SymFP { bool isInt; E n; int sc; int64_t lo, hi; std::vector<double> tab; };

struct Cell { uint8_t kind; uint8_t b, n; const void *p; }; // kind 0 concrete, 1 Expr, 2 SymFP
struct Obj {
  int rc; uint32_t size, cap; bool ro; uint8_t kind; // 0 heap 1 stack 2 global
  uint8_t *d; Cell *c;
};
Obj *objNew(uint32_t size, uint8_t kind);
void objRef(Obj *o);
void objUnref(Obj *o);
Obj *objClone(Obj *o);

struct Chunk { int rc; Obj *o[64]; };
struct Mem {
  std::vector<Chunk *> ch;
  std::vector<uint32_t> freeIds;
  uint32_t next = 1;
  Mem() {}
  Mem(const Mem &m);
  Mem &operator=(const Mem &) = delete;
  ~Mem();
  Obj *get(uint32_t id) const {
    uint32_t c = id >> 6;
    if (c >= ch.size() || !ch[c]) return nullptr;
    return ch[c]->o[id & 63];
  }
  Obj *getW(uint32_t id);
  void set(uint32_t id, Obj *o); // takes ownership of one ref
  uint32_t alloc(uint32_t size, uint8_t kind);
  void release(uint32_t id, bool reuse);
};

struct FB { uint8_t v; Cell c; };
struct VFile { std::vector<FB> data; bool isDir = false; };
struct FD { int file = -1; uint64_t pos = 0; bool open = false, append = false, wr = false, rd = false; };

struct Func;
struct Frame { Func *f; uint32_t pc; uint32_t base; int32_t retDst; uint32_t allocaStart; };

struct SymRec { E var; std::string name; };

// faults of files: the lower half counts the calls until the fault, the upper half is its kind: 0 an error from now on,
// 1 a single error, 2 a single call that handles half of the bytes, 3 a single interruption. Returns 0 (none), 1 (error), 2, 3.
// there are no directories besides the current one
inline std::string parentOf(const std::string &s) { auto k = s.rfind('/'); return k == std::string::npos || k == 0 ? "" : s.substr(0, k); }
inline std::string pathOf(std::string s) { while (s.size() > 1 && s.back() == '/') s.pop_back(); while (s.compare(0, 2, "./") == 0) s.erase(0, 2); return s; }
inline int nextFault(int64_t &f) {
  if (f < 0) return 0;
  if (f & 0xffffffff) { f--; return 0; }
  int kind = f >> 32;
  if (kind == 0) return 1;
  f = -1; return kind;
}
// threads of the harness' scheduler (one runs at a time): the stack of one that does not run
struct Fiber { std::vector<Frame> fr; std::vector<Val> regs; std::vector<uint32_t> allocas; };
struct State {
  Mem mem;
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<E> pc;           // path condition
  Assign model;                // satisfies pc
  std::vector<SymRec> syms;
  std::vector<std::pair<E, uint64_t>> eq; // concretised expressions
  std::vector<std::pair<std::string, Val>> obs;
  std::map<std::string, std::shared_ptr<VFile>> files;
  std::map<std::string, int> nameIdx; std::set<std::string> dirs;
  std::vector<std::shared_ptr<VFile>> inodes;
  std::vector<FD> fds;
  int64_t faultRead = -1;      // file read() calls until failure (see nextFault); -1 none
  int64_t faultAfter = -1;     // file write() calls until failure (see nextFault); -1 none
  uint64_t steps = 0;
  uint64_t pathHash = 1469598103934665603ull;
  std::set<std::string> covers;
  std::vector<Fiber> fibers;
  uint32_t fiber = 0;
  int depth = 0;
};
