#include "engine.h"
#include <cstdlib>
Obj *objNew(uint32_t size, uint8_t kind) {
  Obj *o = (Obj *)malloc(sizeof(Obj));
  o->rc = 1; o->size = size; o->cap = size; o->ro = false; o->kind = kind;
  o->d = (uint8_t *)calloc(size ? size : 1, 1); o->c = nullptr;
  return o;
}
void objRef(Obj *o) { o->rc++; }
void objUnref(Obj *o) { if (--o->rc == 0) { free(o->d); free(o->c); free(o); } }
Obj *objClone(Obj *o) {
  Obj *n = (Obj *)malloc(sizeof(Obj));
  *n = *o; n->rc = 1;
  n->d = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size);
  if (o->c) { n->c = (Cell *)malloc(sizeof(Cell) * (o->size ? o->size : 1)); memcpy(n->c, o->c, sizeof(Cell) * o->size); }
  return n;
}
static void chUnref(Chunk *c) {
  if (!c) return;
  if (--c->rc == 0) { for (auto *o : c->o) if (o) objUnref(o); delete c; }
}
Mem::Mem(const Mem &m) : ch(m.ch), freeIds(m.freeIds), next(m.next) { for (auto *c : ch) if (c) c->rc++; }
Mem::~Mem() { for (auto *c : ch) chUnref(c); }
static Chunk *chW(std::vector<Chunk *> &ch, uint32_t ci) {
  if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
  Chunk *c = ch[ci];
  if (!c) { c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof c->o); ch[ci] = c; return c; }
  if (c->rc > 1) {
    Chunk *n = new Chunk(*c); n->rc = 1;
    for (auto *o : n->o) if (o) objRef(o);
    c->rc--; ch[ci] = n; return n;
  }
  return c;
}
Obj *Mem::getW(uint32_t id) {
  Obj *o = get(id);
  if (!o) return nullptr;
  Chunk *c = ch[id >> 6];
  if (c->rc == 1 && o->rc == 1) return o;
  c = chW(ch, id >> 6);
  Obj *&s = c->o[id & 63];
  if (s->rc > 1) { Obj *n = objClone(s); objUnref(s); s = n; }
  return s;
}
void Mem::set(uint32_t id, Obj *o) {
  Chunk *c = chW(ch, id >> 6);
  if (c->o[id & 63]) objUnref(c->o[id & 63]);
  c->o[id & 63] = o;
}
uint32_t Mem::alloc(uint32_t size, uint8_t kind) {
  uint32_t id;
  if (kind == 1 && !freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); }
  else id = next++;
  set(id, objNew(size, kind));
  return id;
}
void Mem::release(uint32_t id, bool reuse) { set(id, nullptr); if (reuse) freeIds.push_back(id); }
