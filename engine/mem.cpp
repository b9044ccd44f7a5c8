#include "posym.h"
Obj* Obj::make(uint32_t size, uint64_t addr, Kind k, bool undef) {
  Obj* o = (Obj*)malloc(sizeof(Obj) + 2 * (size_t)size + 16);
  o->ref = 1; o->size = size; o->addr = addr; o->kind = k; o->tag = 0; o->sym = nullptr;
  o->data = (uint8_t*)(o + 1); o->sh = o->data + size;
  memset(o->data, 0, size); memset(o->sh, undef ? 1 : 0, size);
  return o;
}
Obj* Obj::clone() const {
  Obj* o = make(size, addr, (Kind)kind, false);
  o->tag = tag;
  memcpy(o->data, data, 2 * (size_t)size);
  if (sym) { o->sym = (Expr**)malloc(sizeof(Expr*) * (size + 1)); memcpy(o->sym, sym, sizeof(Expr*) * size); }
  return o;
}
void Obj::drop() { if (--ref == 0) { if (sym) free(sym); free(this); } }
Memory::Memory(const Memory& o) : chunks(o.chunks), freeIds(o.freeIds), gens(o.gens), nextId(o.nextId), liveHeap(o.liveHeap) {
  for (auto c : chunks) if (c) c->ref++;
}
static void dropChunk(Chunk* c) { if (--c->ref == 0) { for (auto o : c->o) if (o) o->drop(); delete c; } }
Memory::~Memory() { for (auto c : chunks) if (c) dropChunk(c); }
Chunk* Memory::chunkW(uint32_t c) {
  if (c >= chunks.size()) chunks.resize(c + 1, nullptr);
  Chunk*& p = chunks[c];
  if (!p) { p = new Chunk; p->ref = 1; p->o.fill(nullptr); }
  else if (p->ref > 1) { Chunk* n = new Chunk; n->ref = 1; n->o = p->o; for (auto o : n->o) if (o) o->ref++; p->ref--; p = n; }
  return p;
}
Obj* Memory::getW(uint32_t id) {
  Chunk* c = chunkW(id >> 6);
  Obj*& o = c->o[id & 63];
  if (o->ref > 1) { Obj* n = o->clone(); o->ref--; o = n; }
  return o;
}
uint64_t Memory::alloc(uint32_t size, Kind k, bool undef) {
  uint32_t id;
  if (k == K_HEAP || k == K_STACK) {
    if (!freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); } else id = nextId++;
  } else id = nextId++;
  if (id >= gens.size()) gens.resize(id + 64, 0);
  uint64_t a = mkAddr(gens[id], id, 0);
  chunkW(id >> 6)->o[id & 63] = Obj::make(size, a, k, undef);
  if (k == K_HEAP) liveHeap += size;
  return a;
}
void Memory::release(uint32_t id) {
  Chunk* c = chunkW(id >> 6);
  Obj*& o = c->o[id & 63];
  if (o->kind == K_HEAP) liveHeap -= o->size;
  o->drop(); o = nullptr;
  gens[id]++;
  freeIds.push_back(id);
}
