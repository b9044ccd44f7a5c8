// posym: path-forking symbolic executor for LLVM IR (declarations)
#pragma once
#include "expr.h"
#include <array>
#include <bitset>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef std::bitset<256> Dom;

struct Val { uint64_t c; Expr* e; };            // e==nullptr: concrete c

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_HEAP, K_STACK, K_GLOBAL, K_CONST, K_FUNC, K_OPAQUE };
struct Obj {
  int ref; uint32_t size; uint64_t addr; uint8_t kind; uint8_t tag;
  uint8_t* data; uint8_t* sh; Expr** sym;       // sh: 0 concrete, 1 undef, 2 symbolic; null: all concrete
  static Obj* make(uint32_t size, uint64_t addr, Kind k, bool undef);
  Obj* clone() const;
  void drop();
};
struct Chunk { int ref; std::array<Obj*, 64> o; };
struct Memory {
  std::vector<Chunk*> chunks;
  std::vector<uint32_t> freeIds;
  std::vector<uint16_t> gens;                    // per id
  uint32_t nextId = 1;
  uint64_t liveHeap = 0;
  Memory() {}
  Memory(const Memory& o);
  ~Memory();
  Memory& operator=(const Memory&) = delete;
  uint64_t alloc(uint32_t size, Kind k, bool undef);
  void release(uint32_t id);
  Obj* get(uint32_t id) const { uint32_t c = id >> 6; return c < chunks.size() && chunks[c] ? chunks[c]->o[id & 63] : nullptr; }
  Obj* getW(uint32_t id);
  Chunk* chunkW(uint32_t c);
};
static inline uint64_t mkAddr(uint32_t gen, uint32_t id, uint32_t off) { return ((uint64_t)gen << 48) | ((uint64_t)id << 24) | off; }
static inline uint32_t addrId(uint64_t a) { return (a >> 24) & 0xffffff; }
static inline uint32_t addrOff(uint64_t a) { return a & 0xffffff; }

// ---------------------------------------------------------------- solver
struct SolverStats { uint64_t z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, domQueries = 0, cacheHits = 0, assertQueries = 0, assertUnsat = 0, xchecks = 0, xmismatch = 0; double z3Time = 0; };
struct PathCond {
  std::vector<Expr*> multi;                      // constraints over >= 2 bytes
  std::vector<Expr*> unary;
  std::vector<Dom> dom;                          // per byte variable
  std::vector<uint8_t> model;
};

// ---------------------------------------------------------------- code
struct Edge { int target; std::vector<std::pair<int, int>> copies; bool par; };
struct DFunc;
struct CallInfo {
  DFunc* direct = nullptr; int callee = 0; std::vector<int> args; int nret = 0; int dst = -1; std::vector<unsigned> retW;
  bool invoke = false; int normal = -1, unwind = -1; int builtin = 0; std::string name;
  std::vector<std::pair<int, uint32_t>> byval;
};
struct LPad { bool cleanup; std::vector<uint64_t> catches; bool filter; };
struct GepTerm { int idx; uint64_t scale; uint8_t w; };
struct Inst { uint8_t op, w, sub, w2; int dst, a, b, c; uint64_t imm; uint32_t x; };
struct DFunc {
  std::string name; uint64_t addr = 0; int nslots = 0; int nargs = 0; bool defined = false; int builtin = 0; bool user = false;
  std::vector<Inst> code; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<LPad> lpads;
  std::vector<std::vector<GepTerm>> geps; std::vector<std::vector<std::pair<uint64_t, int>>> switches; std::vector<std::string> msgs;
  std::vector<std::vector<std::array<int, 3>>> flat;  // (slot-delta, byte-offset, width) for aggregate load/store
  bool touched = false;
  bool nounwind = false;
  void* llvmf = nullptr;
};
struct Frame { DFunc* f; int pc; uint32_t base; uint32_t allocaBase; const CallInfo* ci; };

struct SymIn { std::string name; int kind; uint32_t first, n; uint64_t val; };  // kind 0 bytes, 1 choice
struct Observation { std::string label; std::vector<Val> bytes; };

struct State {
  std::vector<Frame> fr; std::vector<Val> regs; std::vector<uint64_t> allocas;
  Memory mem; PathCond pc; std::vector<SymIn> ins; std::vector<Observation> obs; std::vector<std::string> covers;
  uint64_t instrs = 0; uint32_t depth = 0; uint32_t nasserts = 0;
  uint64_t lpadPtr = 0; int lpadSel = 0;
  std::shared_ptr<const std::vector<bool>> frozen; int guard = 0;   // objects that other threads may be reading; inside the guarded initialisation of a static
  State() {}
  State(const State& o) = default;
};
