// posym: symbolic executor main loop
#include "decode.h"
#include "solver.h"
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <random>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart, deadline;
static uint64_t maxInstrs = 30000000, maxAlloc = 1 << 22, maxHeap = 1ull << 28;
static size_t maxEvents = 40;
static std::string entryName;
static unsigned seed = 1, nsamplesWanted = 40;
static std::mt19937_64 rng;

struct Event { std::string kind, msg, where; std::string inputs; std::string obs; int kindCount = 1; };
struct Stats {
  uint64_t paths = 0, forks = 0, instrs = 0, branches = 0, assertsConcrete = 0, assertsSym = 0, assumeKilled = 0, unsupported = 0, incomplete = 0, uninit = 0, maxDepth = 0, stopped = 0;
  std::map<std::string, uint64_t> covers, unsupMsgs, endKinds;
  std::map<std::string, uint64_t> inBytes, inCount, inChoices;   // per input name: most bytes, most uses on one path, most alternatives
};
static Stats ST;
static std::map<std::string, Event> events;           // by kind|msg|where
struct Sample { std::string inputs, obs, covers; };
static std::vector<Sample> samples; static uint64_t sampleSeen = 0;
static std::map<std::string, Sample> coverSamples;
static std::vector<Sample> unsupSamples;               // inputs of paths that could not be followed to the end
static void unsupSample(State* s);
static std::deque<State*> work;
static bool stopAll = false;

// ---------------------------------------------------------------- json helpers
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static std::string hexs(const std::string& s) { static const char* h = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
static std::string inputsJson(const State& s, const std::vector<uint8_t>& m) {
  std::string o = "[";
  for (auto& i : s.ins) {
    if (o.size() > 1) o += ",";
    if (i.kind == 1) o += "[\"C\"," + jstr(i.name) + "," + std::to_string(i.val) + "]";
    else { std::string b; for (uint32_t k = 0; k < i.n; k++) b += (char)m[i.first + k]; o += "[\"B\"," + jstr(i.name) + "," + jstr(hexs(b)) + "]"; }
  }
  return o + "]";
}
static std::string obsJson(const State& s, const std::vector<uint8_t>& m) {
  std::string o = "[";
  for (auto& ob : s.obs) {
    if (o.size() > 1) o += ",";
    std::string b; for (auto& v : ob.bytes) b += (char)(v.e ? evalExpr(v.e, m) : v.c);
    o += "[" + jstr(ob.label) + "," + jstr(hexs(b)) + "]";
  }
  return o + "]";
}
static std::string where(const State& s) {
  std::string o; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 12; i--, n++) { if (n) o += " < "; std::string d = demangled(s.fr[i].f->name); if (d.size() > 120) d = d.substr(0, 120); o += d; }
  return o;
}
static void report(State& s, const std::string& kind, const std::string& msg, const std::vector<uint8_t>& m) {
  std::string w = where(s);
  std::string key = kind + "|" + msg;
  if (kind != "assert") key += "|" + w.substr(0, w.find(" < "));
  auto it = events.find(key);
  // keep up to 6 witnesses per distinct event: suffix with counter
  if (it != events.end()) {
    it->second.kindCount++;
    for (int k = 2; k <= 6; k++) { std::string k2 = key + "#" + std::to_string(k); if (!events.count(k2)) { events[k2] = {kind, msg, w, inputsJson(s, m), obsJson(s, m)}; break; } }
    if (it->second.kindCount > 200) stopAll = true;
    return;
  }
  if (events.size() > maxEvents) { stopAll = true; return; }
  events[key] = {kind, msg, w, inputsJson(s, m), obsJson(s, m)};
}

// ---------------------------------------------------------------- execution
struct Halt { };                                       // path ends
static Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val mkV(Expr* e) { if (e->op == O_CONST) return {e->c, nullptr}; return {0, e}; }

struct Exec {
  State* s; Frame* f;
  Val* R;
  void sync() { f = &s->fr.back(); R = s->regs.data() + f->base; }
  inline const Val& get(int o) const { return o >= 0 ? R[o] : constPool[~o]; }
  void set(int d, Val v) { R[d] = v; }

  [[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    if (kind == "unsupported") { ST.unsupported++; ST.unsupMsgs[msg.substr(0, 160)]++; unsupSample(s); }
    else report(*s, kind, msg, s->pc.model);
    ST.endKinds[kind]++;
    throw Halt();
  }
  void undefUse(const char* what) { ST.uninit++; report(*s, "uninit", std::string("use of uninitialised value: ") + what, s->pc.model); }

  // a value built from undefined bytes whose masks make it defined after all (packed bits): that value; otherwise reports
  Expr* defined(Expr* e, const char* what) {
    Expr* e0 = substUndef(e, 0); bool dep = e0->undef;
    static const unsigned ks[] = {255, 1, 2, 4, 8, 16, 32, 64, 128, 0x55, 0xaa};
    for (unsigned k : ks) {
      Expr* ek = substUndef(e, k);
      if (ek == e0) continue;
      std::vector<uint8_t> m;
      if (pcCheck(s->pc, mkNot(mkEq(e0, ek)), m) != UNSAT) { dep = true; break; }
    }
    if (dep) undefUse(what);
    return e0;
  }
  // fork helper: returns true if sibling with constraint c exists; sibling has constraint added
  State* forkWith(Expr* c) {
    std::vector<uint8_t> m;
    Res r = pcCheck(s->pc, c, m);
    if (r == UNSAT) return nullptr;
    if (r == UNKNOWN) { ST.incomplete++; return nullptr; }
    State* n = new State(*s);
    pcAdd(n->pc, c); n->pc.model = std::move(m); n->depth++;
    ST.forks++;
    return n;
  }
  struct NoSib { void operator()(State*, bool) const {} };
  // decide symbolic condition; returns chosen concrete value, pushing sibling for the other value re-executing the current instruction.
  // onSibling is called on the sibling for the other outcome.
  template <class F> bool decide(Expr* c, F onSibling) {
    ST.branches++;
    if (c->undef) { c = defined(c, "branch condition"); if (c->op == O_CONST) return c->c & 1; }
    c = pcRestrict(s->pc, c); if (c->op == O_CONST) return c->c & 1;
    while (c->vars->v.size() > 1) {                     // few one-byte conditions inside: fork on those first, which keeps the path condition per byte
      std::vector<Expr*> as;
      if (!pcChoices(c, as, 3) || as.empty()) break;
      bool split = false;
      for (Expr* x : as) { size_t before = s->pc.unary.size(); decide(x, NoSib()); if (s->pc.unary.size() != before) { split = true; break; } }
      if (!split) break;
      c = pcRestrict(s->pc, c); if (c->op == O_CONST) return c->c & 1;
    }
    bool v = evalExpr(c, s->pc.model);
    Expr* nc = mkNot(c);
    State* o = forkWith(v ? nc : c);
    if (o) { onSibling(o, !v); work.push_back(o); s->depth++; pcAdd(s->pc, v ? c : nc); }
    else pcAdd(s->pc, v ? c : nc);
    if (s->depth > ST.maxDepth) ST.maxDepth = s->depth;
    return v;
  }
  // concretise: sibling re-executes the current instruction with e != v
  uint64_t conc(const Val& v, unsigned w, const char* what) {
    if (!v.e) return v.c;
    Expr* ve = v.e;
    if (ve->undef) ve = defined(ve, what);
    for (;;) {                                          // few one-byte conditions choose the value: fork on those
      ve = pcRestrict(s->pc, ve);
      std::vector<Expr*> cs;
      if (ve->vars->v.size() < 2 || !pcChoices(ve, cs, 6) || cs.empty()) break;
      size_t before = s->pc.unary.size();
      decide(cs[0], NoSib());
      if (s->pc.unary.size() == before) break;
    }
    if (ve->op == O_CONST) return ve->c;
    uint64_t k = evalExpr(ve, s->pc.model);
    Expr* eq = mkEq(ve, mkConst(k, w));
    if (eq->op == O_CONST) return k;
    State* o = forkWith(mkNot(eq));
    if (o) { work.push_back(o); s->depth++; }
    pcAdd(s->pc, eq);
    return k;
  }
  // resolve memory
  void sharedWrite(uint32_t id, Obj* o, const char* what) {      // the obligation of every write while other threads run
    ST.assertsConcrete++;
    if (id >= s->frozen->size() || !(*s->frozen)[id] || s->guard) return;
    std::string n = o->kind == K_HEAP ? "an object on the heap" : o->kind == K_STACK ? "a local object" : "a global object";
    if (o->kind == K_GLOBAL) for (auto& g : globalByName) if (addrId(g.second) == id) n = g.first;
    fail("shared", std::string(what) + " without synchronisation to what other threads may use: " + n);
  }
  Obj* res(uint64_t a, uint64_t n, bool wr, const char* what, bool atomic = false) {
    uint32_t id = addrId(a);
    Obj* o = s->mem.get(id);
    if (!o || (o->addr >> 48) != (a >> 48)) {
      if (a < (1u << 24)) fail("memory", std::string("null pointer ") + what);
      fail("memory", std::string("dangling or wild pointer ") + what);
    }
    uint64_t off = addrOff(a);
    if (off + n > o->size) {
      fail("memory", std::string("out of bounds ") + what);
    }
    if (o->kind == K_OPAQUE) fail("unsupported", "access to unresolved external data");
    if (o->kind == K_FUNC) fail("memory", std::string("function address ") + what);
    if (wr) {
      if (o->kind == K_CONST) fail("memory", std::string("write to constant ") + what);
      if (s->frozen && !atomic) sharedWrite(id, o, what);
      o = s->mem.getW(id);
    }
    return o;
  }
  static bool shZero(const uint8_t* p, unsigned n) {
    switch (n) { case 1: return !*p; case 2: { uint16_t v; memcpy(&v, p, 2); return !v; } case 4: { uint32_t v; memcpy(&v, p, 4); return !v; } case 8: { uint64_t v; memcpy(&v, p, 8); return !v; } }
    for (unsigned i = 0; i < n; i++) if (p[i]) return false;
    return true;
  }
  Expr* byteE(Obj* o, uint32_t i) { switch (o->sh[i]) { case 0: return mkConst(o->data[i], 8); case 1: return mkUndef8(); default: return o->sym[i]; } }
  Val load(Obj* o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (shZero(o->sh + off, n)) { uint64_t v = 0; memcpy(&v, o->data + off, n); return {v & maskw(w), nullptr}; }
    Expr* r = byteE(o, off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteE(o, off + i), r);
    if (w % 8) r = mkExtract(r, 0, w);
    return mkV(r);
  }
  static void setByte(Obj* o, uint32_t i, Expr* e) {
    if (e->op == O_CONST) { o->data[i] = e->c; o->sh[i] = 0; }
    else if (e->op == O_VAR && e->undef) o->sh[i] = 1;
    else { if (!o->sym) o->sym = (Expr**)malloc(sizeof(Expr*) * (o->size + 1)); o->sym[i] = e; o->sh[i] = 2; }
  }
  void store(Obj* o, uint32_t off, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->sh + off, 0, n); return; }
    Expr* e = v.e;
    if (w % 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) setByte(o, off + i, n == 1 ? e : mkExtract(e, 8 * i, 8));
  }
  // load through symbolic address: small concrete tables become ITE chains
  Val loadAt(const Val& p, uint64_t add, unsigned w) {
    if (!p.e) { uint64_t a = p.c + add; Obj* o = res(a, (w + 7) / 8, false, "read"); return load(o, addrOff(a), w); }
    if (!p.e->undef && p.e->vars->v.size() == 1) {
      uint64_t k = evalExpr(p.e, s->pc.model) + add; Obj* o = s->mem.get(addrId(k));
      uint32_t v = p.e->vars->v[0];
      if (o && (o->addr >> 48) == (k >> 48) && (o->kind == K_CONST || o->kind == K_GLOBAL || o->size <= 1024)) {
        bool ok = true; std::vector<uint8_t> m(s->pc.model); const Dom& d = s->pc.dom[v];
        std::vector<std::pair<uint64_t, std::vector<uint8_t>>> groups; unsigned n = (w + 7) / 8;
        std::map<uint64_t, std::vector<int>> byAddr;
        for (int i = 0; i < 256; i++) if (d.test(i)) { m[v] = i; uint64_t a = evalExpr(p.e, m) + add; if (addrId(a) != addrId(k) || (a >> 48) != (k >> 48) || addrOff(a) + n > o->size) { ok = false; break; } byAddr[a].push_back(i); }
        if (ok) {
          // group by value
          std::map<std::pair<uint64_t, Expr*>, std::vector<int>> byVal;
          for (auto& x : byAddr) { Val q = load(o, addrOff(x.first), w); auto& t = byVal[{q.c, q.e}]; t.insert(t.end(), x.second.begin(), x.second.end()); }
          Expr* r = nullptr;
          // largest group last (default)
          std::vector<std::pair<std::pair<uint64_t, Expr*>, std::vector<int>>> g(byVal.begin(), byVal.end());
          std::sort(g.begin(), g.end(), [](auto& a, auto& b) { return a.second.size() > b.second.size(); });
          for (auto& x : g) {
            Expr* val = x.first.second ? x.first.second : mkConst(x.first.first, w);
            if (!r) { r = val; continue; }
            Expr* c = mkConst(0, 1); Expr* var = mkVar(v);
            auto& xs = x.second; std::sort(xs.begin(), xs.end());
            for (size_t i = 0; i < xs.size();) { size_t j = i; while (j + 1 < xs.size() && xs[j + 1] == xs[j] + 1) j++;
              c = mkOr(c, i == j ? mkEq(var, mkConst(xs[i], 8)) : mkAnd(mkBin(O_ULE, mkConst(xs[i], 8), var), mkBin(O_ULE, var, mkConst(xs[j], 8)))); i = j + 1; }
            r = mkIte(c, val, r);
          }
          return mkV(r);
        }
      }
    }
    uint64_t a = conc(p, 64, "address") + add;
    Obj* o = res(a, (w + 7) / 8, false, "read"); return load(o, addrOff(a), w);
  }
  void copyMem(uint64_t d, uint64_t sr, uint64_t n) {
    if (!n) return;
    Obj* so = res(sr, n, false, "read (memcpy)");
    uint32_t sid = addrId(sr);
    Obj* dobj = res(d, n, true, "write (memcpy)");
    so = s->mem.get(sid);                               // COW may have moved it
    uint32_t a = addrOff(d), b = addrOff(sr);
    memmove(dobj->data + a, so->data + b, n);
    bool anySym = memchr(so->sh + b, 2, n) != nullptr;
    if (anySym) {
      std::vector<Expr*> t(so->sym + b, so->sym + b + n);
      if (!dobj->sym) dobj->sym = (Expr**)malloc(sizeof(Expr*) * (dobj->size + 1));
      memmove(dobj->sh + a, so->sh + b, n);
      memcpy(dobj->sym + a, t.data(), n * sizeof(Expr*));
    } else memmove(dobj->sh + a, so->sh + b, n);
  }
  void freeObj(uint64_t a) {
    if (!a) return;
    Obj* o = s->mem.get(addrId(a));
    if (!o || (o->addr >> 48) != (a >> 48)) fail("memory", "double free or free of dangling pointer");
    if (addrOff(a)) fail("memory", "free of interior pointer");
    if (o->kind != K_HEAP) fail("memory", "free of non-heap object");
    if (s->frozen) sharedWrite(addrId(a), o, "free");
    if (s->frozen && addrId(a) < s->frozen->size() && (*s->frozen)[addrId(a)]) { auto v = std::make_shared<std::vector<bool>>(*s->frozen); (*v)[addrId(a)] = false; s->frozen = v; }
    s->mem.release(addrId(a));
  }
  std::string cstr(uint64_t a) {
    std::string r;
    for (;;) { Obj* o = res(a, 1, false, "read (string)"); Val v = load(o, addrOff(a), 8); uint8_t c = v.e ? evalExpr(v.e, s->pc.model) : v.c; if (!c) break; r += c; a++; }
    return r;
  }
  void take(int e, Frame& fr, State* st) {                // follow edge
    Edge& ed = fr.f->edges[e];
    Val* r = st->regs.data() + fr.base;
    auto g = [&](int o) -> const Val& { return o >= 0 ? r[o] : constPool[~o]; };
    if (!ed.copies.empty()) {
      if (!ed.par) for (auto& c : ed.copies) r[c.first] = g(c.second);
      else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (ed.copies.size() > 64) { big.resize(ed.copies.size()); t = big.data(); }
        size_t i = 0; for (auto& c : ed.copies) t[i++] = g(c.second); i = 0; for (auto& c : ed.copies) r[c.first] = t[i++]; }
    }
    fr.pc = ed.target;
  }
  void popFrame() {
    Frame& fr = s->fr.back();
    while (s->allocas.size() > fr.allocaBase) { s->mem.release(addrId(s->allocas.back())); s->allocas.pop_back(); }
    s->regs.resize(fr.base);
    s->fr.pop_back();
  }
  void pushFrame(DFunc* d, const CallInfo* ci) {
    if (s->fr.size() > 4000) fail("hang", "stack overflow (call depth > 4000)");
    if (d->llvmf) decodeFunc(d);
    d->touched = true;
    Frame n; n.f = d; n.pc = 0; n.base = s->regs.size(); n.allocaBase = s->allocas.size(); n.ci = ci;
    s->regs.resize(n.base + d->nslots);
    s->fr.push_back(n);
  }
  // ---- RTTI
  uint64_t rd64(uint64_t a) { Obj* o = res(a, 8, false, "read (rtti)"); Val v = load(o, addrOff(a), 64); if (v.e) fail("unsupported", "symbolic rtti"); return v.c; }
  static uint64_t vt(const char* n) { auto it = globalByName.find(n); return it == globalByName.end() ? 0 : it->second; }
  // adjust obj of type from to base type `to`
  bool upcast(uint64_t obj, uint64_t from, uint64_t to, uint64_t& out) {
    if (from == to) { out = obj; return true; }
    static uint64_t si = vt("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    uint64_t vp = rd64(from);
    uint64_t vid = addrId(vp);
    if (si && vid == addrId(si)) return upcast(obj, rd64(from + 16), to, out);
    if (vmi && vid == addrId(vmi)) {
      uint64_t fc = rd64(from + 16); uint32_t cnt = fc >> 32;
      for (uint32_t i = 0; i < cnt; i++) {
        uint64_t b = rd64(from + 24 + 16 * i); int64_t of = (int64_t)rd64(from + 32 + 16 * i);
        if (!(of & 2)) continue;                        // public bases only
        int64_t off = of >> 8;
        if (of & 1) { uint64_t vpt = obj ? rd64(obj) : 0; if (!obj) continue; off = (int64_t)rd64(vpt + off); }
        if (upcast(obj + off, b, to, out)) return true;
      }
    }
    return false;
  }
  static std::map<uint64_t, int> tids;
  static int typeId(uint64_t a) { auto it = tids.find(a); if (it != tids.end()) return it->second; int n = 1 + ((addrId(a)) & 0x3fffffff); tids[a] = n; return n; }
  void unwind(uint64_t obj) {                           // obj = thrown object; header is 64 bytes before
    // current frame is posym_unwind's caller (rt function)
    bool first = true;
    uint64_t ti = rd64(obj - 64);
    // search phase: is there any handler? (otherwise terminate)
    bool handled = false;
    for (int i = (int)s->fr.size() - 1; i >= 0 && !handled; i--) {
      Frame& fr = s->fr[i]; Inst& in = fr.f->code[fr.pc];
      if (in.op != I_CALL) continue;
      CallInfo& ci = fr.f->calls[in.x];
      if (!ci.invoke) continue;
      Edge& ed = fr.f->edges[ci.unwind];
      Inst* lp = nullptr; for (int k = ed.target; k < ed.target + 4 && k < (int)fr.f->code.size(); k++) if (fr.f->code[k].op == I_LPAD) { lp = &fr.f->code[k]; break; }
      if (!lp) continue;
      for (auto c : fr.f->lpads[lp->x].catches) { uint64_t o; if (c == 0 || upcast(obj, ti, c, o)) { handled = true; break; } }
    }
    if (!handled) { std::string tn; try { tn = demangled(cstr(rd64(ti + 8))); } catch (Halt&) { throw; } fail("terminate", "uncaught exception of type " + demangled("_ZTS" + tn)); }
    while (!s->fr.empty()) {
      Frame& fr = s->fr.back(); Inst& in = fr.f->code[fr.pc];
      if (in.op == I_CALL) {
        CallInfo& ci = fr.f->calls[in.x];
        if (ci.invoke) {
          Edge& ed = fr.f->edges[ci.unwind];
          LPad* l = nullptr; for (int k = ed.target; k < ed.target + 4 && k < (int)fr.f->code.size(); k++) if (fr.f->code[k].op == I_LPAD) { l = &fr.f->lpads[fr.f->code[k].x]; break; }
          if (l) {
            int sel = 0; bool hit = false; uint64_t adj = obj;
            for (auto c : l->catches) { uint64_t o; if (c == 0) { hit = true; sel = 1 << 30; adj = obj; break; } if (upcast(obj, ti, c, o)) { hit = true; sel = typeId(c); adj = o; break; } }
            if (hit || l->cleanup) {
              if (hit) { Obj* h = res(obj - 64, 64, true, "exception header"); store(h, addrOff(obj - 64) + 24, {adj, nullptr}, 64); }
              s->lpadPtr = obj; s->lpadSel = hit ? sel : 0;
              take(ci.unwind, fr, s);
              return;
            }
          }
        }
      }
      popFrame();
    }
    fail("terminate", "unwound past entry");
  }
  void builtin(int b, CallInfo& ci);
  void call(CallInfo& ci, DFunc* d);
  void afterCall(const CallInfo& ci) { Frame& fr = s->fr.back(); if (ci.invoke) take(ci.normal, fr, s); else fr.pc++; }
  void run(bool bfs);
  void step();
  Val intr(const Inst& in);
};
std::map<uint64_t, int> Exec::tids;

static void endPath(State* s) {
  ST.paths++;
  for (auto& c : s->covers) ST.covers[c]++;
  std::map<std::string, uint64_t> occ;
  for (auto& i : s->ins) { uint64_t k = ++occ[i.name + char(1 + i.kind)]; auto& m = ST.inCount[i.name]; if (k > m) m = k; if (i.kind == 0) { auto& b = ST.inBytes[i.name]; if (i.n > b) b = i.n; } }
  bool isNew = false; std::string cj = "[";
  for (auto& c : s->covers) { if (cj.size() > 1) cj += ","; cj += jstr(c); if (!coverSamples.count(c)) isNew = true; }
  cj += "]";
  sampleSeen++;
  bool want = samples.size() < nsamplesWanted || (rng() % sampleSeen) < nsamplesWanted;
  if (!isNew && !want) return;
  Sample sm{inputsJson(*s, s->pc.model), obsJson(*s, s->pc.model), cj};
  for (auto& c : s->covers) if (!coverSamples.count(c)) coverSamples[c] = sm;
  if (want) { if (samples.size() < nsamplesWanted) samples.push_back(sm); else samples[rng() % nsamplesWanted] = sm; }
}

static void unsupSample(State* s) {
  if (unsupSamples.size() < 24) unsupSamples.push_back(Sample{inputsJson(*s, s->pc.model), "[]", "[]"});
  else if (rng() % ST.unsupported < 24) unsupSamples[rng() % 24] = Sample{inputsJson(*s, s->pc.model), "[]", "[]"};
}
static std::string strOf(State* s, Exec& x, uint64_t a) { return x.cstr(a); }

void Exec::builtin(int b, CallInfo& ci) {
  auto A = [&](int i) -> const Val& { return get(ci.args[i]); };
  Val ret{0, nullptr};
  switch (b) {
    case B_SYM: {                                        // (ptr, n, name)
      uint64_t p = conc(A(0), 64, "sym ptr"), n = conc(A(1), 64, "sym n"); std::string nm = cstr(conc(A(2), 64, "sym name"));
      if (n) {
        Obj* o = res(p, n, true, "write (sym)");
        uint32_t first = s->pc.dom.size(); pcGrow(s->pc, first + n);
        for (uint64_t i = 0; i < n; i++) setByte(o, addrOff(p) + i, mkVar(first + i));
        s->ins.push_back({nm, 0, first, (uint32_t)n, 0});
      } else s->ins.push_back({nm, 0, 0, 0, 0});
      break; }
    case B_CHOICE: {                                     // (n, name) -> forks n ways
      uint64_t n = conc(A(0), 64, "choice n"); std::string nm = cstr(conc(A(1), 64, "choice name"));
      if (n == 0) { ST.assumeKilled++; throw Halt(); }
      { auto& m = ST.inChoices[nm]; if (n > m) m = n; }
      for (uint64_t k = n - 1; k >= 1; k--) {
        State* o = new State(*s); ST.forks++; o->depth++;
        o->ins.push_back({nm, 1, 0, 0, k});
        Exec e; e.s = o; e.sync();
        if (ci.nret) e.set(ci.dst, {k, nullptr});
        e.afterCall(ci); work.push_back(o);
      }
      s->ins.push_back({nm, 1, 0, 0, 0});
      break; }
    case B_ASSUME: {
      Val c = A(0);
      if (!c.e) { if (!(c.c & 1)) { ST.assumeKilled++; throw Halt(); } break; }
      Expr* e = c.e; if (e->w > 1) e = mkNot(mkEq(e, mkConst(0, e->w)));
      std::vector<uint8_t> m; Res r = evalExpr(e, s->pc.model) ? SAT : pcCheck(s->pc, e, m);
      if (r == UNSAT) { ST.assumeKilled++; throw Halt(); }
      if (r == UNKNOWN) { ST.incomplete++; throw Halt(); }
      pcAdd(s->pc, e); if (!m.empty()) s->pc.model = m;
      break; }
    case B_ASSERT: {                                     // (cond, msg)
      Val c = A(0); s->nasserts++;
      if (!c.e) {
        ST.assertsConcrete++;
        if (!(c.c & 1)) fail("assert", cstr(conc(A(1), 64, "msg")));
        break;
      }
      ST.assertsSym++;
      Expr* e = c.e; if (e->w > 1) e = mkNot(mkEq(e, mkConst(0, e->w)));
      if (e->undef) e = defined(e, "asserted value");
      std::vector<uint8_t> m; SS.assertQueries++;
      Res r = pcCheck(s->pc, mkNot(e), m, true);
      if (r == UNSAT) SS.assertUnsat++;
      if (r == UNKNOWN) ST.incomplete++;
      if (r == SAT) {
        report(*s, "assert", cstr(conc(A(1), 64, "msg")), m);
        if (!evalExpr(e, s->pc.model)) { std::vector<uint8_t> m2; if (pcCheck(s->pc, e, m2) != SAT) { ST.endKinds["assert"]++; throw Halt(); } s->pc.model = m2; }
        pcAdd(s->pc, e);
      }
      break; }
    case B_COVER: { std::string l = cstr(conc(A(0), 64, "cover")); if (std::find(s->covers.begin(), s->covers.end(), l) == s->covers.end()) s->covers.push_back(l); break; }
    case B_OBSERVE: {                                    // (ptr, n, label)
      uint64_t p = conc(A(0), 64, "obs"), n = conc(A(1), 64, "obs"); Observation ob; ob.label = cstr(conc(A(2), 64, "obs"));
      if (n) { Obj* o = res(p, n, false, "read (observe)"); for (uint64_t i = 0; i < n; i++) { if (o->sh[addrOff(p) + i] == 1) undefUse("observed value"); ob.bytes.push_back(load(o, addrOff(p) + i, 8)); } }
      s->obs.push_back(ob); break; }
    case B_UNWIND: { uint64_t o = conc(A(0), 64, "throw"); unwind(o); return; }
    case B_FAIL: { uint64_t k = conc(A(0), 64, "k"), m = conc(A(1), 64, "m"); fail(cstr(k), cstr(m)); }
    case B_CONCRETE: { unsigned w = ci.retW[0]; ret.c = conc(A(0), w, "concretise"); break; }
    case B_ISSYM: ret.c = A(0).e != nullptr; break;
    case B_PRINT: { fprintf(stderr, "[posym] %s", cstr(conc(A(0), 64, "p")).c_str()); if (ci.args.size() > 1) { Val v = A(1); if (v.e) fprintf(stderr, " %s", exprStr(v.e).c_str()); else fprintf(stderr, " %lld", (long long)v.c); } fprintf(stderr, "\n"); break; }
    case B_SHARED: {                                     // (on): from here on nothing that exists now may be written
      if (!(conc(A(0), 32, "shared") & 0xffffffff)) { s->frozen.reset(); break; }
      auto v = std::make_shared<std::vector<bool>>(s->mem.nextId, false);
      for (uint32_t i = 0; i < s->mem.nextId; i++) if (Obj* o = s->mem.get(i)) if ((o->kind == K_HEAP || o->kind == K_STACK || o->kind == K_GLOBAL) && !ownGlobals.count(i)) (*v)[i] = true;
      s->frozen = v; break; }
    case B_GUARD: {                                      // (+1 / -1): what is made while a static is initialised is shared
      s->guard += (int)conc(A(0), 32, "guard");
      break; }
    case B_STOP: { ST.stopped++; endPath(s); throw Halt(); }
    case B_MALLOC: {
      uint64_t n = conc(A(0), 64, "malloc size");
      if (n > maxAlloc) fail("memory", "allocation larger than " + std::to_string(maxAlloc) + " bytes");
      if (s->mem.liveHeap > maxHeap) fail("hang", "unbounded memory growth");
      ret.c = s->mem.alloc(n, K_HEAP, true);
      if (s->frozen && s->guard) { auto v = std::make_shared<std::vector<bool>>(*s->frozen); uint32_t id = addrId(ret.c); if (id >= v->size()) v->resize(id + 1, false); (*v)[id] = true; s->frozen = v; }
      break; }
    case B_FREE: freeObj(conc(A(0), 64, "free")); break;
    case B_OBJSIZE: { uint64_t a = conc(A(0), 64, "p"); Obj* o = s->mem.get(addrId(a)); ret.c = o ? o->size : 0; break; }
    case B_MEMCPY: { uint64_t n = conc(A(2), 64, "memcpy size"), d = conc(A(0), 64, "memcpy dst"), sr = conc(A(1), 64, "memcpy src"); copyMem(d, sr, n); ret.c = d; break; }
    case B_MEMSET: {
      uint64_t n = conc(A(2), 64, "memset size"), d = conc(A(0), 64, "memset dst"); Val v = A(1);
      if (n) { Obj* o = res(d, n, true, "write (memset)"); if (!v.e) { memset(o->data + addrOff(d), v.c & 255, n); memset(o->sh + addrOff(d), 0, n); } else { Expr* e = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) setByte(o, addrOff(d) + i, e); } }
      ret.c = d; break; }
    case B_MEMCMP: case B_BCMP: {
      uint64_t n = conc(A(2), 64, "memcmp size"), p = conc(A(0), 64, "memcmp"), q = conc(A(1), 64, "memcmp");
      if (!n) break;
      Obj *x = res(p, n, false, "read (memcmp)"), *y = res(q, n, false, "read (memcmp)");
      uint32_t a = addrOff(p), c = addrOff(q);
      if (shZero(x->sh + a, n) && shZero(y->sh + c, n)) { ret.c = (uint32_t)memcmp(x->data + a, y->data + c, n); break; }
      // first concrete difference bounds the scan
      Expr* r = mkConst(0, 32);
      int64_t last = -1; uint64_t lim = n;
      for (uint64_t i = 0; i < n; i++) if (!x->sh[a + i] && !y->sh[c + i] && x->data[a + i] != y->data[c + i]) { lim = i + 1; break; }
      if (b == B_BCMP) {
        Expr* eq = mkConst(1, 1);
        for (uint64_t i = 0; i < lim; i++) { eq = mkAnd(eq, mkEq(byteE(x, a + i), byteE(y, c + i))); if (eq->op == O_CONST && !eq->c) break; }
        ret = mkV(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
      } else {
        for (int64_t i = lim - 1; i >= 0; i--) {
          Expr *u = byteE(x, a + i), *v = byteE(y, c + i);
          r = mkIte(mkEq(u, v), r, mkIte(mkBin(O_ULT, u, v), mkConst(0xffffffff, 32), mkConst(1, 32)));
        }
        ret = mkV(r);
      }
      break; }
    case B_DYNCAST: {
      uint64_t p = conc(A(0), 64, "dyncast"), dstT = conc(A(2), 64, "dyncast");
      if (!p) break;
      uint64_t vp = rd64(p); int64_t top = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8); uint64_t whole = p + top, o;
      if (upcast(whole, ti, dstT, o)) ret.c = o;
      break; }
    case B_ABORT: fail("abort", "abort() called");
    case B_EXIT: fail("abort", "exit() called");
    case B_ASSERTFAIL: fail("assertfail", "assert failed: " + cstr(conc(A(0), 64, "a")));
    default: fail("unsupported", "builtin");
  }
  if (ci.nret) set(ci.dst, ret);
  afterCall(ci);
}

void Exec::call(CallInfo& ci, DFunc* d) {
  if (d->builtin && !d->defined) { builtin(d->builtin, ci); return; }
  if (!d->defined) fail("unsupported", "call to undefined function " + demangled(d->name));
  if (d->llvmf) decodeFunc(d);
  size_t n = ci.args.size();
  if ((int)n != d->nargs && !(int(n) > d->nargs)) fail("unsupported", "argument count mismatch calling " + d->name);
  Val tmp[32]; std::vector<Val> big; Val* t = tmp; if (n > 32) { big.resize(n); t = big.data(); }
  for (size_t i = 0; i < n; i++) t[i] = get(ci.args[i]);
  std::vector<uint64_t> bv;
  for (auto& b : ci.byval) { uint64_t a = s->mem.alloc(b.second, K_STACK, true); copyMem(a, t[b.first].c, b.second); t[b.first] = {a, nullptr}; bv.push_back(a); }
  pushFrame(d, &ci);
  for (auto a : bv) s->allocas.push_back(a);
  sync();
  for (int i = 0; i < d->nargs; i++) R[i] = t[i];
}

Val Exec::intr(const Inst& in) {
  Val a = get(in.a), b = get(in.b); unsigned w = in.w;
  bool cc = !a.e && !b.e;
  auto E = [&](const Val& v) { return toE(v, w); };
  switch (in.sub) {
    case N_UMAX: if (cc) return {std::max(a.c, b.c), nullptr}; return mkV(mkIte(mkBin(O_ULT, E(a), E(b)), E(b), E(a)));
    case N_UMIN: if (cc) return {std::min(a.c, b.c), nullptr}; return mkV(mkIte(mkBin(O_ULT, E(a), E(b)), E(a), E(b)));
    case N_SMAX: return mkV(mkIte(mkBin(O_SLT, E(a), E(b)), E(b), E(a)));
    case N_SMIN: return mkV(mkIte(mkBin(O_SLT, E(a), E(b)), E(a), E(b)));
    case N_ABS: return mkV(mkIte(mkBin(O_SLT, E(a), mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), E(a)), E(a)));
    case N_USUBSAT: return mkV(mkIte(mkBin(O_ULT, E(a), E(b)), mkConst(0, w), mkBin(O_SUB, E(a), E(b))));
    case N_UADDSAT: { Expr* s2 = mkBin(O_ADD, E(a), E(b)); return mkV(mkIte(mkBin(O_ULT, s2, E(a)), mkConst(~0ull, w), s2)); }
    case N_BSWAP: { Expr* e = E(a); Expr* r = mkExtract(e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); return mkV(r); }
    case N_CTPOP: { Expr* e = E(a); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(e, i, 1), w)); return mkV(r); }
    case N_CTTZ: { Expr* e = E(a); Expr* r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return mkV(r); }
    case N_CTLZ: { Expr* e = E(a); Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return mkV(r); }
    case N_FSHL: case N_FSHR: {
      Val c = get(in.c); if (c.e) fail("unsupported", "symbolic fsh");
      unsigned k = c.c % w; if (k == 0) return in.sub == N_FSHL ? a : b;
      if (in.sub == N_FSHR) k = w - k;
      return mkV(mkBin(O_OR, mkBin(O_SHL, E(a), mkConst(k, w)), mkBin(O_LSHR, E(b), mkConst(w - k, w)))); }
    default: fail("unsupported", "intrinsic");
  }
}

void Exec::run(bool bfs) {
  sync();
  try {
    uint64_t budgetChk = 0;
    for (;;) {
      if (s->instrs >= maxInstrs) fail("hang", "more than " + std::to_string(maxInstrs) + " instructions on one path");
      if ((++budgetChk & 0xfff) == 0 && (stopAll || now() > deadline)) { work.push_back(s); return; }
      size_t before = work.size();
      // run a burst
      for (int k = 0; k < 256; k++) {
        s->instrs++; ST.instrs++;
        step();
        if (!s) return;
        if (bfs && work.size() != before) { work.push_back(s); return; }
      }
    }
  } catch (Halt&) { delete s; s = nullptr; }
}
void Exec::step() {
  Inst& in = f->f->code[f->pc];
  switch (in.op) {
    case I_BIN: {
      const Val &a = get(in.a), &b = get(in.b); unsigned w = in.w;
      if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c, r;
        switch (in.sub) {
          case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
          case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
          case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break;
          case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: if (!y) fail("divzero", "division by zero"); // fallthrough
          default: r = mkBin((Op)in.sub, mkConst(x, w), mkConst(y, w))->c;
        }
        R[in.dst] = {r & maskw(w), nullptr};
      } else {
        Expr* y = toE(b, w);
        if ((in.sub == O_UDIV || in.sub == O_UREM || in.sub == O_SDIV || in.sub == O_SREM)) {
          Expr* z = mkEq(y, mkConst(0, w));
          if (z->op != O_CONST) { if (decide(z, [](State*, bool) {})) fail("divzero", "division by zero"); }
          else if (z->c) fail("divzero", "division by zero");
        }
        R[in.dst] = mkV(mkBin((Op)in.sub, toE(a, w), y));
      }
      f->pc++; return; }
    case I_CMP: {
      const Val &a = get(in.a), &b = get(in.b); unsigned w = in.w;
      if (!a.e && !b.e) {
        bool r;
        switch (in.sub) { case O_EQ: r = a.c == b.c; break; case O_ULT: r = a.c < b.c; break; case O_ULE: r = a.c <= b.c; break; case O_SLT: r = sextw(a.c, w) < sextw(b.c, w); break; default: r = sextw(a.c, w) <= sextw(b.c, w); }
        R[in.dst] = {(uint64_t)(r ^ (bool)in.w2), nullptr};
      } else { Expr* e = mkBin((Op)in.sub, toE(a, w), toE(b, w)); R[in.dst] = mkV(in.w2 ? mkNot(e) : e); }
      f->pc++; return; }
    case I_SELECT: {
      const Val& c = get(in.a);
      if (!c.e) R[in.dst] = get(c.c & 1 ? in.b : in.c);
      else { const Val &a = get(in.b), &b = get(in.c); if (!a.e && !b.e && a.c == b.c) R[in.dst] = a; else R[in.dst] = mkV(mkIte(c.e, toE(a, in.w), toE(b, in.w))); }
      f->pc++; return; }
    case I_ZEXT: { const Val& a = get(in.a); if (!a.e) R[in.dst] = a; else R[in.dst] = mkV(mkZext(a.e, in.w)); f->pc++; return; }
    case I_SEXT: { const Val& a = get(in.a); if (!a.e) R[in.dst] = {(uint64_t)sextw(a.c, in.w2) & maskw(in.w), nullptr}; else R[in.dst] = mkV(mkSext(a.e, in.w)); f->pc++; return; }
    case I_TRUNC: { const Val& a = get(in.a); if (!a.e) R[in.dst] = {a.c & maskw(in.w), nullptr}; else R[in.dst] = mkV(mkExtract(a.e, 0, in.w)); f->pc++; return; }
    case I_MOV: R[in.dst] = get(in.a); f->pc++; return;
    case I_ALLOCA: {
      uint64_t n = conc(get(in.a), in.w, "alloca") * in.imm;
      if (n > maxAlloc) fail("memory", "huge alloca");
      uint64_t a = s->mem.alloc(n, K_STACK, true); s->allocas.push_back(a); R[in.dst] = {a, nullptr}; f->pc++; return; }
    case I_LOAD: { Val v = loadAt(get(in.a), in.imm, in.w); R[in.dst] = v; f->pc++; return; }
    case I_STORE: { uint64_t a = conc(get(in.a), 64, "address") + in.imm; Obj* o = res(a, (in.w + 7) / 8, true, "write", in.sub); store(o, addrOff(a), get(in.b), in.w); f->pc++; return; }
    case I_GEPC: { const Val& a = get(in.a); if (!a.e) R[in.dst] = {a.c + in.imm, nullptr}; else R[in.dst] = mkV(mkBin(O_ADD, a.e, mkConst(in.imm, 64))); f->pc++; return; }
    case I_GEP: {
      Val r = get(in.a);
      if (!r.e) r.c += in.imm; else r = mkV(mkBin(O_ADD, r.e, mkConst(in.imm, 64)));
      for (auto& t : f->f->geps[in.x]) {
        const Val& i = get(t.idx);
        if (!i.e && !r.e) r.c += (uint64_t)sextw(i.c, t.w) * t.scale;
        else { Expr* e = mkBin(O_MUL, mkSext(toE(i, t.w), 64), mkConst(t.scale, 64)); r = mkV(mkBin(O_ADD, toE(r, 64), e)); }
      }
      R[in.dst] = r; f->pc++; return; }
    case I_BR: take(in.x, *f, s); return;
    case I_CBR: {
      const Val& c = get(in.a);
      bool v;
      if (!c.e) v = c.c & 1;
      else { Inst I = in; v = decide(c.e, [&](State* o, bool ov) { take(ov ? I.b : I.c, o->fr.back(), o); }); }
      take(v ? in.b : in.c, *f, s); return; }
    case I_SWITCH: {
      const Val& c = get(in.a); auto& cs = f->f->switches[in.x];
      if (!c.e) { int e = in.b; for (auto& k : cs) if (k.first == c.c) { e = k.second; break; } take(e, *f, s); return; }
      Expr* ce = c.e; if (ce->undef) ce = defined(ce, "switch");
      // successively decide; siblings follow their case edge
      for (auto& k : cs) {
        Expr* q = mkEq(ce, mkConst(k.first, in.w));
        if (q->op == O_CONST) { if (q->c) { take(k.second, *f, s); return; } continue; }
        bool v = evalExpr(q, s->pc.model);
        ST.branches++;
        State* o = forkWith(v ? mkNot(q) : q);
        if (v) { if (o) work.push_back(o); if (o) s->depth++; pcAdd(s->pc, q); take(k.second, *f, s); return; }   // sibling re-executes the switch
        if (o) { take(k.second, o->fr.back(), o); work.push_back(o); s->depth++; }
        pcAdd(s->pc, mkNot(q));
      }
      take(in.b, *f, s); return; }
    case I_RET: {
      const CallInfo* ci = f->ci; auto& vs = f->f->geps[in.x];
      Val tmp[16]; size_t n = in.imm; std::vector<Val> big; Val* t = tmp; if (n > 16) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = get(vs[i].idx);
      popFrame();
      if (s->fr.empty()) { endPath(s); ST.endKinds["return"]++; throw Halt(); }
      sync();
      for (size_t i = 0; i < n && (int)i < ci->nret; i++) R[ci->dst + i] = t[i];
      afterCall(*ci); return; }
    case I_CALL: {
      CallInfo& ci = f->f->calls[in.x]; DFunc* d = ci.direct;
      if (!d) { uint64_t a = conc(get(ci.callee), 64, "call target"); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) fail("memory", "call through invalid function pointer"); d = it->second; }
      call(ci, d); if (s && !s->fr.empty()) sync(); return; }
    case I_UNREACHABLE: fail("unreachable", "reached unreachable code (undefined behaviour)");
    case I_LPAD: R[in.dst] = {s->lpadPtr, nullptr}; R[in.dst + 1] = {(uint64_t)s->lpadSel, nullptr}; f->pc++; return;
    case I_RESUME: {
      uint64_t p = get(in.a).c; popFrame();
      if (s->fr.empty()) fail("terminate", "resume past entry");
      unwind(p); sync(); return; }
    case I_RMW: {
      uint64_t a = conc(get(in.a), 64, "address"); Obj* o = res(a, in.w / 8, true, "write", true); Val old = load(o, addrOff(a), in.w); Val b = get(in.b), nv;
      if (in.sub == 255) nv = b; else if (!old.e && !b.e) nv = mkV(mkBin((Op)in.sub, mkConst(old.c, in.w), mkConst(b.c, in.w))); else nv = mkV(mkBin((Op)in.sub, toE(old, in.w), toE(b, in.w)));
      store(o, addrOff(a), nv, in.w); R[in.dst] = old; f->pc++; return; }
    case I_CMPXCHG: {
      uint64_t a = conc(get(in.a), 64, "address"); Obj* o = res(a, in.w / 8, true, "write", true); Val old = load(o, addrOff(a), in.w); Val c = get(in.b);
      if (old.e || c.e) fail("unsupported", "symbolic cmpxchg");
      if (old.c == c.c) store(o, addrOff(a), get(in.c), in.w);
      R[in.dst] = old; R[in.dst + 1] = {(uint64_t)(old.c == c.c), nullptr}; f->pc++; return; }
    case I_INTR: {
      if (in.sub >= N_UADDO) {
        Val av = get(in.a), bv = get(in.b); unsigned w = in.w; Expr *a = toE(av, w), *b = toE(bv, w), *r, *o;
        switch (in.sub) {
          case N_UADDO: r = mkBin(O_ADD, a, b); o = mkBin(O_ULT, r, a); break;
          case N_USUBO: r = mkBin(O_SUB, a, b); o = mkBin(O_ULT, a, b); break;
          case N_SADDO: case N_SSUBO: {
            r = mkBin(in.sub == N_SADDO ? O_ADD : O_SUB, a, b);
            Expr* sa = mkExtract(a, w - 1, 1); Expr* sb = mkExtract(b, w - 1, 1); Expr* sr = mkExtract(r, w - 1, 1);
            Expr* c1 = in.sub == N_SADDO ? mkEq(sa, sb) : mkNot(mkEq(sa, sb)); o = mkAnd(c1, mkNot(mkEq(sa, sr))); break; }
          default: {
            r = mkBin(O_MUL, a, b);
            if (w <= 32) { Expr* x = in.sub == N_UMULO ? mkZext(a, 64) : mkSext(a, 64); Expr* y = in.sub == N_UMULO ? mkZext(b, 64) : mkSext(b, 64); Expr* p = mkBin(O_MUL, x, y); Expr* rr = in.sub == N_UMULO ? mkZext(r, 64) : mkSext(r, 64); o = mkNot(mkEq(p, rr)); }
            else if (b->op == O_CONST && in.sub == N_UMULO) o = b->c ? mkBin(O_ULT, mkConst(~0ull / b->c, 64), a) : mkConst(0, 1);
            else if (a->op == O_CONST && in.sub == N_UMULO) o = a->c ? mkBin(O_ULT, mkConst(~0ull / a->c, 64), b) : mkConst(0, 1);
            else if (!av.e && !bv.e) { __int128 p = (__int128)(int64_t)av.c * (int64_t)bv.c; o = mkConst(p != (int64_t)p, 1); }
            else fail("unsupported", "symbolic 64-bit mul overflow"); } }
        R[in.dst] = mkV(r); R[in.dst + 1] = mkV(o);
      } else R[in.dst] = intr(in);
      f->pc++; return; }
    case I_MEMCPY: { uint64_t n = conc(get(in.c), 64, "memcpy size"), d = conc(get(in.a), 64, "memcpy dst"), sr = conc(get(in.b), 64, "memcpy src"); copyMem(d, sr, n); f->pc++; return; }
    case I_MEMSET: {
      uint64_t n = conc(get(in.c), 64, "memset size"), d = conc(get(in.a), 64, "memset dst"); Val v = get(in.b);
      if (n) { Obj* o = res(d, n, true, "write (memset)"); if (!v.e) { memset(o->data + addrOff(d), v.c & 255, n); memset(o->sh + addrOff(d), 0, n); } else { Expr* e = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) setByte(o, addrOff(d) + i, e); } }
      f->pc++; return; }
    case I_TYPEID: R[in.dst] = {(uint64_t)typeId(get(in.a).c), nullptr}; f->pc++; return;
    case I_UNSUP: fail("unsupported", f->f->msgs[in.x]);
    case I_FBIN: {
      Val a = get(in.a), b = get(in.b); if (a.e || b.e) fail("unsupported", "symbolic floating point");
      if (in.w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); r = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y; uint64_t o; memcpy(&o, &r, 8); R[in.dst] = {o, nullptr}; }
      else { float x, y, r; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4); r = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y; uint32_t o; memcpy(&o, &r, 4); R[in.dst] = {o, nullptr}; }
      f->pc++; return; }
    case I_FCMP: {
      Val a = get(in.a), b = get(in.b); if (a.e || b.e) fail("unsupported", "symbolic floating point");
      double x, y; if (in.w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float p, q; memcpy(&p, &a.c, 4); memcpy(&q, &b.c, 4); x = p; y = q; }
      bool un = std::isnan(x) || std::isnan(y); bool r = false; unsigned p = in.sub;
      if ((p & 1) && !un && x == y) r = true; if ((p & 2) && !un && x > y) r = true; if ((p & 4) && !un && x < y) r = true; if ((p & 8) && un) r = true;
      R[in.dst] = {r, nullptr}; f->pc++; return; }
    case I_FCVT: {
      Val a = get(in.a); if (a.e) fail("unsupported", "symbolic floating point");
      auto fin = [&](unsigned w) -> double { if (w == 64) { double d; memcpy(&d, &a.c, 8); return d; } float q; memcpy(&q, &a.c, 4); return q; };
      auto fout = [&](double d) -> uint64_t { if (in.w == 64) { uint64_t o; memcpy(&o, &d, 8); return o; } float q = d; uint32_t o; memcpy(&o, &q, 4); return o; };
      uint64_t r = 0;
      switch (in.sub) { case 0: r = fout((double)a.c); break; case 1: r = fout((double)sextw(a.c, in.w2)); break; case 2: r = (uint64_t)fin(in.w2) & maskw(in.w); break; case 3: r = (uint64_t)(int64_t)fin(in.w2) & maskw(in.w); break; case 4: case 5: r = fout(fin(in.w2)); break; default: r = fout(-fin(in.w)); }
      R[in.dst] = {r, nullptr}; f->pc++; return; }
    default: fail("unsupported", "op");
  }
}

// ---------------------------------------------------------------- driver
static void writeOut(const std::string& path, bool timedOut) {
  std::ofstream o(path);
  auto n = [&](const char* k, uint64_t v) { o << jstr(k) << ":" << v << ","; };
  o << "{";
  n("paths", ST.paths); n("forks", ST.forks); n("instrs", ST.instrs); n("branches", ST.branches); n("asserts_concrete", ST.assertsConcrete); n("asserts_symbolic", ST.assertsSym);
  n("assume_killed", ST.assumeKilled); n("unsupported", ST.unsupported); n("incomplete", ST.incomplete); n("uninit", ST.uninit); n("max_depth", ST.maxDepth); n("stopped", ST.stopped);
  n("z3_queries", SS.z3Queries); n("z3_sat", SS.z3Sat); n("z3_unsat", SS.z3Unsat); n("z3_unknown", SS.z3Unknown); n("dom_queries", SS.domQueries); n("cache_hits", SS.cacheHits);
  n("assert_queries", SS.assertQueries); n("assert_unsat", SS.assertUnsat); n("domain_xchecks", SS.xchecks); n("pending", work.size()); n("timed_out", timedOut); n("exprs", exprCount());
  o << "\"z3_time\":" << SS.z3Time << ",";
  auto mp = [&](const char* k, std::map<std::string, uint64_t>& m) { o << jstr(k) << ":{"; bool f = true; for (auto& x : m) { if (!f) o << ","; f = false; o << jstr(x.first) << ":" << x.second; } o << "},"; };
  mp("covers", ST.covers); mp("unsup_msgs", ST.unsupMsgs); mp("ends", ST.endKinds);
  mp("in_bytes", ST.inBytes); mp("in_count", ST.inCount); mp("in_choices", ST.inChoices);
  o << "\"functions\":["; bool f = true;
  for (auto& x : funcByName) if (x.second->touched) { if (!f) o << ","; f = false; o << jstr(x.first); }
  o << "],\"events\":["; f = true;
  for (auto& e : events) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(e.second.kind) << ",\"msg\":" << jstr(e.second.msg) << ",\"where\":" << jstr(e.second.where) << ",\"count\":" << e.second.kindCount << ",\"inputs\":" << e.second.inputs << ",\"obs\":" << e.second.obs << "}"; }
  o << "],\"samples\":["; f = true;
  auto sm = [&](const Sample& s) { if (!f) o << ","; f = false; o << "{\"inputs\":" << s.inputs << ",\"obs\":" << s.obs << ",\"covers\":" << s.covers << "}"; };
  for (auto& s : samples) sm(s);
  o << "],\"cover_samples\":["; f = true;
  std::set<std::string> seen;
  for (auto& s : coverSamples) if (seen.insert(s.second.inputs).second) sm(s.second);
  o << "],\"unsup_samples\":["; f = true;
  for (auto& s : unsupSamples) sm(s);
  o << "]}\n";
}
static void initState(State* s) {
  // run constructors
  for (auto d : globalCtors) {
    Exec x; x.s = s; x.pushFrame(d, nullptr); x.sync();
    try { for (;;) { s->instrs++; x.step(); } } catch (Halt&) { }
    if (!s->fr.empty()) { fprintf(stderr, "posym: static constructor %s failed\n", d->name.c_str()); for (auto& m : ST.unsupMsgs) fprintf(stderr, "  %s\n", m.first.c_str()); for (auto& e : events) fprintf(stderr, "  event %s %s @ %s\n", e.second.kind.c_str(), e.second.msg.c_str(), e.second.where.c_str()); exit(3); }
  }
  ST = Stats(); events.clear(); samples.clear(); coverSamples.clear(); unsupSamples.clear(); sampleSeen = 0;
  s->instrs = 0;
}
int main(int argc, char** argv) {
  std::string bc, out = "out.json"; int workers = 8; double budget = 60; size_t split = 400;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = v(); else if (a == "--out") out = v(); else if (a == "--workers") workers = atoi(v().c_str());
    else if (a == "--budget") budget = atof(v().c_str()); else if (a == "--seed") seed = atoi(v().c_str()); else if (a == "--max-instrs") maxInstrs = atoll(v().c_str());
    else if (a == "--samples") nsamplesWanted = atoi(v().c_str()); else if (a == "--split") split = atoi(v().c_str());
    else if (a == "--own") { std::ifstream f(v()); std::string n; while (f >> n) ownNames.insert(n); }
    else bc = a;
  }
  tStart = now(); deadline = tStart + budget; rng.seed(seed);
  solverInit();
  State* s = new State;
  loadModule(bc.c_str(), s->mem);
  initState(s);
  auto it = funcByName.find(entryName);
  if (it == funcByName.end() || !it->second->defined) { fprintf(stderr, "posym: no entry %s\n", entryName.c_str()); return 2; }
  { Exec x; x.s = s; x.pushFrame(it->second, nullptr); }
  work.push_back(s);
  unsigned wantTotal = nsamplesWanted;
  if (workers > 1) {
    while (!work.empty() && work.size() < split && !stopAll && now() < deadline && !(work.size() >= 3u * workers && now() > tStart + 2)) { State* t = work.front(); work.pop_front(); Exec x; x.s = t; x.run(true); }
  }
  if (workers <= 1 || work.empty() || stopAll || now() >= deadline) {
    while (!work.empty() && !stopAll && now() < deadline) { State* t = work.back(); work.pop_back(); Exec x; x.s = t; x.run(false); }
    writeOut(out + ".0", !work.empty() && !stopAll);
    printf("1\n");
    _exit(0);
  }
  // parallel phase: shuffle pending states, workers take them by shared index
  std::vector<State*> pend(work.begin(), work.end()); work.clear();
  std::shuffle(pend.begin(), pend.end(), rng);
  auto* idx = (std::atomic<uint32_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (idx) std::atomic<uint32_t>(0);
  auto* stopFlag = new (idx + 64) std::atomic<uint32_t>(0);
  writeOut(out + ".0", false);
  ST = Stats(); SS = SolverStats(); events.clear(); samples.clear(); coverSamples.clear(); unsupSamples.clear(); sampleSeen = 0;
  for (auto& x : funcByName) x.second->touched = false;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      rng.seed(seed * 1000 + w); nsamplesWanted = std::max(2u, wantTotal / workers);
      size_t myPending = 0;
      for (;;) {
        uint32_t i = idx->fetch_add(1);
        if (i >= pend.size()) break;
        if (stopAll || now() >= deadline) { work.push_back(pend[i]); continue; }
        size_t base = work.size();
        work.push_back(pend[i]);
        while (work.size() > base && !stopAll && now() < deadline) { State* t = work.back(); work.pop_back(); Exec x; x.s = t; x.run(false); }
        if (stopAll) stopFlag->store(1);
        if (stopFlag->load()) stopAll = true;
      }
      writeOut(out + "." + std::to_string(w + 1), !work.empty() && !stopAll);
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  printf("%d%s\n", workers + 1, bad ? " BAD" : "");
  return bad ? 4 : 0;
}
