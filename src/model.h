// The monitored manager: a CAL manager together with its reference model.
#pragma once
#include "rt.h"
#include "tt.h"
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "cal.h"
#include "calVerif.h"
}

typedef Cal_Bdd Bdd;
static inline uintptr_t bits(Bdd b) { return (uintptr_t)b; }
static inline Bdd regular(Bdd b) { return (Bdd)(bits(b) & ~(uintptr_t)1); }

struct Slot { Bdd h; TT f; };

struct AssocModel {
  int refs = 0;
  std::map<int, TT> bind; // variable id -> function (one for plain variable lists)
  bool operator==(const AssocModel &o) const { return bind == o.bind; }
};

struct HeldRef { long count = 0; TT f; };

// Everything observable a session logs, to compare executions with each other
struct Log {
  std::vector<uint64_t> v;
  std::vector<std::string> what;
  bool cut = false; // nodes are locked: from here on sizes and orders may depend on addresses
  void add(const char *w, uint64_t x) { if (!cut) { v.push_back(x); what.push_back(w); } }
};

struct Ctx {
  Cal_BddManager m = nullptr;
  int universe;                 // number of TT variables that exist at most
  std::vector<int> ttOf;        // id -> TT variable, -1 for variables outside the reference (index 0 unused)
  std::vector<int> idOf;        // TT variable -> id
  std::vector<Bdd> varH;        // TT variable -> held handle
  std::vector<Bdd> dummyH;      // handles of the other variables
  std::vector<int> order;       // ids by index
  std::vector<Slot> slots;
  std::unordered_map<uintptr_t, HeldRef> held;      // regular handle -> references we hold
  std::unordered_map<TT, Bdd, TTHash> canon;        // canonical TT -> handle
  std::map<int, AssocModel> assoc;                  // named associations
  AssocModel temp;
  int current = -1;
  bool dynamic = false;         // automatic reordering may happen
  bool limited = false;         // operations may overflow
  long limit = 0;
  bool gcOff = false;
  bool pipelineBusy = false;    // provisional nodes exist
  bool deep = true;             // full truth-table walk of each result
  long lastReorderings = 0, lastGCs = 0;
  long baseLive = 0;
  std::string tag;
  Rng chk{99};                  // randomness of the monitors (not of the workload)
  Log *log = nullptr;
  long opsDone = 0, checksDone = 0;
  uint64_t sig = 1469598103934665603ULL;
  long saturated = 0;           // some handle had 255 references: it can never be reclaimed

  void note(uint64_t x) { sig ^= x; sig *= 1099511628211ULL; }
  Bdd one() { return Cal_BddOne(m); }
  int nvars() { return (int)ttOf.size() - 1; }
  int nfun() { return (int)idOf.size(); } // TT variables that exist

  // ------------------------------------------------------------ observation
  TT nodeTT(CalVerifEdge_t e, std::unordered_map<uintptr_t, TT> &memo) {
    if (CalVerifIsOne(m, e)) return TT(true);
    if (CalVerifIsZero(m, e)) return TT(false);
    uintptr_t reg = (uintptr_t)e.node & ~(uintptr_t)1;
    bool neg = (uintptr_t)e.node & 1;
    auto it = memo.find(reg);
    if (it == memo.end()) {
      CalVerifEdge_t r = e, t, el;
      r.node = (void *)reg;
      if (e.id < 1 || e.id >= ttOf.size()) VIOL("walk", "edge with impossible variable id %d", (int)e.id);
      int k = ttOf[e.id];
      if (k < 0) VIOL("wrong-function", "result contains unrelated variable id %d", (int)e.id);
      CalVerifExpand(r, &t, &el);
      long i0 = CalVerifIdToIndex(m, e.id);
      for (CalVerifEdge_t c : {t, el})
        if (!CalVerifIsOne(m, c) && !CalVerifIsZero(m, c)) {
          if (c.id < 1 || c.id >= ttOf.size()) VIOL("walk", "edge to impossible variable id %d", (int)c.id);
          if (CalVerifIdToIndex(m, c.id) <= i0) VIOL("not-ordered", "id %d above id %d", (int)e.id, (int)c.id);
        }
      if (memo.size() > 2000000) VIOL("walk", "diagram does not end");
      TT v = TT::ite(TT::var(k), nodeTT(t, memo), nodeTT(el, memo));
      it = memo.emplace(reg, std::move(v)).first;
    }
    return neg ? ~it->second : it->second;
  }
  TT ttOfHandle(Bdd b) {
    std::unordered_map<uintptr_t, TT> memo;
    return nodeTT(CalVerifRoot(m, b), memo);
  }
  bool evalHandle(Bdd b, uint64_t val) {
    CalVerifEdge_t e = CalVerifRoot(m, b);
    for (int steps = 0;; steps++) {
      if (CalVerifIsOne(m, e)) return true;
      if (CalVerifIsZero(m, e)) return false;
      if (e.id < 1 || e.id >= ttOf.size() || ttOf[e.id] < 0 || steps > 4000)
        VIOL("wrong-function", "bad variable id %d on a path", (int)e.id);
      CalVerifEdge_t t, el;
      CalVerifExpand(e, &t, &el);
      e = ((val >> ttOf[e.id]) & 1) ? t : el;
    }
  }
  void checkFunction(Bdd b, const TT &exp, const char *what) {
    checksDone++;
    if (deep) {
      TT got = ttOfHandle(b);
      if (got != exp)
        VIOL("wrong-function", "%s: %s denotes %016lx, expected %016lx (word 0; popcounts %ld/%ld)", tag.c_str(), what,
             (unsigned long)got.w[0], (unsigned long)exp.w[0], got.popcount(), exp.popcount());
    } else {
      for (int i = 0; i < 64; i++) {
        uint64_t v = chk.next() & ((1ULL << universe) - 1);
        if (evalHandle(b, v) != exp.bit(v)) VIOL("wrong-function", "%s: %s differs at valuation %lx", tag.c_str(), what, (unsigned long)v);
      }
    }
  }
  void checkOrder(bool mayChange) {
    long n = Cal_BddVars(m);
    if (n != nvars()) VIOL("order", "%s: %ld variables, expected %d", tag.c_str(), n, nvars());
    long r = CalVerifNumReorderings(m);
    bool reordered = r != lastReorderings;
    lastReorderings = r;
    if (reordered) {
      rt::count("reorderings");
      if (!mayChange && !dynamic) VIOL("unexpected-reordering", "%s: the order was changed although reordering is off", tag.c_str());
      readOrder();
    } else {
      for (int i = 0; i < nvars(); i++)
        if (CalVerifIndexToId(m, i) != order[i])
          VIOL("order", "%s: index %d holds id %ld, expected %d", tag.c_str(), i, CalVerifIndexToId(m, i), order[i]);
    }
    for (int i = 0; i < nvars(); i++)
      if (CalVerifIdToIndex(m, order[i]) != i) VIOL("order", "%s: id %d has index %ld, expected %d", tag.c_str(), order[i], CalVerifIdToIndex(m, order[i]), i);
  }
  void readOrder() {
    std::vector<int> o(nvars());
    std::vector<char> seen(nvars() + 1, 0);
    for (int i = 0; i < nvars(); i++) {
      o[i] = (int)CalVerifIndexToId(m, i);
      if (o[i] < 1 || o[i] > nvars() || seen[o[i]]) VIOL("order", "%s: not a permutation at index %d (id %d)", tag.c_str(), i, o[i]);
      seen[o[i]] = 1;
    }
    order = o;
  }
  int indexOfTT(int k) { return (int)CalVerifIdToIndex(m, idOf[k]); }
  // TT variables in the current order, top first
  std::vector<int> ttOrder() {
    std::vector<int> r;
    for (int id : order) if (ttOf[id] >= 0) r.push_back(ttOf[id]);
    return r;
  }

  // ------------------------------------------------------------ references
  static bool polarity(const TT &f) { return f.w[0] & 1; }
  void take(Bdd h, const TT &f) { // one more reference is held on h, which denotes f
    if (f.isConst()) {
      Bdd c = f.isOne() ? Cal_BddOne(m) : Cal_BddZero(m);
      if (h != c) VIOL("canonicity", "%s: a constant function has a handle other than the constant", tag.c_str());
      return;
    }
    Bdd r = regular(h);
    bool neg = bits(h) & 1;
    TT rf = neg ? ~f : f;
    HeldRef &hr = held[bits(r)];
    if (hr.count == 0) hr.f = rf;
    else if (hr.f != rf) VIOL("canonicity", "%s: a handle in use was returned for another function", tag.c_str());
    hr.count++;
    if (hr.count >= 255) saturated = 1;
    TT c = polarity(f) ? ~f : f;
    Bdd ch = polarity(f) ? (Bdd)(bits(h) ^ 1) : h;
    auto it = canon.find(c);
    if (it == canon.end()) canon.emplace(c, ch);
    else if (it->second != ch) VIOL("canonicity", "%s: one function has two different handles", tag.c_str());
    checkRef(r);
  }
  void dropModel(Bdd h) {
    Bdd r = regular(h);
    if (r == regular(Cal_BddOne(m))) return;
    auto it = held.find(bits(r));
    if (it == held.end()) VIOL("harness", "drop of a handle which is not held");
    if (--it->second.count == 0) {
      TT f = it->second.f;
      canon.erase(polarity(f) ? ~f : f);
      held.erase(it);
    }
  }
  void checkRef(Bdd h) {
    Bdd r = regular(h);
    if (r == regular(Cal_BddOne(m))) return;
    int have = CalVerifHandleRefCount(r);
    if (have >= 255) { return; }
    auto it = held.find(bits(r));
    long want = it == held.end() ? 0 : it->second.count;
    if (have != want) VIOL("refcount", "%s: handle has reference count %d, %ld references are held", tag.c_str(), have, want);
  }
  void release(Bdd h) {
    rt::inOp = "Cal_BddFree";
    Cal_BddFree(m, h);
    dropModel(h);
    if (held.count(bits(regular(h)))) checkRef(h);
  }
  void freeSlot(int i) {
    release(slots[i].h);
    slots[i] = slots.back();
    slots.pop_back();
  }

  // ------------------------------------------------------------ life cycle
  void open(int universe_, const char *tag_) {
    tag = tag_;
    universe = universe_;
    baseLive = rt::liveBlocks();
    rt::inOp = "Cal_BddManagerInit";
    m = Cal_BddManagerInit();
    if (!m) VIOL("init", "manager is null");
    ttOf.assign(1, -1);
    idOf.clear(); varH.clear(); dummyH.clear(); order.clear(); slots.clear(); held.clear(); canon.clear();
    assoc.clear(); temp = AssocModel(); current = -1;
    dynamic = limited = gcOff = pipelineBusy = false;
    lastReorderings = lastGCs = 0;
    saturated = 0;
  }
  // registers a just created variable
  void registerVar(Bdd h, int index, bool dummy) {
    int id = nvars() + 1;
    if (!h) VIOL("newvar", "creating a variable returned null");
    order.insert(order.begin() + index, id);
    ttOf.push_back(-1);
    if (dummy) {
      dummyH.push_back(h);
    } else {
      int k = nfun();
      ttOf[id] = k;
      idOf.push_back(id);
      varH.push_back(h);
      take(h, TT::var(k));
    }
    checkOrder(false);
    if (Cal_BddGetIfId(m, h) != id) VIOL("newvar", "new variable has id %d, expected %d", (int)Cal_BddGetIfId(m, h), id);
    int seen = Cal_BddGetIfIndex(m, h);
    if (dynamic) { // asking may have reordered the variables
      checkOrder(false);
      for (int i = 0; i < nvars(); i++) if (order[i] == id) index = i;
    }
    if (seen != index) VIOL("newvar", "new variable has index %d, expected %d", seen, index);
  }
  void newVarFast() { // an unrelated variable at a random place, checked only together with the others
    int n = nvars(), index = chk.chance(50) ? n : chk.below(n + 1);
    Bdd h;
    if (index == n) h = Cal_BddManagerCreateNewVarLast(m);
    else if (index == 0) h = Cal_BddManagerCreateNewVarFirst(m);
    else {
      Bdd o = Cal_BddManagerGetVarWithIndex(m, (Cal_BddIndex_t)index);
      h = Cal_BddManagerCreateNewVarBefore(m, o);
      Cal_BddFree(m, o);
    }
    if (!h) VIOL("newvar", "creating a variable returned null");
    order.insert(order.begin() + index, n + 1);
    ttOf.push_back(-1);
    dummyH.push_back(h);
  }
  Bdd createVar(int how, Bdd other, int otherIndex, bool dummy) { // 0 first, 1 last, 2 before, 3 after
    Bdd h;
    int index;
    rt::inOp = "Cal_BddManagerCreateNewVar";
    rt::tr("%s newvar how=%d at=%d dummy=%d", tag.c_str(), how, otherIndex, dummy);
    switch (how) {
    case 0: h = Cal_BddManagerCreateNewVarFirst(m); index = 0; break;
    case 1: h = Cal_BddManagerCreateNewVarLast(m); index = nvars(); break;
    case 2: h = Cal_BddManagerCreateNewVarBefore(m, other); index = otherIndex < 0 ? nvars() : otherIndex; break;
    default: h = Cal_BddManagerCreateNewVarAfter(m, other); index = otherIndex < 0 ? nvars() : otherIndex + 1; break;
    }
    registerVar(h, index, dummy);
    return h;
  }

  // ------------------------------------------------------------ global checks
  void checkStructure(const char *when) {
    char buf[400];
    rt::inOp = "structure check";
    if (!CalVerifCheckStructure(m, buf, sizeof buf)) VIOL("structure", "%s: after %s: %s", tag.c_str(), when, buf);
    rt::count("structure_checks");
  }
  void checkAll(const char *when) {
    rt::count("full_checks");
    checkOrder(false);
    for (auto &s : slots) { checkFunction(s.h, s.f, when); checkRef(s.h); }
    for (int k = 0; k < nfun(); k++) { checkFunction(varH[k], TT::var(k), "variable"); }
    for (size_t i = 0; i < slots.size(); i++) { // pairwise equality through the interface, sampled
      const Slot &a = slots[i], &b = slots[chk.below((int)slots.size())];
      int eq = Cal_BddIsEqual(m, a.h, b.h);
      if ((eq != 0) != (a.f == b.f)) VIOL("canonicity", "%s: IsEqual gives %d for %s functions", tag.c_str(), eq, a.f == b.f ? "equal" : "different");
      if ((Cal_BddIsBddOne(m, a.h) != 0) != a.f.isOne() || (Cal_BddIsBddZero(m, a.h) != 0) != a.f.isZero() ||
          (Cal_BddIsBddConst(m, a.h) != 0) != a.f.isConst() || Cal_BddIsBddNull(m, a.h))
        VIOL("canonicity", "%s: a constant test is wrong", tag.c_str());
    }
    checkStructure(when);
  }
  // model of the functions associations protect
  void gcExplicit() {
    rt::tr("%s gc", tag.c_str());
    rt::inOp = "Cal_BddManagerGC";
    Cal_BddManagerGC(m);
    rt::count("explicit_gc");
    rt::inOp = "";
    long garbage = CalVerifNumGarbage(m);
    if (garbage && !pipelineBusy) VIOL("incomplete-gc", "%s: %ld unreachable nodes survive a collection", tag.c_str(), garbage);
  }
  void close(bool graceful) {
    if (graceful) {
      rt::tr("%s close", tag.c_str());
      checkAll("end of session");
      while (!slots.empty()) freeSlot((int)slots.size() - 1);
      for (auto &p : assoc) for (int i = 0; i < p.second.refs; i++) Cal_AssociationQuit(m, p.first);
      assoc.clear();
      Cal_TempAssociationQuit(m);
      for (Bdd h : varH) release(h);
      for (Bdd h : dummyH) Cal_BddFree(m, h);
      if (!held.empty()) VIOL("harness", "references left at the end");
      gcExplicit();
      checkStructure("final collection");
      long n = (long)Cal_BddManagerGetNumNodes(m), sat = CalVerifNumSaturated(m);
      if (n != nvars() + 1 && sat == 0)
        VIOL("leaked-nodes", "%s: %ld nodes remain after freeing everything, expected %d", tag.c_str(), n, nvars() + 1);
      if (sat == 0 && !saturated) {
        long hs = CalVerifNumHandles(m);
        if (hs != 1) VIOL("leaked-handles", "%s: %ld handles remain after freeing everything", tag.c_str(), hs - 1);
      }
    }
    rt::inOp = "Cal_BddManagerQuit";
    Cal_BddManagerQuit(m);
    m = nullptr;
    if (rt::liveBlocks() != baseLive && !sharedLife)
      VIOL("leak", "%s: %ld allocations survive Cal_BddManagerQuit", tag.c_str(), rt::liveBlocks() - baseLive);
  }
  bool sharedLife = false; // another manager is alive: cannot attribute allocations
};
