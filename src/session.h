// Random sessions on a monitored manager: operations, their reference
// semantics, and the monitors around each of them.
#pragma once
#include "model.h"
#include <cmath>

extern "C" void __real_free(void *);

struct Arg { Bdd h; TT f; bool owned; };

struct Cfg {
  int universe = 6, init = 5, dummies = 0, maxSlots = 16;
  bool allowReorder = true, allowDynamic = true, allowLimits = false, allowVarCreation = true, nonRepeatable = true;
};

// Thresholds of the library for this case. Constant while managers live.
static inline void setTunables(Rng &r, bool hostile) {
  calVerifMinGCLimit = 10000;
  calVerifGCCheck = 100;
  calVerifNumPagesThreshold = 3;
  calVerifLargeBdd = 1 << 19;
  calVerifHashSizeIndex = 8;
  calVerifCacheSizeIndex = 16;
  if (!hostile) return;
  if (r.chance(75)) calVerifMinGCLimit = r.chance(50) ? r.range(10, 120) : r.range(100, 1500);
  if (r.chance(70)) calVerifGCCheck = r.chance(40) ? 1 : r.range(1, 30); // see DESIGN.md: 0 would allow a collection within a query
  if (r.chance(50)) calVerifNumPagesThreshold = r.range(0, 3);
  if (r.chance(40)) calVerifLargeBdd = r.chance(50) ? 0 : r.range(10, 300);
  if (r.chance(60)) calVerifHashSizeIndex = r.range(1, 6);
  if (r.chance(70)) calVerifCacheSizeIndex = r.chance(50) ? r.range(2, 5) : r.range(6, 10);
}

struct Session;
struct OpDef { const char *name; void (Session::*fn)(); };

// distinct subfunctions, the reference for everything that counts nodes
struct SubFun {
  std::vector<int> ord;
  std::vector<std::unordered_set<TT, TTHash>> posLevels; // canonical up to complement, per level of ord
  std::vector<std::unordered_set<TT, TTHash>> funLevels; // as functions
  std::unordered_set<TT, TTHash> seen;                   // functions visited
  bool one = false, zero = false;
  explicit SubFun(const std::vector<int> &o) : ord(o), posLevels(o.size()), funLevels(o.size()) {}
  void add(const TT &f, size_t from = 0) {
    if (f.isOne()) { one = true; return; }
    if (f.isZero()) { zero = true; return; }
    if (!seen.insert(f).second) return;
    size_t i = from;
    while (!f.dependsOn(ord[i])) i++;
    funLevels[i].insert(f);
    posLevels[i].insert(Ctx::polarity(f) ? ~f : f);
    add(f.cof(ord[i], true), i + 1);
    add(f.cof(ord[i], false), i + 1);
  }
  long nodes() const { long n = 0; for (auto &l : posLevels) n += (long)l.size(); return n; }
};

struct Session : Ctx {
  Rng rng;
  Cfg cfg;
  std::vector<std::pair<const OpDef *, int>> ops;
  int totalWeight = 0;
  std::vector<Arg> argsUsed;   // arguments of the operation under way
  const char *curOp = "";
  bool limitChecked = false;   // the operation promises to observe the node limit
  int nonNull = 0, nullResults = 0;
  long regimeEvents = 0;
  std::set<std::string> opKinds;

  explicit Session(uint64_t seed) : rng(seed) { chk = Rng(seed ^ 0xABCDEF); }

  // ---------------------------------------------------------------- set-up
  void setup(const Cfg &c, const char *tag_) {
    cfg = c;
    TT::W = std::max(c.universe, 6);
    open(TT::W, tag_);
    deep = TT::W <= 10;
    int nd = c.dummies;
    int todo = c.init;
    while (todo > 0 || nd > 0) {
      bool d = nd > 0 && (todo == 0 || rng.chance(nd * 100 / (nd + todo)));
      newVarRandom(d);
      if (d) nd--; else todo--;
    }
  }
  void newVarRandom(bool dummy) {
    int n = nvars();
    if (n >= 65534) return; // no identifier left: creating another is documented to be fatal
    int how = n == 0 ? rng.below(2) : rng.below(4);
    Bdd other = nullptr;
    int at = -1;
    if (how >= 2) {
      // relative to the top variable of any BDD
      if (!slots.empty() && rng.chance(30)) {
        const Slot &s = slots[rng.below((int)slots.size())];
        other = s.h;
        at = topIndex(s.f);
      } else if (nfun() > 0) {
        int k = rng.below(nfun());
        other = varH[k];
        at = indexOfTT(k);
      } else {
        other = rng.chance(50) ? Cal_BddOne(m) : Cal_BddZero(m);
        at = -1;
      }
    }
    createVar(how, other, at, dummy);
  }
  int topIndex(const TT &f) { // index of the top variable, -1 for constants
    for (int i = 0; i < nvars(); i++)
      if (ttOf[order[i]] >= 0 && f.dependsOn(ttOf[order[i]])) return i;
    return -1;
  }
  void use(const std::string &spec);
  void step();

  // ---------------------------------------------------------------- arguments
  Arg arg(int constPct = 4) {
    Arg a;
    a.owned = false;
    int p = rng.below(100);
    if (p < constPct) {
      bool v = rng.chance(50);
      a.h = v ? Cal_BddOne(m) : Cal_BddZero(m);
      a.f = TT(v);
    } else if (slots.empty() || p < 22) {
      int k = rng.below(nfun());
      a.h = varH[k];
      a.f = TT::var(k);
    } else if (!argsUsed.empty() && p < 28) {
      const Arg &b = argsUsed[rng.below((int)argsUsed.size())];
      a.h = b.h; a.f = b.f;
    } else {
      const Slot &s = slots[rng.below((int)slots.size())];
      a.h = s.h; a.f = s.f;
    }
    if (rng.chance(25)) complement(a);
    argsUsed.push_back(a);
    return a;
  }
  void complement(Arg &a) {
    rt::inOp = "Cal_BddNot";
    Bdd n = Cal_BddNot(m, a.h);
    TT nf = ~a.f;
    if (!n || (bits(n) != (bits(a.h) ^ 1))) {
      if (!n) VIOL("wrong-function", "Not returned null");
      checkFunction(n, nf, "Not");
    }
    take(n, nf);
    a.h = n; a.f = nf; a.owned = true;
  }
  Arg argVar() {
    int k = rng.below(nfun());
    Arg a{varH[k], TT::var(k), false};
    argsUsed.push_back(a);
    return a;
  }
  int ttVarOf(const TT &f) { for (int k = 0; k < nfun(); k++) if (f == TT::var(k)) return k; return -1; }
  void doneArgs() {
    for (auto &a : argsUsed) if (a.owned) release(a.h);
    argsUsed.clear();
  }

  // ---------------------------------------------------------------- results
  void begin(const char *name) {
    curOp = name;
    rt::inOp = name;
    rt::clearErr();
    stats.peak = std::max(stats.peak, (long)Cal_BddManagerGetNumNodes(m));
    if (limited) {
      (void)Cal_BddOverflow(m); // earlier operations may have met the limit
      nodesBefore = (long)Cal_BddManagerGetNumNodes(m);
    }
  }
  long nodesBefore = 0;
  bool fallbackUnknown = false; // the result that did not fit is not known exactly
  std::string showArgs() {
    std::string s;
    char b[64];
    for (size_t i = 0; i < argsUsed.size() && i < 8; i++) {
      snprintf(b, sizeof b, " %lx", (unsigned long)argsUsed[i].f.w[0]);
      s += b;
    }
    return s;
  }
  void expectQuiet() {
    fflush(stderr);
    if (rt::warningCount) {
      if (limited && rt::lastErr.find("Node Limit") != std::string::npos) return;
      VIOL("warning", "%s: unexpected message during %s: %s", tag.c_str(), curOp, rt::lastErr.c_str());
    }
  }
  int sizeOracle = 0;    // how often (percent) explicit reordering is judged by the sizes before and after
  bool improveOracle = true;
  // nodes needed for everything that is held, with the variables (ids) in this order
  SubFun subFunctions(const std::vector<int> &ids) {
    std::vector<int> t;
    for (int id : ids) if (ttOf[id] >= 0) t.push_back(ttOf[id]);
    SubFun s(t);
    for (auto &p : held) s.add(p.second.f);
    for (int k = 0; k < nfun(); k++) s.add(TT::var(k));
    for (auto &p : assoc) for (auto &b : p.second.bind) s.add(b.second);
    for (auto &b : temp.bind) s.add(b.second);
    return s;
  }
  long sizeUnder(const std::vector<int> &ids) { return subFunctions(ids).nodes() + (nvars() - nfun()) + 1; }
  // Is there a strictly better place for the variable at i, the sizes on the way staying moderate?
  bool betterPlace(const std::vector<int> &ids, int i, long size) {
    for (int d = -1; d <= 1; d += 2) {
      std::vector<int> o = ids;
      for (int j = i; j + d >= 0 && j + d < (int)o.size(); j += d) {
        std::swap(o[j], o[j + d]);
        long z = sizeUnder(o);
        if (z < size) return true;
        if (2 * z > 3 * size) break;
      }
    }
    return false;
  }
  // Must the technique find something smaller?
  bool improvable(const std::vector<int> &ids, int tech, long size) {
    int n = (int)ids.size();
    if (tech == CAL_REORDER_WINDOW) { // any arrangement of the topmost three
      std::vector<int> o = ids;
      int w = std::min(3, n);
      std::sort(o.begin(), o.begin() + w);
      do { if (sizeUnder(o) < size) return true; } while (std::next_permutation(o.begin(), o.begin() + w));
      return false;
    }
    // sifting begins with a variable with the most nodes
    SubFun s = subFunctions(ids);
    std::vector<long> w;
    size_t q = 0;
    for (int id : ids) w.push_back(ttOf[id] >= 0 ? (long)s.posLevels[q++].size() : 1);
    long most = *std::max_element(w.begin(), w.end());
    for (int i = 0; i < n; i++) if (w[i] == most && !betterPlace(ids, i, size)) return false;
    return true;
  }
  long liveNodes(const TT *extra) { // nodes needed for everything that is held
    SubFun s(ttOrder());
    for (auto &p : held) s.add(p.second.f);
    for (int k = 0; k < nfun(); k++) s.add(TT::var(k));
    for (auto &p : assoc) for (auto &b : p.second.bind) s.add(b.second);
    for (auto &b : temp.bind) s.add(b.second);
    if (extra) s.add(*extra);
    return s.nodes() + (nvars() - nfun()) + 1;
  }
  // Receives the result of an operation; returns its slot or -1
  int result(Bdd r, const TT &exp, bool keep = true) {
    opsDone++;
    rt::count("ops_checked");
    opKinds.insert(curOp);
    expectQuiet();
    afterOp();
    if (!r) {
      if (!limited) VIOL("null-result", "%s: %s returned null (args%s)", tag.c_str(), curOp, showArgs().c_str());
      nullResults++;
      overflowed(fallbackUnknown ? nullptr : &exp);
      note(0xdead);
      if (log) log->add(curOp, 0);
      return -1;
    }
    nonNull++;
    checkFunction(r, exp, curOp);
    take(r, exp);
    note(exp.hash());
    if (log) log->add(curOp, exp.hash());
    if (limited) {
      if (limitChecked && calVerifGCCheck == 0 && deep && limit && CalVerifNumSaturated(m) == 0 && !gcOff) {
        long need = liveNodes(nullptr);
        if (need > limit) VIOL("limit-ignored", "%s: %s returned a BDD although %ld nodes are needed with limit %ld", tag.c_str(), curOp, need, limit);
      }
      int o = Cal_BddOverflow(m);
      if (limitChecked && calVerifGCCheck == 0 && nodesBefore <= limit && o) VIOL("overflow-flag", "%s: %s returned a BDD but the overflow indicator is set", tag.c_str(), curOp);
    }
    for (auto &a : argsUsed)
      if (chk.chance(30)) checkFunction(a.h, a.f, "operand after the operation");
    int idx = -1;
    if (keep) {
      slots.push_back({r, exp});
      idx = (int)slots.size() - 1;
    } else release(r);
    limitChecked = false;
    return idx;
  }
  void overflowed(const TT *exp) {
    rt::count("overflows");
    int o = Cal_BddOverflow(m);
    if (o != 1) VIOL("overflow-flag", "%s: %s returned null but the overflow indicator reads %d", tag.c_str(), curOp, o);
    o = Cal_BddOverflow(m);
    if (o != 0) VIOL("overflow-flag", "%s: the overflow indicator was not cleared by reading it", tag.c_str());
    if (exp && deep && CalVerifNumSaturated(m) == 0) {
      long need = liveNodes(exp);
      if (need <= limit) VIOL("spurious-overflow", "%s: %s overflowed with limit %ld although %ld nodes suffice", tag.c_str(), curOp, limit, need);
    }
    limitChecked = false;
  }
  void afterOp() {
    checkOrder(false);
    long g = CalVerifNumGC(m);
    if (g != lastGCs) {
      rt::count("auto_gc", g - lastGCs);
      regimeEvents++;
      if (gcOff) VIOL("gc-while-off", "%s: %s collected although collection is switched off", tag.c_str(), curOp);
      lastGCs = g;
    }
  }
  void trOp() { rt::tr("%s %s args%s order0=%d n=%ld", tag.c_str(), curOp, showArgs().c_str(), order.empty() ? 0 : order[0], (long)Cal_BddManagerGetNumNodes(m)); }

  // ---------------------------------------------------------------- Boolean operations
  template <class F, class G> void binary(const char *name, F fn, G ref) {
    Arg a = arg(), b = arg();
    begin(name); trOp();
    limitChecked = true;
    TT e = ref(a.f, b.f);
    result(fn(m, a.h, b.h), e);
    doneArgs();
  }
  void opAnd() { binary("And", Cal_BddAnd, [](const TT &a, const TT &b) { return a & b; }); }
  void opOr() { binary("Or", Cal_BddOr, [](const TT &a, const TT &b) { return a | b; }); }
  void opNand() { binary("Nand", Cal_BddNand, [](const TT &a, const TT &b) { return ~(a & b); }); }
  void opNor() { binary("Nor", Cal_BddNor, [](const TT &a, const TT &b) { return ~(a | b); }); }
  void opXor() { binary("Xor", Cal_BddXor, [](const TT &a, const TT &b) { return a ^ b; }); }
  void opXnor() { binary("Xnor", Cal_BddXnor, [](const TT &a, const TT &b) { return ~(a ^ b); }); }
  void opNot() { Arg a = arg(); begin("Not"); trOp(); result(Cal_BddNot(m, a.h), ~a.f); doneArgs(); }
  void opIdentity() { Arg a = arg(); begin("Identity"); trOp(); result(Cal_BddIdentity(m, a.h), a.f); doneArgs(); }
  void opIte() {
    Arg a = arg(), b = arg(8), c = arg(8);
    begin("ITE"); trOp();
    limitChecked = true;
    result(Cal_BddITE(m, a.h, b.h, c.h), TT::ite(a.f, b.f, c.f));
    doneArgs();
  }
  int arrayLen() {
    int p = rng.below(100);
    if (p < 70) return rng.range(1, 6);
    if (p < 95) return rng.range(5, 20);
    if (rng.chance(80)) return rng.range(30, 90);
    return rng.range(65, rng.chance(20) ? 1024 : 300); // request queues of more levels than there are at first
  }
  void multi(int kind) {
    int n = arrayLen();
    std::vector<Bdd> v;
    TT e(kind == 0);
    for (int i = 0; i < n; i++) {
      Arg a = arg(2);
      v.push_back(a.h);
      e = kind == 0 ? e & a.f : kind == 1 ? e | a.f : e ^ a.f;
    }
    v.push_back(nullptr);
    std::vector<Bdd> before = v;
    begin(kind == 0 ? "MultiwayAnd" : kind == 1 ? "MultiwayOr" : "MultiwayXor");
    trOp();
    Bdd r = kind == 0 ? Cal_BddMultiwayAnd(m, v.data()) : kind == 1 ? Cal_BddMultiwayOr(m, v.data()) : Cal_BddMultiwayXor(m, v.data());
    if (v != before) VIOL("operand-changed", "%s changed its operand array", curOp);
    result(r, e);
    doneArgs();
  }
  void opMultiAnd() { multi(0); }
  void opMultiOr() { multi(1); }
  void opMultiXor() { multi(2); }
  void pairwise(int kind) {
    int n = rng.chance(90) ? rng.range(1, 8) : rng.range(20, 60);
    std::vector<Bdd> v;
    std::vector<TT> e;
    for (int i = 0; i < n; i++) {
      Arg a = arg(3), b = arg(3);
      v.push_back(a.h); v.push_back(b.h);
      e.push_back(kind == 0 ? a.f & b.f : kind == 1 ? a.f | b.f : a.f ^ b.f);
    }
    v.push_back(nullptr);
    std::vector<Bdd> before = v;
    begin(kind == 0 ? "PairwiseAnd" : kind == 1 ? "PairwiseOr" : "PairwiseXor");
    trOp();
    Bdd *r = kind == 0 ? Cal_BddPairwiseAnd(m, v.data()) : kind == 1 ? Cal_BddPairwiseOr(m, v.data()) : Cal_BddPairwiseXor(m, v.data());
    if (v != before) VIOL("operand-changed", "%s changed its operand array", curOp);
    expectQuiet();
    if (!r) {
      afterOp();
      if (!limited) VIOL("null-result", "%s returned no array", curOp);
      overflowed(nullptr);
    } else {
      afterOp();
      std::vector<Bdd> rs(r, r + n);
      free(r);
      if (limited && std::count(rs.begin(), rs.end(), (Bdd) nullptr) == n) {
        nullResults++;
        overflowed(nullptr);
        doneArgs();
        return;
      }
      // take all before the per-result reference check can be exact
      for (int i = 0; i < n; i++) {
        if (!rs[i]) VIOL("null-result", "%s returned null for pair %d", curOp, i);
        checkFunction(rs[i], e[i], curOp);
      }
      std::map<uintptr_t, int> pending;
      for (int i = 0; i < n; i++) takeUnchecked(rs[i], e[i]);
      for (int i = 0; i < n; i++) checkRef(rs[i]);
      for (int i = 0; i < n; i++) {
        note(e[i].hash());
        if (log) log->add(curOp, e[i].hash());
        if (rng.chance(50)) slots.push_back({rs[i], e[i]});
        else release(rs[i]);
      }
      opsDone++;
      rt::count("ops_checked", n);
      opKinds.insert(curOp);
    }
    doneArgs();
  }
  void takeUnchecked(Bdd h, const TT &f) {
    if (f.isConst()) { take(h, f); return; }
    Bdd r = regular(h);
    bool neg = bits(h) & 1;
    TT rf = neg ? ~f : f;
    HeldRef &hr = held[bits(r)];
    if (hr.count == 0) hr.f = rf;
    else if (hr.f != rf) VIOL("canonicity", "%s: a handle in use was returned for another function", tag.c_str());
    hr.count++;
    if (hr.count >= 255) saturated = 1;
    TT c = polarity(f) ? ~f : f;
    Bdd ch = polarity(f) ? (Bdd)(bits(h) ^ 1) : h;
    auto it = canon.find(c);
    if (it == canon.end()) canon.emplace(c, ch);
    else if (it->second != ch) VIOL("canonicity", "%s: one function has two different handles", tag.c_str());
  }
  void opPairAnd() { pairwise(0); }
  void opPairOr() { pairwise(1); }
  void opPairXor() { pairwise(2); }

  // a function built from a random truth table over a few variables
  void opRandomFun() {
    int nv = std::min(nfun(), !deep && rng.chance(50) ? rng.range(8, 12) : rng.range(2, 7));
    std::vector<int> vs;
    for (int i = 0; i < nfun(); i++) vs.push_back(i);
    for (int i = 0; i < nv; i++) std::swap(vs[i], vs[i + rng.below((int)vs.size() - i)]);
    vs.resize(nv);
    std::sort(vs.begin(), vs.end(), [&](int a, int b) { return indexOfTT(a) < indexOfTT(b); });
    Rng r2(rng.next());
    int density = rng.pick(std::vector<int>{10, 30, 50, 50, 50, 70, 90});
    begin("build");
    rt::tr("%s build nv=%d density=%d", tag.c_str(), nv, density);
    bool failed = false;
    Slot s = buildRec(vs, 0, r2, density, failed);
    if (!failed) slots.push_back(s);
  }
  // returns an owned handle
  Slot buildRec(const std::vector<int> &vs, size_t i, Rng &r2, int density, bool &failed) {
    if (i == vs.size()) {
      bool v = r2.chance(density);
      return {v ? Cal_BddOne(m) : Cal_BddZero(m), TT(v)};
    }
    Slot t = buildRec(vs, i + 1, r2, density, failed);
    if (failed) return t;
    Slot e = buildRec(vs, i + 1, r2, density, failed);
    if (failed) { if (!t.f.isConst()) release(t.h); return e; }
    curOp = "ITE"; rt::inOp = "ITE(build)";
    rt::clearErr();
    Bdd r = Cal_BddITE(m, varH[vs[i]], t.h, e.h);
    TT ef = TT::ite(TT::var(vs[i]), t.f, e.f);
    expectQuiet();
    afterOp();
    if (!r) {
      if (!limited) VIOL("null-result", "ITE returned null while building");
      failed = true;
      overflowed(&ef);
      if (!t.f.isConst()) release(t.h);
      if (!e.f.isConst()) release(e.h);
      return {nullptr, ef};
    }
    if (deep || chk.chance(10)) checkFunction(r, ef, "ITE(build)");
    take(r, ef);
    rt::count("ops_checked");
    if (!t.f.isConst()) release(t.h);
    if (!e.f.isConst()) release(e.h);
    return {r, ef};
  }

  // ---------------------------------------------------------------- associations
  AssocModel *curAssoc() { return current == -1 ? &temp : &assoc[current]; }
  // kind 0: variable list, 1: variable pairs, 2: function pairs
  std::vector<Bdd> assocArray(int kind, AssocModel &mod) {
    std::vector<Bdd> v;
    std::vector<int> vs;
    for (int i = 0; i < nfun(); i++) vs.push_back(i);
    int n = rng.range(rng.chance(10) ? 0 : 1, std::min(nfun(), rng.chance(80) ? 4 : nfun()));
    for (int i = 0; i < n; i++) std::swap(vs[i], vs[i + rng.below((int)vs.size() - i)]);
    for (int i = 0; i < n; i++) {
      int k = vs[i];
      v.push_back(varH[k]);
      if (kind == 0) mod.bind[idOf[k]] = TT(true);
      else if (kind == 1) {
        int j = rng.below(nfun());
        v.push_back(varH[j]);
        mod.bind[idOf[k]] = TT::var(j);
      } else {
        Arg a = arg(6);
        v.push_back(a.h);
        mod.bind[idOf[k]] = a.f;
      }
    }
    v.push_back(nullptr);
    return v;
  }
  int assocKind = -1; // restrict the kinds of associations
  int pickAssocKind() { return assocKind >= 0 ? assocKind : rng.below(3); }
  void opAssocInit() {
    AssocModel mod;
    int kind = pickAssocKind();
    std::vector<Bdd> v;
    // sometimes recreate an existing one
    bool again = !assoc.empty() && rng.chance(35);
    if (again) {
      auto it = assoc.begin();
      std::advance(it, rng.below((int)assoc.size()));
      std::vector<int> ks;
      for (auto &b : it->second.bind) ks.push_back(b.first);
      for (size_t i = 0; i + 1 < ks.size(); i++) std::swap(ks[i], ks[i + rng.below((int)(ks.size() - i))]);
      bool ok = true;
      for (int id : ks) {
        const TT &f = it->second.bind[id];
        Bdd h = nullptr;
        if (f.isOne()) h = Cal_BddOne(m);
        else if (f.isZero()) h = Cal_BddZero(m);
        else {
          auto c = canon.find(polarity(f) ? ~f : f);
          if (c == canon.end()) { ok = false; break; }
          h = polarity(f) ? (Bdd)(bits(c->second) ^ 1) : c->second;
        }
        v.push_back(varH[ttOf[id]]);
        v.push_back(h);
        mod.bind[id] = f;
      }
      kind = 2;
      if (!ok) { v.clear(); mod.bind.clear(); again = false; kind = pickAssocKind(); }
      else v.push_back(nullptr);
    }
    if (!again) v = assocArray(kind, mod);
    begin("AssociationInit");
    rt::tr("%s assoc-init kind=%d size=%zu", tag.c_str(), kind, mod.bind.size());
    int id = Cal_AssociationInit(m, v.data(), kind != 0);
    expectQuiet();
    afterOp();
    rt::count("associations");
    int expect = -2;
    for (auto &p : assoc) if (p.second == mod) expect = p.first;
    if (expect >= 0) {
      if (id != expect) VIOL("assoc-id", "%s: equivalent association got id %d instead of %d", tag.c_str(), id, expect);
      assoc[id].refs++;
      rt::count("associations_shared");
    } else {
      if (id < 0) VIOL("assoc-id", "%s: AssociationInit returned %d", tag.c_str(), id);
      if (assoc.count(id)) VIOL("assoc-id", "%s: a different association got the id %d in use", tag.c_str(), id);
      mod.refs = 1;
      assoc[id] = mod;
    }
    note(id + 77);
    if (log) log->add("assoc", id);
    doneArgs();
    if (rng.chance(60)) setCurrent(id);
  }
  void setCurrent(int id) {
    begin("AssociationSetCurrent");
    rt::tr("%s assoc-current %d", tag.c_str(), id);
    int old = Cal_AssociationSetCurrent(m, id);
    expectQuiet();
    if (old != current) VIOL("assoc-current", "%s: previous association reported as %d, expected %d", tag.c_str(), old, current);
    current = id;
  }
  void opAssocSet() {
    std::vector<int> ids{-1};
    for (auto &p : assoc) ids.push_back(p.first);
    setCurrent(rng.pick(ids));
  }
  void opAssocQuit() {
    if (assoc.empty()) return;
    auto it = assoc.begin();
    std::advance(it, rng.below((int)assoc.size()));
    int id = it->first;
    if (id == current && it->second.refs > 1) {
      // what becomes current is not specified: choose explicitly
      setCurrent(-1);
    }
    begin("AssociationQuit");
    rt::tr("%s assoc-quit %d refs=%d", tag.c_str(), id, it->second.refs);
    Cal_AssociationQuit(m, id);
    expectQuiet();
    if (--it->second.refs == 0) {
      if (current == id) {
        current = -1;
        // the documented way to learn the current association
        int old = Cal_AssociationSetCurrent(m, -1);
        if (old != -1) VIOL("assoc-current", "%s: a deleted association (%d) is still current", tag.c_str(), old);
      }
      assoc.erase(it);
    }
  }
  void opTempInit() {
    AssocModel mod;
    int kind = pickAssocKind();
    std::vector<Bdd> v = assocArray(kind, mod);
    begin("TempAssociationInit");
    rt::tr("%s temp-init kind=%d size=%zu", tag.c_str(), kind, mod.bind.size());
    Cal_TempAssociationInit(m, v.data(), kind != 0);
    expectQuiet();
    afterOp();
    temp = mod;
    rt::count("temp_associations");
    doneArgs();
    if (rng.chance(70) && current != -1) setCurrent(-1);
  }
  void opTempAugment() {
    AssocModel mod;
    int kind = pickAssocKind();
    std::vector<Bdd> v = assocArray(kind, mod);
    begin("TempAssociationAugment");
    rt::tr("%s temp-augment kind=%d size=%zu", tag.c_str(), kind, mod.bind.size());
    Cal_TempAssociationAugment(m, v.data(), kind != 0);
    expectQuiet();
    afterOp();
    for (auto &b : mod.bind) temp.bind[b.first] = b.second;
    doneArgs();
  }
  void opTempQuit() {
    begin("TempAssociationQuit");
    rt::tr("%s temp-quit", tag.c_str());
    Cal_TempAssociationQuit(m);
    expectQuiet();
    temp.bind.clear();
  }
  // ---------------------------------------------------------------- quantification
  TT quant(TT f, bool ex) {
    for (auto &b : curAssoc()->bind) { int k = ttOf[b.first]; f = ex ? f.exists(k) : f.forall(k); }
    return f;
  }
  void opExists() { Arg a = arg(); begin("Exists"); trOp(); limitChecked = true; result(Cal_BddExists(m, a.h), quant(a.f, true)); doneArgs(); }
  void opForAll() { Arg a = arg(); begin("ForAll"); trOp(); limitChecked = true; result(Cal_BddForAll(m, a.h), quant(a.f, false)); doneArgs(); }
  void opRelProd() {
    Arg a = arg(), b = arg();
    begin("RelProd"); trOp(); limitChecked = true;
    result(Cal_BddRelProd(m, a.h, b.h), quant(a.f & b.f, true));
    doneArgs();
  }
  // ---------------------------------------------------------------- substitution
  void opCompose() {
    Arg f = arg(), g = argVar(), h = arg(6);
    int k = ttVarOf(g.f);
    std::vector<TT> s(TT::W); std::vector<char> has(TT::W, 0);
    s[k] = h.f; has[k] = 1;
    begin("Compose"); trOp();
    result(Cal_BddCompose(m, f.h, g.h, h.h), f.f.subst(s, has));
    doneArgs();
  }
  TT substCur(const TT &f) {
    std::vector<TT> s(TT::W); std::vector<char> has(TT::W, 0);
    for (auto &b : curAssoc()->bind) { s[ttOf[b.first]] = b.second; has[ttOf[b.first]] = 1; }
    return f.subst(s, has);
  }
  void opSubstitute() { Arg f = arg(); begin("Substitute"); trOp(); result(Cal_BddSubstitute(m, f.h), substCur(f.f)); doneArgs(); }
  void opVarSubstitute() {
    for (auto &b : curAssoc()->bind) if (ttVarOf(b.second) < 0) return;
    Arg f = arg();
    begin("VarSubstitute"); trOp();
    limitChecked = true;
    result(Cal_BddVarSubstitute(m, f.h), substCur(f.f));
    doneArgs();
  }
  void opSwapVars() {
    Arg f = arg(), g = argVar(), h = argVar();
    begin("SwapVars"); trOp();
    result(Cal_BddSwapVars(m, f.h, g.h, h.h), f.f.swap(ttVarOf(g.f), ttVarOf(h.f)));
    doneArgs();
  }
  // ---------------------------------------------------------------- don't cares and witnesses
  TT constrain(const TT &f, const TT &c, const std::vector<int> &o, size_t i) {
    if (c.isOne() || f.isConst() || i == o.size()) return f;
    int k = o[i];
    TT c1 = c.cof(k, true), c0 = c.cof(k, false);
    if (c1.isZero()) return constrain(f.cof(k, false), c0, o, i + 1);
    if (c0.isZero()) return constrain(f.cof(k, true), c1, o, i + 1);
    return TT::ite(TT::var(k), constrain(f.cof(k, true), c1, o, i + 1), constrain(f.cof(k, false), c0, o, i + 1));
  }
  void opCofactor() {
    Arg f = arg(), c = arg();
    if (c.f.isZero()) { doneArgs(); return; }
    begin("Cofactor"); trOp();
    limitChecked = true;
    std::vector<int> o0 = ttOrder();
    long r0 = CalVerifNumReorderings(m);
    Bdd x = Cal_BddCofactor(m, f.h, c.h);
    long reordered = CalVerifNumReorderings(m) - r0;
    afterOp();
    TT e0 = constrain(f.f, c.f, o0, 0), e1 = constrain(f.f, c.f, ttOrder(), 0);
    if (!reordered) result(x, e1);
    else // before, during or after the computation: the order that counts is not known
      adopt(x, [&](const TT &t) { return t == e0 || t == e1 || (reordered > 1 && ((t ^ f.f) & c.f).isZero()); }, e1);
    doneArgs();
  }
  // a result that is only constrained: adopt what the BDD denotes
  template <class P> void adopt(Bdd r, P ok, const TT &fallback) {
    if (!r) {
      if (limited) { fallbackUnknown = true; }
      result(r, fallback);
      fallbackUnknown = false;
      return;
    }
    TT f = ttOfHandle(r);
    if (!ok(f)) VIOL("contract", "%s: %s returned %016lx for args%s", tag.c_str(), curOp, (unsigned long)f.w[0], showArgs().c_str());
    result(r, f);
  }
  // neither has more nodes than the BDD it stands for (the order may only be compared if it did not change)
  bool notLarger(const TT &r, const TT &f) {
    if (CalVerifNumReorderings(m) != lastReorderings) return true;
    SubFun a(ttOrder()), b(ttOrder());
    a.add(r);
    b.add(f);
    rt::count("size_comparisons");
    return a.nodes() <= b.nodes();
  }
  void opReduce() {
    Arg f = arg(), c = arg();
    begin("Reduce"); trOp(); limitChecked = true;
    adopt(Cal_BddReduce(m, f.h, c.h), [&](const TT &r) { return ((r ^ f.f) & c.f).isZero() && notLarger(r, f.f); }, f.f);
    doneArgs();
  }
  void opBetween() {
    Arg a = arg(), b = arg();
    Bdd lo, hi;
    begin("And");
    lo = Cal_BddAnd(m, a.h, b.h);
    TT lf = a.f & b.f, hf = a.f | b.f;
    if (!lo) { limitChecked = true; result(lo, lf); doneArgs(); return; }
    take(lo, lf);
    begin("Or");
    hi = Cal_BddOr(m, a.h, b.h);
    if (!hi) { limitChecked = true; result(hi, hf); release(lo); doneArgs(); return; }
    take(hi, hf);
    argsUsed.push_back({lo, lf, true});
    argsUsed.push_back({hi, hf, true});
    begin("Between"); trOp(); limitChecked = true;
    adopt(Cal_BddBetween(m, lo, hi), [&](const TT &r) { return lf.implies(r) && r.implies(hf) && notLarger(r, lf) && notLarger(r, hf); }, lf);
    doneArgs();
  }
  void opIntersects() {
    Arg a = arg(), b = arg();
    begin("Intersects"); trOp();
    TT e = a.f & b.f;
    adopt(Cal_BddIntersects(m, a.h, b.h), [&](const TT &r) { return r.implies(e) && r.isZero() == e.isZero(); }, e);
    doneArgs();
  }
  void opImplies() {
    Arg a = arg(), b = arg();
    begin("Implies"); trOp();
    TT e = a.f & ~b.f;
    adopt(Cal_BddImplies(m, a.h, b.h), [&](const TT &r) { return r.implies(e) && r.isZero() == e.isZero(); }, e);
    doneArgs();
  }
  bool isCubeTT(const TT &f) {
    if (f.isZero()) return false;
    TT g(true);
    for (int k = 0; k < nfun(); k++) if (f.dependsOn(k)) g = g & (f.cof(k, false).isZero() ? TT::var(k) : ~TT::var(k));
    return g == f;
  }
  void opSatisfy() {
    Arg a = arg();
    if (a.f.isZero()) { doneArgs(); return; }
    begin("Satisfy"); trOp();
    adopt(Cal_BddSatisfy(m, a.h), [&](const TT &r) { return !r.isZero() && r.implies(a.f) && isCubeTT(r); }, a.f);
    doneArgs();
  }
  void opSatisfySupport() {
    Arg a = arg();
    if (a.f.isZero()) { doneArgs(); return; }
    begin("SatisfySupport"); trOp();
    AssocModel am = *curAssoc();
    adopt(Cal_BddSatisfySupport(m, a.h), [&](const TT &r) {
      if (r.isZero() || !r.implies(a.f) || !isCubeTT(r)) return false;
      for (auto &b : am.bind) if (!r.dependsOn(ttOf[b.first])) return false;
      return true;
    }, a.f);
    doneArgs();
  }
  // ---------------------------------------------------------------- memory
  void opFree() { if (!slots.empty()) { rt::tr("%s free", tag.c_str()); freeSlot(rng.below((int)slots.size())); } }
  void opFreeMany() {
    int n = rng.range(1, (int)slots.size());
    rt::tr("%s free-many %d", tag.c_str(), n);
    while (n-- > 0 && !slots.empty()) freeSlot(rng.below((int)slots.size()));
  }
  void opUnFree() {
    if (slots.empty()) return;
    Slot s = slots[rng.below((int)slots.size())];
    rt::inOp = "Cal_BddUnFree";
    rt::tr("%s unfree", tag.c_str());
    Cal_BddUnFree(m, s.h);
    take(s.h, s.f);
    slots.push_back(s);
  }
  // ---------------------------------------------------------------- statistics
  struct Stats { bool seen = false; long peak = 0, perNode = 0, freed = 0, gcs = 0, reorderings = 0, insertions = 0, lookups = 0, hits = 0, collisions = 0, trivial = 0; } stats;
  double repackThreshold = -1; // -1: the initial one
  std::map<std::string, std::string> statLines(FILE *dummy = nullptr) {
    char *buf = nullptr;
    size_t len = 0;
    FILE *fp = open_memstream(&buf, &len);
    rt::inOp = "Cal_BddStats";
    Cal_BddStats(m, fp);
    fclose(fp);
    std::string t(buf, len), line;
    __real_free(buf);
    std::map<std::string, std::string> r;
    for (char ch : t) {
      if (ch != '\n') { line += ch; continue; }
      size_t c = line.find(':');
      if (c != std::string::npos) {
        std::string k = line.substr(0, c), v = line.substr(c + 1);
        while (!k.empty() && k.back() == ' ') k.pop_back();
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        if (!r.emplace(k, v).second) VIOL("stats", "%s: the statistics contain \"%s\" twice", tag.c_str(), k.c_str());
      } else if (line.compare(0, 2, "**")) VIOL("stats", "%s: the statistics contain \"%s\"", tag.c_str(), line.c_str());
      line.clear();
    }
    if (!line.empty()) VIOL("stats", "%s: the statistics end with \"%s\"", tag.c_str(), line.c_str());
    return r;
  }
  void opHugeLimit() {
    if (limited) return;
    long l = rng.pick(std::vector<long>{0, 1000000, 20000000, 1L << 40, 0});
    rt::inOp = "NodeLimit";
    long o = Cal_BddNodeLimit(m, l);
    if (o != limit) VIOL("limit", "%s: NodeLimit reports the old limit as %ld, expected %ld", tag.c_str(), o, limit);
    limit = l;
    rt::tr("%s limit %ld", tag.c_str(), l);
  }
  void opStats() {
    begin("Stats");
    rt::tr("%s stats", tag.c_str());
    checkOrder(false);
    int doing = rng.below(5); // 0: after setting the collection limit, 1: around a collection, 2: after a collection
    long freedBefore = -1, nodesBefore = 0, limitWas = limit;
    auto num = [&](std::map<std::string, std::string> &st, const char *k, const char *after = nullptr) -> long {
      auto it = st.find(k);
      if (it == st.end()) VIOL("stats", "%s: the statistics lack \"%s\"", tag.c_str(), k);
      std::string v = it->second;
      if (after) { size_t c = v.find(after); if (c == std::string::npos) VIOL("stats", "%s: \"%s\" in the statistics is \"%s\"", tag.c_str(), k, v.c_str()); v = v.substr(c + strlen(after)); }
      char *e;
      long x = strtol(v.c_str(), &e, 10);
      if (e == v.c_str()) VIOL("stats", "%s: \"%s\" in the statistics is \"%s\"", tag.c_str(), k, v.c_str());
      return x;
    };
    if (doing == 2) Cal_BddManagerGC(m); // nothing asked before it
    if (doing == 0) {
      if (!limited && chk.chance(40)) {
        // the collection limit is about this node limit
        limit = std::max<long>(1, chk.chance(50) ? (long)Cal_BddManagerGetNumNodes(m) * (1 + chk.below(12)) / 4 : calVerifMinGCLimit + chk.below(5) - 2);
        Cal_BddNodeLimit(m, limit);
        rt::count("statistics_with_node_limit");
      }
      Cal_BddManagerSetGCLimit(m);
    }
    if (doing == 1) {
      auto st = statLines();
      freedBefore = num(st, "Number of nodes garbage collected");
      nodesBefore = num(st, "Total BDD Node Usage");
      stats.gcs = num(st, "number of garbage collections");
      stats.peak = std::max(stats.peak, nodesBefore);
      Cal_BddManagerGC(m);
    }
    long live = (long)Cal_BddManagerGetNumNodes(m), handles = CalVerifNumHandles(m);
    auto st = statLines();
    auto yes = [&](const char *k) { auto it = st.find(k); if (it == st.end() || (it->second != "yes" && it->second != "no")) VIOL("stats", "%s: \"%s\" in the statistics", tag.c_str(), k); return it->second == "yes"; };
    auto bad = [&](const char *k, long got, long want) { VIOL("stats", "%s: the statistics give \"%s\" as %ld, expected %ld", tag.c_str(), k, got, want); };
    auto eq = [&](const char *k, long want) { long g = num(st, k); if (g != want) bad(k, g, want); };
    auto grows = [&](const char *k, long &last) { long g = num(st, k); if (g < last) bad(k, g, last); last = g; };
    if ((long)Cal_BddManagerGetNumNodes(m) != live || CalVerifNumHandles(m) != handles) VIOL("stats", "%s: printing statistics changed the number of nodes", tag.c_str());
    if ((long)Cal_BddTotalSize(m) != live) VIOL("stats", "%s: TotalSize is %ld, there are %ld nodes", tag.c_str(), (long)Cal_BddTotalSize(m), live);
    eq("Node limit", limit);
    if (yes("Garbage collection enabled") != !gcOff) VIOL("stats", "%s: the garbage collection mode is reported wrongly", tag.c_str());
    if (yes("Dynamic reordering of BDDs enabled") != dynamic) VIOL("stats", "%s: the reordering mode is reported wrongly", tag.c_str());
    double rp = atof(st["Repacking after GC Threshold"].c_str());
    if (repackThreshold >= 0 && fabs(rp - repackThreshold) > 1e-6) VIOL("stats", "%s: the repacking threshold is reported as %g, expected %g", tag.c_str(), rp, repackThreshold);
    eq("Total BDD Node Usage", live);
    long peak = num(st, "Peak BDD Node Usage"), bytes = num(st, "Total BDD Node Usage", ","), peakBytes = num(st, "Peak BDD Node Usage", ",");
    if (peak < live || peak < stats.peak) bad("Peak BDD Node Usage", peak, std::max(live, stats.peak));
    stats.peak = peak;
    if (bytes % live || peakBytes % peak || bytes / live != peakBytes / peak || (stats.perNode && stats.perNode != bytes / live)) VIOL("stats", "%s: %ld bytes for %ld nodes, %ld for %ld", tag.c_str(), bytes, live, peakBytes, peak);
    stats.perNode = bytes / live;
    eq("Number of nodes locked", CalVerifNumLockedNodes(m));
    if (CalVerifNumLockedNodes(m) > nvars()) rt::count("statistics_with_locked_nodes");
    eq("Total Number of variables", nvars());
    long pages = num(st, "Total memory allocated for BDD nodes"), pbytes = num(st, "Total memory allocated for BDD nodes", "("), all = num(st, "Total memory consumed", "(");
    if (pbytes != pages * rt::pageSize || pbytes < live * stats.perNode) bad("Total memory allocated for BDD nodes", pbytes, pages * rt::pageSize);
    if (all < pbytes) bad("Total memory consumed", all, pbytes);
    long size = num(st, "Cache Size"), entries = num(st, "Cache Entries");
    if (size <= 0 || (size & (size - 1))) rt::count("cache_sizes_odd");
    if (entries < 0 || entries > size) bad("Cache Entries", entries, size);
    if (entries != CalVerifNumCacheEntries(m)) bad("Cache Entries", entries, CalVerifNumCacheEntries(m));
    grows("Cache Insertions", stats.insertions);
    grows("Cache Collisions", stats.collisions);
    grows("Cache Hits", stats.hits);
    if (entries + stats.collisions > stats.insertions) bad("Cache Insertions", stats.insertions, entries + stats.collisions);
    if (st.count("Cache Lookup")) {
      grows("Cache Lookup", stats.lookups);
      double ratio = atof(st["Cache hit ratio"].c_str()), want = (double)stats.hits / (double)stats.lookups;
      if (fabs(ratio - want) > 0.0051) VIOL("stats", "%s: the hit ratio is %g, %ld of %ld lookups were hits", tag.c_str(), ratio, stats.hits, stats.lookups);
    }
    if (stats.hits > stats.lookups) bad("Cache Hits", stats.hits, stats.lookups);
    long freed = num(st, "Number of nodes garbage collected");
    if (freedBefore >= 0) {
      if (freed - freedBefore != nodesBefore - live) bad("Number of nodes garbage collected", freed, freedBefore + nodesBefore - live);
      eq("number of garbage collections", stats.gcs + 1);
      rt::count("collections_accounted", nodesBefore - live);
    }
    grows("Number of nodes garbage collected", stats.freed);
    grows("number of garbage collections", stats.gcs);
    eq("number of garbage collections", CalVerifNumGC(m));
    grows("number of dynamic reorderings", stats.reorderings);
    eq("number of dynamic reorderings", CalVerifNumReorderings(m));
    grows("number of trivial swaps", stats.trivial);
    if (num(st, "number of swaps in last reordering") < 0) VIOL("stats", "%s: a negative number of swaps", tag.c_str());
    long gl = num(st, "garbage collection limit");
    if (limit && gl > limit) bad("garbage collection limit", gl, limit);
    if (doing == 0) {
      long want = std::max(2 * live, calVerifMinGCLimit);
      if (limit && want > limit) want = limit;
      eq("garbage collection limit", want);
      if (limit != limitWas) { limit = limitWas; Cal_BddNodeLimit(m, limit); }
    }
    rt::count("statistics_checked");
    lastGCs = CalVerifNumGC(m);
    note((uint64_t)live * 31 + entries);
    opKinds.insert("Stats");
  }
  void opGC() { gcExplicit(); lastGCs = CalVerifNumGC(m); if (log && CalVerifNumSaturated(m)) log->cut = true; if (log && !dynamic) log->add("gc-nodes", Cal_BddManagerGetNumNodes(m)); }
  void opGCLimit() { rt::inOp = "SetGCLimit"; rt::tr("%s gclimit", tag.c_str()); Cal_BddManagerSetGCLimit(m); }
  void opScribble() { rt::tr("%s scribble", tag.c_str()); CalVerifScribbleFreeNodes(m); }
  void opGCMode() {
    gcOff = !gcOff;
    lastGCs = CalVerifNumGC(m);
    rt::inOp = "SetGCMode";
    rt::tr("%s gcmode %d", tag.c_str(), !gcOff);
    Cal_BddSetGCMode(m, !gcOff);
  }
  void opParams() {
    long th = rng.pick(std::vector<long>{0, 5, 20, 100, 5000});
    long fw = rng.pick(std::vector<long>{0, 1, 10, 100, 5000, 50000});
    double ra = rng.pick(std::vector<double>{0.0, 0.3, 0.5, 0.75, 0.95, 1.0});
    double tr_ = rng.pick(std::vector<double>{0.0, 0.3, 0.5, 0.9, 1.0});
    rt::inOp = "SetParameters";
    rt::tr("%s params %ld %ld %.2f %.2f", tag.c_str(), th, fw, ra, tr_);
    Cal_BddManagerSetParameters(m, th, fw, ra, tr_);
    repackThreshold = ra;
  }
  // ---------------------------------------------------------------- reordering
  int technique = CAL_REORDER_NONE, method = CAL_REORDER_METHOD_DF;
  int onlyMethod = -1;
  void reorderWith(int tech, int meth) {
    begin("Reorder");
    rt::tr("%s reorder technique=%d method=%d nodes=%ld", tag.c_str(), tech, meth, (long)Cal_BddManagerGetNumNodes(m));
    Cal_BddDynamicReordering(m, tech, meth);
    if (log && CalVerifNumSaturated(m)) log->cut = true;
    std::vector<int> before = order;
    long swaps = CalVerifNumSwaps(m);
    bool judge = sizeOracle && chk.chance(sizeOracle), better = false;
    long size = 0;
    if (judge) {
      Cal_BddManagerGC(m);
      size = (long)Cal_BddManagerGetNumNodes(m);
      if (improveOracle && deep && !limit && nvars() <= 12 && !saturated && CalVerifNumSaturated(m) == 0) better = improvable(before, tech, size);
    }
    Cal_BddReorder(m);
    if (judge) {
      Cal_BddManagerGC(m);
      long after = (long)Cal_BddManagerGetNumNodes(m);
      rt::count("reorder_sizes_compared");
      if (after < size) rt::count("reorder_smaller");
      if (after > size) VIOL("reorder-size", "%s: reordering (technique %d, method %d) leaves %ld nodes instead of %ld", tag.c_str(), tech, meth, after, size);
      if (better) {
        rt::count(tech == CAL_REORDER_SIFT ? "reorder_improvable_sift" : "reorder_improvable_window");
        if (after == size) VIOL("reorder-idle", "%s: reordering (technique %d, method %d) leaves %ld nodes although a smaller order is at hand", tag.c_str(), tech, meth, after);
      }
    }
    expectQuiet();
    Cal_BddDynamicReordering(m, dynamic ? technique : CAL_REORDER_NONE, dynamic ? method : meth);
    checkOrder(true);
    lastGCs = CalVerifNumGC(m);
    rt::count("explicit_reorder");
    if (order != before) { rt::count("order_changes"); regimeEvents++; }
    rt::count("swaps", CalVerifNumSwaps(m) - swaps);
    for (int id : order) note(id);
    if (log && CalVerifNumSaturated(m)) log->cut = true;
    if (log) { uint64_t h = 0; for (int id : order) h = h * 131 + id; log->add("order", h); log->add("reorder-nodes", Cal_BddManagerGetNumNodes(m)); }
    opKinds.insert("Reorder");
    if (nvars() < 64 || chk.chance(20)) checkAll("reordering");
  }
  void opReorder() {
    int meth = onlyMethod >= 0 ? onlyMethod : rng.below(2);
    reorderWith(rng.chance(50) ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, meth);
  }
  void opDynamic() {
    if (!cfg.allowDynamic) return;
    checkOrder(false);
    dynamic = rng.chance(60);
    technique = dynamic ? (rng.chance(50) ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW) : CAL_REORDER_NONE;
    method = onlyMethod >= 0 ? onlyMethod : rng.below(2);
    rt::inOp = "DynamicReordering";
    rt::tr("%s dynamic technique=%d method=%d", tag.c_str(), technique, method);
    Cal_BddDynamicReordering(m, technique, method);
  }
  void opNewVar() {
    if (nfun() >= cfg.universe) { if (nvars() < 90 && rng.chance(20)) newVarRandom(true); return; }
    newVarRandom(rng.chance(15));
  }
  void opNewDummy() { newVarRandom(true); }
  void opCheck() { checkAll("step"); }
  void opStructure() { checkStructure("step"); }

  // ---------------------------------------------------------------- queries
  void opQueries();
  void opInspect();
  void opLookup() {
    rt::inOp = "lookup";
    begin("GetVarWithIndex");
    int i = rng.range(0, nvars());
    Bdd h = Cal_BddManagerGetVarWithIndex(m, (Cal_BddIndex_t)i);
    fflush(stderr);
    if (i == nvars()) {
      if (h) VIOL("lookup", "index %d out of range gives a BDD", i);
      rt::clearErr();
    } else {
      expectQuiet();
      checkLookup(h, order[i]);
    }
    int id = rng.range(0, nvars() + 1);
    begin("GetVarWithId");
    h = Cal_BddManagerGetVarWithId(m, (Cal_BddId_t)id);
    if (id == 0 || id > nvars()) {
      if (h) VIOL("lookup", "id %d out of range gives a BDD", id);
      rt::clearErr();
    } else {
      expectQuiet();
      checkLookup(h, id);
    }
    opKinds.insert("Lookup");
    rt::count("lookups", 2);
  }
  void checkLookup(Bdd h, int id) {
    if (!h) VIOL("lookup", "looking up variable id %d gives null", id);
    if (Cal_BddGetIfId(m, h) != id) VIOL("lookup", "looking up variable %d gives id %d", id, (int)Cal_BddGetIfId(m, h));
    if (Cal_BddType(m, h) != CAL_BDD_TYPE_POSVAR) VIOL("lookup", "looking up variable %d gives type %d", id, Cal_BddType(m, h));
    int k = ttOf[id];
    if (k >= 0) { checkFunction(h, TT::var(k), "lookup"); take(h, TT::var(k)); release(h); }
    else Cal_BddFree(m, h);
  }
  // ---------------------------------------------------------------- a pipeline, one stage per step
  // Between its stages the steps of other managers can take place.
  struct Prov { Bdd h; TT f; int depth; };
  struct { int stage = 0, op = 0, left = 0, chain = 5; std::vector<Prov> ps; } pipe;
  int deepPct = 3; // how often one provisional BDD is built on top of another without end
  void opPipeline() {
    pipe.op = rng.below(3);
    pipe.ps.clear();
    pipe.left = rng.chance(85) ? rng.range(1, 12) : rng.range(20, 70);
    pipe.chain = rng.chance(80) ? 5 : 60;
    if (nfun() <= 8 && rng.chance(deepPct)) { pipe.chain = 1000; pipe.left = rng.range(60, 290); }
    if (rng.chance(60)) {
      int d = rng.range(0, 6);
      rt::tr("%s pipeline depth %d", tag.c_str(), d);
      Cal_PipelineSetDepth(m, d);
    }
    begin("PipelineInit");
    rt::tr("%s pipeline init op=%d n=%d", tag.c_str(), pipe.op, pipe.left);
    if (Cal_PipelineInit(m, (Cal_BddOp_t)pipe.op) != 1) VIOL("pipeline", "%s: PipelineInit failed", tag.c_str());
    afterOp();
    pipelineBusy = true;
    pipe.stage = 1;
  }
  void pipeStep() {
    if (pipe.stage == 1) { // some more provisional results
      int n = std::min(pipe.left, pipe.chain > 100 ? 30 : rng.range(1, 8));
      for (int i = 0; i < n; i++) {
        Prov x;
        Bdd hh[2];
        TT ff[2];
        x.depth = 0;
        for (int j = 0; j < 2; j++) {
          std::vector<int> ok;
          if (pipe.chain > 100) { if (!pipe.ps.empty() && (j == 0 || rng.chance(20))) ok.push_back(j == 0 ? (int)pipe.ps.size() - 1 : rng.below((int)pipe.ps.size())); }
          else if (rng.chance(50)) for (size_t q = 0; q < pipe.ps.size(); q++) if (pipe.ps[q].depth < pipe.chain) ok.push_back((int)q);
          if (!ok.empty()) {
            const Prov &p = pipe.ps[rng.pick(ok)];
            hh[j] = p.h; ff[j] = p.f;
            x.depth = std::max(x.depth, p.depth + 1);
          } else {
            Arg a = arg(3);
            hh[j] = a.h; ff[j] = a.f;
          }
        }
        x.f = pipe.op == 0 ? ff[0] & ff[1] : pipe.op == 1 ? ff[0] | ff[1] : ff[0] ^ ff[1];
        rt::inOp = "CreateProvisional";
        rt::tr("%s provisional depth %d", tag.c_str(), x.depth);
        x.h = Cal_PipelineCreateProvisionalBdd(m, hh[0], hh[1]);
        if (!x.h) {
          fflush(stderr);
          if (x.depth < 100 || !rt::warningCount) VIOL("pipeline", "%s: provisional BDD of depth %d is null", tag.c_str(), x.depth);
          rt::clearErr(); // a dependency too deep is refused with a message
          rt::count("provisionals_too_deep");
          continue;
        }
        if (x.depth > 50) rt::count("deep_provisionals");
        if (!Cal_BddIsProvisional(m, x.h)) VIOL("pipeline", "%s: a provisional BDD is not recognised", tag.c_str());
        pipe.ps.push_back(x);
      }
      pipe.left -= n;
      if (pipe.left <= 0) pipe.stage = 2;
    } else if (pipe.stage == 2) {
      if (rng.chance(5)) { quitMidway(); return; }
      begin("PipelineExecute");
      rt::tr("%s execute", tag.c_str());
      int ok = Cal_PipelineExecute(m);
      if (ok != 1) VIOL("pipeline", "%s: PipelineExecute returned %d", tag.c_str(), ok);
      expectQuiet();
      afterOp();
      pipe.stage = 3;
    } else { // take the results, then quit
      std::vector<Slot> got;
      for (auto &x : pipe.ps) {
        if (rng.chance(15)) continue;
        rt::inOp = "PipelineUpdate";
        Bdd u = Cal_PipelineUpdateProvisionalBdd(m, x.h);
        if (!u) VIOL("pipeline", "%s: updating a provisional BDD gives null", tag.c_str());
        checkFunction(u, x.f, "pipelined result");
        takeUnchecked(u, x.f);
        if (log) log->add("pipeline", x.f.hash());
        got.push_back({u, x.f});
        rt::count("pipelined_results");
      }
      for (auto &g : got) checkRef(g.h);
      rt::inOp = "PipelineQuit";
      rt::tr("%s quit pipeline", tag.c_str());
      Cal_PipelineQuit(m);
      pipelineBusy = false;
      pipe.stage = 0;
      pipe.ps.clear();
      expectQuiet();
      doneArgs();
      checkStructure("pipeline");
      for (auto &g : got) {
        checkFunction(g.h, g.f, "pipelined result after quitting");
        if (rng.chance(40)) slots.push_back(g); else release(g.h);
      }
    }
  }
  void drain() { while (pipe.stage) pipeStep(); } // nothing else is to be asked in between
  void quitMidway() { // give the provisional results up
    if (!pipe.stage) return;
    rt::inOp = "PipelineQuit";
    rt::tr("%s quit pipeline in stage %d", tag.c_str(), pipe.stage);
    Cal_PipelineQuit(m);
    pipelineBusy = false;
    pipe.stage = 0;
    pipe.ps.clear();
    doneArgs();
    checkStructure("giving a pipeline up");
  }
  // ---------------------------------------------------------------- requests that are refused, and degenerate ones
  void opMisuse() {
    Arg a = arg();
    Bdd one = Cal_BddOne(m), zero = Cal_BddZero(m), c = rng.chance(50) ? one : zero;
    TT cf(c == one);
    int k = rng.below(nfun());
    Bdd v = varH[k];
    std::vector<Bdd> nonVar; // a function which is not a positive variable
    if (ttVarOf(a.f) < 0) nonVar.push_back(a.h);
    nonVar.push_back(c);
    nonVar.push_back((Bdd)(bits(v) ^ 1));
    Bdd nv = rng.pick(nonVar);
    int which = rng.below(31);
    begin("refused request");
    rt::tr("%s refused request %d%s", tag.c_str(), which, showArgs().c_str());
    std::vector<int> before = order;
    bool warn = false; // a message is due
    auto null = [&](Bdd r, const char *what) { if (r) VIOL("refused", "%s: %s does not return null", tag.c_str(), what); };
    switch (which) {
    case 0: {
      Cal_BddId_t id = Cal_BddGetIfId(m, c);
      if (id != 0) VIOL("inspect", "%s: GetIfId of a constant is %d", tag.c_str(), (int)id);
      Cal_BddId_t ix = Cal_BddGetIfIndex(m, c);
      if (ix != (Cal_BddId_t)-1 && ix < nvars()) VIOL("inspect", "%s: GetIfIndex of a constant is %d", tag.c_str(), (int)ix);
      break;
    }
    case 1: if (Cal_BddIsCube(m, one) != 1) VIOL("cube", "%s: one is not a cube", tag.c_str()); break;
    case 2:
      {
        long o = Cal_BddNodeLimit(m, -rng.range(1, 100)), o2 = Cal_BddNodeLimit(m, 0), o3 = Cal_BddNodeLimit(m, o);
        if (o < 0 || o2 != 0 || o3 != 0) VIOL("node-limit", "%s: the node limit reads %ld, then %ld after a negative one and %ld after none", tag.c_str(), o, o2, o3);
      }
      break;
    case 3: // no technique: nothing to do
      Cal_BddDynamicReordering(m, CAL_REORDER_NONE, rng.below(2));
      Cal_BddReorder(m);
      Cal_BddDynamicReordering(m, dynamic ? technique : CAL_REORDER_NONE, method);
      for (int i = 0; i < nvars(); i++) if (CalVerifIndexToId(m, i) != before[i]) VIOL("order", "%s: reordering without a technique changed the order", tag.c_str());
      break;
    case 4: {
      void *h = (void *)(bits(a.h) ^ 0x5a5a), *old = Cal_BddManagerGetHooks(m);
      Cal_BddManagerSetHooks(m, h);
      if (Cal_BddManagerGetHooks(m) != h) VIOL("hooks", "%s: the hooks are not kept", tag.c_str());
      Cal_BddManagerSetHooks(m, old);
      break;
    }
    case 5: case 6: { // an association for something which is no variable
      Bdd arr[] = {v, one, nv, a.h, nullptr};
      int skip = rng.chance(50) ? 2 : 0;
      if (skip == 0 && bits(nv) == bits(v)) break;
      int id = Cal_AssociationInit(m, arr + skip, 1);
      if (id >= 0) VIOL("assoc-id", "%s: an association of something which is no variable got id %d", tag.c_str(), id);
      warn = true;
      break;
    }
    case 7: { // the temporary association is not changed by it
      Bdd arr[] = {v, one, nv, a.h, nullptr};
      Cal_TempAssociationAugment(m, arr + (rng.chance(50) ? 2 : 0), 1);
      warn = true;
      break;
    }
    case 30: { // the temporary association is left empty
      Bdd arr[] = {v, one, nv, a.h, nullptr};
      Cal_TempAssociationInit(m, arr + (rng.chance(50) ? 2 : 0), 1);
      temp.bind.clear();
      warn = true;
      break;
    }
    case 8: case 9: { // no such association
      int id = rng.range(0, 12);
      if (assoc.count(id)) break;
      if (which == 8) Cal_AssociationQuit(m, id);
      else {
        int old = Cal_AssociationSetCurrent(m, id);
        if (old != current) VIOL("assoc-current", "%s: previous association reported as %d, expected %d", tag.c_str(), old, current);
        old = Cal_AssociationSetCurrent(m, -1);
        if (old != -1 && old != current) VIOL("assoc-current", "%s: association %d is current after a request for %d was refused", tag.c_str(), old, id);
        current = -1;
      }
      warn = true;
      break;
    }
    case 10: case 11: { // nothing to replace
      Bdd r = Cal_BddCompose(m, a.h, c, which == 10 ? v : one);
      afterOp();
      if (r) { checkFunction(r, a.f, "Compose for a constant"); takeUnchecked(r, a.f); release(r); }
      break;
    }
    case 12: (void)Cal_BddDependsOn(m, a.h, c); break;
    case 13: null(Cal_BddSwapVars(m, a.h, c, v), "SwapVars with a constant"); warn = true; break;
    case 14: null(Cal_BddSwapVars(m, a.h, v, c), "SwapVars with a constant"); warn = true; break;
    case 15: case 16: {
      Bdd r = which == 15 ? Cal_BddSatisfy(m, zero) : Cal_BddSatisfySupport(m, zero);
      if (r && r != zero) VIOL("contract", "%s: an assignment satisfies zero", tag.c_str());
      warn = true;
      break;
    }
    case 17: case 18: case 19: {
      Bdd arr[] = {nullptr};
      null(which == 17 ? Cal_BddMultiwayAnd(m, arr) : which == 18 ? Cal_BddMultiwayOr(m, arr) : Cal_BddMultiwayXor(m, arr), "a multiway operation on nothing");
      warn = true;
      break;
    }
    case 20: {
      Cal_Block b = Cal_BddNewVarBlock(m, c, rng.range(1, 3));
      if (b) VIOL("block", "%s: a block of a constant", tag.c_str());
      warn = true;
      break;
    }
    case 21: case 22: { // variables of a dump must be variables
      FILE *f = fmemopen(nullptr, 200, "w+");
      int error = -1;
      Bdd arr[] = {nv, v, nullptr};
      if (rng.chance(50)) std::swap(arr[0], arr[1]);
      null(Cal_BddUndumpBdd(m, arr, f, &error), "reading a dump for something which is no variable");
      fclose(f);
      warn = true;
      break;
    }
    case 23: case 24: { // a pipeline asked at the wrong time
      int op = rng.below(3);
      if (which == 24 && Cal_PipelineInit(m, (Cal_BddOp_t)rng.range(3, 9)) != 0) VIOL("pipeline", "%s: a pipeline of an unknown operation", tag.c_str());
      null(Cal_PipelineCreateProvisionalBdd(m, a.h, v), "a provisional BDD outside a pipeline");
      if (Cal_PipelineExecute(m) != 0) VIOL("pipeline", "%s: something that was not started is executed", tag.c_str());
      if (Cal_PipelineInit(m, (Cal_BddOp_t)op) != 1) VIOL("pipeline", "%s: PipelineInit failed", tag.c_str());
      afterOp();
      if (Cal_PipelineInit(m, (Cal_BddOp_t)rng.below(3)) != 0) VIOL("pipeline", "%s: a pipeline is started twice", tag.c_str());
      Bdd p = Cal_PipelineCreateProvisionalBdd(m, a.h, v);
      if (!p) VIOL("pipeline", "%s: provisional BDD is null", tag.c_str());
      null(Cal_PipelineUpdateProvisionalBdd(m, p), "updating before the execution");
      if (rng.chance(80)) {
        if (Cal_PipelineExecute(m) != 1) {
          if (!limited) VIOL("pipeline", "%s: PipelineExecute failed", tag.c_str());
          (void)Cal_BddOverflow(m);
        } else {
          afterOp();
          if (Cal_PipelineExecute(m) != 0) VIOL("pipeline", "%s: a pipeline is executed twice", tag.c_str());
          null(Cal_PipelineCreateProvisionalBdd(m, a.h, v), "a provisional BDD after the execution");
          Bdd r = Cal_PipelineUpdateProvisionalBdd(m, p);
          if (!r) VIOL("pipeline", "%s: updating a provisional BDD gives null", tag.c_str());
          TT e = op == 0 ? a.f & TT::var(k) : op == 1 ? a.f | TT::var(k) : a.f ^ TT::var(k);
          checkFunction(r, e, "pipelined result");
          takeUnchecked(r, e);
          release(r);
        }
      }
      Cal_PipelineQuit(m);
      warn = true;
      break;
    }
    case 25: Cal_PipelineSetDepth(m, rng.range(7, 50)); warn = true; break;
    case 26: Cal_PipelineQuit(m); break;
    case 27: case 28: case 29: {
      Bdd arr[] = {a.h, v, which == 28 ? a.h : nullptr, nullptr};
      if (rng.chance(50)) arr[0] = nullptr; // none at all
      if (which != 28 && arr[0]) arr[1] = nullptr;
      Bdd *r = which == 27 ? Cal_BddPairwiseAnd(m, arr) : which == 28 ? Cal_BddPairwiseOr(m, arr) : Cal_BddPairwiseXor(m, arr);
      if (r) VIOL("refused", "%s: operands without partner give an array", tag.c_str());
      break;
    }
    }
    afterOp();
    fflush(stderr);
    if (warn) rt::clearErr();
    expectQuiet();
    note(which);
    checkFunction(a.h, a.f, "operand of a refused request");
    checkStructure("refused request");
    opsDone++;
    rt::count("refused_requests");
    doneArgs();
  }
  void checkAll(const char *when) {
    drain();
    Ctx::checkAll(when);
  }
  void close(bool graceful) {
    drain();
    Ctx::close(graceful);
  }
  void trim() {
    while ((int)slots.size() > cfg.maxSlots) freeSlot(rng.below((int)slots.size()));
  }
};

inline void Session::opQueries() {
  if (!deep) return;
  Arg a = arg();
  begin("Queries");
  rt::tr("%s queries %s", tag.c_str(), showArgs().c_str());
  std::vector<Arg> as{a};
  int extra = rng.below(5);
  for (int i = 0; i < extra; i++) as.push_back(arg());
  if (rng.chance(3)) as.clear(); // an array of none
  std::vector<Bdd> arr;
  for (auto &x : as) arr.push_back(x.h);
  arr.push_back(nullptr);
  int n = nvars();
  std::vector<long> prof(n + 2, -7);
  long before = (long)Cal_BddManagerGetNumNodes(m);
  for (int neg = 0; neg <= 1; neg++) {
    for (int multi = 0; multi <= 1; multi++) {
      // read the order only after the call: it may trigger automatic reordering
      rt::inOp = multi ? "SizeMultiple" : "Size";
      long sz = multi ? Cal_BddSizeMultiple(m, arr.data(), neg) : Cal_BddSize(m, a.h, neg);
      afterOp();
      SubFun s(ttOrder());
      if (multi) for (auto &x : as) s.add(x.f); else s.add(a.f);
      bool none = multi && as.empty();
      long e = neg && !none ? s.nodes() + 1 : 0;
      if (!neg) { for (auto &l : s.funLevels) e += (long)l.size(); e += s.one + s.zero; }
      if (sz != e) VIOL("size", "%s: Size%s(negout=%d) is %ld, expected %ld (args%s)", tag.c_str(), multi ? "Multiple" : "", neg, sz, e, showArgs().c_str());
      rt::inOp = multi ? "ProfileMultiple" : "Profile";
      std::fill(prof.begin(), prof.end(), -7);
      if (multi) Cal_BddProfileMultiple(m, arr.data(), prof.data(), neg); else Cal_BddProfile(m, a.h, prof.data(), neg);
      afterOp();
      SubFun s2(ttOrder());
      if (multi) for (auto &x : as) s2.add(x.f); else s2.add(a.f);
      std::vector<long> ep(n + 2, 0);
      ep[n + 1] = -7;
      for (size_t i = 0; i < s2.ord.size(); i++) ep[indexOfTT(s2.ord[i])] = neg ? (long)s2.posLevels[i].size() : (long)s2.funLevels[i].size();
      ep[n] = none ? 0 : neg ? 1 : s2.one + s2.zero;
      for (int i = 0; i < n + 2; i++)
        if (prof[i] != ep[i]) VIOL("profile", "%s: Profile%s(negout=%d)[%d] is %ld, expected %ld (args%s)", tag.c_str(), multi ? "Multiple" : "", neg, i, prof[i], ep[i], showArgs().c_str());
    }
  }
  for (int multi = 0; multi <= 1; multi++) {
    rt::inOp = multi ? "FunctionProfileMultiple" : "FunctionProfile";
    std::fill(prof.begin(), prof.end(), -7);
    if (multi) Cal_BddFunctionProfileMultiple(m, arr.data(), prof.data()); else Cal_BddFunctionProfile(m, a.h, prof.data());
    afterOp();
    std::vector<long> ep(n + 2, 0);
    ep[n + 1] = -7;
    // distinct functions after fixing the variables above each level
    std::unordered_set<TT, TTHash> cur;
    if (multi) for (auto &x : as) cur.insert(x.f); else cur.insert(a.f);
    std::vector<int> o = ttOrder();
    for (size_t i = 0; i < o.size(); i++) {
      bool dep = false;
      std::unordered_set<TT, TTHash> nx;
      for (auto &f : cur) {
        if (f.dependsOn(o[i])) dep = true;
        nx.insert(f.cof(o[i], true)); nx.insert(f.cof(o[i], false));
      }
      ep[indexOfTT(o[i])] = dep ? (long)cur.size() : 0;
      cur.swap(nx);
    }
    ep[n] = (long)cur.size();
    for (int i = 0; i < n + 2; i++)
      if (prof[i] != ep[i]) VIOL("function-profile", "%s: FunctionProfile%s[%d] is %ld, expected %ld (args%s)", tag.c_str(), multi ? "Multiple" : "", i, prof[i], ep[i], showArgs().c_str());
  }
  // support
  {
    std::vector<Bdd> sup(n + 2, (Bdd)(uintptr_t)16);
    rt::inOp = "Support";
    Cal_BddSupport(m, a.h, sup.data());
    afterOp();
    std::set<int> got, want;
    int i = 0;
    for (; i <= n && sup[i]; i++) {
      if (Cal_BddType(m, sup[i]) != CAL_BDD_TYPE_POSVAR) VIOL("support", "element %d of the support is not a variable", i);
      int id = Cal_BddGetIfId(m, sup[i]);
      int k = ttOf[id];
      if (k < 0 || !got.insert(k).second) VIOL("support", "element %d of the support (id %d) is unrelated or repeated", i, id);
      take(sup[i], TT::var(k));
    }
    if (i > n) VIOL("support", "support array is not terminated");
    for (int k = 0; k < nfun(); k++) if (a.f.dependsOn(k)) want.insert(k);
    if (got != want) VIOL("support", "%s: support has %zu variables, expected %zu", tag.c_str(), got.size(), want.size());
    for (int j = 0; j < i; j++) release(sup[j]);
  }
  for (int k = 0; k < nfun(); k++) {
    rt::inOp = "DependsOn";
    int d = Cal_BddDependsOn(m, a.h, varH[k]);
    if ((d != 0) != a.f.dependsOn(k)) VIOL("depends", "%s: DependsOn is %d for variable id %d", tag.c_str(), d, idOf[k]);
  }
  if (!dummyH.empty()) {
    int d = Cal_BddDependsOn(m, a.h, dummyH[rng.below((int)dummyH.size())]);
    if (d) VIOL("depends", "%s: DependsOn an unrelated variable", tag.c_str());
  }
  rt::inOp = "SatisfyingFraction";
  double fr = Cal_BddSatisfyingFraction(m, a.h);
  if (fr != a.f.fraction()) VIOL("fraction", "%s: SatisfyingFraction is %.17g, expected %.17g", tag.c_str(), fr, a.f.fraction());
  if (!a.f.isConst()) {
    rt::inOp = "IsCube";
    int c = Cal_BddIsCube(m, a.h);
    if ((c != 0) != isCubeTT(a.f)) VIOL("cube", "%s: IsCube is %d for %lx", tag.c_str(), c, (unsigned long)a.f.w[0]);
  }
  expectQuiet();
  for (auto &x : as) checkFunction(x.h, x.f, "operand of a query");
  (void)before;
  note(a.f.hash());
  opKinds.insert("Queries");
  opsDone++;
  rt::count("queries");
  doneArgs();
}

inline void Session::opInspect() {
  Arg a = arg(5);
  begin("Inspect");
  rt::tr("%s inspect%s", tag.c_str(), showArgs().c_str());
  int ty = Cal_BddType(m, a.h), want;
  int pv = ttVarOf(a.f), nv = ttVarOf(~a.f);
  want = a.f.isZero() ? CAL_BDD_TYPE_ZERO : a.f.isOne() ? CAL_BDD_TYPE_ONE : pv >= 0 ? CAL_BDD_TYPE_POSVAR : nv >= 0 ? CAL_BDD_TYPE_NEGVAR : CAL_BDD_TYPE_NONTERMINAL;
  if (ty != want) VIOL("type", "%s: type is %d, expected %d (%lx)", tag.c_str(), ty, want, (unsigned long)a.f.w[0]);
  if (Cal_BddType(m, Cal_BddNull(m)) != CAL_BDD_TYPE_OVERFLOW) VIOL("type", "type of null is not overflow");
  if (!a.f.isConst()) {
    rt::inOp = "If";
    Bdd i = Cal_BddIf(m, a.h);
    afterOp();
    int ti = topIndex(a.f);
    int k = ttOf[order[ti]];
    if (!i) VIOL("inspect", "If returned null");
    checkFunction(i, TT::var(k), "If");
    takeUnchecked(i, TT::var(k));
    if (Cal_BddGetIfIndex(m, a.h) != ti) VIOL("inspect", "%s: GetIfIndex is %d, expected %d", tag.c_str(), (int)Cal_BddGetIfIndex(m, a.h), ti);
    if (Cal_BddGetIfId(m, a.h) != order[ti]) VIOL("inspect", "%s: GetIfId is %d, expected %d", tag.c_str(), (int)Cal_BddGetIfId(m, a.h), order[ti]);
    rt::inOp = "Then";
    Bdd t = Cal_BddThen(m, a.h);
    afterOp();
    // a reordering between the calls changes the expansion
    k = ttOf[order[topIndex(a.f)]];
    if (!t) VIOL("inspect", "Then returned null");
    TT tf = a.f.cof(k, true);
    checkFunction(t, tf, "Then");
    takeUnchecked(t, tf);
    rt::inOp = "Else";
    Bdd e = Cal_BddElse(m, a.h);
    afterOp();
    k = ttOf[order[topIndex(a.f)]];
    TT ef = a.f.cof(k, false);
    if (!e) VIOL("inspect", "Else returned null");
    checkFunction(e, ef, "Else");
    takeUnchecked(e, ef);
    if (!dynamic) {
      rt::inOp = "ITE";
      Bdd r = Cal_BddITE(m, i, t, e);
      afterOp();
      if (!r && !limited) VIOL("inspect", "ITE of the expansion is null");
      if (r) {
        if (r != a.h) VIOL("inspect", "%s: ITE(If,Then,Else) is not the BDD", tag.c_str());
        takeUnchecked(r, a.f);
        release(r);
      } else overflowed(nullptr);
    }
    release(i);
    checkRef(t); checkRef(e);
    release(t); release(e);
    rt::inOp = "GetRegular";
    Bdd r1 = Cal_BddGetRegular(m, a.h);
    if (r1 != a.h && bits(r1) != (bits(a.h) ^ 1)) VIOL("inspect", "the regular form is neither the BDD nor its complement");
    Bdd n = Cal_BddNot(m, a.h);
    takeUnchecked(n, ~a.f);
    Bdd r2 = Cal_BddGetRegular(m, n);
    if (r1 != r2) VIOL("inspect", "the regular forms of a BDD and its complement differ");
    release(n);
  }
  expectQuiet();
  note(a.f.hash());
  opsDone++;
  opKinds.insert("Inspect");
  rt::count("inspections");
  doneArgs();
}

static const OpDef opTable[] = {
    {"and", &Session::opAnd}, {"or", &Session::opOr}, {"nand", &Session::opNand}, {"nor", &Session::opNor},
    {"xor", &Session::opXor}, {"xnor", &Session::opXnor}, {"not", &Session::opNot}, {"identity", &Session::opIdentity},
    {"ite", &Session::opIte}, {"multiand", &Session::opMultiAnd}, {"multior", &Session::opMultiOr},
    {"multixor", &Session::opMultiXor}, {"pairand", &Session::opPairAnd}, {"pairor", &Session::opPairOr},
    {"pairxor", &Session::opPairXor}, {"build", &Session::opRandomFun}, {"associnit", &Session::opAssocInit},
    {"assocset", &Session::opAssocSet}, {"assocquit", &Session::opAssocQuit}, {"tempinit", &Session::opTempInit},
    {"tempaug", &Session::opTempAugment}, {"tempquit", &Session::opTempQuit}, {"exists", &Session::opExists},
    {"forall", &Session::opForAll}, {"relprod", &Session::opRelProd}, {"compose", &Session::opCompose},
    {"substitute", &Session::opSubstitute}, {"varsubst", &Session::opVarSubstitute}, {"swapvars", &Session::opSwapVars},
    {"cofactor", &Session::opCofactor}, {"reduce", &Session::opReduce}, {"between", &Session::opBetween},
    {"intersects", &Session::opIntersects}, {"implies", &Session::opImplies}, {"satisfy", &Session::opSatisfy},
    {"satsupport", &Session::opSatisfySupport}, {"free", &Session::opFree}, {"freemany", &Session::opFreeMany},
    {"unfree", &Session::opUnFree}, {"gc", &Session::opGC}, {"gclimit", &Session::opGCLimit}, {"pipeline", &Session::opPipeline},
    {"scribble", &Session::opScribble}, {"stats", &Session::opStats}, {"hugelimit", &Session::opHugeLimit}, {"gcmode", &Session::opGCMode}, {"params", &Session::opParams},
    {"reorder", &Session::opReorder}, {"dynamic", &Session::opDynamic}, {"newvar", &Session::opNewVar},
    {"newdummy", &Session::opNewDummy}, {"check", &Session::opCheck}, {"structure", &Session::opStructure},
    {"queries", &Session::opQueries}, {"inspect", &Session::opInspect}, {"misuse", &Session::opMisuse}, {"lookup", &Session::opLookup},
};

inline void Session::use(const std::string &spec) {
  ops.clear();
  totalWeight = 0;
  size_t p = 0;
  while (p < spec.size()) {
    size_t q = spec.find(' ', p);
    if (q == std::string::npos) q = spec.size();
    std::string item = spec.substr(p, q - p);
    p = q + 1;
    if (item.empty()) continue;
    size_t c = item.find(':');
    int w = c == std::string::npos ? 1 : atoi(item.c_str() + c + 1);
    std::string name = item.substr(0, c);
    const OpDef *d = nullptr;
    for (auto &o : opTable) if (name == o.name) d = &o;
    if (!d) { fprintf(rt::out, "HARNESS unknown op %s\n", name.c_str()); rt::finished = true; exit(3); }
    ops.push_back({d, w});
    totalWeight += w;
  }
}
inline void Session::step() {
  if (pipe.stage) { pipeStep(); return; } // nothing else of this manager in between
  int p = rng.below(totalWeight);
  for (auto &o : ops) {
    if (p < o.second) {
      (this->*(o.first->fn))();
      break;
    }
    p -= o.second;
  }
  trim();
}
