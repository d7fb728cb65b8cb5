// Monitor for the C interface: runs generated sessions on the real library and
// watches them with the monitors of model.h and session.h.
#include <sys/personality.h>
#include "session.h"
#include "scale.h"
#include <sstream>
#include <cerrno>

int TT::W = 6;
extern "C" void __real_free(void *);

static const char *BOOL = "and:6 or:6 nand:4 nor:4 xor:6 xnor:4 not:2 identity:2 ite:9 multiand:3 multior:3 multixor:3 pairand:3 pairor:3 pairxor:3 build:5 ";
static const char *MEM = "free:4 freemany:2 unfree:1 gc:2 scribble:1 gclimit:1 ";
static const char *QUANT = "associnit:4 assocset:3 assocquit:2 tempinit:4 tempaug:1 tempquit:1 exists:6 forall:6 relprod:6 ";
static const char *SUBST = "associnit:4 assocset:3 assocquit:2 tempinit:3 tempaug:2 compose:6 substitute:6 varsubst:6 swapvars:6 ";
static const char *DC = "cofactor:5 reduce:5 between:4 intersects:4 implies:4 satisfy:4 satsupport:4 associnit:1 assocset:1 tempinit:1 ";
static const char *ALLQ = "queries:3 inspect:3 lookup:1 ";

struct Verdict { bool nontrivial = true; uint64_t sig = 0; std::string sample; };

static Cfg stdCfg(Rng &r) {
  Cfg c;
  c.universe = r.range(3, 8);
  c.init = r.range(2, c.universe);
  c.dummies = r.chance(12) ? r.range(20, 45) : r.chance(30) ? r.range(1, 5) : 0;
  c.maxSlots = r.range(6, 24);
  return c;
}
// now and then a session of the size the library's own thresholds are made for
static bool maybeBig(Rng &r, Cfg &c, int perMille, int maxVars) {
  if (r.below(1000) >= perMille) return false;
  c.universe = c.init = r.range(11, maxVars);
  c.dummies = r.chance(20) ? r.range(1, 10) : 0;
  c.maxSlots = r.range(12, 40);
  setTunables(r, r.chance(25));
  rt::count("big_sessions");
  return true;
}
static void summary(Session &s, Verdict &v) {
  v.sig ^= s.sig;
  std::ostringstream o;
  o << "vars=" << s.nvars() << " ops=" << s.opsDone << " kinds=" << s.opKinds.size() << " gc=" << s.lastGCs << " reorderings=" << s.lastReorderings
    << " order=[";
  for (int i = 0; i < s.nvars() && i < 12; i++) o << (i ? "," : "") << s.order[i];
  o << "] last: ";
  for (size_t i = rt::trace.size() > 3 ? rt::trace.size() - 3 : 0; i < rt::trace.size(); i++) o << rt::trace[i] << "; ";
  v.sample += o.str();
}
static void memoryRegime(Rng &r) {
  rt::alloc.rng = Rng(r.next());
  rt::alloc.junkByte = (unsigned char)r.next();
  rt::alloc.scatter = r.chance(30);
  rt::alloc.failBig = 0;
}
// a session with the usual set-up, `n` steps of `spec`, checked at the end
static Verdict plain(uint64_t seed, const std::string &spec, int n, Cfg c, int checkEvery, int method = -1) {
  Verdict v;
  Session s(seed);
  s.onlyMethod = method;
  s.setup(c, "m");
  s.use(spec);
  for (int i = 0; i < n; i++) {
    s.step();
    if (checkEvery && i % checkEvery == checkEvery - 1) s.checkAll("step");
  }
  summary(s, v);
  v.nontrivial = s.opsDone >= 10 && s.opKinds.size() >= 3;
  s.close(true);
  return v;
}

// ------------------------------------------------------------------ C01
static Verdict c01(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  bool hostile = r.chance(75);
  setTunables(r, hostile);
  Cfg c = stdCfg(r);
  if (r.chance(8)) { // large operands and default thresholds: table growth, rehashing
    c.universe = c.init = r.range(11, 13);
    c.maxSlots = 12;
    c.dummies = 0;
    setTunables(r, false);
    return plain(seed, std::string(BOOL) + "build:20 free:3 gc:1 reorder:1", 60, c, 0);
  }
  return plain(seed, std::string(BOOL) + MEM + "exists:1 tempinit:1 compose:1 swapvars:1 cofactor:1 pipeline:1 reorder:1 newvar:1 dynamic:1 params:1", r.range(60, 200), c, 40);
}

// ------------------------------------------------------------------ C02
struct C02 : Session {
  using Session::Session;
  // compute the function of a slot again, another way; the monitor of
  // canonicity compares the handles
  void rebuild() {
    if (slots.empty()) return;
    Slot s = slots[rng.below((int)slots.size())];
    int way = rng.below(6);
    rt::tr("m rebuild way=%d", way);
    opKinds.insert("rebuild");
    Arg g = arg(0);
    switch (way) {
    case 0: { // Shannon expansion over the variables in any order
      std::vector<int> vs;
      for (int k = 0; k < nfun(); k++) if (s.f.dependsOn(k)) vs.push_back(k);
      for (size_t i = 0; i + 1 < vs.size(); i++) std::swap(vs[i], vs[i + rng.below((int)(vs.size() - i))]);
      Slot x = shannon(vs, 0, s.f);
      if (x.h) same(x, s);
      break;
    }
    case 1: { // (f and g) or (f and not g)
      begin("rebuild");
      Bdd ng = Cal_BddNot(m, g.h); take(ng, ~g.f);
      Bdd a = Cal_BddAnd(m, s.h, g.h); take(a, s.f & g.f);
      Bdd b = Cal_BddAnd(m, s.h, ng); take(b, s.f & ~g.f);
      Bdd c = Cal_BddOr(m, b, a); take(c, s.f);
      afterOp(); same({c, s.f}, s);
      release(ng); release(a); release(b);
      break;
    }
    case 2: { // (f xor g) xnor not g
      begin("rebuild");
      Bdd a = Cal_BddXor(m, s.h, g.h); take(a, s.f ^ g.f);
      Bdd ng = Cal_BddNot(m, g.h); take(ng, ~g.f);
      Bdd c = Cal_BddXnor(m, a, ng); take(c, s.f);
      afterOp(); same({c, s.f}, s);
      release(a); release(ng);
      break;
    }
    case 3: { // De Morgan with multiway operations
      begin("rebuild");
      Bdd nf = Cal_BddNot(m, s.h); take(nf, ~s.f);
      Bdd arr[3] = {nf, nf, nullptr};
      Bdd a = Cal_BddMultiwayOr(m, arr); take(a, ~s.f);
      Bdd c = Cal_BddNor(m, a, nf); take(c, s.f);
      afterOp(); same({c, s.f}, s);
      release(nf); release(a);
      break;
    }
    case 4: { // compose a variable with itself
      int k = rng.below(nfun());
      begin("rebuild");
      Bdd c = Cal_BddCompose(m, s.h, varH[k], varH[k]); take(c, s.f);
      afterOp(); same({c, s.f}, s);
      break;
    }
    default: { // swap twice
      int k = rng.below(nfun()), j = rng.below(nfun());
      begin("rebuild");
      TT sf = s.f.swap(k, j);
      Bdd a = Cal_BddSwapVars(m, s.h, varH[k], varH[j]); take(a, sf);
      Bdd c = Cal_BddSwapVars(m, a, varH[j], varH[k]); take(c, s.f);
      afterOp(); same({c, s.f}, s);
      release(a);
      break;
    }
    }
    opsDone++;
    rt::count("rebuilds");
    doneArgs();
  }
  Slot shannon(const std::vector<int> &vs, size_t i, const TT &f) {
    if (f.isConst()) return {f.isOne() ? Cal_BddOne(m) : Cal_BddZero(m), f};
    while (!f.dependsOn(vs[i])) i++;
    Slot t = shannon(vs, i + 1, f.cof(vs[i], true)), e = shannon(vs, i + 1, f.cof(vs[i], false));
    rt::inOp = "ITE(rebuild)";
    Bdd r = Cal_BddITE(m, varH[vs[i]], t.h, e.h);
    take(r, f);
    if (!t.f.isConst()) release(t.h);
    if (!e.f.isConst()) release(e.h);
    return {r, f};
  }
  void same(const Slot &x, const Slot &s) {
    checkFunction(x.h, s.f, "rebuilt function");
    if (x.h != s.h || !Cal_BddIsEqual(m, x.h, s.h)) VIOL("canonicity", "a function computed in another way has another handle");
    if (!x.f.isConst()) release(x.h);
  }
};
static Verdict c02(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(80));
  Cfg c = stdCfg(r);
  bool big = maybeBig(r, c, 8, 12);
  Verdict v;
  C02 s(seed);
  s.setup(c, "m");
  s.use(std::string("and:3 or:3 xor:3 nand:1 nor:1 xnor:1 not:2 ite:4 multiand:1 pairor:1 build:5 identity:1 ") + MEM +
        "associnit:1 tempinit:1 exists:2 relprod:2 compose:2 substitute:2 varsubst:1 swapvars:2 cofactor:2 reduce:2 between:1 implies:1 intersects:1 forall:1 tempaug:1 assocset:1 assocquit:1 multixor:1 pairxor:1 satisfy:1 satsupport:1 inspect:1 reorder:2 newvar:1 dynamic:1 params:1 pipeline:1");
  int n = big ? 50 : r.range(50, 150);
  for (int i = 0; i < n; i++) {
    s.step();
    if (!s.pipelineBusy && r.chance(25)) s.rebuild();
    if (i % 40 == 39) s.checkAll("step");
  }
  summary(s, v);
  v.nontrivial = s.opKinds.count("rebuild") && s.opsDone >= 20;
  s.close(true);
  return v;
}

// ------------------------------------------------------------------ C03
// very many quantifications under temporary associations
static Verdict c03many(uint64_t seed, Rng &r) {
  Verdict v;
  setTunables(r, false);
  if (r.chance(50)) calVerifLargeBdd = 0;
  Session s(seed);
  Cfg c;
  c.universe = c.init = r.range(4, 6);
  c.maxSlots = 40;
  s.setup(c, "m");
  s.use("build:1");
  while (s.slots.size() < 12) s.step();
  int n = (int)s.slots.size();
  // expected handles per variable set, computed with named associations
  const int NSETS = 4;
  std::vector<std::vector<Bdd>> sets;
  std::vector<std::vector<Bdd>> expE(NSETS), expA(NSETS), expR(NSETS);
  for (int k = 0; k < NSETS; k++) {
    std::vector<Bdd> a;
    AssocModel mod;
    for (int i = 0; i < s.nfun(); i++)
      if (((k + 1) >> (i % 3)) & 1) { a.push_back(s.varH[i]); mod.bind[s.idOf[i]] = TT(true); }
    a.push_back(nullptr);
    sets.push_back(a);
    int id = Cal_AssociationInit(s.m, a.data(), 0);
    mod.refs = 1;
    s.assoc[id] = mod;
    s.setCurrent(id);
    for (int i = 0; i < n; i++) {
      TT fe = s.quant(s.slots[i].f, true), fa = s.quant(s.slots[i].f, false), fr = s.quant(s.slots[i].f & s.slots[(i + 1) % n].f, true);
      Bdd e = Cal_BddExists(s.m, s.slots[i].h);
      s.checkFunction(e, fe, "Exists"); s.take(e, fe); expE[k].push_back(e);
      e = Cal_BddForAll(s.m, s.slots[i].h);
      s.checkFunction(e, fa, "ForAll"); s.take(e, fa); expA[k].push_back(e);
      e = Cal_BddRelProd(s.m, s.slots[i].h, s.slots[(i + 1) % n].h);
      s.checkFunction(e, fr, "RelProd"); s.take(e, fr); expR[k].push_back(e);
    }
  }
  s.setCurrent(-1);
  long total = 70000;
  long perSet = r.pick(std::vector<long>{65536, 65535, 32768, 1000, 20000, 65534});
  int mode = r.below(3);
  int k = -1;
  s.begin("temp quantification");
  for (long i = 0; i < total; i++) {
    int nk = (int)((i / perSet) % NSETS);
    if (nk != k) {
      k = nk;
      Cal_TempAssociationInit(s.m, sets[k].data(), 0);
    }
    int j = (int)(i % n);
    Bdd e, want;
    // a conjunction now and then keeps results of other operations cached
    if (i % 64 == 0) { Bdd x = Cal_BddAnd(s.m, s.slots[j].h, s.slots[(j + 1) % n].h); Cal_BddFree(s.m, x); }
    switch (mode) {
    case 0: e = Cal_BddExists(s.m, s.slots[j].h); want = expE[k][j]; break;
    case 1: e = Cal_BddForAll(s.m, s.slots[j].h); want = expA[k][j]; break;
    default: e = Cal_BddRelProd(s.m, s.slots[j].h, s.slots[(j + 1) % n].h); want = expR[k][j]; break;
    }
    if (e != want) VIOL("wrong-function", "quantification %ld under a temporary association (mode %d) is wrong", i, mode);
    Cal_BddFree(s.m, e);
    rt::counters["ops_checked"]++;
  }
  s.lastGCs = CalVerifNumGC(s.m);
  Cal_TempAssociationQuit(s.m);
  for (k = 0; k < NSETS; k++) for (int i = 0; i < n; i++) { s.release(expE[k][i]); s.release(expA[k][i]); s.release(expR[k][i]); }
  rt::count("many_temp_quantifications");
  v.sig = s.sig ^ mode ^ perSet;
  v.sample = "70000 quantifications under temporary associations, variable set changed every " + std::to_string(perSet) + " calls";
  s.close(true);
  return v;
}
static Verdict c03(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  if (r.below(1000) < 1) return c03many(seed, r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  if (maybeBig(r, c, 8, 13)) return plain(seed, std::string(QUANT) + "build:20 and:4 or:2 xor:4 ite:2 not:1 free:2 gc:1 reorder:1 dynamic:1", 60, c, 0);
  return plain(seed, std::string(QUANT) + "build:6 and:2 or:2 xor:2 ite:2 not:1 varsubst:2 " + MEM + "reorder:1 newvar:1 dynamic:1 params:1 misuse:1", r.range(60, 200), c, 50);
}
// ------------------------------------------------------------------ C04
static Verdict c04(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  if (maybeBig(r, c, 8, 12)) return plain(seed, std::string(SUBST) + "build:20 and:4 or:2 xor:4 ite:2 not:1 free:2 gc:1 reorder:1 dynamic:1", 50, c, 0);
  return plain(seed, std::string(SUBST) + "build:6 and:2 or:2 xor:2 ite:2 not:1 exists:1 " + MEM + "reorder:1 newvar:1 dynamic:1 params:1 misuse:1", r.range(60, 200), c, 50);
}
// ------------------------------------------------------------------ C05
static Verdict c05(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  if (maybeBig(r, c, 8, 13)) return plain(seed, std::string(DC) + "build:20 and:4 or:2 xor:4 ite:2 not:1 free:2 gc:1 reorder:1 dynamic:1", 50, c, 0);
  return plain(seed, std::string(DC) + "build:6 and:3 or:3 xor:2 ite:2 not:1 " + MEM + "reorder:1 newvar:1 dynamic:1 params:1 misuse:1", r.range(60, 200), c, 50);
}
// ------------------------------------------------------------------ C06
static Verdict c06(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  Verdict v;
  Cfg c = stdCfg(r);
  bool big = r.chance(12);
  setTunables(r, !big);
  if (big) { c.universe = c.init = r.range(11, 13); c.dummies = 0; c.maxSlots = r.range(10, 40); }
  int rounds = big ? 2 : r.range(2, 4);
  Session s(seed);
  s.setup(c, "m");
  std::string spec = std::string(BOOL) + "free:8 freemany:4 unfree:3 gc:4 scribble:3 gclimit:1 gcmode:1 params:2 associnit:2 assocset:1 assocquit:2 tempinit:2 tempaug:1 exists:1 forall:1 relprod:1 substitute:1 varsubst:1 compose:1 swapvars:2 cofactor:1 reduce:1 between:1 intersects:1 implies:1 satisfy:1 satsupport:1 queries:1 lookup:1 newvar:1 pipeline:1 ";
  if (!big) spec += "reorder:1 dynamic:1 ";
  else spec += "build:40 ";
  s.use(spec);
  long first = -1;
  for (int k = 0; k < rounds; k++) {
    int n = big ? 60 : r.range(30, 120);
    for (int i = 0; i < n; i++) s.step();
    // everything freed and collected: only the variables remain
    s.checkAll("round");
    while (!s.slots.empty()) s.freeSlot((int)s.slots.size() - 1);
    while (!s.assoc.empty()) {
      auto it = s.assoc.begin();
      int id = it->first, refs = it->second.refs;
      if (s.current == id) s.setCurrent(-1);
      for (int i = 0; i < refs; i++) Cal_AssociationQuit(s.m, id);
      s.assoc.erase(it);
    }
    s.opTempQuit();
    s.gcExplicit();
    s.lastGCs = CalVerifNumGC(s.m);
    CalVerifScribbleFreeNodes(s.m);
    s.checkStructure("collection of everything");
    long nodes = (long)Cal_BddManagerGetNumNodes(s.m);
    if (CalVerifNumSaturated(s.m) == 0 && nodes != s.nvars() + 1)
      VIOL("leaked-nodes", "round %d: %ld nodes remain after freeing everything, expected %d", k, nodes, s.nvars() + 1);
    (void)first;
    rt::count("complete_collections");
  }
  summary(s, v);
  v.nontrivial = s.lastGCs > 0;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C07
static Verdict c07(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  Verdict v;
  Cfg c = stdCfg(r);
  bool big = r.chance(10);
  setTunables(r, !big || r.chance(50));
  if (big) { c.universe = c.init = r.range(10, 11); c.dummies = r.below(6); c.maxSlots = r.range(6, 14); }
  else { c.universe = r.range(4, 9); c.init = r.range(3, c.universe); }
  Session s(seed);
  s.onlyMethod = r.chance(70) ? r.below(2) : -1;
  s.sizeOracle = r.chance(30) ? 50 : 0;
  s.improveOracle = false;
  s.setup(c, "m");
  s.use(std::string("build:8 and:2 or:2 xor:3 ite:3 not:1 multixor:1 pairxor:1 associnit:2 assocset:1 assocquit:1 tempinit:2 tempaug:1 exists:2 relprod:1 substitute:2 varsubst:2 compose:1 swapvars:1 cofactor:1 reduce:1 intersects:1 satsupport:1 multiand:1 pairor:1 pipeline:1 "
        "reorder:8 dynamic:2 params:3 newvar:1 inspect:1 queries:1 ") + MEM);
  int n = big ? r.range(25, 40) : r.range(40, 120);
  for (int i = 0; i < n; i++) s.step();
  summary(s, v);
  v.nontrivial = s.lastReorderings > 0;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C08
static Verdict c08(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(60));
  Cfg c = stdCfg(r);
  return plain(seed, std::string("queries:14 build:8 and:2 or:2 xor:2 ite:2 not:1 inspect:1 satisfy:2 exists:1 tempinit:1 ") + MEM + "reorder:1 newvar:1 dynamic:1 misuse:1", r.range(40, 120), c, 40);
}
// ------------------------------------------------------------------ streams
static std::string dumpTo(Session &s, const std::vector<std::pair<Bdd, TT>> &fs, const std::vector<Bdd> &vars, std::vector<size_t> *ends = nullptr) {
  char *buf = nullptr;
  size_t len = 0;
  FILE *f = open_memstream(&buf, &len);
  for (auto &x : fs) {
    s.begin("DumpBdd");
    long h0 = CalVerifNumHandles(s.m);
    (void)h0;
    int ok = Cal_BddDumpBdd(s.m, x.first, (Bdd *)vars.data(), f);
    s.expectQuiet();
    s.afterOp();
    if (ok != 1) VIOL("dump", "dumping returned %d", ok);
    fflush(f);
    if (ends) ends->push_back(len);
    s.checkFunction(x.first, x.second, "dumped BDD");
  }
  fclose(f);
  std::string r(buf, len);
  __real_free(buf);
  rt::count("dumps", (long)fs.size());
  return r;
}
// random variable list covering `need`
static std::vector<int> varList(Session &s, Rng &r, const std::set<int> &need, bool exact) {
  std::vector<int> v;
  for (int k = 0; k < s.nfun(); k++)
    if (need.count(k) || (!exact && r.chance(60))) v.push_back(k);
  for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + r.below((int)(v.size() - i))]);
  return v;
}
// large and wide dumps: labels and indices of more than one byte; judged by
// the handles, which are unique, and by sampled valuations
static Verdict c09big(uint64_t seed, Rng &r) {
  Verdict v;
  setTunables(r, r.chance(30));
  rt::count("big_dumps");
  bool huge = r.below(100) < 2;
  int nsel = huge ? 15 : r.range(8, 10), nleaf = huge ? 5 : 4, n = nsel + nleaf;
  long base = rt::liveBlocks();
  Cal_BddManager ms[2];
  std::vector<Bdd> vars[2], extra[2];
  int wide = r.chance(50) ? r.range(253, 260) : r.below(30);
  for (int k = 0; k < 2; k++) {
    ms[k] = Cal_BddManagerInit();
    for (int i = 0; i < n; i++) vars[k].push_back(k ? (r.chance(50) ? Cal_BddManagerCreateNewVarFirst(ms[k]) : Cal_BddManagerCreateNewVarLast(ms[k])) : Cal_BddManagerCreateNewVarLast(ms[k]));
    for (int i = n; i < wide; i++) extra[k].push_back(r.chance(50) ? Cal_BddManagerCreateNewVarFirst(ms[k]) : Cal_BddManagerCreateNewVarLast(ms[k]));
  }
  Cal_BddManager m = ms[0];
  auto dump = [&](Cal_BddManager mm, Bdd f, const std::vector<Bdd> &l) {
    char *buf = nullptr; size_t len = 0;
    FILE *fp = open_memstream(&buf, &len);
    rt::inOp = "DumpBdd(big)";
    int ok = Cal_BddDumpBdd(mm, f, (Bdd *)l.data(), fp);
    fclose(fp);
    std::string d(buf, len);
    __real_free(buf);
    if (ok != 1) VIOL("dump", "dumping returned %d", ok);
    return d;
  };
  auto undump = [&](Cal_BddManager mm, const std::string &d, const std::vector<Bdd> &l) {
    FILE *fp = fmemopen((void *)d.data(), d.size(), "r");
    int err = 99;
    rt::inOp = "UndumpBdd(big)";
    Bdd x = Cal_BddUndumpBdd(mm, (Bdd *)l.data(), fp, &err);
    if (!x || err) VIOL("undump", "undumping a large BDD (%zu bytes) gives error %d", d.size(), err);
    if (ftell(fp) != (long)d.size()) VIOL("undump", "reading leaves the stream at %ld instead of %zu", ftell(fp), d.size());
    fclose(fp);
    return x;
  };
  auto eval = [&](int k, Bdd f, const std::vector<int> &pos, uint64_t val) { // pos: id -> bit
    CalVerifEdge_t e = CalVerifRoot(ms[k], f);
    for (int steps = 0; steps < 4000; steps++) {
      if (CalVerifIsOne(ms[k], e)) return 1;
      if (CalVerifIsZero(ms[k], e)) return 0;
      CalVerifEdge_t t, el;
      CalVerifExpand(e, &t, &el);
      if (e.id >= pos.size() || pos[e.id] < 0) VIOL("wrong-function", "foreign variable in an undumped BDD");
      e = (val >> pos[e.id]) & 1 ? t : el;
    }
    VIOL("walk", "endless path");
  };
  int rounds = huge ? 1 : r.range(2, 5);
  for (int k = 0; k < rounds; k++) {
    // a decision tree over the selectors whose leaves come from a pool of K functions
    int K = huge ? 33000 : r.range(120, 300);
    std::vector<Bdd> pool, lv;
    for (int i = 0; i < K; i++) {
      uint32_t tab = (uint32_t)r.next();
      std::vector<Bdd> cur;
      for (int j = 0; j < (1 << nleaf); j++) cur.push_back((tab >> j) & 1 ? Cal_BddOne(m) : Cal_BddZero(m));
      for (int d = nleaf - 1; d >= 0; d--) {
        std::vector<Bdd> nx;
        for (size_t j = 0; j < cur.size(); j += 2) { nx.push_back(Cal_BddITE(m, vars[0][nsel + d], cur[j], cur[j + 1])); Cal_BddFree(m, cur[j]); Cal_BddFree(m, cur[j + 1]); }
        cur.swap(nx);
      }
      pool.push_back(cur[0]);
    }
    for (long i = 0; i < (1L << nsel); i++) { Bdd p = i < K ? pool[i] : pool[r.below(K)]; lv.push_back(r.chance(20) ? Cal_BddNot(m, p) : Cal_BddIdentity(m, p)); }
    for (size_t i = 0; i + 1 < lv.size(); i++) std::swap(lv[i], lv[i + r.below((int)(lv.size() - i))]);
    for (int d = nsel - 1; d >= 0; d--) {
      std::vector<Bdd> nx;
      for (size_t j = 0; j < lv.size(); j += 2) { nx.push_back(Cal_BddITE(m, vars[0][d], lv[j], lv[j + 1])); Cal_BddFree(m, lv[j]); Cal_BddFree(m, lv[j + 1]); }
      lv.swap(nx);
    }
    Bdd f = lv[0];
    for (Bdd p : pool) Cal_BddFree(m, p);
    std::vector<Bdd> l1 = vars[0], l2 = vars[1];
    l1.insert(l1.end(), extra[0].begin(), extra[0].end());
    l2.insert(l2.end(), extra[1].begin(), extra[1].end());
    size_t len = l1.size();
    for (size_t i = 0; i + 1 < len; i++) { size_t j = i + r.below((int)(len - i)); std::swap(l1[i], l1[j]); std::swap(l2[i], l2[j]); }
    if (r.chance(50)) for (size_t i = 0; i + 1 < len; i++) std::swap(l2[i], l2[i + r.below((int)(len - i))]);
    l1.push_back(nullptr); l2.push_back(nullptr);
    std::string d1 = dump(m, f, l1);
    long shared = 0;
    for (int i = 0; i < 8; i++) shared = (shared << 8) + (unsigned char)d1[10 + i];
    if (shared >= 255 && shared <= 258) rt::count("dumps_with_255_to_258_shared");
    if (shared > 256) rt::count("dumps_with_two_byte_labels");
    if (shared > 65536) rt::count("dumps_with_three_byte_labels");
    if (len >= 255) rt::count("dumps_with_two_byte_indices");
    rt::tr("big dump: %zu bytes, %zu variables, %ld shared", d1.size(), len, shared);
    Bdd x = undump(m, d1, l1);
    if (x != f) VIOL("undump", "dump and undump in the same manager give another handle (%ld shared nodes, %zu variables)", shared, len);
    Cal_BddFree(m, x);
    Bdd g = undump(ms[1], d1, l2);
    std::vector<int> p1(1000, -1), p2(1000, -1);
    for (size_t i = 0; i < len; i++) for (int q = 0; q < n; q++) if (l1[i] == vars[0][q]) { p1[Cal_BddGetIfId(m, l1[i])] = q; p2[Cal_BddGetIfId(ms[1], l2[i])] = q; }
    for (int i = 0; i < 300; i++) {
      uint64_t val = r.next();
      if (eval(0, f, p1, val) != eval(1, g, p2, val)) VIOL("undump", "the BDD read in another manager has another value");
    }
    std::string d2 = dump(ms[1], g, l2);
    Bdd y = undump(m, d2, l1);
    if (y != f) VIOL("undump", "the round trip through another manager gives another function (%ld shared nodes, %zu variables)", shared, len);
    Cal_BddFree(m, y);
    Cal_BddFree(ms[1], g);
    Cal_BddFree(m, f);
    rt::count("round_trips", 3);
    v.sig = v.sig * 31 + d1.size() * 1000003 + shared;
  }
  for (int k = 0; k < 2; k++) {
    rt::inOp = "end of big dumps";
    Cal_BddManagerGC(ms[k]);
    long nodes = (long)Cal_BddManagerGetNumNodes(ms[k]), want = (long)(vars[k].size() + extra[k].size()) + 1;
    if (nodes != want && CalVerifNumSaturated(ms[k]) == 0) VIOL("leaked-nodes", "%ld nodes remain in manager %d, expected %ld", nodes, k, want);
    Cal_BddManagerQuit(ms[k]);
  }
  if (rt::liveBlocks() != base) VIOL("leak", "%ld allocations survive", rt::liveBlocks() - base);
  v.sample = "large dumps";
  return v;
}
static Verdict c09(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  if (r.below(1000) < 12) return c09big(seed, r);
  setTunables(r, r.chance(75));
  Verdict v;
  Cfg c = stdCfg(r);
  if (r.chance(10)) { c.universe = c.init = r.range(9, 10); }
  Session a(seed), b(seed + 77);
  Session *bp = r.chance(50) ? &b : nullptr;
  a.setup(c, "A");
  a.sharedLife = bp != nullptr;
  const char *spec = "build:10 and:2 or:2 xor:4 ite:3 not:2 multixor:1 newvar:1 reorder:1 free:2 gc:1 dynamic:1";
  a.use(spec);
  if (bp) {
    Cfg c2 = c;
    c2.init = c.universe;
    c2.dummies = r.below(3);
    bp->setup(c2, "B");
    bp->sharedLife = true;
    bp->use(spec);
  }
  int rounds = r.range(4, 12);
  long trips = 0;
  for (int k = 0; k < rounds; k++) {
    for (int i = 0; i < 6; i++) { a.step(); if (bp) bp->step(); }
    int cnt = r.range(1, 4);
    std::vector<std::pair<Bdd, TT>> fs;
    std::set<int> need;
    for (int i = 0; i < cnt; i++) {
      Arg x = a.arg(5);
      fs.push_back({x.h, x.f});
      for (int q = 0; q < a.nfun(); q++) if (x.f.dependsOn(q)) need.insert(q);
    }
    std::vector<int> vl = varList(a, r, need, r.chance(40));
    std::vector<Bdd> vars;
    for (int q : vl) vars.push_back(a.varH[q]);
    vars.push_back(nullptr);
    if (r.chance(25) && !need.empty()) { // lists that are no such list are refused, without writing anything
      std::vector<Bdd> bad;
      int kind = r.below(3);
      Arg x = a.arg(0);
      std::set<int> nx;
      for (int q = 0; q < a.nfun(); q++) if (x.f.dependsOn(q)) nx.insert(q);
      std::vector<int> bl = varList(a, r, nx, r.chance(50));
      for (int q : bl) bad.push_back(a.varH[q]);
      bool refused = true;
      if (kind == 0) { // incomplete
        int gone = -1;
        for (size_t i = 0; i < bl.size() && gone < 0; i++) if (nx.count(bl[i]) && r.chance(60)) gone = (int)i;
        if (gone >= 0) bad.erase(bad.begin() + gone); else refused = false;
      } else if (kind == 1) { // duplicated
        if (bad.empty()) refused = false; else bad.insert(bad.begin() + r.below((int)bad.size() + 1), bad[r.below((int)bad.size())]);
      } else { // not a positive variable
        Arg y = a.arg(20);
        if (a.ttVarOf(y.f) >= 0) refused = false; else bad.insert(bad.begin() + r.below((int)bad.size() + 1), y.h);
      }
      if (refused) {
        bad.push_back(nullptr);
        rt::tr("refused dump kind %d", kind);
        rt::inOp = "DumpBdd(refused)";
        char *buf = nullptr; size_t len = 0;
        FILE *fp = open_memstream(&buf, &len);
        int ok = Cal_BddDumpBdd(a.m, x.h, bad.data(), fp);
        fclose(fp);
        __real_free(buf);
        if (ok != 0 || len != 0) VIOL("dump", "a list of variables that %s is accepted (returned %d, %zu bytes written)", kind == 0 ? "does not cover the support" : kind == 1 ? "names a variable twice" : "has a non-variable", ok, len);
        rt::clearErr();
        a.afterOp();
        rt::count("refused_dumps");
      }
    }
    rt::tr("dump %d functions over %zu variables", cnt, vl.size());
    std::vector<size_t> ends;
    std::string data = dumpTo(a, fs, vars, &ends);
    a.checkStructure("dump");
    // targets: same manager same list, same manager other list, other manager
    int targets = bp ? 3 : 2;
    for (int t = 0; t < targets; t++) {
      Session &d = t == 2 ? *bp : a;
      std::vector<int> dl = vl;
      if (t >= 1) {
        // another list of the same length
        std::vector<int> all;
        for (int q = 0; q < d.nfun(); q++) all.push_back(q);
        if (all.size() < vl.size()) continue;
        for (size_t i = 0; i < vl.size(); i++) std::swap(all[i], all[i + r.below((int)(all.size() - i))]);
        dl.assign(all.begin(), all.begin() + vl.size());
      }
      std::vector<Bdd> dv;
      for (int q : dl) dv.push_back(d.varH[q]);
      dv.push_back(nullptr);
      std::string copy = data + "tail";
      FILE *f = fmemopen((void *)copy.data(), copy.size(), "r");
      for (int i = 0; i < cnt; i++) {
        d.begin("UndumpBdd");
        rt::tr("undump %d into %s", i, d.tag.c_str());
        int err = 99;
        Bdd x = Cal_BddUndumpBdd(d.m, dv.data(), f, &err);
        d.expectQuiet();
        std::vector<TT> g(TT::W);
        std::vector<char> has(TT::W, 0);
        for (size_t q = 0; q < vl.size(); q++) { g[vl[q]] = TT::var(dl[q]); has[vl[q]] = 1; }
        TT e = fs[i].second.subst(g, has);
        if (!x) VIOL("undump", "undumping function %d (target %d) gives null, error %d", i, t, err);
        if (err != 0) VIOL("undump", "undumping gives a BDD and error %d", err);
        if (t == 0 && x != fs[i].first) VIOL("undump", "dump and undump in the same manager give another handle");
        d.checkFunction(x, e, "undumped BDD");
        d.take(x, e);
        d.afterOp();
        if (ftell(f) != (long)ends[i]) VIOL("undump", "reading function %d leaves the stream at %ld instead of %zu", i, ftell(f), ends[i]);
        if (r.chance(60)) d.release(x); else d.slots.push_back({x, e});
        trips++;
        rt::count("round_trips");
        v.sig = v.sig * 31 + e.hash();
      }
      fclose(f);
      if (r.chance(30)) d.checkAll("undump");
      else d.checkStructure("undump");
      d.trim();
    }
    a.doneArgs();
    a.trim();
  }
  summary(a, v);
  v.nontrivial = trips >= 4;
  if (bp) bp->close(true);
  a.close(true);
  return v;
}
// ------------------------------------------------------------------ C10
// a stream that fails, with an I/O error, after its data
struct FailingStream { const std::string *d; size_t at; };
static ssize_t failingRead(void *c, char *buf, size_t n) {
  FailingStream *s = (FailingStream *)c;
  if (s->at >= s->d->size()) { errno = EIO; return -1; }
  n = std::min(n, s->d->size() - s->at);
  memcpy(buf, s->d->data() + s->at, n);
  s->at += n;
  return (ssize_t)n;
}
static void tryUndump(Session &s, std::string data, const std::vector<Bdd> &vars, const std::set<int> &allowed, Rng &r, const char *what, int expectErr = 0, bool ioError = false) {
  s.begin("UndumpBdd");
  int err = 99;
  char dummy[1] = {0};
  FailingStream fs{&data, 0};
  FILE *f;
  if (ioError) {
    cookie_io_functions_t io;
    memset(&io, 0, sizeof io);
    io.read = failingRead;
    f = fopencookie(&fs, "r", io);
  } else {
    f = data.empty() ? fmemopen(dummy, 1, "r") : fmemopen((void *)data.data(), data.size(), "r");
    if (data.empty()) fgetc(f);
  }
  Bdd x = Cal_BddUndumpBdd(s.m, (Bdd *)vars.data(), f, &err);
  fclose(f);
  s.expectQuiet();
  s.afterOp();
  rt::count("damaged_reads");
  if (!x) {
    if (err < 1 || err > 4) VIOL("undump-error", "%s: null BDD with error code %d", what, err);
    if (expectErr && err != expectErr) VIOL("undump-error", "%s: error code %d instead of %d", what, err, expectErr);
    rt::counters[std::string("undump_error_") + std::to_string(err)]++;
  } else {
    if (err != 0) VIOL("undump-error", "%s: a BDD is returned together with error %d", what, err);
    if (expectErr) VIOL("undump-error", "%s: a BDD is returned although the stream ends too early", what);
    TT f2 = s.ttOfHandle(x);
    for (int k = 0; k < s.nfun(); k++)
      if (f2.dependsOn(k) && !allowed.count(k)) VIOL("undump-error", "%s: the result depends on a variable that was not given", what);
    s.take(x, f2);
    if (s.slots.size() < 8 && r.chance(10)) s.slots.push_back({x, f2});
    else s.release(x);
    rt::count("damaged_reads_ok");
  }
}
static Verdict c10(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Verdict v;
  Cfg c = stdCfg(r);
  Session s(seed);
  s.setup(c, "m");
  s.use("build:10 and:2 xor:4 ite:3 not:2 newvar:1 free:1 gc:1 reorder:1");
  for (int i = 0; i < 15; i++) s.step();
  int rounds = r.range(2, 5);
  for (int k = 0; k < rounds; k++) {
    s.step();
    Arg x = s.arg(3);
    std::set<int> need;
    for (int q = 0; q < s.nfun(); q++) if (x.f.dependsOn(q)) need.insert(q);
    std::vector<int> vl = varList(s, r, need, r.chance(50));
    std::set<int> allowed(vl.begin(), vl.end());
    std::vector<Bdd> vars;
    for (int q : vl) vars.push_back(s.varH[q]);
    vars.push_back(nullptr);
    std::string data = dumpTo(s, {{x.h, x.f}}, vars);
    rt::tr("dump of %zu bytes", data.size());
    // every truncation (sampled when long)
    int step = data.size() > 120 ? (int)data.size() / 80 : 1;
    for (size_t n = 0; n < data.size(); n += step) {
      rt::tr("truncate to %zu", n);
      tryUndump(s, data.substr(0, n), vars, allowed, r, "truncated", CAL_BDD_UNDUMP_EOF);
      if (r.chance(15)) tryUndump(s, data.substr(0, n), vars, allowed, r, "I/O error", CAL_BDD_UNDUMP_IOERROR, true);
    }
    s.checkStructure("reading truncated dumps");
    int muts = r.range(20, 80);
    for (int i = 0; i < muts; i++) {
      std::string d = data;
      int kind = r.below(10);
      if (kind < 4) { // flip bytes in the body
        int cnt = r.range(1, 3);
        for (int j = 0; j < cnt; j++) {
          size_t p = d.size() > 18 && r.chance(85) ? 18 + r.below((int)d.size() - 18) : r.below((int)d.size());
          d[p] = r.chance(50) ? (char)r.next() : r.chance(50) ? (char)(d[p] ^ (1 << r.below(8))) : (char)r.pick(std::vector<int>{0xff, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0xfe});
        }
      } else if (kind == 4) { // number of shared nodes
        long n = r.pick(std::vector<long>{0, 1, 2, 3, 5, 100, 1000, 0x7fff, -1, -2, 0x100000000L, 0x7fffffffffffffffL, 0x1000000000000000L, 0x0fffffffffffffffL, 300, 70000});
        for (int j = 0; j < 8; j++) d[10 + j] = (char)(n >> (8 * (7 - j)));
      } else if (kind == 5) { // number of variables
        int n = r.pick(std::vector<int>{0, 1, 0xffff, (int)vl.size() + 1, (int)vl.size() - 1, 255, 256});
        d[8] = (char)(n >> 8); d[9] = (char)n;
      } else if (kind == 6) { // delete or insert bytes
        size_t p = r.below((int)d.size());
        if (r.chance(50)) d.erase(p, r.range(1, 3)); else d.insert(p, r.range(1, 3), (char)r.next());
      } else if (kind == 7) { // a well-formed header with random content
        d.resize(18);
        int n = r.range(0, 60);
        for (int j = 0; j < n; j++) d += r.chance(40) ? (char)0xff : (char)r.below(8);
        if (r.chance(50)) { d[16] = 0; d[17] = (char)r.range(0, 4); }
      } else if (kind == 8) { // splice
        size_t p = 18 + r.below((int)d.size() > 18 ? (int)d.size() - 18 : 1), q = 18 + r.below((int)d.size() > 18 ? (int)d.size() - 18 : 1);
        if (p < d.size() && q < d.size()) d = d.substr(0, p) + d.substr(q);
      } else { // not a dump
        int n = r.range(0, 40);
        d.clear();
        for (int j = 0; j < n; j++) d += (char)r.next();
      }
      std::string hex;
      for (size_t j = 0; j < d.size() && j < 60; j++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char)d[j]); hex += b; }
      rt::tr("mutation kind %d, %zu bytes: %s", kind, d.size(), hex.c_str());
      tryUndump(s, d, vars, allowed, r, "damaged");
      for (unsigned char ch : d) v.sig = v.sig * 31 + ch;
      if (r.chance(15)) s.checkStructure("reading a damaged dump");
    }
    s.checkAll("reading damaged dumps");
    s.doneArgs();
    s.trim();
    // and the original is still readable
    rt::tr("reading the undamaged dump");
    s.begin("UndumpBdd");
    int err = 9;
    FILE *f = fmemopen((void *)data.data(), data.size(), "r");
    Bdd y = Cal_BddUndumpBdd(s.m, vars.data(), f, &err);
    fclose(f);
    if (!y || err) VIOL("undump", "after reading damaged dumps an intact one fails with error %d", err);
    s.checkFunction(y, x.f, "undumped BDD");
    s.take(y, x.f);
    s.release(y);
  }
  // deep recursion: a chain of labels
  if (r.chance(15)) {
    std::vector<Bdd> vars{s.varH[0], nullptr};
    std::string d = "\x5a\x02\x28\x23\x29\x0d\x5d\x59";
    char *buf; size_t len;
    FILE *f = open_memstream(&buf, &len);
    Cal_BddDumpBdd(s.m, s.varH[0], vars.data(), f);
    fclose(f);
    d = std::string(buf, len);
    __real_free(buf);
    d.resize(18);
    int n = r.range(1, 20000);
    for (int j = 0; j < n; j++) d += (char)0;
    rt::tr("chain of %d nodes", n);
    tryUndump(s, d, vars, {0}, r, "long chain");
    s.checkStructure("reading a long chain");
  }
  summary(s, v);
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C11
static Verdict c11(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(80));
  Verdict v;
  Cfg c = stdCfg(r);
  bool big = maybeBig(r, c, 12, 14);
  if (!big && r.chance(10)) { c.universe = c.init = 10; c.maxSlots = 10; }
  Session s(seed);
  s.setup(c, "m");
  s.use(std::string(big ? "build:100 " : "build:8 ") + std::string("and:2 or:2 xor:3 ite:2 not:2 free:3 freemany:1 gc:1 scribble:1 reorder:1 dynamic:1 newvar:1 params:1 pairand:1 multior:1 exists:1 tempinit:1 compose:1 swapvars:1 misuse:1"));
  int rounds = r.range(3, 8);
  long total = 0;
  for (int k = 0; k < rounds; k++) {
    int pre = big ? 15 : r.range(2, 10);
    for (int i = 0; i < pre; i++) s.step();
    int op = r.below(3);
    if (r.chance(70)) {
      int d = r.range(0, 6);
      rt::tr("pipeline depth %d", d);
      Cal_PipelineSetDepth(s.m, d);
    }
    s.begin("PipelineInit");
    rt::tr("pipeline init op=%d", op);
    if (Cal_PipelineInit(s.m, (Cal_BddOp_t)op) != 1) VIOL("pipeline", "PipelineInit failed");
    s.afterOp();
    s.pipelineBusy = true;
    struct P { Bdd h; TT f; int depth; };
    std::vector<P> ps;
    std::vector<Bdd> operands; // keep the operands alive
    int n = r.chance(10) ? r.range(40, 150) : r.range(1, 20);
    int chain = r.chance(80) ? 5 : 60;
    if (!big && r.chance(6)) { chain = 1000; n = r.chance(70) ? r.range(20, 100) : r.range(200, 290); }
    for (int i = 0; i < n; i++) {
      P x;
      Bdd hh[2];
      TT ff[2];
      x.depth = 0;
      for (int j = 0; j < 2; j++) {
        std::vector<int> ok;
        if (chain > 100) { if (!ps.empty() && (j == 0 || r.chance(20))) ok.push_back(j == 0 ? (int)ps.size() - 1 : r.below((int)ps.size())); }
        else if (r.chance(50)) for (size_t q = 0; q < ps.size(); q++) if (ps[q].depth < chain) ok.push_back((int)q);
        if (!ok.empty()) {
          const P &p = ps[r.pick(ok)];
          hh[j] = p.h; ff[j] = p.f;
          x.depth = std::max(x.depth, p.depth + 1);
        } else {
          Arg a = s.arg(3);
          hh[j] = a.h; ff[j] = a.f;
        }
      }
      x.f = op == 0 ? ff[0] & ff[1] : op == 1 ? ff[0] | ff[1] : ff[0] ^ ff[1];
      rt::tr("provisional %d depth %d", i, x.depth);
      rt::inOp = "CreateProvisional";
      x.h = Cal_PipelineCreateProvisionalBdd(s.m, hh[0], hh[1]);
      if (!x.h) {
        fflush(stderr);
        if (x.depth < 100 || !rt::warningCount) VIOL("pipeline", "provisional BDD is null (depth %d)", x.depth);
        rt::clearErr(); // a dependency too deep is refused with a message
        rt::count("provisionals_too_deep");
        continue;
      }
      if (x.depth > 50) rt::count("deep_provisionals");
      if (!Cal_BddIsProvisional(s.m, x.h)) VIOL("pipeline", "a provisional BDD is not recognised");
      ps.push_back(x);
    }
    for (auto &sl : s.slots) if (Cal_BddIsProvisional(s.m, sl.h)) VIOL("pipeline", "an ordinary BDD is taken for provisional");
    s.begin("PipelineExecute");
    rt::tr("execute");
    int ok = Cal_PipelineExecute(s.m);
    if (ok != 1) VIOL("pipeline", "PipelineExecute returned %d", ok);
    s.expectQuiet();
    s.afterOp();
    std::vector<Slot> got;
    for (size_t i = 0; i < ps.size(); i++) {
      if (r.chance(15)) continue; // never updated
      rt::inOp = "Update";
      if (!Cal_BddIsProvisional(s.m, ps[i].h)) VIOL("pipeline", "a provisional BDD is not recognised before its update");
      Bdd u = Cal_PipelineUpdateProvisionalBdd(s.m, ps[i].h);
      if (!u) VIOL("pipeline", "updating a provisional BDD gives null");
      if (Cal_BddIsProvisional(s.m, u)) VIOL("pipeline", "an updated BDD is still provisional");
      s.checkFunction(u, ps[i].f, "pipelined result");
      s.takeUnchecked(u, ps[i].f);
      got.push_back({u, ps[i].f});
      v.sig = v.sig * 31 + ps[i].f.hash();
      total++;
      rt::count("pipelined_results");
    }
    for (auto &g : got) s.checkRef(g.h);
    // the same operations directly
    rt::inOp = "PipelineQuit";
    rt::tr("quit pipeline");
    Cal_PipelineQuit(s.m);
    s.pipelineBusy = false;
    s.expectQuiet();
    s.doneArgs();
    s.checkStructure("pipeline");
    for (auto &g : got) {
      s.checkFunction(g.h, g.f, "pipelined result after quitting");
      if (r.chance(40)) s.slots.push_back(g); else s.release(g.h);
    }
    s.checkAll("pipeline");
    s.trim();
    if (r.chance(50)) { s.gcExplicit(); s.lastGCs = CalVerifNumGC(s.m); s.checkStructure("collection after a pipeline"); }
  }
  summary(s, v);
  v.nontrivial = total >= 5;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C12
struct C12 : Session {
  using Session::Session;
  // null operands: every operation propagates them
  void nulls() {
    Bdd n = Cal_BddNull(m);
    Arg a = arg(), b = arg();
    Bdd v1 = varH[rng.below(nfun())], v2 = varH[rng.below(nfun())];
    begin("null operands");
    int which = rng.below(46);
    rt::tr("null operands to operation %d", which);
    Bdd r = nullptr;
    Bdd arr[4] = {a.h, b.h, nullptr, nullptr};
    switch (which) {
    case 0: r = Cal_BddAnd(m, n, b.h); break;
    case 1: r = Cal_BddAnd(m, a.h, n); break;
    case 2: r = Cal_BddOr(m, n, b.h); break;
    case 3: r = Cal_BddNand(m, a.h, n); break;
    case 4: r = Cal_BddNor(m, n, n); break;
    case 5: r = Cal_BddXor(m, n, b.h); break;
    case 6: r = Cal_BddXnor(m, a.h, n); break;
    case 7: r = Cal_BddITE(m, n, a.h, b.h); break;
    case 8: r = Cal_BddITE(m, a.h, n, b.h); break;
    case 9: r = Cal_BddITE(m, a.h, b.h, n); break;
    case 10: r = Cal_BddNor(m, n, b.h); break;
    case 11: r = Cal_BddNand(m, n, b.h); break;
    case 12: r = Cal_BddExists(m, n); break;
    case 13: r = Cal_BddForAll(m, n); break;
    case 14: r = Cal_BddRelProd(m, n, a.h); break;
    case 15: r = Cal_BddRelProd(m, a.h, n); break;
    case 16: r = Cal_BddCompose(m, n, v1, a.h); break;
    case 17: r = Cal_BddCompose(m, a.h, v1, n); break;
    case 18: r = Cal_BddSubstitute(m, n); break;
    case 19: r = Cal_BddVarSubstitute(m, n); break;
    case 20: r = Cal_BddSwapVars(m, n, v1, v2); break;
    case 21: r = Cal_BddCofactor(m, n, a.h); break;
    case 22: r = Cal_BddCofactor(m, a.h, n); break;
    case 23: r = Cal_BddReduce(m, n, a.h); break;
    case 24: r = Cal_BddBetween(m, n, a.h); break;
    case 25: r = Cal_BddIntersects(m, n, a.h); break;
    case 26: r = Cal_BddImplies(m, a.h, n); break;
    case 27: r = Cal_BddSatisfy(m, n); break;
    case 28: r = Cal_BddSatisfySupport(m, n); break;
    case 29: r = Cal_BddReduce(m, a.h, n); break;
    case 30: r = Cal_BddCompose(m, a.h, n, b.h); break;
    case 31: r = Cal_BddIf(m, n); break;
    case 32: r = Cal_BddThen(m, n); break;
    case 33: r = Cal_BddElse(m, n); break;
    case 34: r = Cal_BddIntersects(m, a.h, n); break;
    case 35: r = Cal_BddImplies(m, n, a.h); break;
    case 36: r = Cal_BddBetween(m, a.h, n); break;
    case 37: if (Cal_BddType(m, n) != CAL_BDD_TYPE_OVERFLOW) VIOL("null-propagation", "Type(null) is not overflow"); break;
    case 38: if (Cal_BddSize(m, n, rng.below(2)) > 0) VIOL("null-propagation", "Size(null) counts nodes"); break;
    case 39: if (Cal_BddSatisfyingFraction(m, n) != 0.0) VIOL("null-propagation", "SatisfyingFraction(null) is not zero"); break;
    case 40: {
      std::vector<Bdd> sup(nvars() + 2, a.h);
      Cal_BddSupport(m, n, sup.data());
      if (sup[0]) VIOL("null-propagation", "Support(null) lists variables");
      break;
    }
    case 41: if (Cal_BddDependsOn(m, n, v1)) VIOL("null-propagation", "DependsOn(null, v) is true"); break;
    case 42: (void)Cal_BddGetIfId(m, n); (void)Cal_BddGetIfIndex(m, n); break;
    case 43: {
      std::vector<long> p(nvars() + 2, 0);
      Cal_BddProfile(m, n, p.data(), rng.below(2));
      Cal_BddFunctionProfile(m, n, p.data());
      for (long x : p) if (x) VIOL("null-propagation", "profile of null counts nodes");
      break;
    }
    case 44: {
      char *buf = nullptr; size_t len = 0;
      FILE *fp = open_memstream(&buf, &len);
      Cal_BddPrintBdd(m, n, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, nullptr, fp);
      Cal_BddPrintProfile(m, n, Cal_BddNamingFnNone, nullptr, 60, fp);
      Cal_BddPrintFunctionProfile(m, n, Cal_BddNamingFnNone, nullptr, 60, fp);
      fclose(fp);
      __real_free(buf);
      break;
    }
    case 45: {
      std::vector<Bdd> vs{v1, nullptr};
      char *buf = nullptr; size_t len = 0;
      FILE *fp = open_memstream(&buf, &len);
      if (Cal_BddDumpBdd(m, n, vs.data(), fp)) VIOL("null-propagation", "DumpBdd(null) reports success");
      fclose(fp);
      if (len) VIOL("null-propagation", "DumpBdd(null) wrote %zu bytes", len);
      __real_free(buf);
      break;
    }
    }
    (void)arr;
    if (r) VIOL("null-propagation", "operation %d returned a BDD for a null operand", which);
    if (!Cal_BddIsBddNull(m, n)) VIOL("null-propagation", "IsBddNull(null) is false");
    afterOp();
    rt::count("null_operands");
    opKinds.insert("nulls");
    doneArgs();
  }
  // a pipeline under the limit: right results, or a refusal that leaves nothing behind
  void pipe() {
    int op = rng.below(3);
    rt::inOp = "PipelineInit";
    Cal_PipelineSetDepth(m, rng.range(0, 6));
    bool ok = Cal_PipelineInit(m, (Cal_BddOp_t)op) == 1;
    rt::tr("pipeline op=%d under limit %ld", op, limited ? limit : 0);
    if (!ok) VIOL("pipeline", "PipelineInit failed");
    pipelineBusy = true;
    (void)Cal_BddOverflow(m); // the check at the start may report one
    rt::clearErr();
    struct P { Bdd h; TT f; int depth; };
    std::vector<P> ps;
    int n = rng.range(1, 12);
    for (int i = 0; i < n; i++) {
      P x; Bdd hh[2]; TT ff[2];
      x.depth = 0;
      for (int j = 0; j < 2; j++) {
        int q = ps.empty() ? -1 : rng.below((int)ps.size());
        if (q >= 0 && ps[q].depth < 5 && rng.chance(60)) { hh[j] = ps[q].h; ff[j] = ps[q].f; x.depth = std::max(x.depth, ps[q].depth + 1); }
        else { Arg a = arg(3); hh[j] = a.h; ff[j] = a.f; }
      }
      x.f = op == 0 ? ff[0] & ff[1] : op == 1 ? ff[0] | ff[1] : ff[0] ^ ff[1];
      x.h = Cal_PipelineCreateProvisionalBdd(m, hh[0], hh[1]);
      if (!x.h) VIOL("pipeline", "provisional BDD is null");
      ps.push_back(x);
    }
    rt::inOp = "PipelineExecute";
    ok = Cal_PipelineExecute(m) == 1;
    int ov = Cal_BddOverflow(m);
    rt::tr("pipeline executed: %d overflow %d", ok, ov);
    if (ok && ov) VIOL("overflow-flag", "overflow is indicated although the pipeline was executed");
    if (!ok && !(limited && limit > 0)) VIOL("pipeline", "PipelineExecute fails without a limit");
    if (!ok && !ov) VIOL("overflow-flag", "the pipeline was not executed and no overflow is indicated");
    rt::clearErr();
    std::vector<Slot> got;
    if (ok) for (auto &x : ps) {
      Bdd u = Cal_PipelineUpdateProvisionalBdd(m, x.h);
      if (!u) VIOL("pipeline", "updating a provisional BDD gives null");
      checkFunction(u, x.f, "pipelined result under a limit");
      takeUnchecked(u, x.f);
      got.push_back({u, x.f});
    }
    rt::inOp = "PipelineQuit";
    Cal_PipelineQuit(m);
    pipelineBusy = false;
    doneArgs();
    for (auto &g : got) { checkFunction(g.h, g.f, "pipelined result after quitting"); release(g.h); }
    rt::clearErr();
    checkStructure("pipeline under a limit");
    rt::count(ok ? "pipelines_under_limit" : "pipelines_refused");
  }
  void setLimit(long l) {
    rt::inOp = "NodeLimit";
    rt::tr("limit %ld", l);
    long old = Cal_BddNodeLimit(m, l);
    if (old != limit) VIOL("limit", "NodeLimit reports the old limit as %ld, expected %ld", old, limit);
    limit = l;
    limited = true;
  }
};
static Verdict c12(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, true);
  if (r.chance(60)) calVerifGCCheck = 0;
  Verdict v;
  Cfg c = stdCfg(r);
  c.allowLimits = true;
  if (c.universe > 7) c.universe = 7;
  if (c.init > c.universe) c.init = c.universe;
  C12 s(seed);
  s.setup(c, "m");
  s.use(std::string("and:3 or:3 nand:2 nor:2 xor:4 xnor:2 ite:5 not:1 build:8 cofactor:2 reduce:2 between:2 pairand:1 pairor:1 pairxor:1 multiand:1 multixor:1 compose:1 substitute:1 tempinit:1 exists:1 forall:1 relprod:1 varsubst:1 swapvars:1 implies:1 intersects:1 satisfy:1 satsupport:1 multior:1 free:3 freemany:1 gc:1 check:1 misuse:1"));
  for (int i = 0; i < 10; i++) s.step();
  int rounds = r.range(2, 5);
  for (int k = 0; k < rounds; k++) {
    long base = (long)Cal_BddManagerGetNumNodes(s.m);
    s.setLimit(r.chance(70) ? s.nvars() + 1 + r.range(0, 40) : base + r.range(-5, 30) > 1 ? base + r.range(0, 30) : 5);
    int n = r.range(15, 50);
    for (int i = 0; i < n; i++) {
      s.step();
      if (r.chance(12)) s.nulls();
      if (r.chance(3)) s.pipe();
    }
    s.checkAll("limited round");
    // lift the limit or free: everything works again
    if (r.chance(50)) {
      s.setLimit(r.chance(50) ? 0 : 1000000);
    } else {
      while (!s.slots.empty()) s.freeSlot(0);
      s.setLimit(0);
    }
    (void)Cal_BddOverflow(s.m);
    s.limited = false;
    for (int i = 0; i < 10; i++) { s.step(); }
    if (Cal_BddOverflow(s.m)) VIOL("overflow-flag", "overflow is indicated without a limit");
  }
  for (int i = 0; i < 20; i++) s.nulls();
  summary(s, v);
  v.nontrivial = s.nullResults > 0;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C13
static Verdict c13(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Verdict v;
  Cfg c = stdCfg(r);
  c.init = r.range(1, 3);
  if (c.init > c.universe) c.init = c.universe;
  c.dummies = r.chance(30) ? 0 : r.range(0, 10);
  Session s(seed);
  s.setup(c, "m");
  s.use(std::string("newvar:6 newdummy:6 lookup:6 build:4 and:2 xor:2 ite:2 compose:1 swapvars:1 associnit:3 assocset:1 assocquit:1 tempinit:2 tempaug:1 exists:3 forall:1 relprod:2 substitute:3 varsubst:3 cofactor:1 "
        "queries:1 inspect:2 satsupport:1 reorder:1 free:2 gc:1 check:1 pairand:1 multior:1 pipeline:1"));
  int n = r.range(40, 150);
  bool many = r.chance(15);
  if (r.below(1000) < 2) { // very many variables, up to as many as there are identifiers
#ifdef __SANITIZE_ADDRESS__
    int top = r.range(500, 5000);
#else
    int top = r.chance(7) ? 65534 - r.below(4) : r.range(500, 5000);
#endif
    if (top > 60000) calVerifHashSizeIndex = 2;
    for (int i = 0; i < 5; i++) s.step();
    rt::tr("m creates %d variables at once", top - s.nvars());
    while (s.nvars() < top) s.newVarFast();
    rt::count("managers_with_very_many_variables");
    n = top > 60000 ? 12 : 30;
    s.checkAll("creating many variables");
  }
  for (int i = 0; i < n; i++) {
    s.step();
    if (many && !s.pipelineBusy && s.nvars() < 400) for (int j = 0; j < 5; j++) s.newVarRandom(true);
  }
  s.drain();
  s.opLookup();
  for (int i = 0; i < s.nvars(); i++) { // every variable by index and by id
    Bdd h = Cal_BddManagerGetVarWithIndex(s.m, (Cal_BddIndex_t)i);
    s.checkLookup(h, s.order[i]);
    h = Cal_BddManagerGetVarWithId(s.m, (Cal_BddId_t)(i + 1));
    s.checkLookup(h, i + 1);
  }
  summary(s, v);
  v.nontrivial = s.nvars() > c.init + c.dummies;
  rt::count("variables", s.nvars());
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C15
struct NameEnv { Session *s; int style; std::map<std::string, int> names; std::string buf; long calls = 0; };
static char *nameFn(Cal_BddManager m, Cal_Bdd v, Cal_Pointer_t envp) {
  NameEnv *e = (NameEnv *)envp;
  e->calls++;
  if (Cal_BddType(m, v) != CAL_BDD_TYPE_POSVAR) VIOL("print", "the naming function is called with something else than a variable");
  int id = Cal_BddGetIfId(m, v);
  if (e->style == 2 && id % 2) return nullptr; // default name for some
  e->buf = (e->style == 1 ? "a_rather_long_name_" : "n") + std::to_string(id);
  return (char *)e->buf.c_str();
}
static char *termFn(Cal_BddManager, Cal_Address_t, Cal_Address_t, Cal_Pointer_t) { return nullptr; }
struct PrintParser {
  std::vector<std::string> lines;
  size_t at = 0;
  Session *s;
  std::map<std::string, int> nameTT;
  std::map<int, TT> shared;
  long ifs = 0;
  std::string line(int indent) {
    if (at >= lines.size()) VIOL("print", "the printed text ends early");
    std::string l = lines[at++];
    for (int i = 0; i < indent; i++) if (i >= (int)l.size() || l[i] != ' ') VIOL("print", "wrong indentation in line %zu: '%s'", at, l.c_str());
    l = l.substr(indent);
    if (!l.empty() && l[0] == ' ') VIOL("print", "wrong indentation in line %zu: '%s'", at, l.c_str());
    return l;
  }
  TT lit(const std::string &n) {
    auto it = nameTT.find(n);
    if (it == nameTT.end()) VIOL("print", "unknown name '%s'", n.c_str());
    if (it->second < 0) VIOL("print", "unrelated variable '%s'", n.c_str());
    return TT::var(it->second);
  }
  TT node(int indent) {
    std::string l = line(indent);
    if (l == "1") return TT(true);
    if (l == "0") return TT(false);
    bool neg = !l.empty() && l[0] == '!';
    std::string b = neg ? l.substr(1) : l;
    if (b.compare(0, 11, "subformula ") == 0) {
      int n = atoi(b.c_str() + 11);
      auto it = shared.find(n);
      if (it == shared.end()) VIOL("print", "subformula %d is used before it is defined", n);
      return neg ? ~it->second : it->second;
    }
    int label = -1;
    size_t c = l.find(": if ");
    if (c != std::string::npos) {
      label = atoi(l.c_str());
      l = l.substr(c + 2);
    }
    if (l.compare(0, 3, "if ") == 0) {
      ifs++;
      std::string n = l.substr(3);
      TT x = lit(n);
      TT t = node(indent + 2);
      std::string m1 = line(indent);
      if (m1 != "else if !" + n) VIOL("print", "expected 'else if !%s', found '%s'", n.c_str(), m1.c_str());
      TT e = node(indent + 2);
      std::string m2 = line(indent);
      if (m2 != "endif " + n) VIOL("print", "expected 'endif %s', found '%s'", n.c_str(), m2.c_str());
      TT f = TT::ite(x, t, e);
      if (label >= 0) {
        if (shared.count(label)) VIOL("print", "subformula %d is defined twice", label);
        shared[label] = f;
      }
      return f;
    }
    TT x = lit(b);
    return neg ? ~x : x;
  }
};
static std::vector<std::string> splitLines(const std::string &t) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : t) { if (ch == '\n') { r.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
template <class F> static std::string captured(F fn) {
  char *buf = nullptr;
  size_t len = 0;
  FILE *f = open_memstream(&buf, &len);
  fn(f);
  fclose(f);
  std::string r(buf, len);
  __real_free(buf);
  return r;
}
static void checkProfileText(Session &s, const std::string &text, const std::vector<long> &counts, const std::vector<std::string> &names, int lineLength, const char *what) {
  // counts: per index plus leaf
  std::vector<std::string> lines = splitLines(text);
  size_t at = 0;
  long total = 0;
  int n = s.nvars();
  size_t prefix = 0;
  for (int i = 0; i <= n; i++) {
    if (i < n && counts[i] == 0) continue;
    total += counts[i];
    if (at >= lines.size()) VIOL("print-profile", "%s: a level is missing", what);
    std::string l = lines[at++], name = i < n ? names[i] : "leaf";
    if (l.compare(0, name.size() + 1, name + ":") != 0) VIOL("print-profile", "%s: line '%s' instead of level '%s'", what, l.c_str(), name.c_str());
    size_t p = name.size() + 1;
    if (p >= l.size() || l[p] != ' ') VIOL("print-profile", "%s: no space after the name in '%s'", what, l.c_str());
    long c = atol(l.c_str() + p);
    if (c != counts[i]) VIOL("print-profile", "%s: level '%s' shows %ld, expected %ld", what, name.c_str(), c, counts[i]);
    while (p < l.size() && l[p] == ' ') p++;
    while (p < l.size() && isdigit((unsigned char)l[p])) p++;
    if (prefix == 0) prefix = p;
    if (p != prefix) VIOL("print-profile", "%s: counts are not aligned", what);
    size_t hashes = 0;
    for (; p < l.size(); p++) { if (l[p] == '#') hashes++; else if (l[p] != ' ') VIOL("print-profile", "%s: unexpected text in '%s'", what, l.c_str()); }
    (void)lineLength;
    if ((long)hashes > c) VIOL("print-profile", "%s: histogram longer than the count in '%s'", what, l.c_str());
  }
  if (at >= lines.size() || lines[at] != "Total: " + std::to_string(total)) VIOL("print-profile", "%s: wrong total '%s', expected %ld", what, at < lines.size() ? lines[at].c_str() : "", total);
  if (at + 1 != lines.size()) VIOL("print-profile", "%s: text after the total", what);
}
// text of Cal_BddFunctionPrint: "name = ( a ( .. ) + a' ( .. ) ) "
struct FunctionText {
  const std::string &t;
  Session *s;
  size_t p = 0;
  void want(const char *w) {
    size_t n = strlen(w);
    if (t.compare(p, n, w) != 0) VIOL("function-print", "expected '%s' at position %zu of '%.200s'", w, p, t.c_str());
    p += n;
  }
  TT node() {
    want("( ");
    if (p >= t.size()) VIOL("function-print", "the text ends early: '%.200s'", t.c_str());
    char ch = t[p];
    if (ch == '0' || ch == '1') { p++; want(" ) "); return TT(ch == '1'); }
    int id = ch - 'a' + 1;
    if (id < 1 || id > s->nvars() || s->ttOf[id] < 0) VIOL("function-print", "unrelated variable '%c'", ch);
    char lit[8];
    snprintf(lit, sizeof lit, "%c ", ch); want(lit);
    TT a = node();
    snprintf(lit, sizeof lit, "+ %c' ", ch); want(lit);
    TT b = node();
    want(") ");
    return TT::ite(TT::var(s->ttOf[id]), a, b);
  }
};
template <class F> static std::string capturedStdout(F fn) {
  FILE *old = stdout;
  std::string r = captured([&](FILE *f) { stdout = f; fn(); stdout = old; });
  stdout = old;
  return r;
}
static Verdict c15(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(60));
  Verdict v;
  Cfg c = stdCfg(r);
  if (r.chance(10)) c.universe = c.init = 9;
  Session s(seed);
  s.setup(c, "m");
  s.use("build:10 and:2 or:2 xor:5 multixor:2 ite:3 not:3 newvar:1 reorder:1 free:3 gc:1 queries:1");
  int rounds = r.range(5, 20);
  long printed = 0;
  for (int k = 0; k < rounds; k++) {
    for (int i = 0; i < 4; i++) s.step();
    Arg a = s.arg(8);
    std::vector<Arg> as{a};
    for (int i = r.below(4); i > 0; i--) as.push_back(s.arg());
    NameEnv env{&s, r.below(4), {}, "", 0};
    std::vector<std::string> names;
    PrintParser pp;
    pp.s = &s;
    auto nameOf = [&](int idx) {
      int id = s.order[idx];
      if (env.style == 3 || (env.style == 2 && id % 2)) return "var." + std::to_string(idx);
      return (env.style == 1 ? "a_rather_long_name_" : "n") + std::to_string(id);
    };
    Cal_VarNamingFn_t nf = env.style == 3 ? Cal_BddNamingFnNone : nameFn;
    s.begin("PrintBdd");
    rt::tr("print%s style=%d", s.showArgs().c_str(), env.style);
    std::string text = captured([&](FILE *f) { Cal_BddPrintBdd(s.m, a.h, nf, r.chance(50) ? Cal_BddTerminalIdFnNone : termFn, (Cal_Pointer_t)&env, f); });
    s.expectQuiet();
    s.afterOp(); // the order may be another one
    for (int i = 0; i < s.nvars(); i++) {
      names.push_back(nameOf(i));
      pp.nameTT[names[i]] = s.ttOf[s.order[i]];
    }
    pp.lines = splitLines(text);
    TT got = pp.node(0);
    if (pp.at != pp.lines.size()) VIOL("print", "text after the end of the printed BDD");
    if (got != a.f) VIOL("print", "the printed text denotes %lx, the BDD %lx", (unsigned long)got.w[0], (unsigned long)a.f.w[0]);
    SubFun sf(s.ttOrder());
    sf.add(a.f);
    long inner = sf.nodes();
    for (size_t i = 0; i < sf.ord.size(); i++)
      for (auto &f : sf.posLevels[i]) if (s.ttVarOf(f) >= 0 || s.ttVarOf(~f) >= 0) inner--;
    if (pp.ifs != inner) VIOL("print", "%ld nodes are written out, the BDD has %ld: shared parts are not defined exactly once", pp.ifs, inner);
    printed++;
    rt::count("printed_bdds");
    v.sig = v.sig * 31 + a.f.hash();
    // profiles
    std::vector<Bdd> arr;
    for (auto &x : as) arr.push_back(x.h);
    arr.push_back(nullptr);
    int ll = r.pick(std::vector<int>{0, 10, 40, 79, 200});
    for (int multi = 0; multi < 2; multi++) {
      std::vector<long> cnt(s.nvars() + 1, 0);
      s.begin("PrintProfile");
      if (multi) Cal_BddProfileMultiple(s.m, arr.data(), cnt.data(), 1); else Cal_BddProfile(s.m, a.h, cnt.data(), 1);
      text = captured([&](FILE *f) {
        if (multi) Cal_BddPrintProfileMultiple(s.m, arr.data(), nf, (char *)&env, ll, f);
        else Cal_BddPrintProfile(s.m, a.h, nf, (char *)&env, ll, f);
      });
      checkProfileText(s, text, cnt, names, ll, multi ? "PrintProfileMultiple" : "PrintProfile");
      s.begin("PrintFunctionProfile");
      if (multi) Cal_BddFunctionProfileMultiple(s.m, arr.data(), cnt.data()); else Cal_BddFunctionProfile(s.m, a.h, cnt.data());
      text = captured([&](FILE *f) {
        if (multi) Cal_BddPrintFunctionProfileMultiple(s.m, arr.data(), nf, (char *)&env, ll, f);
        else Cal_BddPrintFunctionProfile(s.m, a.h, nf, (char *)&env, ll, f);
      });
      checkProfileText(s, text, cnt, names, ll, multi ? "PrintFunctionProfileMultiple" : "PrintFunctionProfile");
      rt::count("printed_profiles", 2);
    }
    if (s.nvars() <= 26) {
      s.begin("FunctionPrint");
      char nm[] = "some_name";
      text = capturedStdout([&] { Cal_BddFunctionPrint(s.m, a.h, nm); });
      FunctionText ft{text, &s};
      ft.want("some_name = ");
      TT g = ft.node();
      if (text.substr(ft.p) != "\n") VIOL("function-print", "text after the function: '%.100s'", text.substr(ft.p).c_str());
      if (g != a.f) VIOL("function-print", "the printed function is %lx, the BDD %lx", (unsigned long)g.w[0], (unsigned long)a.f.w[0]);
      rt::count("printed_functions");
    }
    s.expectQuiet();
    s.afterOp();
    s.checkStructure("printing");
    // a counting query after printing still answers correctly
    s.doneArgs();
    s.opQueries();
    s.trim();
  }
  s.checkAll("printing");
  summary(s, v);
  v.nontrivial = printed >= 3;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C16
static Verdict c16(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  c.maxSlots = r.range(4, 10);
  bool manyAssoc = r.chance(10);
  return plain(seed, std::string("associnit:16 assocset:8 assocquit:") + (manyAssoc ? "2" : "9") + " tempinit:5 tempaug:4 tempquit:2 exists:4 forall:2 relprod:3 substitute:5 varsubst:4 satsupport:2 build:5 and:2 xor:2 free:6 freemany:2 gc:4 scribble:3 reorder:1 newvar:1 newdummy:1 params:1 dynamic:1 misuse:2",
               manyAssoc ? 400 : r.range(60, 200), c, 40);
}
// ------------------------------------------------------------------ C17
static Verdict c17(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Verdict v;
  Cfg c = stdCfg(r);
  bool big = r.chance(8);
  if (big) { c.universe = c.init = r.range(10, 12); c.dummies = 0; c.maxSlots = 20; }
  if (r.chance(30)) { rt::alloc.failBig = r.range(1, 4); rt::alloc.bigSeen = 0; }
  long failed0 = rt::alloc.failed;
  Session s(seed);
  s.setup(c, "m");
  s.use(std::string(BOOL) + MEM + QUANT + SUBST + DC + ALLQ + "reorder:4 newvar:2 newdummy:1 dynamic:2 params:2 gcmode:1 check:1 pipeline:1 misuse:2");
  int n = big ? 60 : r.range(30, 200);
  for (int i = 0; i < n; i++) {
    s.step();
    if (s.pipelineBusy) continue;
    if (r.chance(3)) { // printing and streams
      Arg a = s.arg();
      std::vector<Bdd> vars(s.varH);
      vars.push_back(nullptr);
      std::string d = dumpTo(s, {{a.h, a.f}}, vars);
      FILE *f = fmemopen((void *)d.data(), d.size(), "r");
      int err;
      Bdd x = Cal_BddUndumpBdd(s.m, vars.data(), f, &err);
      fclose(f);
      if (x != a.h) VIOL("undump", "dump and undump give another handle");
      s.take(x, a.f);
      s.release(x);
      captured([&](FILE *f2) { Cal_BddPrintBdd(s.m, a.h, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, 0, f2); Cal_BddStats(s.m, f2); });
      s.doneArgs();
    }
    if (r.chance(1)) { // a pipeline left in any state
      Cal_PipelineInit(s.m, (Cal_BddOp_t)r.below(3));
      Bdd p = nullptr;
      int k = r.below(4);
      for (int j = 0; j < k; j++) { Arg a = s.arg(); p = Cal_PipelineCreateProvisionalBdd(s.m, p && r.chance(50) ? p : a.h, s.arg().h); if (!p) break; }
      if (r.chance(60)) Cal_PipelineExecute(s.m);
      s.lastGCs = CalVerifNumGC(s.m);
      s.checkOrder(false);
      Cal_PipelineQuit(s.m);
      s.doneArgs();
    }
  }
  summary(s, v);
  if (rt::alloc.failed > failed0) rt::count("big_allocation_failures", rt::alloc.failed - failed0);
  v.nontrivial = s.opKinds.size() >= 10;
  rt::alloc.failBig = 0;
  if (s.pipelineBusy && r.chance(50)) s.quitMidway();
  s.close(r.chance(60)); // also quit in the middle of everything
  return v;
}
// ------------------------------------------------------------------ C18
static Verdict c18(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(70));
  Verdict v;
  std::string spec = std::string("and:3 or:3 xor:4 nand:1 ite:4 not:1 multiand:1 multior:1 multixor:1 pairand:1 pairxor:1 build:8 ") + "free:4 freemany:1 unfree:1 gc:3 scribble:1 " + QUANT + SUBST + DC +
                     "queries:1 inspect:1 lookup:1 reorder:2 newvar:1 newdummy:1 params:1 pipeline:2 misuse:1";
  int nA = r.range(30, 90), nB = r.range(10, 90);
  Cfg ca = stdCfg(r), cb = stdCfg(r);
  if (r.chance(60)) { cb.universe = ca.universe; cb.init = std::min(cb.init, cb.universe); }
  int W = std::max(std::max(ca.universe, cb.universe), 6);
  ca.allowDynamic = false;
  cb.allowDynamic = true;
  // TT::W is common to both
  auto norm = [&](Cfg &c) { (void)c; };
  norm(ca); norm(cb);
  Log alone, with, scattered;
  auto setupW = [&](Session &s, Cfg c, const char *tag) {
    int u = c.universe;
    c.universe = W;
    s.setup(c, tag);
    s.cfg.universe = u;
  };
  {
    rt::alloc.scatter = false;
    Session a(seed);
    a.log = &alone;
    setupW(a, ca, "A");
    a.use(spec);
    for (int i = 0; i < nA; i++) a.step();
    summary(a, v);
    a.close(true);
  }
  { // interleaved with another manager, elsewhere in memory
    rt::alloc.scatter = true;
    rt::alloc.rng = Rng(r.next());
    rt::alloc.junkByte = (unsigned char)r.next();
    std::vector<void *> holes;
    int nh = r.below(6);
    for (int i = 0; i < nh; i++) holes.push_back(malloc(r.range(1, 300000)));
    Session a(seed), b(seed ^ 0x5555);
    a.sharedLife = b.sharedLife = true;
    bool bFirst = r.chance(50);
    if (bFirst) { setupW(b, cb, "B"); b.use(spec + " dynamic:1 gcmode:1"); }
    a.log = &with;
    setupW(a, ca, "A");
    a.use(spec);
    if (!bFirst) { setupW(b, cb, "B"); b.use(spec + " dynamic:1 gcmode:1"); }
    int i = 0, j = 0;
    bool bOpen = true;
    bool swapOrder = r.chance(50);
    while (i < nA || (bOpen && j < nB)) {
      if (i < nA && (r.chance(60) || !bOpen || j >= nB)) { a.step(); i++; }
      else if (bOpen) { b.step(); j++; }
      if (bOpen && j >= nB && r.chance(40)) { b.close(true); bOpen = false; }
      if (r.chance(4)) { if (!a.pipelineBusy) a.checkAll("interleaving"); if (bOpen && !b.pipelineBusy) b.checkAll("interleaving"); }
    }
    if (bOpen && swapOrder) { b.close(r.chance(60)); bOpen = false; }
    a.close(true);
    if (bOpen) b.close(true);
    for (void *p : holes) free(p);
  }
  { // alone again, with yet another placement
    rt::alloc.scatter = true;
    rt::alloc.rng = Rng(r.next());
    Session a(seed);
    a.log = &scattered;
    setupW(a, ca, "A");
    a.use(spec);
    for (int i = 0; i < nA; i++) a.step();
    a.close(true);
  }
  auto compare = [&](const Log &x, const Log &y, const char *what) {
    for (size_t i = 0; i < x.v.size() && i < y.v.size(); i++)
      if (x.v[i] != y.v[i] || x.what[i] != y.what[i])
        VIOL("divergence", "%s: observation %zu (%s/%s) is %lx instead of %lx", what, i, x.what[i].c_str(), y.what[i].c_str(), (unsigned long)y.v[i], (unsigned long)x.v[i]);
    if (!x.cut && !y.cut && x.v.size() != y.v.size()) VIOL("divergence", "%s: %zu observations instead of %zu", what, y.v.size(), x.v.size());
  };
  compare(alone, scattered, "other memory placement");
  compare(alone, with, "with another manager");
  rt::count("observations_compared", (long)(alone.v.size() * 2));
  v.nontrivial = alone.v.size() >= 15;
  return v;
}
// ------------------------------------------------------------------ C19
struct BlockModel { std::set<int> ids; bool reorderable; Cal_Block b; };
struct C19 : Session {
  using Session::Session;
  std::vector<BlockModel> blocks;
  // positions [lo,hi] of the ids of a block
  void range(const BlockModel &b, int &lo, int &hi) {
    lo = 1 << 30; hi = -1;
    for (int i = 0; i < nvars(); i++) if (b.ids.count(order[i])) { lo = std::min(lo, i); hi = std::max(hi, i); }
  }
  void newBlock() {
    if (nfun() == 0) return;
    int n = nvars();
    for (int tries = 0; tries < 10; tries++) {
      int k = rng.below(nfun());
      int lo = indexOfTT(k), len = rng.range(1, std::min(n - lo, 5));
      bool odd = rng.chance(12); // a length which is corrected, with a warning
      if (odd) len = rng.chance(50) ? -rng.below(4) : n - lo + rng.range(1, 5);
      int hi = std::min(lo + std::max(len, 1) - 1, n - 1);
      bool ok = true;
      for (auto &b : blocks) {
        int bl, bh;
        range(b, bl, bh);
        bool disjoint = hi < bl || bh < lo, inside = lo >= bl && hi <= bh, contains = bl >= lo && bh <= hi;
        if (!(disjoint || inside || contains)) ok = false;
        // same extent again: which one is outer is not specified
        if (bl == lo && bh == hi) ok = false;
      }
      if (!ok) continue;
      begin("NewVarBlock");
      rt::tr("block at index %d length %d", lo, len);
      Cal_Block b = Cal_BddNewVarBlock(m, varH[k], len);
      if (odd) { fflush(stderr); rt::clearErr(); rt::count("blocks_of_odd_length"); }
      else expectQuiet();
      if (!b) VIOL("block", "creating a block failed");
      BlockModel bm;
      for (int i = lo; i <= hi; i++) bm.ids.insert(order[i]);
      bm.b = b;
      bm.reorderable = false;
      if (rng.chance(50)) { bm.reorderable = true; Cal_BddVarBlockReorderable(m, b, 1); }
      blocks.push_back(bm);
      rt::count("blocks");
      opKinds.insert("block");
      return;
    }
  }
  void toggle() {
    if (blocks.empty()) return;
    BlockModel &b = blocks[rng.below((int)blocks.size())];
    b.reorderable = !b.reorderable;
    rt::tr("block reorderable=%d", b.reorderable);
    Cal_BddVarBlockReorderable(m, b.b, b.reorderable);
  }
  // a variable created inside a block becomes part of it
  void newVarInBlocks(bool dummy) {
    std::vector<int> before = order;
    newVarRandom(dummy);
    int id = nvars(), at = -1;
    for (int i = 0; i < nvars(); i++) if (order[i] == id) at = i;
    for (auto &b : blocks) {
      // range with the new variable left out
      int lo = 1 << 30, hi = -1;
      for (int i = 0; i < nvars(); i++) if (b.ids.count(order[i])) { lo = std::min(lo, i); hi = std::max(hi, i); }
      if (at > lo && at < hi) b.ids.insert(id);
    }
    rt::count("variables_after_blocks");
  }
  void blockReorder(bool automatic) {
    std::vector<int> before = order;
    if (automatic) step();
    else reorderWith(rng.chance(50) ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, CAL_REORDER_METHOD_DF);
    checkBlocks(before);
  }
  void checkBlocks(const std::vector<int> &before) {
    rt::count("block_checks", (long)blocks.size());
    for (auto &b : blocks) {
      int lo, hi;
      range(b, lo, hi);
      if (hi - lo + 1 != (int)b.ids.size()) VIOL("block-split", "a block of %zu variables is spread over %d positions after reordering", b.ids.size(), hi - lo + 1);
      if (!b.reorderable) {
        // a fixed block keeps the order of its variables, except inside
        // nested blocks that are reorderable themselves
        auto part = [&](int id) {
          // the outermost block strictly inside b that holds id, else id itself
          const BlockModel *best = nullptr;
          for (auto &o : blocks)
            if (&o != &b && o.ids.count(id) && o.ids.size() < b.ids.size() && (!best || o.ids.size() > best->ids.size())) best = &o;
          return best ? -1 - (int)(best - blocks.data()) : id;
        };
        auto parts = [&](const std::vector<int> &ord) {
          std::vector<int> x;
          for (int id : ord) if (b.ids.count(id)) { int p = part(id); if (x.empty() || x.back() != p) x.push_back(p); }
          return x;
        };
        if (parts(before) != parts(order)) {
          VIOL("block-order", "a block that is not reorderable was permuted");
        }
      }
    }
  }
};
static Verdict c19(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(60));
  Verdict v;
  Cfg c = stdCfg(r);
  c.universe = r.range(5, 9);
  c.init = r.range(4, c.universe);
  c.dummies = r.below(5);
  c.maxSlots = 12;
  C19 s(seed);
  s.onlyMethod = CAL_REORDER_METHOD_DF;
  s.sizeOracle = r.chance(30) ? 60 : 0;
  s.improveOracle = false;
  s.setup(c, "m");
  s.use("build:10 and:2 xor:4 ite:3 free:1 gc:1 associnit:1 exists:1 substitute:1");
  int rounds = r.range(4, 12);
  for (int k = 0; k < rounds; k++) {
    for (int i = 0; i < 8; i++) s.step();
    int nb = r.range(0, 2);
    for (int i = 0; i < nb; i++) s.newBlock();
    if (r.chance(20)) s.toggle();
    if (r.chance(35)) s.newVarInBlocks(s.nfun() >= c.universe || r.chance(50));
    s.blockReorder(false);
    if (r.chance(30)) s.blockReorder(false);
  }
  summary(s, v);
  v.nontrivial = !s.blocks.empty() && s.lastReorderings > 0;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C20
static Verdict c20(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  return plain(seed, std::string("inspect:14 lookup:2 build:8 and:2 or:2 xor:3 ite:2 not:2 satisfy:1 ") + MEM + "reorder:1 newvar:1 dynamic:1 params:1 misuse:1", r.range(40, 150), c, 40);
}

// ------------------------------------------------------------------ main
// A case behaves the same whenever it is run: no address space randomisation
// (the placement of memory is varied by the workloads, from their seed).
// ------------------------------------------------------------------ C21
static Verdict c21(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  c.maxSlots = r.range(4, 12);
  return plain(seed, "misuse:30 build:6 and:2 or:1 xor:2 ite:2 not:1 free:4 freemany:1 gc:2 scribble:1 associnit:3 assocset:2 assocquit:1 tempinit:2 tempaug:1 exists:2 relprod:1 substitute:2 varsubst:1 "
                     "satsupport:1 compose:1 swapvars:1 pipeline:2 multiand:1 pairxor:1 reorder:1 dynamic:1 newvar:1 newdummy:1 params:1 queries:1 inspect:1 lookup:1 gcmode:1", r.range(40, 150), c, 40);
}
// ------------------------------------------------------------------ C23
static Verdict c23(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(60));
  Verdict v;
  if (r.chance(25)) { // blocks
    Cfg c = stdCfg(r);
    c.universe = r.range(5, 9);
    c.init = r.range(4, c.universe);
    c.dummies = r.below(4);
    c.maxSlots = r.range(4, 12);
    C19 s(seed);
    s.onlyMethod = CAL_REORDER_METHOD_DF;
    s.sizeOracle = 100;
    s.improveOracle = false;
    s.setup(c, "m");
    s.use("build:10 and:2 xor:4 ite:3 free:3 freemany:1 gc:1 associnit:1 tempinit:1 exists:1 substitute:1");
    for (int k = r.range(4, 12); k > 0; k--) {
      for (int i = 0; i < 6; i++) s.step();
      for (int i = r.range(0, 2); i > 0; i--) s.newBlock();
      if (r.chance(20)) s.toggle();
      if (r.chance(35)) s.newVarInBlocks(s.nfun() >= c.universe || r.chance(50));
      s.blockReorder(false);
    }
    summary(s, v);
    v.nontrivial = s.lastReorderings > 0;
    s.close(true);
    return v;
  }
  Cfg c = stdCfg(r);
  bool big = r.chance(10);
  if (big) { c.universe = c.init = r.range(10, 13); c.dummies = r.below(6); c.maxSlots = r.range(3, 12); }
  else { c.universe = r.range(3, 9); c.init = r.range(3, c.universe); c.dummies = r.chance(30) ? r.below(3) : 0; c.maxSlots = r.range(1, 8); }
  Session s(seed);
  s.sizeOracle = 100;
  s.onlyMethod = r.chance(50) ? r.below(2) : -1;
  s.setup(c, "m");
  s.use("build:10 and:2 or:2 xor:3 ite:3 multixor:1 associnit:1 assocset:1 assocquit:1 tempinit:1 exists:1 substitute:1 compose:1 swapvars:2 pipeline:1 free:5 freemany:2 gc:1 scribble:1 reorder:10 params:2 newvar:2 newdummy:1");
  int n = big ? r.range(25, 40) : r.range(40, 120);
  for (int i = 0; i < n; i++) s.step();
  summary(s, v);
  v.nontrivial = s.lastReorderings > 0;
  s.close(true);
  return v;
}
// ------------------------------------------------------------------ C24
static Verdict c24(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  Verdict v;
  int mode = r.below(100);
  bool hostile = r.chance(mode < 50 ? 60 : 25);
  setTunables(r, hostile);
  calVerifCacheSizeIndex = mode < 50 && r.chance(50) ? r.range(11, 14) : 16; // below, results are forgotten before they are used again
  Scale s(seed);
  int vars, groups = 3, ops;
  bool wide = false;
  if (mode < 50) { vars = r.range(5, 40); s.lim = r.range(50, 600); ops = r.range(20, 60); s.maxFns = r.range(4, 20); s.reorderUpTo = 4000; }
  else if (mode < 85) { vars = r.range(20, 150); s.lim = r.range(300, 3000); ops = r.range(10, 40); s.maxFns = r.range(4, 12); s.reorderUpTo = 1500; }
  else if (mode < 97) { vars = r.range(200, 420); groups = r.range(1, 2); wide = true; s.lim = r.range(300, 1500); ops = r.range(6, 15); s.maxFns = r.range(3, 6); }
  else { vars = r.range(60, 150); s.lim = r.range(10000, 40000); ops = r.range(8, 16); s.maxFns = r.range(3, 6); }
  rt::tr("mode %d variables %d limit %ld hostile %d cache %d hash %d gcmin %ld gccheck %d large %ld pages %d", mode, vars, s.lim, hostile, calVerifCacheSizeIndex, calVerifHashSizeIndex, calVerifMinGCLimit, calVerifGCCheck, calVerifLargeBdd, calVerifNumPagesThreshold);
  s.openScale(vars, r.chance(30));
  s.autoReorder = mode < 85 && r.chance(15);
#ifndef NDEBUG
  s.autoReorder = s.autoReorder && vars <= 40; // the library's assertions walk all its nodes at every step
#endif
  if (s.autoReorder) {
    Cal_BddManagerSetParameters(s.m, r.range(50, 2000), r.range(100, 10000), 0.75, 0.9);
    Cal_BddDynamicReordering(s.m, r.chance(50) ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, r.below(2));
    s.ordering = true;
  }
  s.opBuild(groups, wide);
  s.opBuild(groups, wide);
  for (int i = 0; i < ops; i++) {
    int k = r.below(100);
    if (k < 14 || s.fns.size() < 2) s.opBuild(groups, wide);
    else if (k < 28) s.opBinary();
    else if (k < 36) s.opIte();
    else if (k < 38) s.opNot();
    else if (k < 43) s.opMulti();
    else if (k < 48) s.opPair();
    else if (k < 53) s.pipeline();
    else if (k < 65) s.opQuant();
    else if (k < 70) s.opCofactor();
    else if (k < 76) s.opCare();
    else if (k < 79) s.opSatisfy();
    else if (k < 84) s.opCompose();
    else if (k < 89) s.opPermute();
    else if (k < 91) s.opQueries();
    else if (k < 93) s.opDump();
    else if (k < 95) s.opCollect();
    else if (k < 97) s.opReorder();
    else if (k < 98) { if (vars < 60) s.newVar(); }
    else s.freeFn(r.below((int)s.fns.size()));
  }
  v.sig = s.sig;
  v.nontrivial = s.walked > 1000 && s.opsDone >= 5;
  char b[200];
  snprintf(b, sizeof b, "vars=%d states=%ld ops=%ld largest=%ld slowest=%dms gc=%ld reorderings=%ld", s.n(), s.walked, s.opsDone, s.biggest, s.maxOpMs, CalVerifNumGC(s.m), CalVerifNumReorderings(s.m));
  v.sample = b;
  s.finish();
  return v;
}
// ------------------------------------------------------------------ C25
static Verdict c25(uint64_t seed) {
  Rng r(seed);
  memoryRegime(r);
  setTunables(r, r.chance(75));
  Cfg c = stdCfg(r);
  c.maxSlots = r.range(4, 40);
  maybeBig(r, c, 8, 13);
  long before = rt::counters["statistics_checked"];
  Verdict v = plain(seed, "stats:16 hugelimit:3 build:10 and:4 or:3 xor:4 ite:4 not:1 free:5 freemany:2 unfree:2 gc:3 gclimit:2 scribble:1 gcmode:2 params:2 dynamic:2 reorder:3 newvar:2 newdummy:2 associnit:2 assocset:2 assocquit:1 tempinit:2 "
                          "exists:2 relprod:2 substitute:1 varsubst:1 compose:1 swapvars:1 cofactor:1 reduce:1 satisfy:1 pipeline:2 multiand:1 pairxor:1 queries:1 lookup:1 misuse:1", r.range(40, 160), c, 60);
  v.nontrivial = v.nontrivial && rt::counters["statistics_checked"] - before >= 3;
  return v;
}
// ------------------------------------------------------------------ C22
// The memory library has static state: each case runs in a process of its own.
struct MemMonitor {
  Rng r;
  struct Blk { size_t n; uint64_t seed; int mgr; };
  std::map<uintptr_t, Blk> live; // also the records
  struct Mgr { Cal_RecMgr m; size_t size; };
  std::vector<Mgr> mgrs;
  size_t bytes = 0, total = 0;
  long ops = 0, moved = 0, kept = 0, records = 0, foreign = 0;
  uint64_t sig = 7;
  Cal_Address_t lastAlloc = 0;
  explicit MemMonitor(uint64_t seed) : r(seed) {}
  static unsigned char at(uint64_t seed, size_t i) { return (unsigned char)((seed >> (8 * (i & 7))) + 31 * (i >> 3)); }
  void fill(uintptr_t p, size_t n, uint64_t seed) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = at(seed, i); }
  void verify(uintptr_t p, size_t n, uint64_t seed, const char *when) {
    for (size_t i = 0; i < n; i++)
      if (((unsigned char *)p)[i] != at(seed, i)) VIOL("memory-contents", "byte %zu of a block of %zu bytes is lost (%s)", i, n, when);
  }
  void add(void *q, size_t n, int mgr, const char *what) {
    uintptr_t p = (uintptr_t)q;
    if (!q) VIOL("memory-null", "%s of %zu bytes gives null", what, n);
    if (p % sizeof(void *)) VIOL("memory-alignment", "%s of %zu bytes is at %lx", what, n, (unsigned long)p);
    auto it = live.lower_bound(p);
    if (it != live.end() && it->first < p + n) VIOL("memory-overlap", "%s of %zu bytes overlaps another in use", what, n);
    if (it != live.begin()) {
      --it;
      if (it->first + it->second.n > p) VIOL("memory-overlap", "%s of %zu bytes overlaps another in use", what, n);
    }
    Blk b{n, r.next(), mgr};
    fill(p, n, b.seed);
    live[p] = b;
    bytes += n;
    sig = sig * 31 + n;
  }
  void drop(std::map<uintptr_t, Blk>::iterator it) { bytes -= it->second.n; live.erase(it); }
  size_t size() {
    int p = r.below(100);
    if (p < 45) return r.range(1, 200);
    if (p < 60) { size_t q = (size_t)1 << r.range(3, 14); return std::max<long>(1, (long)q - 48 + r.range(-2, 2)); }
    if (p < 70) { size_t q = (size_t)1 << r.range(3, 14); return std::max<long>(1, (long)q + r.range(-2, 2)); }
    if (p < 97) return r.range(1, 6000);
    return r.range(1, r.chance(10) ? 3000000 : 200000);
  }
  std::map<uintptr_t, Blk>::iterator any(bool block) {
    auto it = live.lower_bound(live.empty() ? 0 : live.begin()->first + r.next() % (live.rbegin()->first - live.begin()->first + 1));
    for (size_t i = 0; i <= live.size() + 1; i++) {
      if (it == live.end()) it = live.begin();
      if (it == live.end() || (block ? it->second.mgr == -1 : it->second.mgr >= 0)) return it;
      ++it;
    }
    return live.end();
  }
  void accounting() {
    Cal_Address_t a = Cal_MemAllocation();
    if (a < lastAlloc) VIOL("memory-accounting", "the memory allocated goes back from %zu to %zu", lastAlloc, a);
    if (a < bytes) VIOL("memory-accounting", "%zu bytes are in use of %zu allocated", bytes, a);
    lastAlloc = a;
  }
  void step() {
    ops++;
    int p = r.below(100);
    if (p < 34) {
      size_t n = size();
      rt::tr("get %zu", n);
      rt::inOp = "Cal_MemGetBlock";
      add(Cal_MemGetBlock(n), n, -1, "a block");
    } else if (p < 54) {
      auto it = any(true);
      if (it == live.end()) return;
      rt::tr("free %zu", it->second.n);
      verify(it->first, it->second.n, it->second.seed, "before freeing");
      void *q = (void *)it->first;
      drop(it);
      rt::inOp = "Cal_MemFreeBlock";
      Cal_MemFreeBlock(q);
    } else if (p < 74) {
      auto it = any(true);
      if (it == live.end()) return;
      Blk b = it->second;
      void *q = (void *)it->first;
      size_t n = r.chance(35) ? b.n * r.range(2, 4) : r.chance(30) ? b.n + r.range(1, 100) : r.chance(40) ? (size_t)r.range(1, (int)std::min<size_t>(b.n, 1000000)) : size();
      if (n > 4000000) n = 4000000;
      rt::tr("resize %zu to %zu", b.n, n);
      drop(it);
      rt::inOp = "Cal_MemResizeBlock";
      void *q2 = Cal_MemResizeBlock(q, n);
      if (!q2) VIOL("memory-null", "resizing a block gives null");
      verify((uintptr_t)q2, std::min(n, b.n), b.seed, "after resizing");
      (q2 == q ? kept : moved)++;
      add(q2, n, -1, "a resized block");
    } else if (p < 76) { // degenerate requests
      rt::inOp = "degenerate request";
      int k = r.below(4);
      rt::tr("degenerate %d", k);
      if (k == 0) { if (Cal_MemGetBlock(0)) VIOL("memory-null", "a block of no bytes"); }
      else if (k == 1) Cal_MemFreeBlock(nullptr);
      else if (k == 2) { size_t n = size(); add(Cal_MemResizeBlock(nullptr, n), n, -1, "a block"); }
      else {
        auto it = any(true);
        if (it == live.end()) return;
        void *q = (void *)it->first;
        verify(it->first, it->second.n, it->second.seed, "before resizing to nothing");
        drop(it);
        if (Cal_MemResizeBlock(q, 0)) VIOL("memory-null", "a block resized to no bytes");
      }
    } else if (p < 78) { // somebody else moves the break
      long n = r.range(1, 5000);
      rt::tr("sbrk %ld", n);
      void *q = sbrk(n);
      if (q == (void *)-1) return;
      foreign++;
      uint64_t sd = r.next();
      fill((uintptr_t)q, n, sd);
      live[(uintptr_t)q] = Blk{(size_t)n, sd, -2 - 1000000};
      bytes += 0;
    } else if (p < 82) {
      if (mgrs.size() >= 12) return;
      int n = r.chance(70) ? r.range(1, 64) : r.range(1, (int)rt::pageSize - 64);
      rt::tr("new manager of records of %d bytes", n);
      rt::inOp = "Cal_MemNewRecMgr";
      Cal_RecMgr m = Cal_MemNewRecMgr(n);
      if (!m || (uintptr_t)m % sizeof(void *)) VIOL("memory-alignment", "a record manager is at %p", (void *)m);
      mgrs.push_back({m, (size_t)n});
    } else if (p < 83) {
      if (mgrs.empty() || r.chance(50)) return;
      freeMgr(r.below((int)mgrs.size()));
    } else {
      if (mgrs.empty()) return;
      int i = r.below((int)mgrs.size());
      int n = r.chance(10) ? r.range(20, 300) : r.range(1, 4);
      bool get = r.chance(60);
      rt::tr("%d records of %zu bytes %s", n, mgrs[i].size, get ? "taken" : "given back");
      while (n-- > 0) {
        if (get) {
          rt::inOp = "Cal_MemNewRec";
          add(Cal_MemNewRec(mgrs[i].m), mgrs[i].size, i, "a record");
          records++;
        } else {
          rt::inOp = "Cal_MemFreeRec";
          auto it = any(false);
          if (it == live.end() || it->second.mgr < 0) break;
          int k = it->second.mgr;
          verify(it->first, it->second.n, it->second.seed, "before freeing the record");
          void *q = (void *)it->first;
          drop(it);
          Cal_MemFreeRec(mgrs[k].m, q);
        }
      }
    }
    accounting();
  }
  void freeMgr(int i) { // with all records that are left
    rt::tr("free manager of records of %zu bytes", mgrs[i].size);
    for (auto it = live.begin(); it != live.end();) {
      auto nx = std::next(it);
      if (it->second.mgr == i) { verify(it->first, it->second.n, it->second.seed, "before freeing the manager"); drop(it); }
      else if (it->second.mgr == (int)mgrs.size() - 1) it->second.mgr = i;
      it = nx;
    }
    rt::inOp = "Cal_MemFreeRecMgr";
    Cal_MemFreeRecMgr(mgrs[i].m);
    mgrs[i] = mgrs.back();
    mgrs.pop_back();
  }
  void verifyAll(const char *when) { for (auto &b : live) verify(b.first, b.second.n, b.second.seed, when); }
  void clear() { // everything but what is not ours
    while (!mgrs.empty()) freeMgr((int)mgrs.size() - 1);
    std::vector<uintptr_t> ps;
    for (auto &b : live) if (b.second.mgr == -1) ps.push_back(b.first);
    for (size_t i = 0; i + 1 < ps.size(); i++) std::swap(ps[i], ps[i + r.below((int)(ps.size() - i))]);
    for (uintptr_t p : ps) {
      auto it = live.find(p);
      verify(p, it->second.n, it->second.seed, "before freeing");
      drop(it);
      Cal_MemFreeBlock((void *)p);
    }
  }
  void run() {
    int n = r.range(30, 400);
    for (int i = 0; i < n; i++) {
      step();
      if (bytes > 20000000) clear();
      if (r.chance(2)) verifyAll("while in use");
    }
    verifyAll("at the end");
    clear();
    // what was given back can be had again: the same requests twice need no more memory
    std::vector<size_t> sizes;
    for (int i = r.range(5, 60); i > 0; i--) sizes.push_back(size());
    for (int round = 0; round < 3; round++) {
      rt::tr("round %d of the same %zu requests", round, sizes.size());
      rt::inOp = "Cal_MemGetBlock";
      Cal_Address_t before = Cal_MemAllocation();
      for (size_t s : sizes) add(Cal_MemGetBlock(s), s, -1, "a block");
      accounting();
      if (round && Cal_MemAllocation() != before) VIOL("memory-lost", "memory given back is not used again: %zu bytes more for the same requests", Cal_MemAllocation() - before);
      clear();
    }
  }
};
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
static Verdict c22(uint64_t seed) {
  Verdict v;
  static long *shared = (long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(shared, 0, 4096);
  fflush(rt::out);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rt::startWatchdog(60);
    MemMonitor mm(seed);
    mm.run();
    shared[0] = mm.ops; shared[1] = mm.moved; shared[2] = mm.kept; shared[3] = mm.records; shared[4] = mm.foreign;
    shared[5] = (long)mm.sig; shared[6] = (long)mm.lastAlloc; shared[7] = 1;
    rt::finished = true;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { rt::finished = true; _exit(WEXITSTATUS(st)); } // it has been reported
  if (!WIFEXITED(st) || !shared[7]) VIOL("crash", "the process using the memory library ended with status %x", st);
  rt::count("memory_operations", shared[0]);
  rt::count("blocks_moved", shared[1]);
  rt::count("blocks_resized_in_place", shared[2]);
  rt::count("records", shared[3]);
  rt::count("foreign_sbrk", shared[4]);
  v.sig = (uint64_t)shared[5];
  char b[160];
  snprintf(b, sizeof b, "operations=%ld moved=%ld kept=%ld records=%ld allocated=%ld", shared[0], shared[1], shared[2], shared[3], shared[6]);
  v.sample = b;
  v.nontrivial = shared[0] >= 20 && shared[1] + shared[2] > 0;
  return v;
}
static void fixedLayout(char **argv) {
  if (getenv("CALMON_FIXED")) return;
  setenv("CALMON_FIXED", "1", 1);
  int old = personality(0xffffffff);
  if (old == -1 || (old & ADDR_NO_RANDOMIZE)) return;
  if (personality(old | ADDR_NO_RANDOMIZE) == -1) return;
  execv("/proc/self/exe", argv);
}
struct Prop { const char *id; Verdict (*fn)(uint64_t); };
#ifdef CPPMON
static Verdict c14(uint64_t);
static const Prop props[] = {{"C14", c14}};
#else
static const Prop props[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07},
                             {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C15", c15},
                             {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24}, {"C25", c25}};
#endif

int main(int argc, char **argv) {
  fixedLayout(argv);
  std::string prop;
  uint64_t seed = 1;
  long from = 0, to = 1;
  int limit = 120;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--from") from = atol(argv[++i]);
    else if (a == "--to") to = atol(argv[++i]);
    else if (a == "--limit") limit = atoi(argv[++i]);
    else if (a == "--verbose") rt::verbose = true;
    else if (a == "--nojunk") rt::alloc.junk = false;
  }
  rt::init();
  const Prop *p = nullptr;
  for (auto &q : props) if (prop == q.id) p = &q;
  if (!p) { fprintf(rt::out, "HARNESS unknown property\n"); rt::finished = true; return 3; }
  uint64_t ph = 0;
  for (char ch : prop) ph = ph * 131 + ch;
  for (long c = from; c < to; c++) {
    rt::curCase = c;
    rt::trace.clear();
    fprintf(rt::out, "BEGIN %ld\n", c);
    fflush(rt::out);
    rt::startWatchdog(limit);
    uint64_t cs = (seed * 1000003ULL + c) * 0x9E3779B97F4A7C15ULL ^ ph;
    Verdict v = p->fn(cs);
    fprintf(rt::out, "END %ld %d %016lx %s\n", c, (int)v.nontrivial, (unsigned long)v.sig, v.sample.c_str());
    fflush(rt::out);
  }
  for (auto &k : rt::counters) fprintf(rt::out, "STAT %s %ld\n", k.first.c_str(), k.second);
  fprintf(rt::out, "DONE\n");
  fflush(rt::out);
  rt::finished = true;
  return 0;
}
