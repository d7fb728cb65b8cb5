// Monitor for the C++ interface (calObj.hh). The workloads and monitors of
// mon.cpp run on C++ objects: every C function used there that has a C++
// counterpart is replaced by a wrapper that goes through BDD and Cal objects in
// one of their several forms. On top of that, sessions on a pool of objects
// exercise copying, moving, assigning, containers and destruction.
#include <sys/personality.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <memory>
#include <string>
#include <sstream>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include "rt.h"
#include "tt.h"
// compiled with -fno-access-control: the monitors look at the handles in the objects
#include "calObj.hh"
#undef EXTERN
#undef ARGS
typedef BDD CppBDD;

// ------------------------------------------------------------------ wrappers
static std::map<Cal_BddManager, Cal *> cals;
static Rng cw(1); // choice of the form
typedef Cal_BddManager M;
typedef Cal_Bdd H;

static Cal &C(M m) {
  auto it = cals.find(m);
  if (it == cals.end()) VIOL("harness", "unknown manager");
  return *it->second;
}
static Cal &moved(M m) { // the manager object can be moved
  Cal *c = &C(m);
  if (cw.chance(15)) {
    Cal *n = new Cal(std::move(*c));
    delete c;
    cals[m] = n;
    if (n->_bddManager != m) VIOL("cpp-move", "a moved manager object is another manager");
    rt::count("managers_moved");
  }
  return C(m);
}
// an object that shares the handle
static CppBDD obj(M m, H h) {
  CppBDD a(m, h);
  CppBDD b(a); // one more reference
  a._bdd = 0;  // not ours
  return b;
}
static H out(M m, CppBDD &&r) {
  if (r._bdd && r._bddManager != m) VIOL("cpp-manager", "an object of another manager was returned during %s", rt::inOp);
  H h = r._bdd;
  r._bdd = 0;
  rt::count("cpp_calls");
  return h;
}
static std::vector<CppBDD> vec(M m, H *a) {
  std::vector<CppBDD> v;
  for (; *a; a++) v.push_back(obj(m, *a));
  return v;
}
// ids, when all are variables and the form with ids is chosen
static std::vector<int> ids(M m, const std::vector<CppBDD> &v) {
  std::vector<int> r;
  for (auto &b : v) {
    Cal_Bdd_t f = CalBddGetInternalBdd(m, b._bdd);
    if (CalBddIsBddConst(f) || CalBddTypeAux(m, f) != CAL_BDD_TYPE_POSVAR) return {};
    r.push_back(CalBddGetBddId(f));
  }
  return r;
}
// applies fn to one of the container forms of the arguments
template <class R, class F> static R withRange(M m, H *a, bool allowIds, F fn) {
  std::vector<CppBDD> v = vec(m, a);
  if (allowIds && !v.empty() && cw.chance(70)) {
    std::vector<int> i = ids(m, v);
    if (!i.empty()) {
      rt::count("cpp_id_ranges");
      v.clear();
      if (cw.chance(30)) { std::list<int> l(i.begin(), i.end()); return fn(l); }
      return fn(i);
    }
  }
  rt::count("cpp_ranges");
  switch (cw.below(4)) {
  case 0: { std::list<CppBDD> l(v.begin(), v.end()); return fn(l); }
  case 1: { std::deque<CppBDD> l; for (auto &b : v) l.push_back(std::move(b)); return fn(l); }
  default: return fn(v);
  }
}

#define BIN(NAME, METHOD, OPFORM, ASSIGNFORM)                                  \
  static H cpp_##NAME(M m, H f, H g) {                                         \
    CppBDD a = obj(m, f), b = obj(m, g);                                       \
    switch (cw.below(4)) {                                                     \
    case 0: return out(m, a.METHOD(b));                                        \
    case 1: return out(m, C(m).METHOD(a, b));                                  \
    case 2: return out(m, OPFORM);                                             \
    default: { ASSIGNFORM; return out(m, std::move(a)); }                      \
    }                                                                          \
  }
static void same(CppBDD &x, CppBDD &y) { if (&x != &y) VIOL("cpp-operator", "a compound assignment does not return its object"); }
BIN(And, And, a & b, { bool s = f == g && cw.chance(50); CppBDD &r = s ? (a &= a) : (a &= b); same(r, a); })
BIN(Or, Or, a | b, { bool s = f == g && cw.chance(50); CppBDD &r = s ? (a |= a) : (a |= b); same(r, a); })
BIN(Xor, Xor, a ^ b, { bool s = f == g && cw.chance(50); CppBDD &r = s ? (a ^= a) : (a ^= b); same(r, a); })
BIN(Nand, Nand, a.Nand(b), a = a.Nand(b))
BIN(Nor, Nor, a.Nor(b), a = a.Nor(b))
BIN(Xnor, Xnor, a.Xnor(b), a = a.Xnor(b))
BIN(Intersects, Intersects, a.Intersects(b), a = a.Intersects(b))
BIN(Implies, Implies, a.Implies(b), a = a.Implies(b))
BIN(Cofactor, Cofactor, a.Cofactor(b), a = a.Cofactor(b))
BIN(Reduce, Reduce, a.Reduce(b), a = C(m).Reduce(a, b))
static H cpp_Between(M m, H f, H g) { CppBDD a = obj(m, f), b = obj(m, g); return out(m, C(m).Between(a, b)); }
static H cpp_RelProd(M m, H f, H g) { CppBDD a = obj(m, f), b = obj(m, g); return out(m, C(m).RelProd(a, b)); }
#define TRI(NAME)                                                              \
  static H cpp_##NAME(M m, H f, H g, H h) {                                    \
    CppBDD a = obj(m, f), b = obj(m, g), c = obj(m, h);                        \
    switch (cw.below(3)) {                                                     \
    case 0: return out(m, a.NAME(b, c));                                       \
    case 1: return out(m, C(m).NAME(a, b, c));                                 \
    default: b = a.NAME(b, c); return out(m, std::move(b));                    \
    }                                                                          \
  }
TRI(ITE)
TRI(Compose)
TRI(SwapVars)
#define UN(NAME)                                                               \
  static H cpp_##NAME(M m, H f) {                                              \
    CppBDD a = obj(m, f);                                                      \
    switch (cw.below(3)) {                                                     \
    case 0: return out(m, a.NAME());                                           \
    case 1: return out(m, C(m).NAME(a));                                       \
    default: a = a.NAME(); return out(m, std::move(a));                        \
    }                                                                          \
  }
UN(Identity)
UN(Satisfy)
UN(SatisfySupport)
UN(If)
UN(Then)
UN(Else)
static H cpp_Not(M m, H f) {
  CppBDD a = obj(m, f);
  switch (cw.below(3)) {
  case 0: return out(m, a.Not());
  case 1: return out(m, C(m).Not(a));
  default: return out(m, ~a);
  }
}
static H cpp_GetRegular(M m, H f) { // the C function does not count a reference
  CppBDD a = obj(m, f);
  H r = out(m, cw.chance(50) ? a.Regular() : C(m).Regular(a));
  { CppBDD drop(m, r); }
  return r;
}
#define CALUN(NAME) static H cpp_##NAME(M m, H f) { CppBDD a = obj(m, f); return out(m, C(m).NAME(a)); }
CALUN(Substitute)
CALUN(VarSubstitute)
CALUN(Exists)
CALUN(ForAll)
#define MULTI(NAME)                                                            \
  static H cpp_Multi##NAME(M m, H *a) {                                        \
    return withRange<H>(m, a, true, [&](auto &c) -> H {                        \
      return cw.chance(50) ? out(m, C(m).NAME(c.begin(), c.end())) : out(m, C(m).NAME(c)); \
    });                                                                        \
  }                                                                            \
  static H *cpp_Pair##NAME(M m, H *a) {                                        \
    size_t n = 0;                                                              \
    while (a[n]) n++;                                                          \
    std::vector<CppBDD> r = withRange<std::vector<CppBDD>>(m, a, true, [&](auto &c) { \
      return cw.chance(50) ? C(m).Pairwise##NAME(c.begin(), c.end()) : C(m).Pairwise##NAME(c); \
    });                                                                        \
    if (n == 0 || n % 2) {                                                     \
      if (!r.empty()) VIOL("cpp-pairwise", "%zu results for %zu arguments", r.size(), n); \
      return nullptr;                                                          \
    }                                                                          \
    if (r.size() != n / 2) VIOL("cpp-pairwise", "%zu results for %zu arguments", r.size(), n); \
    H *o = (H *)malloc(n / 2 * sizeof(H));                                     \
    for (size_t i = 0; i < r.size(); i++) o[i] = out(m, std::move(r[i]));      \
    return o;                                                                  \
  }
MULTI(And)
MULTI(Or)
MULTI(Xor)
// associations
static int cpp_AssociationInit(M m, H *a, int pairs) {
  return withRange<int>(m, a, true, [&](auto &c) { return pairs || cw.chance(50) ? C(m).AssociationInit(c.begin(), c.end(), pairs != 0) : C(m).AssociationInit(c.begin(), c.end()); });
}
static void cpp_TempAssociationInit(M m, H *a, int pairs) {
  withRange<int>(m, a, true, [&](auto &c) { C(m).TempAssociationInit(c.begin(), c.end(), pairs != 0); return 0; });
}
static void cpp_TempAssociationAugment(M m, H *a, int pairs) {
  withRange<int>(m, a, true, [&](auto &c) { C(m).TempAssociationAugment(c.begin(), c.end(), pairs != 0); return 0; });
}
static int cpp_AssociationSetCurrent(M m, int i) { return C(m).AssociationSetCurrent(i); }
static void cpp_AssociationQuit(M m, int i) { C(m).AssociationQuit(i); }
static void cpp_TempAssociationQuit(M m) { C(m).TempAssociationQuit(); }
// life cycle
static M cpp_Init() {
  Cal *c = new Cal();
  cals[c->_bddManager] = c;
  return c->_bddManager;
}
static void cpp_Quit(M m) {
  Cal *c = &C(m);
  cals.erase(m);
  delete c;
}
static void cpp_Free(M m, H h) { CppBDD d(m, h); }
static void cpp_UnFree(M m, H h) { CppBDD d = obj(m, h); d._bdd = 0; }
static H cpp_One(M m) { return out(m, C(m).One()); }
static H cpp_Zero(M m) { return out(m, C(m).Zero()); }
static H cpp_Null(M m) { return out(m, C(m).Null()); }
static H cpp_NewFirst(M m) { return out(m, moved(m).CreateNewVarFirst()); }
static H cpp_NewLast(M m) { return out(m, C(m).CreateNewVarLast()); }
static H cpp_NewBefore(M m, H h) { CppBDD a = obj(m, h); return out(m, C(m).CreateNewVarBefore(a)); }
static H cpp_NewAfter(M m, H h) { CppBDD a = obj(m, h); return out(m, C(m).CreateNewVarAfter(a)); }
static H cpp_WithId(M m, Cal_BddId_t i) { return out(m, C(m).Id(i)); }
static H cpp_WithIndex(M m, Cal_BddIndex_t i) { return out(m, C(m).Index(i)); }
static void cpp_Params(M m, long a, long b, double c, double d) { moved(m).SetParameters(a, b, c, d); }
static void cpp_GC(M m) { C(m).GC(); }
static void cpp_GCLimit(M m) { moved(m).SetGCLimit(); }
static void cpp_GCMode(M m, int on) { moved(m).SetGCMode(on != 0); }
static void cpp_Dynamic(M m, int t, int me) {
  if (me == CAL_REORDER_METHOD_DF && cw.chance(50)) C(m).DynamicReordering((Cal::ReorderTechnique)t);
  else C(m).DynamicReordering((Cal::ReorderTechnique)t, (Cal::ReorderMethod)me);
}
static void cpp_Reorder(M m) { C(m).Reorder(); }
static unsigned long cpp_Nodes(M m) { return C(m).Nodes(); }
static long cpp_Vars(M m) { return C(m).Vars(); }
static int cpp_Overflow(M m) { return C(m).Overflow(); }
static long cpp_NodeLimit(M m, long l) { return moved(m).NodeLimit(l); }
static void cpp_Stats(M m, FILE *f) { C(m).Stats(f); }
// queries
#define PRED(NAME, M1) static int cpp_##NAME(M m, H h) { CppBDD a = obj(m, h); return cw.chance(50) ? a.M1() : C(m).M1(a); }
PRED(IsOne, IsOne)
PRED(IsZero, IsZero)
PRED(IsConst, IsConst)
PRED(IsNull, IsNull)
PRED(IsCube, IsCube)
static int cpp_IsEqual(M m, H f, H g) {
  CppBDD a = obj(m, f), b = obj(m, g);
  bool e = a == b;
  if (e != a.IsEqualTo(b) || e == (a != b) || e != C(m).IsEqual(a, b) || e != (b == a)) VIOL("cpp-equality", "the forms of the equality test disagree");
  return e;
}
static int cpp_DependsOn(M m, H f, H g) { CppBDD a = obj(m, f), b = obj(m, g); return cw.chance(50) ? a.DependsOn(b) : C(m).DependsOn(a, b); }
static int cpp_Type(M m, H f) { CppBDD a = obj(m, f); return a.Type(); }
static Cal_BddId_t cpp_Id(M m, H f) { CppBDD a = obj(m, f); return cw.chance(50) ? a.Id() : C(m).IfId(a); }
static Cal_BddIndex_t cpp_Index(M m, H f) { CppBDD a = obj(m, f); return cw.chance(50) ? a.Index() : C(m).IfIndex(a); }
static double cpp_Fraction(M m, H f) { CppBDD a = obj(m, f); return cw.chance(50) ? a.SatisfyingFraction() : C(m).SatisfyingFraction(a); }
static unsigned long cpp_Size(M m, H f, int neg) {
  CppBDD a = obj(m, f);
  if (neg && cw.chance(30)) return a.Size();
  return cw.chance(50) ? a.Size(neg != 0) : C(m).Size(a, neg != 0);
}
static unsigned long cpp_SizeM(M m, H *a, int neg) {
  return withRange<unsigned long>(m, a, false, [&](auto &c) -> unsigned long {
    if constexpr (std::is_same_v<typename std::decay_t<decltype(c)>::value_type, CppBDD>)
      return cw.chance(50) ? C(m).Size(c, neg != 0) : C(m).Size(c.begin(), c.end(), neg != 0);
    else return 0;
  });
}
static void give(M m, const std::vector<long> &v, long *o) {
  if ((long)v.size() != Cal_BddVars(m) + 1) VIOL("cpp-profile", "a profile has %zu entries for %ld variables", v.size(), Cal_BddVars(m));
  for (size_t i = 0; i < v.size(); i++) o[i] = v[i];
}
static void cpp_Profile(M m, H f, long *o, int neg) { CppBDD a = obj(m, f); give(m, cw.chance(50) ? a.Profile(neg != 0) : C(m).Profile(a, neg != 0), o); }
static void cpp_FProfile(M m, H f, long *o) { CppBDD a = obj(m, f); give(m, cw.chance(50) ? a.FunctionProfile() : C(m).FunctionProfile(a), o); }
static void cpp_ProfileM(M m, H *a, long *o, int neg) {
  give(m, withRange<std::vector<long>>(m, a, true, [&](auto &c) { return cw.chance(50) ? C(m).Profile(c, neg != 0) : C(m).Profile(c.begin(), c.end(), neg != 0); }), o);
}
static void cpp_FProfileM(M m, H *a, long *o) {
  give(m, withRange<std::vector<long>>(m, a, true, [&](auto &c) { return cw.chance(50) ? C(m).FunctionProfile(c) : C(m).FunctionProfile(c.begin(), c.end()); }), o);
}
static void cpp_Print(M m, H h, Cal_VarNamingFn_t nf, Cal_TerminalIdFn_t tf, Cal_Pointer_t env, FILE *f) {
  if (nf != Cal_BddNamingFnNone) { Cal_BddPrintBdd(m, h, nf, tf, env, f); return; }
  CppBDD a = obj(m, h);
  if (cw.chance(50)) a.Print(f); else C(m).Print(a, f);
}
static void cpp_PrintProfile(M m, H h, Cal_VarNamingFn_t nf, char *env, int ll, FILE *f) {
  if (nf != Cal_BddNamingFnNone) { Cal_BddPrintProfile(m, h, nf, env, ll, f); return; }
  CppBDD a = obj(m, h);
  if (cw.chance(50)) a.PrintProfile(ll, f); else C(m).PrintProfile(a, ll, f);
}
static void cpp_PrintFProfile(M m, H h, Cal_VarNamingFn_t nf, char *env, int ll, FILE *f) {
  if (nf != Cal_BddNamingFnNone) { Cal_BddPrintFunctionProfile(m, h, nf, env, ll, f); return; }
  CppBDD a = obj(m, h);
  if (cw.chance(50)) a.PrintFunctionProfile(ll, f); else C(m).PrintFunctionProfile(a, ll, f);
}
static void cpp_PrintProfileM(M m, H *a, Cal_VarNamingFn_t nf, char *env, int ll, FILE *f) {
  if (nf != Cal_BddNamingFnNone) { Cal_BddPrintProfileMultiple(m, a, nf, env, ll, f); return; }
  withRange<int>(m, a, true, [&](auto &c) { if (cw.chance(50)) C(m).PrintProfile(c, ll, f); else C(m).PrintProfile(c.begin(), c.end(), ll, f); return 0; });
}
static void cpp_PrintFProfileM(M m, H *a, Cal_VarNamingFn_t nf, char *env, int ll, FILE *f) {
  if (nf != Cal_BddNamingFnNone) { Cal_BddPrintFunctionProfileMultiple(m, a, nf, env, ll, f); return; }
  withRange<int>(m, a, true, [&](auto &c) { if (cw.chance(50)) C(m).PrintFunctionProfile(c, ll, f); else C(m).PrintFunctionProfile(c.begin(), c.end(), ll, f); return 0; });
}
static void cpp_FunctionPrint(M m, H h, char *name) {
  CppBDD a = obj(m, h);
  std::string n = name;
  if (cw.chance(50)) a.FunctionPrint(n); else C(m).FunctionPrint(a, n);
  if (n != name) VIOL("cpp-print", "FunctionPrint changed the name");
}

#define Cal_BddAnd cpp_And
#define Cal_BddOr cpp_Or
#define Cal_BddXor cpp_Xor
#define Cal_BddNand cpp_Nand
#define Cal_BddNor cpp_Nor
#define Cal_BddXnor cpp_Xnor
#define Cal_BddIntersects cpp_Intersects
#define Cal_BddImplies cpp_Implies
#define Cal_BddCofactor cpp_Cofactor
#define Cal_BddReduce cpp_Reduce
#define Cal_BddBetween cpp_Between
#define Cal_BddRelProd cpp_RelProd
#define Cal_BddITE cpp_ITE
#define Cal_BddCompose cpp_Compose
#define Cal_BddSwapVars cpp_SwapVars
#define Cal_BddIdentity cpp_Identity
#define Cal_BddSatisfy cpp_Satisfy
#define Cal_BddSatisfySupport cpp_SatisfySupport
#define Cal_BddIf cpp_If
#define Cal_BddThen cpp_Then
#define Cal_BddElse cpp_Else
#define Cal_BddNot cpp_Not
#define Cal_BddGetRegular cpp_GetRegular
#define Cal_BddSubstitute cpp_Substitute
#define Cal_BddVarSubstitute cpp_VarSubstitute
#define Cal_BddExists cpp_Exists
#define Cal_BddForAll cpp_ForAll
#define Cal_BddMultiwayAnd cpp_MultiAnd
#define Cal_BddMultiwayOr cpp_MultiOr
#define Cal_BddMultiwayXor cpp_MultiXor
#define Cal_BddPairwiseAnd cpp_PairAnd
#define Cal_BddPairwiseOr cpp_PairOr
#define Cal_BddPairwiseXor cpp_PairXor
#define Cal_AssociationInit cpp_AssociationInit
#define Cal_TempAssociationInit cpp_TempAssociationInit
#define Cal_TempAssociationAugment cpp_TempAssociationAugment
#define Cal_AssociationSetCurrent cpp_AssociationSetCurrent
#define Cal_AssociationQuit cpp_AssociationQuit
#define Cal_TempAssociationQuit cpp_TempAssociationQuit
#define Cal_BddManagerInit cpp_Init
#define Cal_BddManagerQuit cpp_Quit
#define Cal_BddFree cpp_Free
#define Cal_BddUnFree cpp_UnFree
#define Cal_BddOne cpp_One
#define Cal_BddZero cpp_Zero
#define Cal_BddNull cpp_Null
#define Cal_BddManagerCreateNewVarFirst cpp_NewFirst
#define Cal_BddManagerCreateNewVarLast cpp_NewLast
#define Cal_BddManagerCreateNewVarBefore cpp_NewBefore
#define Cal_BddManagerCreateNewVarAfter cpp_NewAfter
#define Cal_BddManagerGetVarWithId cpp_WithId
#define Cal_BddManagerGetVarWithIndex cpp_WithIndex
#define Cal_BddManagerSetParameters cpp_Params
#define Cal_BddManagerGC cpp_GC
#define Cal_BddManagerSetGCLimit cpp_GCLimit
#define Cal_BddSetGCMode cpp_GCMode
#define Cal_BddDynamicReordering cpp_Dynamic
#define Cal_BddReorder cpp_Reorder
#define Cal_BddManagerGetNumNodes cpp_Nodes
#define Cal_BddVars cpp_Vars
#define Cal_BddOverflow cpp_Overflow
#define Cal_BddNodeLimit cpp_NodeLimit
#define Cal_BddStats cpp_Stats
#define Cal_BddIsBddOne cpp_IsOne
#define Cal_BddIsBddZero cpp_IsZero
#define Cal_BddIsBddConst cpp_IsConst
#define Cal_BddIsBddNull cpp_IsNull
#define Cal_BddIsCube cpp_IsCube
#define Cal_BddIsEqual cpp_IsEqual
#define Cal_BddDependsOn cpp_DependsOn
#define Cal_BddType cpp_Type
#define Cal_BddGetIfId cpp_Id
#define Cal_BddGetIfIndex cpp_Index
#define Cal_BddSatisfyingFraction cpp_Fraction
#define Cal_BddSize cpp_Size
#define Cal_BddSizeMultiple cpp_SizeM
#define Cal_BddProfile cpp_Profile
#define Cal_BddProfileMultiple cpp_ProfileM
#define Cal_BddFunctionProfile cpp_FProfile
#define Cal_BddFunctionProfileMultiple cpp_FProfileM
#define Cal_BddPrintBdd cpp_Print
#define Cal_BddPrintProfile cpp_PrintProfile
#define Cal_BddPrintProfileMultiple cpp_PrintProfileM
#define Cal_BddPrintFunctionProfile cpp_PrintFProfile
#define Cal_BddPrintFunctionProfileMultiple cpp_PrintFProfileM
#define Cal_BddFunctionPrint cpp_FunctionPrint

#define CPPMON
#include "mon.cpp"

// ------------------------------------------------------------------ the pool
struct PObj { CppBDD b; TT f; };
struct Pool : Session {
  std::vector<PObj> objs;
  std::map<long, int> kinds;
  explicit Pool(uint64_t s) : Session(s) {}
  int pick() { return rng.below((int)objs.size()); }
  int pickLive() {
    for (int i = 0; i < 20; i++) { int k = pick(); if (!objs[k].b.IsNull()) return k; }
    return -1;
  }
  void gone(H h, const char *what) { // one reference on h was given up
    if (!h) return;
    dropModel(h);
    if (held.count(bits(regular(h)))) checkRef(h);
    else if (regular(h) != regular(cals[m]->One()._bdd)) {
      int rc = CalVerifHandleRefCount(regular(h));
      if (rc != 0 && rc < 255) VIOL("cpp-ownership", "%s: reference count %d remains although no object is left", what, rc);
    }
  }
  void check(int i, const char *what) {
    PObj &o = objs[i];
    if (o.b.IsNull()) return;
    checkFunction(o.b._bdd, o.f, what);
    checkRef(o.b._bdd);
    if (regular(o.b._bdd) != regular(cals[m]->One()._bdd) && CalVerifHandleRefCount(regular(o.b._bdd)) < 255) {
      // one reference per object, per C handle held by the session
      if (o.b.RefCount() != held[bits(regular(o.b._bdd))].count) VIOL("cpp-ownership", "%s: RefCount() is %d with %ld objects", what, o.b.RefCount(), held[bits(regular(o.b._bdd))].count);
    }
  }
  void checkPool(const char *what) { for (size_t i = 0; i < objs.size(); i++) check((int)i, what); rt::count("pool_checks"); }
  void add(CppBDD &&b, const TT &f) { // b holds one reference already in the model
    if (objs.size() > 30) {
      int k = pick();
      H old = objs[k].b._bdd;
      objs[k].b = std::move(b);
      objs[k].f = f;
      gone(old, "move assignment");
    } else objs.push_back({std::move(b), f});
  }
  // the result of an operator on objects
  void fresh(CppBDD &&b, const TT &f, const char *what) {
    opsDone++;
    rt::count("pool_results");
    opKinds.insert(what);
    afterOp();
    expectQuiet();
    if (b.IsNull()) VIOL("null-result", "%s returned null", what);
    if (b._bddManager != m) VIOL("cpp-manager", "%s returned an object of another manager", what);
    checkFunction(b._bdd, f, what);
    take(b._bdd, f);
    note(f.hash());
    if (rng.chance(70)) add(std::move(b), f);
    else { H h = b._bdd; { CppBDD d(std::move(b)); } gone(h, "destruction"); }
  }
  void op() {
    int what = objs.empty() ? 0 : rng.below(31);
    curOp = rt::inOp = "pool operation";
    rt::clearErr();
    rt::tr("pool op %d objects=%zu", what, objs.size());
    kinds[what]++;
    Cal &c = *cals[m];
    switch (what) {
    case 0: { // from a variable
      int k = rng.below(nfun());
      fresh(rng.chance(50) ? c.Id(idOf[k]) : obj(m, varH[k]), TT::var(k), "Id");
      break;
    }
    case 1: { // default constructed
      CppBDD d;
      if (!d.IsNull() || d.IsOne() || d.IsZero() || d.IsConst() || d.RefCount() != 255 || d.ToString() != "NULL" || !c.IsNull(d) || !(d == CppBDD()) || d != c.Null())
        VIOL("cpp-null", "a default-constructed BDD is not null");
      CppBDD e(d), g(std::move(d));
      e = g; e = e; g = std::move(e);
      if (!e.IsNull() || !g.IsNull()) VIOL("cpp-null", "copies of null are not null");
      if (rng.chance(50)) objs.push_back({std::move(g), TT(false)});
      break;
    }
    case 2: case 3: { // copy construction
      int i = pick();
      TT f = objs[i].f;
      CppBDD d(objs[i].b);
      if (d._bdd != objs[i].b._bdd || d != objs[i].b) VIOL("cpp-copy", "a copy differs from its original");
      if (d.IsNull()) break;
      take(d._bdd, f);
      check(i, "copy");
      add(std::move(d), f);
      break;
    }
    case 4: case 5: case 6: { // copy assignment, also to itself
      int i = pick(), j = rng.chance(25) ? i : pick();
      H old = objs[i].b._bdd, src = objs[j].b._bdd;
      rt::tr("copy-assign %d = %d", i, j);
      CppBDD &r = (objs[i].b = objs[j].b);
      if (&r != &objs[i].b) VIOL("cpp-copy", "assignment does not return its object");
      if (objs[i].b._bdd != src || objs[j].b._bdd != src) VIOL("cpp-copy", "an assigned object has another value");
      if (i != j) {
        if (old) dropModel(old);
        objs[i].f = objs[j].f;
        if (src) takeUnchecked(src, objs[j].f);
        if (old && held.count(bits(regular(old)))) checkRef(old);
      }
      check(i, "copy assignment"); check(j, "copy assignment");
      break;
    }
    case 7: { // move construction
      int i = pick();
      H src = objs[i].b._bdd;
      CppBDD d(std::move(objs[i].b));
      if (d._bdd != src) VIOL("cpp-move", "a moved object has another value");
      H left = objs[i].b._bdd;
      if (left) VIOL("cpp-move", "the source of a move keeps its reference");
      objs[i].b = d;
      if (objs[i].b._bdd != src) VIOL("cpp-move", "assignment to a moved-from object");
      { CppBDD e(std::move(d)); }
      check(i, "move");
      break;
    }
    case 8: case 9: { // move assignment
      int i = pick(), j = pick();
      if (i == j) {
        CppBDD &x = objs[i].b;
        H old = x._bdd;
        x = std::move(*&x);
        if (!x._bdd) gone(old, "move assignment to itself"); // moved-from
        else if (x._bdd != old) VIOL("cpp-move", "moving an object to itself changes its value");
        check(i, "move assignment to itself");
        break;
      }
      H old = objs[i].b._bdd, src = objs[j].b._bdd;
      objs[i].b = std::move(objs[j].b);
      objs[i].f = objs[j].f;
      if (objs[i].b._bdd != src) VIOL("cpp-move", "a move-assigned object has another value");
      if (objs[j].b._bdd) VIOL("cpp-move", "the source of a move keeps its reference");
      gone(old, "move assignment");
      check(i, "move assignment");
      break;
    }
    case 10: { int i = pick(), j = pick(); if (i != j) { std::swap(objs[i], objs[j]); check(i, "swap"); check(j, "swap"); } break; }
    case 11: { // destruction, anywhere in the container
      int i = pick();
      H old = objs[i].b._bdd;
      PObj keep = std::move(objs.back());
      if (i != (int)objs.size() - 1) { objs.pop_back(); objs[i] = std::move(keep); gone(old, "destruction"); }
      else { objs.pop_back(); keep.b = CppBDD(); gone(old, "destruction"); }
      break;
    }
    case 12: { // containers: growing, copying, sorting, erasing
      std::vector<CppBDD> v;
      std::vector<TT> fs;
      int n = rng.range(1, 12);
      for (int i = 0; i < n; i++) { int k = pickLive(); if (k >= 0) { v.push_back(objs[k].b); fs.push_back(objs[k].f); } }
      for (size_t i = 0; i < v.size(); i++) takeUnchecked(v[i]._bdd, fs[i]);
      std::vector<CppBDD> w = v;
      for (size_t i = 0; i < w.size(); i++) takeUnchecked(w[i]._bdd, fs[i]);
      checkPool("container copy");
      std::sort(v.begin(), v.end(), [](const CppBDD &a, const CppBDD &b) { return (uintptr_t)a._bdd < (uintptr_t)b._bdd; });
      if (!v.empty()) { H h = v[v.size() / 2]._bdd; v.erase(v.begin() + v.size() / 2); gone(h, "erase"); }
      w.insert(w.begin() + w.size() / 2, w.empty() ? CppBDD() : CppBDD(w.front()));
      if (w[w.size() / 2]._bdd) {} // (nothing)
      std::vector<H> hs;
      for (auto &b : v) hs.push_back(b._bdd);
      size_t ins = (w.size() - 1) / 2;
      for (size_t i = 0; i < w.size(); i++) if (i != ins) hs.push_back(w[i]._bdd);
      v.clear(); w = std::vector<CppBDD>();
      for (H h : hs) if (h) dropModel(h);
      checkPool("container destruction");
      break;
    }
    case 13: case 14: case 15: case 16: case 17: case 18: { // operators on objects, with temporaries
      int i = pickLive(), j = pickLive(), k = pickLive();
      if (i < 0 || j < 0 || k < 0) break;
      const CppBDD &a = objs[i].b, &b = objs[j].b, &d = objs[k].b;
      TT fa = objs[i].f, fb = objs[j].f, fd = objs[k].f;
      switch (rng.below(8)) {
      case 0: { CppBDD r = a & b; fresh(std::move(r), fa & fb, "&"); break; }
      case 1: { CppBDD r = a - b; fresh(std::move(r), fa & ~fb, "-"); break; }
      case 2: { CppBDD r = ~(a ^ ~b); fresh(std::move(r), ~(fa ^ ~fb), "~^~"); break; }
      case 3: { CppBDD r = (a & b) | (~a & d); fresh(std::move(r), TT::ite(fa, fb, fd), "&|&~"); break; }
      case 4: { CppBDD r = a.Diff(b); fresh(std::move(r), fa & ~fb, "Diff"); break; }
      case 5: { CppBDD r = (a | b) - (b ^ d); fresh(std::move(r), (fa | fb) & ~(fb ^ fd), "|-^"); break; }
      case 6: { CppBDD r = a.ITE(~b, d.Not()); fresh(std::move(r), TT::ite(fa, ~fb, ~fd), "ITE"); break; }
      default: { CppBDD r = c.ITE(a, c.And(b, d), c.Zero()); fresh(std::move(r), fa & fb & fd, "ITE0"); break; }
      }
      break;
    }
    case 19: case 20: case 21: { // compound assignment, also with itself
      int i = pickLive(), j = rng.chance(25) ? i : pickLive();
      if (i < 0 || j < 0) break;
      H old = objs[i].b._bdd;
      TT fa = objs[i].f, fb = objs[j].f, r(false);
      switch (rng.below(6)) {
      case 0: same(objs[i].b &= objs[j].b, objs[i].b); r = fa & fb; break;
      case 1: same(objs[i].b |= objs[j].b, objs[i].b); r = fa | fb; break;
      case 2: same(objs[i].b ^= objs[j].b, objs[i].b); r = fa ^ fb; break;
      case 3: same(objs[i].b -= objs[j].b, objs[i].b); r = fa & ~fb; break;
      case 4: objs[i].b = ~objs[i].b; r = ~fa; break;
      default: objs[i].b = objs[i].b.Nand(objs[j].b); r = ~(fa & fb); break;
      }
      if (objs[i].b.IsNull()) VIOL("null-result", "a compound assignment gives null");
      checkFunction(objs[i].b._bdd, r, "compound assignment");
      dropModel(old);
      take(objs[i].b._bdd, r);
      objs[i].f = r;
      if (held.count(bits(regular(old)))) checkRef(old);
      check(j, "compound assignment");
      note(r.hash());
      opsDone++;
      afterOp();
      break;
    }
    case 22: { // identity of null operands
      CppBDD n = rng.chance(50) ? CppBDD() : c.Null();
      int i = pickLive();
      if (i < 0) break;
      const CppBDD &a = objs[i].b;
      bool ok = (a & n).IsNull() && (n | a).IsNull() && (a ^ n).IsNull() && (a - n).IsNull() && (n - a).IsNull() && a.Nand(n).IsNull() && a.Nor(n).IsNull() &&
                a.Xnor(n).IsNull() && a.ITE(n, a).IsNull() && n.ITE(a, a).IsNull() && a.ITE(a, n).IsNull() && a.Cofactor(n).IsNull() && a.Reduce(n).IsNull() && a.Intersects(n).IsNull() &&
                n.Implies(a).IsNull() && c.Between(a, n).IsNull() && c.RelProd(a, n).IsNull() && c.Exists(c.Null()).IsNull() && c.ForAll(c.Null()).IsNull() && a != n && n.Type() == CppBDD::Overflow;
      if (!ok) VIOL("cpp-null", "an operation on null does not give null");
      check(i, "null operands");
      break;
    }
    case 23: { // text form
      int i = pickLive();
      if (i < 0) break;
      const CppBDD &a = objs[i].b;
      const TT f = objs[i].f;
      std::string s = a.ToString();
      if (f.isOne() || f.isZero()) { if (s != (f.isOne() ? "(1)" : "(0)")) VIOL("cpp-tostring", "constant printed as '%s'", s.c_str()); break; }
      if (!dynamic) {
        CppBDD t = a.Then(), e = a.Else();
        std::stringstream ss;
        s = a.ToString(); // the parts are held now
        ss << "(" << a.Id() << ", " << t._bdd << ", " << e._bdd << ")";
        if (s != ss.str()) VIOL("cpp-tostring", "'%s' instead of '%s'", s.c_str(), ss.str().c_str());
      }
      check(i, "text form");
      break;
    }
    case 24: case 25: { // return by value, passing by value, optional slots
      int i = pickLive();
      if (i < 0) break;
      auto pass = [](CppBDD x, CppBDD y) { x = y; y = CppBDD(); return x; };
      TT f = objs[i].f;
      int j = pickLive();
      if (j < 0) break;
      CppBDD r = pass(objs[j].b, objs[i].b);
      if (r != objs[i].b) VIOL("cpp-copy", "a value passed through a function changed");
      take(r._bdd, f);
      check(j, "passing by value");
      add(std::move(r), f);
      break;
    }
    case 26: { // map of objects
      std::map<int, CppBDD> mp;
      std::vector<H> hs;
      for (int n = rng.range(1, 6); n > 0; n--) {
        int i = pickLive(), key = rng.below(3);
        if (i < 0) break;
        H old = mp[key]._bdd;
        mp[key] = objs[i].b;
        if (old) dropModel(old);
        takeUnchecked(mp[key]._bdd, objs[i].f);
        checkRef(mp[key]._bdd);
      }
      for (auto &p : mp) if (p.second._bdd) hs.push_back(p.second._bdd);
      mp.clear();
      for (H h : hs) dropModel(h);
      checkPool("map");
      break;
    }
    case 27: { c.GC(); rt::count("explicit_gc"); lastGCs = CalVerifNumGC(m); checkPool("collection"); break; }
    case 28: { if (rng.chance(30)) { reorderWith(rng.chance(50) ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, rng.below(2)); checkPool("reordering"); } break; }
    case 29: { // many references to one object
      int i = pickLive();
      if (i < 0 || !rng.chance(20)) break;
      int n = rng.chance(20) ? rng.range(240, 300) : rng.range(2, 60);
      std::vector<CppBDD> v;
      for (int k = 0; k < n; k++) { v.push_back(objs[i].b); takeUnchecked(objs[i].b._bdd, objs[i].f); }
      check(i, "many copies");
      H h = objs[i].b._bdd;
      v.clear();
      for (int k = 0; k < n; k++) dropModel(h);
      check(i, "after many copies");
      break;
    }
    default: { checkPool("step"); unsigned long t = c.TotalSize(); (void)t; break; }
    }
    curOp = "";
  }
};

static Verdict poolCase(uint64_t seed, Rng &r) {
  Verdict v;
  Pool s(seed);
  Cfg c = stdCfg(r);
  s.setup(c, "m");
  s.use(std::string("and:2 xor:2 ite:2 build:4 exists:1 satisfy:1 queries:1 ") + MEM + "newvar:1 dynamic:1 params:1 associnit:1 tempinit:1 substitute:1");
  int n = r.range(80, 400);
  for (int i = 0; i < n; i++) {
    s.op();
    if (i % 5 == 0) s.step();
    if (i % 40 == 39) { s.checkPool("step"); s.checkAll("pool"); }
  }
  s.checkPool("end");
  summary(s, v);
  v.nontrivial = s.kinds.size() > 15;
  // all objects go, in some order
  while (!s.objs.empty()) {
    int i = s.pick();
    H h = s.objs[i].b._bdd;
    std::swap(s.objs[i].b, s.objs.back().b);
    std::swap(s.objs[i].f, s.objs.back().f);
    s.objs.pop_back();
    s.gone(h, "destruction");
  }
  s.close(true);
  return v;
}
// a manager with variables made by its constructor
static Verdict ctorCase(uint64_t seed, Rng &r) {
  Verdict v;
  TT::W = 6;
  long base = rt::liveBlocks();
  {
    unsigned n = (unsigned)r.range(0, 40);
    rt::inOp = "Cal(n)";
    Cal c(n);
    if (c.Vars() != (long)n) VIOL("cpp-ctor", "Cal(%u) has %ld variables", n, c.Vars());
    for (unsigned i = 0; i < n; i++) {
      CppBDD a = c.Index((Cal_BddIndex_t)i), b = c.Id((Cal_BddId_t)(i + 1));
      if (a.IsNull() || a != b || a.Id() != i + 1 || a.Index() != i || a.Type() != CppBDD::Posvar || a.Size() != 2) VIOL("cpp-ctor", "variable %u of Cal(%u)", i, n);
    }
    unsigned long nodes = c.Nodes();
    std::vector<CppBDD> o;
    CppBDD acc = c.One();
    for (unsigned i = 0; i < n; i++) {
      CppBDD x = c.Id((Cal_BddId_t)(i + 1));
      acc = r.chance(50) ? acc & x : r.chance(50) ? acc ^ x : acc | ~x;
      if (r.chance(40)) o.push_back(acc);
    }
    v.sig = acc.Size() * 31 + n;
    Cal d(std::move(c));
    if (c._bddManager) VIOL("cpp-move", "a moved-from manager still owns");
    o.clear();
    acc = CppBDD();
    d.GC();
    if (d.Nodes() != nodes && CalVerifNumSaturated(d._bddManager) == 0) VIOL("leaked-nodes", "%lu nodes remain after all objects are gone, %lu at the start", d.Nodes(), nodes);
    rt::inOp = "~Cal";
  }
  if (rt::liveBlocks() != base) VIOL("leak", "%ld allocations survive the manager", rt::liveBlocks() - base);
  v.nontrivial = true;
  v.sample = "manager constructed with variables";
  return v;
}

static Verdict c14(uint64_t seed) {
  Rng r(seed);
  cw = Rng(seed ^ 0x5555);
  cals.clear();
  memoryRegime(r);
  setTunables(r, r.chance(60));
  int p = r.below(100);
  uint64_t sub = r.next();
  if (p < 45) return poolCase(sub, r);
  if (p < 48) return ctorCase(sub, r);
  if (p < 56) return c01(sub);
  if (p < 60) return c03(sub);
  if (p < 65) return c04(sub);
  if (p < 69) return c05(sub);
  if (p < 74) return c06(sub);
  if (p < 79) return c08(sub);
  if (p < 83) return c12(sub);
  if (p < 87) return c13(sub);
  if (p < 91) return c15(sub);
  if (p < 95) return c16(sub);
  if (p < 97) return c18(sub);
  return c20(sub);
}
