// Functions of many variables: symmetric within groups of variables, so that a
// small table over the number of true variables of each group describes them
// exactly and their diagrams can be checked completely, state by state.
#pragma once
#include "session.h"
#include <ctime>

extern "C" void __real_free(void *);

struct Sym {
  std::vector<std::vector<int>> g; // disjoint sets of variables
  std::vector<uint8_t> t{0};       // value per vector of counts, first group fastest
  bool operator<(const Sym &o) const { return g != o.g ? g < o.g : t < o.t; }
  bool operator==(const Sym &o) const { return g == o.g && t == o.t; }
  bool isConst() const { return g.empty(); }
  std::vector<long> strides() const {
    std::vector<long> w;
    long p = 1;
    for (auto &x : g) { w.push_back(p); p *= (long)x.size() + 1; }
    return w;
  }
  static long product(const std::vector<std::vector<int>> &g) {
    double p = 1;
    for (auto &x : g) p *= (double)x.size() + 1;
    return p > 1e9 ? 1000000000L : (long)p;
  }
  bool eval(const std::vector<char> &a) const {
    long i = 0, p = 1;
    for (auto &x : g) { long c = 0; for (int v : x) c += a[v]; i += p * c; p *= (long)x.size() + 1; }
    return t[i];
  }
  // visits every vector of counts of groups gs
  template <class F> static void each(const std::vector<std::vector<int>> &gs, F fn) {
    std::vector<int> c(gs.size(), 0);
    for (;;) {
      fn(c);
      size_t k = 0;
      while (k < gs.size() && c[k] == (int)gs[k].size()) c[k++] = 0;
      if (k == gs.size()) return;
      c[k]++;
    }
  }
  // this function over other groups: old counts from new ones
  template <class F> static Sym make(const std::vector<std::vector<int>> &gs, F value) {
    Sym r;
    r.g = gs;
    r.t.clear();
    each(gs, [&](const std::vector<int> &c) { r.t.push_back(value(c)); });
    return r;
  }
  long index(const std::vector<int> &c) const {
    long i = 0, p = 1;
    for (size_t k = 0; k < g.size(); k++) { i += p * c[k]; p *= (long)g[k].size() + 1; }
    return i;
  }
  void normalize() { // the unique description: groups are the classes of symmetric variables
    for (bool again = true; again;) {
      again = false;
      std::vector<long> w = strides();
      for (size_t k = 0; k < g.size() && !again; k++) {
        bool dep = false;
        long i = 0;
        each(g, [&](const std::vector<int> &c) { if (c[k] && t[i] != t[i - w[k]]) dep = true; i++; });
        if (dep) continue;
        std::vector<std::vector<int>> ng = g;
        ng.erase(ng.begin() + k);
        Sym o = *this;
        *this = make(ng, [&](std::vector<int> c) { c.insert(c.begin() + k, 0); return o.t[o.index(c)]; });
        again = true;
      }
      for (size_t a = 0; a < g.size() && !again; a++)
        for (size_t b = a + 1; b < g.size() && !again; b++) {
          bool sym = true;
          long i = 0;
          each(g, [&](const std::vector<int> &c) { if (c[a] && c[b] < (int)g[b].size() && t[i] != t[i - w[a] + w[b]]) sym = false; i++; });
          if (!sym) continue;
          std::vector<std::vector<int>> ng = g;
          int na = (int)g[a].size();
          ng[a].insert(ng[a].end(), ng[b].begin(), ng[b].end());
          ng.erase(ng.begin() + b);
          Sym o = *this;
          *this = make(ng, [&](std::vector<int> c) {
            int s = c[a];
            c[a] = std::min(s, na);
            c.insert(c.begin() + b, s - c[a]);
            return o.t[o.index(c)];
          });
          again = true;
        }
    }
    std::vector<size_t> p(g.size());
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    for (auto &x : g) std::sort(x.begin(), x.end());
    std::sort(p.begin(), p.end(), [&](size_t a, size_t b) { return g[a] < g[b]; });
    std::vector<std::vector<int>> ng;
    for (size_t i : p) ng.push_back(g[i]);
    Sym o = *this;
    *this = make(ng, [&](const std::vector<int> &c) { std::vector<int> q(c.size()); for (size_t i = 0; i < p.size(); i++) q[p[i]] = c[i]; return o.t[o.index(q)]; });
  }
};

// Common refinement of the groups of several functions and of a labelling
struct Refine {
  std::vector<std::vector<int>> g;
  std::vector<int> label;
  std::vector<std::vector<long>> w; // per function and group
  Refine(const std::vector<const Sym *> &in, const std::vector<int> &lab, int n) {
    std::vector<std::vector<int>> sig(n, std::vector<int>(in.size() + 1, -1));
    for (size_t f = 0; f < in.size(); f++)
      for (size_t k = 0; k < in[f]->g.size(); k++) for (int v : in[f]->g[k]) sig[v][f] = (int)k;
    std::map<std::vector<int>, std::vector<int>> by;
    for (int v = 0; v < n; v++) {
      bool any = false;
      for (size_t f = 0; f < in.size(); f++) any = any || sig[v][f] >= 0;
      if (!any) continue;
      sig[v].back() = lab.empty() ? 0 : lab[v];
      by[sig[v]].push_back(v);
    }
    w.resize(in.size());
    std::vector<std::vector<long>> st;
    for (auto f : in) st.push_back(f->strides());
    for (auto &p : by) {
      g.push_back(p.second);
      label.push_back(p.first.back());
      for (size_t f = 0; f < in.size(); f++) w[f].push_back(p.first[f] < 0 ? 0 : st[f][p.first[f]]);
    }
  }
  long product() const { return Sym::product(g); }
  long at(size_t f, const std::vector<int> &c) const { long i = 0; for (size_t k = 0; k < g.size(); k++) i += w[f][k] * c[k]; return i; }
};

struct Scale : Ctx {
  Rng rng;
  struct Fn { Bdd h; Sym f; };
  std::vector<Fn> fns;
  long lim;                 // states of a result
  long biggest = 0;         // largest diagram seen
  long walked = 0;          // states compared
  int maxOpMs = 0;
  size_t maxFns;
  bool kept = false;        // a temporary association is set
  explicit Scale(uint64_t seed) : rng(seed) {}
  int n() { return (int)dummyH.size(); }
  Bdd var(int v) { return dummyH[v]; }

  // ------------------------------------------------------------ observation
  struct Edge { CalVerifEdge_t e; };
  static bool same(CalVerifEdge_t a, CalVerifEdge_t b) { return a.node == b.node && a.id == b.id; }
  struct Count { std::unordered_set<uintptr_t> pos, fun; bool one = false, zero = false; std::map<int, long> level, funLevel, cut; };
  std::vector<int> sorted(const std::vector<std::vector<int>> &gs) {
    std::vector<std::pair<long, int>> o;
    for (auto &x : gs) for (int v : x) o.push_back({CalVerifIdToIndex(m, v + 1), v});
    std::sort(o.begin(), o.end());
    std::vector<int> r;
    for (auto &p : o) r.push_back(p.second);
    return r;
  }
  // compares a diagram with the table in every state
  void walk(Bdd h, const Sym &f, const char *what, Count *cnt = nullptr) {
    checksDone++;
    std::vector<int> vs = sorted(f.g);
    std::vector<long> w(n(), 0);
    std::vector<int> pos(n() + 2, -1);
    std::vector<long> st = f.strides();
    for (size_t k = 0; k < f.g.size(); k++) for (int v : f.g[k]) w[v] = st[k];
    for (size_t p = 0; p < vs.size(); p++) pos[vs[p] + 1] = (int)p;
    std::vector<std::pair<long, CalVerifEdge_t>> cur{{0, CalVerifRoot(m, h)}}, nxt;
    std::unordered_map<long, CalVerifEdge_t> map;
    long states = 0;
    auto isConst = [&](CalVerifEdge_t e) { return CalVerifIsOne(m, e) || CalVerifIsZero(m, e); };
    for (size_t p = 0; p < vs.size(); p++) {
      map.clear();
      nxt.clear();
      auto put = [&](long i, CalVerifEdge_t e) {
        states++;
        if (!isConst(e)) {
          if (e.id < 1 || e.id > n() || pos[e.id] < 0) VIOL("wrong-function", "%s: %s contains variable %d, on which it should not depend", tag.c_str(), what, (int)e.id);
          if (pos[e.id] <= (int)p) VIOL("not-ordered", "%s: %s: variable %d below variable %d", tag.c_str(), what, (int)e.id, vs[p] + 1);
        }
        auto it = map.emplace(i, e);
        if (it.second) nxt.push_back({i, e});
        else if (!same(it.first->second, e)) VIOL("wrong-function", "%s: %s: two diagrams for one function below variable %d", tag.c_str(), what, vs[p] + 1);
      };
      if (cnt) {
        std::unordered_set<uintptr_t> d;
        bool dep = false;
        for (auto &s : cur) { d.insert((uintptr_t)s.second.node); dep = dep || s.second.id == vs[p] + 1; }
        cnt->cut[vs[p] + 1] = dep ? (long)d.size() : 0;
      }
      for (auto &s : cur) {
        CalVerifEdge_t e = s.second, t = e, el = e;
        if (!isConst(e) && (e.id < 1 || e.id > n() || pos[e.id] < (int)p)) VIOL("wrong-function", "%s: %s contains variable %d", tag.c_str(), what, (int)e.id);
        if (!isConst(e) && e.id == vs[p] + 1) {
          uintptr_t reg = (uintptr_t)e.node & ~(uintptr_t)1;
          if (cnt) { if (cnt->pos.insert(reg).second) cnt->level[e.id]++; if (cnt->fun.insert((uintptr_t)e.node).second) cnt->funLevel[e.id]++; }
          CalVerifEdge_t r = e;
          r.node = (void *)reg;
          CalVerifExpand(r, &t, &el);
          if ((uintptr_t)e.node & 1) { t.node = (void *)((uintptr_t)t.node ^ 1); el.node = (void *)((uintptr_t)el.node ^ 1); }
        }
        put(s.first, el);
        put(s.first + w[vs[p]], t);
      }
      cur.swap(nxt);
    }
    for (auto &s : cur) {
      if (!isConst(s.second)) VIOL("wrong-function", "%s: %s: a diagram does not end", tag.c_str(), what);
      bool one = CalVerifIsOne(m, s.second);
      if (cnt) (one ? cnt->one : cnt->zero) = true;
      if (one != (bool)f.t[s.first]) VIOL("wrong-function", "%s: %s (%zu variables in %zu groups) has the wrong value in state %ld of %zu", tag.c_str(), what, vs.size(), f.g.size(), s.first, f.t.size());
    }
    walked += states;
    rt::count("states_compared", states);
  }
  bool value(Bdd h, const std::vector<char> &a) {
    CalVerifEdge_t e = CalVerifRoot(m, h);
    for (int steps = 0; steps < 70000; steps++) {
      if (CalVerifIsOne(m, e)) return true;
      if (CalVerifIsZero(m, e)) return false;
      CalVerifEdge_t t, el;
      if (e.id < 1 || e.id > n()) VIOL("walk", "impossible variable %d", (int)e.id);
      CalVerifExpand(e, &t, &el);
      e = a[e.id - 1] ? t : el;
    }
    VIOL("walk", "endless path");
  }
  // an assignment which satisfies h (not zero), chosen along a random path
  std::vector<char> someModel(Bdd h) {
    std::vector<char> a(n());
    int bias = rng.pick(std::vector<int>{5, 30, 50, 70, 95});
    for (auto &x : a) x = rng.chance(bias);
    CalVerifEdge_t e = CalVerifRoot(m, h);
    while (!CalVerifIsOne(m, e)) {
      if (CalVerifIsZero(m, e)) VIOL("walk", "no path to one");
      CalVerifEdge_t t, el;
      CalVerifExpand(e, &t, &el);
      bool up = a[e.id - 1];
      if (CalVerifIsZero(m, up ? t : el)) up = !up;
      a[e.id - 1] = up;
      e = up ? t : el;
    }
    return a;
  }
  // every model of h satisfies f, sampled
  void within(Bdd h, const Sym &f, bool want, const char *what) {
    if (h == Cal_BddZero(m)) return;
    for (int i = 0; i < 12; i++)
      if (f.eval(someModel(h)) != want) VIOL("wrong-function", "%s: a model of the result of %s does not satisfy what it should", tag.c_str(), what);
    rt::count("models_sampled", 12);
  }
  std::map<uintptr_t, std::pair<Sym, long>> byHandle; // regular handles in use, function, references
  std::map<Sym, Bdd> bySym;
  static Sym negate(Sym f) { for (auto &x : f.t) x = !x; return f; }
  void takeFn(Bdd h, const Sym &f, const char *what, Count *c = nullptr) {
    if (!h) VIOL("null", "%s: %s returned null", tag.c_str(), what);
    walk(h, f, what, c);
    auto it = bySym.find(f);
    if (it != bySym.end()) {
      rt::count("known_functions");
      if (it->second != h) VIOL("canonicity", "%s: %s returned a second handle for a function in use", tag.c_str(), what);
    }
    if (f.isConst()) { if (h != (f.t[0] ? Cal_BddOne(m) : Cal_BddZero(m))) VIOL("canonicity", "%s: %s: a constant has another handle", tag.c_str(), what); return; }
    bySym[f] = h;
    bySym[negate(f)] = (Bdd)(bits(h) ^ 1);
    auto &b = byHandle[bits(regular(h))];
    Sym rf = bits(h) & 1 ? negate(f) : f;
    if (b.second++ == 0) b.first = rf;
    else if (!(b.first == rf)) VIOL("canonicity", "%s: %s returned a handle in use for another function", tag.c_str(), what);
    if (!batch) checkRefs(h, what);
  }
  bool batch = false; // several results at once: all are taken before references are compared
  void checkRefs(Bdd h, const char *what) {
    auto it = byHandle.find(bits(regular(h)));
    if (it == byHandle.end()) return;
    long have = CalVerifHandleRefCount(regular(h));
    if (have < 255 && have != it->second.second) VIOL("refcount", "%s: %s: %ld references on a handle, %ld held", tag.c_str(), what, have, it->second.second);
  }
  void addAll(const std::vector<Bdd> &hs, const std::vector<Sym> &rs, const char *what) {
    size_t keep = maxFns;
    maxFns = fns.size() + rs.size();
    batch = true;
    for (size_t i = 0; i < rs.size(); i++) add(hs[i], rs[i], what);
    batch = false;
    for (Bdd h : hs) checkRefs(h, what);
    maxFns = keep;
    while (fns.size() > maxFns) freeFn(rng.below((int)fns.size()));
  }
  void dropFn(Bdd h, const Sym &f) {
    rt::inOp = "Cal_BddFree";
    Cal_BddFree(m, h);
    if (f.isConst()) return;
    auto it = byHandle.find(bits(regular(h)));
    if (--it->second.second == 0) { byHandle.erase(it); bySym.erase(f); bySym.erase(negate(f)); }
  }
  void add(Bdd h, const Sym &f, const char *what) {
    Count c;
    takeFn(h, f, what, &c);
    biggest = std::max(biggest, (long)c.pos.size());
    if (c.pos.size() > 1000) rt::count("diagrams_over_1000_nodes");
    if (c.pos.size() > 10000) rt::count("diagrams_over_10000_nodes");
    note(f.t.size() * 131 + c.pos.size());
    fns.push_back({h, f});
    lastCount = (long)c.pos.size();
    while (fns.size() > maxFns) freeFn(rng.below((int)fns.size() - 1));
  }
  long lastCount = 0;
  void freeFn(int i) { dropFn(fns[i].h, fns[i].f); fns[i] = fns.back(); fns.pop_back(); }

  // ------------------------------------------------------------ operations
  long nodes0 = 0, gc0 = 0, ro0 = 0;
  struct timespec t0;
  const char *op = "";
  void before(const char *name) {
    op = name;
    rt::inOp = name;
    rt::tr("%s %s (%zu functions, %d variables)", tag.c_str(), name, fns.size(), n());
    nodes0 = (long)Cal_BddManagerGetNumNodes(m);
    gc0 = CalVerifNumGC(m);
    ro0 = CalVerifNumReorderings(m);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
  }
  int lastMs(struct timespec t1) { return (int)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000); }
  void after(bool tight = false, long room = 0) {
    struct timespec t1;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
    maxOpMs = std::max(maxOpMs, (int)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000));
    opsDone++;
    rt::count("ops_checked");
    if (maxOpMs == lastMs(t1)) rt::tr("  %d ms", maxOpMs);
    checkOrder(ordering);
    if (CalVerifNumGC(m) != gc0) rt::count("collections", CalVerifNumGC(m) - gc0);
    if (tight && CalVerifNumGC(m) == gc0 && CalVerifNumReorderings(m) == ro0) {
      long grown = (long)Cal_BddManagerGetNumNodes(m) - nodes0;
      if (grown > room) VIOL("nodes-left", "%s: %s leaves %ld new nodes, its result has %ld", tag.c_str(), op, grown, room);
      rt::count("growth_checks");
    }
  }
  bool ordering = false;
  const Fn &any() { return fns[rng.below((int)fns.size())]; }
  Sym apply2(const Refine &rf, const Sym &a, const Sym &b, int kind) {
    Sym r = Sym::make(rf.g, [&](const std::vector<int> &c) {
      bool x = a.t[rf.at(0, c)], y = b.t[rf.at(1, c)];
      switch (kind) { case 0: return x && y; case 1: return x || y; case 2: return x != y; case 3: return !(x && y); case 4: return !(x || y); default: return x == y; }
    });
    r.normalize();
    return r;
  }
  bool both(const Sym &a, const Sym &b, int kind, Sym &r) {
    Refine rf({&a, &b}, {}, n());
    if (rf.product() > lim) return false;
    r = apply2(rf, a, b, kind);
    return true;
  }
  Bdd binary(int kind, Bdd x, Bdd y) {
    switch (kind) { case 0: return Cal_BddAnd(m, x, y); case 1: return Cal_BddOr(m, x, y); case 2: return Cal_BddXor(m, x, y);
                    case 3: return Cal_BddNand(m, x, y); case 4: return Cal_BddNor(m, x, y); default: return Cal_BddXnor(m, x, y); }
  }
  void opBinary() {
    static const char *names[] = {"And", "Or", "Xor", "Nand", "Nor", "Xnor"};
    int k = rng.below(6);
    Fn a = any(), b = any();
    Sym r;
    if (!both(a.f, b.f, k, r)) return;
    before(names[k]);
    Bdd h = binary(k, a.h, b.h);
    tightAdd(h, r, names[k]);
  }
  void tightAdd(Bdd h, const Sym &r, const char *what) {
    long before = nodes0, g = gc0, ro = ro0;
    (void)before; (void)g; (void)ro;
    long now = (long)Cal_BddManagerGetNumNodes(m), grown = now - nodes0;
    bool quiet = CalVerifNumGC(m) == gc0 && CalVerifNumReorderings(m) == ro0;
    after();
    add(h, r, what);
    if (quiet) {
      rt::count("growth_checks");
      if (grown > lastCount) VIOL("nodes-left", "%s: %s leaves %ld new nodes, its result has %ld", tag.c_str(), what, grown, lastCount);
    }
  }
  void opIte() {
    Fn a = any(), b = any(), c = any();
    Refine rf({&a.f, &b.f, &c.f}, {}, n());
    if (rf.product() > lim) return;
    Sym r = Sym::make(rf.g, [&](const std::vector<int> &k) { return a.f.t[rf.at(0, k)] ? b.f.t[rf.at(1, k)] : c.f.t[rf.at(2, k)]; });
    r.normalize();
    before("ITE");
    tightAdd(Cal_BddITE(m, a.h, b.h, c.h), r, "ITE");
  }
  void opNot() {
    Fn a = any();
    before("Not");
    Bdd h = Cal_BddNot(m, a.h);
    if (h != (Bdd)(bits(a.h) ^ 1)) VIOL("canonicity", "%s: Not", tag.c_str());
    tightAdd(h, negate(a.f), "Not");
  }
  void opMulti() {
    int kind = rng.below(3), k = rng.range(2, 8);
    std::vector<Bdd> v;
    Sym r;
    for (int i = 0; i < k; i++) {
      Fn a = any();
      Sym q;
      if (v.empty()) q = a.f;
      else if (!both(r, a.f, kind, q)) continue;
      r = q;
      v.push_back(a.h);
    }
    v.push_back(nullptr);
    before("Multiway");
    Bdd h = kind == 0 ? Cal_BddMultiwayAnd(m, v.data()) : kind == 1 ? Cal_BddMultiwayOr(m, v.data()) : Cal_BddMultiwayXor(m, v.data());
    after();
    add(h, r, "Multiway");
  }
  void opPair() {
    int kind = rng.below(3), k = rng.range(1, 12);
    std::vector<Bdd> v;
    std::vector<Sym> rs;
    for (int i = 0; i < k; i++) {
      Fn a = any(), b = any();
      Sym q;
      if (!both(a.f, b.f, kind, q)) continue;
      rs.push_back(q);
      v.push_back(a.h); v.push_back(b.h);
    }
    if (rs.empty()) return;
    v.push_back(nullptr);
    before("Pairwise");
    Bdd *h = kind == 0 ? Cal_BddPairwiseAnd(m, v.data()) : kind == 1 ? Cal_BddPairwiseOr(m, v.data()) : Cal_BddPairwiseXor(m, v.data());
    after();
    std::vector<Bdd> got(h, h + rs.size());
    free(h);
    addAll(got, rs, "Pairwise");
  }
  void pipeline() {
    static const Cal_BddOp_t ops[] = {CAL_AND, CAL_OR, CAL_XOR};
    int kind = rng.below(3), k = rng.range(2, 16);
    std::vector<Fn> level;
    std::vector<Bdd> prov;
    for (int i = 0; i < k; i++) level.push_back(any());
    std::vector<std::pair<int, int>> plan; // indices into nodes; < k: operands
    std::vector<Sym> sy;
    for (auto &x : level) sy.push_back(x.f);
    std::vector<int> open;
    for (int i = 0; i < k; i++) open.push_back(i);
    std::vector<int> used(k, 0);
    while (open.size() > 1) {
      int a = rng.below((int)open.size());
      std::swap(open[a], open.back());
      int x = open.back();
      open.pop_back();
      int b = rng.below((int)open.size());
      int y = open[b];
      Sym q;
      if (!both(sy[x], sy[y], kind, q)) continue; // x stays a root
      plan.push_back({x, y});
      open[b] = (int)sy.size();
      sy.push_back(q);
      used.push_back(0);
      used[x] = used[y] = 1;
    }
    if (plan.empty()) return;
    before("Pipeline");
    Cal_PipelineSetDepth(m, rng.range(0, 8));
    if (Cal_PipelineInit(m, ops[kind]) != 1) VIOL("pipeline", "PipelineInit failed");
    std::vector<Bdd> h;
    for (auto &x : level) h.push_back(x.h);
    for (auto &p : plan) h.push_back(Cal_PipelineCreateProvisionalBdd(m, h[p.first], h[p.second]));
    if (Cal_PipelineExecute(m) != 1) VIOL("pipeline", "PipelineExecute failed");
    std::vector<Bdd> res;
    std::vector<Sym> rs;
    for (size_t i = k; i < h.size(); i++) if (!used[i] || rng.chance(30)) { res.push_back(Cal_PipelineUpdateProvisionalBdd(m, h[i])); rs.push_back(sy[i]); }
    Cal_PipelineQuit(m);
    after();
    addAll(res, rs, "Pipeline");
  }
  std::vector<int> someVars(const std::vector<const Sym *> &of, int maxCount) {
    std::set<int> s;
    int style = rng.below(4);
    for (auto f : of) for (auto &x : f->g) {
      if (style == 0) { if (rng.chance(40)) s.insert(x.begin(), x.end()); }             // whole groups
      else if (style == 1) { for (int v : x) if (rng.chance(50)) s.insert(v); }
      else if (style == 2) { int k = rng.below((int)x.size() + 1); for (int i = 0; i < k; i++) s.insert(x[i]); }
    }
    if (style == 3) for (int i = rng.range(1, 3); i > 0; i--) s.insert(rng.below(n()));
    if (rng.chance(20)) s.insert(rng.below(n()));
    std::vector<int> v(s.begin(), s.end());
    for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + rng.below((int)(v.size() - i))]);
    if ((int)v.size() > maxCount) v.resize(maxCount);
    return v;
  }
  int setAssoc(std::vector<Bdd> &a, int pairs) { // -1: temporary
    a.push_back(nullptr);
    quitTemp();
    if (rng.chance(50)) {
      Cal_TempAssociationInit(m, a.data(), pairs);
      Cal_AssociationSetCurrent(m, -1);
      kept = true;
      return -1;
    }
    int id = Cal_AssociationInit(m, a.data(), pairs);
    Cal_AssociationSetCurrent(m, id);
    return id;
  }
  void quitTemp() { if (kept) Cal_TempAssociationQuit(m); kept = false; }
  void unsetAssoc(int id) {
    if (id >= 0) { Cal_AssociationSetCurrent(m, -1); Cal_AssociationQuit(m, id); }
    else if (rng.chance(70)) quitTemp();
  }
  void opQuant() {
    int kind = rng.below(3);
    Fn a = any(), b = any();
    std::vector<const Sym *> in{&a.f};
    if (kind == 2) in.push_back(&b.f);
    std::vector<int> q = someVars(in, 1 << 20);
    std::vector<int> lab(n(), 0);
    for (int v : q) lab[v] = 1;
    Refine rf(in, lab, n());
    if (rf.product() > lim) return;
    std::vector<std::vector<int>> ng;
    for (size_t k = 0; k < rf.g.size(); k++) if (!rf.label[k]) ng.push_back(rf.g[k]);
    Sym r;
    r.g = ng;
    r.t.assign(Sym::product(ng), kind == 1);
    Sym::each(rf.g, [&](const std::vector<int> &c) {
      long o = 0, p = 1;
      for (size_t k = 0; k < rf.g.size(); k++) if (!rf.label[k]) { o += p * c[k]; p *= (long)rf.g[k].size() + 1; }
      bool v = a.f.t[rf.at(0, c)];
      if (kind == 2) v = v && b.f.t[rf.at(1, c)];
      if (kind == 1) r.t[o] = r.t[o] && v; else r.t[o] = r.t[o] || v;
    });
    r.normalize();
    std::vector<Bdd> arr;
    for (int v : q) arr.push_back(var(v));
    before(kind == 0 ? "Exists" : kind == 1 ? "ForAll" : "RelProd");
    int id = setAssoc(arr, 0);
    Bdd h = kind == 0 ? Cal_BddExists(m, a.h) : kind == 1 ? Cal_BddForAll(m, a.h) : Cal_BddRelProd(m, a.h, b.h);
    after();
    unsetAssoc(id);
    add(h, r, op);
  }
  void opCofactor() {
    Fn a = any();
    std::vector<int> q = someVars({&a.f}, 1 << 20);
    std::vector<int> lab(n(), 0);
    Bdd cube = Cal_BddOne(m);
    for (int v : q) {
      lab[v] = rng.range(1, 2);
      Bdd l = lab[v] == 1 ? Cal_BddIdentity(m, var(v)) : Cal_BddNot(m, var(v));
      Bdd c2 = Cal_BddAnd(m, cube, l);
      Cal_BddFree(m, cube); Cal_BddFree(m, l);
      cube = c2;
    }
    checkOrder(ordering);
    Refine rf({&a.f}, lab, n());
    if (rf.product() > lim) { Cal_BddFree(m, cube); return; }
    std::vector<std::vector<int>> ng;
    for (size_t k = 0; k < rf.g.size(); k++) if (!rf.label[k]) ng.push_back(rf.g[k]);
    Sym r = Sym::make(ng, [&](const std::vector<int> &c) {
      std::vector<int> full;
      size_t j = 0;
      for (size_t k = 0; k < rf.g.size(); k++) full.push_back(rf.label[k] == 0 ? c[j++] : rf.label[k] == 1 ? (int)rf.g[k].size() : 0);
      return a.f.t[rf.at(0, full)];
    });
    r.normalize();
    before("Cofactor");
    Bdd h = Cal_BddCofactor(m, a.h, cube);
    after();
    add(h, r, "Cofactor");
    before("Reduce");
    h = Cal_BddReduce(m, a.h, cube);
    after();
    for (int i = 0; i < 12; i++) {
      std::vector<char> x = someModel(cube);
      if (value(h, x) != a.f.eval(x)) VIOL("wrong-function", "%s: Reduce differs from its argument within the care set", tag.c_str());
    }
    Cal_BddFree(m, h);
    Cal_BddFree(m, cube);
  }
  void opCare() { // against functions rather than cubes
    Fn a = any(), b = any();
    if (b.h == Cal_BddZero(m)) return;
    Sym both_;
    if (!both(a.f, b.f, 0, both_)) return;
    int kind = rng.below(5);
    static const char *names[] = {"Cofactor", "Reduce", "Between", "Intersects", "Implies"};
    Bdd lo = nullptr;
    if (kind == 2) lo = Cal_BddAnd(m, a.h, b.h);
    before(names[kind]);
    Bdd h = kind == 0 ? Cal_BddCofactor(m, a.h, b.h) : kind == 1 ? Cal_BddReduce(m, a.h, b.h) : kind == 2 ? Cal_BddBetween(m, lo, b.h)
          : kind == 3 ? Cal_BddIntersects(m, a.h, b.h) : Cal_BddImplies(m, a.h, b.h);
    after();
    if (!h) VIOL("null", "%s: %s returned null", tag.c_str(), op);
    Bdd zero = Cal_BddZero(m);
    Bdd nh = Cal_BddNot(m, h);
    if (kind <= 1) {
      for (int i = 0; i < 20; i++) {
        std::vector<char> x = someModel(b.h);
        if (value(h, x) != a.f.eval(x)) VIOL("wrong-function", "%s: %s differs within the care set", tag.c_str(), op);
      }
    } else if (kind == 2) {
      within(h, b.f, true, op);
      within(nh, both_, false, op);
    } else if (kind == 3) {
      bool empty = both_.isConst() && !both_.t[0];
      if ((h == zero) != empty) VIOL("wrong-function", "%s: Intersects is %szero", tag.c_str(), h == zero ? "" : "not ");
      within(h, both_, true, op);
    } else {
      Sym d, nb = negate(b.f);
      Refine rf({&a.f, &nb}, {}, n());
      d = apply2(rf, a.f, nb, 0);
      bool empty = d.isConst() && !d.t[0];
      if ((h == zero) != empty) VIOL("wrong-function", "%s: Implies is %szero", tag.c_str(), h == zero ? "" : "not ");
      within(h, d, true, op);
    }
    Cal_BddFree(m, nh);
    Cal_BddFree(m, h);
    if (lo) Cal_BddFree(m, lo);
  }
  void opSatisfy() {
    Fn a = any();
    if (a.h == Cal_BddZero(m)) return;
    std::vector<int> q = someVars({&a.f}, 1 << 20);
    bool sup = rng.chance(50);
    int id = -2;
    std::vector<Bdd> arr;
    for (int v : q) arr.push_back(var(v));
    before(sup ? "SatisfySupport" : "Satisfy");
    if (sup) id = setAssoc(arr, 0);
    Bdd h = sup ? Cal_BddSatisfySupport(m, a.h) : Cal_BddSatisfy(m, a.h);
    after();
    if (sup) unsetAssoc(id);
    if (h == Cal_BddZero(m)) VIOL("wrong-function", "%s: %s is zero", tag.c_str(), op);
    within(h, a.f, true, op);
    std::set<int> ids; // a cube
    CalVerifEdge_t e = CalVerifRoot(m, h);
    while (!CalVerifIsOne(m, e)) {
      CalVerifEdge_t t, el;
      CalVerifExpand(e, &t, &el);
      if (CalVerifIsZero(m, t) == CalVerifIsZero(m, el)) VIOL("wrong-function", "%s: %s does not give a cube", tag.c_str(), op);
      ids.insert(e.id);
      e = CalVerifIsZero(m, t) ? el : t;
    }
    if (sup) for (int v : q) if (!ids.count(v + 1)) VIOL("wrong-function", "%s: SatisfySupport omits variable %d", tag.c_str(), v + 1);
    Cal_BddFree(m, h);
  }
  // composing computes a result for every node above the last variable replaced
  bool affordable(const Sym &f, const Refine &rf) {
    double vf = 0, vr = 0;
    for (auto &x : f.g) vf += (double)x.size();
    for (auto &x : rf.g) vr += (double)x.size();
    return (double)f.t.size() * vf / 3 * ((double)rf.product() * vr / 3) < 1e8;
  }
  void opCompose() {
    Fn a = any(), b = any(), b2 = any();
    std::vector<int> vs = sorted(a.f.g);
    int x = !vs.empty() && rng.chance(85) ? rng.pick(vs) : rng.below(n());
    int y = !vs.empty() ? rng.pick(vs) : rng.below(n());
    bool two = rng.chance(40) && x != y;
    std::vector<int> lab(n(), 0);
    lab[x] = 1;
    if (two) lab[y] = 2;
    std::vector<const Sym *> in{&a.f, &b.f};
    if (two) in.push_back(&b2.f);
    Refine rf(in, lab, n());
    if (rf.product() > lim || !affordable(a.f, rf)) return;
    Sym r = Sym::make(rf.g, [&](const std::vector<int> &c) {
      std::vector<int> d = c;
      for (size_t k = 0; k < rf.g.size(); k++) { if (rf.label[k] == 1) d[k] = b.f.t[rf.at(1, c)]; if (two && rf.label[k] == 2) d[k] = b2.f.t[rf.at(2, c)]; }
      return a.f.t[rf.at(0, d)];
    });
    r.normalize();
    Bdd h;
    if (two || rng.chance(30)) {
      std::vector<Bdd> arr{var(x), b.h};
      if (two) { arr.push_back(var(y)); arr.push_back(b2.h); }
      before("Substitute");
      int id = setAssoc(arr, 1);
      h = Cal_BddSubstitute(m, a.h);
      after();
      unsetAssoc(id);
    } else {
      before("Compose");
      h = Cal_BddCompose(m, a.h, var(x), b.h);
      after();
    }
    add(h, r, op);
  }
  void opPermute() {
    Fn a = any();
    std::vector<int> to(n()), pol(n(), 0);
    for (int i = 0; i < n(); i++) to[i] = i;
    int kind = rng.below(3); // swap, variables, literals
    std::vector<int> vs = sorted(a.f.g), moved;
    if (vs.empty()) return;
    int k = kind == 0 ? 1 : rng.range(1, rng.chance(30) ? n() : 4);
    int x = 0, y = 0;
    for (int i = 0; i < k; i++) {
      x = rng.pick(vs); y = rng.chance(50) ? rng.pick(vs) : rng.below(n());
      std::swap(to[x], to[y]);
    }
    if (kind == 2) for (int v : vs) if (rng.chance(30)) pol[v] = 1;
    Refine rf({&a.f}, pol, n());
    if (rf.product() > lim || !affordable(a.f, rf)) return;
    std::vector<std::vector<int>> ng = rf.g;
    for (auto &g : ng) for (int &v : g) v = to[v];
    Sym r = Sym::make(ng, [&](std::vector<int> c) {
      for (size_t j = 0; j < c.size(); j++) if (rf.label[j]) c[j] = (int)rf.g[j].size() - c[j];
      return a.f.t[rf.at(0, c)];
    });
    r.normalize();
    Bdd h;
    if (kind == 0) {
      before("SwapVars");
      h = Cal_BddSwapVars(m, a.h, var(x), var(y));
      after();
    } else {
      std::vector<Bdd> arr, tmp;
      for (int v = 0; v < n(); v++) if (to[v] != v || pol[v]) {
        Bdd l = pol[v] ? Cal_BddNot(m, var(to[v])) : Cal_BddIdentity(m, var(to[v]));
        arr.push_back(var(v)); arr.push_back(l);
        tmp.push_back(l);
      }
      before(kind == 1 ? "VarSubstitute" : "Substitute");
      int id = setAssoc(arr, 1);
      h = kind == 1 ? Cal_BddVarSubstitute(m, a.h) : Cal_BddSubstitute(m, a.h);
      after();
      unsetAssoc(id);
      for (Bdd l : tmp) Cal_BddFree(m, l);
    }
    add(h, r, op);
  }
  void opQueries() {
    Fn a = any(), b = any();
    before("Queries");
    std::vector<Bdd> arr{a.h, b.h, nullptr};
    for (int neg = 0; neg <= 1; neg++) for (int multi = 0; multi <= 1; multi++) {
      rt::inOp = multi ? "SizeMultiple" : "Size";
      long sz = multi ? Cal_BddSizeMultiple(m, arr.data(), neg) : Cal_BddSize(m, a.h, neg);
      checkOrder(ordering);
      Count c;
      walk(a.h, a.f, "Size", &c);
      if (multi) walk(b.h, b.f, "Size", &c);
      long e = neg ? (long)c.pos.size() + 1 : (long)c.fun.size() + c.one + c.zero;
      if (sz != e) VIOL("size", "%s: Size(multiple=%d, negout=%d) is %ld, expected %ld", tag.c_str(), multi, neg, sz, e);
      std::vector<long> prof(nvars() + 1, -7);
      rt::inOp = "Profile";
      if (multi) Cal_BddProfileMultiple(m, arr.data(), prof.data(), neg); else Cal_BddProfile(m, a.h, prof.data(), neg);
      checkOrder(ordering);
      Count c2;
      walk(a.h, a.f, "Profile", &c2);
      if (multi) walk(b.h, b.f, "Profile", &c2);
      std::vector<long> ep(nvars() + 1, 0);
      for (auto &p : neg ? c2.level : c2.funLevel) ep[CalVerifIdToIndex(m, p.first)] = p.second;
      ep[nvars()] = neg ? 1 : c2.one + c2.zero;
      for (int i = 0; i <= nvars(); i++) if (prof[i] != ep[i]) VIOL("profile", "%s: Profile(multiple=%d, negout=%d)[%d] is %ld, expected %ld", tag.c_str(), multi, neg, i, prof[i], ep[i]);
    }
    {
      std::vector<long> prof(nvars() + 1, -7), ep(nvars() + 1, 0);
      rt::inOp = "FunctionProfile";
      Cal_BddFunctionProfile(m, a.h, prof.data());
      checkOrder(ordering);
      Count c;
      walk(a.h, a.f, "FunctionProfile", &c);
      for (auto &p : c.cut) ep[CalVerifIdToIndex(m, p.first)] = p.second;
      ep[nvars()] = c.one + c.zero;
      for (int i = 0; i <= nvars(); i++) if (prof[i] != ep[i]) VIOL("function-profile", "%s: FunctionProfile[%d] is %ld, expected %ld", tag.c_str(), i, prof[i], ep[i]);
    }
    rt::inOp = "IsCube";
    if (!a.f.isConst()) {
      bool cube = true;
      for (auto &g : a.f.g) (void)g;
      long ones = 0;
      for (auto x : a.f.t) ones += x;
      size_t last = 0;
      for (size_t i = 0; i < a.f.t.size(); i++) if (a.f.t[i]) last = i;
      cube = ones == 1; // and every count is none or all
      for (size_t k = 0, rest = last; k < a.f.g.size(); k++) { size_t q = a.f.g[k].size() + 1, c = rest % q; rest /= q; if (c != 0 && c != q - 1) cube = false; }
      int got = Cal_BddIsCube(m, a.h);
      if ((got != 0) != cube) VIOL("cube", "%s: IsCube is %d", tag.c_str(), got);
    }
    rt::inOp = "Support";
    std::vector<Bdd> sup(nvars() + 2, (Bdd)(uintptr_t)16);
    Cal_BddSupport(m, a.h, sup.data());
    std::set<Bdd> got, want;
    int i = 0;
    for (; i <= nvars() && sup[i]; i++) got.insert(sup[i]);
    for (auto &g : a.f.g) for (int v : g) want.insert(var(v));
    if (got != want || i != (int)got.size()) VIOL("support", "%s: Support gives %d variables, expected %zu", tag.c_str(), i, want.size());
    for (int j = 0; j < i; j++) Cal_BddFree(m, sup[j]);
    for (int j = 0; j < 10; j++) {
      int v = rng.below(n());
      if ((Cal_BddDependsOn(m, a.h, var(v)) != 0) != (want.count(var(v)) != 0)) VIOL("depends", "%s: DependsOn is wrong for variable %d", tag.c_str(), v + 1);
    }
    rt::inOp = "SatisfyingFraction";
    double fr = Cal_BddSatisfyingFraction(m, a.h);
    // probability of each vector of counts
    std::vector<std::vector<long double>> bin;
    for (auto &g : a.f.g) {
      std::vector<long double> row;
      long double p = powl(0.5L, (long double)g.size());
      for (size_t c = 0; c <= g.size(); c++) { row.push_back(p); p = p * (long double)(g.size() - c) / (long double)(c + 1); }
      bin.push_back(row);
    }
    long double sum = 0;
    size_t k = 0;
    Sym::each(a.f.g, [&](const std::vector<int> &c) {
      if (a.f.t[k++]) { long double p = 1; for (size_t j = 0; j < c.size(); j++) p *= bin[j][c[j]]; sum += p; }
    });
    if (fabsl((long double)fr - sum) > 1e-9L) VIOL("fraction", "%s: SatisfyingFraction is %.17g, expected %.17Lg", tag.c_str(), fr, sum);
    after();
    rt::count("queries");
  }
  void opDump() {
    Fn a = any();
    std::vector<Bdd> vs;
    for (int v = 0; v < n(); v++) vs.push_back(var(v));
    for (size_t i = 0; i + 1 < vs.size(); i++) std::swap(vs[i], vs[i + rng.below((int)(vs.size() - i))]);
    vs.push_back(nullptr);
    char *buf = nullptr;
    size_t len = 0;
    FILE *fp = open_memstream(&buf, &len);
    before("DumpBdd");
    int ok = Cal_BddDumpBdd(m, a.h, vs.data(), fp);
    after();
    fclose(fp);
    if (ok != 1) VIOL("dump", "%s: dumping returned %d", tag.c_str(), ok);
    fp = fmemopen(buf, len, "r");
    int err = 99;
    before("UndumpBdd");
    Bdd h = Cal_BddUndumpBdd(m, vs.data(), fp, &err);
    after();
    fclose(fp);
    __real_free(buf);
    if (!h || err || h != a.h) VIOL("undump", "%s: reading a dump back gives error %d or another handle", tag.c_str(), err);
    add(h, a.f, "UndumpBdd");
    rt::count("round_trips");
  }
  // everything held and nothing else survives a collection
  void opCollect() {
    before("GC");
    quitTemp();
    Cal_BddManagerGC(m);
    after();
    Count c;
    for (auto &x : fns) walk(x.h, x.f, "GC", &c);
    for (int v = 0; v < n(); v++) { CalVerifEdge_t e = CalVerifRoot(m, var(v)); c.pos.insert((uintptr_t)e.node & ~(uintptr_t)1); }
    long nodes = (long)Cal_BddManagerGetNumNodes(m), want = (long)c.pos.size() + 1;
    if (nodes < want || (nodes > want && CalVerifNumSaturated(m) == 0 && !saturated)) VIOL("collect", "%s: %ld nodes after a collection, %ld are in use", tag.c_str(), nodes, want);
    rt::count("exact_collections");
    if (want > 10000) rt::count("collections_with_10000_nodes");
    if (rng.chance(30)) checkStructure("a collection");
  }
  void opReorder() {
    long before_ = (long)Cal_BddManagerGetNumNodes(m);
    if (before_ > reorderUpTo) { quitTemp(); Cal_BddManagerGC(m); before_ = (long)Cal_BddManagerGetNumNodes(m); }
    if (before_ > reorderUpTo) return;
#ifndef NDEBUG
    if ((double)n() * n() * before_ > 4e6) return; // the library's assertions walk all its nodes at every step
#endif
    static const int techs[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW, CAL_REORDER_SIFT};
    int method = rng.below(2) ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF, tech = techs[rng.below(3)];
    before(method == CAL_REORDER_METHOD_BF ? "Reorder(BF)" : "Reorder(DF)");
    Cal_BddDynamicReordering(m, tech, method);
    ordering = true;
    Cal_BddReorder(m);
    after();
    if (!autoReorder) { Cal_BddDynamicReordering(m, CAL_REORDER_NONE, method); ordering = false; }
    for (auto &x : fns) walk(x.h, x.f, "Reorder");
    checkStructure("reordering");
    rt::count("reorderings_of_large_managers");
  }
  long reorderUpTo = 0;
  bool autoReorder = false;
  void newVar() { newVarFast(); checkOrder(ordering); takeVar(n() - 1); }
  void takeVar(int v) {
    Sym f;
    f.g = {{v}};
    f.t = {0, 1};
    takeFn(var(v), f, "a new variable");
  }

  // ------------------------------------------------------------ functions
  Sym randomSym(int maxGroups, bool wide) {
    std::vector<int> vs(n());
    for (int i = 0; i < n(); i++) vs[i] = i;
    if (rng.chance(70)) for (size_t i = 0; i + 1 < vs.size(); i++) std::swap(vs[i], vs[i + rng.below((int)(vs.size() - i))]); // else neighbours by identifier
    int k = rng.range(1, maxGroups);
    std::vector<std::vector<int>> g;
    size_t at = 0;
    double prod = 1, states = 1;
    for (int i = 0; i < k; i++) {
      int room = (int)(vs.size() - at);
      if (room <= 0) break;
      int sz = wide && rng.chance(60) ? room : rng.range(1, rng.chance(50) ? room : std::min(room, 8));
      while (sz > 1 && (prod * (sz + 1) > lim || states * sz * (double)(sz + 1) / 2 > 4.0 * lim)) sz = sz * 2 / 3;
      if (prod * (sz + 1) > lim) break;
      prod *= sz + 1;
      states *= sz;
      g.push_back(std::vector<int>(vs.begin() + at, vs.begin() + at + sz));
      at += sz;
    }
    int kind = rng.below(7);
    std::vector<int> wt;
    long total = 0;
    for (auto &x : g) { wt.push_back(rng.range(-3, 4)); total += labs(wt.back()) * (long)x.size(); }
    long thr = rng.range(-(int)(total / 2), (int)total), thr2 = thr + rng.range(1, 6);
    int mod = rng.range(2, 7), dens = rng.pick(std::vector<int>{2, 10, 50});
    Sym r = Sym::make(g, [&](const std::vector<int> &c) -> bool {
      long s = 0, all = 0, full = 0;
      for (size_t i = 0; i < c.size(); i++) { s += wt[i] * c[i]; all += c[i]; full += c[i] == (int)g[i].size(); }
      switch (kind) {
      case 0: return s > thr;
      case 1: return s >= thr && s < thr2;
      case 2: return ((s % mod) + mod) % mod == 0;
      case 3: return all & 1;
      case 4: return full == (long)c.size();
      case 5: return rng.chance(dens);
      default: return (s > thr) != ((all % mod) == 0);
      }
    });
    if (rng.chance(30)) r = negate(r);
    r.normalize();
    return r;
  }
  // builds a function, from the last variable of some order to the first
  Bdd build(const Sym &f) {
    std::vector<int> vs = sorted(f.g);
    if (rng.chance(15) && f.t.size() < 500) for (size_t i = 0; i + 1 < vs.size(); i++) std::swap(vs[i], vs[i + rng.below((int)(vs.size() - i))]);
    std::vector<long> st = f.strides(), w(n(), 0);
    for (size_t k = 0; k < f.g.size(); k++) for (int v : f.g[k]) w[v] = st[k];
    // the states before each variable
    std::vector<std::vector<long>> states{{0}};
    for (int v : vs) {
      std::vector<long> nx;
      for (long s : states.back()) { nx.push_back(s); nx.push_back(s + w[v]); }
      std::sort(nx.begin(), nx.end());
      nx.erase(std::unique(nx.begin(), nx.end()), nx.end());
      states.push_back(nx);
    }
    std::unordered_map<long, Bdd> h;
    for (long s : states.back()) h[s] = f.t[s] ? Cal_BddOne(m) : Cal_BddZero(m);
    bool pairs = rng.chance(30);
    for (int p = (int)vs.size() - 1; p >= 0; p--) {
      std::unordered_map<long, Bdd> nh;
      int v = vs[p];
      if (pairs) {
        std::vector<Bdd> a;
        Bdd nv = Cal_BddNot(m, var(v));
        for (long s : states[p]) { a.push_back(var(v)); a.push_back(h[s + w[v]]); a.push_back(nv); a.push_back(h[s]); }
        a.push_back(nullptr);
        Bdd *x = Cal_BddPairwiseAnd(m, a.data());
        std::vector<Bdd> parts(x, x + a.size() / 2);
        parts.push_back(nullptr);
        Bdd *y = Cal_BddPairwiseOr(m, parts.data());
        size_t i = 0;
        for (long s : states[p]) { nh[s] = y[i / 2]; Cal_BddFree(m, x[i]); Cal_BddFree(m, x[i + 1]); i += 2; }
        free(x); free(y);
        Cal_BddFree(m, nv);
      } else
        for (long s : states[p]) nh[s] = Cal_BddITE(m, var(v), h[s + w[v]], h[s]);
      for (auto &q : h) Cal_BddFree(m, q.second);
      h.swap(nh);
    }
    return h[0];
  }
  void opBuild(int maxGroups, bool wide) {
    Sym f = randomSym(maxGroups, wide);
    before("build");
    Bdd h = build(f);
    after();
    add(h, f, "build");
  }
  void openScale(int vars, bool plainOrder) {
    open(6, "m");
    dynamic = false;
    for (int i = 0; i < vars; i++) { if (plainOrder) { dummyH.push_back(Cal_BddManagerCreateNewVarLast(m)); order.push_back(i + 1); ttOf.push_back(-1); } else newVarFast(); }
    checkOrder(false);
    for (int i = 0; i < vars; i++) if (Cal_BddGetIfId(m, var(i)) != i + 1) VIOL("newvar", "variable %d has another identifier", i + 1);
    for (int i = 0; i < vars; i++) takeVar(i);
  }
  void finish() {
    quitTemp();
    if (autoReorder) { Cal_BddDynamicReordering(m, CAL_REORDER_NONE, CAL_REORDER_METHOD_DF); }
    opCollect();
    while (!fns.empty()) freeFn((int)fns.size() - 1);
    ordering = false;
    close(true);
  }
};
