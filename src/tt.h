// Truth tables: the reference semantics of Boolean functions.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <functional>

// A function of `TT::W` variables as a bit vector; variable k is bit k of the
// valuation. Fewer than six variables are replicated to fill a word.
struct TT {
  static int W;           // number of variables of the current case
  static int words() { return W <= 6 ? 1 : 1 << (W - 6); }
  std::vector<uint64_t> w;
  TT() {}
  explicit TT(bool v) : w(words(), v ? ~0ULL : 0ULL) {}
  static TT var(int k) {
    static const uint64_t m[6] = {0xAAAAAAAAAAAAAAAAULL, 0xCCCCCCCCCCCCCCCCULL, 0xF0F0F0F0F0F0F0F0ULL,
                                  0xFF00FF00FF00FF00ULL, 0xFFFF0000FFFF0000ULL, 0xFFFFFFFF00000000ULL};
    TT t(false);
    for (size_t i = 0; i < t.w.size(); i++) t.w[i] = k < 6 ? m[k] : (((i >> (k - 6)) & 1) ? ~0ULL : 0ULL);
    return t;
  }
  bool operator==(const TT &o) const { return w == o.w; }
  bool operator!=(const TT &o) const { return w != o.w; }
  bool operator<(const TT &o) const { return w < o.w; }
  TT operator~() const { TT r(*this); for (auto &x : r.w) x = ~x; return r; }
  TT operator&(const TT &o) const { TT r(*this); for (size_t i = 0; i < w.size(); i++) r.w[i] &= o.w[i]; return r; }
  TT operator|(const TT &o) const { TT r(*this); for (size_t i = 0; i < w.size(); i++) r.w[i] |= o.w[i]; return r; }
  TT operator^(const TT &o) const { TT r(*this); for (size_t i = 0; i < w.size(); i++) r.w[i] ^= o.w[i]; return r; }
  bool isZero() const { for (auto x : w) if (x) return false; return true; }
  bool isOne() const { for (auto x : w) if (~x) return false; return true; }
  bool isConst() const { return isZero() || isOne(); }
  bool implies(const TT &o) const { for (size_t i = 0; i < w.size(); i++) if (w[i] & ~o.w[i]) return false; return true; }
  bool bit(uint64_t v) const { if (W < 6) v &= (1u << W) - 1; return (w[v >> 6] >> (v & 63)) & 1; }
  void setbit(uint64_t v, bool b) { // only for W >= 6
    if (b) w[v >> 6] |= 1ULL << (v & 63); else w[v >> 6] &= ~(1ULL << (v & 63));
  }
  TT cof(int k, bool v) const {
    TT r(*this);
    if (k < 6) {
      static const uint64_t m[6] = {0xAAAAAAAAAAAAAAAAULL, 0xCCCCCCCCCCCCCCCCULL, 0xF0F0F0F0F0F0F0F0ULL,
                                    0xFF00FF00FF00FF00ULL, 0xFFFF0000FFFF0000ULL, 0xFFFFFFFF00000000ULL};
      int s = 1 << k;
      for (auto &x : r.w) {
        if (v) { uint64_t h = x & m[k]; x = h | (h >> s); }
        else { uint64_t l = x & ~m[k]; x = l | (l << s); }
      }
    } else {
      size_t s = (size_t)1 << (k - 6);
      for (size_t i = 0; i < w.size(); i++) r.w[i] = v ? w[i | s] : w[i & ~s];
    }
    return r;
  }
  bool dependsOn(int k) const { return cof(k, true) != cof(k, false); }
  TT exists(int k) const { return cof(k, true) | cof(k, false); }
  TT forall(int k) const { return cof(k, true) & cof(k, false); }
  static TT ite(const TT &f, const TT &g, const TT &h) { return (f & g) | (~f & h); }
  long popcount() const { long c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  double fraction() const { return (double)popcount() / (double)(64.0 * w.size()); }
  uint64_t hash() const {
    uint64_t h = 0x9E3779B97F4A7C15ULL;
    for (auto x : w) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; }
    return h;
  }
  // simultaneous substitution: variable k replaced by g[k]
  static TT substRec(const TT &f, int k, const std::vector<TT> &g, const std::vector<char> &has) {
    if (f.isConst() || k < 0) return f;
    if (!f.dependsOn(k)) return substRec(f, k - 1, g, has);
    TT t = substRec(f.cof(k, true), k - 1, g, has), e = substRec(f.cof(k, false), k - 1, g, has);
    return ite(has[k] ? g[k] : var(k), t, e);
  }
  TT subst(const std::vector<TT> &g, const std::vector<char> &has) const { return substRec(*this, W - 1, g, has); }
  TT swap(int a, int b) const {
    std::vector<TT> g(W); std::vector<char> has(W, 0);
    g[a] = var(b); g[b] = var(a); has[a] = has[b] = 1;
    return subst(g, has);
  }
};
struct TTHash { size_t operator()(const TT &t) const { return (size_t)t.hash(); } };
