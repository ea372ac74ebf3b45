#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>

static std::vector<E> g_ht; static size_t g_cnt = 0; static uint32_t g_id = 1;
std::vector<Table *> g_tables;
static std::unordered_map<std::string, unsigned> g_tabIx;
size_t exprCount() { return g_cnt; }

// ---------------------------------------------------------------- arena
static char *g_ar = nullptr; static size_t g_arLeft = 0;
static void *arena(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (n > g_arLeft) { size_t s = n > (1u << 22) ? n : (1u << 22); g_ar = (char *)malloc(s); g_arLeft = s; if (!g_ar) abort(); }
  void *p = g_ar; g_ar += n; g_arLeft -= n; return p;
}

static size_t hmix(size_t h, size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static inline uint64_t smax2(uint64_t a, uint64_t b) { return a > b ? a : b; }

static uint64_t evalOp(Kind kind, unsigned w, uint64_t aux, const Node *const *k, unsigned nk, const uint64_t *kv);

static void computeKnown(Node *n) {
  uint64_t M = maskw(n->w);
  n->zeros = ~M; n->ones = 0; n->umin = 0; n->umax = M;
  auto k = n->k;
  switch (n->kind) {
  case K_CONST: n->ones = n->aux; n->zeros = ~n->aux; n->umin = n->umax = n->aux; return;
  case K_CONCAT: {
    uint64_t z = 0, o = 0, mn = 0, mx = 0;
    for (unsigned i = 0; i < n->nk; i++) {
      unsigned w = k[i]->w;
      if (w >= 64) { z = o = mn = mx = 0; } else { z <<= w; o <<= w; mn <<= w; mx <<= w; }
      z |= k[i]->zeros & maskw(w); o |= k[i]->ones; mn |= k[i]->umin; mx |= k[i]->umax;
    }
    n->zeros = z | ~M; n->ones = o; n->umin = mn; n->umax = mx; break; }
  case K_EXTRACT:
    n->zeros = (k[0]->zeros >> n->aux) | ~M; n->ones = (k[0]->ones >> n->aux) & M;
    if (n->aux == 0 && k[0]->umax <= M) { n->umin = k[0]->umin; n->umax = k[0]->umax; }
    else if (n->aux + n->w == k[0]->w) { n->umin = k[0]->umin >> n->aux; n->umax = k[0]->umax >> n->aux; }
    break;
  case K_AND: {
    uint64_t z = ~M, o = M; uint64_t mx = M;
    for (unsigned i = 0; i < n->nk; i++) { z |= k[i]->zeros; o &= k[i]->ones; mx = mx < k[i]->umax ? mx : k[i]->umax; }
    n->zeros = z; n->ones = o; n->umax = mx; break; }
  case K_OR: {
    uint64_t z = ~0ull, o = 0; uint64_t mn = 0;
    for (unsigned i = 0; i < n->nk; i++) { z &= k[i]->zeros; o |= k[i]->ones; mn = smax2(mn, k[i]->umin); }
    n->zeros = z | ~M; n->ones = o; n->umin = mn; break; }
  case K_XOR: {
    uint64_t kn = ~0ull, v = 0;
    for (unsigned i = 0; i < n->nk; i++) { kn &= (k[i]->zeros | k[i]->ones); v ^= k[i]->ones; }
    n->ones = v & kn & M; n->zeros = (~v & kn) | ~M; break; }
  case K_ADD: {
    uint64_t a = k[0]->umin, b = k[1]->umin, c = k[0]->umax, d = k[1]->umax;
    if (c + d >= c && c + d <= M) { n->umin = a + b; n->umax = c + d; }
    else if (k[0]->isC()) { // const + x where both ends wrap (negative constant)
      uint64_t lo = (k[0]->aux + b) & M, hi = (k[0]->aux + d) & M;
      bool wl = (k[0]->aux + b) < k[0]->aux || (k[0]->aux + b) > M, wh = (k[0]->aux + d) < k[0]->aux || (k[0]->aux + d) > M;
      if (wl && wh) { n->umin = lo; n->umax = hi; }
    }
    // low zero bits
    unsigned tz = 0; while (tz < n->w && ((k[0]->zeros >> tz) & 1) && ((k[1]->zeros >> tz) & 1)) tz++;
    n->zeros |= maskw(tz);
    // known low bits, one operand zero
    for (unsigned i = 0; i < n->w; i++) {
      bool a0 = (k[0]->zeros >> i) & 1, b0 = (k[1]->zeros >> i) & 1, a1 = (k[0]->ones >> i) & 1, b1 = (k[1]->ones >> i) & 1;
      if (a0 && b0) n->zeros |= 1ull << i; else if ((a0 && b1) || (a1 && b0)) n->ones |= 1ull << i; else break;
    }
    break; }
  case K_SUB:
    if (k[0]->umin >= k[1]->umax) { n->umin = k[0]->umin - k[1]->umax; n->umax = k[0]->umax - k[1]->umin; }
    break;
  case K_MUL: {
    unsigned __int128 p = (unsigned __int128)k[0]->umax * k[1]->umax;
    if (p <= M) { n->umin = k[0]->umin * k[1]->umin; n->umax = (uint64_t)p; }
    unsigned tz = 0; for (int j = 0; j < 2; j++) { unsigned t = 0; while (t < n->w && ((k[j]->zeros >> t) & 1)) t++; tz += t; }
    if (tz > n->w) tz = n->w; n->zeros |= maskw(tz);
    break; }
  case K_UDIV: if (k[1]->umin) { n->umax = k[0]->umax / k[1]->umin; n->umin = k[1]->umax ? k[0]->umin / k[1]->umax : 0; } break;
  case K_UREM: n->umax = k[0]->umax; if (k[1]->umin && k[1]->umax - 1 < n->umax) n->umax = k[1]->umax - 1; break;
  case K_LSHR: n->umax = k[0]->umax; break;
  case K_ITE: {
    n->zeros = (k[1]->zeros & k[2]->zeros) | ~M; n->ones = k[1]->ones & k[2]->ones;
    n->umin = k[1]->umin < k[2]->umin ? k[1]->umin : k[2]->umin; n->umax = smax2(k[1]->umax, k[2]->umax); break; }
  case K_SELECT: {
    Table *t = g_tables[n->aux]; uint64_t z = ~0ull, o = ~0ull, mn = ~0ull, mx = 0;
    uint64_t lo = k[0]->umin, hi = k[0]->umax; if (hi >= t->v.size()) hi = t->v.size() - 1; if (lo > hi) lo = hi;
    for (uint64_t i = lo; i <= hi; i++) { E e = t->v[i]; z &= e->zeros; o &= e->ones; if (e->umin < mn) mn = e->umin; if (e->umax > mx) mx = e->umax; }
    n->zeros = z | ~M; n->ones = o & M; n->umin = mn; n->umax = mx; break; }
  default: break;
  }
  // combine
  if (n->ones > n->umin) n->umin = n->ones;
  if ((~n->zeros & M) < n->umax) n->umax = ~n->zeros & M;
  if (n->umax < M) { // leading zeros from umax
    uint64_t mx = n->umax; unsigned b = 0; while (b < 64 && (mx >> b)) { b++; if (b == 64) break; }
    if (b < n->w) n->zeros |= ~maskw(b);
    n->zeros |= ~M;
  }
  if (n->umin == n->umax) { n->ones = n->umin; n->zeros = ~n->umin; }
}

static E intern(Kind kind, unsigned w, uint64_t aux, const E *k, unsigned nk) {
  size_t h = hmix(hmix(kind, w), aux);
  for (unsigned i = 0; i < nk; i++) h = hmix(h, k[i]->id);
  if (g_ht.empty()) g_ht.assign(1 << 16, nullptr);
  size_t m = g_ht.size() - 1, ix = h & m;
  while (g_ht[ix]) {
    E n = g_ht[ix];
    if (n->hash == h && n->kind == kind && n->w == w && n->aux == aux && n->nk == nk) {
      bool eq = true; for (unsigned i = 0; i < nk && eq; i++) eq = n->k[i] == k[i];
      if (eq) return n;
    }
    ix = (ix + 1) & m;
  }
  Node *n = (Node *)arena(sizeof(Node)); memset((void *)n, 0, sizeof(Node));
  n->kind = kind; n->w = w; n->aux = aux; n->nk = nk; n->hash = h; n->id = g_id++;
  n->k = nk ? (E *)arena(nk * sizeof(E)) : nullptr; if (nk) memcpy((void *)n->k, k, nk * sizeof(E));
  n->depth = 0; n->bloom = 0; n->hasMulc = kind == K_MULC;
  for (unsigned i = 0; i < nk; i++) { if (k[i]->depth + 1 > n->depth) n->depth = k[i]->depth + 1; n->bloom |= k[i]->bloom; n->hasMulc |= k[i]->hasMulc; }
  if (kind == K_SYM) n->bloom = 1ull << (aux & 63);
  if (kind == K_SELECT) for (E e : g_tables[aux]->v) { n->bloom |= e->bloom; n->hasMulc |= e->hasMulc; }
  computeKnown(n);
  E r = n;
  if (kind != K_CONST && n->umin == n->umax) r = mkC(w, n->umin);   // folded by range analysis
  m = g_ht.size() - 1; ix = h & m; while (g_ht[ix]) ix = (ix + 1) & m;
  if (r == n) { g_ht[ix] = n; g_cnt++; }
  if (g_cnt * 2 > g_ht.size()) {
    std::vector<E> old; old.swap(g_ht); g_ht.assign(old.size() * 2, nullptr); size_t mm = g_ht.size() - 1;
    for (E e : old) if (e) { size_t j = e->hash & mm; while (g_ht[j]) j = (j + 1) & mm; g_ht[j] = e; }
  }
  return r;
}
static E in1(Kind k, unsigned w, uint64_t aux, E a) { return intern(k, w, aux, &a, 1); }
static E in2(Kind k, unsigned w, E a, E b) { E x[2] = {a, b}; return intern(k, w, 0, x, 2); }

E mkC(unsigned w, uint64_t v) { return intern(K_CONST, w, v & maskw(w), nullptr, 0); }
E mkSym(uint32_t id) { return intern(K_SYM, 8, id, nullptr, 0); }

static void pushPiece(std::vector<E> &v, E p) { // v hi->lo
  if (p->kind == K_CONCAT) { for (unsigned i = 0; i < p->nk; i++) pushPiece(v, p->k[i]); return; }
  if (!v.empty()) {
    E l = v.back();
    if (l->isC() && p->isC() && l->w + p->w <= 64) { v.back() = mkC(l->w + p->w, (p->w >= 64 ? 0 : (l->aux << p->w)) | p->aux); return; }
    // adjacent extracts of the same base
    E lb = l, pb = p; unsigned llo = 0, plo = 0;
    if (l->kind == K_EXTRACT) { lb = l->k[0]; llo = l->aux; }
    if (p->kind == K_EXTRACT) { pb = p->k[0]; plo = p->aux; }
    if (lb == pb && (l != p) && llo == plo + p->w) {
      E m = mkExtract(lb, plo, l->w + p->w);
      v.pop_back(); pushPiece(v, m); return;
    }
    // the low part of a sum, which mkExtract rewrites, below its remaining bits
    if (l->kind == K_EXTRACT && llo == p->w && (lb->kind == K_ADD || lb->kind == K_SUB || lb->kind == K_MUL) && mkExtract(lb, 0, p->w) == p) {
      E m = mkExtract(lb, 0, l->w + p->w);
      v.pop_back(); pushPiece(v, m); return;
    }
    // ite(c, .,.) adjacent with same condition and same structure: leave
  }
  v.push_back(p);
}
E mkConcat(const std::vector<E> &x) {
  std::vector<E> v; unsigned w = 0;
  for (E e : x) { w += e->w; pushPiece(v, e); }
  if (w > 64) { fprintf(stderr, "mkConcat width %u\n", w); abort(); }
  if (v.size() == 1) return v[0];
  return intern(K_CONCAT, w, 0, v.data(), v.size());
}
E mkConcat2(E hi, E lo) { return mkConcat({hi, lo}); }
E mkZext(E e, unsigned w) { if (w == e->w) return e; return mkConcat({mkC(w - e->w, 0), e}); }

static E mkNary(Kind kind, unsigned w, std::vector<E> v);
unsigned internTable(const std::vector<E> &v);

E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->kind) {
  case K_CONST: return mkC(w, e->aux >> lo);
  case K_EXTRACT: return mkExtract(e->k[0], lo + e->aux, w);
  case K_CONCAT: {
    std::vector<E> r; unsigned pos = e->w; // hi->lo
    for (unsigned i = 0; i < e->nk; i++) {
      E p = e->k[i]; unsigned plo = pos - p->w, phi = pos; pos = plo;
      unsigned a = plo > lo ? plo : lo, b = phi < lo + w ? phi : lo + w;
      if (a < b) r.push_back(mkExtract(p, a - plo, b - a));
    }
    return mkConcat(r); }
  case K_AND: case K_OR: case K_XOR: {
    std::vector<E> v; for (unsigned i = 0; i < e->nk; i++) v.push_back(mkExtract(e->k[i], lo, w));
    E r = v[0]; for (size_t i = 1; i < v.size(); i++) r = e->kind == K_AND ? mkAnd(r, v[i]) : e->kind == K_OR ? mkOr(r, v[i]) : mkXor(r, v[i]);
    return r; }
  case K_ADD: if (lo == 0) return mkAdd(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
  case K_SUB: if (lo == 0) return mkSub(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
  case K_MUL: if (lo == 0) return mkMul(mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
  case K_ITE: return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
  case K_SEXT: {
    E s = e->k[0];
    if (lo + w <= s->w) return mkExtract(s, lo, w);
    if (lo == 0) return mkSext(s, w);
    if (lo < s->w) return mkSext(mkExtract(s, lo, s->w - lo), w);
    return mkSext(mkExtract(s, s->w - 1, 1), w); }
  case K_SELECT: { // split constant tables so that equal slices fold
    Table *t = g_tables[e->aux];
    if (t->allConst) { std::vector<E> v; for (E x : t->v) v.push_back(mkExtract(x, lo, w)); return mkSelect(internTable(v), e->k[0]); }
    break; }
  default: break;
  }
  uint64_t z = (e->zeros >> lo) & maskw(w), o = (e->ones >> lo) & maskw(w);
  if ((z | o) == maskw(w)) return mkC(w, o);
  // split off known-zero high bits
  unsigned hz = 0; while (hz < w && ((z >> (w - 1 - hz)) & 1)) hz++;
  if (hz) return mkConcat({mkC(hz, 0), mkExtract(e, lo, w - hz)});
  return in1(K_EXTRACT, w, lo, e);
}

E mkSext(E e, unsigned w) {
  if (w == e->w) return e;
  if (e->isC()) { uint64_t v = e->aux; if ((v >> (e->w - 1)) & 1) v |= ~maskw(e->w); return mkC(w, v); }
  if ((e->zeros >> (e->w - 1)) & 1) return mkZext(e, w);
  if ((e->ones >> (e->w - 1)) & 1) return mkConcat({mkC(w - e->w, ~0ull), e});
  if (e->w == 1) return mkIte(e, mkC(w, ~0ull), mkC(w, 0));
  if (e->kind == K_ITE && (e->k[1]->isC() || e->k[2]->isC())) return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
  if (e->kind == K_SEXT) return mkSext(e->k[0], w);
  return in1(K_SEXT, w, 0, e);
}

// split two expressions at common piece boundaries; returns hi->lo
static void cuts(E e, std::vector<unsigned> &c) {
  if (e->kind == K_CONCAT) { unsigned pos = e->w; for (unsigned i = 0; i < e->nk; i++) { pos -= e->k[i]->w; c.push_back(pos); } }
}
static std::vector<unsigned> segments(E a, E b) { // ascending cut points incl 0 and w
  std::vector<unsigned> c; c.push_back(0); c.push_back(a->w); cuts(a, c); cuts(b, c);
  std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
  return c;
}
static void constCuts(uint64_t v, unsigned w, std::vector<unsigned> &c) { // runs of equal bits
  for (unsigned i = 1; i < w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) c.push_back(i);
}
static bool hasConstPiece(E e) { if (e->kind != K_CONCAT) return false; for (unsigned i = 0; i < e->nk; i++) if (e->k[i]->isC()) return true; return false; }

static E splitBin(Kind kind, E a, E b) {
  std::vector<unsigned> c = segments(a, b);
  if (kind != K_XOR) {
    if (a->isC()) constCuts(a->aux, a->w, c);
    if (b->isC()) constCuts(b->aux, b->w, c);
    for (E e : {a, b}) if (e->kind == K_CONCAT) { unsigned pos = e->w; for (unsigned i = 0; i < e->nk; i++) { pos -= e->k[i]->w; if (e->k[i]->isC()) { std::vector<unsigned> cc; constCuts(e->k[i]->aux, e->k[i]->w, cc); for (unsigned x : cc) c.push_back(x + pos); } } }
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
  }
  if (c.size() <= 2) return nullptr;
  std::vector<E> r;
  for (size_t i = c.size() - 1; i > 0; i--) {
    E x = mkExtract(a, c[i - 1], c[i] - c[i - 1]), y = mkExtract(b, c[i - 1], c[i] - c[i - 1]);
    r.push_back(kind == K_AND ? mkAnd(x, y) : kind == K_OR ? mkOr(x, y) : mkXor(x, y));
  }
  return mkConcat(r);
}

static bool isNotOf(E a, E b) { // a == ~b
  if (a->kind == K_XOR && a->nk >= 2) {
    // constant is kept last
    E c = a->k[a->nk - 1];
    if (c->isC() && c->aux == maskw(a->w)) {
      if (a->nk == 2 && a->k[0] == b) return true;
      if (b->kind == K_XOR && b->nk == a->nk - 1) { for (unsigned i = 0; i < b->nk; i++) if (a->k[i] != b->k[i]) return false; return true; }
    }
  }
  return false;
}
static bool compl_(E a, E b) { return isNotOf(a, b) || isNotOf(b, a); }

static E mkNary(Kind kind, unsigned w, std::vector<E> v) {
  // flatten
  std::vector<E> f; uint64_t c = kind == K_AND ? maskw(w) : 0;
  for (E e : v) {
    if (e->kind == kind) { for (unsigned i = 0; i < e->nk; i++) { if (e->k[i]->isC()) { if (kind == K_AND) c &= e->k[i]->aux; else if (kind == K_OR) c |= e->k[i]->aux; else c ^= e->k[i]->aux; } else f.push_back(e->k[i]); } }
    else if (e->isC()) { if (kind == K_AND) c &= e->aux; else if (kind == K_OR) c |= e->aux; else c ^= e->aux; }
    else f.push_back(e);
  }
  if (kind == K_AND && c == 0) return mkC(w, 0);
  if (kind == K_OR && c == maskw(w)) return mkC(w, c);
  std::sort(f.begin(), f.end(), [](E a, E b) { return a->id < b->id; });
  std::vector<E> g;
  if (kind == K_XOR) { for (size_t i = 0; i < f.size();) { size_t j = i; while (j < f.size() && f[j] == f[i]) j++; if ((j - i) & 1) g.push_back(f[i]); i = j; } }
  else { for (E e : f) if (g.empty() || g.back() != e) g.push_back(e); }
  if (kind == K_XOR && g.size() >= 2) { // merge lookups of one index in constant tables
    std::map<uint32_t, std::vector<E>> by; bool dup = false;
    for (E e : g) if (e->kind == K_SELECT && g_tables[e->aux]->allConst) { auto &x = by[e->k[0]->id]; x.push_back(e); if (x.size() > 1) dup = true; }
    if (dup) {
      std::vector<E> r; for (E e : g) if (!(e->kind == K_SELECT && g_tables[e->aux]->allConst)) r.push_back(e);
      for (auto &b : by) { if (b.second.size() == 1) { r.push_back(b.second[0]); continue; }
        size_t n = 0; for (E e : b.second) n = std::max(n, g_tables[e->aux]->v.size());
        std::vector<E> t; for (size_t i = 0; i < n; i++) { uint64_t x = 0; for (E e : b.second) { auto &tv = g_tables[e->aux]->v; if (i < tv.size()) x ^= tv[i]->aux; } t.push_back(mkC(w, x)); }
        r.push_back(mkSelect(internTable(t), b.second[0]->k[0])); }
      if (c) r.push_back(mkC(w, c));
      return mkNary(kind, w, r);
    }
  }
  if (kind != K_XOR && g.size() <= 64) {
    for (E e : g) if (e->kind == K_XOR) {
      for (E e2 : g) if (isNotOf(e, e2)) return mkC(w, kind == K_AND ? 0 : maskw(w));
    }
  }
  if (kind != K_XOR && w == 1 && g.size() >= 2 && g.size() <= 32) {
    // absorption: x & (x | y) = x ; x & (!x | y) = x & y   (and dually)
    Kind dual = kind == K_AND ? K_OR : K_AND; bool changed = false;
    std::vector<E> g2;
    for (E e : g) {
      if (e->kind != dual) { g2.push_back(e); continue; }
      bool drop = false; std::vector<E> keep;
      for (unsigned i = 0; i < e->nk && !drop; i++) {
        bool rem = false;
        for (E o : g) { if (o == e) continue; if (o == e->k[i]) { drop = true; break; } if (compl_(o, e->k[i])) { rem = true; } }
        if (!rem) keep.push_back(e->k[i]);
      }
      if (drop) { changed = true; continue; }
      if (keep.size() != e->nk) { changed = true; g2.push_back(mkNary(dual, w, keep)); } else g2.push_back(e);
    }
    if (changed) { if (c != (kind == K_AND ? maskw(w) : 0)) g2.push_back(mkC(w, c)); return mkNary(kind, w, g2); }
  }
  bool ident = kind == K_AND ? c == maskw(w) : c == 0;
  if (g.empty()) return mkC(w, c);
  if (ident && g.size() == 1) return g[0];
  if (!ident) g.push_back(mkC(w, c)); // constant last
  if (g.size() == 1) return g[0];
  return intern(kind, w, 0, g.data(), g.size());
}

static bool iteC(E e) { return e->kind == K_ITE && e->k[1]->isC() && e->k[2]->isC(); }

E mkAnd(E a, E b) {
  if (a == b) return a;
  if (a->isC()) std::swap(a, b);
  if (b->isC()) { if (b->aux == 0) return b; if (b->aux == maskw(b->w)) return a; if (a->isC()) return mkC(a->w, a->aux & b->aux); }
  if ((a->zeros | b->zeros) == ~0ull) return mkC(a->w, 0);
  if (a->w > 1) {
    if (b->isC()) {
      if (iteC(a)) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
      if ((~a->zeros & ~b->aux & maskw(a->w)) == 0) return a;
      E r = splitBin(K_AND, a, b); if (r) return r;
    }
    for (int s = 0; s < 2; s++, std::swap(a, b)) if (iteC(a)) {
      uint64_t M = maskw(a->w);
      if ((a->k[1]->aux == M || a->k[1]->aux == 0) && (a->k[2]->aux == M || a->k[2]->aux == 0)) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
    }
    if (hasConstPiece(a) || hasConstPiece(b)) { E r = splitBin(K_AND, a, b); if (r) return r; }
  }
  return mkNary(K_AND, a->w, {a, b});
}
E mkOr(E a, E b) {
  if (a == b) return a;
  if (a->isC()) std::swap(a, b);
  if (b->isC()) { if (b->aux == 0) return a; if (b->aux == maskw(b->w)) return b; if (a->isC()) return mkC(a->w, a->aux | b->aux); }
  if (a->w > 1) {
    if (b->isC()) {
      if (iteC(a)) return mkIte(a->k[0], mkOr(a->k[1], b), mkOr(a->k[2], b));
      E r = splitBin(K_OR, a, b); if (r) return r;
    }
    if (hasConstPiece(a) || hasConstPiece(b)) { E r = splitBin(K_OR, a, b); if (r) return r; }
    if ((a->zeros | b->zeros) == ~0ull) { // disjoint: split where one side is known zero
      std::vector<E> r; int cur = -1; unsigned hi = a->w; unsigned w = a->w;
      for (int i = w - 1; i >= -1; i--) {
        int t = -1; if (i >= 0) { bool az = (a->zeros >> i) & 1; t = az ? 1 : 0; if (az && ((b->zeros >> i) & 1)) t = 2; }
        if (t != cur) { if (cur >= 0) { unsigned lo = i + 1; r.push_back(cur == 2 ? mkC(hi - lo, 0) : mkExtract(cur == 1 ? b : a, lo, hi - lo)); } cur = t; hi = i + 1; }
      }
      return mkConcat(r);
    }
  }
  return mkNary(K_OR, a->w, {a, b});
}
E mkXor(E a, E b) {
  if (a == b) return mkC(a->w, 0);
  if (a->isC()) std::swap(a, b);
  if (b->isC()) { if (b->aux == 0) return a; if (a->isC()) return mkC(a->w, a->aux ^ b->aux);
    if (iteC(a)) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b)); }
  if (a->w > 1 && (a->kind == K_CONCAT || b->kind == K_CONCAT)) { E r = splitBin(K_XOR, a, b); if (r) return r; }
  return mkNary(K_XOR, a->w, {a, b});
}
E mkNot(E a) { return mkXor(a, mkC(a->w, ~0ull)); }

E mkShl(E a, E b) {
  if (b->isC()) { uint64_t s = b->aux; if (s >= a->w) return mkC(a->w, 0); if (!s) return a; return mkConcat({mkExtract(a, 0, a->w - s), mkC(s, 0)}); }
  if (a->isC() && a->aux == 0) return a;
  if (iteC(b)) return mkIte(b->k[0], mkShl(a, b->k[1]), mkShl(a, b->k[2]));
  return in2(K_SHL, a->w, a, b);
}
E mkLshr(E a, E b) {
  if (b->isC()) { uint64_t s = b->aux; if (s >= a->w) return mkC(a->w, 0); if (!s) return a; return mkConcat({mkC(s, 0), mkExtract(a, s, a->w - s)}); }
  if (a->isC() && a->aux == 0) return a;
  if (iteC(b)) return mkIte(b->k[0], mkLshr(a, b->k[1]), mkLshr(a, b->k[2]));
  return in2(K_LSHR, a->w, a, b);
}
E mkAshr(E a, E b) {
  if (b->isC()) { uint64_t s = b->aux; if (s >= a->w) s = a->w - 1; if (!s) return a; return mkSext(mkExtract(a, s, a->w - s), a->w); }
  if ((a->zeros >> (a->w - 1)) & 1) return mkLshr(a, b);
  return in2(K_ASHR, a->w, a, b);
}

E mkAdd(E a, E b) {
  if (b->isC()) std::swap(a, b);
  if (a->isC()) {
    if (b->isC()) return mkC(a->w, a->aux + b->aux);
    if (a->aux == 0) return b;
    if (b->kind == K_ADD && b->k[0]->isC()) return mkAdd(mkC(a->w, a->aux + b->k[0]->aux), b->k[1]);
    if (b->kind == K_SUB && b->k[0]->isC()) return mkSub(mkC(a->w, a->aux + b->k[0]->aux), b->k[1]);
    if (iteC(b)) return mkIte(b->k[0], mkAdd(a, b->k[1]), mkAdd(a, b->k[2]));
    if (b->kind == K_CONCAT) { // gather constant pieces into the constant
      uint64_t K = 0; unsigned ps = b->w; std::vector<E> z; for (unsigned i = 0; i < b->nk; i++) { E p = b->k[i]; ps -= p->w; if (p->isC()) { K |= p->aux << ps; z.push_back(mkC(p->w, 0)); } else z.push_back(p); }
      if (K) return mkAdd(mkC(a->w, a->aux + K), mkConcat(z));
    }
    if (b->kind == K_CONCAT) { // split where no carry can cross
      unsigned pos = 0;
      for (unsigned i = b->nk; i-- > 1;) { pos += b->k[i]->w; if (i > 1 && !b->k[i - 1]->isC()) continue;
        uint64_t cl = a->aux & maskw(pos); E lo = mkExtract(b, 0, pos);
        if (cl + lo->umax <= maskw(pos) && cl + lo->umax >= cl) { E hi = mkExtract(b, pos, b->w - pos); return mkConcat2(mkAdd(mkC(b->w - pos, a->aux >> pos), hi), mkAdd(mkC(pos, cl), lo)); } }
    }
  }
  if ((a->zeros | b->zeros) == ~0ull) return mkOr(a, b);
  if (a->kind == K_ADD && a->k[0]->isC()) return mkAdd(a->k[0], mkAdd(a->k[1], b));
  if (b->kind == K_ADD && b->k[0]->isC()) return mkAdd(b->k[0], mkAdd(a, b->k[1]));
  if (a->kind == K_SUB && a->k[1] == b) return a->k[0];
  if (b->kind == K_SUB && b->k[1] == a) return b->k[0];
  if (a->w == 1) return mkXor(a, b);
  if (!a->isC() && a->id > b->id) std::swap(a, b);
  return in2(K_ADD, a->w, a, b);
}
// e = base + c without wrap-around, where e is a zero-extended sum
static E sumBase(E e, uint64_t &c) {
  if (e->kind == K_CONCAT && e->nk == 2 && e->k[0]->isC() && !e->k[0]->aux && e->k[1]->kind == K_ADD && e->k[1]->k[0]->isC()) {
    E s = e->k[1]; uint64_t k = s->k[0]->aux, m = s->k[1]->umax;
    if (k + m >= k && k + m <= maskw(s->w)) { c = k; return mkZext(s->k[1], e->w); }
  }
  c = 0; return e;
}
E mkSub(E a, E b) {
  if (a == b) return mkC(a->w, 0);
  if (a->kind == K_CONCAT || b->kind == K_CONCAT) { uint64_t ca, cb; E x = sumBase(a, ca), y = sumBase(b, cb); if (x == y) return mkC(a->w, ca - cb); }
  if (b->isC()) return mkAdd(mkC(a->w, 0 - b->aux), a);
  if (a->kind == K_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
  if (b->kind == K_ADD && b->k[0]->isC()) return mkAdd(mkC(a->w, 0 - b->k[0]->aux), mkSub(a, b->k[1]));
  if (a->kind == K_ADD && a->k[0]->isC()) return mkAdd(a->k[0], mkSub(a->k[1], b));
  if (a->isC() && iteC(b)) return mkIte(b->k[0], mkSub(a, b->k[1]), mkSub(a, b->k[2]));
  if (a->w == 1) return mkXor(a, b);
  return in2(K_SUB, a->w, a, b);
}
// values of e for every assignment of its symbol bits (at most maxBits of them); bits: the index, most significant first
bool tabulate(E e, unsigned maxBits, std::vector<E> &bits, std::vector<uint64_t> &vals) {
  const BitSet *s = symsOf(e); unsigned n = 0; for (auto x : s->w) { n += __builtin_popcountll(x); if (n > maxBits) return false; }
  if (!n) return false;
  std::vector<unsigned> pos; for (size_t w = s->w.size(); w-- > 0;) for (int i = 63; i >= 0; i--) if (s->w[w] >> i & 1) pos.push_back(w * 64 + i);
  bits.clear(); vals.clear();
  for (size_t i = 0; i < pos.size();) { size_t j = i; while (j + 1 < pos.size() && pos[j + 1] == pos[j] - 1 && pos[j + 1] / 8 == pos[i] / 8) j++; bits.push_back(mkExtract(mkSym(pos[i] / 8), pos[j] % 8, j - i + 1)); i = j + 1; }
  Model m; m.exactMul = true; m.v.assign(pos[0] / 8 + 1, 0);
  for (uint64_t v = 0; v < (1ull << n); v++) {
    for (size_t i = 0; i < pos.size(); i++) { uint8_t &b = m.v[pos[i] / 8]; uint8_t k = 1 << (pos[i] % 8); if (v >> (n - 1 - i) & 1) b |= k; else b &= ~k; }
    evalNewGen(); vals.push_back(evalE(e, m));
  }
  return true;
}
E mkMul(E a, E b) {
  if (b->isC()) std::swap(a, b);
  if (a->isC()) {
    if (b->isC()) return mkC(a->w, a->aux * b->aux);
    if (a->aux == 0) return a; if (a->aux == 1) return b;
    if ((a->aux & (a->aux - 1)) == 0) { unsigned s = __builtin_ctzll(a->aux); return mkShl(b, mkC(b->w, s)); }
    if (iteC(b)) return mkIte(b->k[0], mkMul(a, b->k[1]), mkMul(a, b->k[2]));
    if (b->w == 64 && __builtin_popcountll(a->aux) > 8) {
      std::vector<E> bits; std::vector<uint64_t> vals; uint64_t k = a->aux;
      if (!b->hasMulc && tabulate(b, 10, bits, vals)) { std::vector<E> t; for (uint64_t v : vals) t.push_back(mkC(64, v * k)); return mkSelect(internTable(t), mkConcat(bits)); }
      return in1(K_MULC, 64, a->aux, b);
    }
  } else if (a->id > b->id) std::swap(a, b);
  if (b->umax <= 1) return mkIte(mkEq(b, mkC(b->w, 1)), a, mkC(a->w, 0));
  if (a->umax <= 1) return mkIte(mkEq(a, mkC(a->w, 1)), b, mkC(a->w, 0));
  return in2(K_MUL, a->w, a, b);
}
E mkUdiv(E a, E b) {
  if (b->isC() && b->aux) { if (a->isC()) return mkC(a->w, a->aux / b->aux);
    if ((b->aux & (b->aux - 1)) == 0) return mkLshr(a, mkC(a->w, __builtin_ctzll(b->aux)));
    if (iteC(a)) return mkIte(a->k[0], mkUdiv(a->k[1], b), mkUdiv(a->k[2], b)); }
  return in2(K_UDIV, a->w, a, b);
}
E mkUrem(E a, E b) {
  if (b->isC() && b->aux) { if (a->isC()) return mkC(a->w, a->aux % b->aux);
    if ((b->aux & (b->aux - 1)) == 0) return mkAnd(a, mkC(a->w, b->aux - 1));
    if (a->umax < b->aux) return a; }
  return in2(K_UREM, a->w, a, b);
}
static int64_t sx_(uint64_t v, unsigned w) { if (w < 64 && ((v >> (w - 1)) & 1)) v |= ~maskw(w); return (int64_t)v; }
E mkSdiv(E a, E b) {
  if (a->isC() && b->isC() && b->aux) { int64_t x = sx_(a->aux, a->w), y = sx_(b->aux, b->w); return mkC(a->w, y == -1 ? (uint64_t)-x : (uint64_t)(x / y)); }
  if (((a->zeros & b->zeros) >> (a->w - 1)) & 1) return mkUdiv(a, b);
  return in2(K_SDIV, a->w, a, b);
}
E mkSrem(E a, E b) {
  if (a->isC() && b->isC() && b->aux) { int64_t x = sx_(a->aux, a->w), y = sx_(b->aux, b->w); return mkC(a->w, y == -1 ? 0 : (uint64_t)(x % y)); }
  if (((a->zeros & b->zeros) >> (a->w - 1)) & 1) return mkUrem(a, b);
  return in2(K_SREM, a->w, a, b);
}

E mkEq(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (a->isC()) std::swap(a, b);
  if (a->isC()) return mkC(1, a->aux == b->aux);
  if ((a->ones & b->zeros) | (a->zeros & b->ones)) return mkC(1, 0);
  if (a->umin > b->umax || b->umin > a->umax) return mkC(1, 0);
  if (a->w == 1) return b->isC() ? (b->aux ? a : mkNot(a)) : mkNot(mkXor(a, b));
  if (b->isC()) {
    uint64_t c = b->aux;
    switch (a->kind) {
    case K_CONCAT: { E r = mkC(1, 1); unsigned pos = a->w; std::vector<E> v;
      { // several lookups with the same index: intersect the rows
        unsigned ns = 0; E ix = nullptr; for (unsigned i = 0; i < a->nk; i++) { E q = a->k[i]; if (q->kind == K_EXTRACT) q = q->k[0]; if (q->kind == K_SELECT && g_tables[q->aux]->allConst && q->k[0]->umax < g_tables[q->aux]->v.size()) { if (!ix) ix = q->k[0]; if (q->k[0] == ix) ns++; } }
        if (ns >= 2) {
          std::vector<uint64_t> hit; for (uint64_t h = ix->umin; h <= ix->umax; h++) { bool ok = true; unsigned p = a->w;
            for (unsigned i = 0; i < a->nk && ok; i++) { E q = a->k[i]; p -= q->w; unsigned sh = 0; uint64_t m = maskw(q->w); if (q->kind == K_EXTRACT) { sh = q->aux; q = q->k[0]; } if (q->kind == K_SELECT && q->k[0] == ix && g_tables[q->aux]->allConst) ok = ((g_tables[q->aux]->v[h]->aux >> sh) & m) == ((c >> p) & m); }
            if (ok) { hit.push_back(h); if (hit.size() > 8) break; } }
          if (hit.size() <= 8) { E s = mkC(1, 0); for (uint64_t h : hit) s = mkOr(s, mkEq(ix, mkC(ix->w, h))); if (s->isC() && !s->aux) return s; std::vector<E> w{s};
            for (unsigned i = 0; i < a->nk; i++) { E q = a->k[i]; pos -= q->w; E o = q->kind == K_EXTRACT ? q->k[0] : q; if (o->kind == K_SELECT && o->k[0] == ix && g_tables[o->aux]->allConst) continue; E z = mkEq(q, mkC(q->w, c >> pos)); if (z->isC() && !z->aux) return z; w.push_back(z); }
            return mkNary(K_AND, 1, w); }
        } }
      for (unsigned i = 0; i < a->nk; i++) { pos -= a->k[i]->w; E q = mkEq(a->k[i], mkC(a->k[i]->w, c >> pos)); if (q->isC() && !q->aux) return q; v.push_back(q); }
      (void)r; return mkNary(K_AND, 1, v); }
    case K_ITE: if (a->k[1]->isC() || a->k[2]->isC() || a->k[1]->kind == K_ITE || a->k[2]->kind == K_ITE) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b)); break;
    case K_XOR: if (a->k[a->nk - 1]->isC()) { std::vector<E> v(a->k, a->k + a->nk - 1); return mkEq(mkNary(K_XOR, a->w, v), mkC(a->w, c ^ a->k[a->nk - 1]->aux)); }
      if (c == 0 && a->nk == 2) return mkEq(a->k[0], a->k[1]); break;
    case K_ADD: if (a->k[0]->isC()) return mkEq(a->k[1], mkC(a->w, c - a->k[0]->aux)); break;
    case K_SUB: if (a->k[0]->isC()) return mkEq(a->k[1], mkC(a->w, a->k[0]->aux - c)); if (c == 0) return mkEq(a->k[0], a->k[1]); break;
    case K_SEXT: { E s = a->k[0]; E t = mkSext(mkC(s->w, c), a->w); if (t->aux != c) return mkC(1, 0); return mkEq(s, mkC(s->w, c)); }
    case K_OR: if (c == 0) { std::vector<E> v; for (unsigned i = 0; i < a->nk; i++) v.push_back(mkEq(a->k[i], b)); return mkNary(K_AND, 1, v); } break;
    case K_SELECT: { Table *t = g_tables[a->aux];
      if (t->allConst) { std::vector<uint64_t> hit; uint64_t lo = a->k[0]->umin, hi = a->k[0]->umax; bool over = hi >= t->v.size(); if (over) hi = t->v.size() - 1;
        for (uint64_t i = lo; i <= hi; i++) if (t->v[i]->aux == c) hit.push_back(i);
        if (hit.empty() && !over) return mkC(1, 0);
        if (hit.size() == hi - lo + 1 && !over) return mkC(1, 1);
        if (hit.size() <= 8 && !over) { E r = mkC(1, 0); for (uint64_t h : hit) r = mkOr(r, mkEq(a->k[0], mkC(a->k[0]->w, h))); return r; } }
      break; }
    default: break;
    }
  } else {
    if (a->kind == K_CONCAT || b->kind == K_CONCAT) {
      uint64_t same = ((a->zeros & b->zeros) | (a->ones & b->ones)) & maskw(a->w); // bits known equal at either end
      unsigned hz = 0, lz = 0; while (hz < a->w && ((same >> (a->w - 1 - hz)) & 1)) hz++; while (lz < a->w && ((same >> lz) & 1)) lz++;
      if (hz + lz >= a->w) return mkC(1, 1);
      if (hz || lz) return mkEq(mkExtract(a, lz, a->w - hz - lz), mkExtract(b, lz, a->w - hz - lz));
      auto c = segments(a, b);
      bool aligned = true; for (unsigned x : c) if (x % 8) aligned = false;
      // keep big non-byte-aligned equalities (CRC against stored bits) as one node
      if (c.size() <= 17 || aligned) {
        std::vector<E> v;
        for (size_t i = c.size() - 1; i > 0; i--) { E q = mkEq(mkExtract(a, c[i - 1], c[i] - c[i - 1]), mkExtract(b, c[i - 1], c[i] - c[i - 1])); if (q->isC()) { if (!q->aux) return q; continue; } v.push_back(q); }
        if (v.empty()) return mkC(1, 1);
        return mkNary(K_AND, 1, v);
      }
    }
    if (a->kind == K_ITE && b->kind == K_ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
    for (int s = 0; s < 2; s++, std::swap(a, b)) if (a->kind == K_ITE) { if (a->k[1] == b) return mkOr(a->k[0], mkEq(a->k[2], b)); if (a->k[2] == b) return mkOr(mkNot(a->k[0]), mkEq(a->k[1], b)); }
    if (a->kind == K_ADD && b->kind == K_ADD && a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
    if (a->kind == K_ADD && b->kind == K_ADD && a->k[0]->isC() && b->k[0]->isC()) return mkEq(a->k[1], mkAdd(mkC(a->w, b->k[0]->aux - a->k[0]->aux), b->k[1]));
    if (a->kind == K_ADD && (a->k[0] == b)) return mkEq(a->k[1], mkC(a->w, 0));
    if (b->kind == K_ADD && (b->k[0] == a)) return mkEq(b->k[1], mkC(a->w, 0));
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
  }
  if (!b->isC() && a->id > b->id) std::swap(a, b);
  return in2(K_EQ, 1, a, b);
}

E mkUlt(E a, E b) {
  if (a == b) return mkC(1, 0);
  if (a->isC() && b->isC()) return mkC(1, a->aux < b->aux);
  if (a->umax < b->umin) return mkC(1, 1);
  if (a->umin >= b->umax) return mkC(1, 0);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  // strip common known-zero high part
  { uint64_t z = a->zeros & b->zeros; unsigned hz = 0; while (hz < a->w && ((z >> (a->w - 1 - hz)) & 1)) hz++;
    if (hz && hz < a->w) return mkUlt(mkExtract(a, 0, a->w - hz), mkExtract(b, 0, b->w - hz)); }
  if (b->isC()) {
    if (b->aux == 1) return mkEq(a, mkC(a->w, 0));
    if ((b->aux & (b->aux - 1)) == 0) { unsigned s = __builtin_ctzll(b->aux); return mkEq(mkExtract(a, s, a->w - s), mkC(a->w - s, 0)); }
    if (b->aux == maskw(a->w)) return mkNot(mkEq(a, b));
    if (a->kind == K_ITE && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (a->kind == K_ADD && a->k[0]->isC() && a->k[0]->aux <= b->aux && a->k[1]->umax <= maskw(a->w) - a->k[0]->aux) return mkUlt(a->k[1], mkC(a->w, b->aux - a->k[0]->aux));
  }
  if (a->isC()) {
    if (a->aux == 0) return mkNot(mkEq(b, a));
    uint64_t n = a->aux + 1;
    if ((n & (n - 1)) == 0 && n) { unsigned s = __builtin_ctzll(n); if (s < b->w) return mkNot(mkEq(mkExtract(b, s, b->w - s), mkC(b->w - s, 0))); }
    if (b->kind == K_ITE && (b->k[1]->isC() || b->k[2]->isC())) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    if (b->kind == K_ADD && b->k[0]->isC() && b->k[0]->aux <= a->aux && b->k[1]->umax <= maskw(a->w) - b->k[0]->aux) return mkUlt(mkC(a->w, a->aux - b->k[0]->aux), b->k[1]);
  }
  // equal low parts: concat(x,l) < concat(y,l)  <=> x<y
  if (a->kind == K_CONCAT && b->kind == K_CONCAT) {
    E la = a->k[a->nk - 1], lb = b->k[b->nk - 1];
    if (la == lb && la->w < a->w) return mkUlt(mkExtract(a, la->w, a->w - la->w), mkExtract(b, la->w, a->w - la->w));
  }
  return in2(K_ULT, 1, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return mkC(1, 0);
  if (a->isC() && b->isC()) return mkC(1, sx_(a->aux, a->w) < sx_(b->aux, b->w));
  unsigned sb = a->w - 1;
  bool a0 = (a->zeros >> sb) & 1, a1 = (a->ones >> sb) & 1, b0 = (b->zeros >> sb) & 1, b1 = (b->ones >> sb) & 1;
  if ((a0 && b0) || (a1 && b1)) return mkUlt(a, b);
  if (a1 && b0) return mkC(1, 1);
  if (a0 && b1) return mkC(1, 0);
  if (b->isC() && b->aux == 0) return mkExtract(a, sb, 1);
  if (a->isC() && a->aux == maskw(a->w)) return mkNot(mkExtract(b, sb, 1)); // -1 < b
  if (b->isC() && a->kind == K_ITE && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (a->isC() && b->kind == K_ITE && (b->k[1]->isC() || b->k[2]->isC())) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return in2(K_SLT, 1, a, b);
}

E mkIte(E c, E a, E b) {
  if (c->isC()) return c->aux ? a : b;
  if (a == b) return a;
  // normalise negated condition
  if (c->kind == K_XOR && c->k[c->nk - 1]->isC()) return mkIte(mkNot(c), b, a);
  if (a->w == 1) {
    if (a->isC()) return a->aux ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->aux ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (compl_(a, b)) return mkXor(mkNot(c), a);
  }
  if (a->kind == K_ITE && a->k[0] == c) a = a->k[1];
  if (b->kind == K_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->kind == K_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  if (a->kind == K_ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
  if (a->w > 1) {
    // factor equal slices
    if (a->kind == K_CONCAT || b->kind == K_CONCAT) {
      auto cs = segments(a, b); std::vector<E> r; bool eq = false;
      std::vector<std::pair<E, E>> seg;
      for (size_t i = cs.size() - 1; i > 0; i--) { E x = mkExtract(a, cs[i - 1], cs[i] - cs[i - 1]), y = mkExtract(b, cs[i - 1], cs[i] - cs[i - 1]); if (x == y) eq = true; seg.push_back({x, y}); }
      if (eq) { for (auto &s : seg) r.push_back(mkIte(c, s.first, s.second)); return mkConcat(r); }
    }
    // common known zero high bits
    uint64_t z = a->zeros & b->zeros; unsigned hz = 0; while (hz < a->w && ((z >> (a->w - 1 - hz)) & 1)) hz++;
    if (hz && hz < a->w) return mkConcat({mkC(hz, 0), mkIte(c, mkExtract(a, 0, a->w - hz), mkExtract(b, 0, b->w - hz))});
  }
  E x[3] = {c, a, b};
  return intern(K_ITE, a->w, 0, x, 3);
}

unsigned internTable(const std::vector<E> &v) {
  std::string key; key.resize(v.size() * 4 + 1);
  for (size_t i = 0; i < v.size(); i++) memcpy(&key[i * 4], &v[i]->id, 4);
  auto it = g_tabIx.find(key); if (it != g_tabIx.end()) return it->second;
  Table *t = new Table; t->v = v; t->w = v[0]->w; t->allConst = true;
  for (E e : v) if (!e->isC()) t->allConst = false;
  t->affine = false;
  if (t->allConst && v.size() >= 16 && (v.size() & (v.size() - 1)) == 0) {
    bool ok = true; uint64_t t0 = v[0]->aux;
    for (size_t i = 1; i < v.size() && ok; i++) { size_t low = i & (~i + 1); if (low != i) ok = v[i]->aux == (v[low]->aux ^ v[i ^ low]->aux ^ t0); }
    t->affine = ok;
  }
  g_tables.push_back(t); g_tabIx[key] = g_tables.size() - 1; return g_tables.size() - 1;
}
E mkSelect(unsigned tab, E idx) {
  Table *t = g_tables[tab];
  if (idx->isC()) { if (idx->aux < t->v.size()) return t->v[idx->aux]; return mkC(t->w, 0); }
  { uint64_t lo = idx->umin, hi = idx->umax < t->v.size() ? idx->umax : t->v.size() - 1; bool same = true; for (uint64_t i = lo + 1; i <= hi; i++) if (t->v[i] != t->v[lo]) { same = false; break; } if (same && lo < t->v.size() && idx->umax < t->v.size()) return t->v[lo]; }
  if (idx->kind == K_ITE && (idx->k[1]->isC() || idx->k[2]->isC() || idx->k[1]->kind == K_ITE || idx->k[2]->kind == K_ITE)) return mkIte(idx->k[0], mkSelect(tab, idx->k[1]), mkSelect(tab, idx->k[2]));
  if (idx->kind == K_SELECT && g_tables[idx->aux]->allConst) { // lookup of a lookup
    Table *u = g_tables[idx->aux]; if (u->v.size() <= 4096) { std::vector<E> v; for (E x : u->v) v.push_back(x->aux < t->v.size() ? t->v[x->aux] : mkC(t->w, 0)); return mkSelect(internTable(v), idx->k[0]); }
  }
  if (idx->kind == K_CONCAT) { // drop constant index bits: look up in the compacted table instead
    unsigned free = 0; bool any = false; for (unsigned i = 0; i < idx->nk; i++) if (idx->k[i]->isC()) any = true; else free += idx->k[i]->w;
    unsigned nt = 0; while ((1ull << nt) < t->v.size()) nt++;
    bool onlyHighZero = idx->k[0]->isC() && idx->k[0]->aux == 0; for (unsigned i = 1; i < idx->nk && onlyHighZero; i++) if (idx->k[i]->isC()) onlyHighZero = false;
    if (any && free <= 12 && !(onlyHighZero && free > nt)) {
      if (!(onlyHighZero && free == nt && t->v.size() == (1ull << nt))) {
        static std::map<std::vector<uint64_t>, unsigned> memo; std::vector<uint64_t> key{tab}; std::vector<E> ps;
        for (unsigned i = 0; i < idx->nk; i++) { E p = idx->k[i]; key.push_back(p->w); key.push_back(p->isC() ? p->aux : ~0ull); if (!p->isC()) ps.push_back(p); }
        auto it = memo.find(key); unsigned nt2;
        if (it == memo.end()) {
          std::vector<E> v;
          for (uint64_t j = 0; j < (1ull << free); j++) { uint64_t full = 0; unsigned left = free; for (unsigned i = 0; i < idx->nk; i++) { E p = idx->k[i]; uint64_t pv; if (p->isC()) pv = p->aux; else { left -= p->w; pv = (j >> left) & maskw(p->w); } full = (p->w >= 64 ? 0 : full << p->w) | pv; }
            v.push_back(full < t->v.size() ? t->v[full] : mkC(t->w, 0)); }
          nt2 = internTable(v); memo[key] = nt2;
        } else nt2 = it->second;
        if (nt2 != tab || ps.size() != idx->nk) return mkSelect(nt2, mkConcat(ps));
      } else return mkSelect(tab, mkExtract(idx, 0, nt));
    }
  }
  if (t->affine) {
    // T[i] = T[0] ^ xor_k bit_k(i) * (T[1<<k]^T[0]) : exact, expressed bit by bit
    unsigned nb = __builtin_ctzll(t->v.size()); uint64_t t0 = t->v[0]->aux; std::vector<E> bits;
    if (idx->w > nb && idx->umax >= t->v.size()) goto plain;
    for (int b = t->w - 1; b >= 0; b--) {
      std::vector<E> x; x.push_back(mkC(1, t0 >> b));
      for (unsigned k = 0; k < nb && k < idx->w; k++) if (((t->v[1ull << k]->aux ^ t0) >> b) & 1) x.push_back(mkExtract(idx, k, 1));
      // flatten: pieces may themselves be xors
      bits.push_back(mkNary(K_XOR, 1, x));
    }
    return mkConcat(bits);
  }
plain:
  { // shrink high zero bits of idx
    unsigned need = 0; while ((1ull << need) < t->v.size()) need++;
    if (idx->w > need && need > 0 && idx->umax < (1ull << need)) idx = mkExtract(idx, 0, need);
    if (idx->isC()) return mkSelect(tab, idx);
  }
  return in1(K_SELECT, t->w, tab, idx);
}

bool isRawSymBits(E e) {
  if (e->kind == K_SYM) return true;
  if (e->kind == K_EXTRACT) return e->k[0]->kind == K_SYM;
  if (e->kind == K_CONCAT) { for (unsigned i = 0; i < e->nk; i++) if (!isRawSymBits(e->k[i])) return false; return true; }
  return false;
}

static const BitSet g_emptyBS;
const BitSet *symsOf(E e) {
  if (e->syms) return e->syms;
  BitSet *r = new BitSet;
  if (e->kind == K_SYM) { for (int i = 0; i < 8; i++) r->set(e->aux * 8 + i); }
  else if (e->kind == K_EXTRACT && e->k[0]->kind == K_SYM) { for (unsigned i = 0; i < e->w; i++) r->set(e->k[0]->aux * 8 + e->aux + i); }
  else {
    for (unsigned i = 0; i < e->nk; i++) r->add(*symsOf(e->k[i]));
    if (e->kind == K_SELECT) for (E x : g_tables[e->aux]->v) if (!x->isC()) r->add(*symsOf(x));
  }
  // share when equal to a child's
  for (unsigned i = 0; i < e->nk; i++) if (symsOf(e->k[i])->w == r->w) { delete r; e->syms = symsOf(e->k[i]); return e->syms; }
  e->syms = r; return r;
}

static uint32_t g_gen = 1;
void evalNewGen() { g_gen++; }
static uint64_t evalRec(E e, Model &m) {
  if (e->isC()) return e->aux;
  if (e->evalGen == g_gen) return e->evalVal;
  uint64_t r = 0, M = maskw(e->w);
  switch (e->kind) {
  case K_SYM: r = m.get(e->aux); break;
  case K_CONCAT: for (unsigned i = 0; i < e->nk; i++) { r = e->k[i]->w >= 64 ? 0 : r << e->k[i]->w; r |= evalRec(e->k[i], m); } break;
  case K_EXTRACT: r = evalRec(e->k[0], m) >> e->aux; break;
  case K_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
  case K_AND: r = M; for (unsigned i = 0; i < e->nk; i++) { r &= evalRec(e->k[i], m); if (!r) break; } break;
  case K_OR: for (unsigned i = 0; i < e->nk; i++) { r |= evalRec(e->k[i], m); if (r == M) break; } break;
  case K_XOR: for (unsigned i = 0; i < e->nk; i++) r ^= evalRec(e->k[i], m); break;
  case K_SELECT: { uint64_t i = evalRec(e->k[0], m); Table *t = g_tables[e->aux]; r = i < t->v.size() ? evalRec(t->v[i], m) : 0; break; }
  case K_MULC: { uint64_t a = evalRec(e->k[0], m); if (m.exactMul) { r = a * e->aux; break; } auto key = std::make_pair(e->aux, a); auto it = m.uf.find(key); if (it == m.uf.end()) { r = a * e->aux; m.uf[key] = r; } else r = it->second; break; }
  default: {
    uint64_t a = evalRec(e->k[0], m), b = e->nk > 1 ? evalRec(e->k[1], m) : 0; unsigned w = e->k[0]->w;
    switch (e->kind) {
    case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break;
    case K_UDIV: r = b ? a / b : M; break; case K_UREM: r = b ? a % b : a; break;
    case K_SDIV: { int64_t x = sx_(a, w), y = sx_(b, w); r = y == 0 ? (x < 0 ? 1 : M) : y == -1 ? (uint64_t)-x : (uint64_t)(x / y); break; }
    case K_SREM: { int64_t x = sx_(a, w), y = sx_(b, w); r = y == 0 ? (uint64_t)x : y == -1 ? 0 : (uint64_t)(x % y); break; }
    case K_SHL: r = b >= w ? 0 : a << b; break; case K_LSHR: r = b >= w ? 0 : a >> b; break;
    case K_ASHR: { int64_t x = sx_(a, w); r = (uint64_t)(x >> (b >= w ? w - 1 : b)); break; }
    case K_SEXT: r = (uint64_t)sx_(a, w); break;
    case K_EQ: r = a == b; break; case K_ULT: r = a < b; break; case K_SLT: r = sx_(a, w) < sx_(b, w); break;
    default: abort();
    } }
  }
  r &= M; e->evalVal = r; e->evalGen = g_gen; return r;
}
uint64_t evalE(E e, Model &m) { return evalRec(e, m); }

static E rebuild(E e, const std::vector<E> &k) {
  switch (e->kind) {
  case K_CONCAT: return mkConcat(k);
  case K_EXTRACT: return mkExtract(k[0], e->aux, e->w);
  case K_ADD: return mkAdd(k[0], k[1]); case K_SUB: return mkSub(k[0], k[1]); case K_MUL: return mkMul(k[0], k[1]);
  case K_MULC: return mkMul(mkC(64, e->aux), k[0]);
  case K_UDIV: return mkUdiv(k[0], k[1]); case K_UREM: return mkUrem(k[0], k[1]); case K_SDIV: return mkSdiv(k[0], k[1]); case K_SREM: return mkSrem(k[0], k[1]);
  case K_AND: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkAnd(r, k[i]); return r; }
  case K_OR: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkOr(r, k[i]); return r; }
  case K_XOR: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkXor(r, k[i]); return r; }
  case K_SHL: return mkShl(k[0], k[1]); case K_LSHR: return mkLshr(k[0], k[1]); case K_ASHR: return mkAshr(k[0], k[1]);
  case K_SEXT: return mkSext(k[0], e->w);
  case K_EQ: return mkEq(k[0], k[1]); case K_ULT: return mkUlt(k[0], k[1]); case K_SLT: return mkSlt(k[0], k[1]);
  case K_ITE: return mkIte(k[0], k[1], k[2]);
  case K_SELECT: return mkSelect(e->aux, k[0]);
  default: return e;
  }
}
static E substRec(E e, const Facts &f, std::unordered_map<uint32_t, E> &memo) {
  if (e->isC() || !(e->bloom & f.bloom)) return e;
  if (e->kind == K_SYM) {
    auto it = f.m.find(e->aux); if (it == f.m.end() || !it->second.first) return e;
    uint8_t m = it->second.first, v = it->second.second; std::vector<E> p;
    for (int i = 7; i >= 0;) { bool kn = (m >> i) & 1; int j = i; while (j >= 0 && (((m >> j) & 1) != 0) == kn) j--; unsigned lo = j + 1, w = i - j; p.push_back(kn ? mkC(w, v >> lo) : mkExtract(e, lo, w)); i = j; }
    return mkConcat(p);
  }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  std::vector<E> k; bool ch = false;
  for (unsigned i = 0; i < e->nk; i++) { E x;
    if (e->kind == K_EXTRACT && e->k[0]->kind == K_SYM) x = substRec(e->k[i], f, memo); else x = substRec(e->k[i], f, memo);
    k.push_back(x); ch |= x != e->k[i]; }
  E r = ch ? rebuild(e, k) : e;
  memo[e->id] = r; return r;
}
static E replRec(E e, E from, E to, std::unordered_map<uint32_t, E> &memo) {
  if (e == from) return to; if (e->isC() || e->depth < from->depth) return e;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  std::vector<E> k; bool ch = false; for (unsigned i = 0; i < e->nk; i++) { E x = replRec(e->k[i], from, to, memo); k.push_back(x); ch |= x != e->k[i]; }
  E r = ch ? rebuild(e, k) : e; memo[e->id] = r; return r;
}
E replaceNode(E e, E from, E to) { std::unordered_map<uint32_t, E> memo; return replRec(e, from, to, memo); }
// an if-then-else reachable from e through address-like arithmetic
E findIte(E e, int d) {
  if (e->kind == K_ITE) return e; if (!d) return nullptr;
  switch (e->kind) { case K_ADD: case K_SUB: case K_CONCAT: case K_EXTRACT: case K_SHL: case K_MUL: case K_AND: case K_OR: for (unsigned i = 0; i < e->nk; i++) if (E r = findIte(e->k[i], d - 1)) return r; return nullptr; default: return nullptr; }
}
E substFacts(E e, const Facts &f) {
  if (e->isC() || !(e->bloom & f.bloom)) return e;
  std::unordered_map<uint32_t, E> memo; return substRec(e, f, memo);
}

std::string showE(E e, int d) {
  static const char *nm[] = {"const", "sym", "cat", "ext", "+", "-", "*", "mulc", "udiv", "urem", "sdiv", "srem", "&", "|", "^", "<<", ">>", "a>>", "sext", "==", "u<", "s<", "ite", "sel"};
  char b[64];
  if (e->isC()) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->aux, e->w); return b; }
  if (e->kind == K_SYM) { snprintf(b, 64, "s%llu", (unsigned long long)e->aux); return b; }
  if (d == 0) return "..";
  std::string s = "("; s += nm[e->kind]; if (e->kind == K_EXTRACT || e->kind == K_SELECT) { snprintf(b, 64, "[%llu,%d]", (unsigned long long)e->aux, e->w); s += b; }
  for (unsigned i = 0; i < e->nk && i < 12; i++) { s += " "; s += showE(e->k[i], d - 1); }
  return s + ")";
}
