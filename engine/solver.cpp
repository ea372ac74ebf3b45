#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <set>

SolverStats g_ss; double g_queryTimeout = 20;

static Z3_context C = nullptr; static bool g_exact = false;
static std::vector<Node *> g_exactNodes;   // asts created under exact multiplication (not memoised)
static void zinit() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, [](Z3_context, Z3_error_code) {});
}
void solverInterrupt() { if (C) Z3_interrupt(C); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast bv(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static std::unordered_map<uint32_t, Z3_ast> g_symAst;
static std::unordered_map<uint32_t, Z3_ast> g_exactMemo;

static Z3_ast tr(E e);
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, bv(1, 1), bv(1, 0)); }
static Z3_ast symAst(uint32_t id) {
  auto it = g_symAst.find(id); if (it != g_symAst.end()) return it->second;
  char nm[32]; snprintf(nm, 32, "s%u", id);
  Z3_ast a = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, 8))); g_symAst[id] = a; return a;
}
static Z3_ast selTree(Table *t, Z3_ast idx, unsigned iw, uint64_t lo, uint64_t n, unsigned bit) {
  // decision tree on index bits from 'bit' downwards; entries [lo, lo+2^(bit+1))
  (void)n;
  if (lo >= t->v.size()) return bv(t->w, 0);
  uint64_t cnt = 1ull << bit;
  bool same = true; for (uint64_t i = lo; i < lo + cnt && same; i++) { E x = i < t->v.size() ? t->v[i] : nullptr; E y = t->v[lo]; if (x != y && !(x == nullptr && y->isC() && y->aux == 0)) same = false; }
  if (same) return tr(t->v[lo]);
  Z3_ast b = Z3_mk_eq(C, Z3_mk_extract(C, bit - 1, bit - 1, idx), bv(1, 1));
  return Z3_mk_ite(C, b, selTree(t, idx, iw, lo + cnt / 2, n, bit - 1), selTree(t, idx, iw, lo, n, bit - 1));
}
static Z3_ast tr0(E e) {
  Z3_ast a[2];
  switch (e->kind) {
  case K_CONST: return bv(e->w, e->aux);
  case K_SYM: return symAst(e->aux);
  case K_CONCAT: { Z3_ast r = tr(e->k[0]); for (unsigned i = 1; i < e->nk; i++) r = Z3_mk_concat(C, r, tr(e->k[i])); return r; }
  case K_EXTRACT: return Z3_mk_extract(C, e->aux + e->w - 1, e->aux, tr(e->k[0]));
  case K_AND: { Z3_ast r = tr(e->k[0]); for (unsigned i = 1; i < e->nk; i++) r = Z3_mk_bvand(C, r, tr(e->k[i])); return r; }
  case K_OR: { Z3_ast r = tr(e->k[0]); for (unsigned i = 1; i < e->nk; i++) r = Z3_mk_bvor(C, r, tr(e->k[i])); return r; }
  case K_XOR: { Z3_ast r = tr(e->k[0]); for (unsigned i = 1; i < e->nk; i++) r = Z3_mk_bvxor(C, r, tr(e->k[i])); return r; }
  case K_ITE: return Z3_mk_ite(C, Z3_mk_eq(C, tr(e->k[0]), bv(1, 1)), tr(e->k[1]), tr(e->k[2]));
  case K_MULC: {
    if (g_exact) return Z3_mk_bvmul(C, tr(e->k[0]), bv(64, e->aux));
    char nm[40]; snprintf(nm, 40, "mulc_%u", e->id); return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, 64)); } // functional consistency is added per query
  case K_SELECT: {
    Table *t = g_tables[e->aux]; Z3_ast idx = tr(e->k[0]); unsigned iw = e->k[0]->w; unsigned need = 0; while ((1ull << need) < t->v.size()) need++;
    Z3_ast r;
    if (need > iw) need = iw;
    r = selTree(t, idx, iw, 0, t->v.size(), need);
    if (need < iw) { Z3_ast hiZ = Z3_mk_eq(C, Z3_mk_extract(C, iw - 1, need, idx), bv(iw - need, 0)); r = Z3_mk_ite(C, hiZ, r, bv(t->w, 0)); }
    return r; }
  case K_SEXT: return Z3_mk_sign_ext(C, e->w - e->k[0]->w, tr(e->k[0]));
  default: break;
  }
  a[0] = tr(e->k[0]); a[1] = tr(e->k[1]);
  switch (e->kind) {
  case K_ADD: return Z3_mk_bvadd(C, a[0], a[1]); case K_SUB: return Z3_mk_bvsub(C, a[0], a[1]); case K_MUL: return Z3_mk_bvmul(C, a[0], a[1]);
  case K_UDIV: return Z3_mk_bvudiv(C, a[0], a[1]); case K_UREM: return Z3_mk_bvurem(C, a[0], a[1]);
  case K_SDIV: return Z3_mk_bvsdiv(C, a[0], a[1]); case K_SREM: return Z3_mk_bvsrem(C, a[0], a[1]);
  case K_SHL: return Z3_mk_bvshl(C, a[0], a[1]); case K_LSHR: return Z3_mk_bvlshr(C, a[0], a[1]); case K_ASHR: return Z3_mk_bvashr(C, a[0], a[1]);
  case K_EQ: return b2v(Z3_mk_eq(C, a[0], a[1])); case K_ULT: return b2v(Z3_mk_bvult(C, a[0], a[1])); case K_SLT: return b2v(Z3_mk_bvslt(C, a[0], a[1]));
  default: abort();
  }
}
static Z3_ast tr(E e) {
  if (g_exact && e->hasMulc) {
    auto it = g_exactMemo.find(e->id); if (it != g_exactMemo.end()) return it->second;
    Z3_ast r = keep(tr0(e)); g_exactMemo[e->id] = r; return r;
  }
  if (e->ast) return (Z3_ast)e->ast;
  Z3_ast r = keep(tr0(e)); e->ast = r; return r;
}
static Z3_ast trBool(E e) {
  // avoid 1-bit ite noise at the top
  if (e->kind == K_EQ) return Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1]));
  if (e->kind == K_ULT) return Z3_mk_bvult(C, tr(e->k[0]), tr(e->k[1]));
  if (e->kind == K_SLT) return Z3_mk_bvslt(C, tr(e->k[0]), tr(e->k[1]));
  if (e->kind == K_XOR && e->nk == 2 && e->k[1]->isC()) return Z3_mk_not(C, trBool(e->k[0]));
  return Z3_mk_eq(C, tr(e), bv(1, 1));
}

static void collectMulc(E e, std::vector<E> &v, std::unordered_set<uint32_t> &seen) {
  if (!e->hasMulc || !seen.insert(e->id).second) return;
  if (e->kind == K_MULC) v.push_back(e);
  for (unsigned i = 0; i < e->nk; i++) collectMulc(e->k[i], v, seen);
  if (e->kind == K_SELECT) for (E x : g_tables[e->aux]->v) collectMulc(x, v, seen);
}

// XOR reasoning: collects the bit equations that are affine over symbol bits, row-reduces them, returns the reduced rows
static void affineRows(const std::vector<E> &cs, std::vector<E> &out, bool &contradiction) {
  std::vector<std::pair<std::map<uint32_t, E>, bool>> rows; contradiction = false;
  for (E e : cs) {
    bool neg = false; if (e->kind == K_XOR && e->nk == 2 && e->k[1]->isC() && e->w == 1) { neg = true; e = e->k[0]; }
    if (e->kind != K_EQ || (neg && e->k[0]->w != 1) || e->hasMulc) continue;
    for (unsigned p = 0; p < e->k[0]->w; p++) {
      E x = mkXor(mkExtract(e->k[0], p, 1), mkExtract(e->k[1], p, 1)); std::map<uint32_t, E> r; bool c = neg, ok = true;
      std::vector<E> st{x};
      while (!st.empty() && ok) { E q = st.back(); st.pop_back();
        if (q->isC()) c ^= q->aux & 1;
        else if (q->kind == K_XOR) for (unsigned i = 0; i < q->nk; i++) st.push_back(q->k[i]);
        else if (q->w == 1 && isRawSymBits(q)) { auto it = r.find(q->id); if (it != r.end()) r.erase(it); else r[q->id] = q; }
        else ok = false; }
      if (ok && rows.size() < 512) rows.push_back({r, c});
    }
  }
  if (rows.size() < 4) return;
  size_t done = 0;
  for (size_t i = 0; i < rows.size(); i++) {
    if (rows[i].first.empty()) { if (rows[i].second) contradiction = true; continue; }
    uint32_t pv = rows[i].first.begin()->first; auto pr = rows[i]; done++;
    for (size_t j = 0; j < rows.size(); j++) if (j != i && rows[j].first.count(pv)) {
      for (auto &t : pr.first) { auto it = rows[j].first.find(t.first); if (it != rows[j].first.end()) rows[j].first.erase(it); else rows[j].first.insert(t); }
      rows[j].second ^= pr.second;
    }
  }
  for (auto &r : rows) { if (r.first.empty()) { if (r.second) contradiction = true; continue; }
    E x = mkC(1, r.second); for (auto &t : r.first) x = mkXor(x, t.second); out.push_back(mkNot(x)); }
}
// raw solve of a conjunction; fills only symbols in 'bits'
static Res z3solve(const std::vector<E> &cs, bool exact, Model &out, BitSet &bits) {
  zinit(); g_exact = exact;
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3++;
  Z3_solver s = nullptr; Res res = R_UNKNOWN; Z3_model zm = nullptr;
  std::vector<Z3_ast> as; for (E e : cs) as.push_back(keep(trBool(e)));
  bits = BitSet(); for (E e : cs) bits.add(*symsOf(e));
  if (!exact) { // products are fresh values that agree whenever their operands agree
    std::vector<E> mu; std::unordered_set<uint32_t> seen; for (E e : cs) collectMulc(e, mu, seen);
    for (size_t i = 0; i < mu.size(); i++) for (size_t j = 0; j < i; j++) if (mu[i]->aux == mu[j]->aux) {
      E q = mkEq(mu[i]->k[0], mu[j]->k[0]); if (q->isC() && !q->aux) continue;
      as.push_back(keep(Z3_mk_implies(C, trBool(q), Z3_mk_eq(C, tr(mu[i]), tr(mu[j])))));
    }
  }
  for (int round = 0; round < 2 && res == R_UNKNOWN; round++) {
    double left = g_queryTimeout - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (left <= 0) break;
    unsigned ms = round == 0 ? 400 : (unsigned)(left * 1000);
    if (round == 1) {
      std::vector<E> extra; bool contra = false; affineRows(cs, extra, contra);
      if (contra) { res = R_UNSAT; break; }
      for (E e : extra) if (!e->isC()) as.push_back(keep(trBool(e)));
    }
    if (round == 0) s = Z3_mk_simple_solver(C); else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    for (auto a : as) Z3_solver_assert(C, s, a);
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE) { res = R_SAT; zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm); }
    else if (r == Z3_L_FALSE) res = R_UNSAT;
    if (res == R_SAT) {
      for (size_t w = 0; w < bits.w.size(); w++) for (int b8 = 0; b8 < 8; b8++) {
        uint8_t mk = bits.w[w] >> (b8 * 8); if (!mk) continue;
        uint32_t id = w * 8 + b8; Z3_ast v = nullptr; uint64_t val = 0;
        if (Z3_model_eval(C, zm, symAst(id), true, &v) && v) Z3_get_numeral_uint64(C, v, &val);
        if (out.v.size() <= id) out.v.resize(id + 1, 0);
        out.v[id] = (out.v[id] & ~mk) | (val & mk);
      }
      if (!exact) {
        std::vector<E> mu; std::unordered_set<uint32_t> seen; for (E e : cs) collectMulc(e, mu, seen);
        std::sort(mu.begin(), mu.end(), [](E a, E b) { return a->id < b->id; });
        if (!mu.empty()) {
          std::map<std::pair<uint64_t, uint64_t>, uint64_t> nu;
          for (E e : mu) { Z3_ast a1 = nullptr, v1 = nullptr; uint64_t av = 0, vv = 0;
            Z3_model_eval(C, zm, tr(e->k[0]), true, &a1); Z3_get_numeral_uint64(C, a1, &av); Z3_inc_ref(C, a1);
            Z3_model_eval(C, zm, tr(e), true, &v1); Z3_get_numeral_uint64(C, v1, &vv); Z3_dec_ref(C, a1);
            nu[{e->aux, av}] = vv; }
          for (auto &x : nu) out.uf[x.first] = x.second;
        }
      }
    }
    if (zm) { Z3_model_dec_ref(C, zm); zm = nullptr; }
    Z3_solver_dec_ref(C, s);
  }
  for (auto a : as) Z3_dec_ref(C, a);
  g_exact = false;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (dt > 2 && getenv("SXSLOW")) { for (size_t q = 0; q + 1 < cs.size(); q++) { E a = cs[q], b = cs.back(); auto st = [](E e) { while (e->kind == K_XOR) e = e->k[0]; return e; }; a = st(a); b = st(b); if (a->kind == K_EQ && b->kind == K_EQ && a->k[1]->w == b->k[1]->w && a->k[0] == b->k[0]) for (int z = 0; z < 2; z++) { E x = a->k[z], y = b->k[z]; fprintf(stderr, "side %d same=%d\n", z, x == y); if (x != y) for (unsigned p = 0; p < x->w; p++) { E xx = mkExtract(x, p, 1), yy = mkExtract(y, p, 1); if (xx != yy) { fprintf(stderr, "bit %u:\n  %s\n  %s\n", p, showE(xx, 12).c_str(), showE(yy, 12).c_str()); E d = mkXor(xx, yy); fprintf(stderr, "  diff %s\n", showE(d, 14).c_str()); break; } } } } fprintf(stderr, "[slow %.1fs res=%d n=%zu] last: %s\n", dt, (int)res, cs.size(), showE(cs.back(), 9).c_str()); for (size_t i = 0; i + 1 < cs.size(); i++) fprintf(stderr, "   c: %s\n", showE(cs[i], 5).substr(0, 300).c_str()); }
  if (getenv("SXQ")) fprintf(stderr, "[q %d %.4f n=%zu] %s\n", (int)res, dt, cs.size(), showE(cs.back(), 5).substr(0, 200).c_str());
  if (res == R_SAT) g_ss.sat++; else if (res == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return res;
}

static uint64_t evalM(E e, Model &m) { evalNewGen(); return evalE(e, m); }

static void setRaw(E raw, uint64_t val, Model &m) { // raw: concat of symbol bits
  if (raw->kind == K_CONCAT) { unsigned pos = raw->w; for (unsigned i = 0; i < raw->nk; i++) { pos -= raw->k[i]->w; setRaw(raw->k[i], (val >> pos) & maskw(raw->k[i]->w), m); } return; }
  uint32_t id; unsigned lo = 0, w = raw->w;
  if (raw->kind == K_SYM) id = raw->aux; else { id = raw->k[0]->aux; lo = raw->aux; }
  if (m.v.size() <= id) m.v.resize(id + 1, 0);
  uint8_t mk = (uint8_t)(maskw(w) << lo); m.v[id] = (m.v[id] & ~mk) | ((val << lo) & mk);
}
static bool distinctRaw(E raw) { // no symbol bit occurs twice
  const BitSet *b = symsOf(raw); unsigned n = 0; for (auto x : b->w) n += __builtin_popcountll(x); return n == raw->w;
}
// is e of the form raw == rhs (or its negation) with independent raw bits?
static bool defForm(E e, bool &neg, E &raw, E &rhs) {
  neg = false;
  if (e->kind == K_XOR && e->nk == 2 && e->k[1]->isC()) { neg = true; e = e->k[0]; }
  if (e->kind != K_EQ) return false;
  for (int s = 0; s < 2; s++) {
    E a = e->k[s], b = e->k[1 - s];
    if (!b->isC() && isRawSymBits(a) && !symsOf(a)->intersects(*symsOf(b)) && distinctRaw(a) && !b->hasMulc) { raw = a; rhs = b; return true; }
  }
  return false;
}
static void fixDefs(const PathCons &pc, Model &m) {
  for (auto &c : pc.cons) if (c.def) {
    uint64_t v = evalM(c.rhs, m), r = evalM(c.raw, m);
    if (!c.neg) { if (r != v) setRaw(c.raw, v, m); }
    else if (r == v) setRaw(c.raw, v ^ 1, m);
  }
}
bool checkModel(const PathCons &pc, Model &m) { for (auto &c : pc.cons) if (!evalM(c.e, m)) return false; return true; }

struct CacheEnt { std::vector<uint32_t> key; Res r; Model m; BitSet bits; };
static std::unordered_map<size_t, std::vector<CacheEnt>> g_cache;
static std::vector<std::pair<Model, BitSet>> g_recent; static size_t g_recentPos = 0;

static void mergeBits(Model &out, const Model &from, const BitSet &bits) {
  for (size_t w = 0; w < bits.w.size(); w++) if (bits.w[w]) for (int b8 = 0; b8 < 8; b8++) {
    uint8_t mk = bits.w[w] >> (b8 * 8); if (!mk) continue;
    uint32_t id = w * 8 + b8; if (out.v.size() <= id) out.v.resize(id + 1, 0);
    out.v[id] = (out.v[id] & ~mk) | (from.get(id) & mk);
  }
}

bool checkModel(const PathCons &pc, Model &m);
Res solverCheck(const PathCons &pc, E c, const Model &m, Model &out) {
  if (c->isC()) { if (c->aux) { out = m; return R_SAT; } return R_UNSAT; }
  g_ss.queries++;
  { Model t = m; if (evalM(c, t)) { out = m; out.uf = t.uf; return R_SAT; } }
  // syntactic knowledge
  { auto it = pc.known.find(c->id); if (it != pc.known.end()) { if (!it->second) { g_ss.unsat++; return R_UNSAT; } } }
  // definitional shortcut
  { bool neg; E raw, rhs; if (defForm(c, neg, raw, rhs) && !symsOf(raw)->intersects(pc.used)) {
      out = m; uint64_t v = evalM(rhs, out); setRaw(raw, neg ? v ^ 1 : v, out); g_ss.defHits++; fixDefs(pc, out); return R_SAT; } }
  // products are unconstrained values: try to choose the one that decides c
  if (c->hasMulc) {
    E q = c; bool neg = false; if (q->kind == K_XOR && q->nk == 2 && q->k[1]->isC()) { neg = true; q = q->k[0]; }
    if (q->kind == K_EQ) for (int s = 0; s < 2; s++) {
      E a = q->k[s], b = q->k[1 - s]; unsigned lo = 0, w = a->w; E mu = a; if (a->kind == K_EXTRACT) { mu = a->k[0]; lo = a->aux; }
      if (mu->kind != K_MULC) continue;
      Model t = m; evalNewGen(); uint64_t x = evalE(mu->k[0], t), bv_ = evalE(b, t), old = evalE(mu, t), mk = maskw(w) << lo;
      for (unsigned k = 0; k < (neg ? 3u : 1u); k++) {
        Model u = t; uint64_t want = neg ? bv_ ^ (1ull << (w - 1 - k)) : bv_; u.uf[{mu->aux, x}] = (old & ~mk) | ((want << lo) & mk);
        if (evalM(c, u) && checkModel(pc, u)) { g_ss.modelHits++; out = u; return R_SAT; }
      }
    }
  }
  // slice
  std::vector<E> cs; BitSet cl = *symsOf(c); std::vector<char> in(pc.cons.size(), 0); bool mul = c->hasMulc;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.cons.size(); i++) if (!in[i]) {
      const Con &k = pc.cons[i];
      // abstracted products are linked through functional consistency: keep them together
      bool hit = k.def ? symsOf(k.raw)->intersects(cl) : (symsOf(k.e)->intersects(cl) || (mul && k.e->hasMulc));
      if (hit) { in[i] = 1; cl.add(*symsOf(k.e)); mul |= k.e->hasMulc; ch = true; }
    }
  }
  for (size_t i = 0; i < pc.cons.size(); i++) if (in[i]) cs.push_back(pc.cons[i].e);
  cs.push_back(c);
  std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  size_t h = 1469598103934665603ull; for (auto k : key) { h ^= k; h *= 1099511628211ull; }
  for (auto &ce : g_cache[h]) if (ce.key == key) {
    g_ss.cacheHits++;
    if (ce.r == R_SAT) { out = m; mergeBits(out, ce.m, ce.bits); for (auto &u : ce.m.uf) out.uf[u.first] = u.second; fixDefs(pc, out); }
    return ce.r;
  }
  // recent models
  if (!mul) for (auto &rm : g_recent) {
    Model t = m; mergeBits(t, rm.first, cl); bool ok = true; evalNewGen();
    for (size_t i = cs.size(); i-- > 0 && ok;) ok = evalE(cs[i], t);
    if (ok) { g_ss.modelHits++; out = t; fixDefs(pc, out); return R_SAT; }
  }
  CacheEnt ce; ce.key = key; ce.m = m; ce.m.uf.clear();
  ce.r = z3solve(cs, false, ce.m, ce.bits);
  if (ce.r == R_SAT) {
    out = m; mergeBits(out, ce.m, ce.bits); for (auto &u : ce.m.uf) out.uf[u.first] = u.second; fixDefs(pc, out);
    if (g_recent.size() < 6) g_recent.push_back({ce.m, ce.bits}); else { g_recent[g_recentPos] = {ce.m, ce.bits}; g_recentPos = (g_recentPos + 1) % 6; }
  }
  Res r = ce.r; if (r != R_UNKNOWN) { if (g_cache.size() > 400000) g_cache.clear(); g_cache[h].push_back(std::move(ce)); }
  return r;
}

static void addFact(PathCons &pc, uint32_t id, uint8_t mask, uint8_t val) {
  auto &f = pc.facts.m[id]; f.second = (f.second & ~mask) | (val & mask); f.first |= mask; pc.facts.bloom |= 1ull << (id & 63);
}
static void factEq(PathCons &pc, E a, uint64_t v) {
  if (a->kind == K_CONCAT) { unsigned pos = a->w; for (unsigned i = 0; i < a->nk; i++) { pos -= a->k[i]->w; factEq(pc, a->k[i], (v >> pos) & maskw(a->k[i]->w)); } return; }
  if (a->kind == K_SYM) addFact(pc, a->aux, 0xff, v);
  else if (a->kind == K_EXTRACT && a->k[0]->kind == K_SYM) addFact(pc, a->k[0]->aux, (uint8_t)(maskw(a->w) << a->aux), (uint8_t)(v << a->aux));
  else if (a->kind == K_XOR && a->nk == 2 && a->k[1]->isC()) factEq(pc, a->k[0], v ^ a->k[1]->aux);
}
static void noteKnown(PathCons &pc, E c, bool v) {
  pc.known[c->id] = v;
  E n = mkNot(c); pc.known[n->id] = !v;
  if (v) {
    if (c->kind == K_AND) { for (unsigned i = 0; i < c->nk; i++) noteKnown(pc, c->k[i], true); return; }
    if (c->kind == K_XOR && c->nk == 2 && c->k[1]->isC()) { if (c->k[0]->kind == K_OR) { for (unsigned i = 0; i < c->k[0]->nk; i++) noteKnown(pc, c->k[0]->k[i], false); } else if (c->k[0]->w == 1) { factEq(pc, c->k[0], 0); } return; }
    if (c->kind == K_EQ && c->k[1]->isC()) factEq(pc, c->k[0], c->k[1]->aux);
    else if (c->kind == K_EQ && c->k[0]->isC()) factEq(pc, c->k[1], c->k[0]->aux);
    else factEq(pc, c, 1);
  } else {
    if (c->kind == K_OR) for (unsigned i = 0; i < c->nk; i++) noteKnown(pc, c->k[i], false);
    else if (c->kind == K_SYM || c->kind == K_EXTRACT) factEq(pc, c, 0);
  }
}
void pathAdd(PathCons &pc, E c) {
  if (c->isC()) return;
  if (c->kind == K_AND && !(c->nk == 0)) { for (unsigned i = 0; i < c->nk; i++) pathAdd(pc, c->k[i]); return; }
  auto it = pc.known.find(c->id); if (it != pc.known.end() && it->second) return;
  Con k; k.e = c;
  const BitSet *s = symsOf(c);
  bool neg; E raw, rhs;
  if (defForm(c, neg, raw, rhs) && !symsOf(raw)->intersects(pc.used)) { k.def = true; k.neg = neg; k.raw = raw; k.rhs = rhs; }
  for (auto &o : pc.cons) if (o.def && symsOf(o.raw)->intersects(*s)) o.def = false;
  pc.used.add(*s);
  pc.cons.push_back(k);
  noteKnown(pc, c, true);
}

Res solverExact(const PathCons &pc, E extra, Model &m) {
  bool mul = false; for (auto &c : pc.cons) mul |= c.e->hasMulc; if (extra) mul |= extra->hasMulc;
  if (!mul) return R_SAT;
  Model t = m; t.uf.clear(); t.exactMul = true;
  bool ok = true; for (auto &c : pc.cons) if (!evalM(c.e, t)) { ok = false; break; }
  if (ok && (!extra || evalM(extra, t))) { m = t; return R_SAT; }
  g_ss.refined++;
  std::vector<E> cs; for (auto &c : pc.cons) cs.push_back(c.e); if (extra) cs.push_back(extra);
  BitSet bits; Model o = m; o.uf.clear(); o.exactMul = true;
  Res r = z3solve(cs, true, o, bits); if (r == R_SAT) m = o; return r;
}
