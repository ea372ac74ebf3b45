// Hash-consed bit-vector expressions (width 1..64) in a "concat of slices" normal form.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <memory>

enum Kind : uint8_t {
  K_CONST, K_SYM, K_CONCAT, K_EXTRACT, K_ADD, K_SUB, K_MUL, K_MULC, K_UDIV, K_UREM, K_SDIV, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_SEXT, K_EQ, K_ULT, K_SLT, K_ITE, K_SELECT
};

struct Node;
typedef const Node *E;

struct BitSet {                // set of symbol bits
  std::vector<uint64_t> w;
  bool intersects(const BitSet &o) const {
    size_t n = w.size() < o.w.size() ? w.size() : o.w.size();
    for (size_t i = 0; i < n; i++) if (w[i] & o.w[i]) return true;
    return false;
  }
  void add(const BitSet &o) {
    if (o.w.size() > w.size()) w.resize(o.w.size(), 0);
    for (size_t i = 0; i < o.w.size(); i++) w[i] |= o.w[i];
  }
  void set(size_t b) { if (w.size() <= b / 64) w.resize(b / 64 + 1, 0); w[b / 64] |= 1ull << (b % 64); }
  bool empty() const { for (auto x : w) if (x) return false; return true; }
};

struct Node {
  Kind kind; uint8_t w; bool hasMulc;
  uint32_t id;
  uint64_t aux;                 // const value / symbol id / extract lo / table id / mulc constant
  uint32_t nk; E *k;
  uint64_t zeros, ones;         // known bits
  uint64_t umin, umax;
  uint64_t bloom;               // symbols, hashed
  size_t hash;
  uint32_t depth;
  // scratch
  mutable uint64_t evalVal; mutable uint32_t evalGen;
  mutable void *ast;            // z3 ast
  mutable const BitSet *syms;
  bool isC() const { return kind == K_CONST; }
};

struct Table { std::vector<E> v; bool allConst; bool affine; uint8_t w; };
extern std::vector<Table *> g_tables;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

E mkC(unsigned w, uint64_t v);
E mkSym(uint32_t id);                       // 8-bit symbol
E mkConcat(const std::vector<E> &hi2lo);
E mkConcat2(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUdiv(E a, E b); E mkUrem(E a, E b); E mkSdiv(E a, E b); E mkSrem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLshr(E a, E b); E mkAshr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkIte(E c, E a, E b);
E mkSelect(unsigned tab, E idx);
unsigned internTable(const std::vector<E> &v);
bool isRawSymBits(E e);                      // concat / extract / sym only, no constants

const BitSet *symsOf(E e);

struct Model {
  std::vector<uint8_t> v;                    // symbol -> byte
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> uf;  // (constant,arg) -> value of the abstracted product
  bool exactMul = false;
  uint8_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
};
uint64_t evalE(E e, Model &m);               // uses/increments a generation per Model object use
void evalNewGen();
bool tabulate(E e, unsigned maxBits, std::vector<E> &bits, std::vector<uint64_t> &vals);

struct Facts { // known bits of symbols
  std::map<uint32_t, std::pair<uint8_t, uint8_t>> m; // id -> mask,val
  uint64_t bloom = 0;
};
E substFacts(E e, const Facts &f);
E replaceNode(E e, E from, E to);
E findIte(E e, int depth);
std::string showE(E e, int depth = 6);
size_t exprCount();
