#include <sys/prctl.h>
#include <signal.h>
#include <atomic>
#include <thread>
// Symbolic executor for LLVM IR (see DESIGN.md).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <thread>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <sstream>
using namespace llvm;

typedef uint64_t u64; typedef int64_t i64;
struct V { E e; u64 c; };
static inline V VC(u64 c) { return V{nullptr, c}; }
static inline V VE(E e) { if (e->isC()) return V{nullptr, e->aux}; return V{e, 0}; }
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }
static inline i64 sxt(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

struct Unsupported { std::string what; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

// ------------------------------------------------------------------ options
static std::string o_out = "."; static double o_time = 600; static int o_jobs = 1; static u64 o_maxInst = 20000000; static u64 o_maxSamples = 64;
static std::map<std::string, u64> o_params; static int o_split = 64; static int o_maxViol = 4; static bool o_verbose = false; static std::string o_tag = "run"; static u64 o_maxPreempt = 2; static u64 o_maxPaths = ~0ull; static u64 o_seed = 1; static bool o_trace = false;

// ------------------------------------------------------------------ lowered code
enum IOp : uint8_t { I_BIN, I_ICMP, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_CALL, I_RET, I_UNREACH, I_LANDINGPAD, I_RESUME, I_ATOMICRMW, I_CMPXCHG, I_UNSUP, I_NOP, I_GATHER, I_INSDYN, I_EXTDYN };
struct Flat { unsigned w; unsigned off; };
typedef std::vector<Flat> FlatT;
struct Fn;
struct Inst {
  IOp op; unsigned sub = 0, w = 0, w2 = 0, n = 1; int dst = -1;
  std::vector<int> a;
  const FlatT *ft = nullptr; i64 imm = 0; std::vector<i64> scale; std::vector<unsigned> ws;
  std::vector<std::pair<u64, int>> cases; int t0 = -1, t1 = -1; // branch targets (block index)
  Function *callee = nullptr; int builtin = -1; bool isInvoke = false; std::vector<int> argN; std::vector<u64> byval;
  const Instruction *src = nullptr;
};
struct PhiMove { int dst; int src; };
struct Block { std::vector<Inst> ins; std::map<int, std::vector<PhiMove>> phi; };
struct Fn { Function *f; std::vector<Block> blk; int nslots = 0; std::vector<V> consts; std::vector<int> argSlot; bool lowered = false; std::string name; bool noreturnHook = false; };

static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout *g_dl;
static std::unordered_map<const Function *, Fn *> g_fns; static std::vector<Function *> g_fnTab; static std::unordered_map<const Function *, u64> g_fnAddr;
static std::unordered_map<const GlobalVariable *, u64> g_gvAddr;
static const u64 BASEOFF = 0x10000; static const u64 FNID = 1ull << 20;
static std::set<std::string> g_funcsSeen;

static unsigned tw(Type *t) {
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) unsup("integer wider than 64 bits"); return t->getIntegerBitWidth(); }
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16;
  std::string s; raw_string_ostream os(s); t->print(os); unsup("type " + os.str());
}
static std::unordered_map<Type *, FlatT *> g_flat;
static void flatRec(Type *t, unsigned off, FlatT &o) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = g_dl->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatRec(s->getElementType(i), off + sl->getElementOffset(i), o); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = g_dl->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatRec(a->getElementType(), off + i * es, o); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = tw(v->getElementType()); if (ew % 8) { for (unsigned i = 0; i < v->getNumElements(); i++) o.push_back({ew, off + 100000u + i}); return; }
    for (unsigned i = 0; i < v->getNumElements(); i++) o.push_back({ew, off + i * ew / 8}); }
  else if (t->isIntegerTy() && t->getIntegerBitWidth() == 128) { o.push_back({64, off}); o.push_back({64, off + 8}); }
  else if (t->isVoidTy()) {}
  else o.push_back({tw(t), off});
}
static const FlatT *flat(Type *t) { auto it = g_flat.find(t); if (it != g_flat.end()) return it->second; auto *f = new FlatT; flatRec(t, 0, *f); g_flat[t] = f; return f; }
static unsigned nslots(Type *t) { return flat(t)->size(); }

// ------------------------------------------------------------------ memory
static const unsigned PG = 256;
struct Page { int ref = 1; uint8_t b[PG]; E *s = nullptr; ~Page() { delete[] s; } };
struct PageP { Page *p = nullptr; PageP() {} PageP(const PageP &o) : p(o.p) { if (p) p->ref++; } PageP(PageP &&o) : p(o.p) { o.p = nullptr; } PageP &operator=(PageP o) { std::swap(p, o.p); return *this; } ~PageP() { if (p && --p->ref == 0) delete p; } };
struct LogE { E off; unsigned n; E val; };
enum OKind : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_EXC, O_NEW, O_NEWA };
struct Obj {
  int ref = 1; u64 size = 0; OKind kind = O_GLOBAL; bool alive = true, ro = false; E fill = nullptr; uint8_t fillc = 0; std::vector<PageP> pg; std::vector<LogE> log; std::string name;
};
struct ObjP { Obj *p = nullptr; ObjP() {} ObjP(const ObjP &o) : p(o.p) { if (p) p->ref++; } ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; } ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; } ~ObjP() { if (p && --p->ref == 0) delete p; } };

static Page *newPage(const Obj *o) { Page *p = new Page; memset(p->b, o->fillc, PG); if (o->fill) { p->s = new E[PG]; for (unsigned i = 0; i < PG; i++) p->s[i] = o->fill; } return p; }
static Page *wpage(Obj *o, u64 pi) {
  PageP &pp = o->pg[pi];
  if (!pp.p) { pp.p = newPage(o); return pp.p; }
  if (pp.p->ref > 1) { Page *n = new Page; memcpy(n->b, pp.p->b, PG); if (pp.p->s) { n->s = new E[PG]; memcpy(n->s, pp.p->s, sizeof(E) * PG); } pp.p->ref--; pp.p = n; }
  return pp.p;
}
static inline void putc8(Obj *o, u64 off, uint8_t v) { Page *p = wpage(o, off / PG); p->b[off % PG] = v; if (p->s) p->s[off % PG] = nullptr; }
static inline void pute8(Obj *o, u64 off, E e) { if (e->isC()) { putc8(o, off, e->aux); return; } Page *p = wpage(o, off / PG); if (!p->s) { p->s = new E[PG]; memset(p->s, 0, sizeof(E) * PG); } p->s[off % PG] = e; }
static inline bool get8(const Obj *o, u64 off, uint8_t &c, E &e) { // true if concrete
  const Page *p = o->pg[off / PG].p; if (!p) { c = o->fillc; e = o->fill; return !e; }
  if (p->s && p->s[off % PG]) { e = p->s[off % PG]; return false; } c = p->b[off % PG]; e = nullptr; return true;
}
static V rawLoad(const Obj *o, u64 off, unsigned n) {
  u64 r = 0; const Page *p = o->pg[off / PG].p;
  if (p && !p->s && off % PG + n <= PG) { memcpy(&r, p->b + off % PG, n); return VC(r); }
  E es[8]; uint8_t cs[8]; bool all = true;
  for (unsigned i = 0; i < n; i++) { if (!get8(o, off + i, cs[i], es[i])) all = false; else r |= (u64)cs[i] << (8 * i); }
  if (all) return VC(r);
  std::vector<E> v; for (unsigned i = n; i-- > 0;) v.push_back(es[i] ? es[i] : mkC(8, cs[i]));
  return VE(mkConcat(v));
}
static void rawStore(Obj *o, u64 off, unsigned n, const V &v) {
  if (!v.e) {
    if (off % PG + n <= PG) { Page *p = wpage(o, off / PG); memcpy(p->b + off % PG, &v.c, n); if (p->s) for (unsigned i = 0; i < n; i++) p->s[off % PG + i] = nullptr; }
    else for (unsigned i = 0; i < n; i++) putc8(o, off + i, v.c >> (8 * i));
    return;
  }
  for (unsigned i = 0; i < n; i++) pute8(o, off + i, mkExtract(v.e, 8 * i, 8));
}

// ------------------------------------------------------------------ state
struct Frame { Fn *fn; int blk = 0, ip = 0, prev = -1; std::vector<V> s; std::vector<uint32_t> allocas; int retDst = -1; bool invoke = false; int invN = -1, invU = -1; unsigned retN = 0; bool isThreadRoot = false; };
enum TSt : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thr { std::vector<Frame> fr; TSt st = T_RUN; u64 wait = 0, wait2 = 0; u64 excPtr = 0; std::vector<u64> caught; u64 pthreadId = 0; int norace = 0; bool detached = false; u64 retv = 0; };
struct RecE { std::string name; uint32_t first, n; int fixed = -1; };
struct ObsE { std::string name; E e; u64 c; unsigned w; };
// happens-before tracking (data races): vector clocks per thread, mutex and atomic object; last accesses per byte
static const int MAXT = 8;
struct VClk { uint32_t c[MAXT] = {0}; void join(const VClk &o) { for (int i = 0; i < MAXT; i++) c[i] = std::max(c[i], o.c[i]); } };
struct RCell { uint8_t wt = 255; bool wa = false; uint8_t ra = 0; uint32_t wc = 0; uint32_t rc[MAXT] = {0}; };
typedef std::unordered_map<uint32_t, RCell> RMap;
struct State {
  std::vector<VClk> tvc; std::map<u64, VClk> svc; std::map<u64, std::shared_ptr<RMap>> shadow; unsigned spur = 0; bool pendSched = false;
  std::vector<ObjP> objs; std::vector<Thr> th; int cur = 0; PathCons pc; Model m;
  std::vector<RecE> rec; std::vector<ObsE> obs; std::map<u64, u64> excT, excD; std::set<u64> excRe; // exception object -> typeinfo address
  std::map<u64, u64> mutexOwner; // address -> thread+1
  u64 nsym = 0, ninst = 0; std::vector<std::pair<u64, uint64_t>> misc; u64 leakBase = 0; bool leakOn = false; E mfill = nullptr; uint8_t mfillc = 0xa5; unsigned preempt = 0; unsigned nfork = 0; u64 failAlloc = 0; u64 nAlloc = 0; std::string forkLog; std::vector<std::string> fillName;
};
typedef State *SP;

// ------------------------------------------------------------------ global stats
struct Stats {
  u64 paths = 0, ok = 0, infeasible = 0, viol = 0, incomplete = 0, forks = 0, inst = 0, asserts = 0, assertSolver = 0, memChecks = 0, memSolver = 0, schedChoices = 0, truncated = 0, steps = 0;
  std::map<std::string, u64> reach, reasons, ends; std::vector<std::string> violFiles, sampleFiles; std::map<std::string, int> violLoc;
};
static Stats g_st; static auto g_t0 = std::chrono::steady_clock::now(); static int g_worker = 0; static u64 g_fileNo = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static std::vector<SP> g_work;      // DFS stack
struct EndPath { std::string why; };

static std::string locOf(const Instruction *i) {
  if (!i) return "?"; std::string s;
  if (auto &dl = i->getDebugLoc()) { s = (dl->getFilename() + ":" + Twine(dl.getLine())).str(); } else s = i->getFunction()->getName().str();
  return s;
}
static std::string g_curLoc(State &S) {
  auto &T = S.th[S.cur]; std::string r; int n = 0;
  for (size_t k = T.fr.size(); k-- > 0 && n < 6; n++) { Frame &f = T.fr[k]; auto &bi = f.fn->blk[f.blk].ins; int ip = k + 1 == T.fr.size() ? f.ip : f.ip - 1; if (ip < 0) ip = 0; if (ip >= (int)bi.size()) ip = bi.size() - 1; std::string l = ip >= 0 && bi.size() ? locOf(bi[ip].src) : f.fn->name; if (!r.empty()) r += " < "; r += l; }
  return r;
}
static void writeReplay(State &S, Model &m, const std::string &fn, const std::string &kind, const std::string &msg) {
  FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  std::string mm = msg; for (auto &c : mm) if (c == '\n') c = ' ';
  fprintf(f, "# %s: %s\n", kind.c_str(), mm.c_str());
  for (auto &p : o_params) fprintf(f, "param %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  for (auto &r : S.rec) { fprintf(f, "sym %s %u ", r.name.c_str(), r.n); for (uint32_t i = 0; i < r.n; i++) fprintf(f, "%02x", r.fixed >= 0 ? r.fixed : m.get(r.first + i)); if (!r.n) fprintf(f, "-"); fprintf(f, "\n"); }
  for (auto &o : S.obs) { evalNewGen(); u64 v = o.e ? evalE(o.e, m) : o.c; fprintf(f, "obs %s %llx\n", o.name.c_str(), (unsigned long long)v); }
  fprintf(f, "end %s\n", kind.c_str()); fclose(f);
}
static void reportViolation(State &S, const PathCons &pc, E extra, Model m, const std::string &kind, const std::string &msg) {
  std::string loc = g_curLoc(S); std::string key = kind + "|" + msg + "|" + loc.substr(0, loc.find(" < "));
  int &cnt = g_st.violLoc[key]; cnt++; g_st.viol++;
  if (cnt > o_maxViol) return;
  Res r = solverExact(pc, extra, m);
  if (r != R_SAT) { g_st.viol--; cnt--; if (r == R_UNKNOWN) { g_st.incomplete++; g_st.reasons["exact multiplication query undecided"]++; } return; }
  char b[600]; snprintf(b, 600, "%s/viol_%s_%d_%llu.rep", o_out.c_str(), o_tag.c_str(), g_worker, (unsigned long long)g_fileNo++);
  writeReplay(S, m, b, kind, msg + " @ " + loc); g_st.violFiles.push_back(b);
  if (o_verbose) fprintf(stderr, "[viol] %s: %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str());
}
static void violModel(State &S, const std::string &kind, const std::string &msg) { reportViolation(S, S.pc, nullptr, S.m, kind, msg); }
[[noreturn]] static void fatalViol(State &S, const std::string &kind, const std::string &msg) { violModel(S, kind, msg); throw EndPath{"violation"}; }

// ------------------------------------------------------------------ lowering
struct Lower {
  Fn *F; std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bix; std::unordered_map<const Constant *, int> cix;
  void constSlots(const Constant *c, std::vector<V> &o);
  int val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cix.find(c); if (it != cix.end()) return it->second; std::vector<V> o; constSlots(c, o); int st = F->consts.size(); // slots are laid out so that element k of constant at index r is r - k
      for (auto &x : o) F->consts.push_back(x); int r = -1 - st; cix[c] = r; return r; }
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    unsup("operand");
  }
  void lowerInst(const Instruction &I, std::vector<Inst> &out);
};
static inline const V &rd(const Frame &f, int ix, unsigned k = 0) { return ix >= 0 ? f.s[ix + k] : f.fn->consts[-1 - ix + k]; }

static u64 gvAddr(const GlobalVariable *g) { return g_gvAddr.at(g); }
static u64 fnAddr(const Function *f) { auto it = g_fnAddr.find(f); if (it != g_fnAddr.end()) return it->second; u64 a = ((FNID + g_fnTab.size()) << 40); g_fnTab.push_back(const_cast<Function *>(f)); g_fnAddr[f] = a; return a; }
static u64 constScalar(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) unsup("wide constant"); return i->getZExtValue(); }
  if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalVariable>(c)) return gvAddr(g);
  if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*g_dl, off)) unsup("gep const"); return constScalar(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { u64 v = constScalar(ce->getOperand(0)); return v & maskw(tw(ce->getType())); }
    case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(tw(ce->getType()));
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(tw(ce->getType()));
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(tw(ce->getType()));
    case Instruction::Xor: return (constScalar(ce->getOperand(0)) ^ constScalar(ce->getOperand(1))) & maskw(tw(ce->getType()));
    default: unsup(std::string("constexpr ") + ce->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsup("constant " + os.str());
}
static void constFlat(const Constant *c, std::vector<V> &o) {
  Type *t = c->getType();
  if (t->isIntegerTy() && t->getIntegerBitWidth() == 128) { if (auto *ci = dyn_cast<ConstantInt>(c)) { o.push_back(VC(ci->getValue().extractBitsAsZExtValue(64, 0))); o.push_back(VC(ci->getValue().extractBitsAsZExtValue(64, 64))); } else { o.push_back(VC(0)); o.push_back(VC(0)); } return; }
  if (t->isAggregateType() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) unsup("aggregate constant"); constFlat(e, o); }
    return;
  }
  if (t->isMetadataTy() || t->isTokenTy()) { o.push_back(VC(0)); return; }
  o.push_back(VC(constScalar(c)));
}
void Lower::constSlots(const Constant *c, std::vector<V> &o) { constFlat(c, o); }

static int builtinId(const std::string &n, const Function *f);
static Inst mk(IOp op, const Instruction &I) { Inst i; i.op = op; i.src = &I; return i; }
static unsigned aggOffset(Type *t, ArrayRef<unsigned> ix) { // slot offset
  unsigned off = 0;
  for (unsigned k : ix) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += nslots(s->getElementType(j)); t = s->getElementType(k); } else { auto *a = cast<ArrayType>(t); off += k * nslots(a->getElementType()); t = a->getElementType(); } }
  return off;
}
void Lower::lowerInst(const Instruction &I, std::vector<Inst> &out) {
  int dst = I.getType()->isVoidTy() ? -1 : slot.count(&I) ? slot[&I] : -1;
  auto T = I.getType();
  switch (I.getOpcode()) {
  case Instruction::PHI: return;
  case Instruction::Ret: { Inst i = mk(I_RET, I); if (auto *v = cast<ReturnInst>(I).getReturnValue()) { i.a.push_back(val(v)); i.n = nslots(v->getType()); } else i.n = 0; out.push_back(i); return; }
  case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { Inst i = mk(I_BR, I); i.t0 = bix[b.getSuccessor(0)]; out.push_back(i); } else { Inst i = mk(I_CONDBR, I); i.a.push_back(val(b.getCondition())); i.t0 = bix[b.getSuccessor(0)]; i.t1 = bix[b.getSuccessor(1)]; out.push_back(i); } return; }
  case Instruction::Switch: { auto &s = cast<SwitchInst>(I); Inst i = mk(I_SWITCH, I); i.a.push_back(val(s.getCondition())); i.w = tw(s.getCondition()->getType()); i.t0 = bix[s.getDefaultDest()]; for (auto c : s.cases()) i.cases.push_back({c.getCaseValue()->getZExtValue(), bix[c.getCaseSuccessor()]}); out.push_back(i); return; }
  case Instruction::Unreachable: out.push_back(mk(I_UNREACH, I)); return;
  case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); Inst i = mk(I_ICMP, I); i.sub = c.getPredicate(); Type *ot = c.getOperand(0)->getType(); i.n = nslots(ot); i.w = (*flat(ot))[0].w; i.a = {val(c.getOperand(0)), val(c.getOperand(1))}; i.dst = dst; if (ot->isIntegerTy(128)) unsup("i128 icmp"); out.push_back(i); return; }
  case Instruction::Select: { Inst i = mk(I_SELECT, I); i.n = nslots(T); i.ft = flat(T); i.a = {val(I.getOperand(0)), val(I.getOperand(1)), val(I.getOperand(2))}; i.sub = I.getOperand(0)->getType()->isVectorTy(); i.dst = dst; out.push_back(i); return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Type *st = I.getOperand(0)->getType();
    if (st->isIntegerTy(128) && I.getOpcode() == Instruction::Trunc) { Inst i = mk(I_TRUNC, I); i.w = 64; i.w2 = tw(T); i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); return; }
    if (T->isIntegerTy(128) && I.getOpcode() == Instruction::ZExt) { Inst i = mk(I_ZEXT, I); i.w = tw(st); i.w2 = 64; i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); Inst j = mk(I_COPY, I); j.a = {val(ConstantInt::get(Type::getInt64Ty(g_ctx), 0))}; j.dst = dst + 1; out.push_back(j); return; }
    unsigned w = (*flat(st))[0].w, w2 = (*flat(T))[0].w; IOp op = I.getOpcode() == Instruction::SExt ? I_SEXT : w2 < w ? I_TRUNC : w2 > w ? I_ZEXT : I_COPY;
    Inst i = mk(op, I); i.w = w; i.w2 = w2; i.n = nslots(T); i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); return; }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: {
    Type *st = I.getOperand(0)->getType(); auto *fs = flat(st), *fd = flat(T);
    if (fs->size() == fd->size()) { Inst i = mk(I_COPY, I); i.n = fs->size(); i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); return; }
    Inst i = mk(I_GATHER, I); i.a = {val(I.getOperand(0))}; i.dst = dst; i.n = fs->size(); i.sub = fd->size(); i.w = (*fs)[0].w; i.w2 = (*fd)[0].w; out.push_back(i); return; }
  case Instruction::Freeze: { Inst i = mk(I_COPY, I); i.n = nslots(T); i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); return; }
  case Instruction::ExtractValue: { auto &x = cast<ExtractValueInst>(I); unsigned o = aggOffset(x.getAggregateOperand()->getType(), x.getIndices()); int b = val(x.getAggregateOperand()); Inst i = mk(I_COPY, I); i.n = nslots(T); i.a = {b >= 0 ? b + (int)o : b - (int)o}; i.dst = dst; out.push_back(i); return; }
  case Instruction::InsertValue: { auto &x = cast<InsertValueInst>(I); unsigned o = aggOffset(T, x.getIndices()); Inst i = mk(I_COPY, I); i.n = nslots(T); i.a = {val(x.getAggregateOperand())}; i.dst = dst; out.push_back(i); Inst j = mk(I_COPY, I); j.n = nslots(x.getInsertedValueOperand()->getType()); j.a = {val(x.getInsertedValueOperand())}; j.dst = dst + o; out.push_back(j); return; }
  case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); int b = val(I.getOperand(0)); if (!ci) { Inst i = mk(I_EXTDYN, I); i.a = {b, val(I.getOperand(1))}; i.n = nslots(I.getOperand(0)->getType()); i.dst = dst; out.push_back(i); return; } int o = ci->getZExtValue(); Inst i = mk(I_COPY, I); i.a = {b >= 0 ? b + o : b - o}; i.dst = dst; out.push_back(i); return; }
  case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); Inst i = mk(I_COPY, I); i.n = nslots(T); i.a = {val(I.getOperand(0))}; i.dst = dst; out.push_back(i); if (!ci) unsup("insertelement dynamic"); Inst j = mk(I_COPY, I); j.a = {val(I.getOperand(1))}; j.dst = dst + ci->getZExtValue(); out.push_back(j); return; }
  case Instruction::ShuffleVector: { auto &s = cast<ShuffleVectorInst>(I); unsigned n0 = nslots(s.getOperand(0)->getType()); auto m = s.getShuffleMask(); for (unsigned k = 0; k < m.size(); k++) { int e = m[k] < 0 ? 0 : m[k]; int b = val(s.getOperand(e >= (int)n0 ? 1 : 0)); int o = e >= (int)n0 ? e - n0 : e; Inst j = mk(I_COPY, I); j.a = {b >= 0 ? b + o : b - o}; j.dst = dst + k; out.push_back(j); } return; }
  case Instruction::Load: { Inst i = mk(I_LOAD, I); i.ft = flat(T); i.n = i.ft->size(); i.a = {val(I.getOperand(0))}; i.dst = dst; i.w = g_dl->getTypeStoreSize(T); i.sub = cast<LoadInst>(I).isAtomic(); for (auto &x : *i.ft) if (x.off >= 100000u) unsup("i1 vector load"); out.push_back(i); return; }
  case Instruction::Store: { Type *t = I.getOperand(0)->getType(); Inst i = mk(I_STORE, I); i.ft = flat(t); i.n = i.ft->size(); i.a = {val(I.getOperand(0)), val(I.getOperand(1))}; i.w = g_dl->getTypeStoreSize(t); i.sub = cast<StoreInst>(I).isAtomic(); for (auto &x : *i.ft) if (x.off >= 100000u) unsup("i1 vector store"); out.push_back(i); return; }
  case Instruction::GetElementPtr: {
    auto &g = cast<GetElementPtrInst>(I); if (T->isVectorTy()) unsup("vector gep");
    Inst i = mk(I_GEP, I); i.dst = dst; i.a.push_back(val(g.getPointerOperand()));
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *ix = it.getOperand();
      if (StructType *s = it.getStructTypeOrNull()) { i.imm += g_dl->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      i64 sz = g_dl->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(ix)) { i.imm += ci->getSExtValue() * sz; continue; }
      i.a.push_back(val(ix)); i.scale.push_back(sz); i.ws.push_back(tw(ix->getType()));
    }
    out.push_back(i); return; }
  case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); Inst i = mk(I_ALLOCA, I); i.dst = dst; i.imm = g_dl->getTypeAllocSize(al.getAllocatedType()); i.a = {val(al.getArraySize())}; out.push_back(i); return; }
  case Instruction::LandingPad: { Inst i = mk(I_LANDINGPAD, I); i.dst = dst; out.push_back(i); return; }
  case Instruction::Resume: { Inst i = mk(I_RESUME, I); i.a = {val(I.getOperand(0))}; out.push_back(i); return; }
  case Instruction::AtomicRMW: { auto &x = cast<AtomicRMWInst>(I); Inst i = mk(I_ATOMICRMW, I); i.sub = x.getOperation(); i.w = tw(T); i.a = {val(x.getPointerOperand()), val(x.getValOperand())}; i.dst = dst; out.push_back(i); return; }
  case Instruction::AtomicCmpXchg: { auto &x = cast<AtomicCmpXchgInst>(I); Inst i = mk(I_CMPXCHG, I); i.w = tw(x.getCompareOperand()->getType()); i.a = {val(x.getPointerOperand()), val(x.getCompareOperand()), val(x.getNewValOperand())}; i.dst = dst; out.push_back(i); return; }
  case Instruction::Fence: return;
  case Instruction::Call: case Instruction::Invoke: {
    auto &c = cast<CallBase>(I);
    if (isa<DbgInfoIntrinsic>(I)) return;
    Inst i = mk(I_CALL, I); i.dst = dst; i.n = T->isVoidTy() ? 0 : nslots(T); if (i.n) i.ft = flat(T);
    if (auto *iv = dyn_cast<InvokeInst>(&I)) { i.isInvoke = true; i.t0 = bix[iv->getNormalDest()]; i.t1 = bix[iv->getUnwindDest()]; }
    Value *cv = c.getCalledOperand()->stripPointerCasts();
    if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
    if (auto *ia = dyn_cast<InlineAsm>(cv)) {
      std::string s = ia->getAsmString(); int sub;
      if (s.find("bswap") == 0) sub = 1; else if (s.find("xchgb ${0:b},${0:h}") == 0) sub = 2; else if (s.empty()) sub = 3; else { Inst u = mk(I_UNSUP, I); out.push_back(u); return; }
      if (sub == 3 && i.n == 0) return;
      i.builtin = 1000 + sub; i.w = tw(T); for (unsigned k = 0; k < c.arg_size(); k++) { i.a.push_back(val(c.getArgOperand(k))); i.argN.push_back(1); } out.push_back(i); return;
    }
    auto *cf = dyn_cast<Function>(cv);
    if (cf) {
      i.callee = cf; std::string n = cf->getName().str();
      i.builtin = builtinId(n, cf);
      if (i.builtin == 0) return;   // ignored intrinsic
    } else { i.imm = 1; }
    for (unsigned k = 0; k < c.arg_size(); k++) {
      Value *av = c.getArgOperand(k); Type *at = av->getType(); if (at->isMetadataTy()) { i.a.push_back(val(ConstantInt::get(Type::getInt64Ty(g_ctx), 0))); i.argN.push_back(1); i.ws.push_back(64); i.byval.push_back(0); continue; }
      i.a.push_back(val(av)); i.argN.push_back(nslots(at)); i.ws.push_back(flat(at)->empty() ? 0 : (*flat(at))[0].w);
      i.byval.push_back(c.isByValArgument(k) ? (u64)g_dl->getTypeAllocSize(c.getParamByValType(k)) : 0);
    }
    if (!cf) i.a.push_back(val(cv));
    if (i.n) i.w = (*flat(T))[0].w;
    out.push_back(i); return; }
  default: break;
  }
  if (auto *b = dyn_cast<BinaryOperator>(&I)) {
    if (T->isFPOrFPVectorTy()) { Inst u = mk(I_UNSUP, I); out.push_back(u); return; }
    if (T->isIntegerTy(128)) unsup("i128 arithmetic");
    Inst i = mk(I_BIN, I); i.sub = b->getOpcode(); i.n = nslots(T); i.w = (*flat(T))[0].w; i.a = {val(b->getOperand(0)), val(b->getOperand(1))}; i.dst = dst; out.push_back(i); return;
  }
  out.push_back(mk(I_UNSUP, I));
}
static void noteDbg(const Instruction &I) {
  const DILocation *l = I.getDebugLoc().get();
  while (l) { if (auto *sp = l->getScope()->getSubprogram()) { std::string f = sp->getFilename().str(); g_funcsSeen.insert(f + ":" + sp->getName().str()); } l = l->getInlinedAt(); }
}
static Fn *getFn(Function *f) {
  auto it = g_fns.find(f); if (it != g_fns.end()) return it->second;
  Fn *F = new Fn; F->f = f; F->name = f->getName().str(); Lower L; L.F = F; int ns = 0;
  for (auto &a : f->args()) { L.slot[&a] = ns; F->argSlot.push_back(ns); ns += std::max(1u, nslots(a.getType())); }
  int bi = 0; for (auto &b : *f) { L.bix[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy() && !i.getType()->isMetadataTy()) { unsigned n; try { n = nslots(i.getType()); } catch (Unsupported &) { n = 1; } L.slot[&i] = ns; ns += std::max(1u, n); } }
  F->nslots = ns; F->blk.resize(bi); bi = 0;
  for (auto &b : *f) {
    for (auto &i : b) { noteDbg(i); try { L.lowerInst(i, F->blk[bi].ins); } catch (Unsupported &u) { Inst x; x.op = I_UNSUP; x.src = &i; F->blk[bi].ins.push_back(x); } }
    for (auto &p : b.phis()) for (unsigned k = 0; k < p.getNumIncomingValues(); k++) { int pb = L.bix[p.getIncomingBlock(k)]; auto &v = F->blk[bi].phi[pb]; int d = L.slot[&p], s = L.val(p.getIncomingValue(k)); unsigned n = nslots(p.getType()); bool dup = false; for (auto &x : v) if (x.dst == d) dup = true; if (dup) continue; for (unsigned j = 0; j < n; j++) v.push_back({d + (int)j, s >= 0 ? s + (int)j : s - (int)j}); }
    bi++;
  }
  g_fns[f] = F; return F;
}

// ------------------------------------------------------------------ helpers on state
static u64 newObj(State &S, u64 size, OKind k, const std::string &name) {
  Obj *o = new Obj; o->size = size; o->kind = k; o->name = name; o->pg.resize((size + PG - 1) / PG);
  if (k != O_GLOBAL) { o->fill = S.mfill; o->fillc = S.mfillc; }
  ObjP p; p.p = o; S.objs.push_back(std::move(p)); return ((u64)(S.objs.size() - 1) << 40) + BASEOFF;
}
static Obj *wobj(State &S, u64 id) {
  ObjP &p = S.objs[id]; if (p.p->ref > 1) { Obj *n = new Obj(*p.p); n->ref = 1; p.p->ref--; p.p = n; } return p.p;
}
static E simp(State &S, E e) {
  if (e->isC()) return e;
  e = substFacts(e, S.pc.facts);
  if (e->w == 1 && !e->isC()) { auto it = S.pc.known.find(e->id); if (it != S.pc.known.end()) return mkC(1, it->second); }
  return e;
}
static V simpV(State &S, const V &v) { if (!v.e) return v; return VE(simp(S, v.e)); }

static void addCon(State &S, E c) { pathAdd(S.pc, c); }
static SP forkState(State &S) { SP n = new State(S); g_st.forks++; n->nfork++; return n; }

// may c be true?  S.m satisfies path.
static Res feasible(State &S, E c, Model &out) { Res r = solverCheck(S.pc, c, S.m, out); if (r == R_UNKNOWN) { g_st.incomplete++; g_st.reasons["solver timeout"]++; } return r; }
static bool evalB(State &S, E c) { evalNewGen(); return evalE(c, S.m); }

static u64 concretize(State &S, V v, unsigned w, const char *what); // forks on every feasible value

static std::string hex(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static std::string descAddr(State &S, u64 a) {
  u64 id = a >> 40; if (id >= FNID) return "function"; if (id == 0 || id >= S.objs.size()) return "wild pointer " + hex(a);
  Obj *o = S.objs[id].p; i64 off = (i64)((a & ((1ull << 40) - 1)) - BASEOFF); char b[200]; const char *kn[] = {"global", "stack", "heap", "exception", "heap(new)", "heap(new[])"}; snprintf(b, 200, "%s object of %llu bytes%s, offset %lld", kn[o->kind], (unsigned long long)o->size, o->alive ? "" : " (freed)", (long long)off); return b;
}
struct Access { u64 id; bool conc; u64 off; E offE; };
// resolves an address for an access of n bytes; may throw EndPath, may push forked states that re-execute
static void requeue(State &S, E c, Model &m) { SP n = forkState(S); n->m = m; addCon(*n, c); g_work.push_back(n); }
static void raceAccess(State &S, const Access &a, u64 n, bool write, bool atomic);
static Access resolve(State &S, V a, u64 n, bool write) {
  g_st.memChecks++;
  if (a.e) a = simpV(S, a);
  if (!a.e) {
    u64 id = a.c >> 40, off = (a.c & ((1ull << 40) - 1)) - BASEOFF;
    if (id == 0 || id >= S.objs.size() || !S.objs[id].p->alive || off > S.objs[id].p->size || n > S.objs[id].p->size - off) {
      if (n == 0) return {0, true, 0, nullptr};
      bool uaf = id > 0 && id < S.objs.size() && !S.objs[id].p->alive;
      fatalViol(S, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes " + (uaf ? "after free: " : "out of bounds: ") + descAddr(S, a.c));
    }
    if (write && S.objs[id].p->ro) fatalViol(S, "memory", "write to read-only object: " + descAddr(S, a.c));
    return {id, true, off, nullptr};
  }
  E e = a.e;
  for (int g = 0; g < 8; g++) { // addresses that depend on a condition: one path per outcome
    E it = findIte(e, 6); if (!it) break; E c = it->k[0]; E cs = simp(S, c); bool v;
    if (cs->isC()) v = cs->aux; else { v = evalB(S, cs); E oth = v ? mkNot(cs) : cs; Model o; if (feasible(S, oth, o) == R_SAT) requeue(S, oth, o); addCon(S, v ? cs : mkNot(cs)); }
    E e2 = simp(S, replaceNode(e, c, mkC(1, v))); if (e2 == e) break; e = e2;
    if (e->isC()) return resolve(S, VC(e->aux), n, write);
  }
  evalNewGen(); u64 mv = evalE(e, S.m); u64 id = mv >> 40;
  bool statId = (e->umin >> 40) == (e->umax >> 40);
  if (id == 0 || id >= S.objs.size() || !S.objs[id].p->alive) {
    // report, then exclude this object region and continue
    violModel(S, "memory", std::string(write ? "write" : "read") + " through bad pointer: " + descAddr(S, mv));
    if (statId) throw EndPath{"violation"};
    E c = mkNot(mkEq(mkExtract(e, 40, 24), mkC(24, id))); Model o; if (feasible(S, c, o) == R_SAT) requeue(S, c, o);
    throw EndPath{"violation"};
  }
  Obj *ob = S.objs[id].p; u64 base = (id << 40) + BASEOFF; E off = mkSub(e, mkC(64, base));
  if (n > ob->size) fatalViol(S, "memory", "access of " + std::to_string(n) + " bytes to " + descAddr(S, mv));
  if (!(off->umax <= ob->size - n)) {
    E oob = mkUlt(mkC(64, ob->size - n), off); g_st.memSolver++;
    if (!oob->isC() || oob->aux) {
      if (evalB(S, oob)) { // the model itself is out of bounds
        violModel(S, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds: " + descAddr(S, mv));
        E inb = mkNot(oob); Model o; if (feasible(S, inb, o) != R_SAT) throw EndPath{"violation"};
        S.m = o; addCon(S, inb);
      } else {
        Model o; Res r = feasible(S, oob, o); E inb = mkNot(oob);
        if (r == R_SAT) {
          if (statId) { evalNewGen(); u64 bad = evalE(e, o); PathCons pc = S.pc; pathAdd(pc, oob); reportViolation(S, pc, nullptr, o, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds: " + descAddr(S, bad)); }
          else requeue(S, oob, o);
        }
        addCon(S, inb);
      }
      off = simp(S, off);
    }
  }
  if (write && ob->ro) fatalViol(S, "memory", "write to read-only object");
  if (off->isC()) return {id, true, off->aux, nullptr};
  return {id, false, 0, off};
}
static void flushLog(State &S, u64 id);
// log entries whose possible bytes cannot meet [lo, hi) are irrelevant for an access to that range
static bool logMeets(const LogE &l, u64 lo, u64 hi) { return l.off->umin < hi && l.off->umax + l.n > lo; }
static bool logNeeded(const Obj *o, u64 lo, u64 hi) { for (auto &l : o->log) if (logMeets(l, lo, hi)) return true; return false; }
static bool logUniform(const Obj *o, u64 lo, u64 hi, unsigned n) { for (auto &l : o->log) if (logMeets(l, lo, hi) && l.n != n) return false; return true; }
// one path per outcome of c; the current instruction is executed again on the other one
static bool forkOn(State &S, E c) {
  c = simp(S, c); if (c->isC()) return c->aux;
  bool v = evalB(S, c); E oth = v ? mkNot(c) : c; Model o; if (feasible(S, oth, o) == R_SAT) requeue(S, oth, o); addCon(S, v ? c : mkNot(c)); return v;
}
static bool aligned(E off, unsigned n) { if (n & (n - 1)) return false; return (off->zeros & (n - 1)) == n - 1; }
static V logLoad(State &S, Obj *o, E off, unsigned n, V base) {
  for (auto &l : o->log) {
    if (!logMeets(l, off->umin, off->umax + n)) continue;
    E c = simp(S, mkEq(off, l.off)); if (c->isC()) { if (c->aux) base = VE(l.val); continue; }
    base = VE(mkIte(c, l.val, toE(base, n * 8)));
  }
  return base;
}
static std::unordered_map<std::string, unsigned> g_roTab;
// tightest [lo,hi] containing every value of x on this path (decided by the solver)
static void feasRange(State &S, E x, u64 &lo, u64 &hi) {
  lo = std::max(lo, (u64)x->umin); hi = std::min(hi, (u64)x->umax);
  if (lo >= hi || hi - lo > 0xffff || !symsOf(x)->intersects(S.pc.used)) return;
  evalNewGen(); u64 mv = evalE(x, S.m); Model o;
  u64 a = std::max(mv, lo), b = hi; // max in [a,b]
  while (a < b) { u64 mid = a + (b - a + 1) / 2; E q = simp(S, mkNot(mkUlt(x, mkC(x->w, mid)))); if (q->isC()) { if (q->aux) a = mid; else b = mid - 1; continue; } Res r = solverCheck(S.pc, q, S.m, o); if (r == R_SAT) { evalNewGen(); a = std::max(mid, std::min(b, evalE(x, o))); } else if (r == R_UNSAT) b = mid - 1; else break; }
  hi = b; a = lo; b = std::min(mv, hi);
  while (a < b) { u64 mid = a + (b - a) / 2; E q = simp(S, mkUlt(x, mkC(x->w, mid + 1))); if (q->isC()) { if (q->aux) b = mid; else a = mid + 1; continue; } Res r = solverCheck(S.pc, q, S.m, o); if (r == R_SAT) { evalNewGen(); b = std::min(mid, std::max(a, evalE(x, o))); } else if (r == R_UNSAT) a = mid + 1; else break; }
  lo = a;
}
static V loadN(State &S, const Access &a, u64 add, unsigned n) { // n <= 8 bytes
  Obj *o = S.objs[a.id].p;
  if (a.conc) {
    u64 off = a.off + add;
    if (!o->log.empty() && logNeeded(o, off, off + n)) {
      E oe = mkC(64, off); bool ok = (off % n == 0) && logUniform(o, off, off + n, n);
      if (!ok) { flushLog(S, a.id); o = S.objs[a.id].p; } else return logLoad(S, o, oe, n, rawLoad(o, off, n));
    }
    V v = rawLoad(o, off, n);
    if (v.e && !S.pc.facts.m.empty()) { E e2 = substFacts(v.e, S.pc.facts); if (e2 != v.e) { v = VE(e2); if (!o->ro) { rawStore(wobj(S, a.id), off, n, v); } } }
    return v;
  }
  E off = add ? mkAdd(a.offE, mkC(64, add)) : a.offE;
  if (logNeeded(o, off->umin, off->umax + n)) { bool ok = aligned(off, n) && logUniform(o, off->umin, off->umax + n, n); if (!ok) { flushLog(S, a.id); o = S.objs[a.id].p; } }
  if (!o->ro && !off->hasMulc && o->log.empty()) { // an index decided by a handful of input bits: tabulate over those bits
    std::vector<E> bits; std::vector<u64> vals;
    if (!isRawSymBits(off) && o->size > 2048 && tabulate(off, 10, bits, vals)) {
      E idx = mkConcat(bits); std::vector<E> by(n);
      for (unsigned k = 0; k < n; k++) { std::vector<E> v; v.reserve(vals.size()); for (u64 p : vals) v.push_back(p + n > o->size ? mkC(8, 0) : toE(rawLoad(o, p + k, 1), 8)); by[n - 1 - k] = mkSelect(internTable(v), idx); }
      return simpV(S, VE(mkConcat(by)));
    }
  }
  if (off->hasMulc) { // index computed by a hash: one path per populated entry of the table
    for (size_t i = o->log.size(); i-- > 0;) { if (!logMeets(o->log[i], off->umin, off->umax + n)) continue; E lo_ = o->log[i].off, lv = o->log[i].val; if (forkOn(S, mkEq(off, lo_))) return VE(lv); }
    u64 l0 = off->umin, h0 = std::min(off->umax, o->size - n); unsigned z = 0; while (z < 12 && (((off->zeros | off->ones) >> z) & 1)) z++; u64 s0 = 1ull << z, r0 = off->ones & (s0 - 1); if (l0 % s0 != r0) l0 += (r0 + s0 - l0 % s0) % s0;
    if (h0 >= l0 && (h0 - l0) / s0 < 8192) {
      std::map<u64, unsigned> freq; for (u64 p = l0; p <= h0; p += s0) { V b = rawLoad(o, p, n); if (!b.e) freq[b.c]++; }
      u64 def = 0; unsigned best = 0; for (auto &f : freq) if (f.second > best) { best = f.second; def = f.first; }
      std::vector<u64> ex; for (u64 p = l0; p <= h0; p += s0) { V b = rawLoad(o, p, n); if (b.e || b.c != def) ex.push_back(p); }
      if (ex.size() <= 600) { for (u64 p : ex) if (forkOn(S, mkEq(off, mkC(64, p)))) return rawLoad(o, p, n); return VC(def); }
    }
  }
  u64 lo = off->umin, hi = std::min(off->umax, o->size - n); unsigned tz = 0; while (tz < 12 && (((off->zeros | off->ones) >> tz) & 1)) tz++;
  u64 st = 1ull << tz, res = off->ones & (st - 1);
  bool whole = o->size >= n && o->size / st <= 8192; if (whole) { lo = 0; hi = o->size - n; } // canonical: index from the start of the object
  // first candidate >= lo congruent to res
  if (lo % st != res) lo += (res + st - lo % st) % st;
  if (hi < lo) throw EndPath{"infeasible"};
  u64 cnt = (hi - lo) / st + 1;
  if (cnt > 70000) unsup("symbolic load over " + std::to_string(cnt) + " candidates");
  u64 start = lo; E idx;
  if (lo / st <= cnt + 64) { start = res; idx = mkExtract(off, tz, 64 - tz); } else idx = mkExtract(mkSub(off, mkC(64, lo)), tz, 64 - tz);
  u64 tot = (hi - start) / st + 1; unsigned tab; std::string key;
  if (o->ro) { char b[96]; snprintf(b, 96, "%llu,%llu,%llu,%llu,%u", (unsigned long long)a.id, (unsigned long long)start, (unsigned long long)st, (unsigned long long)tot, n); key = b; auto it = g_roTab.find(key); if (it != g_roTab.end()) return VE(mkSelect(it->second, idx)); }
  V r;
  if (o->ro) { std::vector<E> v; v.reserve(tot); for (u64 i = 0; i < tot; i++) v.push_back(toE(rawLoad(o, start + i * st, n), n * 8)); tab = internTable(v); g_roTab[key] = tab; r = VE(mkSelect(tab, idx)); }
  else { // canonical form: one table per byte, entries that the path condition excludes are blanked
    u64 rl = 0, rh = tot - 1; idx = simp(S, idx);
    if (!idx->isC()) { bool aff = true; for (unsigned k = 0; k < n && aff; k++) { std::vector<E> v; v.reserve(tot); for (u64 i = 0; i < tot && aff; i++) { v.push_back(toE(rawLoad(o, start + i * st + k, 1), 8)); aff = v.back()->isC(); } if (aff) aff = g_tables[internTable(v)]->affine; } if (!aff) feasRange(S, idx, rl, rh); }
    if (rh >= tot) rh = tot - 1;
    std::vector<E> bytes(n);
    for (unsigned k = 0; k < n; k++) { std::vector<E> v; v.reserve(tot); for (u64 i = 0; i < tot; i++) v.push_back(i < rl || i > rh ? mkC(8, 0) : toE(rawLoad(o, start + i * st + k, 1), 8)); bytes[n - 1 - k] = mkSelect(internTable(v), idx); }
    r = VE(mkConcat(bytes)); }
  if (!o->log.empty()) r = logLoad(S, o, off, n, r);
  return simpV(S, r);
}
static void iteStore(State &S, u64 id, E off, unsigned n, E val) {
  Obj *o = wobj(S, id); u64 lo = off->umin, hi = std::min(off->umax, o->size - n); unsigned tz = 0; while (tz < 12 && (((off->zeros | off->ones) >> tz) & 1)) tz++; u64 st = 1ull << tz, res = off->ones & (st - 1); if (lo % st != res) lo += (res + st - lo % st) % st;
  if (hi >= lo && (hi - lo) / st > 5000) unsup("symbolic store over many candidates");
  for (u64 p = lo; p <= hi; p += st) { E c = simp(S, mkEq(off, mkC(64, p))); if (c->isC() && !c->aux) continue; V old = rawLoad(o, p, n); rawStore(o, p, n, VE(mkIte(c, val, toE(old, 8 * n)))); }
}
static void flushLog(State &S, u64 id) {
  Obj *o = wobj(S, id); std::vector<LogE> l; l.swap(o->log);
  for (auto &x : l) { if (x.off->isC()) rawStore(o, x.off->aux, x.n, VE(x.val)); else iteStore(S, id, x.off, x.n, x.val); }
}
static void storeN(State &S, const Access &a, u64 add, unsigned n, V v) {
  Obj *o = wobj(S, a.id);
  if (a.conc) {
    u64 off = a.off + add;
    if (!o->log.empty() && logNeeded(o, off, off + n)) { bool ok = off % n == 0 && logUniform(o, off, off + n, n); if (ok) { E oe = mkC(64, off); o->log.push_back({oe, n, toE(v, n * 8)}); return; } flushLog(S, a.id); o = wobj(S, a.id); }
    rawStore(o, off, n, v); return;
  }
  E off = add ? mkAdd(a.offE, mkC(64, add)) : a.offE;
  u64 hi = std::min(off->umax, o->size - n); u64 cnt = hi - off->umin + 1;
  bool okLog = aligned(off, n) && logUniform(o, off->umin, off->umax + n, n);
  if (!okLog || (cnt <= 32 && !logNeeded(o, off->umin, off->umax + n))) { if (logNeeded(o, off->umin, off->umax + n)) flushLog(S, a.id); iteStore(S, a.id, off, n, toE(v, 8 * n)); return; }
  o->log.push_back({off, n, toE(v, 8 * n)});
}
// ------------------------------------------------------------------ arithmetic
static V binop(State &S, unsigned op, unsigned w, const V &a, const V &b) {
  u64 M = maskw(w);
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add: return VC((x + y) & M); case Instruction::Sub: return VC((x - y) & M); case Instruction::Mul: return VC((x * y) & M);
    case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
    case Instruction::Shl: return VC(y >= w ? (w == 64 ? x << (y & 63) : 0) & M : (x << y) & M); case Instruction::LShr: return VC(y >= w ? (w == 64 ? x >> (y & 63) : 0) : x >> y);
    case Instruction::AShr: return VC((u64)(sxt(x, w) >> (y >= w ? w - 1 : y)) & M);
    case Instruction::UDiv: if (!y) fatalViol(S, "arith", "division by zero"); return VC(x / y);
    case Instruction::URem: if (!y) fatalViol(S, "arith", "division by zero"); return VC(x % y);
    case Instruction::SDiv: if (!y) fatalViol(S, "arith", "division by zero"); return VC((sxt(y, w) == -1 ? (u64)-sxt(x, w) : (u64)(sxt(x, w) / sxt(y, w))) & M);
    case Instruction::SRem: if (!y) fatalViol(S, "arith", "division by zero"); return VC((sxt(y, w) == -1 ? 0 : (u64)(sxt(x, w) % sxt(y, w))) & M);
    }
    unsup("binop");
  }
  E x = toE(a, w), y = toE(b, w);
  if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
    E z = simp(S, mkEq(y, mkC(w, 0)));
    if (!z->isC() || z->aux) { Model o; if (feasible(S, z, o) == R_SAT) { PathCons pc = S.pc; pathAdd(pc, z); reportViolation(S, pc, nullptr, o, "arith", "division by zero"); E nz = mkNot(z); Model o2; if (feasible(S, nz, o2) != R_SAT) throw EndPath{"violation"}; S.m = o2; addCon(S, nz); } }
  }
  switch (op) {
  case Instruction::Add: return VE(mkAdd(x, y)); case Instruction::Sub: return VE(mkSub(x, y)); case Instruction::Mul: return VE(mkMul(x, y));
  case Instruction::And: return VE(mkAnd(x, y)); case Instruction::Or: return VE(mkOr(x, y)); case Instruction::Xor: return VE(mkXor(x, y));
  case Instruction::Shl: if (b.e) y = simp(S, y); return VE(mkShl(x, y)); case Instruction::LShr: if (b.e) y = simp(S, y); return VE(mkLshr(x, y)); case Instruction::AShr: if (b.e) y = simp(S, y); return VE(mkAshr(x, y));
  case Instruction::UDiv: return VE(mkUdiv(x, y)); case Instruction::URem: return VE(mkUrem(x, y)); case Instruction::SDiv: return VE(mkSdiv(x, y)); case Instruction::SRem: return VE(mkSrem(x, y));
  }
  unsup("binop");
}
static V icmp(unsigned p, unsigned w, const V &a, const V &b) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; i64 sx = sxt(x, w), sy = sxt(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y);
    case CmpInst::ICMP_SGT: return VC(sx > sy); case CmpInst::ICMP_SGE: return VC(sx >= sy); case CmpInst::ICMP_SLT: return VC(sx < sy); case CmpInst::ICMP_SLE: return VC(sx <= sy);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return VE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return VE(mkNot(mkUlt(x, y)));
  case CmpInst::ICMP_ULT: return VE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return VE(mkNot(mkUlt(y, x))); case CmpInst::ICMP_SGT: return VE(mkSlt(y, x)); case CmpInst::ICMP_SGE: return VE(mkNot(mkSlt(x, y))); case CmpInst::ICMP_SLT: return VE(mkSlt(x, y)); case CmpInst::ICMP_SLE: return VE(mkNot(mkSlt(y, x)));
  }
  unsup("icmp");
}
static u64 bswapN(u64 v, unsigned w) { return w == 16 ? __builtin_bswap16(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap64(v); }
static V bswapV(const V &v, unsigned w) { if (!v.e) return VC(bswapN(v.c, w)); std::vector<E> p; for (unsigned i = 0; i < w / 8; i++) p.push_back(mkExtract(v.e, 8 * i, 8)); return VE(mkConcat(p)); }

// concretize by forking over every feasible value; the current instruction is re-executed in forks
static u64 concretize(State &S, V v, unsigned w, const char *what) {
  if (v.e) v = simpV(S, v);
  if (!v.e) return v.c;
  evalNewGen(); u64 val = evalE(v.e, S.m); E eq = mkEq(v.e, mkC(w, val)); E ne = mkNot(eq);
  Model o; if (feasible(S, ne, o) == R_SAT) requeue(S, ne, o);
  addCon(S, eq); return val;
}
// ------------------------------------------------------------------ control flow
static void jump(State &S, Frame &f, int to) {
  Block &b = f.fn->blk[to]; int from = f.blk;
  if (!b.phi.empty()) { auto it = b.phi.find(from); if (it != b.phi.end()) { auto &mv = it->second; if (mv.size() == 1) f.s[mv[0].dst] = rd(f, mv[0].src); else { V tmp[64]; std::vector<V> big; V *t = tmp; if (mv.size() > 64) { big.resize(mv.size()); t = big.data(); } for (size_t i = 0; i < mv.size(); i++) t[i] = rd(f, mv[i].src); for (size_t i = 0; i < mv.size(); i++) f.s[mv[i].dst] = t[i]; } } }
  f.prev = from; f.blk = to; f.ip = 0;
}
static void popFrame(State &S, Thr &T) { for (auto id : T.fr.back().allocas) { wobj(S, id)->alive = false; wobj(S, id)->pg.clear(); } T.fr.pop_back(); }

static u64 typeinfoId(u64 addr) { return addr >> 40; }
static const GlobalVariable *gvOfAddr(u64 a) { for (auto &x : g_gvAddr) if (x.second == a) return x.first; return nullptr; }
static bool tiDerives(const Constant *ti, const Constant *base, int depth = 0) {
  if (ti == base) return true; if (depth > 8) return false;
  auto *g = dyn_cast_or_null<GlobalVariable>(ti); auto *gb = dyn_cast_or_null<GlobalVariable>(base); if (!g) return false;
  if (gb && g->getName() == gb->getName()) return true;
  if (g->hasInitializer()) { auto *c = g->getInitializer(); for (unsigned i = 2; i < c->getNumOperands(); i++) { auto *op = dyn_cast<Constant>(c->getOperand(i)); if (op && isa<GlobalVariable>(op->stripPointerCasts()) && tiDerives(cast<Constant>(op->stripPointerCasts()), base, depth + 1)) return true; } }
  // external standard exceptions: everything named St*_error / bad_* derives from std::exception
  if (gb && gb->getName() == "_ZTISt9exception" && g->getName().starts_with("_ZTISt") ) return true;
  return false;
}
static void unwind(State &S, u64 excPtr) {
  Thr &T = S.th[S.cur]; u64 ti = S.excT.count(excPtr) ? S.excT[excPtr] : 0; const GlobalVariable *tg = ti ? gvOfAddr(ti) : nullptr;
  while (true) {
    if (T.fr.empty()) break;
    Frame &f = T.fr.back();
    if (f.invoke) {
      Block &b = f.fn->blk[f.invU]; const LandingPadInst *lp = nullptr; for (auto &i : b.ins) if (i.op == I_LANDINGPAD) { lp = cast<LandingPadInst>(i.src); break; }
      int sel = -1;
      if (lp) {
        if (lp->isCleanup()) sel = 0;
        for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { auto *c = lp->getClause(k)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { sel = 1 << 30; break; } if (tg && tiDerives(tg, c)) { sel = (int)typeinfoId(constScalar(c)); break; } }
      }
      if (sel >= 0) { T.excPtr = excPtr; f.invoke = false; S.misc.push_back({excPtr, (u64)sel}); f.blk = f.blk; jump(S, f, f.invU); return; }
    }
    popFrame(S, T);
    if (!T.fr.empty()) { /* caller frame's invoke info is stored in the caller */ }
  }
  // nothing catches it: std::terminate. Give the frame list something for location reporting.
  T.fr.clear();
  violModel(S, "abort", "uncaught exception reaches std::terminate"); throw EndPath{"violation"};
}
static u64 throwNew(State &S, u64 tiAddr, u64 size = 16) { u64 p = newObj(S, size, O_EXC, "exc"); S.excT[p] = tiAddr; return p; }

static u64 heapAlloc(State &S, u64 n, OKind k) { S.nAlloc++; return newObj(S, n, k, "heap"); }
static void heapFree(State &S, V pv, OKind k) {
  u64 p = concretize(S, pv, 64, "free"); if (!p) return; u64 id = p >> 40;
  if (id == 0 || id >= S.objs.size() || (p & ((1ull << 40) - 1)) != BASEOFF || (S.objs[id].p->kind != O_HEAP && S.objs[id].p->kind != O_NEW && S.objs[id].p->kind != O_NEWA)) fatalViol(S, "memory", "free of invalid pointer: " + descAddr(S, p));
  if (!S.objs[id].p->alive) fatalViol(S, "memory", "double free: " + descAddr(S, p));
  Obj *o = wobj(S, id); o->alive = false; o->pg.clear(); o->log.clear();
}
static void memcopy(State &S, V d, V s, u64 n) {
  if (!n) return; Access as = resolve(S, s, n, false), ad = resolve(S, d, n, true); raceAccess(S, as, n, false, false); raceAccess(S, ad, n, true, false);
  if (as.conc && ad.conc) {
    if (!S.objs[as.id].p->log.empty()) flushLog(S, as.id); if (!S.objs[ad.id].p->log.empty()) flushLog(S, ad.id);
    Obj *so = S.objs[as.id].p; Obj *dO = wobj(S, ad.id); so = S.objs[as.id].p;
    std::vector<uint8_t> cb(n); std::vector<E> ce; bool any = false;
    for (u64 i = 0; i < n; i++) { E e; uint8_t c = 0; if (!get8(so, as.off + i, c, e)) { if (!any) { ce.assign(n, nullptr); any = true; } ce[i] = e; } cb[i] = c; }
    for (u64 i = 0; i < n; i++) { if (any && ce[i]) pute8(dO, ad.off + i, ce[i]); else putc8(dO, ad.off + i, cb[i]); }
    return;
  }
  if (n > 256) unsup("memcpy with symbolic address");
  std::vector<std::pair<unsigned, V>> t; for (u64 i = 0; i < n;) { unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; t.push_back({k, loadN(S, as, i, k)}); i += k; }
  u64 i = 0; for (auto &x : t) { storeN(S, ad, i, x.first, x.second); i += x.first; }
}
static void memfill(State &S, V d, V c, u64 n) {
  if (!n) return; Access ad = resolve(S, d, n, true); raceAccess(S, ad, n, true, false); E ce = c.e ? mkExtract(toE(c, c.e->w), 0, 8) : nullptr;
  if (ad.conc) { if (!S.objs[ad.id].p->log.empty()) flushLog(S, ad.id); Obj *o = wobj(S, ad.id); for (u64 i = 0; i < n; i++) if (ce) pute8(o, ad.off + i, ce); else putc8(o, ad.off + i, c.c); return; }
  for (u64 i = 0; i < n; i++) storeN(S, ad, i, 1, ce ? VE(ce) : VC(c.c & 255));
}
static std::string readStr(State &S, u64 p) { std::string r; u64 id = p >> 40, off = (p & ((1ull << 40) - 1)) - BASEOFF; if (id == 0 || id >= S.objs.size()) return "?"; Obj *o = S.objs[id].p; while (off < o->size) { E e; uint8_t c; if (!get8(o, off++, c, e)) { r += '?'; continue; } if (!c) break; r += c; } return r; }
static uint32_t newSyms(State &S, u64 n, const std::string &name) { uint32_t f = S.nsym; S.nsym += n; S.rec.push_back({name, f, (uint32_t)n}); if (S.m.v.size() < S.nsym) S.m.v.resize(S.nsym, 0); return f; }

// ------------------------------------------------------------------ builtins
enum B { B_IGN = 0, B_NONE = -1, B_SXSYM = 1, B_SXCHOOSE, B_SXCONC, B_SXASSUME, B_SXASSERT, B_SXOBS, B_SXREACH, B_SXPARAM, B_SXLEAKB, B_SXLEAKE, B_SXFILL, B_SXNATIVE, B_SXRO, B_SXEND, B_SXOBSN,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ALIGNED, B_MEMALIGN, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_RET0, B_RETARG0, B_ABORT, B_ASSERTFAIL, B_EXIT,
  B_EXALLOC, B_EXFREE, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_TERMINATE, B_TYPEID, B_STDTHROW, B_ERRNO, B_GUARDACQ, B_GUARDREL,
  B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_USUBSAT, B_UADDSAT, B_EXPECT, B_TRAP, B_OBJSIZE, B_ISCONST, B_PTRMASK,
  B_MTXLOCK, B_MTXUNLOCK, B_MTXTRY, B_CVWAIT, B_CVWAIT2, B_CVNOTIFY1, B_CVNOTIFYA, B_THRSTART, B_THRJOIN, B_PTHCREATE, B_PTHJOIN, B_HWCONC, B_YIELD, B_SXYIELD, B_PTHSELF, B_DETACH, B_UNKNOWN, B_STRCMP, B_MEMCHR, B_BITREV, B_CALLONCE, B_RET1, B_VOIDIGN, B_SXPTROK, B_SXALLOCOBJ, B_STRCPY, B_SXTID, B_SXNORACE };
static std::map<std::string, int> g_bi = {
  {"sx_sym", B_SXSYM}, {"sx_choose", B_SXCHOOSE}, {"sx_conc", B_SXCONC}, {"sx_assume", B_SXASSUME}, {"sx_assert_", B_SXASSERT}, {"sx_observe", B_SXOBS}, {"sx_observe_n", B_SXOBSN}, {"sx_reach", B_SXREACH}, {"sx_param", B_SXPARAM}, {"sx_leak_begin", B_SXLEAKB}, {"sx_leak_check", B_SXLEAKE}, {"sx_fill", B_SXFILL}, {"sx_native", B_SXNATIVE}, {"sx_end", B_SXEND}, {"sx_yield", B_SXYIELD}, {"sx_tid", B_SXTID}, {"sx_norace", B_SXNORACE},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"aligned_alloc", B_ALIGNED}, {"posix_memalign", B_MEMALIGN}, {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWA}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELA}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"memchr", B_MEMCHR},
  {"fprintf", B_RET0}, {"printf", B_RET0}, {"puts", B_RET0}, {"putchar", B_RET0}, {"fputs", B_RET0}, {"fwrite", B_RET0}, {"fputc", B_RET0}, {"fflush", B_RET0}, {"perror", B_RET0}, {"atexit", B_RET0}, {"__cxa_atexit", B_RET0}, {"vfprintf", B_RET0}, {"snprintf", B_RET0}, {"sprintf", B_RET0}, {"syslog", B_RET0},
  {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT},
  {"__cxa_allocate_exception", B_EXALLOC}, {"__cxa_free_exception", B_EXFREE}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_get_exception_ptr", B_RETARG0}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_ABORT},
  {"__errno_location", B_ERRNO}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_RET0},
  {"pthread_mutex_lock", B_MTXLOCK}, {"pthread_mutex_unlock", B_MTXUNLOCK}, {"pthread_mutex_trylock", B_MTXTRY}, {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0}, {"pthread_cond_wait", B_CVWAIT}, {"pthread_cond_signal", B_CVNOTIFY1}, {"pthread_cond_broadcast", B_CVNOTIFYA}, {"pthread_cond_init", B_RET0}, {"pthread_cond_destroy", B_RET0},
  {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", B_CVWAIT2}, {"_ZNSt18condition_variable10notify_oneEv", B_CVNOTIFY1}, {"_ZNSt18condition_variable10notify_allEv", B_CVNOTIFYA}, {"_ZNSt18condition_variableC1Ev", B_RET0}, {"_ZNSt18condition_variableD1Ev", B_RET0},
  {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", B_THRSTART}, {"_ZNSt6thread4joinEv", B_THRJOIN}, {"_ZNSt6thread6detachEv", B_DETACH}, {"_ZNSt6thread20hardware_concurrencyEv", B_HWCONC}, {"sched_yield", B_YIELD}, {"pthread_self", B_PTHSELF}, {"pthread_create", B_PTHCREATE}, {"pthread_join", B_PTHJOIN}, {"_ZNSt6thread6_StateD2Ev", B_RET0}, {"_ZNSt6thread6_StateD1Ev", B_RET0},
  {"_ZNSt9exceptionD2Ev", B_RET0}, {"_ZNSt9exceptionD1Ev", B_RET0}, {"_ZNSt13runtime_errorC1EPKc", B_RET0}, {"_ZNSt13runtime_errorD1Ev", B_RET0}, {"_ZNSt13runtime_errorD2Ev", B_RET0}, {"_ZNSt11logic_errorC1EPKc", B_RET0}, {"_ZNSt16invalid_argumentC1EPKc", B_RET0}, {"_ZNSt16invalid_argumentD1Ev", B_RET0}, {"strerror", B_RET0}, {"sysconf", B_RET1}, {"get_nprocs", B_RET1}, {"usleep", B_RET0}, {"numa_available", B_RET0},
  {"_ZNSt6chrono3_V212steady_clock3nowEv", B_RET0}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_RET0}, {"_ZNSt8ios_base4InitC1Ev", B_RET0}, {"_ZNSt8ios_base4InitD1Ev", B_RET0},
};
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static int builtinId(const std::string &n, const Function *f) {
  if (starts(n, "llvm.")) {
    if (starts(n, "llvm.lifetime") || starts(n, "llvm.dbg") || starts(n, "llvm.experimental.noalias") || starts(n, "llvm.invariant") || starts(n, "llvm.prefetch") || starts(n, "llvm.var.annotation") || starts(n, "llvm.stackrestore") || starts(n, "llvm.donothing") || starts(n, "llvm.assume")) return B_IGN;
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) return B_MEMCPY; if (starts(n, "llvm.memset")) return B_MEMSET;
    if (starts(n, "llvm.bswap")) return B_BSWAP; if (starts(n, "llvm.ctpop")) return B_CTPOP; if (starts(n, "llvm.ctlz")) return B_CTLZ; if (starts(n, "llvm.cttz")) return B_CTTZ; if (starts(n, "llvm.bitreverse")) return B_BITREV;
    if (starts(n, "llvm.umin")) return B_UMIN; if (starts(n, "llvm.umax")) return B_UMAX; if (starts(n, "llvm.smin")) return B_SMIN; if (starts(n, "llvm.smax")) return B_SMAX; if (starts(n, "llvm.abs")) return B_ABS;
    if (starts(n, "llvm.fshl")) return B_FSHL; if (starts(n, "llvm.fshr")) return B_FSHR;
    if (starts(n, "llvm.uadd.with")) return B_UADDO; if (starts(n, "llvm.usub.with")) return B_USUBO; if (starts(n, "llvm.umul.with")) return B_UMULO; if (starts(n, "llvm.sadd.with")) return B_SADDO; if (starts(n, "llvm.ssub.with")) return B_SSUBO; if (starts(n, "llvm.smul.with")) return B_SMULO;
    if (starts(n, "llvm.usub.sat")) return B_USUBSAT; if (starts(n, "llvm.uadd.sat")) return B_UADDSAT; if (starts(n, "llvm.expect")) return B_EXPECT; if (starts(n, "llvm.trap")) return B_ABORT; if (starts(n, "llvm.eh.typeid.for")) return B_TYPEID; if (starts(n, "llvm.objectsize")) return B_OBJSIZE; if (starts(n, "llvm.is.constant")) return B_ISCONST; if (starts(n, "llvm.ptrmask")) return B_PTRMASK; if (starts(n, "llvm.threadlocal.address") || starts(n, "llvm.launder") || starts(n, "llvm.strip.invariant")) return B_RETARG0; if (starts(n, "llvm.stacksave")) return B_RET0;
    return B_UNKNOWN;
  }
  auto it = g_bi.find(n);
  if (it != g_bi.end() && (f->isDeclaration() || starts(n, "sx_") || n == "malloc" || n == "free")) return it->second;
  if (!f->isDeclaration()) return B_NONE;
  if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) return B_STDTHROW;
  if (n.find("basic_ostream") != std::string::npos || n.find("NSo") != std::string::npos || starts(n, "_ZNSolsE")) return B_RETARG0;
  return B_UNKNOWN;
}

// ---- scheduling
static void wake(State &S, Thr &t) { t.st = T_RUN; t.wait = t.wait2 = 0; }
static void hbAcquire(State &S, u64 addr); static void hbRelease(State &S, u64 addr); static void hbJoin(State &S, int t);
static void grant(State &S) { Thr &t = S.th[S.cur]; if (t.st == T_MUTEX) { S.mutexOwner[t.wait] = S.cur + 1; hbAcquire(S, t.wait); } if (t.st == T_JOIN) hbJoin(S, (int)t.wait); wake(S, t); }
static std::vector<int> runnable(State &S) {
  std::vector<int> r;
  for (size_t i = 0; i < S.th.size(); i++) { Thr &t = S.th[i];
    if (t.st == T_RUN) r.push_back(i);
    else if (t.st == T_MUTEX && !S.mutexOwner[t.wait]) r.push_back(i);
    else if (t.st == T_JOIN && S.th[t.wait].st == T_DONE) r.push_back(i); }
  return r;
}
// Called after the current instruction has been completed (ip advanced). Chooses who runs next.
static void schedule(State &S, bool curCanRun) {
  std::vector<int> r = runnable(S);
  bool curRun = std::find(r.begin(), r.end(), S.cur) != r.end();
  if (r.empty()) {
    for (auto &t : S.th) if (t.st != T_DONE) { fatalViol(S, "deadlock", "no runnable thread"); }
    throw EndPath{"ok"};
  }
  std::vector<int> opts;
  if (curRun && curCanRun) { opts.push_back(S.cur); if (S.preempt < o_maxPreempt) for (int i : r) if (i != S.cur) opts.push_back(i); }
  else opts = r;
  {
    uint32_t sy = newSyms(S, 1, "sched"); E se = mkSym(sy); g_st.schedChoices += opts.size() > 1;
    for (size_t k = 1; k < opts.size(); k++) { SP n = forkState(S); n->m.v[sy] = opts[k]; pathAdd(n->pc, mkEq(se, mkC(8, opts[k]))); if (curRun && curCanRun) n->preempt++; n->cur = opts[k]; 
      grant(*n); g_work.push_back(n); }
    S.m.v[sy] = opts[0]; if (opts.size() > 1) pathAdd(S.pc, mkEq(se, mkC(8, opts[0]))); else S.rec.back().fixed = opts[0];
  }
  S.cur = opts[0]; grant(S);
}
static void pushCall(State &S, Thr &T, Fn *F, const std::vector<V> &args, int retDst, unsigned retN) {
  if (T.fr.size() > 400) unsup("call depth");
  T.fr.emplace_back(); Frame &n = T.fr.back(); n.fn = F; n.s.assign(F->nslots, VC(0)); n.retDst = retDst; n.retN = retN;
  for (size_t i = 0; i < args.size() && i < (size_t)F->nslots; i++) n.s[i] = args[i];
}
static bool g_race = false;
static VClk &clk(State &S, int t) { if (S.tvc.size() < S.th.size()) S.tvc.resize(S.th.size()); VClk &v = S.tvc[t]; if (!v.c[t % MAXT]) v.c[t % MAXT] = 1; return v; }
static void hbAcquire(State &S, u64 addr) { if (!g_race || S.th.size() < 2) return; auto it = S.svc.find(addr); if (it != S.svc.end()) clk(S, S.cur).join(it->second); }
static void hbRelease(State &S, u64 addr) { if (!g_race || S.th.size() < 2) return; VClk &c = clk(S, S.cur); S.svc[addr].join(c); c.c[S.cur]++; }
static void raceAccess(State &S, const Access &a, u64 n, bool write, bool atomic) {
  if (!g_race || S.th.size() < 2 || !a.conc || !n || S.th[S.cur].norace) return; if (S.objs[a.id].p->ro) return;
  if (S.th.size() > MAXT) unsup("too many threads for race detection");
  VClk &c = clk(S, S.cur); auto &sp = S.shadow[a.id]; if (!sp) sp = std::make_shared<RMap>(); else if (sp.use_count() > 1) sp = std::make_shared<RMap>(*sp);
  for (u64 k = 0; k < n; k++) { if (n > 32 && k == 8) k = n - 8;
    RCell &x = (*sp)[(uint32_t)(a.off + k)]; int with = -1;
    if (x.wt != 255 && x.wt != S.cur && x.wc > c.c[x.wt] && !(atomic && x.wa)) with = x.wt;
    if (write) for (int t = 0; t < (int)S.th.size(); t++) if (t != S.cur && x.rc[t] > c.c[t] && !(atomic && (x.ra >> t & 1))) with = t;
    if (with >= 0) fatalViol(S, "race", "data race on " + S.objs[a.id].p->name + "+" + std::to_string(a.off + k) + " between threads " + std::to_string(with) + " and " + std::to_string(S.cur));
    if (write) { x.wt = S.cur; x.wc = c.c[S.cur]; x.wa = atomic; } else { x.rc[S.cur] = c.c[S.cur]; if (atomic) x.ra |= 1 << S.cur; else x.ra &= ~(1 << S.cur); } }
}
static void hbJoin(State &S, int o) { if (g_race && o < MAXT) { VClk x = clk(S, o); clk(S, S.cur).join(x); } }
static u64 startThread(State &S, Function *fn, u64 arg) {
  S.th.emplace_back(); int id = S.th.size() - 1; if (g_race && id < MAXT) { VClk pc = clk(S, S.cur); clk(S, id).join(pc); clk(S, S.cur).c[S.cur]++; } Thr &t = S.th[id]; pushCall(S, t, getFn(fn), {VC(arg)}, -1, 0); t.fr[0].isThreadRoot = true; return id;
}
static u64 aAddr(const Access &a) { return a.id << 40 | (a.off + BASEOFF); }
static bool condFork(State &S, E c) { // returns concrete truth for this state; pushes the other one re-executing the current instruction
  c = simp(S, c); if (c->isC()) return c->aux;
  bool v = evalB(S, c); E o = v ? mkNot(c) : c; Model m; if (feasible(S, o, m) == R_SAT) requeue(S, o, m); addCon(S, v ? c : mkNot(c)); return v;
}

static void finishCall(State &S, Frame &f, const Inst &I, const V *r, unsigned n) {
  if (I.dst >= 0) for (unsigned k = 0; k < I.n && k < n; k++) f.s[I.dst + k] = r[k];
  if (I.isInvoke) jump(S, f, I.t0); else f.ip++;
}

static void doBuiltin(State &S, const Inst &I) {
  Thr *T = &S.th[S.cur]; Frame *f = &T->fr.back(); int b = I.builtin;
  auto A = [&](unsigned k) -> V { return rd(*f, I.a[k]); };
  auto AC = [&](unsigned k, const char *w = "arg") -> u64 { return concretize(S, A(k), I.ws.size() > k ? I.ws[k] : 64, w); };
  V r = VC(0);
  auto done = [&]() { Frame &ff = S.th[S.cur].fr.back(); finishCall(S, ff, I, &r, 1); };
  switch (b) {
  case 1001: r = bswapV(A(0), I.w); break;
  case 1002: r = bswapV(A(0), 16); if (I.w != 16) unsup("xchgb width"); break;
  case 1003: r = A(0); break;
  case B_SXSYM: { u64 p = AC(0), n = AC(1), nm = AC(2); if (n) { Access a = resolve(S, VC(p), n, true); uint32_t fs = newSyms(S, n, readStr(S, nm)); if (!S.objs[a.id].p->log.empty()) flushLog(S, a.id); Obj *o = wobj(S, a.id); for (u64 i = 0; i < n; i++) pute8(o, a.off + i, mkSym(fs + i)); } else newSyms(S, 0, readStr(S, nm)); break; }
  case B_SXCHOOSE: { u64 n = AC(0), nm = AC(1); if (n > 256 || !n) unsup("sx_choose range"); uint32_t sy = newSyms(S, 1, readStr(S, nm)); E se = mkSym(sy);
    for (u64 k = 1; k < n; k++) { SP ns = forkState(S); ns->m.v[sy] = k; pathAdd(ns->pc, mkEq(se, mkC(8, k))); V rk = VC(k); finishCall(*ns, ns->th[ns->cur].fr.back(), I, &rk, 1); g_work.push_back(ns); }
    S.m.v[sy] = 0; pathAdd(S.pc, mkEq(se, mkC(8, 0))); r = VC(0); break; }
  case B_SXCONC: r = VC(concretize(S, A(0), 64, "conc")); break;
  case B_SXASSUME: { V c = simpV(S, A(0)); unsigned w = I.ws[0]; E e = mkNot(mkEq(toE(c, w), mkC(w, 0))); e = simp(S, e);
    if (e->isC()) { if (!e->aux) throw EndPath{"assume"}; break; }
    if (!evalB(S, e)) { Model o; Res q = feasible(S, e, o); if (q != R_SAT) throw EndPath{"assume"}; S.m = o; } addCon(S, e); break; }
  case B_SXASSERT: { g_st.asserts++; V c = simpV(S, A(0)); unsigned w = I.ws[0]; E bad = simp(S, mkEq(toE(c, w), mkC(w, 0))); std::string msg = readStr(S, concretize(S, A(1), 64, "msg"));
    if (bad->isC()) { if (bad->aux) fatalViol(S, "assert", msg); break; }
    g_st.assertSolver++; Model o; Res q = feasible(S, bad, o);
    if (q == R_SAT) { PathCons pc = S.pc; pathAdd(pc, bad); reportViolation(S, pc, nullptr, o, "assert", msg); E good = mkNot(bad); Model o2; if (feasible(S, good, o2) != R_SAT) throw EndPath{"violation"}; S.m = o2; addCon(S, good); }
    else if (q == R_UNSAT) { /* holds on this path */ }
    break; }
  case B_SXOBS: { V v = A(0); S.obs.push_back({readStr(S, A(1).c), v.e, v.c, I.ws[0]}); break; }
  case B_SXOBSN: { u64 p = AC(0), n = AC(1); if (n) { Access a = resolve(S, VC(p), n, false); std::string nm = readStr(S, A(2).c); for (u64 i = 0; i < n; i++) { V v = loadN(S, a, i, 1); S.obs.push_back({nm, v.e, v.c, 8}); } } break; }
  case B_SXREACH: { u64 p = concretize(S, A(0), 64, "tag"); g_st.reach[readStr(S, p)]++; break; }
  case B_SXPARAM: { std::string nm = readStr(S, A(0).c); auto it = o_params.find(nm); r = VC(it == o_params.end() ? A(1).c : it->second); o_params[nm] = r.c; break; }
  case B_SXLEAKB: S.leakBase = S.objs.size(); S.leakOn = true; break;
  case B_SXLEAKE: for (u64 i = S.leakBase; i < S.objs.size(); i++) { Obj *o = S.objs[i].p; if (o->alive && (o->kind == O_HEAP || o->kind == O_NEW || o->kind == O_NEWA)) fatalViol(S, "leak", "memory leak: " + descAddr(S, (i << 40) + BASEOFF)); } break;
  case B_SXFILL: { V v = A(0); if (v.e) { S.mfill = mkExtract(v.e, 0, 8); S.mfillc = 0; } else { S.mfill = nullptr; S.mfillc = v.c; } break; }
  case B_SXNATIVE: r = VC(0); break;
  case B_SXTID: r = VC(S.cur); break;
  case B_SXEND: throw EndPath{"ok"};
  case B_MALLOC: r = VC(heapAlloc(S, AC(0), O_HEAP)); break;
  case B_CALLOC: { u64 n = AC(0) * AC(1); E sv = S.mfill; uint8_t sc = S.mfillc; S.mfill = nullptr; S.mfillc = 0; r = VC(heapAlloc(S, n, O_HEAP)); S.mfill = sv; S.mfillc = sc; break; }
  case B_REALLOC: { u64 p = AC(0), n = AC(1); u64 q = heapAlloc(S, n, O_HEAP); if (p) { u64 id = p >> 40; if (id >= S.objs.size() || !S.objs[id].p->alive) fatalViol(S, "memory", "realloc of invalid pointer"); memcopy(S, VC(q), VC(p), std::min(n, S.objs[id].p->size)); heapFree(S, VC(p), O_HEAP); } r = VC(q); break; }
  case B_ALIGNED: r = VC(heapAlloc(S, AC(1), O_HEAP)); break;
  case B_MEMALIGN: { u64 q = heapAlloc(S, AC(2), O_HEAP); storeN(S, resolve(S, A(0), 8, true), 0, 8, VC(q)); break; }
  case B_NEW: case B_NEWA: { u64 n = AC(0); if (n > (1ull << 39)) { r = VC(0); u64 e = throwNew(S, 0); f->ip++; if (I.isInvoke) { f->invoke = true; f->invU = I.t1; } unwind(S, e); return; } r = VC(heapAlloc(S, n, b == B_NEW ? O_NEW : O_NEWA)); break; }
  case B_FREE: case B_DEL: case B_DELA: heapFree(S, A(0), O_HEAP); break;
  case B_MEMCPY: { V n = A(2); u64 k = concretize(S, n, I.ws[2], "memcpy size"); memcopy(S, A(0), A(1), k); r = A(0); break; }
  case B_MEMSET: { u64 k = concretize(S, A(2), I.ws[2], "memset size"); memfill(S, A(0), A(1), k); r = A(0); break; }
  case B_MEMCMP: { u64 n = AC(2); if (!n) { r = VC(0); break; } Access x = resolve(S, A(0), n, false), y = resolve(S, A(1), n, false);
    // result: 0 / -1 / 1 , built back to front
    E res = mkC(32, 0); bool cz = true; int cr = 0;
    bool conc = x.conc && y.conc; if (conc) { for (u64 i = 0; i < n; i++) { V p = loadN(S, x, i, 1), q = loadN(S, y, i, 1); if (p.e || q.e) { if (p.e == q.e) continue; cz = false; break; } if (p.c != q.c) { cr = p.c < q.c ? -1 : 1; break; } } if (cz) { r = VC((uint32_t)cr); break; } }
    E allEq = mkC(1, 1); E lt = mkC(1, 0);
    for (u64 i = n; i-- > 0;) { E p = toE(loadN(S, x, i, 1), 8), q = toE(loadN(S, y, i, 1), 8); E eq = mkEq(p, q); lt = mkIte(eq, lt, mkUlt(p, q)); allEq = mkAnd(allEq, eq); }
    res = mkIte(allEq, mkC(32, 0), mkIte(lt, mkC(32, 0xffffffff), mkC(32, 1))); r = VE(res); break; }
  case B_STRLEN: { std::string s = readStr(S, AC(0)); r = VC(s.size()); break; }
  case B_STRCMP: { std::string s = readStr(S, AC(0)), t = readStr(S, AC(1)); r = VC((uint32_t)(s < t ? -1 : s == t ? 0 : 1)); break; }
  case B_MEMCHR: { u64 p = AC(0), c = AC(1) & 255, n = AC(2); r = VC(0); for (u64 i = 0; i < n; i++) { Access a = resolve(S, VC(p + i), 1, false); V v = loadN(S, a, 0, 1); u64 x = concretize(S, v, 8, "memchr"); if (x == c) { r = VC(p + i); break; } } break; }
  case B_RET0: r = VC(0); break; case B_RET1: r = VC(1); break; case B_RETARG0: r = I.a.size() ? A(0) : VC(0); break;
  case B_ABORT: fatalViol(S, "abort", "abort() / trap reached");
  case B_ASSERTFAIL: fatalViol(S, "abort", "assertion failed in the code under test: " + readStr(S, A(0).c));
  case B_EXIT: throw EndPath{"exit"};
  case B_EXALLOC: r = VC(newObj(S, AC(0), O_EXC, "exc")); break;
  case B_EXFREE: break;
  case B_THROW: case B_STDTHROW: case B_RETHROW: {
    u64 e; if (b == B_THROW) { e = A(0).c; S.excT[e] = A(1).c; S.excD[e] = A(2).c; } else if (b == B_RETHROW) { if (T->caught.empty()) fatalViol(S, "abort", "rethrow without exception"); e = T->caught.back(); S.excRe.insert(e); } else { u64 ti = 0; const char *nm = "_ZTISt9exception"; std::string cn = I.callee->getName().str(); if (cn.find("length_error") != std::string::npos) nm = "_ZTISt12length_error"; else if (cn.find("out_of_range") != std::string::npos) nm = "_ZTISt12out_of_range"; else if (cn.find("bad_alloc") != std::string::npos) nm = "_ZTISt9bad_alloc"; else if (cn.find("system_error") != std::string::npos) nm = "_ZTISt12system_error"; else if (cn.find("bad_function_call") != std::string::npos) nm = "_ZTISt17bad_function_call"; if (auto *g = g_mod->getNamedGlobal(nm)) ti = gvAddr(g); else if (auto *g2 = g_mod->getNamedGlobal("_ZTISt9exception")) ti = gvAddr(g2); e = throwNew(S, ti); }
    if (I.isInvoke) { f->invoke = true; f->invU = I.t1; } else f->invoke = false; f->ip++; unwind(S, e); return; }
  case B_BEGINCATCH: T->caught.push_back(A(0).c); S.excRe.erase(A(0).c); r = A(0); break;
  case B_ENDCATCH: if (!T->caught.empty()) {
      u64 e = T->caught.back(); T->caught.pop_back(); if (S.excRe.count(e) || std::count(T->caught.begin(), T->caught.end(), e) || !S.excD.count(e)) break;
      u64 id = S.excD[e] >> 40; S.excD.erase(e); if (id < FNID || id - FNID >= g_fnTab.size()) break; Function *d = g_fnTab[id - FNID]; if (d->isDeclaration()) break;   // the exception object is destroyed
      if (I.isInvoke) { f->invoke = true; f->invN = I.t0; f->invU = I.t1; } else { f->invoke = false; f->ip++; }
      pushCall(S, *T, getFn(d), {VC(e)}, -1, 0); return; } break;
  case B_TERMINATE: fatalViol(S, "abort", "std::terminate called");
  case B_TYPEID: r = VC((uint32_t)typeinfoId(A(0).c)); break;
  case B_ERRNO: { for (auto &m : S.misc) if (m.first == 1) { r = VC(m.second); goto okerr; } { u64 p = newObj(S, 4, O_GLOBAL, "errno"); S.misc.push_back({1, p}); r = VC(p); } okerr: break; }
  case B_SXNORACE: S.th[S.cur].norace += AC(0) ? 1 : -1; break;
  case B_GUARDACQ: { Access a = resolve(S, A(0), 1, true); hbAcquire(S, aAddr(a)); V v = loadN(S, a, 0, 1); r = VC(v.c ? 0 : 1); break; }
  case B_GUARDREL: { Access a = resolve(S, A(0), 1, true); hbRelease(S, aAddr(a)); storeN(S, a, 0, 1, VC(1)); break; }
  case B_BSWAP: if (I.n != 1) unsup("vector bswap"); r = bswapV(A(0), I.w); break;
  case B_CTPOP: { V v = A(0); if (!v.e) r = VC(__builtin_popcountll(v.c)); else { E s = mkC(I.w, 0); for (unsigned i = 0; i < I.w; i++) s = mkAdd(s, mkZext(mkExtract(v.e, i, 1), I.w)); r = VE(s); } break; }
  case B_CTLZ: { V v = A(0); if (!v.e) r = VC(v.c ? __builtin_clzll(v.c) - (64 - I.w) : I.w); else { E s = mkC(I.w, I.w); for (unsigned i = 0; i < I.w; i++) s = mkIte(mkExtract(v.e, i, 1), mkC(I.w, I.w - 1 - i), s); r = VE(s); } break; }
  case B_CTTZ: { V v = A(0); if (!v.e) r = VC(v.c ? __builtin_ctzll(v.c) : I.w); else { E s = mkC(I.w, I.w); for (unsigned i = I.w; i-- > 0;) s = mkIte(mkExtract(v.e, i, 1), mkC(I.w, i), s); r = VE(s); } break; }
  case B_BITREV: { V v = A(0); E e = toE(v, I.w); std::vector<E> p; for (unsigned i = 0; i < I.w; i++) p.push_back(mkExtract(e, i, 1)); r = VE(mkConcat(p)); break; }
  case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: { if (I.n != 1) unsup("vector minmax"); V x = A(0), y = A(1); V c = icmp(b == B_UMIN || b == B_UMAX ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, I.w, x, y); bool mn = b == B_UMIN || b == B_SMIN; if (!c.e) r = (c.c != 0) == mn ? x : y; else r = VE(mn ? mkIte(c.e, toE(x, I.w), toE(y, I.w)) : mkIte(c.e, toE(y, I.w), toE(x, I.w))); break; }
  case B_ABS: { V x = A(0); if (!x.e) { i64 v = sxt(x.c, I.w); r = VC((u64)(v < 0 ? -v : v) & maskw(I.w)); } else r = VE(mkIte(mkSlt(x.e, mkC(I.w, 0)), mkSub(mkC(I.w, 0), x.e), x.e)); break; }
  case B_FSHL: case B_FSHR: { unsigned w = I.w; V x = A(0), y = A(1), s = simpV(S, A(2)); if (s.e) { E sh = mkUrem(s.e, mkC(w, w)); E X = toE(x, w), Y = toE(y, w); E z = mkEq(sh, mkC(w, 0)); E inv = mkSub(mkC(w, w), sh); if (b == B_FSHL) r = VE(mkIte(z, X, mkOr(mkShl(X, sh), mkLshr(Y, inv)))); else r = VE(mkIte(z, Y, mkOr(mkShl(X, inv), mkLshr(Y, sh)))); break; } unsigned k = s.c % w; if (b == B_FSHR) k = (w - k) % w, r = k == 0 && s.c % w == 0 ? y : VC(0); if (b == B_FSHR && s.c % w == 0) { r = y; break; } if (k == 0) { r = x; break; } r = VE(mkConcat({mkExtract(toE(x, w), 0, w - k), mkExtract(toE(y, w), w - k, k)})); break; }
  case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
    unsigned w = I.w; E x = toE(A(0), w), y = toE(A(1), w); V rr[2]; E v, o;
    if (b == B_UADDO) { v = mkAdd(x, y); o = mkUlt(v, x); } else if (b == B_USUBO) { v = mkSub(x, y); o = mkUlt(x, y); }
    else if (b == B_SADDO) { v = mkAdd(x, y); E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sv = mkExtract(v, w - 1, 1); o = mkAnd(mkNot(mkXor(sx, sy)), mkXor(sx, sv)); }
    else if (b == B_SSUBO) { v = mkSub(x, y); E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sv = mkExtract(v, w - 1, 1); o = mkAnd(mkXor(sx, sy), mkXor(sx, sv)); }
    else { v = mkMul(x, y); if (x->isC() && y->isC()) { unsigned __int128 p = (unsigned __int128)x->aux * y->aux; if (b == B_UMULO) o = mkC(1, (p >> w) != 0); else { __int128 q = (__int128)sxt(x->aux, w) * sxt(y->aux, w); o = mkC(1, q != (__int128)sxt((u64)q & maskw(w), w)); } } else if (b == B_UMULO && (x->isC() || y->isC())) { u64 k = x->isC() ? x->aux : y->aux; E z = x->isC() ? y : x; o = k == 0 ? mkC(1, 0) : mkUlt(mkC(w, maskw(w) / k), z); } else unsup("mul overflow"); }
    rr[0] = VE(v); rr[1] = VE(o); finishCall(S, *f, I, rr, 2); return; }
  case B_USUBSAT: { unsigned w = I.w; E x = toE(A(0), w), y = toE(A(1), w); r = VE(mkIte(mkUlt(x, y), mkC(w, 0), mkSub(x, y))); break; }
  case B_UADDSAT: { unsigned w = I.w; E x = toE(A(0), w), y = toE(A(1), w); E s = mkAdd(x, y); r = VE(mkIte(mkUlt(s, x), mkC(w, ~0ull), s)); break; }
  case B_EXPECT: r = A(0); break;
  case B_OBJSIZE: r = VC(maskw(I.w)); break; case B_ISCONST: r = VC(0); break;
  case B_PTRMASK: r = binop(S, Instruction::And, 64, A(0), A(1)); break;
  // ---- threads
  case B_HWCONC: { auto it = o_params.find("threads"); r = VC(it == o_params.end() ? 2 : it->second); break; }
  case B_PTHSELF: r = VC(S.cur + 1); break;
  case B_MTXLOCK: {
    u64 m = AC(0); if (S.th.size() == 1) { if (S.mutexOwner[m]) fatalViol(S, "deadlock", "mutex locked twice by its owner"); S.mutexOwner[m] = 1; break; }
    done(); if (S.mutexOwner[m] == (u64)S.cur + 1) fatalViol(S, "deadlock", "mutex locked twice by its owner");
    S.th[S.cur].st = T_MUTEX; S.th[S.cur].wait = m; schedule(S, true); return; }
  case B_MTXTRY: { u64 m = AC(0); if (S.mutexOwner[m]) r = VC(16); else { S.mutexOwner[m] = S.cur + 1; hbAcquire(S, m); } break; }
  case B_MTXUNLOCK: { u64 m = AC(0); if (S.mutexOwner[m] != (u64)S.cur + 1) fatalViol(S, "sync", "unlock of a mutex not held by this thread"); S.mutexOwner[m] = 0; hbRelease(S, m); break; }
  case B_CVWAIT: case B_CVWAIT2: {
    u64 cv = AC(0), m; if (b == B_CVWAIT2) { V mv = loadN(S, resolve(S, A(1), 8, false), 0, 8); m = mv.c; } else m = AC(1);
    if (S.mutexOwner[m] != (u64)S.cur + 1) fatalViol(S, "sync", "condition wait without holding the mutex");
    done(); S.mutexOwner[m] = 0; hbRelease(S, m); { Thr &t = S.th[S.cur]; t.st = T_COND; t.wait = cv; t.wait2 = m; }
    if (o_params.count("spurious")) { uint32_t sy = newSyms(S, 1, "spur"); if (S.spur < o_params["spurious"]) { E se = mkSym(sy); SP n = forkState(S); n->m.v[sy] = 1; pathAdd(n->pc, mkEq(se, mkC(8, 1))); n->spur++; Thr &u = n->th[n->cur]; u.st = T_MUTEX; u.wait = m; n->pendSched = true; g_work.push_back(n); S.m.v[sy] = 0; pathAdd(S.pc, mkEq(se, mkC(8, 0))); } else S.rec.back().fixed = 0; }
    schedule(S, false); return; }
  case B_CVNOTIFY1: case B_CVNOTIFYA: {
    u64 cv = AC(0); std::vector<int> ws; for (size_t i = 0; i < S.th.size(); i++) if (S.th[i].st == T_COND && S.th[i].wait == cv) ws.push_back(i);
    done();
    if (b == B_CVNOTIFYA) { for (int i : ws) { S.th[i].st = T_MUTEX; S.th[i].wait = S.th[i].wait2; } }
    else if (ws.empty()) { newSyms(S, 1, "notify"); S.rec.back().fixed = 255; }
    else {
      { uint32_t sy = newSyms(S, 1, "notify"); E se = mkSym(sy); for (size_t k = 1; k < ws.size(); k++) { SP n = forkState(S); n->m.v[sy] = ws[k]; pathAdd(n->pc, mkEq(se, mkC(8, ws[k]))); n->th[ws[k]].st = T_MUTEX; n->th[ws[k]].wait = n->th[ws[k]].wait2; g_work.push_back(n); } S.m.v[sy] = ws[0]; if (ws.size() > 1) pathAdd(S.pc, mkEq(se, mkC(8, ws[0]))); else S.rec.back().fixed = ws[0]; }
      S.th[ws[0]].st = T_MUTEX; S.th[ws[0]].wait = S.th[ws[0]].wait2; }
    return; }
  case B_THRSTART: { // (thread* this, unique_ptr<State>* , void(*)())
    u64 self = AC(0); V up = loadN(S, resolve(S, A(1), 8, false), 0, 8); Function *run = g_mod->getFunction("sx_thread_main"); if (!run) unsup("sx_thread_main missing");
    storeN(S, resolve(S, A(1), 8, true), 0, 8, VC(0)); u64 id = startThread(S, run, up.c); storeN(S, resolve(S, VC(self), 8, true), 0, 8, VC(id + 1));
    f = &S.th[S.cur].fr.back(); finishCall(S, *f, I, &r, 1); schedule(S, true); return; }
  case B_PTHCREATE: { u64 fa = AC(2); u64 fi = (fa >> 40) - FNID; if (fi >= g_fnTab.size()) unsup("pthread_create fn"); u64 arg = AC(3); u64 id = startThread(S, g_fnTab[fi], arg); f = &S.th[S.cur].fr.back(); storeN(S, resolve(S, A(0), 8, true), 0, 8, VC(id + 1)); finishCall(S, *f, I, &r, 1); schedule(S, true); return; }
  case B_THRJOIN: case B_PTHJOIN: { u64 id; if (b == B_THRJOIN) { Access a = resolve(S, A(0), 8, true); id = loadN(S, a, 0, 8).c; storeN(S, a, 0, 8, VC(0)); } else id = AC(0); if (id == 0 || id > S.th.size()) fatalViol(S, "sync", "join of a thread that is not joinable"); done(); Thr &t = S.th[S.cur]; t.st = T_JOIN; t.wait = id - 1; schedule(S, false); return; }
  case B_DETACH: break;
  case B_YIELD: case B_SXYIELD: done(); if (S.th.size() > 1) schedule(S, true); return;
  case B_UNKNOWN: default: { std::string n = I.callee ? I.callee->getName().str() : "?"; unsup("external function " + n); }
  }
  done();
}
// ------------------------------------------------------------------ interpreter
static bool g_stop = false; static u64 g_steps = 0;
static void stepLoop(State &S) { // runs until the path ends (throws EndPath) or forks are queued and it is time to yield
  while (true) {
    if (S.pendSched) { S.pendSched = false; schedule(S, false); }
    Thr *T = &S.th[S.cur]; Frame *fp = &T->fr.back(); Frame &f = *fp; const Inst &I = f.fn->blk[f.blk].ins[f.ip];
    S.ninst++; g_st.inst++;
    if (S.ninst > o_maxInst) { violModel(S, "budget", "instruction budget of the path exhausted (possible non-termination)"); throw EndPath{"budget"}; }
    switch (I.op) {
    case I_BIN: if (I.n == 1) { f.s[I.dst] = binop(S, I.sub, I.w, rd(f, I.a[0]), rd(f, I.a[1])); } else for (unsigned k = 0; k < I.n; k++) f.s[I.dst + k] = binop(S, I.sub, I.w, rd(f, I.a[0], k), rd(f, I.a[1], k)); f.ip++; break;
    case I_ICMP: for (unsigned k = 0; k < I.n; k++) f.s[I.dst + k] = icmp(I.sub, I.w, rd(f, I.a[0], k), rd(f, I.a[1], k)); f.ip++; break;
    case I_SELECT: {
      for (unsigned k = 0; k < I.n; k++) {
        V c = rd(f, I.a[0], I.sub ? k : 0); if (c.e) c = simpV(S, c); V x = rd(f, I.a[1], k), y = rd(f, I.a[2], k);
        if (!c.e) f.s[I.dst + k] = c.c ? x : y; else { unsigned w = (*I.ft)[k].w; f.s[I.dst + k] = VE(mkIte(c.e, toE(x, w), toE(y, w))); }
      }
      f.ip++; break; }
    case I_TRUNC: for (unsigned k = 0; k < I.n; k++) { V v = rd(f, I.a[0], k); f.s[I.dst + k] = v.e ? VE(mkExtract(v.e, 0, I.w2)) : VC(v.c & maskw(I.w2)); } f.ip++; break;
    case I_ZEXT: for (unsigned k = 0; k < I.n; k++) { V v = rd(f, I.a[0], k); f.s[I.dst + k] = v.e ? VE(mkZext(v.e, I.w2)) : v; } f.ip++; break;
    case I_SEXT: for (unsigned k = 0; k < I.n; k++) { V v = rd(f, I.a[0], k); f.s[I.dst + k] = v.e ? VE(mkSext(v.e, I.w2)) : VC((u64)sxt(v.c, I.w) & maskw(I.w2)); } f.ip++; break;
    case I_COPY: if (I.n == 1) f.s[I.dst] = rd(f, I.a[0]); else { std::vector<V> t(I.n); for (unsigned k = 0; k < I.n; k++) t[k] = rd(f, I.a[0], k); for (unsigned k = 0; k < I.n; k++) f.s[I.dst + k] = t[k]; } f.ip++; break;
    case I_GATHER: { // bitcast between different lane counts (little endian)
      std::vector<V> t(I.n); for (unsigned k = 0; k < I.n; k++) t[k] = rd(f, I.a[0], k); unsigned ws = I.w, wd = I.w2, nd = I.sub;
      for (unsigned d = 0; d < nd; d++) { std::vector<E> ps; // hi->lo
        unsigned lo = d * wd, hi = lo + wd; for (int k = (int)I.n - 1; k >= 0; k--) { unsigned a = std::max(lo, k * ws), b = std::min(hi, (k + 1) * ws); if (a < b) ps.push_back(mkExtract(toE(t[k], ws), a - k * ws, b - a)); } f.s[I.dst + d] = VE(mkConcat(ps)); }
      f.ip++; break; }
    case I_EXTDYN: { u64 ix = concretize(S, rd(f, I.a[1]), 64, "lane"); Frame &f2 = S.th[S.cur].fr.back(); f2.s[I.dst] = rd(f2, I.a[0], ix < I.n ? ix : 0); f2.ip++; break; }
    case I_GEP: {
      V b = rd(f, I.a[0]); u64 k = I.imm; E se = nullptr;
      for (size_t i = 1; i < I.a.size(); i++) { V x = rd(f, I.a[i]); if (!x.e) k += (u64)sxt(x.c, I.ws[i - 1]) * (u64)I.scale[i - 1]; else { E t = mkMul(mkSext(x.e, 64), mkC(64, I.scale[i - 1])); se = se ? mkAdd(se, t) : t; } }
      if (!se && !b.e) f.s[I.dst] = VC(b.c + k); else { E r = b.e ? b.e : mkC(64, b.c); if (se) { if (!b.e) r = mkAdd(mkC(64, b.c + k), se); else { r = mkAdd(r, se); if (k) r = mkAdd(r, mkC(64, k)); } } else if (k) r = mkAdd(r, mkC(64, k)); f.s[I.dst] = VE(r); }
      f.ip++; break; }
    case I_LOAD: {
      Access a = resolve(S, rd(f, I.a[0]), I.w, false);
      for (unsigned k = 0; k < I.n; k++) { auto &x = (*I.ft)[k]; unsigned nb = (x.w + 7) / 8; V v = loadN(S, a, x.off, nb); if (x.w % 8) v = v.e ? VE(mkExtract(v.e, 0, x.w)) : VC(v.c & maskw(x.w)); f.s[I.dst + k] = v; }
      if (g_race) { raceAccess(S, a, I.w, false, I.sub); if (I.sub) hbAcquire(S, aAddr(a)); }
      f.ip++; if (I.sub && S.th.size() > 1) schedule(S, true); break; }
    case I_STORE: {
      Access a = resolve(S, rd(f, I.a[1]), I.w, true); if (g_race) { raceAccess(S, a, I.w, true, I.sub); if (I.sub) hbRelease(S, aAddr(a)); }
      for (unsigned k = 0; k < I.n; k++) { auto &x = (*I.ft)[k]; unsigned nb = (x.w + 7) / 8; V v = rd(f, I.a[0], k); if (x.w % 8 && v.e) v = VE(mkZext(v.e, nb * 8)); storeN(S, a, x.off, nb, v); }
      f.ip++; if (I.sub && S.th.size() > 1) schedule(S, true); break; }
    case I_ALLOCA: { u64 n = concretize(S, rd(f, I.a[0]), 64, "alloca"); u64 p = newObj(S, I.imm * n, O_STACK, "stack"); f.allocas.push_back(p >> 40); f.s[I.dst] = VC(p); f.ip++; break; }
    case I_BR: jump(S, f, I.t0); break;
    case I_CONDBR: {
      V c = rd(f, I.a[0]); if (c.e) c = simpV(S, c);
      if (!c.e) { jump(S, f, c.c ? I.t0 : I.t1); break; }
      bool v = evalB(S, c.e); E take = v ? c.e : mkNot(c.e), other = mkNot(take); Model o; Res r = feasible(S, other, o);
      if (r == R_SAT) { SP n = forkState(S); n->m = o; addCon(*n, other); jump(*n, n->th[n->cur].fr.back(), v ? I.t1 : I.t0); g_work.push_back(n); addCon(S, take); }
      else { if (r == R_UNSAT) { S.pc.known[c.e->id] = v; S.pc.known[mkNot(c.e)->id] = !v; } else addCon(S, take); }
      jump(S, f, v ? I.t0 : I.t1); break; }
    case I_SWITCH: {
      V c = rd(f, I.a[0]); if (c.e) c = simpV(S, c);
      if (!c.e) { int t = I.t0; for (auto &k : I.cases) if (k.first == c.c) { t = k.second; break; } jump(S, f, t); break; }
      std::map<int, E> conds; E any = mkC(1, 0); for (auto &k : I.cases) { E q = mkEq(c.e, mkC(I.w, k.first)); any = mkOr(any, q); if (k.second == I.t0) continue; auto it = conds.find(k.second); if (it == conds.end()) conds[k.second] = q; else it->second = mkOr(it->second, q); }
      E def = mkC(1, 0); for (auto &x : conds) def = mkOr(def, x.second); def = mkNot(def); conds[I.t0] = def;
      int mine = -1; E mineC = nullptr;
      for (auto &x : conds) { E q = simp(S, x.second); if (q->isC() && !q->aux) continue; if (mine < 0 && evalB(S, q)) { mine = x.first; mineC = q; continue; } Model o; if (feasible(S, q, o) == R_SAT) { SP n = forkState(S); n->m = o; addCon(*n, q); jump(*n, n->th[n->cur].fr.back(), x.first); g_work.push_back(n); } }
      if (mine < 0) unsup("switch without feasible target"); addCon(S, mineC); jump(S, f, mine); break; }
    case I_CALL: {
      if (I.builtin > 0) { doBuiltin(S, I); if (S.th[S.cur].st == T_DONE) unsup("scheduler"); break; }
      Function *cf = I.callee;
      if (!cf) { u64 a = concretize(S, rd(f, I.a.back()), 64, "function pointer"); u64 id = a >> 40; if (id < FNID || id - FNID >= g_fnTab.size()) fatalViol(S, "memory", "call through invalid function pointer " + hex(a)); cf = g_fnTab[id - FNID]; int bi = builtinId(cf->getName().str(), cf); if (bi > 0) { Inst t = I; t.callee = cf; t.builtin = bi; doBuiltin(S, t); break; } if (bi == 0) { f.ip++; break; } }
      if (cf->isDeclaration()) unsup("external function " + cf->getName().str());
      Fn *F = getFn(cf); std::vector<V> args; unsigned na = I.argN.size();
      for (unsigned k = 0; k < na; k++) {
        if (I.byval[k]) { u64 p = newObj(S, I.byval[k], O_STACK, "byval"); memcopy(S, VC(p), rd(f, I.a[k]), I.byval[k]); f.allocas.push_back(p >> 40); args.push_back(VC(p)); continue; }
        unsigned n = std::max(1, I.argN[k]); for (unsigned j = 0; j < n; j++) args.push_back(I.argN[k] ? rd(f, I.a[k], j) : VC(0)); }
      if (I.isInvoke) { f.invoke = true; f.invN = I.t0; f.invU = I.t1; } else { f.invoke = false; f.ip++; }
      pushCall(S, S.th[S.cur], F, args, I.dst, I.n); break; }
    case I_RET: {
      V tmp[16]; std::vector<V> big; unsigned n = I.n; V *t = tmp; if (n > 16) { big.resize(n); t = big.data(); } for (unsigned k = 0; k < n; k++) t[k] = rd(f, I.a[0], k);
      bool root = f.isThreadRoot; int rdst = f.retDst; unsigned rn = f.retN; popFrame(S, *T);
      if (T->fr.empty()) {
        if (S.cur == 0 || !root) { throw EndPath{"ok"}; }
        T->st = T_DONE; schedule(S, false); break;
      }
      Frame &c = T->fr.back(); if (rdst >= 0) for (unsigned k = 0; k < n && k < rn; k++) c.s[rdst + k] = t[k];
      if (c.invoke) { c.invoke = false; jump(S, c, c.invN); }
      break; }
    case I_UNREACH: fatalViol(S, "unreachable", "unreachable code executed (undefined behaviour)");
    case I_LANDINGPAD: { u64 sel = 0; for (size_t k = S.misc.size(); k-- > 0;) if (S.misc[k].first == T->excPtr) { sel = S.misc[k].second; S.misc.erase(S.misc.begin() + k); break; } f.s[I.dst] = VC(T->excPtr); f.s[I.dst + 1] = VC((uint32_t)sel); f.ip++; break; }
    case I_RESUME: { u64 e = rd(f, I.a[0]).c; f.invoke = false; popFrame(S, *T); unwind(S, e); break; }
    case I_ATOMICRMW: {
      Access a = resolve(S, rd(f, I.a[0]), I.w / 8, true); if (g_race) { raceAccess(S, a, I.w / 8, true, true); hbAcquire(S, aAddr(a)); hbRelease(S, aAddr(a)); } V old = loadN(S, a, 0, I.w / 8), v = rd(f, I.a[1]), nv;
      switch (I.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(S, Instruction::Add, I.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(S, Instruction::Sub, I.w, old, v); break; case AtomicRMWInst::And: nv = binop(S, Instruction::And, I.w, old, v); break; case AtomicRMWInst::Or: nv = binop(S, Instruction::Or, I.w, old, v); break; case AtomicRMWInst::Xor: nv = binop(S, Instruction::Xor, I.w, old, v); break; default: unsup("atomicrmw"); }
      storeN(S, a, 0, I.w / 8, nv); f.s[I.dst] = old; f.ip++; if (S.th.size() > 1) schedule(S, true); break; }
    case I_CMPXCHG: {
      Access a = resolve(S, rd(f, I.a[0]), I.w / 8, true); if (g_race) { raceAccess(S, a, I.w / 8, true, true); hbAcquire(S, aAddr(a)); hbRelease(S, aAddr(a)); } V old = loadN(S, a, 0, I.w / 8); V c = icmp(CmpInst::ICMP_EQ, I.w, old, rd(f, I.a[1])); bool t = c.e ? condFork(S, c.e) : c.c; if (t) storeN(S, a, 0, I.w / 8, rd(f, I.a[2])); f.s[I.dst] = old; f.s[I.dst + 1] = VC(t); f.ip++; if (S.th.size() > 1) schedule(S, true); break; }
    case I_NOP: f.ip++; break;
    case I_UNSUP: default: { std::string s; raw_string_ostream os(s); I.src->print(os); unsup("instruction " + os.str()); }
    }
    if (g_stop) return;
    if ((++g_steps & 255) == 0 && now() > o_time) { g_stop = true; return; }
  }
}
static u64 g_okPaths = 0;
static void runPath(SP s) { // run a state until it ends; forks go to g_work
  std::string why;
  try { stepLoop(*s); if (g_stop) { g_st.truncated++; why = "time"; } }
  catch (EndPath &e) { why = e.why; }
  catch (Unsupported &u) { why = "unsupported"; g_st.incomplete++; g_st.reasons["unsupported: " + u.what.substr(0, 160)]++; if (o_verbose) fprintf(stderr, "[unsup] %s @ %s\n", u.what.c_str(), g_curLoc(*s).c_str()); }
  g_st.ends[why]++;
  if (why != "time") g_st.paths++;
  if (why == "ok") {
    g_st.ok++; u64 n = g_okPaths++;
    // deterministic thinning: keep the first o_maxSamples/2, then exponentially rarer ones
    bool keep = n < o_maxSamples / 2 || (g_st.sampleFiles.size() < o_maxSamples && n % (1 + n / (o_maxSamples / 2 + 1) * 7) == 0);
    if (keep) { Model m = s->m; if (solverExact(s->pc, nullptr, m) == R_SAT) { char b[600]; snprintf(b, 600, "%s/ok_%s_%d_%llu.rep", o_out.c_str(), o_tag.c_str(), g_worker, (unsigned long long)g_fileNo++); writeReplay(*s, m, b, "ok", ""); g_st.sampleFiles.push_back(b); } }
  }
  delete s;
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void dumpStats(const std::string &fn) {
  std::ofstream o(fn);
  o << "{\"paths\":" << g_st.paths << ",\"ok\":" << g_st.ok << ",\"violations\":" << g_st.viol << ",\"incomplete\":" << g_st.incomplete << ",\"truncated\":" << g_st.truncated << ",\"forks\":" << g_st.forks << ",\"inst\":" << g_st.inst << ",\"asserts\":" << g_st.asserts << ",\"assertSolver\":" << g_st.assertSolver << ",\"memChecks\":" << g_st.memChecks << ",\"memSolver\":" << g_st.memSolver << ",\"schedChoices\":" << g_st.schedChoices
    << ",\"queries\":" << g_ss.queries << ",\"z3\":" << g_ss.z3 << ",\"z3sat\":" << g_ss.sat << ",\"z3unsat\":" << g_ss.unsat << ",\"z3unknown\":" << g_ss.unknown << ",\"cacheHits\":" << g_ss.cacheHits << ",\"modelHits\":" << g_ss.modelHits << ",\"defHits\":" << g_ss.defHits << ",\"refined\":" << g_ss.refined << ",\"solverTime\":" << g_ss.time << ",\"maxQuery\":" << g_ss.maxTime << ",\"exprs\":" << exprCount() << ",\"wall\":" << now();
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &x : m) { if (!f) o << ","; f = false; o << "\"" << jesc(x.first) << "\":" << x.second; } o << "}"; };
  mp("reach", g_st.reach); mp("reasons", g_st.reasons); mp("ends", g_st.ends); mp("params", o_params);
  auto lv = [&](const char *n, std::vector<std::string> &m) { o << ",\"" << n << "\":["; bool f = true; for (auto &x : m) { if (!f) o << ","; f = false; o << "\"" << jesc(x) << "\""; } o << "]"; };
  lv("violFiles", g_st.violFiles); lv("sampleFiles", g_st.sampleFiles);
  std::vector<std::string> fv(g_funcsSeen.begin(), g_funcsSeen.end()); lv("functions", fv);
  o << "}\n";
}
// stops a worker that is stuck (in the solver) past the time limit
static std::vector<pid_t> g_kids; static std::atomic<bool> g_waiting{false};
static void watchdog() {   // two threads: interrupting Z3 may itself block, ending the process must not
  std::thread([] { for (;;) { usleep(500000); if (now() > o_time + 2 && !g_waiting) solverInterrupt(); } }).detach();
  std::thread([] {
    for (;;) { usleep(500000); double n = now();
      if (g_waiting) { if (n > o_time + 27) { for (pid_t p : g_kids) kill(p, SIGKILL); _exit(4); } continue; }
      if (n > o_time + 15) { g_st.truncated++; g_st.reasons["stopped by the watchdog"]++; std::thread([] { dumpStats(o_out + "/stats_" + o_tag + "_" + std::to_string(g_worker) + ".json"); _exit(0); }).detach(); sleep(5); _exit(0); } }
  }).detach();
}
static SP pickWork() { size_t n = g_work.size(); static uint64_t r = 88172645463325252ull; r ^= r << 13; r ^= r >> 7; r ^= r << 17; if (n > 1 && r % 6 == 0) std::swap(g_work[(r >> 8) % n], g_work[n - 1]); SP s = g_work.back(); g_work.pop_back(); return s; }
static void initGlobal(State &S, Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = g_dl->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(S, o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) putc8(o, off + i, (uint8_t)r[i]); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { u64 es = g_dl->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(S, o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  u64 n = g_dl->getTypeStoreSize(t); if (n > 8) { std::vector<V> v; constFlat(c, v); auto *ft = flat(t); for (size_t i = 0; i < v.size(); i++) rawStore(o, off + (*ft)[i].off, ((*ft)[i].w + 7) / 8, v[i]); return; }
  u64 v; try { v = constScalar(c); } catch (Unsupported &) { v = 0; }
  rawStore(o, off, n, VC(v));
}
int main(int argc, char **argv) {
  std::string bc, entry = "sx_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-o") o_out = argv[++i]; else if (a == "-t") o_time = atof(argv[++i]); else if (a == "-j") o_jobs = atoi(argv[++i]); else if (a == "-p") { std::string s = argv[++i]; auto q = s.find('='); o_params[s.substr(0, q)] = strtoull(s.c_str() + q + 1, nullptr, 0); }
    else if (a == "--max-inst") o_maxInst = strtoull(argv[++i], nullptr, 0); else if (a == "--query-timeout") g_queryTimeout = atof(argv[++i]); else if (a == "--samples") o_maxSamples = atoi(argv[++i]); else if (a == "--tag") o_tag = argv[++i]; else if (a == "--split") o_split = atoi(argv[++i]); else if (a == "-v") o_verbose = true; else if (a == "--entry") entry = argv[++i]; else if (a == "--preempt") o_maxPreempt = atoi(argv[++i]); else if (a == "--max-viol") o_maxViol = atoi(argv[++i]); else bc = a; }
  g_race = o_params.count("race") && o_params["race"]; if (o_params.count("preempt")) o_maxPreempt = o_params["preempt"];
  struct rlimit rl = {512u << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  SMDiagnostic err; g_mod = parseIRFile(bc, err, g_ctx); if (!g_mod) { err.print("sx", errs()); return 3; }
  g_dl = &g_mod->getDataLayout();
  SP s = new State; s->objs.emplace_back(); { Obj *z = new Obj; z->alive = false; s->objs[0].p = z; }
  for (auto &g : g_mod->globals()) { u64 n = g.getValueType()->isSized() ? (u64)g_dl->getTypeAllocSize(g.getValueType()) : 0; if (!g.hasInitializer()) n = std::max<u64>(n, 1024); g_gvAddr[&g] = newObj(*s, n, O_GLOBAL, g.getName().str()); }
  for (auto &g : g_mod->globals()) if (g.hasInitializer()) { Obj *o = s->objs[g_gvAddr[&g] >> 40].p; initGlobal(*s, o, 0, g.getInitializer()); if (g.isConstant()) o->ro = true; }
  Function *mf = g_mod->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  s->th.emplace_back();
  // global constructors: run on a fresh stack in order, then the entry
  std::vector<std::pair<u64, Function *>> ctors;
  if (auto *gc = g_mod->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) { try { pushCall(*s, s->th[0], getFn(c.second), {}, -1, 0); try { stepLoop(*s); } catch (EndPath &e) { if (e.why != "ok") { fprintf(stderr, "global constructor failed: %s\n", e.why.c_str()); return 3; } } } catch (Unsupported &u) { fprintf(stderr, "global constructor: %s\n", u.what.c_str()); return 3; } s->th.resize(1); s->th[0] = Thr(); }
  s->ninst = 0; pushCall(*s, s->th[0], getFn(mf), {}, -1, 0);
  g_work.push_back(s);
  watchdog();
  // breadth-first until there is enough to share, then fork workers
  std::deque<SP> q;
  if (o_jobs > 1) {
    while (!g_work.empty() || !q.empty()) { q.insert(q.end(), g_work.begin(), g_work.end()); g_work.clear(); if ((int)q.size() >= o_split || now() > o_time || g_stop) break; SP n = q.front(); q.pop_front(); runPath(n); }
    g_work.assign(q.begin(), q.end());
  }
  int W = o_jobs; if (o_jobs > 1 && (int)g_work.size() >= o_split && !g_stop) {
    auto *ctr = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (ctr) std::atomic<int>(0);
    std::vector<SP> todo; todo.swap(g_work); std::vector<pid_t> pids; dumpStats(o_out + "/stats_" + o_tag + "_0.json"); g_waiting = true;
    for (int w = 1; w <= W; w++) { pid_t p = fork(); if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); g_waiting = false; g_worker = w; g_st = Stats(); g_ss = SolverStats(); watchdog();
        while (true) { int i = ctr->fetch_add(1); if (i >= (int)todo.size()) break; if (now() > o_time) { g_st.truncated++; continue; } g_work.push_back(todo[i]); while (!g_work.empty() && !g_stop) { runPath(pickWork()); } g_st.truncated += g_work.size(); g_work.clear(); }
        dumpStats(o_out + "/stats_" + o_tag + "_" + std::to_string(w) + ".json"); _exit(0); } pids.push_back(p); } g_kids = pids;
    int rc = 0; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; }
    fflush(stdout); _exit(rc);
  }
  while (!g_work.empty() && !g_stop) runPath(pickWork());
  g_st.truncated += g_work.size();
  dumpStats(o_out + "/stats_" + o_tag + "_0.json");
  fflush(stdout); _exit(0);
}
