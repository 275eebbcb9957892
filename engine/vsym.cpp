// vsym: bounded symbolic executor for LLVM IR (C++ programs), SMT back end Z3 (+ external portfolio).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <array>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
using namespace llvm;
using std::string; using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { E e = nullptr; u128 c = 0; unsigned w = 0; bool undef = false; std::shared_ptr<vector<Val>> agg; };
static inline Val CV(u128 c, unsigned w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
static inline E toE(const Val& v) { return v.e ? v.e : C(v.c, v.w); }
static inline Val fromE(E e) { Val v; v.w = e->w; if (isC(e)) v.c = e->c; else v.e = e; return v; }
static inline Val AG(vector<Val> x) { Val v; v.agg = std::make_shared<vector<Val>>(std::move(x)); return v; }

static const Expr uninitNode{};
static E const UNINIT = &uninitNode;

enum OK { OGlobal, OHeap, OStack, OExc, OOther };
struct Obj { u64 base, size; OK kind; bool ro = false; u32 tag = 0; vector<uint8_t> b; vector<E> s; };
typedef std::shared_ptr<Obj> ObjP;

struct Op { uint8_t kind = 0; int slot = -1; Val v; }; // 0 slot 1 const 2 undef
struct CFunc;
typedef int HR; enum { HNext, HStop, HPushed, HRetry };
struct State;
struct Eng;
struct CIns;
typedef HR (*Handler)(Eng&, State&, CIns&, vector<Val>&, Val&);
struct CIns {
  Instruction* I = nullptr; unsigned opc = 0; vector<Op> ops; int dst = -1; unsigned w = 0; u64 aux = 0; int bb1 = -1, bb2 = -1;
  Function* callee = nullptr; Handler h = nullptr; CFunc* cf = nullptr; bool hit = false; bool cmpPtr = false;
  vector<std::pair<u64, u64>> scaled; // GEP: (operand idx, scale)
  vector<std::pair<u128, int>> cases; 
};
struct Phi { int dst; vector<std::pair<int, Op>> in; };
struct CFunc { Function* F; int nslots = 0; vector<CIns> code; vector<int> bbStart; vector<vector<Phi>> phis; vector<BasicBlock*> bbs; vector<int> argSlots; string name; };

struct Frame { CFunc* f; int pc = 0, bb = 0; vector<Val> regs; vector<u64> allocas; bool discard = false; Val retOverride; bool hasOverride = false; };
struct Caught { u64 exc; };
enum { MAXT = 8 };
typedef std::array<u32, MAXT> VC;
enum TS { TRun, TMutex, TCond, TJoin, TDone };
struct Thread { vector<Frame> st; TS status = TRun; u64 waitAddr = 0, waitMutex = 0; bool timed = false; int joinTid = -1; vector<u64> caught; std::map<GlobalVariable*, u64> tls; u64 errnoAddr = 0; u64 startArg = 0; VC vc{}, pendA{}, relF{}; };
// happens-before race detection (--races)
struct Cell { u32 wt = 0, wc = 0; VC r{}; Instruction *wi = nullptr, *ri = nullptr; }; // last write (thread, clock), clock of each thread's last read
struct Shadow { vector<Cell> c; };
struct Exc { u64 tinfo = 0, dtor = 0; int handlers = 0; int refs = 0; bool rethrown = false; u64 heapBefore = 0; };
struct Nd { Val v; };
struct State {
  vector<Thread> th; int cur = 0;
  std::map<u64, ObjP> mem; u64 next = 0x100000000ull;
  vector<E> pc; Assignment model; std::unordered_map<E, E> known, memo; SymSet ksyms;
  std::map<std::pair<E, u64>, std::pair<E, E>> quot; vector<Val> nds; vector<Val> obs; u32 nsym = 0; u64 steps = 0; u32 forks = 0;
  std::map<u64, Exc> excs; std::map<u64, int> mtx; // locked by tid+1
  u64 heapLive = 0; u32 uninit = 0; int preempt = 0;
  std::map<u64, std::shared_ptr<Shadow>> shadow; std::map<u64, VC> sync; std::set<u64> norace;
  vector<string> ev;
};
typedef std::unique_ptr<State> SP;

struct Violation { string kind, id, where; vector<std::pair<u64, unsigned>> nds; vector<string> trace; u32 uninit = 0; };
struct Sample { vector<std::pair<u64, unsigned>> nds; vector<u64> obs; };

struct Opts { bool sched = false; string entry = "vp_main", out, srcFilter = "/repo/"; u64 maxSteps = 4000000; double maxTime = 600; int jobs = 8; int maxViol = 3; u64 seed = 1; int samples = 4; int maxDepth = 500; int maxPreempt = 0; bool verbose = false; int split = 160; bool races = false, atomics = false; string stopFile; bool hurry = true, merge = true; };

struct Eng {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr; Solver S; Opts o;
  std::map<u64, ObjP> gro; // read-only globals
  std::unordered_map<const GlobalValue*, u64> gaddr; std::unordered_map<u64, Function*> faddr;
  std::unordered_map<Function*, std::unique_ptr<CFunc>> fcache;
  std::unordered_map<string, Handler> handlers;
  vector<SP> work; 
  std::map<string, u64> tids; // typeinfo name -> selector id
  std::unordered_map<u64, GlobalVariable*> gvAt;
  // results
  u64 paths = 0, assumedOut = 0, instrs = 0, forksTotal = 0, branches = 0, checks = 0, symChecks = 0; std::map<string, u64> covers; std::map<string, u64> checkIds;
  vector<Violation> viols; std::set<string> violKeys; vector<string> problems; std::set<string> problemKeys; vector<Sample> samples; u64 sampleSeen = 0; u64 rng = 1; u64 maxNds = 0, maxPathSteps = 0;
  double t0 = now(); double deadline = 0, lastPoll = 0; bool timedOut = false; volatile u32* shared = nullptr;
  // the time limit; after a violation (here, in another worker, or in another harness: the stop file) only a short while is left
  bool late() {
    double n = now();
    if (n - lastPoll > 0.5) { lastPoll = n; if (o.hurry && shared && shared[2]) deadline = std::min(deadline, n + (hurried ? 1e9 : 20)), hurried = true; if (!o.stopFile.empty() && access(o.stopFile.c_str(), F_OK) == 0) deadline = 0; }
    return n > deadline;
  }
  bool hurried = false;
  std::function<void()> dummy;

  [[noreturn]] void die(const string& m) { fprintf(stderr, "vsym: fatal: %s\n", m.c_str()); exit(3); }
  void problem(const string& m) { if (problemKeys.insert(m).second) { problems.push_back(m); if (o.verbose) fprintf(stderr, "problem: %s\n", m.c_str()); } }

  // ---------- memory
  ObjP mkObj(State& s, u64 size, OK kind, bool init) {
    auto ob = std::make_shared<Obj>(); ob->base = s.next; ob->size = size; ob->kind = kind; ob->b.assign(size, 0);
    if (!init && size) ob->s.assign(size, UNINIT);
    s.next += ((size + 15) & ~15ull) + 64; if (size > 0x10000) s.next = (s.next + 0xfff) & ~0xfffull;
    s.mem[ob->base] = ob; return ob;
  }
  Obj* findObj(State& s, u64 addr, bool& inState) {
    auto it = s.mem.upper_bound(addr);
    if (it != s.mem.begin()) { --it; Obj* ob = it->second.get(); if (addr >= ob->base && addr <= ob->base + ob->size) { inState = true; return ob; } }
    auto g = gro.upper_bound(addr);
    if (g != gro.begin()) { --g; Obj* ob = g->second.get(); if (addr >= ob->base && addr <= ob->base + ob->size) { inState = false; return ob; } }
    return nullptr;
  }
  Obj* writable(State& s, u64 base) {
    auto it = s.mem.find(base); if (it == s.mem.end()) return nullptr;
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  E byteAt(State& s, Obj*& ob, u64 off, bool inState) { // materialises uninit
    if (ob->s.empty() || !ob->s[off]) return C(ob->b[off], 8);
    if (ob->s[off] == UNINIT) {
      E f = sym(s.nsym++, 8); s.uninit++;
      if (inState) { ob = writable(s, ob->base); ob->s[off] = f; }
      return f;
    }
    return ob->s[off];
  }
  Val loadInt(State& s, Obj* ob, u64 off, unsigned w, bool inState) {
    unsigned n = (w + 7) / 8;
    bool conc = ob->s.empty();
    if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (ob->s[off + i]) { conc = false; break; } }
    if (conc) { u128 v = 0; for (unsigned i = n; i-- > 0;) v = (v << 8) | ob->b[off + i]; return CV(v, w); }
    // if fully uninit: one symbol for the whole word
    bool allU = true; for (unsigned i = 0; i < n; i++) if (ob->s[off + i] != UNINIT) { allU = false; break; }
    if (allU && inState && n <= 16 && n > 1) {
      E f = sym(s.nsym++, n * 8); s.uninit++; ob = writable(s, ob->base);
      for (unsigned i = 0; i < n; i++) ob->s[off + i] = mkExtract(f, i * 8, 8);
      return fromE(mkExtract(f, 0, w));
    }
    E r = byteAt(s, ob, off, inState);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(s, ob, off + i, inState), r);
    if (r->w != w) r = mkExtract(r, 0, w);
    else if (r->k == K::Extract) r = mkExtract(r->a, (unsigned)r->c, w);
    return fromE(r);
  }
  void storeInt(Obj* ob, u64 off, const Val& v0, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v0.e) {
      u128 v = v0.c; for (unsigned i = 0; i < n; i++) { ob->b[off + i] = (uint8_t)v; v >>= 8; if (!ob->s.empty()) ob->s[off + i] = nullptr; }
      return;
    }
    E e = v0.e; if (n * 8 != w) e = mkZExt(e, n * 8);
    if (ob->s.empty()) ob->s.assign(ob->size, nullptr);
    extractRaw = true; for (unsigned i = 0; i < n; i++) { E x = mkExtract(e, i * 8, 8); if (isC(x)) { ob->b[off + i] = (uint8_t)x->c; ob->s[off + i] = nullptr; } else ob->s[off + i] = x; }
    extractRaw = false;
  }
  void setByte(Obj* ob, u64 off, E x) {
    if (x != UNINIT && isC(x)) { ob->b[off] = (uint8_t)x->c; if (!ob->s.empty()) ob->s[off] = nullptr; return; }
    if (ob->s.empty()) ob->s.assign(ob->size, nullptr);
    ob->s[off] = x;
  }

  // ---------- solver helpers
  R query(State& s, E q, Assignment& out) {
    if (late()) { timedOut = true; problem("time limit"); return R::Unknown; }
    R r = S.check(s.pc, q, s.model, out);
    if (r == R::Sat && !evalE(q, out)) { problem("solver model does not satisfy query (encoding mismatch)"); return R::Unknown; }
    if (r == R::Unknown) problem(timedOut ? "time limit" : "solver returned unknown");
    return r;
  }
  void addC(State& s, E c) {
    if (isC(c)) return;
    if (c->k == K::And && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    s.pc.push_back(c); learn(s, c);
  }
  // ---------- facts implied by the path condition, used to rewrite later terms
  void fact(State& s, E x, E v) { if (isC(x)) return; if (!s.known.emplace(x, v).second) return; s.ksyms |= *x->syms; s.memo.clear(); }
  void learnVal(State& s, E x, u128 v) {
    if (isC(x)) return; if (x->w == 1) { learnBool(s, x, v & 1); return; }
    fact(s, x, C(v, x->w));
    switch (x->k) {
    case K::ZExt: if (!(v >> x->a->w)) learnVal(s, x->a, v); break; case K::SExt: learnVal(s, x->a, v & maskw(x->a->w)); break;
    case K::Concat: learnVal(s, x->b, v & maskw(x->b->w)); learnVal(s, x->a, v >> x->b->w); break;
    case K::Add: if (isC(x->b)) learnVal(s, x->a, (v - x->b->c) & maskw(x->w)); break;
    case K::Xor: if (isC(x->b)) learnVal(s, x->a, v ^ x->b->c); break;
    case K::Sub: if (isC(x->a)) learnVal(s, x->b, (x->a->c - v) & maskw(x->w)); break;
    default: break; } }
  void learnBool(State& s, E c, bool t) {
    if (isC(c)) return;
    if (c->k == K::Xor && isC(c->b)) { learnBool(s, c->a, t ^ (bool)c->b->c); return; }
    fact(s, c, C(t, 1));
    auto rel = [&](K k, E a, E b, bool v) { E r = mkBin(k, a, b); if (!isC(r)) { if (r->k == K::Xor && isC(r->b) && r->b->c) fact(s, r->a, C(!v, 1)); else fact(s, r, C(v, 1)); } };
    switch (c->k) {
    case K::And: if (t) { learnBool(s, c->a, 1); learnBool(s, c->b, 1); } break;
    case K::Or: if (!t) { learnBool(s, c->a, 0); learnBool(s, c->b, 0); } break;
    case K::Eq: if (t && isC(c->b)) learnVal(s, c->a, c->b->c); else if (t && isC(c->a)) learnVal(s, c->b, c->a->c); break;
    case K::Ult: if (t) { rel(K::Ule, c->b, c->a, 0); rel(K::Ule, c->a, c->b, 1); rel(K::Eq, c->a, c->b, 0); } else rel(K::Ule, c->b, c->a, 1); break;
    case K::Ule: if (t) rel(K::Ult, c->b, c->a, 0); else { rel(K::Ult, c->b, c->a, 1); rel(K::Ule, c->b, c->a, 1); rel(K::Eq, c->a, c->b, 0); } break;
    case K::Slt: if (t) { rel(K::Sle, c->b, c->a, 0); rel(K::Sle, c->a, c->b, 1); rel(K::Eq, c->a, c->b, 0); } else rel(K::Sle, c->b, c->a, 1); break;
    case K::Sle: if (t) rel(K::Slt, c->b, c->a, 0); else { rel(K::Slt, c->b, c->a, 1); rel(K::Sle, c->b, c->a, 1); rel(K::Eq, c->a, c->b, 0); } break;
    default: break; } }
  void learn(State& s, E c) { learnBool(s, c, true); }
  E simpRec(State& s, E e) {
    if (isC(e) || (*e->syms & s.ksyms).none()) return e;
    auto k = s.known.find(e); if (k != s.known.end()) return k->second;
    if (e->k == K::Sym) return e;
    auto m = s.memo.find(e); if (m != s.memo.end()) return m->second;
    E r = e;
    switch (e->k) {
    case K::Extract: r = mkExtract(simpRec(s, e->a), (unsigned)e->c, e->w); break;
    case K::ZExt: r = mkZExt(simpRec(s, e->a), e->w); break; case K::SExt: r = mkSExt(simpRec(s, e->a), e->w); break;
    case K::Concat: r = mkConcat(simpRec(s, e->a), simpRec(s, e->b)); break;
    case K::Ite: { E c = simpRec(s, e->a); if (isC(c)) r = simpRec(s, c->c ? e->b : e->d); else r = mkIte(c, simpRec(s, e->b), simpRec(s, e->d)); break; }
    default: r = mkBin(e->k, simpRec(s, e->a), simpRec(s, e->b)); break; }
    if (r != e) { auto k2 = s.known.find(r); if (k2 != s.known.end()) r = k2->second; }
    s.memo[e] = r; return r; }
  E simp(State& s, E e) { return s.known.empty() ? e : simpRec(s, e); }
  Val simpV(State& s, const Val& v) { if (!v.e || s.known.empty()) return v; E r = simpRec(s, v.e); return r == v.e ? v : fromE(r); }
  // returns HNext if out is set; HStop if state must stop (never), uses fork: pushes alternative states
  bool concretize(State& s, const Val& v, u128& out) {
    if (!v.e) { out = v.c; return true; }
    E se = simp(s, v.e); if (isC(se)) { out = se->c; return true; }
    u128 m = evalE(se, s.model); E eq = mkEq(se, C(m, v.w));
    Assignment a; R r = query(s, mkNot(eq), a);
    if (r == R::Sat) { auto n = clone(s); n->model = a; addC(*n, mkNot(eq)); pushFork(std::move(n)); addC(s, eq); } else learn(s, eq);
    if (se != v.e) fact(s, v.e, C(m, v.w)); out = m; return true;
  }
  SP clone(State& s) { s.forks++; forksTotal++; return std::make_unique<State>(s); }
  void pushFork(SP n) { work.push_back(std::move(n)); }
  bool mayBeTrue(State& s, E c, Assignment& a) { // with model shortcut
    if (isC(c)) { a = s.model; return c->c; }
    if (evalE(c, s.model)) { a = s.model; return true; }
    return query(s, c, a) == R::Sat;
  }

  // ---------- violations
  string where(State& s) {
    string r; auto& st = s.th[s.cur].st; int n = 0;
    for (size_t i = st.size(); i-- > 0 && n < 12;) {
      auto& f = st[i]; if (f.pc >= (int)f.f->code.size()) continue; auto* I = f.f->code[f.pc].I;
      if (!I) continue;
      if (auto& dl = I->getDebugLoc()) { DILocation* L = dl.get(); while (L && n < 12) { string fn = L->getFilename().str(); size_t p = fn.rfind("include/"); if (p != string::npos) fn = fn.substr(p + 8); r += (n ? " < " : "") + fn + ":" + std::to_string(L->getLine()); n++; L = L->getInlinedAt(); } }
    }
    return r;
  }
  u64 ndVal(const Val& v, const Assignment& a) { return (u64)(v.e ? evalE(v.e, a) : v.c); }
  void violate(State& s, const string& kind, const string& id, const Assignment& a) {
    string w = where(s); string key = kind + "|" + id + (kind == "check" ? "" : "|" + w);
    if (!violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.id = id; v.where = w; v.uninit = s.uninit;
    for (auto& n : s.nds) v.nds.push_back({ndVal(n, a), n.w});
    v.trace = s.ev; viols.push_back(v); if (shared) shared[2] = 1; if (!hurried && o.hurry) { hurried = true; deadline = std::min(deadline, now() + 20); }
    if (o.verbose) { fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), id.c_str(), w.c_str()); for (auto& x : s.ev) fprintf(stderr, "   %s\n", x.c_str()); }
  }

  // ---------- races
  static void joinVC(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
  // happens-before edges; relaxed accesses make them only together with fences
  void acquire(State& s, u64 a, u64 n = 1, bool strong = true) { if (!o.races) return; auto& t = s.th[s.cur]; for (auto it = s.sync.lower_bound(a); it != s.sync.end() && it->first < a + n; ++it) joinVC(strong ? t.vc : t.pendA, it->second); }
  void release(State& s, u64 a, bool strong = true) { if (!o.races) return; auto& t = s.th[s.cur]; joinVC(s.sync[a], strong ? t.vc : t.relF); if (strong) t.vc[s.cur]++; }
  void fence(State& s, AtomicOrdering k) { if (!o.races) return; auto& t = s.th[s.cur]; if (isAcquireOrStronger(k)) joinVC(t.vc, t.pendA); if (isReleaseOrStronger(k)) { t.relF = t.vc; t.vc[s.cur]++; } }
  HR atomicPoint(State& s);
  string lines(Instruction* I) { string r; int n = 0; if (I) if (auto& dl = I->getDebugLoc()) { DILocation* L = dl.get(); while (L && n < 6) { string fn = L->getFilename().str(); size_t p = fn.rfind("include/"); if (p != string::npos) fn = fn.substr(p + 8); r += (n ? " < " : "") + fn + ":" + std::to_string(L->getLine()); n++; L = L->getInlinedAt(); } } return r; }
  bool raceCheck(State& s, u64 base, u64 size, u64 off, u64 n, bool wr, const char* what) {
    if (s.norace.count(base)) return true;
    auto& sp = s.shadow[base]; if (!sp) { sp = std::make_shared<Shadow>(); sp->c.resize(size); } else if (sp.use_count() > 1) sp = std::make_shared<Shadow>(*sp);
    const u32 me = s.cur; auto& v = s.th[me].vc; races_++; auto& fr = s.th[me].st.back(); Instruction* I = fr.pc < (int)fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
    for (u64 i = off; i < off + n && i < size; i++) {
      Cell& c = sp->c[i]; bool bad = c.wc && c.wt != me && c.wc > v[c.wt];
      if (wr && !bad) for (u32 t = 0; t < s.th.size() && t < MAXT; t++) if (t != me && c.r[t] > v[t]) bad = true;
      if (bad) { s.ev.push_back("other access: " + lines(c.wc && c.wt != me ? c.wi : c.ri)); violate(s, "race", "data race: conflicting accesses by two threads without synchronisation", s.model); return false; }
      if (wr) { c.wt = me; c.wc = v[me]; c.wi = I; } else { c.r[me] = v[me]; c.ri = I; }
    }
    return true;
  }
  u64 races_ = 0;
  // ---------- resolve pointer. Returns false => state stops.
  struct Ref { Obj* ob; u64 off; bool inState; bool sym; E offE; };
  bool resolve(State& s, const Val& p, u64 n, bool wr, Ref& r, const char* what, bool atomic = false) {
    if (!resolve_(s, p, n, wr, r, what)) return false;
    if (!o.races || atomic || s.th.size() < 2 || !r.inState || r.ob->ro || !strcmp(what, "mutex") || !strcmp(what, "guard")) return true;
    return r.sym ? raceCheck(s, r.ob->base, r.ob->size, 0, r.ob->size, wr, what) : raceCheck(s, r.ob->base, r.ob->size, r.off, n, wr, what);
  }
  bool resolve_(State& s, const Val& p, u64 n, bool wr, Ref& r, const char* what) {
    r.sym = false;
    u64 addr;
    E pe = p.e; 
    if (pe) { pe = simp(s, pe); if (isC(pe)) { addr = (u64)pe->c; pe = nullptr; } else addr = (u64)evalE(pe, s.model); }
    else addr = (u64)p.c;
    bool in; Obj* ob = findObj(s, addr, in);
    if (!ob || addr < ob->base || addr + n > ob->base + ob->size || (wr && (!in || ob->ro))) {
      violate(s, "memory", string(what) + (ob ? (wr && (!in || ob->ro) && addr + n <= ob->base + ob->size ? ": write to read-only memory" : ": out of bounds") : addr < 65536 ? ": null pointer" : ": invalid or freed pointer"), s.model);
      return false;
    }
    r.ob = ob; r.inState = in; r.off = addr - ob->base;
    if (!pe) return true;
    E off = mkBin(K::Sub, pe, C(ob->base, 64));
    E inb = n <= ob->size ? mkBin(K::Ule, off, C(ob->size - n, 64)) : C(0, 1);
    Assignment a;
    if (!isC(inb) || !inb->c) { R q = query(s, mkNot(inb), a); if (q == R::Sat) { auto c = clone(s); c->model = a; addC(*c, mkNot(inb)); pushFork(std::move(c)); addC(s, inb); } }
    if (isC(off)) { r.off = (u64)off->c; return true; }
    if (ob->size * n <= 4096) { r.sym = true; r.offE = off; return true; }
    u128 cv; if (!concretize(s, p, cv)) return false;
    r.off = (u64)cv - ob->base; return true;
  }
  E muxRead(const vector<E>& leaf, E off, size_t lo, size_t n, unsigned bit) { // n power of two
    if (n == 1) return lo < leaf.size() ? leaf[lo] : nullptr;
    size_t h = n / 2; E l = muxRead(leaf, off, lo, h, bit - 1), u = lo + h < leaf.size() ? muxRead(leaf, off, lo + h, h, bit - 1) : nullptr;
    if (!u) return l; if (!l) return u;
    return mkIte(mkExtract(off, bit - 1, 1), u, l);
  }
  Val loadAt(State& s, Ref& r, unsigned w) {
    if (!r.sym) return loadInt(s, r.ob, r.off, w, r.inState);
    unsigned n = (w + 7) / 8; vector<E> leaf;
    u64 base = r.ob->base;
    unsigned step = 1, tz = 0; // known zero low bits
    while (tz < 4 && isC(mkExtract(r.offE, tz, 1)) && mkExtract(r.offE, tz, 1)->c == 0) tz++;
    step = 1u << tz;
    for (u64 i = 0; i + n <= r.ob->size; i += step) { bool in; Obj* ob = findObj(s, base, in); leaf.push_back(toE(loadInt(s, ob, i, w, in))); }
    size_t p2 = 1; unsigned bits = 0; while (p2 < leaf.size()) { p2 *= 2; bits++; }
    E off = tz ? mkExtract(r.offE, tz, 64 - tz) : r.offE;
    return fromE(muxRead(leaf, off, 0, p2, bits));
  }
  void storeAt(State& s, Ref& r, const Val& v, unsigned w) {
    Obj* ob = writable(s, r.ob->base);
    if (!r.sym) { storeInt(ob, r.off, v, w); return; }
    unsigned n = (w + 7) / 8; E e = toE(v); if (n * 8 != w) e = mkZExt(e, n * 8);
    for (u64 i = 0; i + n <= ob->size; i++) {
      E c = mkEq(r.offE, C(i, 64)); if (isC(c) && !c->c) continue;
      for (unsigned j = 0; j < n; j++) { Obj* t = ob; E old = byteAt(s, t, i + j, true); ob = writable(s, ob->base); setByte(ob, i + j, mkIte(c, mkExtract(e, j * 8, 8), old)); }
    }
  }
  // typed load/store
  bool isScalar(Type* t) { return t->isIntegerTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy(); }
  unsigned tw(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
  Val loadTy(State& s, Ref r, Type* t) {
    if (isScalar(t)) return loadAt(s, r, tw(t));
    vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Ref q = r; q.off += sl->getElementOffset(i); v.push_back(loadTy(s, q, st->getElementType(i))); } }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { Ref q = r; q.off += i * es; v.push_back(loadTy(s, q, at->getElementType())); } }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) { Ref q = r; q.off += i * es; v.push_back(loadTy(s, q, vt->getElementType())); } }
    else die("load type");
    return AG(v);
  }
  void storeTy(State& s, Ref r, Type* t, const Val& v) {
    if (isScalar(t)) { storeAt(s, r, v, tw(t)); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Ref q = r; q.off += sl->getElementOffset(i); storeTy(s, q, st->getElementType(i), (*v.agg)[i]); } }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { Ref q = r; q.off += i * es; storeTy(s, q, at->getElementType(), (*v.agg)[i]); } }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) { Ref q = r; q.off += i * es; storeTy(s, q, vt->getElementType(), (*v.agg)[i]); } }
    else die("store type");
  }

  // ---------- constants
  bool isUndefC(Constant* c) { return isa<UndefValue>(c); }
  Val zeroOf(Type* t) {
    if (isScalar(t)) return CV(0, tw(t));
    vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy()) return CV(0, 1);
    else { string z; raw_string_ostream os(z); t->print(os); die("zeroOf " + z); }
    return AG(v);
  }
  Val constVal(Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { auto& a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return CV(v, a.getBitWidth()); }
    if (isa<ConstantPointerNull>(c)) return CV(0, 64);
    if (auto* f = dyn_cast<ConstantFP>(c)) { auto b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) die("long double const"); return CV(b.getZExtValue(), b.getBitWidth()); }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
      auto it = gaddr.find(gv); if (it == gaddr.end()) die("global " + gv->getName().str()); return CV(it->second, 64); }
    if (isa<UndefValue>(c)) { Val v = zeroOf(c->getType()); v.undef = true; return v; }
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return AG(v); }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { vector<Val> v; for (auto& op : ca->operands()) v.push_back(constVal(cast<Constant>(op))); return AG(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) die("const gep"); return CV(constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue(), 64); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return CV(v.c, tw(ce->getType())); }
      case Instruction::Sub: return CV(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, tw(ce->getType()));
      case Instruction::Add: return CV(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, tw(ce->getType()));
      case Instruction::ICmp: { u128 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; return CV(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b, 1); }
      default: die(string("constexpr ") + ce->getOpcodeName());
      }
    }
    string z; raw_string_ostream os(z); c->print(os); die("constant " + z);
  }
  void initMem(Obj* ob, u64 off, Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (isScalar(t)) { storeInt(ob, off, constVal(c), tw(t)); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(ob, off + sl->getElementOffset(i), cast<Constant>(c->getAggregateElement(i))); return; }
    u64 n, es; if (auto* at = dyn_cast<ArrayType>(t)) { n = at->getNumElements(); es = DL->getTypeAllocSize(at->getElementType()); } else { auto* vt = cast<FixedVectorType>(t); n = vt->getNumElements(); es = DL->getTypeAllocSize(vt->getElementType()); }
    for (u64 i = 0; i < n; i++) initMem(ob, off + i * es, c->getAggregateElement((unsigned)i));
  }

  // ---------- compile functions
  CFunc* compile(Function* F) {
    auto& p = fcache[F]; if (p) return p.get();
    p = std::make_unique<CFunc>(); CFunc* f = p.get(); f->F = F; f->name = F->getName().str();
    std::unordered_map<Value*, int> slot; std::unordered_map<BasicBlock*, int> bbi;
    for (auto& a : F->args()) { f->argSlots.push_back(f->nslots); slot[&a] = f->nslots++; }
    for (auto& bb : *F) { bbi[&bb] = (int)f->bbs.size(); f->bbs.push_back(&bb); for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = f->nslots++; }
    auto mkOp = [&](Value* v) { Op op; if (auto* c = dyn_cast<Constant>(v)) { op.kind = 1; op.v = constVal(c); if (isa<UndefValue>(c) && isScalar(c->getType())) op.kind = 2; } else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { op.kind = 1; op.v = CV(0, 64); } else { auto it = slot.find(v); if (it == slot.end()) die("operand"); op.slot = it->second; } return op; };
    f->phis.resize(f->bbs.size());
    for (auto& bb : *F) {
      f->bbStart.push_back((int)f->code.size());
      for (auto& I : bb) {
        if (auto* ph = dyn_cast<PHINode>(&I)) { Phi q; q.dst = slot[&I]; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) q.in.push_back({bbi[ph->getIncomingBlock(i)], mkOp(ph->getIncomingValue(i))}); f->phis[bbi[&bb]].push_back(q); continue; }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        CIns ci; ci.I = &I; ci.opc = I.getOpcode(); if (!I.getType()->isVoidTy()) { ci.dst = slot[&I]; }
        ci.w = isScalar(I.getType()) ? tw(I.getType()) : 0;
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          auto* cal = cb->getCalledOperand()->stripPointerCasts(); 
          if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
          ci.callee = dyn_cast<Function>(cal);
          bool skipArgs = false;
          if (ci.callee && ci.callee->isIntrinsic()) { auto id = ci.callee->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) skipArgs = true; }
          if (!skipArgs) for (auto& a : cb->args()) ci.ops.push_back(mkOp(a.get()));
          if (!ci.callee) { ci.ops.push_back(mkOp(cb->getCalledOperand())); }
          if (auto* inv = dyn_cast<InvokeInst>(cb)) { ci.bb1 = bbi[inv->getNormalDest()]; ci.bb2 = bbi[inv->getUnwindDest()]; }
        } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { ci.ops.push_back(mkOp(br->getCondition())); ci.bb1 = bbi[br->getSuccessor(0)]; ci.bb2 = bbi[br->getSuccessor(1)]; } else ci.bb1 = bbi[br->getSuccessor(0)]; }
        else if (auto* sw = dyn_cast<SwitchInst>(&I)) { ci.ops.push_back(mkOp(sw->getCondition())); ci.bb1 = bbi[sw->getDefaultDest()]; for (auto& cs : sw->cases()) ci.cases.push_back({constVal(cs.getCaseValue()).c, bbi[cs.getCaseSuccessor()]}); }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          ci.ops.push_back(mkOp(g->getPointerOperand())); i128 off = 0; 
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* idx = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
            u64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* k = dyn_cast<ConstantInt>(idx)) off += (i128)k->getSExtValue() * (i128)sc;
            else { ci.scaled.push_back({ci.ops.size(), sc}); ci.ops.push_back(mkOp(idx)); }
          }
          ci.aux = (u64)off;
        } else for (auto& op : I.operands()) { if (isa<BasicBlock>(op.get())) continue; if (isa<LandingPadInst>(&I)) break; ci.ops.push_back(mkOp(op.get())); }
        f->code.push_back(std::move(ci));
      }
    }
    return f;
  }
  Val& reg(State& s, int slot) { return s.th[s.cur].st.back().regs[slot]; }
  Val opv(State& s, Frame& fr, const Op& o) {
    if (o.kind == 0) { Val& v = fr.regs[o.slot]; if (v.e) { Val w = simpV(s, v); v = w; return w; } return v; } if (o.kind == 1) return o.v;
    Val v = fromE(sym(s.nsym++, o.v.w)); s.uninit++; return v;
  }
  void jump(State& s, Frame& fr, int bb) {
    int prev = fr.bb; auto& ph = fr.f->phis[bb];
    if (!ph.empty()) {
      if (ph.size() == 1) { for (auto& p : ph[0].in) if (p.first == prev) { Val v = opv(s, fr, p.second); fr.regs[ph[0].dst] = v; break; } }
      else { vector<Val> t; t.reserve(ph.size()); for (auto& q : ph) for (auto& p : q.in) if (p.first == prev) { t.push_back(opv(s, fr, p.second)); break; }
        for (size_t i = 0; i < ph.size(); i++) fr.regs[ph[i].dst] = std::move(t[i]); }
    }
    fr.bb = bb; fr.pc = fr.f->bbStart[bb];
  }
  void pushFrame(State& s, Function* F, const vector<Val>& args, bool discard) {
    CFunc* f = compile(F); Frame fr; fr.f = f; fr.regs.resize(f->nslots); fr.discard = discard;
    for (size_t i = 0; i < f->argSlots.size(); i++) { if (i < args.size()) fr.regs[f->argSlots[i]] = args[i]; else fr.regs[f->argSlots[i]] = zeroOf(F->getArg((unsigned)i)->getType()); }
    s.th[s.cur].st.push_back(std::move(fr));
  }
  void popAllocas(State& s, Frame& fr) { for (u64 a : fr.allocas) { s.mem.erase(a); if (o.races) s.shadow.erase(a); } }

  // byval args
  void fixByval(State& s, CallBase* cb, vector<Val>& args) {
    for (unsigned i = 0; i < cb->arg_size() && i < args.size(); i++) if (cb->isByValArgument(i)) {
      u64 n = DL->getTypeAllocSize(cb->getParamByValType(i)); Ref r; if (args[i].e || !resolve(s, args[i], n, false, r, "byval")) continue;
      ObjP ob = mkObj(s, n, OStack, false); copyBytes(s, ob->base, 0, r.ob, r.off, n); args[i] = CV(ob->base, 64);
    }
  }
  void copyBytes(State& s, u64 dbase, u64 doff, Obj* src, u64 soff, u64 n) {
    if (!n) return;
    vector<uint8_t> tb(src->b.begin() + soff, src->b.begin() + soff + n); vector<E> ts; if (!src->s.empty()) ts.assign(src->s.begin() + soff, src->s.begin() + soff + n);
    Obj* d = writable(s, dbase);
    memcpy(&d->b[doff], tb.data(), n);
    if (!ts.empty()) { if (d->s.empty()) d->s.assign(d->size, nullptr); std::copy(ts.begin(), ts.end(), d->s.begin() + doff); }
    else if (!d->s.empty()) std::fill(d->s.begin() + doff, d->s.begin() + doff + n, nullptr);
  }

  // ---------- exceptions
  GlobalVariable* tinfoGV(u64 a) { auto it = gvAt.find(a); return it == gvAt.end() ? nullptr : it->second; }
  string tname(u64 a) { auto* g = tinfoGV(a); return g ? g->getName().str() : "?" + std::to_string(a); }
  bool typeMatch(u64 thrown, u64 want, i128& adj) {
    if (thrown == want || tname(thrown) == tname(want)) { return true; }
    auto* g = tinfoGV(thrown); if (!g || !g->hasInitializer()) return false;
    auto* in = g->getInitializer(); unsigned n = in->getNumOperands();
    if (n == 3) return typeMatch((u64)constVal(cast<Constant>(in->getOperand(2))).c, want, adj);
    if (n > 4) { unsigned cnt = (n - 4) / 2; for (unsigned i = 0; i < cnt; i++) { i128 a2 = 0; i128 off = (i128)(int64_t)(u64)constVal(cast<Constant>(in->getOperand(5 + 2 * i))).c; if (off & 1) continue; if (typeMatch((u64)constVal(cast<Constant>(in->getOperand(4 + 2 * i))).c, want, a2)) { adj += a2 + (off >> 8); return true; } } }
    return false;
  }
  u64 selId(const string& n) { auto it = tids.find(n); if (it != tids.end()) return it->second; u64 id = tids.size() + 1; return tids[n] = id; }
  // match landingpad; returns: 0 none, 1 cleanup only, 2 matched(sel set)
  int lpMatch(LandingPadInst* lp, u64 tinfo, u64& sel, i128& adj) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      Constant* c = lp->getClause(i);
      if (lp->isCatch(i)) {
        if (isa<ConstantPointerNull>(c)) { sel = selId("<any>"); return 2; }
        u64 a = (u64)constVal(c).c; adj = 0; if (typeMatch(tinfo, a, adj)) { sel = selId(tname(a)); return 2; }
      } else { auto* at = cast<ArrayType>(c->getType()); bool ok = false; for (u64 j = 0; j < at->getNumElements(); j++) { i128 x = 0; if (typeMatch(tinfo, (u64)constVal(c->getAggregateElement((unsigned)j)).c, x)) ok = true; } if (!ok) { sel = (u64)-1; return 2; } }
    }
    return lp->isCleanup() ? 1 : 0;
  }
  // unwinds; top frame's current instruction is the throwing call/resume
  HR doThrow(State& s, u64 exc) {
    auto& T = s.th[s.cur]; u64 ti = s.excs[exc].tinfo;
    // search
    bool found = false;
    for (size_t i = T.st.size(); i-- > 0;) {
      Frame& f = T.st[i]; auto& ci = f.f->code[f.pc];
      if (ci.opc == Instruction::Invoke) { auto* lp = cast<InvokeInst>(ci.I)->getLandingPadInst(); u64 sel; i128 adj; if (lpMatch(lp, ti, sel, adj) == 2) { found = true; break; } }
    }
    if (!found) { violate(s, "uncaught", "exception " + tname(ti) + " escapes (std::terminate)", s.model); return HStop; }
    for (;;) {
      Frame& f = T.st.back(); auto& ci = f.f->code[f.pc];
      if (ci.opc == Instruction::Invoke) {
        auto* lp = cast<InvokeInst>(ci.I)->getLandingPadInst(); u64 sel = 0; i128 adj = 0; int m = lpMatch(lp, ti, sel, adj);
        if (m) { jump(s, f, ci.bb2); CIns& l = f.f->code[f.pc]; if (l.opc != Instruction::LandingPad) die("landingpad expected");
          f.regs[l.dst] = AG({CV(exc, 64), CV(m == 2 ? sel : 0, 32)}); f.pc++; l.hit = true; return HPushed; }
      }
      popAllocas(s, f); T.st.pop_back();
      if (T.st.empty()) die("unwound off stack");
    }
  }

  // ---------- threads
  void decide(State& s, int t) { if (o.sched && s.th.size() > 1) s.nds.push_back(CV(t, 8)); } // scheduling decisions are inputs of the replay
  HR schedule(State& s) { // current thread cannot continue: choose a runnable one (fork over choices)
    vector<int> run; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TRun) run.push_back((int)i);
    if (run.empty()) { for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TCond && s.th[i].timed) run.push_back((int)i);
      if (run.empty()) { violate(s, "deadlock", "all threads blocked", s.model); return HStop; } }
    for (size_t i = 1; i < run.size(); i++) { auto n = clone(s); n->cur = run[i]; decide(*n, n->cur); wake(*n); pushFork(std::move(n)); }
    s.cur = run[0]; decide(s, s.cur); wake(s); return HPushed;
  }
  void wake(State& s) { auto& t = s.th[s.cur]; if (t.status == TCond && t.timed) { t.status = TRun; t.timed = false; } }

  // ---------- setup
  void registerAll();
  void load(const string& file);
  void initState(State& s);
  HR step(State& s); HR mergeCall(SP base, State& s); u64 merged = 0; std::unordered_map<Function*, bool> pureFn, readsOnly; bool onlyReads(Function* F, int depth);
  void runState(SP s);
  void pathDone(State& s);
  bool stopNow() { if (timedOut || (int)viols.size() >= o.maxViol) return true; return false; }
  void explore() { while (!work.empty() && !stopNow()) { if (late()) { timedOut = true; problem("time limit"); break; } SP s = std::move(work.back()); work.pop_back(); runState(std::move(s)); } }
  string json(bool worker);
};

static Val binop(Eng& g, unsigned opc, const Val& a, const Val& b) {
  static const std::map<unsigned, K> m{{Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::UDiv, K::UDiv}, {Instruction::SDiv, K::SDiv}, {Instruction::URem, K::URem}, {Instruction::SRem, K::SRem}, {Instruction::And, K::And}, {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}, {Instruction::AShr, K::AShr}};
  K k = m.at(opc);
  if (!a.e && !b.e) return CV(foldBin(k, a.c, b.c, a.w), a.w);
  return fromE(mkBin(k, toE(a), toE(b)));
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  K k; bool sw = false, ng = false;
  switch (p) { case CmpInst::ICMP_EQ: k = K::Eq; break; case CmpInst::ICMP_NE: k = K::Eq; ng = true; break;
    case CmpInst::ICMP_ULT: k = K::Ult; break; case CmpInst::ICMP_ULE: k = K::Ule; break; case CmpInst::ICMP_UGT: k = K::Ult; sw = true; break; case CmpInst::ICMP_UGE: k = K::Ule; sw = true; break;
    case CmpInst::ICMP_SLT: k = K::Slt; break; case CmpInst::ICMP_SLE: k = K::Sle; break; case CmpInst::ICMP_SGT: k = K::Slt; sw = true; break; case CmpInst::ICMP_SGE: k = K::Sle; sw = true; break; default: abort(); }
  const Val &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) { u128 r = foldBin(k, x.c, y.c, x.w); return CV(ng ? !r : r, 1); }
  E r = mkBin(k, toE(x), toE(y)); if (ng) r = mkNot(r); return fromE(r);
}
static Val iteVal(E c, const Val& t, const Val& f) {
  if (t.agg) { vector<Val> v; for (size_t i = 0; i < t.agg->size(); i++) v.push_back(iteVal(c, (*t.agg)[i], (*f.agg)[i])); return AG(v); }
  return fromE(mkIte(c, toE(t), toE(f)));
}
template <class F> static Val mapAgg(const Val& a, F f) { vector<Val> v; for (auto& x : *a.agg) v.push_back(f(x)); return AG(v); }

// A call of a function that only reads: its paths are explored here and joined again where it returns, one state per result
// (a single one for predicates, whose result becomes the disjunction of the conditions of the paths that return true).
bool Eng::onlyReads(Function* F, int depth) { // writes nothing but its own locals, cannot throw
  auto it = readsOnly.find(F); if (it != readsOnly.end()) return it->second;
  if (F->isDeclaration()) return readsOnly[F] = F->onlyReadsMemory() && F->doesNotThrow();
  if (depth > 8) return false;
  readsOnly[F] = false; // recursion
  bool r = true;
  for (auto& bb : *F) for (auto& I : bb) {
    if (!r) break;
    if (auto* st = dyn_cast<StoreInst>(&I)) r = !st->isAtomic() && isa<AllocaInst>(getUnderlyingObject(st->getPointerOperand()));
    else if (auto* ld = dyn_cast<LoadInst>(&I)) r = !ld->isAtomic();
    else if (auto* cb = dyn_cast<CallBase>(&I)) {
      Function* g = cb->getCalledFunction();
      if (!g || isa<InvokeInst>(cb)) { r = false; continue; }
      if (auto* mi = dyn_cast<MemIntrinsic>(cb)) r = isa<AllocaInst>(getUnderlyingObject(mi->getDest()));
      else if (g->isIntrinsic()) r = cb->onlyReadsMemory() || isa<DbgInfoIntrinsic>(cb) || cb->isLifetimeStartOrEnd() || isa<AssumeInst>(cb);
      else if (g->getName() == "__clang_call_terminate") ;
      else r = onlyReads(g, depth + 1);
    } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I) || isa<ResumeInst>(I)) r = false;
  }
  if (r) readsOnly[F] = true; else if (!depth) ; else readsOnly.erase(F);
  return r;
}

HR Eng::mergeCall(SP base, State& s) {
  const size_t depth = base->th[base->cur].st.size(), n0 = base->pc.size(); vector<SP> outer; outer.swap(work);
  struct End { SP own; State* st; }; vector<End> ends; bool died = false, stop = false;
  auto run = [&](State& t) { for (;;) { HR r = step(t); if (r == HStop) return false; if (t.th[t.cur].st.size() == depth) return true;
      if (t.steps > o.maxSteps) { violate(t, "nontermination", "step bound exceeded", t.model); return false; } if ((instrs & 0xfff) == 0 && late()) { timedOut = true; problem("time limit"); stop = true; return false; } } };
  if (run(s)) ends.push_back({nullptr, &s}); else died = true;
  while (!work.empty() && !stop && !stopNow()) { SP t = std::move(work.back()); work.pop_back(); if (run(*t)) { State* q = t.get(); ends.push_back({std::move(t), q}); } else died = true; }
  work.swap(outer); if (stop || stopNow()) return HStop;
  if (ends.empty()) return HStop;
  Frame& bf = base->th[base->cur].st.back(); CIns& k = bf.f->code[bf.pc];
  auto val = [&](State& t) -> Val& { return t.th[t.cur].st.back().regs[k.dst]; };
  auto keep = [&](End& e) { if (e.own) pushFork(std::move(e.own)); };
  bool sAlive = ends[0].st == &s;
  if (ends.size() == 1 && sAlive) return HNext;
  bool pure = k.dst >= 0; for (auto& e : ends) if (e.st->nsym != base->nsym || e.st->uninit != base->uninit || e.st->nds.size() != base->nds.size()) pure = false;
  if (!pure || ends.size() > 3000) { for (auto& e : ends) keep(e); return sAlive ? HNext : HStop; }
  auto cond = [&](State& t) { E c = C(1, 1); for (size_t i = n0; i < t.pc.size(); i++) c = mkBin(K::And, c, t.pc[i]); return c; };
  auto join = [&](const vector<size_t>& m, const Val& v, E pathCond) { // a copy of the state at the call, with the result v
    auto n = std::make_unique<State>(*base); State& l = *ends[m[0]].st; n->model = l.model; n->steps = l.steps; n->forks = l.forks; if (!isC(pathCond)) addC(*n, pathCond);
    Frame& f = n->th[n->cur].st.back(); f.regs[k.dst] = v; if (k.opc == Instruction::Invoke) jump(*n, f, k.bb1); else f.pc++; merged += m.size() - 1; return n; };
  vector<SP> out; const unsigned w = val(*ends[0].st).w;
  if (w == 1) {
    vector<size_t> all; E t = C(0, 1), any = C(0, 1);
    for (size_t i = 0; i < ends.size(); i++) { all.push_back(i); E c = cond(*ends[i].st); t = mkBin(K::Or, t, mkBin(K::And, c, toE(val(*ends[i].st)))); if (died) any = mkBin(K::Or, any, c); }
    out.push_back(join(all, fromE(t), died ? any : C(1, 1)));
  } else {
    std::map<u128, vector<size_t>> g; for (size_t i = 0; i < ends.size(); i++) { Val& v = val(*ends[i].st); if (!v.e && !v.agg) g[v.c].push_back(i); }
    for (auto& x : g) if (x.second.size() > 1) { E c = C(0, 1); if (!died && x.second.size() == ends.size()) c = C(1, 1); else for (size_t i : x.second) c = mkBin(K::Or, c, cond(*ends[i].st)); out.push_back(join(x.second, CV(x.first, w), c)); for (size_t i : x.second) { if (ends[i].st == &s) sAlive = false; ends[i].st = nullptr; ends[i].own.reset(); } }
    for (auto& e : ends) if (e.st) keep(e);
    if (sAlive) { for (auto& n : out) pushFork(std::move(n)); return HNext; }
    if (out.empty()) return HStop;
  }
  for (size_t i = 1; i < out.size(); i++) pushFork(std::move(out[i]));
  s = std::move(*out[0]); return HNext;
}

HR Eng::step(State& s) {
  Thread& T = s.th[s.cur]; Frame& fr = T.st.back(); CIns& ci = fr.f->code[fr.pc]; ci.hit = true; instrs++; s.steps++;
  switch (ci.opc) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]);
    if (a.agg) { vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(binop(*this, ci.opc, (*a.agg)[i], (*b.agg)[i])); fr.regs[ci.dst] = AG(v); }
    else fr.regs[ci.dst] = binop(*this, ci.opc, a, b);
    fr.pc++; return HNext; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]);
    E bad = mkEq(toE(b), C(0, b.w)); if (ci.opc == Instruction::SDiv || ci.opc == Instruction::SRem) bad = mkBin(K::Or, bad, mkBin(K::And, mkEq(toE(b), C(maskw(b.w), b.w)), mkEq(toE(a), C((u128)1 << (a.w - 1), a.w))));
    Assignment m; if (mayBeTrue(s, bad, m)) { violate(s, "arith", "division by zero or overflow", m); if (!mayBeTrue(s, mkNot(bad), m)) return HStop; s.model = m; addC(s, mkNot(bad)); }
    if (a.e && !b.e && a.w == 64 && (u64)b.c > 1 && !(ci.opc == Instruction::UDiv || ci.opc == Instruction::URem ? !((u64)b.c & ((u64)b.c - 1)) : (int64_t)(u64)b.c < 0)) {
      // division by a constant: a fresh quotient q with a == q*c + r and the range of r, instead of a divider circuit
      bool sg = ci.opc == Instruction::SDiv || ci.opc == Instruction::SRem; E c = C(b.c, 64); u64 cc = (u64)b.c; auto& qr = s.quot[{a.e, sg ? cc : ~cc}]; E &q = qr.first, &r = qr.second;
      if (!q) {
        q = sym(s.nsym++, 64); u128 av = evalE(a.e, s.model); u64 qv = sg ? (u64)((int64_t)(u64)av / (int64_t)cc) : (u64)av / cc; r = sym(s.nsym++, 64);
        u32 ix = (u32)r->c; if (s.model.v.size() <= ix) s.model.v.resize(ix + 1, 0); s.model.v[q->c] = qv; s.model.v[ix] = (u64)av - qv * cc; E z = C(0, 64);
        addC(s, mkEq(a.e, mkBin(K::Add, mkBin(K::Mul, q, c), r)));
        if (sg) { E ng = mkBin(K::Slt, a.e, z); addC(s, mkBin(K::Sle, q, C((u64)(INT64_MAX / (int64_t)cc), 64))); addC(s, mkBin(K::Sle, C((u64)(INT64_MIN / (int64_t)cc), 64), q));
          addC(s, mkBin(K::Slt, r, c)); addC(s, mkBin(K::Slt, C(-(u128)cc, 64), r)); addC(s, mkIte(ng, mkBin(K::Sle, r, z), mkBin(K::Sle, z, r))); }
        else { addC(s, mkBin(K::Ule, q, C(~(u64)0 / cc, 64))); addC(s, mkBin(K::Ult, r, c)); addC(s, mkBin(K::Ule, r, a.e)); }
      }
      fr.regs[ci.dst] = fromE(ci.opc == Instruction::SDiv || ci.opc == Instruction::UDiv ? q : r); fr.pc++; return HNext; }
    fr.regs[ci.dst] = binop(*this, ci.opc, a, b); fr.pc++; return HNext; }
  case Instruction::ICmp: {
    Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]); auto p = cast<ICmpInst>(ci.I)->getPredicate();
    if (a.agg) { vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); fr.regs[ci.dst] = AG(v); }
    else fr.regs[ci.dst] = icmp(p, a, b); fr.pc++; return HNext; }
  case Instruction::Trunc: { Val a = opv(s, fr, ci.ops[0]); unsigned w = ci.w; auto f = [&](const Val& x) { return x.e ? fromE(mkExtract(x.e, 0, w)) : CV(x.c, w); };
    if (a.agg) { w = tw(cast<VectorType>(ci.I->getType())->getElementType()); fr.regs[ci.dst] = mapAgg(a, f); } else fr.regs[ci.dst] = f(a); fr.pc++; return HNext; }
  case Instruction::ZExt: { Val a = opv(s, fr, ci.ops[0]); unsigned w = ci.w; auto f = [&](const Val& x) { return x.e ? fromE(mkZExt(x.e, w)) : CV(x.c, w); };
    if (a.agg) { w = tw(cast<VectorType>(ci.I->getType())->getElementType()); fr.regs[ci.dst] = mapAgg(a, f); } else fr.regs[ci.dst] = f(a); fr.pc++; return HNext; }
  case Instruction::SExt: { Val a = opv(s, fr, ci.ops[0]); unsigned w = ci.w; auto f = [&](const Val& x) { return x.e ? fromE(mkSExt(x.e, w)) : CV((u128)sx(x.c, x.w), w); };
    if (a.agg) { w = tw(cast<VectorType>(ci.I->getType())->getElementType()); fr.regs[ci.dst] = mapAgg(a, f); } else fr.regs[ci.dst] = f(a); fr.pc++; return HNext; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = opv(s, fr, ci.ops[0]); fr.regs[ci.dst] = a.e ? fromE(a.w >= ci.w ? mkExtract(a.e, 0, ci.w) : mkZExt(a.e, ci.w)) : CV(a.c, ci.w); fr.pc++; return HNext; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
    Val a = opv(s, fr, ci.ops[0]);
    if (ci.opc == Instruction::BitCast && (a.agg != nullptr) != !isScalar(ci.I->getType())) { // vector<->scalar
      if (a.agg) { E r = toE((*a.agg)[0]); for (size_t i = 1; i < a.agg->size(); i++) r = mkConcat(toE((*a.agg)[i]), r); a = fromE(r); }
      else { auto* vt = cast<FixedVectorType>(ci.I->getType()); unsigned ew = tw(vt->getElementType()); vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(fromE(mkExtract(toE(a), i * ew, ew))); a = AG(v); }
    }
    fr.regs[ci.dst] = a; fr.pc++; return HNext; }
  case Instruction::Select: {
    Val c = opv(s, fr, ci.ops[0]);
    if (!c.e && !c.agg) { fr.regs[ci.dst] = opv(s, fr, c.c ? ci.ops[1] : ci.ops[2]); fr.pc++; return HNext; }
    Val t = opv(s, fr, ci.ops[1]), f = opv(s, fr, ci.ops[2]);
    if (c.agg) { vector<Val> v; for (size_t i = 0; i < c.agg->size(); i++) v.push_back(iteVal(toE((*c.agg)[i]), (*t.agg)[i], (*f.agg)[i])); fr.regs[ci.dst] = AG(v); }
    else fr.regs[ci.dst] = iteVal(c.e, t, f);
    fr.pc++; return HNext; }
  case Instruction::GetElementPtr: {
    Val p = opv(s, fr, ci.ops[0]);
    if (ci.scaled.empty() && !p.e) { fr.regs[ci.dst] = CV((u64)p.c + ci.aux, 64); fr.pc++; return HNext; }
    bool sy = p.e; u64 acc = ci.aux; E off = nullptr;
    for (auto& sc : ci.scaled) { Val i = opv(s, fr, ci.ops[sc.first]); if (!i.e) acc += (u64)(i128)sx(i.c, i.w) * sc.second; else { E x = i.e->w < 64 ? mkSExt(i.e, 64) : mkExtract(i.e, 0, 64); x = mkBin(K::Mul, x, C(sc.second, 64)); off = off ? mkBin(K::Add, off, x) : x; sy = true; } }
    if (!sy) fr.regs[ci.dst] = CV((u64)p.c + acc, 64);
    else { E b = mkBin(K::Add, toE(p), C(acc, 64)); if (off) b = mkBin(K::Add, b, off); fr.regs[ci.dst] = fromE(b); }
    fr.pc++; return HNext; }
  case Instruction::Load: {
    Val p = opv(s, fr, ci.ops[0]); Type* t = ci.I->getType(); u64 n = DL->getTypeStoreSize(t); Ref r; const bool at = cast<LoadInst>(ci.I)->isAtomic(); if (!resolve(s, p, n, false, r, "load", at)) return HStop; if (at) acquire(s, r.ob->base + r.off, n, isAcquireOrStronger(cast<LoadInst>(ci.I)->getOrdering()));
    if (r.sym && !isScalar(t)) { u128 cv; concretize(s, p, cv); r.off = (u64)cv - r.ob->base; r.sym = false; }
    fr.regs[ci.dst] = loadTy(s, r, t); fr.pc++; return at && o.atomics ? atomicPoint(s) : HNext; }
  case Instruction::Store: {
    Val p = opv(s, fr, ci.ops[1]); Type* t = cast<StoreInst>(ci.I)->getValueOperand()->getType(); u64 n = DL->getTypeStoreSize(t); Ref r; const bool at = cast<StoreInst>(ci.I)->isAtomic(); if (!resolve(s, p, n, true, r, "store", at)) return HStop; if (at) release(s, r.ob->base + r.off, isReleaseOrStronger(cast<StoreInst>(ci.I)->getOrdering()));
    if (r.sym && !isScalar(t)) { u128 cv; concretize(s, p, cv); r.off = (u64)cv - r.ob->base; r.sym = false; }
    if (ci.ops[0].kind == 2) { Obj* ob = writable(s, r.ob->base); if (!r.sym) { if (ob->s.empty()) ob->s.assign(ob->size, nullptr); for (u64 i = 0; i < n; i++) ob->s[r.off + i] = UNINIT; } }
    else storeTy(s, r, t, opv(s, fr, ci.ops[0])); fr.pc++; return at && o.atomics ? atomicPoint(s) : HNext; }
  case Instruction::Alloca: {
    auto* ai = cast<AllocaInst>(ci.I); u128 n = 1; if (ai->isArrayAllocation()) { Val v = opv(s, fr, ci.ops[0]); concretize(s, v, n); }
    u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * (u64)n; auto ob = mkObj(s, sz, OStack, false); fr.allocas.push_back(ob->base); fr.regs[ci.dst] = CV(ob->base, 64); fr.pc++; return HNext; }
  case Instruction::Br: {
    if (ci.bb2 < 0) { jump(s, fr, ci.bb1); return HNext; }
    Val c = opv(s, fr, ci.ops[0]); if (!c.e) { jump(s, fr, c.c ? ci.bb1 : ci.bb2); return HNext; }
    branches++;
    bool mv = evalE(c.e, s.model); E mine = mv ? c.e : mkNot(c.e), other = mv ? mkNot(c.e) : c.e; Assignment a;
    if (query(s, other, a) == R::Sat) { auto n = clone(s); n->model = a; addC(*n, other); jump(*n, n->th[n->cur].st.back(), mv ? ci.bb2 : ci.bb1); pushFork(std::move(n)); addC(s, mine); } else learn(s, mine);
    jump(s, fr, mv ? ci.bb1 : ci.bb2); return HNext; }
  case Instruction::Switch: {
    Val c = opv(s, fr, ci.ops[0]);
    if (!c.e) { int d = ci.bb1; for (auto& k : ci.cases) if (k.first == c.c) { d = k.second; break; } jump(s, fr, d); return HNext; }
    branches++;
    std::map<int, E> dest; E def = C(1, 1); for (auto& k : ci.cases) { E q = mkEq(c.e, C(k.first, c.w)); auto it = dest.find(k.second); if (it == dest.end()) dest[k.second] = q; else it->second = mkBin(K::Or, it->second, q); def = mkBin(K::And, def, mkNot(q)); }
    { auto it = dest.find(ci.bb1); if (it == dest.end()) dest[ci.bb1] = def; else it->second = mkBin(K::Or, it->second, def); }
    int my = -1; for (auto& d : dest) if (evalE(d.second, s.model)) my = d.first;
    if (my < 0) die("switch");
    bool forked = false;
    for (auto& d : dest) if (d.first != my) { Assignment a; if (query(s, d.second, a) == R::Sat) { forked = true; auto n = clone(s); n->model = a; addC(*n, d.second); jump(*n, n->th[n->cur].st.back(), d.first); pushFork(std::move(n)); } }
    if (forked) addC(s, dest[my]); jump(s, fr, my); return HNext; }
  case Instruction::Ret: {
    Val r; bool has = !ci.ops.empty(); if (has) r = opv(s, fr, ci.ops[0]); bool disc = fr.discard;
    if (fr.hasOverride) { r = fr.retOverride; has = true; }
    popAllocas(s, fr); T.st.pop_back();
    if (T.st.empty()) { if (s.cur == 0) { pathDone(s); return HStop; } T.status = TDone; for (auto& t : s.th) if (t.status == TJoin && t.joinTid == s.cur) t.status = TRun; return schedule(s); }
    if (disc) return HNext;
    Frame& c = T.st.back(); CIns& k = c.f->code[c.pc]; if (k.dst >= 0 && has) c.regs[k.dst] = r; if (k.opc == Instruction::Invoke) jump(s, c, k.bb1); else c.pc++; return HNext; }
  case Instruction::ExtractValue: { Val a = opv(s, fr, ci.ops[0]); for (unsigned i : cast<ExtractValueInst>(ci.I)->indices()) { Val t = (*a.agg)[i]; a = t; } fr.regs[ci.dst] = a; fr.pc++; return HNext; }
  case Instruction::InsertValue: {
    Val a = opv(s, fr, ci.ops[0]), v = opv(s, fr, ci.ops[1]); auto idx = cast<InsertValueInst>(ci.I)->getIndices();
    std::function<Val(const Val&, size_t)> ins = [&](const Val& x, size_t d) -> Val { if (d == idx.size()) return v; vector<Val> t = *x.agg; t[idx[d]] = ins(t[idx[d]], d + 1); return AG(t); };
    fr.regs[ci.dst] = ins(a, 0); fr.pc++; return HNext; }
  case Instruction::ExtractElement: { Val a = opv(s, fr, ci.ops[0]), i = opv(s, fr, ci.ops[1]); u128 k; concretize(s, i, k); fr.regs[ci.dst] = (*a.agg)[(size_t)k]; fr.pc++; return HNext; }
  case Instruction::InsertElement: { Val a = opv(s, fr, ci.ops[0]), v = opv(s, fr, ci.ops[1]), i = opv(s, fr, ci.ops[2]); u128 k; concretize(s, i, k); vector<Val> t = *a.agg; t[(size_t)k] = v; fr.regs[ci.dst] = AG(t); fr.pc++; return HNext; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(ci.I); Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]); vector<Val> t; size_t n = a.agg->size(); for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? CV(0, (*a.agg)[0].w) : (size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); fr.regs[ci.dst] = AG(t); fr.pc++; return HNext; }
  case Instruction::Unreachable: violate(s, "unreachable", "unreachable code reached (undefined behaviour)", s.model); return HStop;
  case Instruction::Resume: { Val a = opv(s, fr, ci.ops[0]); return doThrow(s, (u64)(*a.agg)[0].c); }
  case Instruction::Fence: fence(s, cast<FenceInst>(ci.I)->getOrdering()); fr.pc++; return HNext;
  case Instruction::AtomicRMW: {
    auto* rm = cast<AtomicRMWInst>(ci.I); Val p = opv(s, fr, ci.ops[0]), v = opv(s, fr, ci.ops[1]); Ref r; if (!resolve(s, p, (v.w + 7) / 8, true, r, "atomicrmw", true)) return HStop; acquire(s, r.ob->base + r.off, (v.w + 7) / 8, isAcquireOrStronger(rm->getOrdering())); release(s, r.ob->base + r.off, isReleaseOrStronger(rm->getOrdering())); Val old = loadAt(s, r, v.w); Val nv;
    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(*this, Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = binop(*this, Instruction::Sub, old, v); break; case AtomicRMWInst::And: nv = binop(*this, Instruction::And, old, v); break; case AtomicRMWInst::Or: nv = binop(*this, Instruction::Or, old, v); break; case AtomicRMWInst::Xor: nv = binop(*this, Instruction::Xor, old, v); break; default: problem("atomicrmw op"); return HStop; }
    bool in; r.ob = findObj(s, r.ob->base, in); storeAt(s, r, nv, v.w); fr.regs[ci.dst] = old; fr.pc++; return o.atomics ? atomicPoint(s) : HNext; }
  case Instruction::AtomicCmpXchg: {
    Val p = opv(s, fr, ci.ops[0]), c = opv(s, fr, ci.ops[1]), n = opv(s, fr, ci.ops[2]); Ref r; if (!resolve(s, p, (c.w + 7) / 8, true, r, "cmpxchg", true)) return HStop; const auto so = cast<AtomicCmpXchgInst>(ci.I)->getSuccessOrdering(); acquire(s, r.ob->base + r.off, (c.w + 7) / 8, isAcquireOrStronger(so)); release(s, r.ob->base + r.off, isReleaseOrStronger(so)); Val old = loadAt(s, r, c.w); Val eq = icmp(CmpInst::ICMP_EQ, old, c); Val nv = iteVal(toE(eq), n, old); bool in; r.ob = findObj(s, r.ob->base, in); storeAt(s, r, nv, c.w); fr.regs[ci.dst] = AG({old, eq}); fr.pc++; return o.atomics ? atomicPoint(s) : HNext; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]); if (a.e || b.e || a.agg) { problem("symbolic floating point"); return HStop; }
    auto f = [&](auto x, auto y) { switch (ci.opc) { case Instruction::FAdd: return x + y; case Instruction::FSub: return x - y; case Instruction::FMul: return x * y; default: return x / y; } };
    if (a.w == 64) { double x, y, z; u64 t = (u64)a.c; memcpy(&x, &t, 8); t = (u64)b.c; memcpy(&y, &t, 8); z = f(x, y); memcpy(&t, &z, 8); fr.regs[ci.dst] = CV(t, 64); }
    else { float x, y, z; u32 t = (u32)a.c; memcpy(&x, &t, 4); t = (u32)b.c; memcpy(&y, &t, 4); z = f(x, y); memcpy(&t, &z, 4); fr.regs[ci.dst] = CV(t, 32); }
    fr.pc++; return HNext; }
  case Instruction::UIToFP: case Instruction::SIToFP: { Val a = opv(s, fr, ci.ops[0]); if (a.e || a.agg) { problem("symbolic floating point"); return HStop; } double d = ci.opc == Instruction::UIToFP ? (double)(u64)a.c : (double)(int64_t)sx(a.c, a.w); if (ci.w == 64) { u64 t; memcpy(&t, &d, 8); fr.regs[ci.dst] = CV(t, 64); } else { float f = (float)d; u32 t; memcpy(&t, &f, 4); fr.regs[ci.dst] = CV(t, 32); } fr.pc++; return HNext; }
  case Instruction::FPToUI: case Instruction::FPToSI: { Val a = opv(s, fr, ci.ops[0]); if (a.e || a.agg) { problem("symbolic floating point"); return HStop; } double d; if (a.w == 64) { u64 t = (u64)a.c; memcpy(&d, &t, 8); } else { float f; u32 t = (u32)a.c; memcpy(&f, &t, 4); d = f; } fr.regs[ci.dst] = CV(ci.opc == Instruction::FPToUI ? (u128)(u64)d : (u128)(i128)(int64_t)d, ci.w); fr.pc++; return HNext; }
  case Instruction::FCmp: { Val a = opv(s, fr, ci.ops[0]), b = opv(s, fr, ci.ops[1]); if (a.e || b.e || a.agg) { problem("symbolic floating point"); return HStop; } double x, y; auto g = [&](const Val& v) { double d; if (v.w == 64) { u64 t = (u64)v.c; memcpy(&d, &t, 8); } else { float f; u32 t = (u32)v.c; memcpy(&f, &t, 4); d = f; } return d; }; x = g(a); y = g(b); auto p = cast<FCmpInst>(ci.I)->getPredicate(); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; default: break; } fr.regs[ci.dst] = CV(r, 1); fr.pc++; return HNext; }
  case Instruction::FPExt: { Val a = opv(s, fr, ci.ops[0]); if (a.e) { problem("symbolic floating point"); return HStop; } float f; u32 t = (u32)a.c; memcpy(&f, &t, 4); double d = f; u64 q; memcpy(&q, &d, 8); fr.regs[ci.dst] = CV(q, 64); fr.pc++; return HNext; }
  case Instruction::FPTrunc: { Val a = opv(s, fr, ci.ops[0]); if (a.e) { problem("symbolic floating point"); return HStop; } double d; u64 t = (u64)a.c; memcpy(&d, &t, 8); float f = (float)d; u32 q; memcpy(&q, &f, 4); fr.regs[ci.dst] = CV(q, 32); fr.pc++; return HNext; }
  case Instruction::Call: case Instruction::Invoke: {
    vector<Val> args; args.reserve(ci.ops.size()); for (auto& op : ci.ops) args.push_back(op.kind == 2 ? op.v : opv(s, fr, op));
    Function* F = ci.callee;
    if (!F) {
      if (cast<CallBase>(ci.I)->isInlineAsm()) { fr.pc++; return HNext; } // only compiler barriers occur (checked at load)
      Val fp = args.back(); args.pop_back(); u128 a; concretize(s, fp, a);
      auto it = faddr.find((u64)a); if (it == faddr.end()) { violate(s, "memory", a < 65536 ? "call through null function pointer" : "call through invalid function pointer", s.model); return HStop; }
      F = it->second;
    }
    Handler h = ci.h;
    if (!h || !ci.callee) { h = nullptr; 
      string nm = F->getName().str(); 
      if (F->isIntrinsic()) { auto p = nm.find('.', 5); string base = nm; (void)p; auto it = handlers.find(base); while (it == handlers.end()) { auto q = base.rfind('.'); if (q == string::npos || q < 5) break; base = base.substr(0, q); it = handlers.find(base); } if (it != handlers.end()) h = it->second; }
      else { auto it = handlers.find(nm); if (it != handlers.end()) h = it->second;
        if (!h && (ci.callee || F->isDeclaration())) { if (auto* M2 = M->getFunction("vpsys_" + nm)) if (!M2->isDeclaration()) F = M2; } }
      if (ci.callee) { ci.h = h; ci.callee = F; }
    }
    if (h) {
      Val ret; HR r = h(*this, s, ci, args, ret);
      if (r == HNext) { Frame& f2 = s.th[s.cur].st.back(); if (ci.dst >= 0) f2.regs[ci.dst] = ret; if (ci.opc == Instruction::Invoke) jump(s, f2, ci.bb1); else f2.pc++; }
      return r;
    }
    if (F->isDeclaration()) { problem("unmodelled external function " + demangle(F->getName().str()) + " called at " + where(s)); return HStop; }
    if ((int)T.st.size() > o.maxDepth) { violate(s, "stack", "unbounded recursion", s.model); return HStop; }
    auto* cb = cast<CallBase>(ci.I); size_t before = s.mem.size(); u64 nb = s.next; fixByval(s, cb, args); (void)before;
    bool pure = false;
    if (o.merge && !o.races && s.next == nb) {
      auto it = pureFn.find(F); if (it == pureFn.end()) it = pureFn.emplace(F, F->getReturnType()->isIntegerTy() && onlyReads(F, 0)).first;
      if (it->second) { pure = true; for (auto& a : args) pure = pure || a.e || a.agg; }
    }
    SP base; if (pure) base = std::make_unique<State>(s);
    pushFrame(s, F, args, false);
    if (pure) { HR r = mergeCall(std::move(base), s); return r == HStop ? HStop : HPushed; }
    if (s.next != nb) { for (unsigned i = 0; i < cb->arg_size() && i < args.size(); i++) if (cb->isByValArgument(i)) s.th[s.cur].st.back().allocas.push_back((u64)args[i].c); }
    return HPushed; }
  default: problem(string("unsupported instruction ") + ci.I->getOpcodeName()); return HStop;
  }
}

void Eng::runState(SP sp) {
  State& s = *sp;
  for (;;) {
    HR r = step(s);
    if (r == HStop) break;
    if (s.steps > o.maxSteps) { violate(s, "nontermination", "step bound exceeded", s.model); break; }
    if ((instrs & 0xffff) == 0 && late()) { timedOut = true; problem("time limit"); break; }
  }
  if (s.steps > maxPathSteps) maxPathSteps = s.steps;
}
void Eng::pathDone(State& s) {
  paths++; maxNds = std::max<u64>(maxNds, s.nds.size());
  sampleSeen++; rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  size_t pos = samples.size(); bool take = (int)samples.size() < o.samples; if (!take) { u64 k = (rng >> 33) % sampleSeen; if (k < (u64)o.samples) { take = true; pos = k; } }
  if (take) { Sample sm; for (auto& n : s.nds) sm.nds.push_back({ndVal(n, s.model), n.w}); for (auto& v : s.obs) sm.obs.push_back(ndVal(v, s.model)); if (pos == samples.size()) samples.push_back(sm); else samples[pos] = sm; }
}

#include "handlers.inc"
HR Eng::atomicPoint(State& s) { return yieldPoint(*this, s); }

void Eng::load(const string& file) {
  SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("vsym", errs()); exit(3); }
  DL = &M->getDataLayout();
  u64 fa = 0x10000000; for (auto& F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  for (auto& F : *M) for (auto& bb : F) for (auto& I : bb) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (!StringRef(ia->getAsmString()).trim().empty()) { problem("inline asm"); } }
}
void Eng::initState(State& s) {
  vector<std::pair<GlobalVariable*, ObjP>> init;
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 sz = g.hasInitializer() ? (u64)DL->getTypeAllocSize(g.getValueType()) : std::max<u64>(256, g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0);
    auto ob = mkObj(s, sz, OGlobal, true); gaddr[&g] = ob->base; gvAt[ob->base] = &g; init.push_back({&g, ob});
    if (g.isConstant()) { ob->ro = true; s.mem.erase(ob->base); gro[ob->base] = ob; }
  }
  for (auto& p : init) if (p.first->hasInitializer()) initMem(p.second.get(), 0, p.first->getInitializer());
  s.th.resize(1); s.cur = 0;
  auto eo = mkObj(s, 4, OOther, true); s.th[0].errnoAddr = eo->base;
  Function* F = M->getFunction(o.entry); if (!F) die("no entry " + o.entry);
  pushFrame(s, F, {}, false);
  vector<std::pair<u64, Function*>> ct;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(st->getOperand(1))) ct.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (size_t i = ct.size(); i-- > 0;) pushFrame(s, ct[i].second, {}, true);
}

static string esc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
string Eng::json(bool) {
  std::ostringstream o2; o2 << "{\"paths\":" << paths << ",\"assumed_out\":" << assumedOut << ",\"instructions\":" << instrs << ",\"forks\":" << forksTotal << ",\"symbolic_branches\":" << branches << ",\"checks\":" << checks << ",\"symbolic_checks\":" << symChecks << ",\"pending\":" << work.size() << ",\"max_path_steps\":" << maxPathSteps << ",\"max_inputs\":" << maxNds;
  o2 << ",\"solver\":{\"queries\":" << S.st.queries << ",\"cache_hits\":" << S.st.cacheHits << ",\"z3_calls\":" << S.st.z3calls << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"external\":" << S.st.external << ",\"unknown\":" << S.st.unknown << ",\"time_s\":" << S.st.time << "}";
  o2 << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"wall_s\":" << now() - t0;
  o2 << ",\"problems\":["; for (size_t i = 0; i < problems.size(); i++) o2 << (i ? "," : "") << "\"" << esc(problems[i]) << "\""; o2 << "]";
  o2 << ",\"covers\":{"; bool f = true; for (auto& c : covers) { o2 << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; } o2 << "}";
  o2 << ",\"check_ids\":{"; f = true; for (auto& c : checkIds) { o2 << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; } o2 << "}";
  auto nds = [&](const vector<std::pair<u64, unsigned>>& v) { o2 << "["; for (size_t i = 0; i < v.size(); i++) o2 << (i ? "," : "") << v[i].first; o2 << "]"; };
  o2 << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; o2 << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"id\":\"" << esc(v.id) << "\",\"where\":\"" << esc(v.where) << "\",\"uninit\":" << v.uninit << ",\"inputs\":"; nds(v.nds); o2 << "}"; } o2 << "]";
  o2 << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { o2 << (i ? "," : "") << "{\"inputs\":"; nds(samples[i].nds); o2 << ",\"obs\":["; for (size_t j = 0; j < samples[i].obs.size(); j++) o2 << (j ? "," : "") << samples[i].obs[j]; o2 << "]}"; } o2 << "]";
  // executed source functions and lines
  std::map<string, std::set<unsigned>> lines; std::set<string> fns;
  for (auto& p : fcache) for (auto& ci : p.second->code) if (ci.hit && ci.I) if (auto& dl = ci.I->getDebugLoc()) for (DILocation* L = dl.get(); L; L = L->getInlinedAt()) { string fn = L->getFilename().str(); if (fn.find(o.srcFilter) == string::npos) { auto d = L->getDirectory().str(); if (d.find(o.srcFilter) == string::npos) continue; } auto* sp = L->getScope()->getSubprogram(); lines[fn].insert(L->getLine()); if (sp) fns.insert(sp->getName().str()); }
  o2 << ",\"functions\":["; f = true; for (auto& x : fns) { o2 << (f ? "" : ",") << "\"" << esc(x) << "\""; f = false; } o2 << "]";
  o2 << ",\"lines\":{"; f = true; for (auto& x : lines) { o2 << (f ? "" : ",") << "\"" << esc(x.first) << "\":["; bool g = true; for (unsigned l : x.second) { o2 << (g ? "" : ",") << l; g = false; } o2 << "]"; f = false; } o2 << "}}";
  return o2.str();
}

int main(int argc, char** argv) {
  Eng g; string file; string outdir = "/tmp";
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") g.o.entry = nx(); else if (a == "--out") g.o.out = nx(); else if (a == "--max-time") g.o.maxTime = stod(nx()); else if (a == "--jobs") g.o.jobs = stoi(nx()); else if (a == "--max-steps") g.o.maxSteps = stoull(nx()); else if (a == "--seed") g.o.seed = stoull(nx()); else if (a == "--samples") g.o.samples = stoi(nx()); else if (a == "--max-viol") g.o.maxViol = stoi(nx()); else if (a == "--preempt") g.o.maxPreempt = stoi(nx()); else if (a == "--no-merge") g.o.merge = false; else if (a == "--no-hurry") g.o.hurry = false; else if (a == "--stop") g.o.stopFile = nx(); else if (a == "--races") g.o.races = true; else if (a == "--sched") g.o.sched = true; else if (a == "--atomics") g.o.atomics = true; else if (a == "--split") g.o.split = stoi(nx()); else if (a == "--src") g.o.srcFilter = nx(); else if (a == "-v") g.o.verbose = true; else if (a == "--depth") g.o.maxDepth = stoi(nx()); else file = a; }
  if (g.o.out.empty()) g.o.out = "/dev/stdout";
  g.rng = g.o.seed * 2654435761u + 1; g.deadline = g.t0 + g.o.maxTime;
  if (g.o.out != "/dev/stdout") { auto p = g.o.out.rfind('/'); g.S.tmpdir = p == string::npos ? "." : g.o.out.substr(0, p); }
  auto* ctr = (volatile u32*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctr[0] = ctr[1] = ctr[2] = 0; g.shared = ctr;
  g.load(file); g.registerAll();
  auto s0 = std::make_unique<State>(); g.initState(*s0); g.work.push_back(std::move(s0));
  // breadth-first split
  while (!g.work.empty() && (int)g.work.size() < g.o.split && !g.stopNow() && g.paths < 2000 && now() - g.t0 < 20) {
    // take oldest
    SP s = std::move(g.work.front()); g.work.erase(g.work.begin()); 
    State& st = *s; size_t before = g.work.size(); bool alive = true;
    for (;;) { HR r = g.step(st); if (r == HStop) { alive = false; break; } if (st.steps > g.o.maxSteps) { g.violate(st, "nontermination", "step bound exceeded", st.model); alive = false; break; } if (g.work.size() != before) break; if ((g.instrs & 0xfff) == 0 && g.late()) { g.timedOut = true; g.problem("time limit"); alive = false; break; } }
    if (alive) g.work.push_back(std::move(s));
  }
  if (g.work.empty() || g.stopNow() || g.o.jobs <= 1) { if (!g.stopNow()) g.explore(); std::ofstream(g.o.out) << "[" << g.json(false) << "]\n"; _exit(0); }
  // parallel
  vector<SP> init = std::move(g.work); g.work.clear();
  string base = g.o.out; vector<pid_t> pids; u32 nst = (u32)init.size();
  for (int j = 0; j < g.o.jobs; j++) {
    pid_t p = fork();
    if (!p) {
      Eng& e = g; e.paths = e.assumedOut = e.instrs = e.forksTotal = e.branches = e.checks = e.symChecks = 0; e.covers.clear(); e.checkIds.clear(); e.samples.clear(); e.sampleSeen = 0; e.S.st = SolverStats(); e.rng += j * 7919; 
      for (;;) { if (e.stopNow() || ctr[1]) break; u32 i = __sync_fetch_and_add((u32*)&ctr[0], 1); if (i >= nst) break; e.work.push_back(std::move(init[i])); 
        while (!e.work.empty() && !e.stopNow()) { if (e.late()) { e.timedOut = true; e.problem("time limit"); break; } if (ctr[1]) break; SP s = std::move(e.work.back()); e.work.pop_back(); e.runState(std::move(s)); } 
        if (!e.viols.empty() && (int)e.viols.size() >= e.o.maxViol) ctr[1] = 1; }
      std::ofstream f(base + ".w" + std::to_string(j)); f << e.json(true) << "\n"; f.close(); _exit(0);
    }
    pids.push_back(p);
  }
  std::ostringstream all; all << "[" << g.json(false); int bad = 0;
  for (size_t j = 0; j < pids.size(); j++) { int st; waitpid(pids[j], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; continue; } std::ifstream f(base + ".w" + std::to_string(j)); std::stringstream ss; ss << f.rdbuf(); all << "," << ss.str(); unlink((base + ".w" + std::to_string(j)).c_str()); }
  all << "]\n"; std::ofstream(base) << all.str();
  if (bad) { fprintf(stderr, "vsym: %d worker(s) failed\n", bad); _exit(3); }
  _exit(0);
}
