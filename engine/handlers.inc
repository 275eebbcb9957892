// Built-in models: harness API, memory, libc leaf functions, C++ ABI, LLVM intrinsics, pthreads.
#define H(name) [](Eng& g, State& s, CIns& ci, vector<Val>& a, Val& ret) -> HR
static string cstr(Eng& g, State& s, const Val& p) {
  string r; if (p.e) return "?"; u64 ad = (u64)p.c; for (int i = 0; i < 200; i++) { bool in; Obj* o = g.findObj(s, ad + i, in); if (!o || ad + i >= o->base + o->size) break; u64 off = ad + i - o->base; if (!o->s.empty() && o->s[off]) break; if (!o->b[off]) break; r += (char)o->b[off]; } return r; }
static HR doCheck(Eng& g, State& s, const Val& c, const string& id) {
  g.checks++; g.checkIds[id]++;
  E e = g.simp(s, toE(c)); if (e->w != 1) e = mkNot(mkEq(e, C(0, e->w)));
  if (isC(e)) { if (e->c) return HNext; g.violate(s, "check", id, s.model); return HStop; }
  g.symChecks++;
  bool mv = evalE(e, s.model); Assignment m;
  if (!mv) { g.violate(s, "check", id, s.model); if (g.query(s, e, m) != R::Sat) return HStop; s.model = m; g.addC(s, e); return HNext; }
  if (g.query(s, mkNot(e), m) == R::Sat) { g.violate(s, "check", id, m); g.addC(s, e); }
  return HNext;
}
static Val fresh(State& s, unsigned w) { Val v = fromE(sym(s.nsym++, w)); return v; }
static HR doAlloc(Eng& g, State& s, const Val& n, Val& ret, bool zero) {
  u128 k; g.concretize(s, n, k); if (k > (u128)1 << 26) { g.violate(s, "memory", "absurd allocation size", s.model); return HStop; }
  auto ob = g.mkObj(s, (u64)k, OHeap, zero); s.heapLive++; ret = CV(ob->base, 64); return HNext; }
static HR doFree(Eng& g, State& s, const Val& p, u32) {
  u128 k; g.concretize(s, p, k); if (!k) return HNext; auto it = s.mem.find((u64)k);
  if (it == s.mem.end() || it->second->kind != OHeap) { g.violate(s, "memory", "invalid or double free", s.model); return HStop; }
  if (g.o.races && s.th.size() > 1 && !g.raceCheck(s, it->first, it->second->size, 0, it->second->size, true, "free")) return HStop;
  s.mem.erase(it); s.shadow.erase((u64)k); s.heapLive--; return HNext; }
static HR doCopy(Eng& g, State& s, const Val& d, const Val& sp, const Val& n, bool move) {
  if (!n.e && n.c == 0) return HNext;
  Val dv = d, sv = sp;
  u128 da, sa; g.concretize(s, d, da); g.concretize(s, sp, sa);
  u128 k;
  E ne = n.e ? g.simp(s, n.e) : nullptr;
  if (!n.e || isC(ne)) k = n.e ? ne->c : n.c;
  else {
    // symbolic length: bound by the objects
    bool i1, i2; Obj* od = g.findObj(s, (u64)da, i1); Obj* os = g.findObj(s, (u64)sa, i2); Assignment m;
    u64 avd = od ? od->base + od->size - (u64)da : 0, avs = os ? os->base + os->size - (u64)sa : 0; u64 av = std::min(avd, avs);
    E bad = mkBin(K::Ult, C(av, 64), n.e);
    if (g.mayBeTrue(s, bad, m)) { s.model = m; g.violate(s, "memory", "memcpy/memmove: out of bounds", m); if (g.query(s, mkNot(bad), m) != R::Sat) return HStop; s.model = m; g.addC(s, mkNot(bad)); }
    if (av > 2048 || (!move && od == os)) { g.concretize(s, n, k); }
    else {
      if (!av) return HNext;
      if (!i1 || od->ro) { g.violate(s, "memory", "memcpy: write to read-only memory", s.model); return HStop; }
      vector<E> sb; u64 so = (u64)sa - os->base, dof = (u64)da - od->base; u64 sbase = os->base;
      for (u64 i = 0; i < av; i++) { bool in; Obj* q = g.findObj(s, sbase, in); sb.push_back(q->s.empty() || !q->s[so + i] ? C(q->b[so + i], 8) : q->s[so + i]); }
      for (u64 i = 0; i < av; i++) {
        E c = mkBin(K::Ult, C(i, 64), n.e); if (isC(c) && !c->c) break;
        Assignment tmp; 
        Obj* w = g.writable(s, (u64)da - dof);
        E old = w->s.empty() || !w->s[dof + i] ? C(w->b[dof + i], 8) : w->s[dof + i]; E nv = sb[i];
        if (isC(c) && c->c) { g.setByte(w, dof + i, nv); continue; }
        if (nv == UNINIT && old == UNINIT) continue;
        if (nv == UNINIT) { nv = sym(s.nsym++, 8); s.uninit++; } if (old == UNINIT) { old = sym(s.nsym++, 8); s.uninit++; }
        w = g.writable(s, (u64)da - dof); g.setByte(w, dof + i, mkIte(c, nv, old));
      }
      return HNext;
    }
  }
  if (!k) return HNext;
  if (k >> 62) { g.violate(s, "memory", "memcpy/memmove: huge size", s.model); return HStop; }
  Eng::Ref rd, rs; if (!g.resolve(s, CV(sa, 64), (u64)k, false, rs, "memcpy source")) return HStop; if (!g.resolve(s, CV(da, 64), (u64)k, true, rd, "memcpy destination")) return HStop;
  if (!move && da != sa && ((da < sa && da + k > sa) || (sa < da && sa + k > da))) { g.violate(s, "memory", "memcpy: overlapping ranges", s.model); return HStop; }
  bool in; Obj* src = g.findObj(s, (u64)sa, in); if (src->base != rs.ob->base) src = rs.ob;
  g.copyBytes(s, rd.ob->base, rd.off, rs.ob, rs.off, (u64)k);
  return HNext;
}
static HR doSet(Eng& g, State& s, const Val& d, const Val& b, const Val& n) {
  u128 da, k; g.concretize(s, d, da);
  E by = mkExtract(toE(b), 0, 8);
  if (n.e && !isC(g.simp(s, n.e))) {
    bool i1; Obj* od = g.findObj(s, (u64)da, i1); u64 av = od ? od->base + od->size - (u64)da : 0; Assignment m; E bad = mkBin(K::Ult, C(av, 64), n.e);
    if (g.mayBeTrue(s, bad, m)) { g.violate(s, "memory", "memset: out of bounds", m); if (g.query(s, mkNot(bad), m) != R::Sat) return HStop; s.model = m; g.addC(s, mkNot(bad)); }
    if (av <= 2048) { u64 base = od ? od->base : 0, off = (u64)da - base;
      for (u64 i = 0; i < av; i++) { E c = mkBin(K::Ult, C(i, 64), n.e); Obj* w = g.writable(s, base); E old = w->s.empty() || !w->s[off + i] ? C(w->b[off + i], 8) : w->s[off + i]; if (old == UNINIT) { old = sym(s.nsym++, 8); s.uninit++; } g.setByte(w, off + i, mkIte(c, by, old)); }
      return HNext; }
  }
  g.concretize(s, n, k); if (!k) return HNext; Eng::Ref r; if (!g.resolve(s, CV(da, 64), (u64)k, true, r, "memset")) return HStop;
  Obj* w = g.writable(s, r.ob->base); for (u64 i = 0; i < (u64)k; i++) g.setByte(w, r.off + i, by); return HNext;
}
static bool rdBytes(Eng& g, State& s, const Val& p, u64 n, vector<E>& out, const char* what) {
  u128 pa; g.concretize(s, p, pa); Eng::Ref r; if (!n) return true; if (!g.resolve(s, CV(pa, 64), n, false, r, what)) return false;
  u64 base = r.ob->base; for (u64 i = 0; i < n; i++) { bool in; Obj* ob = g.findObj(s, base, in); out.push_back(g.byteAt(s, ob, r.off + i, in)); } return true; }
static Val cmpBytes(const vector<E>& x, const vector<E>& y, size_t n) { E r = C(0, 32); for (size_t i = n; i-- > 0;) { E d = mkBin(K::Sub, mkZExt(x[i], 32), mkZExt(y[i], 32)); r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkBin(K::Ult, x[i], y[i]), C(-1, 32), C(1, 32))); (void)d; } return fromE(r); }
static HR ovf(Eng& g, vector<Val>& a, Val& ret, K k, bool sg) {
  unsigned w = a[0].w; E x = toE(a[0]), y = toE(a[1]); E r = mkBin(k, x, y), o;
  if (k == K::Add && !sg) o = mkBin(K::Ult, r, x); else if (k == K::Sub && !sg) o = mkBin(K::Ult, x, y);
  else if (k == K::Mul && !sg && isC(y)) o = y->c ? mkBin(K::Ult, C(maskw(w) / y->c, w), x) : C(0, 1);
  else if (k == K::Mul && !sg && isC(x)) o = x->c ? mkBin(K::Ult, C(maskw(w) / x->c, w), y) : C(0, 1);
  else if (k == K::Mul && sg && isC(y) && sx(y->c, w) > 0) { i128 c = sx(y->c, w), mx = (i128)(maskw(w) >> 1), mn = -mx - 1; o = mkBin(K::Or, mkBin(K::Slt, C((u128)(mx / c), w), x), mkBin(K::Slt, x, C((u128)(mn / c), w))); }
  else if (k == K::Mul) { unsigned dw = w * 2; if (dw > 128) { g.problem("wide mul overflow"); return HStop; } E xx = sg ? mkSExt(x, dw) : mkZExt(x, dw), yy = sg ? mkSExt(y, dw) : mkZExt(y, dw); E p = mkBin(K::Mul, xx, yy); E rr = sg ? mkSExt(r, dw) : mkZExt(r, dw); o = mkNot(mkEq(p, rr)); }
  else { E sx_ = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); if (k == K::Sub) sy = mkNot(sy); o = mkBin(K::And, mkEq(sx_, sy), mkNot(mkEq(sx_, sr))); }
  ret = AG({fromE(r), fromE(o)}); return HNext; }
static HR yieldPoint(Eng& g, State& s) { // optional preemption: fork to other runnable threads; called with pc already advanced
  g.decide(s, s.cur);
  if (s.preempt >= g.o.maxPreempt) return HPushed;
  for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].status == TRun) { auto n = g.clone(s); n->cur = (int)i; n->preempt++; if (g.o.sched) n->nds.back() = CV(i, 8); g.pushFork(std::move(n)); }
  return HPushed; }
static void advance(State& s, CIns& ci, Eng& g, const Val& ret) { Frame& f = s.th[s.cur].st.back(); if (ci.dst >= 0) f.regs[ci.dst] = ret; if (ci.opc == Instruction::Invoke) g.jump(s, f, ci.bb1); else f.pc++; }

void Eng::registerAll() {
  auto& h = handlers;
  // --- harness API
  h["vp_nd"] = H() { u128 w; g.concretize(s, a[0], w); Val v = fresh(s, (unsigned)w); s.nds.push_back(v); ret = w < 64 ? fromE(mkZExt(v.e, 64)) : v; return HNext; };
  h["vp_nd_bytes"] = H() { u128 p, n; g.concretize(s, a[0], p); g.concretize(s, a[1], n); Eng::Ref r; if (!n) return HNext; if (!g.resolve(s, CV(p, 64), (u64)n, true, r, "vp_nd_bytes")) return HStop; Obj* w = g.writable(s, r.ob->base); for (u64 i = 0; i < (u64)n; i++) { Val v = fresh(s, 8); s.nds.push_back(v); g.setByte(w, r.off + i, v.e); } return HNext; };
  h["vp_choose"] = H() { u128 n; g.concretize(s, a[0], n); if (!n) return HStop; for (u64 i = 1; i < (u64)n; i++) { auto c = g.clone(s); c->nds.push_back(CV(i, 64)); advance(*c, ci, g, CV(i, 64)); g.pushFork(std::move(c)); } s.nds.push_back(CV(0, 64)); ret = CV(0, 64); return HNext; };
  h["vp_assume"] = H() { E e = toE(a[0]); if (e->w != 1) e = mkNot(mkEq(e, C(0, e->w))); if (isC(e)) { if (!e->c) { g.assumedOut++; return HStop; } return HNext; } if (!evalE(e, s.model)) { Assignment m; if (g.query(s, e, m) != R::Sat) { g.assumedOut++; return HStop; } s.model = m; } g.addC(s, e); return HNext; };
  h["vp_check"] = H() { return doCheck(g, s, a[0], cstr(g, s, a[1])); };
  h["vp_fail"] = H() { g.checks++; g.violate(s, "check", cstr(g, s, a[0]), s.model); return HStop; };
  h["vp_cover"] = H() { g.covers[cstr(g, s, a[0])]++; return HNext; };
  h["vp_cover_if"] = H() { string id = cstr(g, s, a[1]); if (g.covers.count(id)) return HNext; E e = toE(a[0]); if (e->w != 1) e = mkNot(mkEq(e, C(0, e->w))); Assignment m; if (g.mayBeTrue(s, e, m)) g.covers[id]++; return HNext; };
  h["vp_observe"] = H() { s.obs.push_back(a[0]); return HNext; };
  h["vp_conc"] = H() { u128 v; g.concretize(s, a[0], v); ret = CV(v, 64); return HNext; };
  h["vp_heap_live"] = H() { ret = CV(s.heapLive, 64); return HNext; };
  h["vp_const"] = H() { ret = CV(!a[0].e, 32); return HNext; };
  h["vp_norace_"] = H() { bool in; Obj* ob = g.findObj(s, (u64)a[0].c, in); if (ob) s.norace.insert(ob->base); return HNext; };
  h["vp_symbolic"] = H() { ret = CV(1, 32); return HNext; };
  h["vp_done"] = H() { g.pathDone(s); return HStop; };
  h["vp_readable"] = H() { u128 p, n; g.concretize(s, a[0], p); g.concretize(s, a[1], n); bool in; Obj* o = g.findObj(s, (u64)p, in); bool ok = o && (u64)p + (u64)n <= o->base + o->size; if (!n) ok = true; ret = CV(ok, ci.w ? ci.w : 1); return HNext; };
  h["vp_yield"] = H() { advance(s, ci, g, ret); return yieldPoint(g, s); };
  // --- allocation
  for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) h[n] = H() { return doAlloc(g, s, a[0], ret, false); };
  h["calloc"] = H() { u128 x, y; g.concretize(s, a[0], x); g.concretize(s, a[1], y); return doAlloc(g, s, CV(x * y, 64), ret, true); };
  h["aligned_alloc"] = H() { return doAlloc(g, s, a[1], ret, false); };
  h["posix_memalign"] = H() { Val p; u128 q; g.concretize(s, a[0], q); HR r = doAlloc(g, s, a[2], p, false); if (r != HNext) return r; Eng::Ref rf; if (!g.resolve(s, CV(q, 64), 8, true, rf, "posix_memalign")) return HStop; g.storeAt(s, rf, p, 64); ret = CV(0, 32); return HNext; };
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t"}) h[n] = H() { return doFree(g, s, a[0], 0); };
  // --- mem*
  h["memcpy"] = H() { ret = a[0]; return doCopy(g, s, a[0], a[1], a[2], false); };
  h["memmove"] = H() { ret = a[0]; return doCopy(g, s, a[0], a[1], a[2], true); };
  h["memset"] = H() { ret = a[0]; return doSet(g, s, a[0], a[1], a[2]); };
  h["llvm.memcpy"] = h["llvm.memcpy.inline"] = H() { return doCopy(g, s, a[0], a[1], a[2], false); };
  h["llvm.memmove"] = H() { return doCopy(g, s, a[0], a[1], a[2], true); };
  h["llvm.memset"] = h["llvm.memset.inline"] = H() { return doSet(g, s, a[0], a[1], a[2]); };
  h["memcmp"] = h["bcmp"] = H() { u128 n; g.concretize(s, a[2], n); vector<E> x, y; if (!rdBytes(g, s, a[0], (u64)n, x, "memcmp")) return HStop; if (!rdBytes(g, s, a[1], (u64)n, y, "memcmp")) return HStop; ret = cmpBytes(x, y, (size_t)n); return HNext; };
  // --- errno / misc libc
  h["__errno_location"] = H() { ret = CV(s.th[s.cur].errnoAddr, 64); return HNext; };
  h["__cxa_atexit"] = h["__cxa_thread_atexit"] = h["atexit"] = H() { ret = CV(0, 32); return HNext; };
  h["abort"] = H() { g.violate(s, "abort", "abort() called", s.model); return HStop; };
  h["exit"] = h["_exit"] = H() { g.violate(s, "abort", "exit() called", s.model); return HStop; };
  h["_ZSt9terminatev"] = H() { g.violate(s, "terminate", "std::terminate called", s.model); return HStop; };
  h["__assert_fail"] = H() { g.violate(s, "assert", "assert failed: " + cstr(g, s, a[0]), s.model); return HStop; };
  h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = H() { g.violate(s, "assert", "libstdc++ assertion failed", s.model); return HStop; };
  h["__cxa_pure_virtual"] = H() { g.violate(s, "abort", "pure virtual call", s.model); return HStop; };
  h["llvm.trap"] = h["llvm.ubsantrap"] = h["llvm.debugtrap"] = H() { g.violate(s, "ub", "undefined behaviour trap", s.model); return HStop; };
  // --- intrinsics
  for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.stackrestore", "llvm.invariant.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.donothing", "llvm.var.annotation"}) h[n] = H() { return HNext; };
  h["llvm.stacksave"] = h["llvm.invariant.start"] = H() { ret = CV(0, 64); return HNext; };
  h["llvm.expect"] = h["llvm.launder.invariant.group"] = h["llvm.strip.invariant.group"] = h["llvm.ptr.annotation"] = H() { ret = a[0]; return HNext; };
  h["llvm.is.constant"] = H() { ret = CV(0, 1); return HNext; };
  h["llvm.objectsize"] = H() { ret = CV(a[1].c ? 0 : ~(u128)0, ci.w); return HNext; };
  h["llvm.threadlocal.address"] = H() { auto* gv = dyn_cast<GlobalVariable>(cast<CallBase>(ci.I)->getArgOperand(0)->stripPointerCasts()); if (!gv || s.cur == 0) { ret = a[0]; return HNext; }
    auto& t = s.th[s.cur]; auto it = t.tls.find(gv); if (it == t.tls.end()) { auto ob = g.mkObj(s, g.DL->getTypeAllocSize(gv->getValueType()), OGlobal, true); if (gv->hasInitializer()) g.initMem(ob.get(), 0, gv->getInitializer()); it = t.tls.emplace(gv, ob->base).first; } ret = CV(it->second, 64); return HNext; };
  h["llvm.uadd.with.overflow"] = H() { return ovf(g, a, ret, K::Add, false); }; h["llvm.usub.with.overflow"] = H() { return ovf(g, a, ret, K::Sub, false); }; h["llvm.umul.with.overflow"] = H() { return ovf(g, a, ret, K::Mul, false); };
  h["llvm.sadd.with.overflow"] = H() { return ovf(g, a, ret, K::Add, true); }; h["llvm.ssub.with.overflow"] = H() { return ovf(g, a, ret, K::Sub, true); }; h["llvm.smul.with.overflow"] = H() { return ovf(g, a, ret, K::Mul, true); };
  h["llvm.umax"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Ult, x, y), y, x)); return HNext; };
  h["llvm.umin"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Ult, x, y), x, y)); return HNext; };
  h["llvm.smax"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Slt, x, y), y, x)); return HNext; };
  h["llvm.smin"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Slt, x, y), x, y)); return HNext; };
  h["llvm.load.relative"] = H() { u128 p, off, d = 0; g.concretize(s, a[0], p); g.concretize(s, a[1], off); off = (u128)(u64)sx(off, a[1].w); vector<E> x; if (!rdBytes(g, s, CV((u64)(p + off), 64), 4, x, "load.relative")) return HStop;
    for (int i = 3; i >= 0; i--) { u128 b; g.concretize(s, fromE(x[i]), b); d = d << 8 | b; } ret = CV((u64)(p + (u128)sx(d, 32)), 64); return HNext; };
  h["llvm.abs"] = H() { E x = toE(a[0]); ret = fromE(mkIte(mkBin(K::Slt, x, C(0, x->w)), mkBin(K::Sub, C(0, x->w), x), x)); return HNext; };
  h["llvm.usub.sat"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Ult, x, y), C(0, x->w), mkBin(K::Sub, x, y))); return HNext; };
  h["llvm.uadd.sat"] = H() { E x = toE(a[0]), y = toE(a[1]); E r = mkBin(K::Add, x, y); ret = fromE(mkIte(mkBin(K::Ult, r, x), C(maskw(x->w), x->w), r)); return HNext; };
  h["llvm.bswap"] = H() { E x = toE(a[0]); E r = mkExtract(x, 0, 8); for (unsigned i = 8; i < x->w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret = fromE(r); return HNext; };
  h["llvm.fshl"] = H() { E x = toE(a[0]), y = toE(a[1]), z = toE(a[2]); if (!isC(z)) { g.problem("symbolic funnel shift"); return HStop; } unsigned n = (unsigned)(z->c % x->w); ret = n ? fromE(mkConcat(mkExtract(x, 0, x->w - n), mkExtract(y, x->w - n, n))) : a[0]; return HNext; };
  h["llvm.fshr"] = H() { E x = toE(a[0]), y = toE(a[1]), z = toE(a[2]); if (!isC(z)) { g.problem("symbolic funnel shift"); return HStop; } unsigned n = (unsigned)(z->c % x->w); ret = n ? fromE(mkConcat(mkExtract(x, 0, n), mkExtract(y, n, x->w - n))) : a[1]; return HNext; };
  h["llvm.ctpop"] = H() { E x = toE(a[0]); E r = C(0, x->w); for (unsigned i = 0; i < x->w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), x->w)); ret = fromE(r); return HNext; };
  h["llvm.ctlz"] = H() { E x = toE(a[0]); E r = C(x->w, x->w); for (unsigned i = 0; i < x->w; i++) r = mkIte(mkExtract(x, i, 1), C(x->w - 1 - i, x->w), r); ret = fromE(r); return HNext; };
  h["llvm.cttz"] = H() { E x = toE(a[0]); E r = C(x->w, x->w); for (unsigned i = x->w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), C(i, x->w), r); ret = fromE(r); return HNext; };
  h["llvm.ucmp"] = H() { E x = toE(a[0]), y = toE(a[1]); ret = fromE(mkIte(mkBin(K::Ult, x, y), C(-1, ci.w), mkIte(mkEq(x, y), C(0, ci.w), C(1, ci.w)))); return HNext; };
  h["llvm.fabs"] = H() { ret = CV(a[0].c & (maskw(a[0].w) >> 1), a[0].w); if (a[0].e) { g.problem("symbolic floating point"); return HStop; } return HNext; };
  // --- C++ ABI
  h["__cxa_guard_acquire"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 1, true, r, "guard")) return HStop; g.acquire(s, (u64)a[0].c); Val v = g.loadAt(s, r, 8); if (!v.e && v.c) { ret = CV(0, 32); return HNext; } ret = CV(1, 32); return HNext; };
  h["__cxa_guard_release"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 1, true, r, "guard")) return HStop; g.release(s, (u64)a[0].c); g.storeAt(s, r, CV(1, 8), 8); return HNext; };
  h["__cxa_guard_abort"] = H() { return HNext; };
  h["__cxa_allocate_exception"] = H() { u128 n; g.concretize(s, a[0], n); auto ob = g.mkObj(s, (u64)n, OExc, false); s.excs[ob->base] = Exc(); ret = CV(ob->base, 64); return HNext; };
  h["__cxa_free_exception"] = H() { s.excs.erase((u64)a[0].c); s.mem.erase((u64)a[0].c); return HNext; };
  h["__cxa_throw"] = H() { auto& e = s.excs[(u64)a[0].c]; e.tinfo = (u64)a[1].c; e.dtor = (u64)a[2].c; e.rethrown = true; return g.doThrow(s, (u64)a[0].c); };
  h["__cxa_init_primary_exception"] = H() { auto& e = s.excs[(u64)a[0].c]; e.tinfo = (u64)a[1].c; e.dtor = (u64)a[2].c; ret = a[0]; return HNext; };
  h["__cxa_rethrow"] = H() { auto& t = s.th[s.cur]; if (t.caught.empty()) { g.violate(s, "terminate", "rethrow without exception", s.model); return HStop; } u64 x = t.caught.back(); s.excs[x].rethrown = true; return g.doThrow(s, x); };
  h["__cxa_begin_catch"] = H() { u64 x = (u64)a[0].c; s.excs[x].handlers++; s.excs[x].rethrown = false; s.th[s.cur].caught.push_back(x); ret = a[0]; return HNext; };
  h["__cxa_get_exception_ptr"] = H() { ret = a[0]; return HNext; };
  h["__cxa_end_catch"] = H() { auto& t = s.th[s.cur]; if (t.caught.empty()) return HNext; u64 x = t.caught.back(); t.caught.pop_back(); auto& e = s.excs[x]; e.handlers--;
    if (e.handlers <= 0 && !e.rethrown && e.refs == 0) { u64 d = e.dtor; auto it = g.faddr.find(d); advance(s, ci, g, ret); if (d && it != g.faddr.end() && !it->second->isDeclaration()) { g.pushFrame(s, it->second, {CV(x, 64)}, true); } return HPushed; } return HNext; };
  h["__cxa_call_unexpected"] = h["_ZSt9terminatev"];
  h["llvm.eh.typeid.for"] = H() { string n = a[0].c ? g.tname((u64)a[0].c) : "<any>"; ret = CV(g.selId(n), 32); return HNext; };
  h["_ZSt18uncaught_exceptionv"] = H() { ret = CV(0, 1); return HNext; }; h["_ZSt19uncaught_exceptionsv"] = H() { ret = CV(0, 32); return HNext; };
  h["_ZSt17current_exceptionv"] = H() { auto& t = s.th[s.cur]; u64 x = t.caught.empty() ? 0 : t.caught.back(); if (x) s.excs[x].refs++; Eng::Ref r; if (!g.resolve(s, a[0], 8, true, r, "exception_ptr")) return HStop; g.storeAt(s, r, CV(x, 64), 64); return HNext; };
  for (auto n : {"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}) h[n] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 8, true, r, "exception_ptr")) return HStop; g.storeAt(s, r, a[1], 64); if (a[1].c) s.excs[(u64)a[1].c].refs++; return HNext; };
  h["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 8, false, r, "exception_ptr")) return HStop; Val v = g.loadAt(s, r, 64); if (v.c) s.excs[(u64)v.c].refs++; return HNext; };
  h["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 8, true, r, "exception_ptr")) return HStop; Val v = g.loadAt(s, r, 64); g.storeAt(s, r, CV(0, 64), 64); if (!v.c) return HNext; u64 x = (u64)v.c; auto& e = s.excs[x]; e.refs--;
    if (e.handlers <= 0 && !e.rethrown && e.refs == 0) { u64 d = e.dtor; auto it = g.faddr.find(d); advance(s, ci, g, ret); if (d && it != g.faddr.end() && !it->second->isDeclaration()) g.pushFrame(s, it->second, {CV(x, 64)}, true); return HPushed; } return HNext; };
  h["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 8, false, r, "exception_ptr")) return HStop; Val v = g.loadAt(s, r, 64); if (!v.c) { g.violate(s, "terminate", "rethrow_exception(nullptr)", s.model); return HStop; } s.excs[(u64)v.c].rethrown = true; return g.doThrow(s, (u64)v.c); };
  // --- pthreads
  for (auto n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_sigmask", "sigfillset", "pthread_detach", "sched_yield", "pthread_attr_init", "pthread_attr_destroy"}) h[n] = H() { ret = CV(0, 32); return HNext; };
  h["pthread_self"] = H() { ret = CV(s.cur + 1, 64); return HNext; };
  h["pthread_mutex_init"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 40, true, r, "mutex")) return HStop; r.off += 16; g.storeAt(s, r, CV(0, 32), 32); ret = CV(0, 32); return HNext; };
  h["pthread_mutex_destroy"] = H() { Eng::Ref r; if (!g.resolve(s, a[0], 40, true, r, "mutex")) return HStop; r.off += 16; g.storeAt(s, r, CV(0xffffffffu, 32), 32); ret = CV(0, 32); return HNext; }; // as glibc marks it
  h["pthread_mutex_lock"] = H() { { Eng::Ref r; if (!g.resolve(s, a[0], 40, false, r, "mutex")) return HStop; r.off += 16; Val v = g.loadAt(s, r, 32); if (!v.e && (u32)v.c == 0xffffffffu) { g.violate(s, "mutex", "use of a destroyed mutex", s.model); return HStop; } }
    u64 m = (u64)a[0].c; auto it = s.mtx.find(m); if (it != s.mtx.end() && it->second) { if (it->second == s.cur + 1) { g.violate(s, "deadlock", "mutex locked twice by one thread", s.model); return HStop; } s.th[s.cur].status = TMutex; s.th[s.cur].waitAddr = m; return g.schedule(s); } s.mtx[m] = s.cur + 1; g.acquire(s, m); ret = CV(0, 32); advance(s, ci, g, ret); return yieldPoint(g, s); };
  h["pthread_mutex_trylock"] = H() { u64 m = (u64)a[0].c; if (s.mtx[m]) ret = CV(16, 32); else { s.mtx[m] = s.cur + 1; g.acquire(s, m); ret = CV(0, 32); } return HNext; };
  h["pthread_mutex_unlock"] = H() { u64 m = (u64)a[0].c; s.mtx[m] = 0; g.release(s, m); for (auto& t : s.th) if (t.status == TMutex && t.waitAddr == m) t.status = TRun; ret = CV(0, 32); advance(s, ci, g, ret); return yieldPoint(g, s); };
  auto cw = H() { auto& t = s.th[s.cur]; // phase encoded in waitMutex
    if (t.waitMutex && t.status == TRun) { u64 m = (u64)a[1].c; if (s.mtx[m]) { t.status = TMutex; t.waitAddr = m; return g.schedule(s); } s.mtx[m] = s.cur + 1; g.acquire(s, m); t.waitMutex = 0; ret = CV(0, 32); return HNext; }
    u64 m = (u64)a[1].c; s.mtx[m] = 0; g.release(s, m); t.status = TCond; t.waitAddr = (u64)a[0].c; t.waitMutex = m; t.timed = a.size() > 2; for (auto& o : s.th) if (o.status == TMutex && o.waitAddr == m) o.status = TRun; return g.schedule(s); };
  h["pthread_cond_wait"] = cw; h["pthread_cond_timedwait"] = cw;
  h["pthread_cond_signal"] = H() { vector<int> w; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == TCond && s.th[i].waitAddr == (u64)a[0].c) w.push_back((int)i); ret = CV(0, 32);
    auto wk = [&](State& x, int t) { if (g.o.sched && w.size() > 1) x.nds.push_back(CV(t, 8)); x.th[t].status = TRun; x.th[t].timed = false; };
    for (size_t k = 1; k < w.size(); k++) { auto n = g.clone(s); wk(*n, w[k]); advance(*n, ci, g, ret); g.pushFork(std::move(n)); } // any one of them
    if (!w.empty()) wk(s, w[0]); return HNext; };
  h["pthread_cond_broadcast"] = H() { for (auto& t : s.th) if (t.status == TCond && t.waitAddr == (u64)a[0].c) { t.status = TRun; t.timed = false; } ret = CV(0, 32); return HNext; };
  h["pthread_create"] = H() { u128 fn; g.concretize(s, a[2], fn); auto it = g.faddr.find((u64)fn); if (it == g.faddr.end()) { g.problem("pthread_create target"); return HStop; } int tid = (int)s.th.size(); Eng::Ref r; if (!g.resolve(s, a[0], 8, true, r, "pthread_create")) return HStop; g.storeAt(s, r, CV(tid + 1, 64), 64);
    auto eo = g.mkObj(s, 4, OOther, true); s.th.emplace_back(); s.th.back().errnoAddr = eo->base; if (g.o.races) { if (tid >= MAXT) { g.problem("too many threads"); return HStop; } auto& pv = s.th[s.cur].vc; if (!pv[s.cur]) pv[s.cur] = 1; s.th.back().vc = pv; s.th.back().vc[tid] = 1; pv[s.cur]++; } int old = s.cur; s.cur = tid; g.pushFrame(s, it->second, {a[3]}, false); s.cur = old; ret = CV(0, 32); advance(s, ci, g, ret); return yieldPoint(g, s); };
  h["pthread_join"] = H() { int t = (int)a[0].c - 1; if (s.th[t].status == TDone) { if (g.o.races) for (int i = 0; i < MAXT; i++) s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], s.th[t].vc[i]); ret = CV(0, 32); return HNext; } s.th[s.cur].status = TJoin; s.th[s.cur].joinTid = t; return g.schedule(s); };
  h["__gthread_active_p"] = H() { ret = CV(1, 32); return HNext; };
}
