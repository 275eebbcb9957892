#include "solver.h"
#include <chrono>
#include <cstring>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, onerr);
  simple = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, simple);
  full = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, full);
  auto setTo = [&](Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); };
  setTo(simple, simpleMs); setTo(full, fullMs);
}
Z3_ast Solver::bo(E e) {
  if (e->zb) return e->zb;
  Z3_ast r = nullptr;
  switch (e->k) {
  case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, bo(e->a), bo(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
  case K::Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
  case K::Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
  case K::Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
  case K::Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
  case K::And: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case K::Or: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case K::Xor: r = isC(e->b) ? (e->b->c ? Z3_mk_not(ctx, bo(e->a)) : bo(e->a)) : Z3_mk_xor(ctx, bo(e->a), bo(e->b)); break;
  case K::Ite: r = Z3_mk_ite(ctx, bo(e->a), bo(e->b), bo(e->d)); break;
  default: { Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); Z3_inc_ref(ctx, one); r = Z3_mk_eq(ctx, bv(e), one); break; }
  }
  return e->zb = inc(r);
}
Z3_ast Solver::bv(E e) {
  if (e->zv) return e->zv;
  Z3_ast r = nullptr;
  Z3_sort so = Z3_mk_bv_sort(ctx, e->w);
  bool cmp = e->k == K::Eq || e->k == K::Ult || e->k == K::Ule || e->k == K::Slt || e->k == K::Sle;
  if (cmp) {
    Z3_ast o = Z3_mk_unsigned_int64(ctx, 1, so), z = Z3_mk_unsigned_int64(ctx, 0, so);
    Z3_inc_ref(ctx, o); Z3_inc_ref(ctx, z);
    return e->zv = inc(Z3_mk_ite(ctx, bo(e), o, z));
  }
  switch (e->k) {
  case K::Const: {
    if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, so);
    else { std::string s; u128 v = e->c; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } r = Z3_mk_numeral(ctx, s.c_str(), so); }
    break; }
  case K::Sym: { std::string n = "s" + std::to_string((u64)e->c) + "_" + std::to_string(e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), so); break; }
  case K::Add: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
  case K::Sub: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
  case K::Mul: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
  case K::UDiv: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
  case K::SDiv: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
  case K::URem: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
  case K::SRem: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
  case K::And: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
  case K::Or: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
  case K::Xor: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
  case K::Shl: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
  case K::LShr: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
  case K::AShr: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
  case K::Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
  case K::Extract: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, bv(e->a)); break;
  case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K::Ite: r = Z3_mk_ite(ctx, bo(e->a), bv(e->b), bv(e->d)); break;
  default: abort();
  }
  return e->zv = inc(r);
}
static u128 parseNum(const char* s) { u128 v = 0; for (; *s; ++s) v = v * 10 + (unsigned)(*s - '0'); return v; }

static void collectSyms(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
  if (!seen.insert(e).second) return;
  if (e->k == K::Sym) out.push_back(e);
  if (e->a) collectSyms(e->a, seen, out); if (e->b) collectSyms(e->b, seen, out); if (e->d) collectSyms(e->d, seen, out);
}

static bool wideMul(E e, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->k == K::Mul && ((isC(e->a) && e->a->c < 65536) || (isC(e->b) && e->b->c < 65536))) ; // scaling by a small constant is easy
  else if (e->w > 32 && (e->k == K::Mul || e->k == K::UDiv || e->k == K::SDiv || e->k == K::URem || e->k == K::SRem)) return true;
  return (e->a && wideMul(e->a, seen)) || (e->b && wideMul(e->b, seen)) || (e->d && wideMul(e->d, seen));
}
R Solver::runZ3(const std::vector<E>& as, const SymSet& syms, CacheEnt& ent) {
  double t0 = now(); st.z3calls++;
  R res = R::Unknown;
  bool hard = false; { std::unordered_set<E> seen; for (E e : as) hard = hard || wideMul(e, seen); } // 64-bit multiplication: straight to the external portfolio
  for (int k = 0; !hard && k < 2 && res == R::Unknown; k++) {
    Z3_solver s = k ? full : simple;
    Z3_solver_reset(ctx, s);
    for (E e : as) Z3_solver_assert(ctx, s, bo(e));
    double tq = now(); Z3_lbool r = Z3_solver_check(ctx, s);
    if (getenv("VSYM_SLOW") && now() - tq > atof(getenv("VSYM_SLOW"))) fprintf(stderr, "; slow %d %.3f r=%d\n%s\n", k, now() - tq, (int)r, Z3_solver_to_string(ctx, s));
    if (r == Z3_L_FALSE) res = R::Unsat;
    else if (r == Z3_L_TRUE) {
      res = R::Sat;
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      std::unordered_set<E> seen; std::vector<E> sy; for (E e : as) collectSyms(e, seen, sy);
      for (E x : sy) { Z3_ast v; if (Z3_model_eval(ctx, m, bv(x), true, &v)) { Z3_inc_ref(ctx, v); ent.m.push_back({(u32)x->c, parseNum(Z3_get_numeral_string(ctx, v))}); Z3_dec_ref(ctx, v); } }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_reset(ctx, s);
  }
  if (res == R::Unknown) res = runExternal(as, syms, ent);
  st.time += now() - t0;
  return res;
}

R Solver::runExternal(const std::vector<E>& as, const SymSet&, CacheEnt& ent) {
  st.external++;
  std::unordered_set<E> seen; std::vector<E> sy; for (E e : as) collectSyms(e, seen, sy);
  std::string base = tmpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(st.external);
  std::string f = base + ".smt2";
  { std::ofstream o(f); o << "(set-option :produce-models true)\n(set-logic QF_BV)\n";
    for (E x : sy) o << "(declare-const s" << (u64)x->c << "_" << x->w << " (_ BitVec " << x->w << "))\n";
    Z3_set_ast_print_mode(ctx, Z3_PRINT_SMTLIB2_COMPLIANT);
    // emit with shared subterms as define-fun, in id order
    std::vector<E> nodes(seen.begin(), seen.end()); std::sort(nodes.begin(), nodes.end(), [](E a, E b) { return a->id < b->id; });
    auto nm = [](E e) -> std::string { if (e->k == K::Sym) return "s" + std::to_string((u64)e->c) + "_" + std::to_string(e->w);
      if (e->k == K::Const) { std::string s = "#b"; for (int i = e->w - 1; i >= 0; i--) s += ((e->c >> i) & 1) ? '1' : '0'; return s; } return "n" + std::to_string(e->id); };
    for (E e : nodes) {
      if (e->k == K::Sym || e->k == K::Const) continue;
      std::string b; const char* op = nullptr; bool c = false;
      switch (e->k) {
      case K::Add: op = "bvadd"; break; case K::Sub: op = "bvsub"; break; case K::Mul: op = "bvmul"; break;
      case K::UDiv: op = "bvudiv"; break; case K::SDiv: op = "bvsdiv"; break; case K::URem: op = "bvurem"; break; case K::SRem: op = "bvsrem"; break;
      case K::And: op = "bvand"; break; case K::Or: op = "bvor"; break; case K::Xor: op = "bvxor"; break;
      case K::Shl: op = "bvshl"; break; case K::LShr: op = "bvlshr"; break; case K::AShr: op = "bvashr"; break; case K::Concat: op = "concat"; break;
      case K::Eq: op = "="; c = true; break; case K::Ult: op = "bvult"; c = true; break; case K::Ule: op = "bvule"; c = true; break;
      case K::Slt: op = "bvslt"; c = true; break; case K::Sle: op = "bvsle"; c = true; break; default: break;
      }
      if (op) b = std::string("(") + op + " " + nm(e->a) + " " + nm(e->b) + ")";
      else if (e->k == K::Extract) b = "((_ extract " + std::to_string((unsigned)e->c + e->w - 1) + " " + std::to_string((unsigned)e->c) + ") " + nm(e->a) + ")";
      else if (e->k == K::ZExt) b = "((_ zero_extend " + std::to_string(e->w - e->a->w) + ") " + nm(e->a) + ")";
      else if (e->k == K::SExt) b = "((_ sign_extend " + std::to_string(e->w - e->a->w) + ") " + nm(e->a) + ")";
      else if (e->k == K::Ite) b = "(ite (= " + nm(e->a) + " #b1) " + nm(e->b) + " " + nm(e->d) + ")";
      if (c) b = "(ite " + b + " #b1 #b0)";
      o << "(define-fun n" << e->id << " () (_ BitVec " << e->w << ") " << b << ")\n";
    }
    for (E e : as) o << "(assert (= " << nm(e) << " #b1))\n";
    o << "(check-sat)\n(get-value (";
    for (E x : sy) o << " s" << (u64)x->c << "_" << x->w;
    o << "))\n";
  }
  const char* cmds[][5] = {{"/usr/bin/env", "z3-new", f.c_str(), nullptr, nullptr}, {"/usr/bin/env", "cvc5", "--solve-bv-as-int=sum", f.c_str(), nullptr}, {"/usr/bin/env", "cvc5", f.c_str(), nullptr, nullptr}};
  pid_t pid[3]; std::string outf[3];
  for (int i = 0; i < 3; i++) {
    outf[i] = base + "." + std::to_string(i);
    pid[i] = fork();
    if (!pid[i]) { int fd = open(outf[i].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); execv(cmds[i][0], (char* const*)cmds[i]); _exit(127); }
  }
  R res = R::Unknown; double t0 = now(); int left = 3;
  while (left && res == R::Unknown && now() - t0 < extSec) {
    for (int i = 0; i < 3; i++) if (pid[i] > 0) {
      int stt; if (waitpid(pid[i], &stt, WNOHANG) == pid[i]) {
        pid[i] = 0; left--;
        std::ifstream in(outf[i]); std::string all((std::istreambuf_iterator<char>(in)), {});
        size_t errp = all.find("(error"); 
        if (all.compare(0, 5, "unsat") == 0) { res = R::Unsat; break; }
        if (all.compare(0, 3, "sat") == 0 && errp == std::string::npos) {
          res = R::Sat; ent.m.clear();
          size_t p = 0; while ((p = all.find("(s", p)) != std::string::npos) {
            u32 idx = strtoul(all.c_str() + p + 2, nullptr, 10); size_t q = all.find('#', p); if (q == std::string::npos) break;
            u128 v = 0; size_t j = q + 2; if (all[q + 1] == 'b') for (; all[j] == '0' || all[j] == '1'; j++) v = v * 2 + (all[j] - '0');
            else for (; isxdigit(all[j]); j++) v = v * 16 + (isdigit(all[j]) ? all[j] - '0' : tolower(all[j]) - 'a' + 10);
            ent.m.push_back({idx, v}); p = j; }
          break;
        }
      }
    }
    usleep(5000);
  }
  for (int i = 0; i < 3; i++) { if (pid[i] > 0) { kill(pid[i], SIGKILL); waitpid(pid[i], nullptr, 0); } unlink(outf[i].c_str()); }
  if (res == R::Unknown && getenv("VSYM_KEEPQ")) rename(f.c_str(), (std::string(getenv("VSYM_KEEPQ")) + "/u" + std::to_string(getpid()) + "_" + std::to_string(st.external) + ".smt2").c_str()); else unlink(f.c_str());
  return res;
}

R Solver::check(const std::vector<E>& cs, E q, const Assignment& base, Assignment& out) {
  if (isC(q)) { if (q->c) { out = base; return R::Sat; } return R::Unsat; }
  st.queries++;
  // slice
  SymSet s = *q->syms; std::vector<char> in(cs.size(), 0); std::vector<E> as{q};
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cs.size(); i++) if (!in[i] && (*cs[i]->syms & s).any()) { in[i] = 1; ch = true; s |= *cs[i]->syms; as.push_back(cs[i]); } }
  std::vector<u32> key; for (E e : as) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  CacheEnt* ent;
  if (it != cache.end()) { st.cacheHits++; ent = &it->second; }
  else { CacheEnt ce; ce.r = runZ3(as, s, ce); if (ce.r == R::Sat) st.sat++; else if (ce.r == R::Unsat) st.unsat++; else st.unknown++; ent = &(cache[key] = ce); }
  if (ent->r == R::Sat) {
    out = base;
    for (auto& p : ent->m) { if (out.v.size() <= p.first) out.v.resize(p.first + 1, 0); out.v[p.first] = p.second; }
  }
  return ent->r;
}
