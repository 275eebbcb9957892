#pragma once
#include "expr.h"
enum class R { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, cacheHits = 0, z3calls = 0, sat = 0, unsat = 0, external = 0, unknown = 0; double time = 0; };
struct Solver {
  SolverStats st;
  Z3_context ctx; Z3_solver simple, full;
  unsigned simpleMs = 1500, fullMs = 8000, extSec = 60;
  std::string tmpdir = "/tmp";
  struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); } return h; } };
  struct CacheEnt { R r; std::vector<std::pair<u32, u128>> m; };
  std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;
  Solver();
  // is (conj of cs) && q satisfiable? base: an assignment satisfying cs (used for symbols outside the slice)
  R check(const std::vector<E>& cs, E q, const Assignment& base, Assignment& out);
  Z3_ast bv(E e); Z3_ast bo(E e);
  Z3_ast inc(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  R runZ3(const std::vector<E>& as, const SymSet& syms, CacheEnt& ent);
  R runExternal(const std::vector<E>& as, const SymSet& syms, CacheEnt& ent);
};
