// Hash-consed bit-vector expression DAG with constant folding, and a Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <bitset>
#include <memory>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;

enum class K : uint8_t { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
  Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle };

constexpr unsigned MAXSYM = 2048;
typedef std::bitset<MAXSYM> SymSet;

struct Expr {
  K k; uint16_t w; u32 id; u128 c; const Expr *a, *b, *d;
  const SymSet* syms;
  mutable Z3_ast zv, zb; mutable u64 stamp; mutable u128 val;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s) - s);
}

struct ExprPool {
  struct Hash { size_t operator()(E e) const {
    u64 h = (u64)e->k * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((u64)e->c); mix((u64)(e->c >> 64)); mix((u64)(size_t)e->a); mix((u64)(size_t)e->b); mix((u64)(size_t)e->d);
    return h; } };
  struct Eqq { bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
  std::unordered_set<E, Hash, Eqq> tab;
  std::vector<E> all;
  struct SH { size_t operator()(const SymSet* s) const { return std::hash<SymSet>()(*s); } };
  struct SE { bool operator()(const SymSet* x, const SymSet* y) const { return *x == *y; } };
  std::unordered_set<const SymSet*, SH, SE> ssets;
  const SymSet* emptyset;
  std::vector<unsigned> symw;
  ExprPool() { emptyset = new SymSet(); ssets.insert(emptyset); }
  const SymSet* internSet(const SymSet& s) {
    auto it = ssets.find(&s); if (it != ssets.end()) return *it;
    auto* n = new SymSet(s); ssets.insert(n); return n;
  }
  const SymSet* uni(const SymSet* x, const SymSet* y) {
    if (x == y || y == emptyset) return x; if (x == emptyset) return y;
    return internSet(*x | *y);
  }
  E raw(K k, unsigned w, u128 c = 0, E a = nullptr, E b = nullptr, E d = nullptr) {
    Expr t{k, (uint16_t)w, 0, c, a, b, d, nullptr, nullptr, nullptr, 0, 0};
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    auto* n = new Expr(t); n->id = (u32)all.size();
    const SymSet* s = emptyset;
    if (k == K::Sym) { SymSet x; if (c >= MAXSYM) { fprintf(stderr, "too many symbols\n"); exit(3); } x.set((size_t)c); s = internSet(x); }
    if (a) s = uni(s, a->syms); if (b) s = uni(s, b->syms); if (d) s = uni(s, d->syms);
    n->syms = s; tab.insert(n); all.push_back(n); return n;
  }
};
extern ExprPool P;

inline bool isC(E e) { return e->k == K::Const; }
inline E C(u128 v, unsigned w) { return P.raw(K::Const, w, v & maskw(w)); }
inline E sym(u32 idx, unsigned w) { return P.raw(K::Sym, w, idx); }

extern bool extractRaw;
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkBin(K k, E a, E b);
inline E mkNot(E a) { return mkBin(K::Xor, a, C(1, 1)); }
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }

inline u128 foldBin(K k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
  case K::Add: return (a + b) & m; case K::Sub: return (a - b) & m; case K::Mul: return (a * b) & m;
  case K::UDiv: return b ? a / b : m; case K::URem: return b ? a % b : a;
  case K::SDiv: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case K::SRem: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
  case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
  case K::AShr: { i128 x = sx(a, w); if (b >= w) return (x < 0 ? ~(u128)0 : 0) & m; return (u128)(x >> (unsigned)b) & m; }
  case K::Eq: return a == b; case K::Ult: return a < b; case K::Ule: return a <= b;
  case K::Slt: return sx(a, w) < sx(b, w); case K::Sle: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}

struct Assignment { std::vector<u128> v; u128 get(u32 i) const { return i < v.size() ? v[i] : 0; } };
extern u64 evalStamp;
u128 evalRec(E e, const Assignment& m);
inline u128 evalE(E e, const Assignment& m) { if (isC(e)) return e->c; ++evalStamp; return evalRec(e, m); }
