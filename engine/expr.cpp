#include "expr.h"
ExprPool P;
u64 evalStamp = 0;

u128 evalRec(E e, const Assignment& m) {
  if (e->k == K::Const) return e->c;
  if (e->stamp == evalStamp) return e->val;
  u128 r;
  switch (e->k) {
  case K::Sym: r = m.get((u32)e->c) & maskw(e->w); break;
  case K::Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  case K::Extract: r = (evalRec(e->a, m) >> (unsigned)e->c) & maskw(e->w); break;
  case K::ZExt: r = evalRec(e->a, m); break;
  case K::SExt: r = (u128)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
  case K::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
  default: r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w); break;
  }
  e->stamp = evalStamp; e->val = r; return r;
}

bool extractRaw = false; // keep byte slices of stored values so that a load can put them together again
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return C(a->c >> lo, w);
  switch (a->k) {
  case K::Extract: return mkExtract(a->a, lo + (unsigned)a->c, w);
  case K::Concat: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K::ZExt: {
    unsigned aw = a->a->w;
    if (lo >= aw) return C(0, w);
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, aw - lo), w);
  }
  case K::SExt: {
    unsigned aw = a->a->w; if (extractRaw) break;
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    if (lo < aw) return mkSExt(mkExtract(a->a, lo, aw - lo), w);
    return mkSExt(mkExtract(a->a, aw - 1, 1), w);
  }
  case K::Ite:
    if (!extractRaw && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
    break;
  case K::And: case K::Or: case K::Xor:
    if (extractRaw) break;
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K::Add: case K::Sub: case K::Mul:
    if (!extractRaw && lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return P.raw(K::Extract, w, lo, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return C((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  auto base = [](E e, unsigned& l) { if (e->k == K::Extract) { l = (unsigned)e->c; return e->a; } l = 0; return e; };
  unsigned l1, l2; E b1 = base(hi, l1), b2 = base(lo, l2);
  struct Raw { bool o = extractRaw; Raw() { extractRaw = true; } ~Raw() { extractRaw = o; } };
  if (b1 == b2 && l1 == l2 + lo->w) { Raw g; return mkExtract(b1, l2, w); }
  // (h . (x . y)) with h,x adjacent
  if (lo->k == K::Concat) {
    unsigned l3; E b3 = base(lo->a, l3);
    if (b1 == b3 && l1 == l3 + lo->a->w) { E x; { Raw g; x = mkExtract(b1, l3, hi->w + lo->a->w); } return mkConcat(x, lo->b); }
    if (isC(hi) && isC(lo->a)) return mkConcat(C((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
  }
  if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (hi->k == K::Concat) { return mkConcat(hi->a, mkConcat(hi->b, lo)); }
  if (hi->k == K::ZExt) { return mkZExt(mkConcat(hi->a, lo), w); }
  return P.raw(K::Concat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return C(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, C(a->b->c, w), C(a->d->c, w));
  return P.raw(K::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return C((u128)sx(a->c, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return P.raw(K::SExt, w, 0, a);
}
static bool isNotOf(E x, E y) { return x->w == 1 && x->k == K::Xor && isC(x->b) && x->a == y; }
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->k == K::Xor && isC(c->b)) return mkIte(c->a, f, t);
  if (c->k == K::Eq) { if (isC(c->b) && t == c->a) t = c->b; else if (t == c->a && f == c->b) return f; else if (t == c->b && f == c->a) return f; if (t == f) return t; }
  if (c->k == K::Ult || c->k == K::Ule || c->k == K::Slt || c->k == K::Sle) { // canonical min/max
    E x = c->a, y = c->b; K k = c->k == K::Ult || c->k == K::Ule ? K::Ule : K::Sle;
    if ((t == x && f == y) || (t == y && f == x)) { bool mn = t == x; if (x->id > y->id) std::swap(x, y); if (!isC(x) && !isC(y)) { c = P.raw(k, 1, 0, x, y); t = mn ? x : y; f = mn ? y : x; } } }
  if (t->w == 1) {
    if (isC(t)) return t->c ? mkBin(K::Or, c, f) : mkBin(K::And, mkNot(c), f);
    if (isC(f)) return f->c ? mkBin(K::Or, mkNot(c), t) : mkBin(K::And, c, t);
  }
  if (t->k == K::Ite && t->a == c) t = t->b;
  if (f->k == K::Ite && f->a == c) f = f->d;
  if (t == f) return t;
  if (t->k == K::Ite && t->d == f) return mkIte(mkBin(K::And, c, t->a), t->b, f);
  if (f->k == K::Ite && f->b == t) return mkIte(mkBin(K::Or, c, f->a), t, f->d);
  return P.raw(K::Ite, t->w, 0, c, t, f);
}
static bool fewIte(E e, int depth) { // ite tree with constant leaves
  if (isC(e)) return true;
  if (depth == 0 || e->k != K::Ite) return false;
  return fewIte(e->b, depth - 1) && fewIte(e->d, depth - 1);
}
E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d: %u %u\n", (int)k, a->w, b->w); abort(); }
  bool cmp = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
  if (isC(a) && isC(b)) return C(foldBin(k, a->c, b->c, w), cmp ? 1 : w);
  u128 m = maskw(w);
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  // push through small constant ite trees
  if (isC(b) && a->k == K::Ite && k != K::UDiv && k != K::SDiv && k != K::URem && k != K::SRem && fewIte(a, 4))
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
  if (isC(a) && b->k == K::Ite && cmp && fewIte(b, 4))
    return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->d));
  switch (k) {
  case K::Add:
    if (isC(b)) { if (!b->c) return a;
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, C(a->b->c + b->c, w)); }
    else if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
    else if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
    if (b->k == K::Sub && b->b == a) return b->a;
    if (a->k == K::Sub && a->b == b) return a->a;
    if (w == 1) return mkBin(K::Xor, a, b);
    break;
  case K::Sub:
    if (a == b) return C(0, w);
    if (isC(b)) return mkBin(K::Add, a, C(-b->c, w));
    if (w == 1) return mkBin(K::Xor, a, b);
    if (b->k == K::Ite && (b->b == a || b->d == a)) return mkIte(b->a, mkBin(K::Sub, a, b->b), mkBin(K::Sub, a, b->d));
    if (a->k == K::Ite && (a->b == b || a->d == b)) return mkIte(a->a, mkBin(K::Sub, a->b, b), mkBin(K::Sub, a->d, b));
    if (a->k == K::Add) { // (x+y)-x
      if (a->a == b) return a->b; if (a->b == b) return a->a;
      if (isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
    }
    if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), C(-b->b->c, w));
    if (a->k == K::Sub && a->a == b && false) break;
    break;
  case K::Mul:
    if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K::Shl, a, C(s, w)); } }
    break;
  case K::UDiv: if (isC(b)) { if (b->c == 1) return a;
      if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K::LShr, a, C(s, w)); } } break;
  case K::URem: if (isC(b)) { if (b->c == 1) return C(0, w);
      if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K::And, a, C(b->c - 1, w)); } break;
  case K::And:
    if (a == b) return a;
    if (isC(b)) { if (!b->c) return b; if (b->c == m) return a;
      if (a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, C(a->b->c & b->c, w));
      u128 x = b->c; if ((x & (x + 1)) == 0) { unsigned n = 0; while ((x >> n) & 1) n++; return mkZExt(mkExtract(a, 0, n), w); }
      if (a->k == K::ZExt) { unsigned aw = a->a->w; return mkZExt(mkBin(K::And, a->a, C(b->c, aw)), w); }
      if (a->k == K::Concat) { unsigned lw = a->b->w; return mkConcat(mkBin(K::And, a->a, C(b->c >> lw, w - lw)), mkBin(K::And, a->b, C(b->c, lw))); }
    }
    if (isNotOf(a, b) || isNotOf(b, a)) return C(0, w);
    break;
  case K::Or:
    if (a == b) return a;
    if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; }
    if (isNotOf(a, b) || isNotOf(b, a)) return C(m, w);
    // concat with disjoint zero parts
    if (a->k == K::Concat && isC(a->b) && a->b->c == 0 && b->k == K::ZExt && b->a->w <= a->b->w) return mkConcat(a->a, mkZExt(b->a, a->b->w));
    if (b->k == K::Concat && isC(b->b) && b->b->c == 0 && a->k == K::ZExt && a->a->w <= b->b->w) return mkConcat(b->a, mkZExt(a->a, b->b->w));
    if (a->k == K::ZExt && b->k == K::ZExt) { unsigned mw = std::max(a->a->w, b->a->w); if (mw < w) return mkZExt(mkBin(K::Or, mkZExt(a->a, mw), mkZExt(b->a, mw)), w); }
    break;
  case K::Xor:
    if (a == b) return C(0, w);
    if (isC(b)) { if (!b->c) return a; if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, C(a->b->c ^ b->c, w));
      if (w == 1) { // push negation into comparisons
        if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
      } }
    break;
  case K::Shl:
    if (isC(b)) { if (!b->c) return a; if (b->c >= w) return C(0, w); return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), C(0, (unsigned)b->c)); }
    if (isC(a) && !a->c) return a;
    break;
  case K::LShr:
    if (isC(b)) { if (!b->c) return a; if (b->c >= w) return C(0, w); return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
    if (isC(a) && !a->c) return a;
    break;
  case K::AShr:
    if (isC(b)) { if (!b->c) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  case K::Eq:
    if (a == b) return C(1, 1);
    if (w == 1) { return isC(b) ? (b->c ? a : mkNot(a)) : mkNot(mkBin(K::Xor, a, b)); }
    if (isC(b)) {
      switch (a->k) {
      case K::ZExt: if (b->c >> a->a->w) return C(0, 1); return mkEq(a->a, C(b->c, a->a->w));
      case K::SExt: { E t = C(b->c, a->a->w); if (mkSExt(t, w)->c != b->c) return C(0, 1); return mkEq(a->a, t); }
      case K::Concat: { unsigned lw = a->b->w; E r = mkEq(a->b, C(b->c, lw)); return mkBin(K::And, mkEq(a->a, C(b->c >> lw, w - lw)), r); }
      case K::Add: if (isC(a->b)) return mkEq(a->a, C(b->c - a->b->c, w)); break;
      case K::Xor: if (isC(a->b)) return mkEq(a->a, C(b->c ^ a->b->c, w)); if (!b->c) return mkEq(a->a, a->b); break;
      case K::Sub: if (!b->c) return mkEq(a->a, a->b); break;
      case K::Ite: if (isC(a->b)) { if (a->b->c == b->c) return mkBin(K::Or, a->a, mkEq(a->d, b)); return mkBin(K::And, mkNot(a->a), mkEq(a->d, b)); }
        if (isC(a->d)) { if (a->d->c == b->c) return mkBin(K::Or, mkNot(a->a), mkEq(a->b, b)); return mkBin(K::And, a->a, mkEq(a->b, b)); }
        break;
      default: break;
      }
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == K::Add && b->k == K::Add && isC(a->b) && isC(b->b)) return mkEq(mkBin(K::Add, a->a, C(a->b->c - b->b->c, w)), b->a);
      if (a->k == K::Ite && (a->b == b || a->d == b)) return a->b == b ? mkBin(K::Or, a->a, mkEq(a->d, b)) : mkBin(K::Or, mkNot(a->a), mkEq(a->b, b));
      if (b->k == K::Ite && (b->b == a || b->d == a)) return b->b == a ? mkBin(K::Or, b->a, mkEq(b->d, a)) : mkBin(K::Or, mkNot(b->a), mkEq(b->b, a));
      if (a->k == K::Add && a->a == b) return mkEq(a->b, C(0, w));
      if (b->k == K::Add && b->a == a) return mkEq(b->b, C(0, w));
    }
    break;
  case K::Ult:
    if (a == b) return C(0, 1);
    if (isC(b)) { if (!b->c) return C(0, 1); if (b->c == 1) return mkEq(a, C(0, w)); if (b->c == m) return mkNot(mkEq(a, b));
      if (a->k == K::ZExt) { if (b->c >> a->a->w) return C(1, 1); return mkBin(K::Ult, a->a, C(b->c, a->a->w)); } }
    if (isC(a)) { if (a->c == m) return C(0, 1); if (!a->c) return mkNot(mkEq(b, a));
      if (b->k == K::ZExt) { if (a->c >> b->a->w) return C(0, 1); return mkBin(K::Ult, C(a->c, b->a->w), b->a); } }
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
    if (w == 1) return mkBin(K::And, mkNot(a), b);
    break;
  case K::Ule:
    if (a == b) return C(1, 1);
    if (isC(b)) { if (b->c == m) return C(1, 1); return mkBin(K::Ult, a, C(b->c + 1, w)); }
    if (isC(a)) { if (!a->c) return C(1, 1); return mkBin(K::Ult, C(a->c - 1, w), b); }
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
    break;
  case K::Slt:
    if (a == b) return C(0, 1);
    if (w == 1) return mkBin(K::And, a, mkNot(b));
    if (a->k == K::ZExt && isC(b)) { if (sx(b->c, w) <= 0) return C(0, 1); return mkBin(K::Ult, a, b); }
    if (b->k == K::ZExt && isC(a)) { if (sx(a->c, w) < 0) return C(1, 1); return mkBin(K::Ult, a, b); }
    if (a->k == K::ZExt && b->k == K::ZExt) return mkBin(K::Ult, a, b);
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Slt, a->a, b->a);
    break;
  case K::Sle:
    if (a == b) return C(1, 1);
    if (w == 1) return mkBin(K::Or, a, mkNot(b));
    if (a->k == K::ZExt && b->k == K::ZExt) return mkBin(K::Ule, a, b);
    if (isC(b)) { if (b->c == (m >> 1)) return C(1, 1); return mkBin(K::Slt, a, C(b->c + 1, w)); }
    if (isC(a)) { if (a->c == (m >> 1) + 1) return C(1, 1); return mkBin(K::Slt, C(a->c - 1, w), b); }
    break;
  default: break;
  }
  return P.raw(k, cmp ? 1 : w, 0, a, b);
}
