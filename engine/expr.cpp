#include "expr.h"
#include <deque>
#include <cstdio>
#include <cstdlib>

u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
s128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  if ((v >> (w - 1)) & 1) return (s128)(v | ~maskw(w));
  return (s128)v;
}
double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

struct Key { Op op; uint16_t w, aux; u128 c; E k[3]; };
struct KeyH { size_t operator()(const Key &k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)k.w << 20) ^ ((uint64_t)k.aux << 40);
  h ^= (uint64_t)k.c + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h ^= (uint64_t)(k.c >> 64) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  for (int i = 0; i < 3; i++) h ^= ((uint64_t)k.k[i]) * 0xff51afd7ed558ccdull + (h << 6) + (h >> 2);
  return h; } };
struct KeyE { bool operator()(const Key &a, const Key &b) const {
  return a.op == b.op && a.w == b.w && a.aux == b.aux && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };
static std::unordered_map<Key, Expr *, KeyH, KeyE> tab;
static std::deque<Expr> arena;
static uint32_t gEpoch = 0;
size_t exprCount() { return arena.size(); }

static E intern(Op op, unsigned w, unsigned aux, u128 c, E a, E b, E d, u128 lo, u128 hi) {
  Key k{op, (uint16_t)w, (uint16_t)aux, c, {a, b, d}};
  auto it = tab.find(k);
  if (it != tab.end()) return it->second;
  arena.push_back(Expr());
  Expr *e = &arena.back();
  e->op = op; e->w = w; e->aux = aux; e->id = arena.size(); e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
  e->lo = lo; e->hi = hi; e->evEpoch = 0; e->z = nullptr; e->mark = 0;
  tab.emplace(k, e);
  return e;
}
E mkC(u128 v, unsigned w) { v &= maskw(w); return intern(O_CONST, w, 0, v, 0, 0, 0, v, v); }
E mkVar(unsigned idx, unsigned w, u128 lo, u128 hi) {
  // the range is part of the identity (via k slots being null, encode range in aux through a const child)
  E l = mkC(lo, w), h = mkC(hi, w);
  return intern(O_VAR, w, 0, idx, l, h, 0, lo, hi);
}
u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) : m;
  case O_UREM: return b ? (a % b) : a;
  case O_SDIV: { s128 x = sextv(a, w), y = sextv(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { s128 x = sextv(a, w), y = sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case O_ASHR: { s128 x = sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sextv(a, w) < sextv(b, w);
  case O_SLE: return sextv(a, w) <= sextv(b, w);
  case O_FADD: return d2bits(bits2d((uint64_t)a) + bits2d((uint64_t)b));
  case O_FSUB: return d2bits(bits2d((uint64_t)a) - bits2d((uint64_t)b));
  case O_FMUL: return d2bits(bits2d((uint64_t)a) * bits2d((uint64_t)b));
  case O_FDIV: return d2bits(bits2d((uint64_t)a) / bits2d((uint64_t)b));
  case O_FEQ: return bits2d((uint64_t)a) == bits2d((uint64_t)b);
  case O_FLT: return bits2d((uint64_t)a) < bits2d((uint64_t)b);
  case O_FLE: return bits2d((uint64_t)a) <= bits2d((uint64_t)b);
  default: abort();
  }
}
static bool isCmp(Op op) { return (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FLE); }

E mkNot(E a) {
  if (a->isC()) return mkC(!a->c, 1);
  if (a->op == O_XOR && a->k[1]->isC() && a->k[1]->c == 1) return a->k[0];
  if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
  if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
  if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
  if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
  return intern(O_XOR, 1, 0, 0, a, mkC(1, 1), 0, 0, 1);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isC()) return mkC(a->c >> lo, w);
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
  case O_ZEXT: {
    unsigned iw = a->k[0]->w;
    if (lo >= iw) return mkC(0, w);
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
  }
  case O_SEXT: {
    unsigned iw = a->k[0]->w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (lo == 0) return mkSext(a->k[0], w);
    break;
  }
  case O_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case O_ITE:
    if (a->k[1]->isC() || a->k[2]->isC())
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case O_LSHR:
    if (a->k[1]->isC()) {
      u128 s = a->k[1]->c;
      if (s < a->w && lo + s + w <= a->w) return mkExtract(a->k[0], lo + (unsigned)s, w);
      if (s + lo >= a->w) return mkC(0, w);
    }
    break;
  case O_SHL:
    if (a->k[1]->isC()) {
      u128 s = a->k[1]->c;
      if (lo >= s) return mkExtract(a->k[0], lo - (unsigned)s, w);
      if (lo + w <= s) return mkC(0, w);
    }
    break;
  default: break;
  }
  if (lo == 0 && a->hi <= maskw(w)) {
    return intern(O_EXTRACT, w, lo, 0, a, 0, 0, a->lo, a->hi);
  }
  if (lo && a->hi < ((u128)1 << lo)) return mkC(0, w);
  u128 h = maskw(w);
  if ((a->hi >> lo) < h) h = a->hi >> lo;
  return intern(O_EXTRACT, w, lo, 0, a, 0, 0, 0, h);
}
E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isC()) return mkC(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
    return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  // zext(trunc x) where x fits
  if (a->op == O_EXTRACT && a->aux == 0 && a->k[0]->hi <= maskw(a->w)) {
    if (a->k[0]->w == w) return a->k[0];
    if (a->k[0]->w > w) return mkExtract(a->k[0], 0, w);
    return mkZext(a->k[0], w);
  }
  return intern(O_ZEXT, w, 0, 0, a, 0, 0, a->lo, a->hi);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isC()) return mkC((u128)sextv(a->c, a->w), w);
  if (a->hi < ((u128)1 << (a->w - 1))) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->k[0], w);
  if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
    return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(O_SEXT, w, 0, 0, a, 0, 0, 0, maskw(w));
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (w > 128) abort();
  if (h->isC() && l->isC()) return mkC((h->c << l->w) | l->c, w);
  if (h->isC() && h->c == 0) return mkZext(l, w);
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w)
    return mkExtract(h->k[0], l->aux, w);
  // extract high part next to the whole low value: concat(extract(x, w1..), trunc x)
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && 0) {}
  if (l->op == O_CONCAT) { // right-assoc merge of adjacent extracts
    E lh = l->k[0];
    if (h->op == O_EXTRACT && lh->op == O_EXTRACT && h->k[0] == lh->k[0] && h->aux == lh->aux + lh->w)
      return mkConcat(mkExtract(h->k[0], lh->aux, h->w + lh->w), l->k[1]);
  }
  if (h->op == O_ITE && l->op == O_ITE && h->k[0] == l->k[0] && h->k[1]->isC() && h->k[2]->isC() && l->k[1]->isC() && l->k[2]->isC())
    return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
  return intern(O_CONCAT, w, 0, 0, h, l, 0, (h->lo << l->w) | l->lo, (h->hi << l->w) | l->hi);
}
E mkIte(E c, E a, E b) {
  if (c->isC()) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->c ? c : mkNot(c);
    if (a->isC()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->op == O_XOR && c->k[1]->isC()) return mkIte(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  u128 lo = a->lo < b->lo ? a->lo : b->lo, hi = a->hi > b->hi ? a->hi : b->hi;
  return intern(O_ITE, a->w, 0, 0, c, a, b, lo, hi);
}
E mkRawUle(E a, E b) { return intern(O_ULE, 1, 0, 0, a, b, 0, 0, 1); }
static bool constIte(E e) { return e->op == O_ITE && e->k[1]->isC() && e->k[2]->isC(); }
static bool leafConstIte(E e, int d) {
  if (e->isC()) return true;
  if (e->op != O_ITE || d == 0) return false;
  return leafConstIte(e->k[1], d - 1) && leafConstIte(e->k[2], d - 1);
}
static int fls128(u128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  unsigned rw = isCmp(op) ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  if (a->isC() && b->isC()) return mkC(foldBin(op, a->c, b->c, w), rw);
  u128 m = maskw(w);
  if (op >= O_FADD) return intern(op, rw, 0, 0, a, b, 0, 0, maskw(rw));
  // canonicalise constants to the right for commutative ops
  if (a->isC() && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) { E t = a; a = b; b = t; }
  if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) && !b->isC() && a->id > b->id) { E t = a; a = b; b = t; }
  // distribute over constant-leaf ITE
  if (b->isC() && (constIte(a) || (w > 1 && leafConstIte(a, 6)))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isC() && (constIte(b) || (w > 1 && leafConstIte(b, 6)))) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  if (constIte(a) && constIte(b) && a->k[0] == b->k[0]) return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
  u128 lo = 0, hi = maskw(rw);
  switch (op) {
  case O_ADD:
    if (b->isC()) {
      if (b->c == 0) return a;
      if (a->op == O_ADD && a->k[1]->isC()) return mkBin(O_ADD, a->k[0], mkC(a->k[1]->c + b->c, w));
    }
    if (a->hi <= m - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
    else if (b->isC() && a->lo > m - b->c) { lo = (a->lo + b->c) & m; hi = (a->hi + b->c) & m; } // always wraps
    break;
  case O_SUB:
    if (a == b) return mkC(0, w);
    if (b->isC()) return mkBin(O_ADD, a, mkC((~b->c + 1) & m, w));
    if (a->op == O_ADD && a->k[0] == b) return a->k[1];
    if (a->op == O_ADD && a->k[1] == b) return a->k[0];
    if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
    break;
  case O_MUL:
    if (b->isC()) { if (b->c == 0) return b; if (b->c == 1) return a; }
    { int bits = fls128(a->hi) + fls128(b->hi);
      if (bits <= (int)w && bits <= 128) { lo = a->lo * b->lo; hi = a->hi * b->hi; } }
    break;
  case O_UDIV:
    if (b->isC() && b->c == 1) return a;
    if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; }
    break;
  case O_UREM:
    if (b->isC() && b->c == 1) return mkC(0, w);
    if (b->lo > 0) { if (a->hi < b->lo) return a; hi = b->hi - 1; if (a->hi < hi) hi = a->hi; }
    break;
  case O_SDIV: case O_SREM:
    if (a->hi <= (m >> 1) && b->hi <= (m >> 1) && b->lo > 0) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
    break;
  case O_AND:
    if (a == b) return a;
    if (b->isC()) {
      if (b->c == 0) return b;
      if (b->c == m) return a;
      // low mask covering range
      if ((b->c & (b->c + 1)) == 0) {
        if (a->hi <= b->c) return a;
        unsigned kw = fls128(b->c);
        if (kw < w) return mkZext(mkExtract(a, 0, kw), w);
      }
      hi = b->c; 
    }
    if (w == 1) {
      if (a->op == O_XOR && a->k[1]->isC() && a->k[0] == b) return mkC(0, 1);
      if (b->op == O_XOR && b->k[1]->isC() && b->k[0] == a) return mkC(0, 1);
      if (mkNot(a) == b) return mkC(0, 1);
    }
    if (a->hi < hi) hi = a->hi;
    if (b->hi < hi) hi = b->hi;
    break;
  case O_OR:
    if (a == b) return a;
    if (b->isC()) { if (b->c == 0) return a; if (b->c == m) return b; }
    if (w == 1 && mkNot(a) == b) return mkC(1, 1);
    { int n = fls128(a->hi | b->hi); hi = maskw(n); lo = a->lo > b->lo ? a->lo : b->lo; }
    // or of disjoint zext / shl pieces -> concat
    if (b->op == O_SHL && b->k[1]->isC() && a->hi < ((u128)1 << (unsigned)b->k[1]->c)) {
      unsigned s = (unsigned)b->k[1]->c;
      return mkConcat(mkExtract(b->k[0], 0, w - s), mkExtract(a, 0, s));
    }
    if (a->op == O_SHL && a->k[1]->isC() && b->hi < ((u128)1 << (unsigned)a->k[1]->c)) {
      unsigned s = (unsigned)a->k[1]->c;
      return mkConcat(mkExtract(a->k[0], 0, w - s), mkExtract(b, 0, s));
    }
    break;
  case O_XOR:
    if (a == b) return mkC(0, w);
    if (b->isC()) { if (b->c == 0) return a; if (w == 1) return mkNot(a); }
    { int n = fls128(a->hi | b->hi); hi = maskw(n); }
    break;
  case O_SHL:
    if (b->isC()) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkC(0, w);
      if (fls128(a->hi) + (int)b->c <= (int)w) { lo = a->lo << (unsigned)b->c; hi = a->hi << (unsigned)b->c; }
    }
    break;
  case O_LSHR:
    if (b->isC()) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkC(0, w);
      lo = a->lo >> (unsigned)b->c; hi = a->hi >> (unsigned)b->c;
      if (hi == 0) return mkC(0, w);
      return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
    }
    hi = a->hi;
    break;
  case O_ASHR:
    if (b->isC() && b->c == 0) return a;
    if (a->hi <= (m >> 1)) return mkBin(O_LSHR, a, b);
    break;
  case O_EQ:
    if (a == b) return mkTrue();
    if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
    if (w == 1 && b->isC()) return b->c ? a : mkNot(a);
    if (b->isC()) {
      if (a->op == O_ZEXT) return mkEq(a->k[0], mkC(b->c, a->k[0]->w)); // range check above guarantees fit
      if (a->op == O_ADD && a->k[1]->isC()) return mkEq(a->k[0], mkC(b->c - a->k[1]->c, w));
      if (a->op == O_XOR && a->k[1]->isC()) return mkEq(a->k[0], mkC(b->c ^ a->k[1]->c, w));
      if (a->op == O_ITE) {
        if (a->k[1]->isC()) return a->k[1]->c == b->c ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkAnd(mkNot(a->k[0]), mkEq(a->k[2], b));
        if (a->k[2]->isC()) return a->k[2]->c == b->c ? mkOr(mkNot(a->k[0]), mkEq(a->k[1], b)) : mkAnd(a->k[0], mkEq(a->k[1], b));
      }
      if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->w;
        return mkAnd(mkEq(a->k[0], mkC(b->c >> lw, a->k[0]->w)), mkEq(a->k[1], mkC(b->c, lw)));
      }
      if (a->op == O_EXTRACT && a->aux == 0 && a->k[0]->hi <= m) return mkEq(a->k[0], mkC(b->c, a->k[0]->w));
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    break;
  case O_ULT:
    if (a == b) return mkFalse();
    if (a->hi < b->lo) return mkTrue();
    if (a->lo >= b->hi) return mkFalse();
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == O_ZEXT && b->isC() && b->c <= maskw(a->k[0]->w)) return mkBin(op, a->k[0], mkC(b->c, a->k[0]->w));
    if (b->op == O_ZEXT && a->isC() && a->c <= maskw(b->k[0]->w)) return mkBin(op, mkC(a->c, b->k[0]->w), b->k[0]);
    if (b->isC() && b->c == 1) return mkEq(a, mkC(0, w));
    break;
  case O_ULE:
    if (a == b) return mkTrue();
    if (a->hi <= b->lo) return mkTrue();
    if (a->lo > b->hi) return mkFalse();
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == O_ZEXT && b->isC() && b->c <= maskw(a->k[0]->w)) return mkBin(op, a->k[0], mkC(b->c, a->k[0]->w));
    if (b->op == O_ZEXT && a->isC() && a->c <= maskw(b->k[0]->w)) return mkBin(op, mkC(a->c, b->k[0]->w), b->k[0]);
    break;
  case O_SLT: case O_SLE:
    if (a == b) return mkC(op == O_SLE, 1);
    if (a->hi <= (m >> 1) && b->hi <= (m >> 1)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (a->lo > (m >> 1) && b->lo > (m >> 1)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (a->hi <= (m >> 1) && b->lo > (m >> 1)) return mkFalse();
    if (a->lo > (m >> 1) && b->hi <= (m >> 1)) return mkTrue();
    break;
  default: break;
  }
  return intern(op, rw, 0, 0, a, b, 0, lo, hi);
}

static u128 evalRec(E e, const Assign &m) {
  if (e->op == O_CONST) return e->c;
  if (e->evEpoch == gEpoch) return e->ev;
  u128 r;
  switch (e->op) {
  case O_VAR: r = (size_t)e->c < m.size() ? m[(size_t)e->c] : e->lo; break;
  case O_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
  case O_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
  case O_EXTRACT: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->w); break;
  case O_ZEXT: r = evalRec(e->k[0], m); break;
  case O_SEXT: r = (u128)sextv(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  default: r = foldBin(e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->w);
  }
  e->evEpoch = gEpoch; e->ev = r;
  return r;
}
u128 evalE(E e, const Assign &m) { gEpoch++; return evalRec(e, m); }

Z3_context gZ;
static void z3err(Z3_context c, Z3_error_code ec) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, ec)); _Exit(70); }
void z3Init() {
  Z3_config cfg = Z3_mk_config();
  gZ = Z3_mk_context(cfg); // non-rc: ASTs stay alive for the process
  Z3_set_error_handler(gZ, z3err);
}
static Z3_ast z3const(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(gZ, w);
  if (w <= 64) return Z3_mk_unsigned_int64(gZ, (uint64_t)v, s);
  Z3_ast h = Z3_mk_unsigned_int64(gZ, (uint64_t)(v >> 64), Z3_mk_bv_sort(gZ, w - 64));
  Z3_ast l = Z3_mk_unsigned_int64(gZ, (uint64_t)v, Z3_mk_bv_sort(gZ, 64));
  return Z3_mk_concat(gZ, h, l);
}
static Z3_ast b2bv(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(gZ, 1);
  return Z3_mk_ite(gZ, b, Z3_mk_unsigned_int64(gZ, 1, s), Z3_mk_unsigned_int64(gZ, 0, s));
}
// width-1 expressions are translated to Bool sort; others to BitVec
static Z3_ast asBV(E e) { return e->w == 1 ? b2bv(toZ3(e)) : toZ3(e); }
static Z3_ast asFP(E e) { return Z3_mk_fpa_to_fp_bv(gZ, asBV(e), Z3_mk_fpa_sort_64(gZ)); }
Z3_ast toZ3(E e) {
  if (e->z) return e->z;
  Z3_ast r;
  auto bv = [&](int i) { return asBV(e->k[i]); };
  bool b1 = e->w == 1;
  switch (e->op) {
  case O_CONST: r = b1 ? (e->c ? Z3_mk_true(gZ) : Z3_mk_false(gZ)) : z3const(e->c, e->w); break;
  case O_VAR: {
    char nm[96]; snprintf(nm, sizeof nm, "v%u_%u_%llx_%llx", (unsigned)e->c, e->w, (unsigned long long)e->lo, (unsigned long long)e->hi);
    r = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, nm), b1 ? Z3_mk_bool_sort(gZ) : Z3_mk_bv_sort(gZ, e->w)); break; }
  case O_ADD: r = Z3_mk_bvadd(gZ, bv(0), bv(1)); goto bvres;
  case O_SUB: r = Z3_mk_bvsub(gZ, bv(0), bv(1)); goto bvres;
  case O_MUL: r = Z3_mk_bvmul(gZ, bv(0), bv(1)); goto bvres;
  case O_UDIV: r = Z3_mk_bvudiv(gZ, bv(0), bv(1)); goto bvres;
  case O_SDIV: r = Z3_mk_bvsdiv(gZ, bv(0), bv(1)); goto bvres;
  case O_UREM: r = Z3_mk_bvurem(gZ, bv(0), bv(1)); goto bvres;
  case O_SREM: r = Z3_mk_bvsrem(gZ, bv(0), bv(1)); goto bvres;
  case O_SHL: r = Z3_mk_bvshl(gZ, bv(0), bv(1)); goto bvres;
  case O_LSHR: r = Z3_mk_bvlshr(gZ, bv(0), bv(1)); goto bvres;
  case O_ASHR: r = Z3_mk_bvashr(gZ, bv(0), bv(1)); goto bvres;
  case O_AND:
    if (b1) { Z3_ast a[2] = {toZ3(e->k[0]), toZ3(e->k[1])}; r = Z3_mk_and(gZ, 2, a); }
    else r = Z3_mk_bvand(gZ, bv(0), bv(1));
    break;
  case O_OR:
    if (b1) { Z3_ast a[2] = {toZ3(e->k[0]), toZ3(e->k[1])}; r = Z3_mk_or(gZ, 2, a); }
    else r = Z3_mk_bvor(gZ, bv(0), bv(1));
    break;
  case O_XOR:
    if (b1) {
      if (e->k[1]->isC() && e->k[1]->c) r = Z3_mk_not(gZ, toZ3(e->k[0]));
      else r = Z3_mk_xor(gZ, toZ3(e->k[0]), toZ3(e->k[1]));
    } else r = Z3_mk_bvxor(gZ, bv(0), bv(1));
    break;
  case O_CONCAT: r = Z3_mk_concat(gZ, bv(0), bv(1)); break;
  case O_EXTRACT: r = Z3_mk_extract(gZ, e->aux + e->w - 1, e->aux, bv(0)); goto bvres;
  case O_ZEXT: r = Z3_mk_zero_ext(gZ, e->w - e->k[0]->w, bv(0)); break;
  case O_SEXT: r = Z3_mk_sign_ext(gZ, e->w - e->k[0]->w, bv(0)); break;
  case O_EQ: r = Z3_mk_eq(gZ, toZ3(e->k[0]), toZ3(e->k[1])); break;
  case O_ULT: r = Z3_mk_bvult(gZ, bv(0), bv(1)); break;
  case O_ULE: r = Z3_mk_bvule(gZ, bv(0), bv(1)); break;
  case O_SLT: r = Z3_mk_bvslt(gZ, bv(0), bv(1)); break;
  case O_SLE: r = Z3_mk_bvsle(gZ, bv(0), bv(1)); break;
  case O_ITE: r = Z3_mk_ite(gZ, toZ3(e->k[0]), toZ3(e->k[1]), toZ3(e->k[2])); break;
  case O_FADD: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_add(gZ, Z3_mk_fpa_rne(gZ), asFP(e->k[0]), asFP(e->k[1]))); break;
  case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_sub(gZ, Z3_mk_fpa_rne(gZ), asFP(e->k[0]), asFP(e->k[1]))); break;
  case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_mul(gZ, Z3_mk_fpa_rne(gZ), asFP(e->k[0]), asFP(e->k[1]))); break;
  case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_div(gZ, Z3_mk_fpa_rne(gZ), asFP(e->k[0]), asFP(e->k[1]))); break;
  case O_FEQ: r = Z3_mk_fpa_eq(gZ, asFP(e->k[0]), asFP(e->k[1])); break;
  case O_FLT: r = Z3_mk_fpa_lt(gZ, asFP(e->k[0]), asFP(e->k[1])); break;
  case O_FLE: r = Z3_mk_fpa_leq(gZ, asFP(e->k[0]), asFP(e->k[1])); break;
  default: abort();
  }
  e->z = r; return r;
bvres:
  if (b1) r = Z3_mk_eq(gZ, r, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1)));
  e->z = r; return r;
}
static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","feq","flt","fle"};
std::string exprStr(E e, int d) {
  if (e->isC()) { char b[64]; snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == O_VAR) { char b[64]; snprintf(b, 64, "v%u:%u", (unsigned)e->c, e->w); return b; }
  if (d == 0) return "...";
  std::string s = "("; s += opn[e->op]; s += ":" + std::to_string(e->w);
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->aux);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
