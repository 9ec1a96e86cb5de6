// Exact finite-domain binary64 arithmetic on top of bit-vectors (included by exec.cpp).
#pragma once
static const int64_t I53 = 1ll << 53;
static const size_t TAB_MAX = 1 << 14;
struct ForkNeeded { E e; };
typedef uint64_t (*ConcFn)(E);
static uint64_t concE(E e); // concretise under the current state (may throw ForkNeeded)

static unsigned sbits(int64_t lo, int64_t hi) {
  unsigned w = 1;
  while (w < 63 && (lo < -(1ll << (w - 1)) || hi > (1ll << (w - 1)) - 1)) w++;
  return w < 2 ? 2 : w;
}
static unsigned ubits(uint64_t hi) { unsigned w = 1; while (w < 64 && (hi >> w)) w++; return w; }
static Val fpC(double d) { return vc(d2bits(d), 64); }
static Val fpInt(E n, int sc, int64_t lo, int64_t hi) {
  if (n->isC()) return fpC(ldexp((double)(int64_t)sextv(n->c, n->w), -sc));
  if (lo == hi) return fpC(ldexp((double)lo, -sc));
  auto *f = new SymFP(); f->isInt = true; f->n = n; f->sc = sc; f->lo = lo; f->hi = hi; return vf(f);
}
static Val fpTab(E idx, std::vector<double> tab) {
  if (idx->isC()) return fpC(tab[(size_t)idx->c]);
  bool same = true;
  for (auto d : tab) if (d2bits(d) != d2bits(tab[0])) { same = false; break; }
  if (same) return fpC(tab[0]);
  auto *f = new SymFP(); f->isInt = false; f->n = idx; f->sc = 0; f->lo = 0; f->hi = 0; f->tab = std::move(tab); return vf(f);
}
static E fitS(E n, unsigned w) { return n->w == w ? n : n->w > w ? mkExtract(n, 0, w) : mkSext(n, w); }
static E fitU(E n, unsigned w) { return n->w == w ? n : n->w > w ? mkExtract(n, 0, w) : mkZext(n, w); }
static bool dyadic(double d, int &sc, int64_t &n) {
  if (!std::isfinite(d) || (d == 0 && std::signbit(d))) return false;
  sc = 0;
  if (fabs(d) > (double)I53) return false;
  while (d != floor(d)) { d *= 2; if (++sc > 30 || fabs(d) > (double)I53) return false; }
  n = (int64_t)d; return true;
}
struct IntV { E n; int sc; int64_t lo, hi; };
static bool asInt(Val v, IntV &o) {
  if (v.k == VC) {
    int sc; int64_t n;
    if (!dyadic(bits2d(v.u), sc, n)) return false;
    o.n = mkC((u128)(s128)n, sbits(n, n)); o.sc = sc; o.lo = o.hi = n; return true;
  }
  if (v.k == VF && v.f->isInt) { o.n = v.f->n; o.sc = v.f->sc; o.lo = v.f->lo; o.hi = v.f->hi; return true; }
  return false;
}
static bool scaleUp(IntV &a, int sc) {
  int d = sc - a.sc;
  if (d == 0) return true;
  if (d > 50) return false;
  int64_t mx = I53 >> d;
  if (a.lo < -mx || a.hi > mx) return false;
  a.lo <<= d; a.hi <<= d;
  unsigned w = sbits(a.lo, a.hi);
  a.n = mkBin(O_SHL, fitS(a.n, w), mkC(d, w)); a.sc = sc; return true;
}
// domain view
struct TabV { E idx; std::vector<double> tab; bool ok; };
static TabV asTab(Val v) {
  TabV t; t.ok = true;
  if (v.k == VC) { t.idx = mkC(0, 1); t.tab = {bits2d(v.u)}; return t; }
  const SymFP *f = v.f;
  if (!f->isInt) { t.idx = f->n; t.tab = f->tab; return t; }
  uint64_t dom = (uint64_t)(f->hi - f->lo) + 1;
  if (dom > TAB_MAX) { t.ok = false; return t; }
  unsigned w = std::max<unsigned>(f->n->w, sbits(f->lo, f->hi));
  E ix = mkBin(O_SUB, fitS(f->n, w + 1), mkC((u128)(s128)f->lo, w + 1));
  t.idx = mkExtract(ix, 0, ubits(dom - 1));
  for (uint64_t i = 0; i < dom; i++) t.tab.push_back(ldexp((double)(f->lo + (int64_t)i), -f->sc));
  return t;
}
static double concFP(Val v) {
  if (v.k == VC) return bits2d(v.u);
  if (v.k == VE) return bits2d(concE(v.e));
  if (v.f->isInt) { uint64_t n = concE(v.f->n); return ldexp((double)(int64_t)sextv(n, v.f->n->w), -v.f->sc); }
  return v.f->tab[concE(v.f->n)];
}
static E lookupE(E idx, const std::vector<u128> &vals, unsigned w) {
  size_t n = vals.size();
  E r = mkC(vals[n - 1], w);
  for (size_t i = n - 1; i-- > 0;) {
    if ((vals[i] & maskw(w)) == (vals[i + 1] & maskw(w))) continue;
    r = mkIte(mkBin(O_ULE, idx, mkC(i, idx->w)), mkC(vals[i], w), r);
  }
  return r;
}
static E condRuns(E idx, const std::vector<char> &b) {
  E r = mkFalse();
  size_t n = b.size(), i = 0;
  while (i < n) {
    if (!b[i]) { i++; continue; }
    size_t j = i; while (j + 1 < n && b[j + 1]) j++;
    E c = mkTrue();
    if (i == j) c = mkEq(idx, mkC(i, idx->w));
    else {
      if (i > 0) c = mkAnd(c, mkBin(O_ULE, mkC(i, idx->w), idx));
      if (j + 1 < n) c = mkAnd(c, mkBin(O_ULE, idx, mkC(j, idx->w)));
    }
    r = mkOr(r, c);
    i = j + 1;
  }
  return r;
}
static E fpBits(Val v) {
  if (v.k == VC) return mkC(v.u, 64);
  if (v.k == VE) return v.e;
  TabV t = asTab(v);
  if (!t.ok || t.tab.size() > 512) { double d = concFP(v); return mkC(d2bits(d), 64); }
  std::vector<u128> b; for (double d : t.tab) b.push_back(d2bits(d));
  return lookupE(t.idx, b, 64);
}
static double fpOpC(int op, double a, double b) {
  switch (op) {
  case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return fmod(a, b);
  case 5: return pow(a, b); case 6: return atan2(a, b); case 7: return copysign(a, b); case 8: return hypot(a,b);
  case 9: return std::isnan(a) ? b : std::isnan(b) ? a : (a < b ? a : b);
  case 10: return std::isnan(a) ? b : std::isnan(b) ? a : (a > b ? a : b);
  }
  abort();
}
template <class F> static Val tabBin(Val a, Val b, F fn) {
  TabV x = asTab(a), y = asTab(b);
  if (!x.ok) { a = fpC(concFP(a)); x = asTab(a); }
  if (!y.ok) { b = fpC(concFP(b)); y = asTab(b); }
  if (x.idx == y.idx && x.tab.size() == y.tab.size() && !x.idx->isC()) {
    std::vector<double> t; for (size_t i = 0; i < x.tab.size(); i++) t.push_back(fn(x.tab[i], y.tab[i]));
    return fpTab(x.idx, t);
  }
  if (x.tab.size() * y.tab.size() > TAB_MAX) {
    if (x.tab.size() <= y.tab.size()) { a = fpC(concFP(a)); x = asTab(a); } else { b = fpC(concFP(b)); y = asTab(b); }
    if (x.tab.size() * y.tab.size() > TAB_MAX) { a = fpC(concFP(a)); x = asTab(a); }
  }
  std::vector<double> t; t.reserve(x.tab.size() * y.tab.size());
  for (double p : x.tab) for (double q : y.tab) t.push_back(fn(p, q));
  if (x.idx->isC()) return fpTab(y.idx, t);
  if (y.idx->isC()) return fpTab(x.idx, t);
  unsigned w = ubits(t.size());
  E ix = mkBin(O_ADD, mkBin(O_MUL, fitU(x.idx, w), mkC(y.tab.size(), w)), fitU(y.idx, w));
  return fpTab(ix, t);
}
static Val fpBin(int op, Val a, Val b) {
  if (a.k == VC && b.k == VC) return fpC(fpOpC(op, bits2d(a.u), bits2d(b.u)));
  if (a.k == VE || b.k == VE) {
    if (op <= 3) {
      static const Op m[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV};
      return ve(mkBin(m[op], fpBits(a), fpBits(b)));
    }
    return fpC(fpOpC(op, concFP(a), concFP(b)));
  }
  IntV x, y;
  if (op <= 3 && asInt(a, x) && asInt(b, y)) {
    if (op <= 1) {
      int sc = std::max(x.sc, y.sc);
      if (scaleUp(x, sc) && scaleUp(y, sc)) {
        int64_t lo = op ? x.lo - y.hi : x.lo + y.lo, hi = op ? x.hi - y.lo : x.hi + y.hi;
        if (lo > -I53 && hi < I53) {
          unsigned w = sbits(lo, hi);
          w = std::max(w, std::max(sbits(x.lo, x.hi), sbits(y.lo, y.hi)));
          return fpInt(mkBin(op ? O_SUB : O_ADD, fitS(x.n, w), fitS(y.n, w)), sc, lo, hi);
        }
      }
    } else if (op == 2) {
      bool zx = x.lo <= 0 && x.hi >= 0, zy = y.lo <= 0 && y.hi >= 0;
      if (!((zx && y.lo < 0) || (zy && x.lo < 0)) && x.sc + y.sc <= 40) {
        s128 p[4] = {(s128)x.lo * y.lo, (s128)x.lo * y.hi, (s128)x.hi * y.lo, (s128)x.hi * y.hi};
        s128 lo = p[0], hi = p[0];
        for (auto q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
        if (lo > -I53 && hi < I53) {
          unsigned w = std::max(sbits(lo, hi), std::max(sbits(x.lo, x.hi), sbits(y.lo, y.hi)));
          return fpInt(mkBin(O_MUL, fitS(x.n, w), fitS(y.n, w)), x.sc + y.sc, lo, hi);
        }
      }
    } else if (op == 3 && b.k == VC) {
      double d = bits2d(b.u); int ex; double fr = frexp(d, &ex);
      if (fr == 0.5) { // power of two
        int s = ex - 1;
        if (s >= 0 && x.sc + s <= 40) return fpInt(x.n, x.sc + s, x.lo, x.hi);
        if (s < 0 && x.sc + s >= 0) return fpInt(x.n, x.sc + s, x.lo, x.hi);
      }
    }
  }
  return tabBin(a, b, [op](double p, double q) { return fpOpC(op, p, q); });
}
template <class F> static Val fpMap(Val a, F fn) {
  if (a.k == VC) return fpC(fn(bits2d(a.u)));
  if (a.k == VE) return fpC(fn(concFP(a)));
  TabV t = asTab(a);
  if (!t.ok) return fpC(fn(concFP(a)));
  for (auto &d : t.tab) d = fn(d);
  return fpTab(t.idx, t.tab);
}
static Val fpAbs(Val a) {
  if (a.k == VE) return ve(mkBin(O_AND, a.e, mkC(~(1ull << 63), 64)));
  IntV x;
  if (a.k == VF && asInt(a, x)) {
    if (x.lo >= 0) return a;
    int64_t hi = std::max(-x.lo, x.hi); unsigned w = sbits(-hi, hi);
    E n = fitS(x.n, w);
    return fpInt(mkIte(mkBin(O_SLT, n, mkC(0, w)), mkBin(O_SUB, mkC(0, w), n), n), x.sc, 0, hi);
  }
  return fpMap(a, [](double d) { return fabs(d); });
}
static Val fpNeg(Val a) {
  if (a.k == VE) return ve(mkBin(O_XOR, a.e, mkC(1ull << 63, 64)));
  IntV x;
  if (a.k == VF && asInt(a, x) && (x.lo > 0 || x.hi < 0)) {
    unsigned w = sbits(-x.hi, -x.lo); w = std::max(w, sbits(x.lo, x.hi));
    return fpInt(mkBin(O_SUB, mkC(0, w), fitS(x.n, w)), x.sc, -x.hi, -x.lo);
  }
  return fpMap(a, [](double d) { return -d; });
}
using llvm::CmpInst;
static bool fcmpC(unsigned p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) {
  case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
  case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b;
  case CmpInst::FCMP_OGE: return !un && a >= b; case CmpInst::FCMP_OLT: return !un && a < b;
  case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b;
  case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b;
  case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b;
  case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b;
  }
  abort();
}
static E fpCmp(unsigned p, Val a, Val b) {
  if (a.k == VC && b.k == VC) return mkC(fcmpC(p, bits2d(a.u), bits2d(b.u)), 1);
  if (p == CmpInst::FCMP_FALSE) return mkFalse();
  if (p == CmpInst::FCMP_TRUE) return mkTrue();
  bool uno = p >= CmpInst::FCMP_UNO;
  if (a.k == VE || b.k == VE) {
    E x = fpBits(a), y = fpBits(b);
    auto nan = [](E e) { return mkNot(mkBin(O_FEQ, e, e)); };
    E un = mkOr(nan(x), nan(y));
    E r;
    switch (p) {
    case CmpInst::FCMP_OEQ: return mkBin(O_FEQ, x, y);
    case CmpInst::FCMP_OLT: return mkBin(O_FLT, x, y);
    case CmpInst::FCMP_OLE: return mkBin(O_FLE, x, y);
    case CmpInst::FCMP_OGT: return mkBin(O_FLT, y, x);
    case CmpInst::FCMP_OGE: return mkBin(O_FLE, y, x);
    case CmpInst::FCMP_UNE: return mkNot(mkBin(O_FEQ, x, y));
    case CmpInst::FCMP_UGE: return mkNot(mkBin(O_FLT, x, y));
    case CmpInst::FCMP_UGT: return mkNot(mkBin(O_FLE, x, y));
    case CmpInst::FCMP_ULE: return mkNot(mkBin(O_FLT, y, x));
    case CmpInst::FCMP_ULT: return mkNot(mkBin(O_FLE, y, x));
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_ORD: return mkNot(un);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(un), mkNot(mkBin(O_FEQ, x, y)));
    case CmpInst::FCMP_UEQ: return mkOr(un, mkBin(O_FEQ, x, y));
    }
    (void)r; (void)uno;
  }
  IntV x, y;
  if (asInt(a, x) && asInt(b, y)) {
    int sc = std::max(x.sc, y.sc);
    if (scaleUp(x, sc) && scaleUp(y, sc)) {
      unsigned w = std::max(sbits(x.lo, x.hi), sbits(y.lo, y.hi));
      E p1 = fitS(x.n, w), q = fitS(y.n, w);
      switch (p) {
      case CmpInst::FCMP_ORD: return mkTrue(); case CmpInst::FCMP_UNO: return mkFalse();
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: if (x.hi < y.lo || y.hi < x.lo) return mkFalse(); return mkEq(p1, q);
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: if (x.hi < y.lo || y.hi < x.lo) return mkTrue(); return mkNot(mkEq(p1, q));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: if (x.hi < y.lo) return mkTrue(); if (x.lo >= y.hi) return mkFalse(); return mkBin(O_SLT, p1, q);
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: if (x.hi <= y.lo) return mkTrue(); if (x.lo > y.hi) return mkFalse(); return mkBin(O_SLE, p1, q);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: if (y.hi < x.lo) return mkTrue(); if (y.lo >= x.hi) return mkFalse(); return mkBin(O_SLT, q, p1);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: if (y.hi <= x.lo) return mkTrue(); if (y.lo > x.hi) return mkFalse(); return mkBin(O_SLE, q, p1);
      }
    }
  }
  // INT against an arbitrary constant: exact integer threshold
  if (((a.k == VF && a.f->isInt) && b.k == VC) || ((b.k == VF && b.f->isInt) && a.k == VC)) {
    bool sw = a.k == VC;
    unsigned pp = sw ? CmpInst::getSwappedPredicate((CmpInst::Predicate)p) : p;
    Val v = sw ? b : a; double c = bits2d(sw ? a.u : b.u);
    const SymFP *f = v.f;
    if (std::isnan(c)) return mkC(fcmpC(pp, 0.0, c), 1);
    double t = ldexp(c, f->sc);
    unsigned w = sbits(f->lo, f->hi);
    E n = fitS(f->n, w);
    auto le = [&](double th) -> E { // n <= th (th integral or inf)
      if (th < (double)f->lo) return mkFalse();
      if (th >= (double)f->hi) return mkTrue();
      return mkBin(O_SLE, n, mkC((u128)(s128)(int64_t)th, w));
    };
    E lt = le(std::isinf(t) ? t : ceil(t) - 1), leq = le(std::isinf(t) ? t : floor(t));
    if (std::isinf(t) && t < 0) { lt = mkFalse(); leq = mkFalse(); }
    if (fabs(t) < 9e15 || std::isinf(t)) {
      switch (pp) {
      case CmpInst::FCMP_ORD: return mkTrue(); case CmpInst::FCMP_UNO: return mkFalse();
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return lt;
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return leq;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkNot(leq);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkNot(lt);
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkAnd(leq, mkNot(lt));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkNot(mkAnd(leq, mkNot(lt)));
      }
    }
  }
  TabV s = asTab(a), t = asTab(b);
  if (!s.ok) { a = fpC(concFP(a)); s = asTab(a); }
  if (!t.ok) { b = fpC(concFP(b)); t = asTab(b); }
  if (s.idx == t.idx && s.tab.size() == t.tab.size()) {
    std::vector<char> r; for (size_t i = 0; i < s.tab.size(); i++) r.push_back(fcmpC(p, s.tab[i], t.tab[i]));
    return condRuns(s.idx, r);
  }
  if (s.tab.size() * t.tab.size() > TAB_MAX) {
    if (s.tab.size() <= t.tab.size()) { a = fpC(concFP(a)); s = asTab(a); } else { b = fpC(concFP(b)); t = asTab(b); }
  }
  bool outerS = s.tab.size() <= t.tab.size();
  TabV &o = outerS ? s : t, &in = outerS ? t : s;
  E r = mkFalse();
  for (size_t i = 0; i < o.tab.size(); i++) {
    std::vector<char> v;
    for (double q : in.tab) v.push_back(outerS ? fcmpC(p, o.tab[i], q) : fcmpC(p, q, o.tab[i]));
    E c = condRuns(in.idx, v);
    if (o.tab.size() > 1) c = mkAnd(mkEq(o.idx, mkC(i, o.idx->w)), c);
    r = mkOr(r, c);
  }
  return r;
}
static Val fpSelect(E c, Val a, Val b) {
  if (a.k == b.k && ((a.k == VC && a.u == b.u) || (a.k == VF && a.f == b.f))) return a;
  if (a.k == VE || b.k == VE) return ve(mkIte(c, fpBits(a), fpBits(b)));
  IntV x, y;
  if (asInt(a, x) && asInt(b, y)) {
    int sc = std::max(x.sc, y.sc);
    if (scaleUp(x, sc) && scaleUp(y, sc)) {
      int64_t lo = std::min(x.lo, y.lo), hi = std::max(x.hi, y.hi);
      unsigned w = sbits(lo, hi);
      return fpInt(mkIte(c, fitS(x.n, w), fitS(y.n, w)), sc, lo, hi);
    }
  }
  TabV s = asTab(a), t = asTab(b);
  if (!s.ok) { a = fpC(concFP(a)); s = asTab(a); }
  if (!t.ok) { b = fpC(concFP(b)); t = asTab(b); }
  std::vector<double> tab = s.tab; tab.insert(tab.end(), t.tab.begin(), t.tab.end());
  unsigned w = ubits(tab.size());
  E ix = mkIte(c, fitU(s.idx, w), mkBin(O_ADD, fitU(t.idx, w), mkC(s.tab.size(), w)));
  return fpTab(ix, tab);
}
static bool srange(E e, int64_t &lo, int64_t &hi) {
  if (e->w <= 40) { lo = -(1ll << (e->w - 1)); hi = (1ll << (e->w - 1)) - 1; if (e->hi <= (u128)hi) { lo = (int64_t)e->lo; hi = (int64_t)e->hi; } return true; }
  if (e->hi < (u128)I53) { lo = (int64_t)e->lo; hi = (int64_t)e->hi; return true; }
  if (e->isC()) { lo = hi = (int64_t)sextv(e->c, e->w); return true; }
  int64_t a, b, c, d;
  switch (e->op) {
  case O_SEXT: return srange(e->k[0], lo, hi);
  case O_ADD: if (srange(e->k[0], a, b) && srange(e->k[1], c, d)) { lo = a + c; hi = b + d; return lo > -I53 && hi < I53; } return false;
  case O_SUB: if (srange(e->k[0], a, b) && srange(e->k[1], c, d)) { lo = a - d; hi = b - c; return lo > -I53 && hi < I53; } return false;
  case O_ITE: if (srange(e->k[1], a, b) && srange(e->k[2], c, d)) { lo = std::min(a, c); hi = std::max(b, d); return true; } return false;
  default: return false;
  }
}
static Val itofp(Val v, bool sgn) {
  if (v.k == VC) return fpC(sgn ? (double)(int64_t)sextv(v.u, v.w) : (double)v.u);
  if (v.k == VF) v = ve(fpBits(v));
  if (v.k == VC) return itofp(v, sgn);
  E e = v.e;
  int64_t lo, hi;
  if (sgn) {
    if (srange(e, lo, hi) && lo > -I53 && hi < I53) { return fpInt(fitS(e, sbits(lo, hi)), 0, lo, hi); }
  } else if (e->hi < (u128)I53) {
    lo = (int64_t)e->lo; hi = (int64_t)e->hi;
    unsigned w = sbits(lo, hi);
    return fpInt(fitU(e, w), 0, lo, hi);
  }
  uint64_t c = concE(e);
  return fpC(sgn ? (double)(int64_t)sextv(c, e->w) : (double)c);
}
static uint64_t fptoiC(double d, unsigned w, bool sgn) { // saturating semantics
  if (std::isnan(d)) return 0;
  d = trunc(d);
  if (sgn) {
    double mx = ldexp(1.0, w - 1);
    if (d >= mx) return (uint64_t)(maskw(w) >> 1);
    if (d < -mx) return (uint64_t)1 << (w - 1);
    return (uint64_t)(int64_t)d & (uint64_t)maskw(w);
  }
  if (d <= 0) return 0;
  if (d >= ldexp(1.0, w)) return (uint64_t)maskw(w);
  return (uint64_t)d;
}
static Val fptoi(Val v, unsigned w, bool sgn) {
  if (v.k == VF && v.f->isInt && v.f->sc == 0) {
    bool ok = sgn ? (w >= 55 || (v.f->lo >= -(1ll << (w - 1)) && v.f->hi < (1ll << (w - 1)))) : (v.f->lo >= 0 && (w >= 54 || v.f->hi < (1ll << w)));
    if (ok) {
      if (v.f->lo >= 0) { // make the non-negative range visible
        unsigned nw = ubits((uint64_t)v.f->hi);
        E x = fitS(v.f->n, std::max<unsigned>(nw, v.f->n->w));
        return ve(fitU(mkExtract(x, 0, nw), w));
      }
      return ve(fitS(v.f->n, w));
    }
  }
  if (v.k == VF) {
    TabV t = asTab(v);
    if (t.ok && t.tab.size() <= 512) {
      std::vector<u128> b; for (double d : t.tab) b.push_back(fptoiC(d, w, sgn));
      return ve(lookupE(t.idx, b, w));
    }
  }
  return vc(fptoiC(concFP(v), w, sgn), w);
}
