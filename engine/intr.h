// LLVM intrinsics (included by exec.cpp).
#pragma once
static void doIntrinsic(const In &i, uint32_t base) {
  Frame &f = cur->fr.back();
  auto A = [&](unsigned n, int k = 0) -> const Val & { int s = f.f->pool[i.ops + 2 * n]; return s < 0 ? CP[~s + k] : cur->regs[base + s + k]; };
  auto AN = [&](unsigned n) { return f.f->pool[i.ops + 2 * n + 1]; };
  auto set = [&](int k, Val v) { cur->regs[base + i.dst + k] = v; };
  unsigned id = i.a;
  auto each1 = [&](std::function<Val(Val)> fn) { for (int k = 0; k < i.n; k++) { Val r = fn(A(0, k)); set(k, r); } };
  auto each2 = [&](std::function<Val(Val, Val)> fn) { for (int k = 0; k < i.n; k++) { Val r = fn(A(0, k), A(1, k)); set(k, r); } };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concV(A(2)); if (!n) return; uint64_t d = concV(A(0)), s = concV(A(1)); copyMem(d, s, n); return; }
  case Intrinsic::memset: {
    uint64_t n = concV(A(2)); if (!n) return; uint64_t d = concV(A(0)); Val v = A(1);
    if (v.k == VC) { Obj *o = resolve(d, n, true); memset(o->d + (uint32_t)d, (int)v.u, n); if (o->c) memset((void *)(o->c + (uint32_t)d), 0, n * sizeof(Cell)); }
    else for (uint64_t k = 0; k < n; k++) storeAt(d + k, v, L8);
    return;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    const Val a = A(0), b = A(1); unsigned w = a.w;
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    int k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? 0 : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? 1 : 2;
    if (a.k == VC && b.k == VC) {
      if (!sg) { u128 r = k == 0 ? (u128)a.u + b.u : k == 1 ? (u128)a.u - b.u : (u128)a.u * b.u; bool ov = k == 1 ? a.u < b.u : r > maskw(w); set(0, vc((uint64_t)r, w)); set(1, vc(ov, 1)); }
      else { s128 x = sextv(a.u, w), y = sextv(b.u, w); s128 r = k == 0 ? x + y : k == 1 ? x - y : x * y; bool ov = r != sextv((u128)r & maskw(w), w); set(0, vc((uint64_t)r, w)); set(1, vc(ov, 1)); }
      return;
    }
    E x = toE(a), y = toE(b); Op op = k == 0 ? O_ADD : k == 1 ? O_SUB : O_MUL; E r = mkBin(op, x, y); E ov;
    if (!sg) {
      if (k == 0) { if (x->hi <= maskw(w) - y->hi) ov = mkFalse(); else ov = mkBin(O_ULT, r, x); }
      else if (k == 1) ov = mkBin(O_ULT, x, y);
      else {
        bool safe = false; if (x->hi == 0 || y->hi <= maskw(w) / (x->hi ? x->hi : 1)) safe = true;
        if (safe) ov = mkFalse();
        else if (w <= 64) { E z = mkBin(O_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); ov = mkBin(O_ULT, mkC(maskw(w), 2 * w), z); }
        else if (x->isC() && y->isC()) { u128 p = x->c * y->c; ov = mkC(x->c && p / x->c != y->c, 1); }
        else err("128-bit symbolic multiplication overflow");
      }
    } else {
      u128 q = maskw(w) >> 2;
      if (k == 0 && x->hi <= q && y->hi <= q) ov = mkFalse();
      else if (k == 1 && x->hi <= (maskw(w) >> 1) && y->hi <= (maskw(w) >> 1)) ov = mkFalse();
      else if (w <= 64) { unsigned W = k == 2 ? 2 * w : w + 1; E z = mkBin(op, mkSext(x, W), mkSext(y, W)); ov = mkNot(mkEq(z, mkSext(mkExtract(z, 0, w), W))); }
      else { // 128 bit
        if (k == 2) { if (x->isC() && y->isC()) { s128 p; bool o = __builtin_mul_overflow((s128)x->c, (s128)y->c, &p); ov = mkC(o, 1); } else err("128-bit signed mul"); }
        else { E z0 = mkC(0, w); E sx = mkBin(O_SLT, x, z0), sy = mkBin(O_SLT, y, z0), sr = mkBin(O_SLT, r, z0); if (k == 1) sy = mkNot(sy); ov = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr))); }
      }
    }
    set(0, ve(r)); set(1, ve(ov)); return;
  }
  case Intrinsic::uadd_sat: each2([&](Val a, Val b) { if (a.k == VC && b.k == VC) { u128 r = (u128)a.u + b.u; return vc(r > maskw(a.w) ? (uint64_t)maskw(a.w) : (uint64_t)r, a.w); } E x = toE(a), y = toE(b), r = mkBin(O_ADD, x, y); return x->hi <= maskw(a.w) - y->hi ? ve(r) : ve(mkIte(mkBin(O_ULT, r, x), mkC(maskw(a.w), a.w), r)); }); return;
  case Intrinsic::usub_sat: each2([&](Val a, Val b) { if (a.k == VC && b.k == VC) return vc(a.u < b.u ? 0 : a.u - b.u, a.w); E x = toE(a), y = toE(b); return ve(mkIte(mkBin(O_ULT, x, y), mkC(0, a.w), mkBin(O_SUB, x, y))); }); return;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: each2([&](Val a, Val b) { uint64_t x = concV(a), y = concV(b); s128 r = id == Intrinsic::sadd_sat ? sextv(x, a.w) + sextv(y, a.w) : sextv(x, a.w) - sextv(y, a.w); s128 mx = (s128)(maskw(a.w) >> 1), mn = -mx - 1; if (r > mx) r = mx; if (r < mn) r = mn; return vc((uint64_t)r, a.w); }); return;
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
    each2([&](Val a, Val b) { unsigned p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; Val c = icmpV(p, a, b); if (c.k == VC) return c.u ? a : b; return ve(mkIte(c.e, toE(a), toE(b))); }); return;
  case Intrinsic::abs: each1([&](Val a) { if (a.k == VC) { s128 x = sextv(a.u, a.w); return vc((uint64_t)(x < 0 ? -x : x), a.w); } E x = toE(a), z = mkC(0, a.w); return ve(mkIte(mkBin(O_SLT, x, z), mkBin(O_SUB, z, x), x)); }); return;
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
    each1([&](Val a) {
      unsigned w = a.w;
      auto fn = [&](u128 v) -> uint64_t { unsigned n = 0; if (id == Intrinsic::ctpop) { while (v) { n += v & 1; v >>= 1; } return n; } if (id == Intrinsic::cttz) { while (n < w && !((v >> n) & 1)) n++; return n; } while (n < w && !((v >> (w - 1 - n)) & 1)) n++; return n; };
      if (a.k == VC) return vc(fn(a.u), w);
      E x = toE(a); if (x->isC()) return w <= 64 ? vc(fn(x->c), w) : ve(mkC(fn(x->c), w));
      E r;
      if (id == Intrinsic::ctpop) { r = mkC(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(O_ADD, r, mkZext(mkExtract(x, k, 1), w)); }
      else if (id == Intrinsic::cttz) { r = mkC(w, w); for (unsigned k = w; k-- > 0;) r = mkIte(mkExtract(x, k, 1), mkC(k, w), r); }
      else { r = mkC(w, w); for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(x, k, 1), mkC(w - 1 - k, w), r); }
      return ve(r);
    }); return;
  case Intrinsic::bswap: each1([&](Val a) { unsigned n = a.w / 8; E x = toE(a); E r = mkExtract(x, 0, 8); for (unsigned k = 1; k < n; k++) r = mkConcat(r, mkExtract(x, 8 * k, 8)); return ve(r); }); return;
  case Intrinsic::fshl: case Intrinsic::fshr:
    for (int k = 0; k < i.n; k++) {
      unsigned w = A(0, k).w; uint64_t s = concV(A(2, k)) % w; E x = toE(A(0, k)), y = toE(A(1, k)); E r;
      if (id == Intrinsic::fshl) r = s ? mkBin(O_OR, mkBin(O_SHL, x, mkC(s, w)), mkBin(O_LSHR, y, mkC(w - s, w))) : x;
      else r = s ? mkBin(O_OR, mkBin(O_SHL, x, mkC(w - s, w)), mkBin(O_LSHR, y, mkC(s, w))) : y;
      set(k, ve(r));
    }
    return;
  case Intrinsic::fabs: each1([&](Val a) { if (a.w == 32) return vc(concV(a) & 0x7fffffff, 32); return fpAbs(a); }); return;
  case Intrinsic::sqrt: each1([&](Val a) { return fpUn32or64(i.w, a, sqrt); }); return;
  case Intrinsic::sin: each1([&](Val a) { return fpUn32or64(i.w, a, sin); }); return;
  case Intrinsic::cos: each1([&](Val a) { return fpUn32or64(i.w, a, cos); }); return;
  case Intrinsic::floor: each1([&](Val a) { return fpUn32or64(i.w, a, floor); }); return;
  case Intrinsic::ceil: each1([&](Val a) { return fpUn32or64(i.w, a, ceil); }); return;
  case Intrinsic::round: each1([&](Val a) { return fpUn32or64(i.w, a, round); }); return;
  case Intrinsic::trunc: each1([&](Val a) { return fpUn32or64(i.w, a, trunc); }); return;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: each1([&](Val a) { return fpUn32or64(i.w, a, rint); }); return;
  case Intrinsic::exp: each1([&](Val a) { return fpUn32or64(i.w, a, exp); }); return;
  case Intrinsic::log: each1([&](Val a) { return fpUn32or64(i.w, a, log); }); return;
  case Intrinsic::log10: each1([&](Val a) { return fpUn32or64(i.w, a, log10); }); return;
  case Intrinsic::log2: each1([&](Val a) { return fpUn32or64(i.w, a, log2); }); return;
  case Intrinsic::pow: each2([&](Val a, Val b) { return fpBin(5, a, b); }); return;
  case Intrinsic::copysign: each2([&](Val a, Val b) { return fpBin(7, a, b); }); return;
  case Intrinsic::minnum: each2([&](Val a, Val b) { return fpBin(9, a, b); }); return;
  case Intrinsic::maxnum: each2([&](Val a, Val b) { return fpBin(10, a, b); }); return;
  case Intrinsic::powi: { int n = (int32_t)concV(A(1)); Val r = fpMap(A(0), [n](double d) { return __builtin_powi(d, n); }); set(0, r); return; }
  case Intrinsic::fptoui_sat: case Intrinsic::fptosi_sat: {
    for (int k = 0; k < i.n; k++) { Val a = A(0, k); if (a.w == 32) a = fpC(b2f(concV(a))); Val r = fptoi(a, i.w, id == Intrinsic::fptosi_sat); set(k, r); } return; }
  case Intrinsic::trap: case Intrinsic::debugtrap: throw Violation{"panic", "trap"};
  case Intrinsic::expect: { Val r = A(0); set(0, r); return; }
  case Intrinsic::threadlocal_address: { Val r = A(0); set(0, r); return; }
  case Intrinsic::is_constant: set(0, vc(0, 1)); return;
  case Intrinsic::load_relative: {
    uint64_t p = concV(A(0)); Val o = A(1);
    if (o.k == VC) { Val d = loadAt(p + o.u, L32); uint64_t v = concV(d); set(0, vc(p + (uint64_t)(int64_t)(int32_t)v, 64)); return; }
    uint64_t oo = concV(o); Val d = loadAt(p + oo, L32); set(0, vc(p + (uint64_t)(int64_t)(int32_t)concV(d), 64)); return;
  }
  case Intrinsic::x86_sse2_pmovmskb_128: { E r = mkC(0, 32); for (int k = 0; k < AN(0); k++) r = mkBin(O_OR, r, mkBin(O_SHL, mkZext(mkExtract(toE(A(0, k)), 7, 1), 32), mkC(k, 32))); set(0, ve(r)); return; }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
    unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
    Val r = A(0, 0); for (int k = 1; k < AN(0); k++) r = binV(op, r, A(0, k), i.w); set(0, r); return;
  }
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
    unsigned p = id == Intrinsic::vector_reduce_umax ? CmpInst::ICMP_UGT : id == Intrinsic::vector_reduce_umin ? CmpInst::ICMP_ULT : id == Intrinsic::vector_reduce_smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
    Val r = A(0, 0); for (int k = 1; k < AN(0); k++) { Val c = icmpV(p, r, A(0, k)); if (c.k == VC) { if (!c.u) r = A(0, k); } else r = ve(mkIte(c.e, toE(r), toE(A(0, k)))); } set(0, r); return;
  }
  default: err("unsupported intrinsic " + Intrinsic::getBaseName(id).str());
  }
}
