// Environment model: allocation, an in-memory file system, and the sym_* harness interface (included by exec.cpp).
#pragma once
enum Ext { X_malloc, X_calloc, X_realloc, X_free, X_posix_memalign, X_memcmp, X_bcmp, X_strlen, X_memchr, X_memrchr, X_open, X_read, X_write, X_writev, X_close, X_fstat, X_stat, X_lseek,
  X_fcntl, X_errno, X_getenv, X_getcwd, X_syscall, X_dlsym, X_clock_gettime, X_strerror, X_abort, X_zero, X_minus1, X_unlink, X_mkdir, X_rmdir, X_key_create, X_getspecific, X_setspecific, X_sysconf, X_fsync,
  X_m1, X_m2, X_sym_u64, X_sym_i64, X_sym_f64, X_sym_f64_of, X_sym_f64_any, X_assume, X_check, X_observe, X_observe_f64, X_conc, X_conc_f64, X_cover, X_fault, X_faultr, X_fail, X_memcpy, X_memset, X_decide, X_fiber_new, X_fiber_switch };
static const std::map<std::string, int> &extTab() {
  static std::map<std::string, int> t = {
    {"malloc", X_malloc}, {"calloc", X_calloc}, {"realloc", X_realloc}, {"free", X_free}, {"posix_memalign", X_posix_memalign}, {"memcmp", X_memcmp}, {"bcmp", X_bcmp},
    {"strlen", X_strlen}, {"memchr", X_memchr}, {"memrchr", X_memrchr}, {"open", X_open}, {"open64", X_open}, {"read", X_read}, {"write", X_write}, {"writev", X_writev}, {"close", X_close},
    {"fstat64", X_fstat}, {"stat64", X_stat}, {"lstat64", X_stat}, {"lseek64", X_lseek}, {"fcntl", X_fcntl}, {"__errno_location", X_errno}, {"getenv", X_getenv}, {"getcwd", X_getcwd}, {"syscall", X_syscall},
    {"dlsym", X_dlsym}, {"clock_gettime", X_clock_gettime}, {"__xpg_strerror_r", X_strerror}, {"abort", X_abort}, {"unlink", X_unlink}, {"mkdir", X_mkdir}, {"rmdir", X_rmdir},
    {"pthread_key_create", X_key_create}, {"pthread_key_delete", X_zero}, {"pthread_getspecific", X_getspecific}, {"pthread_setspecific", X_setspecific}, {"sysconf", X_sysconf}, {"fsync", X_fsync}, {"fdatasync", X_fsync},
    {"pthread_self", X_zero}, {"isatty", X_zero}, {"sched_yield", X_zero}, {"ftruncate64", X_zero}, {"memcpy", X_memcpy}, {"memmove", X_memcpy}, {"memset", X_memset},
    {"sym_u64", X_sym_u64}, {"sym_i64", X_sym_i64}, {"sym_f64", X_sym_f64}, {"sym_f64_of", X_sym_f64_of}, {"sym_f64_any", X_sym_f64_any}, {"sym_assume", X_assume}, {"sym_check", X_check},
    {"sym_observe", X_observe}, {"sym_observe_f64", X_observe_f64}, {"sym_conc", X_conc}, {"sym_conc_f64", X_conc_f64}, {"sym_cover", X_cover}, {"sym_fault_write", X_fault}, {"sym_fault_read", X_faultr}, {"sym_fail", X_fail}, {"sym_decide", X_decide}, {"sym_fiber_new", X_fiber_new}, {"sym_fiber_switch", X_fiber_switch},
  };
  static bool init = false;
  if (!init) { init = true; for (auto *m : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "log2", "sqrt", "sinh", "cosh", "tanh", "cbrt", "floor", "ceil", "round", "trunc", "exp2", "fabs"}) t[m] = X_m1;
    for (auto *m : {"pow", "atan2", "fmod", "hypot"}) t[m] = X_m2; }
  return t;
}
static int extId(const std::string &n) { auto &t = extTab(); auto it = t.find(n); return it == t.end() ? -1 : it->second; }
static double (*mathFn(const std::string &n))(double) {
  static std::map<std::string, double (*)(double)> t = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"exp", exp}, {"log", log}, {"log10", log10}, {"log2", log2}, {"sqrt", sqrt}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"cbrt", cbrt}, {"floor", floor}, {"ceil", ceil}, {"round", round}, {"trunc", trunc}, {"exp2", exp2}, {"fabs", fabs}};
  return t[n];
}
static uint64_t gErrno, gTls;
static void initLibc() { gErrno = (uint64_t)cur->mem.alloc(4, 2) << 32; gTls = (uint64_t)cur->mem.alloc(8 * 128, 2) << 32; }
static const Leaf L8{0, 8, 1, false}, L32{0, 32, 4, false}, L64{0, 64, 8, false}, LF{0, 64, 8, true};
static void setErrno(int e) { storeAt(gErrno, vc(e, 32), L32); }

static std::string panicInfo(const std::vector<Val> &a) {
  std::string r;
  try {
    if (a.size() >= 2 && a[0].k == VC && a[1].k == VC && a[1].u < 300 && (a[0].u >> 32)) { try { std::string s = bstr(a[0].u, a[1].u); bool ok = true; for (char c : s) if (c < 9) ok = false; if (ok) r += " '" + s + "'"; } catch (...) {} }
    else if (a.size() >= 1 && a[0].k == VC && (a[0].u >> 32)) { // fmt::Arguments
      try { Val p = loadAt(a[0].u, L64), n = loadAt(a[0].u + 8, L64); if (p.k == VC && n.k == VC && n.u >= 1 && n.u < 20) for (uint64_t k = 0; k < n.u; k++) { Val sp = loadAt(p.u + 16 * k, L64), sl = loadAt(p.u + 16 * k + 8, L64); r += (k ? "{}" : " '") + bstr(sp.u, std::min<uint64_t>(sl.u, 200)); } r += "'"; } catch (...) {}
    }
    const Val &l = a.back();
    if (a.size() && l.k == VC && (l.u >> 32)) { Val p = loadAt(l.u, L64), n = loadAt(l.u + 8, L64), ln = loadAt(l.u + 16, L32); if (p.k == VC && n.k == VC && n.u < 300) r += " at " + bstr(p.u, n.u) + ":" + std::to_string(ln.u); }
  } catch (...) {}
  return r;
}
static E newSym(const std::string &name, uint64_t span) { // var in [0, span]
  if (cur->syms.size() > 4000) err("too many symbolic inputs");
  unsigned w = ubits(span);
  E v = mkVar(cur->syms.size(), w, 0, span);
  cur->syms.push_back(SymRec{v, name});
  cur->model.push_back(0);
  return v;
}
// ranges of variables are asserted explicitly in the solver when first used in a state
static E rawRange(E v) { // v <= hi, built without range simplification
  return mkRawUle(v, mkC(v->hi, v->w));
}
static void doExt(Func *t, std::vector<Val> &a, std::vector<Val> &res, const In &i) {
  auto C = [&](size_t k) { return concV(a[k]); };
  auto ret = [&](uint64_t v) { res.push_back(vc(v, i.w ? i.w : 64)); };
  switch (t->ext) {
  case X_malloc: ret(heapAlloc(C(0))); return;
  case X_calloc: { uint64_t n = C(0), m = C(1); ret(heapAlloc(n * m)); return; }
  case X_posix_memalign: { uint64_t p = C(0), n = C(2); storeAt(p, vc(heapAlloc(n), 64), L64); ret(0); return; }
  case X_free: { uint64_t p = C(0); if (!p) return; Obj *o = cur->mem.get(p >> 32); if (!o || (uint32_t)p || o->kind != 0) throw Violation{"memory", "invalid free"}; cur->mem.release(p >> 32, false); return; }
  case X_realloc: {
    uint64_t p = C(0), n = C(1); uint64_t q = heapAlloc(n);
    if (p) { Obj *o = cur->mem.get(p >> 32); if (!o || (uint32_t)p || o->kind != 0) throw Violation{"memory", "invalid realloc"}; copyMem(q, p, std::min<uint64_t>(n, o->size)); cur->mem.release(p >> 32, false); }
    ret(q); return;
  }
  case X_memcpy: { uint64_t d = C(0), s = C(1), n = C(2); copyMem(d, s, n); ret(d); return; }
  case X_memset: { uint64_t d = C(0), n = C(2); Val v = a[1]; v = v.k == VC ? vc(v.u, 8) : ve(mkExtract(toE(v), 0, 8)); for (uint64_t k = 0; k < n; k++) storeAt(d + k, v, L8); ret(d); return; }
  case X_memcmp: case X_bcmp: {
    uint64_t n = C(2); if (!n) { ret(0); return; }
    uint64_t p = C(0), q = C(1);
    Obj *x = resolve(p, n, false), *y = resolve(q, n, false); uint32_t ox = (uint32_t)p, oy = (uint32_t)q;
    bool bc = t->ext == X_bcmp;
    E r = mkC(0, 32);
    if (!x->c && !y->c) { int c = memcmp(x->d + ox, y->d + oy, n); ret(c < 0 ? (bc ? 1 : (uint64_t)-1) : c > 0 ? 1 : 0); return; }
    for (uint64_t k = n; k-- > 0;) {
      E u = cellByteE(x, ox + k), v = cellByteE(y, oy + k);
      if (u == v) continue;
      if (bc) r = mkIte(mkEq(u, v), r, mkC(1, 32));
      else r = mkIte(mkEq(u, v), r, mkIte(mkBin(O_ULT, u, v), mkC((u128)-1, 32), mkC(1, 32)));
    }
    res.push_back(ve(r)); return;
  }
  case X_strlen: { uint64_t p = C(0), n = 0; while (concByte(p + n)) n++; ret(n); return; }
  case X_memchr: { uint64_t p = C(0), n = C(2); uint8_t c = C(1);
    for (uint64_t k = 0; k < n; k++) { Obj *o = resolve(p + k, 1, false); E b = cellByteE(o, (uint32_t)(p + k)); if (decide(mkEq(b, mkC(c, 8)))) { ret(p + k); return; } } ret(0); return; }
  case X_memrchr: { uint64_t p = C(0), n = C(2); uint8_t c = C(1);
    for (uint64_t k = n; k-- > 0;) { Obj *o = resolve(p + k, 1, false); E b = cellByteE(o, (uint32_t)(p + k)); if (decide(mkEq(b, mkC(c, 8)))) { ret(p + k); return; } } ret(0); return; }
  case X_open: {
    std::string path = pathOf(cstr(C(0))); uint64_t fl = C(1);
    auto it = cur->nameIdx.find(path);
    int ino;
    if (cur->dirs.count(path)) { setErrno(21); ret((uint64_t)-1); return; }
    if (it == cur->nameIdx.end()) {
      std::string up = parentOf(path);
      if (!(fl & 64) || (!up.empty() && !cur->dirs.count(up))) { setErrno(2); ret((uint64_t)-1); return; }
      ino = cur->inodes.size(); cur->inodes.push_back(std::make_shared<VFile>()); cur->nameIdx[path] = ino;
    } else {
      ino = it->second;
      if ((fl & 64) && (fl & 128)) { setErrno(17); ret((uint64_t)-1); return; }
      if (fl & 512) cur->inodes[ino] = std::make_shared<VFile>();
    }
    FD d; d.open = true; d.file = ino; d.append = fl & 1024; d.wr = (fl & 3) != 0; d.rd = (fl & 3) != 1;
    cur->fds.push_back(d); ret(cur->fds.size() - 1); return;
  }
  case X_close: { uint64_t fd = C(0); if (fd < cur->fds.size()) cur->fds[fd].open = false; ret(0); return; }
  case X_read: {
    uint64_t fd = C(0), p = C(1), n = C(2);
    if (fd >= cur->fds.size() || cur->fds[fd].file < 0) { setErrno(9); ret((uint64_t)-1); return; }
    switch (nextFault(cur->faultRead)) { case 1: setErrno(5); ret((uint64_t)-1); return; case 3: setErrno(4); ret((uint64_t)-1); return; case 2: n = (n + 1) / 2; }
    FD &d = cur->fds[fd]; auto &f = *cur->inodes[d.file]; uint64_t k = 0;
    if (d.pos < f.data.size()) k = std::min<uint64_t>(n, f.data.size() - d.pos);
    if (k) {
      Obj *o = resolve(p, k, true); uint32_t off = (uint32_t)p; bool sy = false;
      for (uint64_t j = 0; j < k; j++) if (f.data[d.pos + j].c.kind) sy = true;
      if (sy) ensureCells(o);
      for (uint64_t j = 0; j < k; j++) { o->d[off + j] = f.data[d.pos + j].v; if (o->c) o->c[off + j] = f.data[d.pos + j].c; }
    }
    d.pos += k; ret(k); return;
  }
  case X_write: case X_writev: {
    uint64_t fd = C(0), p = C(1), n = C(2);
    std::vector<std::pair<uint64_t, uint64_t>> iov;
    if (t->ext == X_write) iov.push_back({p, n});
    else for (uint64_t k = 0; k < n; k++) { Val b = loadAt(p + 16 * k, L64), l = loadAt(p + 16 * k + 8, L64); iov.push_back({concV(b), concV(l)}); }
    uint64_t tot = 0; for (auto &v : iov) tot += v.second;
    if (fd >= cur->fds.size()) { setErrno(9); ret((uint64_t)-1); return; }
    FD &d = cur->fds[fd];
    if (d.file < 0) { ret(tot); return; }
    if (!d.wr) { setErrno(9); ret((uint64_t)-1); return; }
    if (tot) switch (nextFault(cur->faultAfter)) { case 1: setErrno(28); ret((uint64_t)-1); return; case 3: setErrno(4); ret((uint64_t)-1); return;
      case 2: { uint64_t left = tot = (tot + 1) / 2; for (auto &v : iov) { v.second = std::min(v.second, left); left -= v.second; } } }
    auto &sp = cur->inodes[d.file];
    if (sp.use_count() > 1) sp = std::make_shared<VFile>(*sp);
    if (d.append) d.pos = sp->data.size();
    for (auto &v : iov) {
      if (!v.second) continue;
      Obj *o = resolve(v.first, v.second, false); uint32_t off = (uint32_t)v.first;
      for (uint64_t j = 0; j < v.second; j++) { FB b; b.v = o->d[off + j]; if (o->c) b.c = o->c[off + j]; else memset((void *)&b.c, 0, sizeof b.c);
        if (d.pos < sp->data.size()) sp->data[d.pos] = b; else { FB z; memset((void *)&z, 0, sizeof z); while (sp->data.size() < d.pos) sp->data.push_back(z); sp->data.push_back(b); }
        d.pos++; }
    }
    ret(tot); return;
  }
  case X_fstat: case X_stat: {
    int ino = -1; uint64_t p = C(1);
    if (t->ext == X_fstat) { uint64_t fd = C(0); if (fd < cur->fds.size()) ino = cur->fds[fd].file; }
    else { std::string path = pathOf(cstr(C(0))); auto it = cur->nameIdx.find(path); if (it != cur->nameIdx.end()) ino = it->second;
      if (cur->dirs.count(path)) { for (int k = 0; k < 18; k++) storeAt(p + 8 * k, vc(0, 64), L64); storeAt(p + 24, vc(0040755, 32), L32); ret(0); return; } }
    if (ino < 0) { setErrno(2); ret((uint64_t)-1); return; }
    for (int k = 0; k < 18; k++) storeAt(p + 8 * k, vc(0, 64), L64);
    storeAt(p + 24, vc(0100644, 32), L32); storeAt(p + 48, vc(cur->inodes[ino]->data.size(), 64), L64);
    ret(0); return;
  }
  case X_lseek: {
    uint64_t fd = C(0), off = C(1), wh = C(2);
    if (fd >= cur->fds.size() || cur->fds[fd].file < 0) { setErrno(9); ret((uint64_t)-1); return; }
    FD &d = cur->fds[fd]; d.pos = wh == 0 ? off : wh == 1 ? d.pos + off : cur->inodes[d.file]->data.size() + off; ret(d.pos); return;
  }
  case X_unlink: { std::string path = pathOf(cstr(C(0))); if (cur->nameIdx.erase(path)) ret(0); else { setErrno(2); ret((uint64_t)-1); } return; }
  case X_mkdir: {
    std::string path = pathOf(cstr(C(0))), up = parentOf(path);
    if (cur->dirs.count(path) || cur->nameIdx.count(path)) { setErrno(17); ret((uint64_t)-1); return; }
    if (!up.empty() && !cur->dirs.count(up)) { setErrno(2); ret((uint64_t)-1); return; }
    cur->dirs.insert(path); ret(0); return;
  }
  case X_rmdir: { std::string path = pathOf(cstr(C(0))); if (cur->dirs.erase(path)) ret(0); else { setErrno(2); ret((uint64_t)-1); } return; }
  case X_fcntl: case X_zero: case X_fsync: ret(0); return;
  case X_minus1: ret((uint64_t)-1); return;
  case X_errno: ret(gErrno); return;
  case X_getenv: ret(0); return;
  case X_dlsym: ret(0); return;
  case X_getcwd: { uint64_t p = C(0); const char *s = "/v"; for (int k = 0; k < 3; k++) storeAt(p + k, vc(s[k], 8), L8); ret(p); return; }
  case X_sysconf: ret(4096); return;
  case X_clock_gettime: { uint64_t p = C(1); storeAt(p, vc(1600000000, 64), L64); storeAt(p + 8, vc(0, 64), L64); ret(0); return; }
  case X_strerror: { uint64_t p = C(1); const char *s = "os error"; for (int k = 0; k < 9; k++) storeAt(p + k, vc(s[k], 8), L8); ret(0); return; }
  case X_syscall: {
    uint64_t nr = C(0);
    if (nr == 318) { uint64_t p = C(1), n = C(2); for (uint64_t k = 0; k < n; k++) storeAt(p + k, vc(0, 8), L8); ret(n); return; }
    if (nr == 202) { ret(0); return; } // futex
    setErrno(38); ret((uint64_t)-1); return;
  }
  case X_abort: throw Violation{"panic", "abort"};
  case X_key_create: { uint64_t p = C(0); Val n = loadAt(gTls, L64); storeAt(gTls, vc(n.u + 1, 64), L64); storeAt(p, vc(n.u + 1, 32), L32); ret(0); return; }
  case X_getspecific: { Val v = loadAt(gTls + 8 * (C(0) & 127), L64); res.push_back(v); return; }
  case X_setspecific: { storeAt(gTls + 8 * (C(0) & 127), a[1], L64); ret(0); return; }
  case X_m1: res.push_back(fpMap(a[0], mathFn(t->name))); return;
  case X_m2: res.push_back(fpBin(t->name == "pow" ? 5 : t->name == "atan2" ? 6 : t->name == "hypot" ? 8 : 4, a[0], a[1])); return;
  // ---- harness interface
  case X_sym_u64: case X_sym_i64: {
    std::string nm = bstr(C(0), C(1)); uint64_t lo = C(2), hi = C(3);
    E v = newSym(nm, hi - lo); if ((u128)v->hi != maskw(v->w)) cur->pc.push_back(rawRange(v));
    res.push_back(ve(mkBin(O_ADD, mkZext(v, 64), mkC(lo, 64)))); return;
  }
  case X_sym_f64: {
    std::string nm = bstr(C(0), C(1)); int64_t lo = (int64_t)C(2), hi = (int64_t)C(3); int sc = (int)(int32_t)C(4);
    if (lo == hi) { E v = newSym(nm, 0); (void)v; res.push_back(fpC(ldexp((double)lo, -sc))); return; }
    E v = newSym(nm, hi - lo); if ((u128)v->hi != maskw(v->w)) cur->pc.push_back(rawRange(v));
    unsigned w = sbits(std::min<int64_t>(lo, 0), std::max(hi, hi - lo));
    res.push_back(fpInt(mkBin(O_ADD, mkZext(v, w), mkC((u128)(s128)lo, w)), sc, lo, hi)); return;
  }
  case X_sym_f64_of: {
    std::string nm = bstr(C(0), C(1)); uint64_t p = C(2), n = C(3); std::vector<double> tb;
    for (uint64_t k = 0; k < n; k++) tb.push_back(concFP(loadAt(p + 8 * k, LF)));
    E v = newSym(nm, n - 1); if ((u128)v->hi != maskw(v->w)) cur->pc.push_back(rawRange(v));
    res.push_back(fpTab(v, tb)); return;
  }
  case X_sym_f64_any: { std::string nm = bstr(C(0), C(1)); E v = newSym(nm, ~0ull); res.push_back(ve(v)); return; }
  case X_assume: {
    E c = toE(a[0]); c = mkExtract(c, 0, 1);
    Assign m; if (!sat(*cur, c, &m)) throw PathEnd{false};
    addPC(cur, c); cur->model = m; return;
  }
  case X_fiber_new: {
    uint64_t p = C(0), ix = (p - FN_BASE) / 16;
    if (p < FN_BASE || ix >= funcList.size() || !funcList[ix]->hasBody) err("a thread needs a function");
    Func *fn = funcList[ix]; if (!fn->decoded) decode(fn); fn->executed = true; fn->calls++;
    if (cur->fibers.empty()) cur->fibers.emplace_back();
    Fiber n; n.regs.resize(fn->nslots + 64, vc(0, 64)); n.regs[fn->params[0].first] = a[1];
    n.fr.push_back(Frame{fn, 0, 0, -1, 0});
    cur->fibers.push_back(std::move(n)); ret(cur->fibers.size() - 1); return; }
  case X_fiber_switch: {
    uint64_t k = C(0);
    if (k == cur->fiber) return;
    if (k >= cur->fibers.size() || cur->fibers[k].fr.empty()) err("switching to an unknown thread");
    cur->fr.back().pc++;
    Fiber &o = cur->fibers[cur->fiber]; o.fr.swap(cur->fr); o.regs.swap(cur->regs); o.allocas.swap(cur->allocas);
    Fiber &n = cur->fibers[k]; n.fr.swap(cur->fr); n.regs.swap(cur->regs); n.allocas.swap(cur->allocas);
    cur->fiber = k; cur->fr.back().pc--; return; } // the caller steps over the call
  case X_decide: { E c = mkExtract(toE(a[0]), 0, 1); bool b = decide(c); ret(b); return; }
  case X_check: {
    E c = mkExtract(toE(a[0]), 0, 1); std::string nm = bstr(C(1), C(2));
    gAssertsSeen.insert(nm);
    Assign m; if (sat(*cur, mkNot(c), &m)) { cur->model = m; throw Violation{"check", nm}; }
    return;
  }
  case X_fail: throw Violation{"check", bstr(C(0), C(1))};
  case X_observe: { cur->obs.push_back({bstr(C(0), C(1)), a[2]}); return; }
  case X_observe_f64: { cur->obs.push_back({bstr(C(0), C(1)), a[2]}); return; }
  case X_conc: ret(C(0)); return;
  case X_conc_f64: res.push_back(fpC(concFP(a[0]))); return;
  case X_cover: cur->covers.insert(bstr(C(0), C(1))); return;
  case X_fault: cur->faultAfter = (int64_t)C(0); return;
  case X_faultr: cur->faultRead = (int64_t)C(0); return;
  }
  err("unmodelled external " + t->name);
}
