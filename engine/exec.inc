// bsym - instruction execution, calls, intrinsics, environment model.
static uint64_t gMaxSteps = 60000000;
static bool multi(State* s) { return s->multi; }
static void die(State* s) { gKilled++; delete s; }
static void unsup(State* s, const std::string& what) { incomplete("unsupported: " + what + " at " + locOf(curInst(s))); }

// Move control to another runnable thread. -1: deadlock.
static int pickForced(State* s) {
  // timed waiters may time out when nothing else can run
  bool any = false; for (auto& t : s->th) any |= t.st == T_RUN;
  if (!any) for (auto& t : s->th) if (t.timed && (t.st == T_BLOCK_COND || t.st == T_BLOCK_FUTEX)) { t.st = T_RUN; t.phase = 2; t.timed = false; break; }
  return schedPoint(s, true);
}
// Called before a visible operation of the current thread. true: execute now; false: control moved to another thread.
static bool visible(State* s) {
  if (!s->multi) return true;
  Thread& t = s->th[s->cur];
  if (t.parked) { t.parked = false; return true; }
  int n = 0; for (auto& x : s->th) n += x.st == T_RUN;
  if (n == 1 || s->preempts >= gPreempt) return true;
  t.parked = true;
  int r = schedPoint(s, false);
  if (r == s->cur) { s->th[s->cur].parked = false; return true; }
  s->cur = r; return false;
}
// The current thread blocks; returns false when the state died.
static bool blockSwitch(State* s) {
  int r = pickForced(s);
  if (r < 0) { report(s, "deadlock", "deadlock: every thread is blocked", *s->model); die(s); return false; }
  s->cur = r; return true;
}
static bool ordAcq(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool ordRel(AtomicOrdering o) { return isReleaseOrStronger(o); }
static void atLoadHB(State* s, uint64_t a, AtomicOrdering o) { if (!s->multi) return; auto it = s->syncVC.find(a); if (it == s->syncVC.end()) return; if (ordAcq(o)) vcJoin(s->th[s->cur].vc, it->second); else vcJoin(s->th[s->cur].pend, it->second); }
static void atStoreHB(State* s, uint64_t a, AtomicOrdering o, bool rmw) { if (!s->multi) return; auto& t = s->th[s->cur]; auto& c = s->syncVC[a]; if (!rmw) c.clear(); if (ordRel(o)) { vcJoin(c, t.vc); t.vc[s->cur]++; } else vcJoin(c, t.frel); }

struct Ret { bool done; };
static void setRet(Frame* f, Inst& in, V v) { if (in.dst >= 0 && in.n) f->s[in.dst] = v; }
typedef Step (*ExtFn)(State*, Frame*, Inst&, CallX&);
static std::unordered_map<std::string, int> gExtIdx; static std::vector<std::pair<std::string, ExtFn>> gExt;
static void initExt();
static int extId(const std::string& n) { if (gExt.empty()) initExt(); auto it = gExtIdx.find(n); return it == gExtIdx.end() ? -1 : it->second; }

static void doCall(State* s, Inst& in, CallX& cx, FnInfo* fi) {
  std::vector<V> a; for (auto& p : cx.args) { V* v = op(s->frames().back(), p.first); a.insert(a.end(), v, v + p.second); }
  Frame* n = pushFrame(s, fi); n->retDst = in.dst; n->retN = in.n;
  size_t k = 0, nf = fi->argSlot.size();
  for (size_t i = 0; i < cx.args.size(); i++) {
    if (i < nf) {
      if (fi->F->hasParamAttribute((unsigned)i, Attribute::ByVal) && !a[k].e) {
        Type* t = fi->F->getParamByValType((unsigned)i); uint64_t sz = DL->getTypeAllocSize(t); Obj* src = lookup(s, a[k].c);
        Obj* o = newObj(s, sz, OK_STACK, "byval", false); n->allocas.push_back((uint32_t)((o->base >> 32) - STK0));
        uint64_t off = a[k].c - (src ? src->base : 0);
        if (src && off + sz <= src->size) for (uint64_t b = 0; b < sz; b++) { if (src->un && src->un[off + b]) continue; writeByte(o, b, src->sym && src->sym[off + b] ? src->sym[off + b] : mkConst(src->data[off + b], 8)); }
        a[k] = CV(o->base);
      }
      for (int j = 0; j < fi->argN[i] && j < cx.args[i].second; j++) n->s[fi->argSlot[i] + j] = a[k + j];
    } else for (int j = 0; j < cx.args[i].second; j++) n->varargs.push_back(a[k + j]);
    k += cx.args[i].second;
  }
}
static std::string cstr(State* s, V p, size_t max = 200) {
  std::string r; if (p.e) return "<sym>"; Obj* o = lookup(s, p.c); if (!o) return ""; for (uint64_t i = p.c - o->base; i < o->size && r.size() < max; i++) { char c = (char)o->data[i]; if (!c) break; r += c; } return r;
}
static void copyBytes(State* s, Obj* d, uint64_t doff, Obj* so, uint64_t soff, uint64_t n) { // d writable
  if (!n) return;
  bool plain = !(so->sym && so->symCount) && !so->un;
  std::vector<uint8_t> db(so->data + soff, so->data + soff + n);
  if (plain) { memcpy(d->data + doff, db.data(), n); if (d->un) memset(d->un + doff, 0, n); if (d->sym && d->symCount) for (uint64_t i = 0; i < n; i++) if (d->sym[doff + i]) { d->sym[doff + i] = nullptr; d->symCount--; } return; }
  std::vector<Expr*> sb(n, nullptr); if (so->sym && so->symCount) memcpy(sb.data(), so->sym + soff, n * sizeof(Expr*));
  std::vector<uint8_t> ub(n, 0); if (so->un) memcpy(ub.data(), so->un + soff, n);
  for (uint64_t i = 0; i < n; i++) {
    if (ub[i]) { if (!d->un) d->un = (uint8_t*)calloc(1, d->size); d->un[doff + i] = 1; if (d->sym && d->sym[doff + i]) { d->sym[doff + i] = nullptr; d->symCount--; } continue; }
    if (sb[i]) writeByte(d, doff + i, sb[i]);
    else { d->data[doff + i] = db[i]; if (d->un) d->un[doff + i] = 0; if (d->sym && d->sym[doff + i]) { d->sym[doff + i] = nullptr; d->symCount--; } }
  }
}
static bool memCopy(State* s, V d, V src, V n) { // false: state died
  n = substC(s, n); if (!n.c) return true; d = substC(s, d); src = substC(s, src);
  MemRef rd, rs; if (resolve(s, src, n.c, false, rs) != RR_OK) { die(s); return false; } if (resolve(s, d, n.c, true, rd) != RR_OK) { die(s); return false; }
  if (s->multi && (!raceCheck(s, src.c, n.c, false) || !raceCheck(s, d.c, n.c, true))) { die(s); return false; }
  Obj* dw = writable(s, rd.o); Obj* so = lookup(s, src.c); copyBytes(s, dw, rd.off, so, rs.off, n.c); return true;
}
static bool memSet(State* s, V d, V b, V n) {
  n = substC(s, n); if (!n.c) return true; d = substC(s, d); MemRef rd; if (resolve(s, d, n.c, true, rd) != RR_OK) { die(s); return false; }
  if (s->multi && !raceCheck(s, d.c, n.c, true)) { die(s); return false; }
  Obj* w = writable(s, rd.o);
  if (b.e) { for (uint64_t i = 0; i < n.c; i++) writeByte(w, rd.off + i, b.e); return true; }
  memset(w->data + rd.off, (int)b.c, n.c); if (w->un) memset(w->un + rd.off, 0, n.c);
  if (w->sym && w->symCount) for (uint64_t i = 0; i < n.c; i++) if (w->sym[rd.off + i]) { w->sym[rd.off + i] = nullptr; w->symCount--; }
  return true;
}
// ---- external functions -------------------------------------------------------------------------------------------
#define ARG(i) (*op(f, cx.args[i].first))
#define EXT(nm) static Step ext_##nm(State* s, Frame* f, Inst& in, CallX& cx)
static Expr* inputSym(State* s, const std::string& base, unsigned w) {
  int k = s->nameCtr[base]++; std::string n = base + "#" + std::to_string(k); Expr* e = gReplay ? mkConst((gReplayIn.count(n) ? gReplayIn[n] : 0) & maskw(w), w) : mkSym(n, w); s->inputs.push_back({n, e}); return e;
}
static bool doMalloc(State* s, Frame* f, Inst& in, V size, bool zero, V& out) {
  size = substC(s, size);
  if (s->mallocFailLeft > 0) {
    Expr* e = inputSym(s, "mallocfail", 1); State* o; Expr* c = mkCmp(K_EQ, e, mkConst(1, 1));
    bool side = forkOn(s, c, &o);
    State* fs = side ? s : o; // the failing state
    State* os = side ? o : s;
    for (State* x : {fs, os}) if (x && x != s) { // complete the clone: it must not retry (the symbol is already drawn)
      Frame* xf = x->top();
      if (x == fs) { x->mallocFailLeft--; setRet(xf, in, CV(0)); } else { Obj* ob = newObj(x, size.c, OK_HEAP, "heap", !zero); x->heapLive++; setRet(xf, in, CV(ob->base)); }
      xf->pc++; WL->push_back(x);
    }
    if (side) { s->mallocFailLeft--; out = CV(0); return true; }
  }
  if (size.c > (1ull << 28)) { out = CV(0); return true; }
  Obj* ob = newObj(s, size.c, OK_HEAP, "heap", !zero); s->heapLive++; out = CV(ob->base); return true;
}
EXT(malloc) { V r; doMalloc(s, f, in, ARG(0), false, r); setRet(s->top(), in, r); return ST_NEXT; }
EXT(calloc) { V n = vbin(K_MUL, 64, substC(s, ARG(0)), substC(s, ARG(1))); V r; doMalloc(s, f, in, n, true, r); setRet(s->top(), in, r); return ST_NEXT; }
static bool doFree(State* s, V p) {
  p = substC(s, p); if (!p.c) return true; Obj* o = lookup(s, p.c);
  if (!o || o->kind != OK_HEAP || o->base != p.c || o->freed) { report(s, "memory", !o ? "free of wild pointer" : o->freed ? "double free" : "invalid free", *s->model); die(s); return false; }
  if (s->multi && !raceCheck(s, o->base, std::min<uint64_t>(o->size, 4096), true)) { die(s); return false; }
  Obj* w = new Obj(); w->size = o->size; w->kind = OK_HEAP; w->base = o->base; w->freed = true; w->name = "heap"; s->tab.set(p.c >> 32, w); s->heapLive--; return true;
}
EXT(free) { if (!doFree(s, ARG(0))) return ST_DONE; return ST_NEXT; }
EXT(realloc) {
  V p = substC(s, ARG(0)), n = substC(s, ARG(1)); V r; doMalloc(s, f, in, n, false, r);
  if (r.c && p.c) { Obj* o = lookup(s, p.c); if (!o || o->kind != OK_HEAP || o->base != p.c || o->freed) { report(s, "memory", "invalid realloc", *s->model); die(s); return ST_DONE; } Obj* w = s->tab.wget(r.c >> 32); copyBytes(s, w, 0, o, 0, std::min(o->size, n.c)); if (!doFree(s, p)) return ST_DONE; }
  setRet(s->top(), in, r); return ST_NEXT;
}
EXT(mmap) { V n = substC(s, ARG(1)); V r = CV(~0ull); if (n.c <= (1ull << 28)) { Obj* o = newObj(s, n.c, OK_HEAP, "mmap", false); s->heapLive++; r = CV(o->base); } setRet(f, in, r); return ST_NEXT; }
EXT(munmap) { if (!doFree(s, ARG(0))) return ST_DONE; setRet(s->top(), in, CV(0)); return ST_NEXT; }
static bool readBytes(State* s, V p, uint64_t n, std::vector<V>& out) {
  p = substC(s, p); if (!n) return true; MemRef r; if (resolve(s, p, n, false, r) != RR_OK) { die(s); return false; }
  if (s->multi && !raceCheck(s, p.c, n, false)) { die(s); return false; }
  Obj* o = r.o; for (uint64_t i = 0; i < n; i++) out.push_back(readScalar(s, o, r.off + i, 8)); return true;
}
static Step doMemcmp(State* s, Frame* f, Inst& in, CallX& cx, bool eqOnly) {
  V n = substC(s, ARG(2)); std::vector<V> a, b; if (!readBytes(s, ARG(0), n.c, a) || !readBytes(s, ARG(1), n.c, b)) return ST_DONE;
  V r = CV(0);
  if (eqOnly) { V eq = CV(1); for (size_t i = 0; i < n.c; i++) eq = vbin(K_AND, 1, eq, vcmp(K_EQ, 8, a[i], b[i])); r = vite(eq, 32, CV(0), CV(1)); }
  else for (size_t i = n.c; i-- > 0;) r = vite(vcmp(K_EQ, 8, a[i], b[i]), 32, r, vite(vcmp(K_ULT, 8, a[i], b[i]), 32, CV(0xffffffffu), CV(1)));
  setRet(s->top(), in, r); return ST_NEXT;
}
EXT(memcmp) { return doMemcmp(s, f, in, cx, false); }
EXT(bcmp) { return doMemcmp(s, f, in, cx, true); }
EXT(memcpy) { V d = ARG(0); if (!memCopy(s, d, ARG(1), ARG(2))) return ST_DONE; setRet(s->top(), in, d); return ST_NEXT; }
EXT(memset) { V d = ARG(0); if (!memSet(s, d, vext(ARG(1), 0, 8, 32), ARG(2))) return ST_DONE; setRet(s->top(), in, d); return ST_NEXT; }
EXT(strlen) {
  V p = substC(s, ARG(0)); Obj* o = lookup(s, p.c); if (const char* w = checkAcc(o, p.c, 1, false)) { report(s, "memory", std::string("strlen: ") + w, *s->model); die(s); return ST_DONE; }
  uint64_t off = p.c - o->base; std::vector<V> z; bool sure = false;
  for (uint64_t i = off; i < o->size; i++) { V b = readScalar(s, o, i, 8); V e = vcmp(K_EQ, 8, b, CV(0)); z.push_back(e); if (!e.e && e.c) { sure = true; break; } }
  if (!sure) { Expr* none = mkConst(1, 1); for (auto& e : z) none = mkBin(K_AND, none, mkNot(X(e, 1))); Model m; Res q = isTrue(none) ? R_SAT : feasible(s, none, &m); if (isTrue(none)) m = *s->model; if (q == R_SAT) { report(s, "memory", "strlen: out-of-bounds read", m); if (isTrue(none) || mval(s, none)) { die(s); return ST_DONE; } } else if (q == R_UNKNOWN) incomplete("solver-unknown at strlen"); addPC(s, mkNot(none)); }
  V r = CV(z.size() - 1); for (size_t i = z.size(); i-- > 0;) r = vite(z[i], 64, CV(i), r);
  setRet(s->top(), in, r); return ST_NEXT;
}
EXT(strncpy) {
  V d = ARG(0), n = substC(s, ARG(2)), p = substC(s, ARG(1)); V done = CV(0); V dd = substC(s, d);
  for (uint64_t i = 0; i < n.c; i++) {
    V b = CV(0);
    if (!(done.e == nullptr && done.c)) { std::vector<V> t; if (!readBytes(s, CV(p.c + i), 1, t)) return ST_DONE; b = vite(done, 8, CV(0), t[0]); done = vbin(K_OR, 1, done, vcmp(K_EQ, 8, t[0], CV(0))); }
    MemRef r; if (resolve(s, CV(dd.c + i), 1, true, r) != RR_OK) { die(s); return ST_DONE; } writeScalar(writable(s, r.o), r.off, 8, b);
  }
  setRet(s->top(), in, d); return ST_NEXT;
}
EXT(abort) { report(s, "abort", "abort() called", *s->model); die(s); return ST_DONE; }
EXT(zero) { setRet(f, in, CV(0)); return ST_NEXT; }
EXT(one) { setRet(f, in, CV(1)); return ST_NEXT; }
EXT(fail) { setRet(f, in, CV(~0ull & maskw(in.w ? in.w : 64))); return ST_NEXT; }
EXT(errno_location) { static const char* nm = "errno"; Thread& t = s->th[s->cur]; if (!t.tls) { Obj* o = newObj(s, 8, OK_HEAP, nm, false); Thread& t2 = s->th[s->cur]; t2.tls = o->base; } setRet(s->top(), in, CV(s->th[s->cur].tls)); return ST_NEXT; }
EXT(sysconf) { V a = substC(s, ARG(0)); setRet(s->top(), in, CV(a.c == 30 ? 4096 : a.c == 84 || a.c == 83 ? 4 : 1024)); return ST_NEXT; }
EXT(gettimeofday) { V p = substC(s, ARG(0)); s->clock++; MemRef r; if (resolve(s, p, 16, true, r) != RR_OK) { die(s); return ST_DONE; } Obj* o = writable(s, r.o); writeScalar(o, r.off, 64, CV(1000 + s->clock)); writeScalar(o, r.off + 8, 64, CV(0)); setRet(s->top(), in, CV(0)); return ST_NEXT; }
static double d1(V v) { double d; memcpy(&d, &v.c, 8); return d; }
static V dV(double d) { uint64_t v; memcpy(&v, &d, 8); return CV(v); }
static Step mathFn(State* s, Frame* f, Inst& in, CallX& cx, const char* nm, double (*f1)(double), double (*f2)(double, double)) {
  V a = ARG(0), b = f2 ? ARG(1) : CV(0);
  if (!a.e && !b.e) { setRet(f, in, dV(f1 ? f1(d1(a)) : f2(d1(a), d1(b)))); return ST_NEXT; }
  // uninterpreted: one fresh symbol per argument term
  std::string n = std::string("uf_") + nm + "_" + std::to_string(X(a, 64)->id) + (f2 ? "_" + std::to_string(X(b, 64)->id) : ""); setRet(f, in, EV(mkSym(n, 64))); incomplete(std::string("abstracted: ") + nm); return ST_NEXT;
}
EXT(acos) { return mathFn(s, f, in, cx, "acos", std::acos, nullptr); }
EXT(atan2) { return mathFn(s, f, in, cx, "atan2", nullptr, std::atan2); }
EXT(cbrt) { return mathFn(s, f, in, cx, "cbrt", std::cbrt, nullptr); }
EXT(tan) { return mathFn(s, f, in, cx, "tan", std::tan, nullptr); }
EXT(sin) { return mathFn(s, f, in, cx, "sin", std::sin, nullptr); }
EXT(cos) { return mathFn(s, f, in, cx, "cos", std::cos, nullptr); }
EXT(vsnprintf) {
  V buf = substC(s, ARG(0)), n = substC(s, ARG(1)), fm = substC(s, ARG(2)), va = substC(s, ARG(3)); std::string fmt = cstr(s, fm, 10000), out;
  Obj* vo = lookup(s, va.c); if (!vo) { unsup(s, "vsnprintf"); die(s); return ST_DONE; }
  uint64_t area = readScalar(s, vo, va.c - vo->base + 8, 64).c;
  auto next = [&]() -> uint64_t { Obj* ao = lookup(s, area); if (!ao || area - ao->base + 8 > ao->size) return 0; V v = readScalar(s, ao, area - ao->base, 64); area += 8; return substC(s, v).c; };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    std::string sp = "%"; i++; while (i < fmt.size() && strchr("-+ #0123456789.*lhzjt", fmt[i])) { if (fmt[i] == '*') sp += std::to_string((int)next()); else sp += fmt[i]; i++; }
    if (i >= fmt.size()) break; char c = fmt[i]; char tmp[512];
    if (c == '%') { out += '%'; continue; }
    if (c == 's') { std::string str = cstr(s, CV(next()), 10000); sp += 's'; snprintf(tmp, 512, sp.c_str(), str.c_str()); out += str.size() > 500 ? str : std::string(tmp); continue; }
    uint64_t v = next(); sp += c;
    if (strchr("fFgGeEaA", c)) { double d; memcpy(&d, &v, 8); snprintf(tmp, 512, sp.c_str(), d); }
    else if (sp.find('l') != std::string::npos || sp.find('z') != std::string::npos || sp.find('j') != std::string::npos || c == 'p') snprintf(tmp, 512, sp.c_str(), v);
    else snprintf(tmp, 512, sp.c_str(), (int)v);
    out += tmp;
  }
  for (uint64_t i = 0; i < n.c && i <= out.size(); i++) { MemRef r; if (resolve(s, CV(buf.c + i), 1, true, r) != RR_OK) { die(s); return ST_DONE; } writeScalar(writable(s, r.o), r.off, 8, CV((i == out.size() || i + 1 == n.c) ? 0 : (uint8_t)out[i])); if (i + 1 == n.c) break; }
  setRet(s->top(), in, CV((uint32_t)out.size())); return ST_NEXT;
}
// ---- threads ------------------------------------------------------------------------------------------------------
EXT(pthread_create) {
  if (!visible(s)) return ST_JUMPED;
  V t = substC(s, ARG(0)), fn = substC(s, ARG(2)); V arg = ARG(3);
  auto it = gFnByAddr.find(fn.c); if (it == gFnByAddr.end() || it->second->isDeclaration()) { unsup(s, "pthread_create target"); die(s); return ST_DONE; }
  if (s->mallocFailLeft < 0) { }
  s->multi = true; int me = s->cur; if (s->th[me].vc.empty()) s->th[me].vc.assign(me + 1, 1);
  if (s->th[me].vc.size() <= (size_t)me) s->th[me].vc.resize(me + 1, 1);
  int id = (int)s->th.size(); s->th.emplace_back(); Thread& n = s->th.back(); n.vc = s->th[me].vc; n.vc.resize(id + 1, 0); n.vc[id] = 1; s->th[me].vc[me]++;
  FnInfo* fi = getFn(it->second); s->cur = id; Frame* nf = pushFrame(s, fi); nf->retDst = -2; if (!fi->argSlot.empty()) nf->s[fi->argSlot[0]] = arg; s->cur = me;
  MemRef r; if (resolve(s, t, 8, true, r) != RR_OK) { die(s); return ST_DONE; } writeScalar(writable(s, r.o), r.off, 64, CV(0x7000 + id));
  setRet(s->top(), in, CV(0)); return ST_NEXT;
}
EXT(pthread_join) {
  if (!visible(s)) return ST_JUMPED;
  V t = substC(s, ARG(0)); size_t id = t.c - 0x7000; if (id >= s->th.size()) { setRet(f, in, CV(3)); return ST_NEXT; }
  if (s->th[id].st == T_DONE) { vcJoin(s->th[s->cur].vc, s->th[id].vc); setRet(s->top(), in, CV(0)); return ST_NEXT; }
  Thread& me = s->th[s->cur]; me.st = T_BLOCK_JOIN; me.waitOn = id; me.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
}
static void wakeMutex(State* s, uint64_t a) { for (auto& t : s->th) if (t.st == T_BLOCK_MUTEX && t.waitOn == a) { t.st = T_RUN; t.parked = true; } }
static bool tryLock(State* s, uint64_t a) { if (s->mtx.count(a) && s->mtx[a]) return false; s->mtx[a] = s->cur + 1; vcAcquire(s, a); return true; }
static Step lockOrBlock(State* s, Inst& in, uint64_t a) {
  if (tryLock(s, a)) { s->th[s->cur].phase = 0; setRet(s->top(), in, CV(0)); return ST_NEXT; }
  if (s->mtx[a] == s->cur + 1) { report(s, "deadlock", "mutex locked twice by the same thread", *s->model); die(s); return ST_DONE; }
  Thread& me = s->th[s->cur]; me.st = T_BLOCK_MUTEX; me.waitOn = a; me.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
}
EXT(mutex_lock) { if (!visible(s)) return ST_JUMPED; V a = substC(s, ARG(0)); Obj* o = lookup(s, a.c); if (const char* w = checkAcc(o, a.c, 40, true)) { report(s, "memory", std::string("mutex: ") + w, *s->model); die(s); return ST_DONE; } return lockOrBlock(s, in, a.c); }
EXT(mutex_trylock) { if (!visible(s)) return ST_JUMPED; V a = substC(s, ARG(0)); setRet(s->top(), in, CV(tryLock(s, a.c) ? 0 : 16)); return ST_NEXT; }
EXT(mutex_unlock) {
  V a = substC(s, ARG(0)); 
  if (s->mtx[a.c] != s->cur + 1) { report(s, "lock", "mutex unlocked by a thread that does not hold it", *s->model); die(s); return ST_DONE; }
  s->mtx.erase(a.c); vcRelease(s, a.c); wakeMutex(s, a.c); setRet(s->top(), in, CV(0)); return ST_NEXT;
}
EXT(mutex_destroy) { V a = substC(s, ARG(0)); if (s->mtx.count(a.c)) { report(s, "lock", "mutex destroyed while locked", *s->model); die(s); return ST_DONE; } setRet(s->top(), in, CV(0)); return ST_NEXT; }
EXT(rw_rdlock) {
  if (!visible(s)) return ST_JUMPED; V a = substC(s, ARG(0)); int& v = s->mtx[a.c];
  if (v <= 0) { v--; vcAcquire(s, a.c); setRet(s->top(), in, CV(0)); return ST_NEXT; }
  Thread& me = s->th[s->cur]; me.st = T_BLOCK_MUTEX; me.waitOn = a.c; me.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
}
EXT(rw_wrlock) {
  if (!visible(s)) return ST_JUMPED; V a = substC(s, ARG(0)); int& v = s->mtx[a.c];
  if (v == 0) { v = s->cur + 1; vcAcquire(s, a.c); setRet(s->top(), in, CV(0)); return ST_NEXT; }
  Thread& me = s->th[s->cur]; me.st = T_BLOCK_MUTEX; me.waitOn = a.c; me.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
}
EXT(rw_unlock) {
  V a = substC(s, ARG(0)); int& v = s->mtx[a.c]; if (v == 0) { report(s, "lock", "rwlock unlocked while not held", *s->model); die(s); return ST_DONE; }
  if (v < 0) v++; else v = 0; if (v == 0) s->mtx.erase(a.c); vcRelease(s, a.c); wakeMutex(s, a.c); setRet(s->top(), in, CV(0)); return ST_NEXT;
}
static Step condWait(State* s, Frame* f, Inst& in, CallX& cx, bool timed) {
  V c = substC(s, ARG(0)), m = substC(s, ARG(1)); Thread& me = s->th[s->cur];
  if (me.phase) { // woken: re-acquire
    int ph = me.phase;
    if (!tryLock(s, m.c)) { me.st = T_BLOCK_MUTEX; me.waitOn = m.c; me.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED; }
    s->th[s->cur].phase = 0; s->th[s->cur].parked = false; setRet(s->top(), in, CV(ph == 2 && timed ? 110 : 0)); return ST_NEXT;
  }
  if (!s->multi) { if (timed) { setRet(s->top(), in, CV(110)); return ST_NEXT; } report(s, "deadlock", "condition wait with no other thread", *s->model); die(s); return ST_DONE; }
  if (s->mtx[m.c] != s->cur + 1) { report(s, "lock", "condition wait without holding the mutex", *s->model); die(s); return ST_DONE; }
  s->mtx.erase(m.c); vcRelease(s, m.c); wakeMutex(s, m.c);
  me.st = T_BLOCK_COND; me.waitOn = c.c; me.timed = timed; me.parked = true;
  if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
}
EXT(cond_wait) { return condWait(s, f, in, cx, false); }
EXT(cond_timedwait) { return condWait(s, f, in, cx, true); }
EXT(cond_signal) {
  if (!visible(s)) return ST_JUMPED; V c = substC(s, ARG(0)); std::vector<int> w; for (size_t i = 0; i < s->th.size(); i++) if (s->th[i].st == T_BLOCK_COND && s->th[i].waitOn == c.c) w.push_back((int)i);
  auto wake = [&](State* x, int i) { Thread& t = x->th[i]; t.st = T_RUN; t.phase = 1; t.timed = false; t.parked = true; setRet(x->top(), in, CV(0)); };
  if (w.empty()) { setRet(f, in, CV(0)); return ST_NEXT; }
  if (w.size() > 1 && gReplay) { Expr* v = inputSym(s, "wake", 8); if (std::find(w.begin(), w.end(), (int)v->val) != w.end()) w[0] = (int)v->val; } else if (w.size() > 1) { Expr* v = inputSym(s, "wake", 8); for (size_t i = 1; i < w.size(); i++) { State* o = s->clone(); o->id = ++gStateId; o->pc.push_back(mkCmp(K_EQ, v, mkConst(w[i], 8))); Model m = *o->model; m.set((uint32_t)v->val, w[i]); o->model = std::make_shared<Model>(m); wake(o, w[i]); o->top()->pc++; WL->push_back(o); gForks++; } s->pc.push_back(mkCmp(K_EQ, v, mkConst(w[0], 8))); Model m = *s->model; m.set((uint32_t)v->val, w[0]); s->model = std::make_shared<Model>(m); }
  wake(s, w[0]); return ST_NEXT;
}
EXT(cond_broadcast) { if (!visible(s)) return ST_JUMPED; V c = substC(s, ARG(0)); for (auto& t : s->th) if (t.st == T_BLOCK_COND && t.waitOn == c.c) { t.st = T_RUN; t.phase = 1; t.timed = false; t.parked = true; } setRet(s->top(), in, CV(0)); return ST_NEXT; }
static void setErrno(State* s, int v) { Thread& t = s->th[s->cur]; if (!t.tls) { Obj* o = newObj(s, 8, OK_HEAP, "errno", false); s->th[s->cur].tls = o->base; } writeScalar(s->tab.wget(s->th[s->cur].tls >> 32), 0, 32, CV((uint32_t)v)); }
EXT(syscall) {
  V nr = substC(s, ARG(0)); if (nr.c != 202) { unsup(s, "syscall"); die(s); return ST_DONE; }
  if (!visible(s)) return ST_JUMPED;
  f = s->top(); V a = substC(s, ARG(1)), opn = substC(s, ARG(2)); uint64_t o = opn.c & 0x7f;
  if (o == 1) { V n = substC(s, ARG(3)); uint64_t k = 0; for (auto& t : s->th) if (k < n.c && t.st == T_BLOCK_FUTEX && t.waitOn == a.c) { t.st = T_RUN; t.phase = 1; t.parked = true; t.timed = false; k++; } setRet(s->top(), in, CV(k)); return ST_NEXT; }
  if (o == 0) {
    Thread& me = s->th[s->cur]; if (me.phase) { int ph = me.phase; me.phase = 0; me.parked = false; if (ph == 2) { setErrno(s, 110); setRet(s->top(), in, CV(~0ull)); } else setRet(s->top(), in, CV(0)); return ST_NEXT; }
    V exp = substC(s, ARG(3)), to = cx.args.size() > 4 ? substC(s, ARG(4)) : CV(0); MemRef r; if (resolve(s, a, 4, false, r) != RR_OK) { die(s); return ST_DONE; } Obj* ob = r.o; V cur = substC(s, readScalar(s, ob, r.off, 32));
    if (cur.c != (exp.c & 0xffffffff)) { setErrno(s, 11); setRet(s->top(), in, CV(~0ull)); return ST_NEXT; }
    if (!s->multi) { if (to.c) { setErrno(s, 110); setRet(s->top(), in, CV(~0ull)); return ST_NEXT; } report(s, "deadlock", "futex wait with no other thread", *s->model); die(s); return ST_DONE; }
    Thread& m2 = s->th[s->cur]; m2.st = T_BLOCK_FUTEX; m2.waitOn = a.c; m2.timed = to.c != 0; m2.parked = true; if (!blockSwitch(s)) return ST_DONE; return ST_JUMPED;
  }
  unsup(s, "futex op"); die(s); return ST_DONE;
}
// ---- bsym API -----------------------------------------------------------------------------------------------------
static Step symN(State* s, Frame* f, Inst& in, CallX& cx, unsigned w) { V r = EV(inputSym(s, cstr(s, ARG(0)), w)); setRet(f, in, r); return ST_NEXT; }
EXT(bsym_u8) { return symN(s, f, in, cx, 8); }
EXT(bsym_u16) { return symN(s, f, in, cx, 16); }
EXT(bsym_u32) { return symN(s, f, in, cx, 32); }
EXT(bsym_u64) { return symN(s, f, in, cx, 64); }
EXT(bsym_make_symbolic) {
  V p = substC(s, ARG(0)), n = substC(s, ARG(1)); std::string nm = cstr(s, ARG(2)); MemRef r; if (n.c && resolve(s, p, n.c, true, r) != RR_OK) { die(s); return ST_DONE; }
  if (n.c) { Obj* o = writable(s, r.o); for (uint64_t i = 0; i < n.c; i++) writeByte(o, r.off + i, inputSym(s, nm, 8)); } return ST_NEXT;
}
EXT(bsym_range) {
  V lo = substC(s, ARG(1)), hi = substC(s, ARG(2)); std::string nm = cstr(s, ARG(0)); uint64_t d = hi.c - lo.c;
  if (!d) { setRet(s->top(), in, lo); return ST_NEXT; }
  unsigned w = 64 - __builtin_clzll(d); Expr* x = inputSym(s, nm, w); if (d != maskw(w)) { Expr* c = mkCmp(K_ULE, x, mkConst(d, w)); s->pc.push_back(c); if (!mval(s, c)) { Model m = *s->model; m.set((uint32_t)x->val, 0); s->model = std::make_shared<Model>(m); } }
  setRet(s->top(), in, vbin(K_ADD, 64, EV(mkZExt(x, 64)), lo)); return ST_NEXT;
}
EXT(bsym_assume) {
  V c = vext(ARG(0), 0, 1, 32); if (!c.e) { if (!c.c) { gKilled++; delete s; return ST_DONE; } return ST_NEXT; }
  if (mval(s, c.e)) { addPC(s, c.e); return ST_NEXT; }
  Model m; Res q = feasible(s, c.e, &m); if (q == R_SAT) { s->model = std::make_shared<Model>(std::move(m)); addPC(s, c.e); return ST_NEXT; }
  if (q == R_UNKNOWN) incomplete("solver-unknown at assume"); gKilled++; delete s; return ST_DONE;
}
static bool checkAssert(State* s, V c, const std::string& msg, const char* kind) { // false: state died
  gAsserts++; gAssertMsgs[msg]++;
  if (!c.e) { if (!c.c) { report(s, kind, msg, *s->model); die(s); return false; } return true; }
  if (!mval(s, c.e)) { report(s, kind, msg, *s->model); Model m; gAssertQ++; if (!gStop && feasible(s, c.e, &m) == R_SAT) { s->model = std::make_shared<Model>(std::move(m)); addPC(s, c.e); return true; } die(s); return false; }
  { static int dq = getenv("BSYM_DUMPQ") ? atoi(getenv("BSYM_DUMPQ")) : 0; if (dq-- > 0) fprintf(stderr, "QUERY %s: %s\n", msg.c_str(), exprStr(c.e, 40).c_str()); }
  Model m; gAssertQ++; Res q = feasible(s, mkNot(c.e), &m);
  if (q == R_SAT) report(s, kind, msg, m); else if (q == R_UNKNOWN) incomplete("solver-unknown at assert: " + msg);
  addPC(s, c.e); return true;
}
EXT(bsym_assert) { V c = vext(ARG(0), 0, 1, 32); std::string msg = cstr(s, ARG(1)); if (!checkAssert(s, c, msg, "assert")) return ST_DONE; return ST_NEXT; }
EXT(bsym_reach) { s->reached.insert(cstr(s, ARG(0))); return ST_NEXT; }
EXT(bsym_fail_malloc) { V n = substC(s, ARG(0)); s->mallocFailLeft = (int)n.c; return ST_NEXT; }
EXT(bsym_enumerate) { V n = substC(s, ARG(0)); setRet(s->top(), in, n); return ST_NEXT; }
static int gShardK = 0, gShardN = 1, gShardD = 2;
EXT(bsym_pick) { // input in [0,n): explored by forking, no solver involved
  V n = substC(s, ARG(1)); std::string nm = cstr(s, ARG(0)); if (n.c <= 1) { setRet(s->top(), in, CV(0)); return ST_NEXT; }
  unsigned w = 64 - __builtin_clzll(n.c - 1); Expr* x = inputSym(s, nm, w);
  if (isC(x)) { setRet(s->top(), in, CV(x->val)); return ST_NEXT; }
  std::vector<uint64_t> vals; s->pickNo++;
  for (uint64_t i = 0; i < n.c; i++) if (gShardN == 1 || s->pickNo != gShardD || (int)((s->pickHash * 131 + i) % gShardN) == gShardK) vals.push_back(i);
  if (vals.empty()) { delete s; return ST_DONE; }
  s->pickHash = s->pickHash * 131;
  for (size_t i = vals.size(); i-- > 0;) { State* o = i ? s->clone() : s; if (i) { o->id = ++gStateId; gForks++; } o->pc.push_back(mkCmp(K_EQ, x, mkConst(vals[i], w))); o->pickHash += vals[i];
    Model m = *o->model; m.set((uint32_t)x->val, vals[i]); o->model = std::make_shared<Model>(std::move(m)); setRet(o->top(), in, CV(vals[i])); if (i) { o->top()->pc++; WL->push_back(o); } }
  return ST_NEXT;
}
EXT(bsym_set_merge) { V n = substC(s, ARG(0)); s->mergeMode = (int)n.c; return ST_NEXT; }
EXT(bsym_mem_live) { setRet(f, in, CV((uint64_t)s->heapLive)); return ST_NEXT; }
EXT(bsym_trace) { if (gVerbose) { V v = ARG(1); fprintf(stderr, "trace[%llu] %s = %s\n", (unsigned long long)s->id, cstr(s, ARG(0)).c_str(), v.e ? exprStr(v.e, 5).c_str() : std::to_string(v.c).c_str()); } return ST_NEXT; }
EXT(bsym_preempt) { V n = substC(s, ARG(0)); s->preempts = gPreempt - (int)n.c; return ST_NEXT; }
EXT(read) { unsup(s, "file I/O without a stub"); die(s); return ST_DONE; }
static void initExt() {
  auto A = [&](const char* n, ExtFn fn) { gExtIdx[n] = (int)gExt.size(); gExt.push_back({n, fn}); };
  A("malloc", ext_malloc); A("calloc", ext_calloc); A("free", ext_free); A("realloc", ext_realloc); A("mmap", ext_mmap); A("munmap", ext_munmap);
  A("_Znwm", ext_malloc); A("_Znam", ext_malloc); A("_ZdlPv", ext_free); A("_ZdaPv", ext_free); A("_ZdlPvm", ext_free);
  A("memcmp", ext_memcmp); A("bcmp", ext_bcmp); A("strlen", ext_strlen); A("strncpy", ext_strncpy); A("memcpy", ext_memcpy); A("memmove", ext_memcpy); A("memset", ext_memset);
  A("abort", ext_abort); A("fputs", ext_zero); A("__cxa_atexit", ext_zero); A("atexit", ext_zero); A("__errno_location", ext_errno_location); A("__sysconf", ext_sysconf); A("sysconf", ext_sysconf); A("gettimeofday", ext_gettimeofday);
  A("acos", ext_acos); A("atan2", ext_atan2); A("cbrt", ext_cbrt); A("tan", ext_tan); A("sin", ext_sin); A("cos", ext_cos); A("vsnprintf", ext_vsnprintf);
  A("pthread_create", ext_pthread_create); A("pthread_join", ext_pthread_join); A("pthread_mutex_lock", ext_mutex_lock); A("pthread_mutex_trylock", ext_mutex_trylock); A("pthread_mutex_unlock", ext_mutex_unlock); A("pthread_mutex_init", ext_zero); A("pthread_mutex_destroy", ext_mutex_destroy);
  A("pthread_cond_wait", ext_cond_wait); A("pthread_cond_timedwait", ext_cond_timedwait); A("pthread_cond_signal", ext_cond_signal); A("pthread_cond_broadcast", ext_cond_broadcast); A("pthread_cond_destroy", ext_zero); A("pthread_cond_init", ext_zero);
  A("pthread_rwlock_rdlock", ext_rw_rdlock); A("pthread_rwlock_wrlock", ext_rw_wrlock); A("pthread_rwlock_unlock", ext_rw_unlock); A("pthread_rwlock_destroy", ext_zero); A("pthread_rwlock_init", ext_zero);
  for (const char* n : {"pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setdetachstate", "pthread_attr_setstacksize", "pthread_attr_getstacksize"}) A(n, ext_zero);
  A("syscall", ext_syscall);
  for (const char* n : {"open64", "open", "read", "write", "lseek64", "fstat64", "stat64", "ftruncate64", "close", "lseek", "fstat", "stat", "ftruncate"}) A(n, ext_read);
  A("bsym_u8", ext_bsym_u8); A("bsym_u16", ext_bsym_u16); A("bsym_u32", ext_bsym_u32); A("bsym_u64", ext_bsym_u64); A("bsym_make_symbolic", ext_bsym_make_symbolic); A("bsym_range", ext_bsym_range); A("bsym_assume", ext_bsym_assume); A("bsym_assert", ext_bsym_assert); A("bsym_reach", ext_bsym_reach);
  A("bsym_fail_malloc", ext_bsym_fail_malloc); A("bsym_enumerate", ext_bsym_enumerate); A("bsym_pick", ext_bsym_pick); A("bsym_set_merge", ext_bsym_set_merge); A("bsym_mem_live", ext_bsym_mem_live); A("bsym_is_symbolic", ext_one); A("bsym_trace", ext_bsym_trace); A("bsym_preempt", ext_bsym_preempt);
}
static Step callExt(State* s, Frame* f, Inst& in, CallX& cx) {
  if (!cx.resolved) { cx.resolved = true; if (Function* st = M->getFunction("bsym_stub_" + cx.name)) if (!st->isDeclaration()) cx.fi = getFn(st); }
  if (cx.fi) { doCall(s, in, cx, cx.fi); return ST_JUMPED; }
  if (cx.ext < 0) { unsup(s, "external function " + cx.name); die(s); return ST_DONE; }
  return gExt[cx.ext].second(s, f, in, cx);
}
// ---- intrinsics ---------------------------------------------------------------------------------------------------
static V fpclassTest(V a, unsigned w, unsigned mask) {
  unsigned mb = w == 64 ? 52 : 23; uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, am = w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull;
  V ab = vbin(K_AND, w, a, CV(am)), neg = vext(a, w - 1, 1, w), pos = vnot1(neg), r = CV(0);
  V nan = vcmp(K_ULT, w, CV(inf), ab), isinf = vcmp(K_EQ, w, ab, CV(inf)), zero = vcmp(K_EQ, w, ab, CV(0)); V quiet = vext(a, mb - 1, 1, w);
  V sub = vbin(K_AND, 1, vnot1(zero), vcmp(K_ULT, w, ab, CV(1ull << mb))), norm = vbin(K_AND, 1, vcmp(K_ULE, w, CV(1ull << mb), ab), vcmp(K_ULT, w, ab, CV(inf)));
  auto add = [&](V c) { r = vbin(K_OR, 1, r, c); }; auto both = [&](V a1, V b1) { return vbin(K_AND, 1, a1, b1); };
  if (mask & 1) add(both(nan, vnot1(quiet))); if (mask & 2) add(both(nan, quiet)); if (mask & 4) add(both(isinf, neg)); if (mask & 8) add(both(norm, neg)); if (mask & 16) add(both(sub, neg)); if (mask & 32) add(both(zero, neg)); if (mask & 64) add(both(zero, pos)); if (mask & 128) add(both(sub, pos)); if (mask & 256) add(both(norm, pos)); if (mask & 512) add(both(isinf, pos));
  return r;
}
static Step callIntrinsic(State* s, Frame* f, Inst& in, CallX& cx) {
  unsigned w = in.w; int n = in.n; unsigned id = cx.F->getIntrinsicID(); const std::string& nm = cx.name;
  auto lanes1 = [&](auto fn) { V* a = op(f, cx.args[0].first); std::vector<V> t(n); for (int i = 0; i < n; i++) t[i] = fn(a[i]); for (int i = 0; i < n; i++) f->s[in.dst + i] = t[i]; return ST_NEXT; };
  auto lanes2 = [&](auto fn) { V* a = op(f, cx.args[0].first); V* b = op(f, cx.args[1].first); std::vector<V> t(n); for (int i = 0; i < n; i++) t[i] = fn(a[i], b[i]); for (int i = 0; i < n; i++) f->s[in.dst + i] = t[i]; return ST_NEXT; };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: if (!memCopy(s, ARG(0), ARG(1), ARG(2))) return ST_DONE; return ST_NEXT;
    case Intrinsic::memset: case Intrinsic::memset_inline: if (!memSet(s, ARG(0), ARG(1), ARG(2))) return ST_DONE; return ST_NEXT;
    case Intrinsic::smax: return lanes2([&](V a, V b) { return vmin(a, b, w, true, true); });
    case Intrinsic::smin: return lanes2([&](V a, V b) { return vmin(a, b, w, true, false); });
    case Intrinsic::umax: return lanes2([&](V a, V b) { return vmin(a, b, w, false, true); });
    case Intrinsic::umin: return lanes2([&](V a, V b) { return vmin(a, b, w, false, false); });
    case Intrinsic::abs: return lanes1([&](V a) { return vite(vcmp(K_SLT, w, a, CV(0)), w, vbin(K_SUB, w, CV(0), a), a); });
    case Intrinsic::bswap: return lanes1([&](V a) { return vbswap(a, w); });
    case Intrinsic::bitreverse: return lanes1([&](V a) { return vbitrev(a, w); });
    case Intrinsic::ctpop: return lanes1([&](V a) { return vctpop(a, w); });
    case Intrinsic::cttz: return lanes1([&](V a) { return vcttz(a, w); });
    case Intrinsic::ctlz: return lanes1([&](V a) { return vctlz(a, w); });
    case Intrinsic::fshl: case Intrinsic::fshr: {
      V* a = op(f, cx.args[0].first); V* b = op(f, cx.args[1].first); V* c = op(f, cx.args[2].first); std::vector<V> t(n);
      for (int i = 0; i < n; i++) { V sh = vbin(K_AND, w, c[i], CV(w - 1)); V inv = vbin(K_SUB, w, CV(w), sh); V r = id == Intrinsic::fshl ? vbin(K_OR, w, vbin(K_SHL, w, a[i], sh), vbin(K_LSHR, w, b[i], inv)) : vbin(K_OR, w, vbin(K_SHL, w, a[i], inv), vbin(K_LSHR, w, b[i], sh)); t[i] = r; }
      for (int i = 0; i < n; i++) f->s[in.dst + i] = t[i]; return ST_NEXT;
    }
    case Intrinsic::usub_sat: return lanes2([&](V a, V b) { return vite(vcmp(K_ULT, w, a, b), w, CV(0), vbin(K_SUB, w, a, b)); });
    case Intrinsic::uadd_sat: return lanes2([&](V a, V b) { V r = vbin(K_ADD, w, a, b); return vite(vcmp(K_ULT, w, r, a), w, CV(maskw(w)), r); });
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return lanes2([&](V a, V b) { unsigned w2 = w + 2; V r = vbin(id == Intrinsic::sadd_sat ? K_ADD : K_SUB, w2, vsext(a, w, w2), vsext(b, w, w2)); return vsat(r, w2, w, true); });
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned aw = lw(cx.F->getFunctionType()->getParamType(0)); V a = ARG(0), b = ARG(1), r, o;
      switch (id) {
        case Intrinsic::uadd_with_overflow: r = vbin(K_ADD, aw, a, b); o = vcmp(K_ULT, aw, r, a); break;
        case Intrinsic::usub_with_overflow: r = vbin(K_SUB, aw, a, b); o = vcmp(K_ULT, aw, a, b); break;
        case Intrinsic::sadd_with_overflow: r = vbin(K_ADD, aw, a, b); o = vext(vbin(K_AND, aw, vbin(K_XOR, aw, a, r), vbin(K_XOR, aw, b, r)), aw - 1, 1, aw); break;
        case Intrinsic::ssub_with_overflow: r = vbin(K_SUB, aw, a, b); o = vext(vbin(K_AND, aw, vbin(K_XOR, aw, a, b), vbin(K_XOR, aw, a, r)), aw - 1, 1, aw); break;
        case Intrinsic::umul_with_overflow: r = vbin(K_MUL, aw, a, b);
          if (aw <= 32) { V l = vbin(K_MUL, 64, vzext(a, aw, 64), vzext(b, aw, 64)); o = vcmp(K_ULT, 64, CV(maskw(aw)), l); }
          else if (!a.e && !b.e) { uint64_t x; o = CV(__builtin_mul_overflow(a.c, b.c, &x)); }
          else if (!b.e || !a.e) { uint64_t k = b.e ? a.c : b.c; V v = b.e ? b : a; o = k == 0 ? CV(0) : vcmp(K_ULT, 64, CV(~0ull / k), v); }
          else { V q = vbin(K_UDIV, 64, CV(~0ull), vite(vcmp(K_EQ, 64, b, CV(0)), 64, CV(1), b)); o = vbin(K_AND, 1, vnot1(vcmp(K_EQ, 64, b, CV(0))), vcmp(K_ULT, 64, q, a)); }
          break;
        default: if (aw > 32) { if (!a.e && !b.e) { int64_t x; o = CV(__builtin_mul_overflow((int64_t)a.c, (int64_t)b.c, &x)); r = vbin(K_MUL, aw, a, b); break; } unsup(s, "smul.with.overflow.i64"); die(s); return ST_DONE; }
          { V l = vbin(K_MUL, 64, vsext(a, aw, 64), vsext(b, aw, 64)); r = vext(l, 0, aw, 64); o = vnot1(vcmp(K_EQ, 64, vsext(r, aw, 64), l)); } break;
      }
      f->s[in.dst] = r; f->s[in.dst + 1] = o; return ST_NEXT;
    }
    case Intrinsic::sqrt: return lanes1([&](V a) { return vf(K_FSQRT, w, w, a); });
    case Intrinsic::fabs: return lanes1([&](V a) { return vbin(K_AND, w, a, CV(maskw(w) >> 1)); });
    case Intrinsic::copysign: return lanes2([&](V a, V b) { return vbin(K_OR, w, vbin(K_AND, w, a, CV(maskw(w) >> 1)), vbin(K_AND, w, b, CV(1ull << (w - 1)))); });
    case Intrinsic::floor: return lanes1([&](V a) { return vf(K_FRINT, w, w, a, CV(0), false, 1); });
    case Intrinsic::ceil: return lanes1([&](V a) { return vf(K_FRINT, w, w, a, CV(0), false, 2); });
    case Intrinsic::trunc: return lanes1([&](V a) { return vf(K_FRINT, w, w, a, CV(0), false, 3); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return lanes1([&](V a) { return vf(K_FRINT, w, w, a, CV(0), false, 0); });
    case Intrinsic::round: return lanes1([&](V a) { return vf(K_FRINT, w, w, a, CV(0), false, 4); });
    case Intrinsic::fmuladd: { V a = ARG(0), b = ARG(1), c = ARG(2); setRet(f, in, vf(K_FADD, w, w, vf(K_FMUL, w, w, a, b, true), c, true)); return ST_NEXT; }
    case Intrinsic::maxnum: return lanes2([&](V a, V b) { return vite(fIsNan(a, w), w, b, vite(vf(K_FLT, 1, w, a, b, true), w, b, a)); });
    case Intrinsic::minnum: return lanes2([&](V a, V b) { return vite(fIsNan(a, w), w, b, vite(vf(K_FLT, 1, w, b, a, true), w, b, a)); });
    case Intrinsic::is_fpclass: { V m = ARG(1); setRet(f, in, fpclassTest(ARG(0), lw(cx.F->getFunctionType()->getParamType(0)), (unsigned)m.c)); return ST_NEXT; }
    case Intrinsic::sin: return mathFn(s, f, in, cx, "sin", std::sin, nullptr);
    case Intrinsic::cos: return mathFn(s, f, in, cx, "cos", std::cos, nullptr);
    case Intrinsic::pow: return mathFn(s, f, in, cx, "pow", nullptr, std::pow);
    case Intrinsic::exp: return mathFn(s, f, in, cx, "exp", std::exp, nullptr);
    case Intrinsic::log: return mathFn(s, f, in, cx, "log", std::log, nullptr);
    case Intrinsic::expect: setRet(f, in, ARG(0)); return ST_NEXT;
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap", *s->model); die(s); return ST_DONE;
    case Intrinsic::objectsize: setRet(f, in, CV(maskw(w))); return ST_NEXT;
    case Intrinsic::is_constant: setRet(f, in, CV(0)); return ST_NEXT;
    case Intrinsic::stacksave: setRet(f, in, CV(0)); return ST_NEXT;
    case Intrinsic::stackrestore: return ST_NEXT;
    case Intrinsic::threadlocal_address: {
      V g = ARG(0); if (s->cur == 0) { setRet(f, in, g); return ST_NEXT; }
      for (auto& p : s->th[s->cur].tlsMap) if (p.first == g.c) { setRet(f, in, CV(p.second)); return ST_NEXT; }
      Obj* src = gInit->tab.get(g.c >> 32); Obj* o = newObj(s, src->size, OK_GLOBAL, "tls", false); copyBytes(s, o, 0, src, 0, src->size); uint64_t b = o->base; s->th[s->cur].tlsMap.push_back({g.c, b}); setRet(s->top(), in, CV(b)); return ST_NEXT;
    }
    case Intrinsic::vastart: {
      V p = substC(s, ARG(0)); f = s->top(); std::vector<V> va = f->varargs; Obj* ar = newObj(s, va.size() * 8 + 8, OK_STACK, "varargs", false); f->allocas.push_back((uint32_t)((ar->base >> 32) - STK0));
      for (size_t i = 0; i < va.size(); i++) writeScalar(ar, i * 8, 64, va[i]);
      MemRef r; if (resolve(s, p, 24, true, r) != RR_OK) { die(s); return ST_DONE; } Obj* o = writable(s, r.o); writeScalar(o, r.off, 32, CV(48)); writeScalar(o, r.off + 4, 32, CV(176)); writeScalar(o, r.off + 8, 64, CV(ar->base)); writeScalar(o, r.off + 16, 64, CV(0)); return ST_NEXT;
    }
    case Intrinsic::vacopy: if (!memCopy(s, ARG(0), ARG(1), CV(24))) return ST_DONE; return ST_NEXT;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { V* a = op(f, cx.args[0].first); V r = a[0]; for (int i = 1; i < cx.args[0].second; i++) r = vbin(id == Intrinsic::vector_reduce_add ? K_ADD : id == Intrinsic::vector_reduce_and ? K_AND : id == Intrinsic::vector_reduce_or ? K_OR : K_XOR, w, r, a[i]); setRet(f, in, r); return ST_NEXT; }
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: { V* a = op(f, cx.args[0].first); V r = a[0]; for (int i = 1; i < cx.args[0].second; i++) r = vmin(r, a[i], w, id == Intrinsic::vector_reduce_smax || id == Intrinsic::vector_reduce_smin, id == Intrinsic::vector_reduce_umax || id == Intrinsic::vector_reduce_smax); setRet(f, in, r); return ST_NEXT; }
    default: break;
  }
  auto is = [&](const char* p) { return nm.compare(0, strlen(p), p) == 0; };
  V* a = cx.args.size() > 0 && cx.args[0].second ? op(f, cx.args[0].first) : nullptr; V* b = cx.args.size() > 1 ? op(f, cx.args[1].first) : nullptr; int na = cx.args.size() ? cx.args[0].second : 0;
  std::vector<V> t(std::max(n, 1));
  auto put = [&] { for (int i = 0; i < n; i++) f->s[in.dst + i] = t[i]; return ST_NEXT; };
  auto pack = [&](unsigned from, bool sgn) { unsigned to = from / 2; int per = 128 / from, groups = na / per; if (!groups) { groups = 1; per = na; } int k = 0; for (int g = 0; g < groups; g++) { for (int i = 0; i < per; i++) t[k++] = vsat(a[g * per + i], from, to, sgn); for (int i = 0; i < per; i++) t[k++] = vsat(b[g * per + i], from, to, sgn); } return put(); };
  if (is("llvm.x86.sse2.packssdw") || is("llvm.x86.avx2.packssdw")) return pack(32, true);
  if (is("llvm.x86.sse2.packsswb") || is("llvm.x86.avx2.packsswb")) return pack(16, true);
  if (is("llvm.x86.sse2.packuswb") || is("llvm.x86.avx2.packuswb")) return pack(16, false);
  if (is("llvm.x86.sse41.packusdw") || is("llvm.x86.avx2.packusdw")) return pack(32, false);
  if (is("llvm.x86.sse2.pmulhu") || is("llvm.x86.avx2.pmulhu")) { for (int i = 0; i < n; i++) t[i] = vext(vbin(K_MUL, 32, vzext(a[i], 16, 32), vzext(b[i], 16, 32)), 16, 16, 32); return put(); }
  if (is("llvm.x86.sse2.pmulh.") || is("llvm.x86.avx2.pmulh.")) { for (int i = 0; i < n; i++) t[i] = vext(vbin(K_MUL, 32, vsext(a[i], 16, 32), vsext(b[i], 16, 32)), 16, 16, 32); return put(); }
  if (is("llvm.x86.sse2.pmadd.wd") || is("llvm.x86.avx2.pmadd.wd")) { for (int i = 0; i < n; i++) t[i] = vbin(K_ADD, 32, vbin(K_MUL, 32, vsext(a[2 * i], 16, 32), vsext(b[2 * i], 16, 32)), vbin(K_MUL, 32, vsext(a[2 * i + 1], 16, 32), vsext(b[2 * i + 1], 16, 32))); return put(); }
  if (is("llvm.x86.ssse3.pmadd.ub.sw") || is("llvm.x86.avx2.pmadd.ub.sw")) { for (int i = 0; i < n; i++) t[i] = vsat(vbin(K_ADD, 32, vbin(K_MUL, 32, vzext(a[2 * i], 8, 32), vsext(b[2 * i], 8, 32)), vbin(K_MUL, 32, vzext(a[2 * i + 1], 8, 32), vsext(b[2 * i + 1], 8, 32))), 32, 16, true); return put(); }
  if (is("llvm.x86.sse2.psad.bw") || is("llvm.x86.avx2.psad.bw")) { for (int i = 0; i < n; i++) { V r = CV(0); for (int k = 0; k < 8; k++) { V x = a[i * 8 + k], y = b[i * 8 + k]; V d = vite(vcmp(K_ULT, 8, x, y), 8, vbin(K_SUB, 8, y, x), vbin(K_SUB, 8, x, y)); r = vbin(K_ADD, 64, r, vzext(d, 8, 64)); } t[i] = r; } return put(); }
  if (is("llvm.x86.ssse3.pshuf.b.128") || is("llvm.x86.avx2.pshuf.b")) {
    for (int i = 0; i < n; i++) { int base = i / 16 * 16; V c = b[i]; if (!c.e) { t[i] = (c.c & 0x80) ? CV(0) : a[base + (c.c & 15)]; continue; } V r = a[base]; for (int k = 1; k < 16; k++) r = vite(vcmp(K_EQ, 4, vext(c, 0, 4, 8), CV(k)), 8, a[base + k], r); t[i] = vite(vext(c, 7, 1, 8), 8, CV(0), r); } return put();
  }
  if (is("llvm.x86.pclmulqdq")) { V im = ARG(2); V x = a[(im.c & 1)], y = b[(im.c >> 4) & 1]; if (x.e && !y.e) std::swap(x, y); V lo = CV(0), hi = CV(0); for (unsigned i = 0; i < 64; i++) { V bit = vext(x, i, 1, 64); if (!bit.e && !bit.c) continue; V l = vbin(K_SHL, 64, y, CV(i)), h = i ? vbin(K_LSHR, 64, y, CV(64 - i)) : CV(0); lo = vbin(K_XOR, 64, lo, vite(bit, 64, l, CV(0))); hi = vbin(K_XOR, 64, hi, vite(bit, 64, h, CV(0))); } t[0] = lo; t[1] = hi; return put(); }
  if (is("llvm.x86.sse2.cvttpd2dq") || is("llvm.x86.avx.cvtt.pd2dq") || is("llvm.x86.sse2.cvttps2dq") || is("llvm.x86.avx.cvtt.ps2dq")) { unsigned wa = nm.find("pd2dq") != std::string::npos ? 64 : 32; for (int i = 0; i < n; i++) t[i] = i < na ? vf(K_F2SI, 32, wa, a[i]) : CV(0); return put(); }
  if (is("llvm.x86.sse2.cvtps2dq") || is("llvm.x86.avx.cvt.ps2dq") || is("llvm.x86.sse2.cvtpd2dq") || is("llvm.x86.avx.cvt.pd2dq")) { unsigned wa = nm.find("pd2dq") != std::string::npos ? 64 : 32; for (int i = 0; i < n; i++) t[i] = i < na ? vf(K_F2SI, 32, wa, vf(K_FRINT, wa, wa, a[i], CV(0), false, 0)) : CV(0); return put(); }
  if (is("llvm.x86.sse.cvtss2si")) { t[0] = vf(K_F2SI, w, 32, vf(K_FRINT, 32, 32, a[0], CV(0), false, 0)); return put(); }
  if (is("llvm.x86.sse2.cvtsd2si")) { t[0] = vf(K_F2SI, w, 64, vf(K_FRINT, 64, 64, a[0], CV(0), false, 0)); return put(); }
  if (is("llvm.x86.sse.cvttss2si")) { t[0] = vf(K_F2SI, w, 32, a[0]); return put(); }
  if (is("llvm.x86.sse2.cvttsd2si")) { t[0] = vf(K_F2SI, w, 64, a[0]); return put(); }
  if (is("llvm.x86.sse2.cmp.sd") || is("llvm.x86.sse.cmp.ss") || is("llvm.x86.sse2.cmp.pd") || is("llvm.x86.sse.cmp.ps")) {
    V im = ARG(2); static const unsigned P[8] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
    bool sc = nm.find(".sd") != std::string::npos || nm.find(".ss") != std::string::npos; for (int i = 0; i < n; i++) t[i] = (sc && i) ? a[i] : vite(vfcmp(P[im.c & 7], w, a[i], b[i]), w, CV(maskw(w)), CV(0)); return put();
  }
  if (is("llvm.x86.avx.max.ps") || is("llvm.x86.sse.max.ps") || is("llvm.x86.sse2.max.pd") || is("llvm.x86.avx.max.pd")) { for (int i = 0; i < n; i++) t[i] = vite(vf(K_FLT, 1, w, b[i], a[i], true), w, a[i], b[i]); return put(); }
  if (is("llvm.x86.avx.min.ps") || is("llvm.x86.sse.min.ps") || is("llvm.x86.sse2.min.pd") || is("llvm.x86.avx.min.pd")) { for (int i = 0; i < n; i++) t[i] = vite(vf(K_FLT, 1, w, a[i], b[i], true), w, a[i], b[i]); return put(); }
  if (is("llvm.x86.sse.max.ss") || is("llvm.x86.sse2.max.sd") || is("llvm.x86.sse.min.ss") || is("llvm.x86.sse2.min.sd")) { bool mx = nm.find("max") != std::string::npos; for (int i = 0; i < n; i++) t[i] = i ? a[i] : vite(mx ? vf(K_FLT, 1, w, b[0], a[0], true) : vf(K_FLT, 1, w, a[0], b[0], true), w, a[0], b[0]); return put(); }
  if (is("llvm.x86.avx2.maskload.d")) {
    V p = substC(s, ARG(0)); f = s->top(); V* m = op(f, cx.args[1].first);
    for (int i = 0; i < n; i++) { V k = vext(m[i], 31, 1, 32); k = substC(s, k); f = s->top(); m = op(f, cx.args[1].first); if (k.c) { std::vector<Leaf> L{{0, 32}}; V o; if (loadLeaves(s, CV(p.c + i * 4), L, &o) != RR_OK) { die(s); return ST_DONE; } t[i] = o; } else t[i] = CV(0); }
    f = s->top(); for (int i = 0; i < n; i++) f->s[in.dst + i] = t[i]; return ST_NEXT;
  }
  if (is("llvm.x86.avx2.maskstore.d")) {
    V p = substC(s, ARG(0)); f = s->top(); int cnt = cx.args[1].second;
    for (int i = 0; i < cnt; i++) { V k = substC(s, vext(op(f, cx.args[1].first)[i], 31, 1, 32)); f = s->top(); if (k.c) { std::vector<Leaf> L{{0, 32}}; V v = op(f, cx.args[2].first)[i]; if (storeLeaves(s, CV(p.c + i * 4), L, &v) != RR_OK) { die(s); return ST_DONE; } } }
    return ST_NEXT;
  }
  if (is("llvm.x86.bmi.bzhi")) { V k = vzext(vext(ARG(1), 0, 8, w), 8, w); t[0] = vite(vcmp(K_ULT, w, k, CV(w)), w, vbin(K_AND, w, ARG(0), vbin(K_SUB, w, vbin(K_SHL, w, CV(1), k), CV(1))), ARG(0)); return put(); }
  if (is("llvm.x86.sse.ldmxcsr")) return ST_NEXT;
  if (is("llvm.x86.sse.stmxcsr")) { std::vector<Leaf> L{{0, 32}}; V v = CV(0x1f80); if (storeLeaves(s, ARG(0), L, &v) != RR_OK) { die(s); return ST_DONE; } return ST_NEXT; }
  if (is("llvm.x86.sse2.pause") || is("llvm.x86.sse2.mfence") || is("llvm.x86.sse.sfence") || is("llvm.x86.sse2.lfence")) return ST_NEXT;
  if (is("llvm.x86.sse2.pmovmskb") || is("llvm.x86.avx2.pmovmskb") || is("llvm.x86.sse.movmsk.ps") || is("llvm.x86.sse2.movmsk.pd") || is("llvm.x86.avx.movmsk.ps")) { unsigned lwid = lw(cx.F->getFunctionType()->getParamType(0)); V r = CV(0); for (int i = 0; i < na; i++) r = vbin(K_OR, 32, r, vbin(K_SHL, 32, vzext(vext(a[i], lwid - 1, 1, lwid), 1, 32), CV(i))); t[0] = r; return put(); }
  unsup(s, "intrinsic " + nm); die(s); return ST_DONE;
}
static Step callAsm(State* s, Frame* f, Inst& in, CallX& cx) {
  if (cx.name.find("rep movsb") != std::string::npos) { V d = ARG(0), p = ARG(1), n = ARG(2); if (!memCopy(s, d, p, n)) return ST_DONE; n = substC(s, n); f = s->top(); if (in.n == 3) { f->s[in.dst] = vbin(K_ADD, 64, d, n); f->s[in.dst + 1] = vbin(K_ADD, 64, p, n); f->s[in.dst + 2] = CV(0); } return ST_NEXT; }
  if (cx.name.find("rep stosb") != std::string::npos) { V n = ARG(0), b = ARG(1), d = ARG(2); if (!memSet(s, d, vext(b, 0, 8, 8), n)) return ST_DONE; n = substC(s, n); f = s->top(); if (in.n == 2) { f->s[in.dst] = CV(0); f->s[in.dst + 1] = vbin(K_ADD, 64, d, n); } return ST_NEXT; }
  if (cx.name.empty() || cx.name.find("pause") != std::string::npos) { for (int i = 0; i < in.n; i++) f->s[in.dst + i] = cx.args.size() ? ARG(0) : CV(0); return ST_NEXT; }
  unsup(s, "inline asm '" + cx.name + "'"); die(s); return ST_DONE;
}
// ---- main loop ----------------------------------------------------------------------------------------------------
static inline bool atBarrier(State* s, const Barrier& bar) {
  if (!bar.depth || s->cur != 0) return false; size_t d = s->frames().size(); if (d < bar.depth) return true; if (d > bar.depth || bar.block < 0) return false; Frame* f = s->frames().back(); return f->block == bar.block && f->pc == f->fi->blockPc[bar.block];
}
static void progress() {
  static double last = 0; double t = now(); if (t - gT0 > gMaxTime) { incomplete("time budget"); gStop = true; }
  if (gInstr > gMaxInstr) { incomplete("instruction budget"); gStop = true; }
  if (t - last > 5) { last = t; uint64_t r = rssBytes(); if (r > gMemLimit) { incomplete("memory budget"); gStop = true; } if (gVerbose) fprintf(stderr, "bsym: %.0fs instr=%llu paths=%llu forks=%llu wl=%zu merges=%llu killed=%llu q=%llu solver=%.1fs heavy=%llu rss=%lluM exprs=%llu\n", t - gT0, (unsigned long long)gInstr, (unsigned long long)gPaths, (unsigned long long)gForks, WL ? WL->size() : 0, (unsigned long long)gMerges, (unsigned long long)gKilled, (unsigned long long)gSS.queries, gSS.time, (unsigned long long)gSS.heavy, (unsigned long long)(r >> 20), (unsigned long long)gNumExprs); }
}
// Fork region: states in `v` have taken their edges. Merge them at the immediate post-dominator when asked to.
static bool forkRegion(State* s, std::vector<State*>& v, int fromBlock, FnInfo* fi, size_t pre) { // true: s continues; false: everything went to WL
  if (v.size() == 1) return true;
  int ip = fi->ipdom[fromBlock];
  if (v[0]->mergeMode && !v[0]->multi && ip >= 0) {
    Barrier nb; nb.depth = v[0]->frames().size(); nb.block = ip; std::vector<State*> out; std::vector<State*>* w = WL;
    explore(v, nb, out); WL = w;
    out = mergeStates(out, pre);
    for (State* o : out) WL->push_back(o);
    return false;
  }
  for (State* o : v) if (o != s) WL->push_back(o);
  return true;
}
static bool run(State* s, const Barrier& bar) {
  for (;;) {
    Frame* f = s->top(); Inst& in = f->fi->code[f->pc];
    if ((++gInstr & 1023) == 0) { progress(); }
    if (gStop) { gKilled++; delete s; return false; }
    if (++s->steps > gMaxSteps) { report(s, "hang", "execution does not terminate within " + std::to_string(gMaxSteps) + " instructions", *s->model); die(s); return false; }
    switch (in.op) {
      case X_BIN: { V* a = op(f, in.a); V* b = op(f, in.b); V* d = &f->s[in.dst]; for (int i = 0; i < in.n; i++) d[i] = vbin((K)in.sub, in.w, a[i], b[i]); f->pc++; break; }
      case X_DIV: {
        bool dead = false;
        for (int i = 0; i < in.n && !dead; i++) {
          V b = op(f, in.b)[i];
          if (!b.e) { if (!b.c) { report(s, "divzero", "division by zero", *s->model); dead = true; } }
          else { Expr* z = mkCmp(K_EQ, b.e, mkConst(0, in.w)); if (!isFalse(z)) { Model m; if (mval(s, z)) { report(s, "divzero", "division by zero", *s->model); dead = true; } else { Res q = feasible(s, z, &m); if (q == R_SAT) report(s, "divzero", "division by zero", m); addPC(s, mkNot(z)); } } }
        }
        if (dead) { die(s); return false; }
        for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vbin((K)in.sub, in.w, op(f, in.a)[i], op(f, in.b)[i]); f->pc++; break;
      }
      case X_ICMP: {
        V* a = op(f, in.a); V* b = op(f, in.b); V* d = &f->s[in.dst]; unsigned w = in.wa;
        for (int i = 0; i < in.n; i++) switch (in.sub) {
          case CmpInst::ICMP_EQ: d[i] = vcmp(K_EQ, w, a[i], b[i]); break; case CmpInst::ICMP_NE: d[i] = vnot1(vcmp(K_EQ, w, a[i], b[i])); break;
          case CmpInst::ICMP_ULT: d[i] = vcmp(K_ULT, w, a[i], b[i]); break; case CmpInst::ICMP_ULE: d[i] = vcmp(K_ULE, w, a[i], b[i]); break; case CmpInst::ICMP_UGT: d[i] = vcmp(K_ULT, w, b[i], a[i]); break; case CmpInst::ICMP_UGE: d[i] = vcmp(K_ULE, w, b[i], a[i]); break;
          case CmpInst::ICMP_SLT: d[i] = vcmp(K_SLT, w, a[i], b[i]); break; case CmpInst::ICMP_SLE: d[i] = vcmp(K_SLE, w, a[i], b[i]); break; case CmpInst::ICMP_SGT: d[i] = vcmp(K_SLT, w, b[i], a[i]); break; default: d[i] = vcmp(K_SLE, w, b[i], a[i]); break;
        }
        f->pc++; break;
      }
      case X_FBIN: { V* a = op(f, in.a); V* b = op(f, in.b); V* d = &f->s[in.dst]; for (int i = 0; i < in.n; i++) d[i] = vf((K)in.sub, in.w, in.w, a[i], b[i], true); f->pc++; break; }
      case X_FCMP: { V* a = op(f, in.a); V* b = op(f, in.b); V* d = &f->s[in.dst]; for (int i = 0; i < in.n; i++) d[i] = vfcmp(in.sub, in.wa, a[i], b[i]); f->pc++; break; }
      case X_FNEG: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vbin(K_XOR, in.w, a[i], CV(1ull << (in.w - 1))); f->pc++; break; }
      case X_SELECT: {
        V* c = op(f, in.a); V* a = op(f, in.b); V* b = op(f, in.c); V* d = &f->s[in.dst];
        for (int i = 0; i < in.n; i++) { V cc = in.flag ? c[i] : c[0]; unsigned w = in.w ? in.w : f->fi->leaves[in.x][i].bits; d[i] = vite(cc, w, a[i], b[i]); } f->pc++; break;
      }
      case X_ZEXT: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vzext(a[i], in.wa, in.w); f->pc++; break; }
      case X_SEXT: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vsext(a[i], in.wa, in.w); f->pc++; break; }
      case X_TRUNC: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vext(a[i], 0, in.w, in.wa); f->pc++; break; }
      case X_COPY: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = a[i]; f->pc++; break; }
      case X_BITCAST: { V* a = op(f, in.a); repack(a, in.x, in.wa, &f->s[in.dst], in.n, in.w); f->pc++; break; }
      case X_F2I: case X_I2F: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vf((K)in.sub, in.w, in.wa, a[i]); f->pc++; break; }
      case X_FPEXT: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vf(K_FEXT, 64, 32, a[i]); f->pc++; break; }
      case X_FPTRUNC: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = vf(K_FTRUNC, 32, 64, a[i]); f->pc++; break; }
      case X_ALLOCA: {
        V n = *op(f, in.a); n = substC(s, n); Obj* o = newObj(s, (uint64_t)in.x * n.c, OK_STACK, "stack", true); f = s->top(); { static std::unordered_map<const Instruction*, const char*> nm; auto it = nm.find(in.I); if (it == nm.end()) it = nm.emplace(in.I, strdup((f->fi->name + ":alloca").c_str())).first; o->name = it->second; }
        f->allocas.push_back((uint32_t)((o->base >> 32) - STK0)); f->s[in.dst] = CV(o->base); f->pc++; break;
      }
      case X_LOAD: {
        if (in.flag && !visible(s)) break;
        V addr = *op(f, in.a); V tmp[128]; std::vector<V> big; V* o = tmp; if (in.n > 128) { big.resize(in.n); o = big.data(); }
        bool sv = s->multi; if (in.flag) { addr = substC(s, addr); s->multi = false; }
        RR q = loadLeaves(s, addr, f->fi->leaves[in.x], o); s->multi = sv; if (q != RR_OK) { die(s); return false; }
        if (in.flag) atLoadHB(s, addr.c, cast<LoadInst>(in.I)->getOrdering());
        f = s->top(); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = o[i]; f->pc++; break;
      }
      case X_STORE: {
        if (in.flag && !visible(s)) break;
        V addr = *op(f, in.a); bool sv = s->multi; if (in.flag) { addr = substC(s, addr); s->multi = false; }
        f = s->top(); std::vector<V> vals(op(f, in.b), op(f, in.b) + in.n); RR q = storeLeaves(s, addr, f->fi->leaves[in.x], vals.data()); s->multi = sv; if (q != RR_OK) { die(s); return false; }
        if (in.flag) atStoreHB(s, addr.c, cast<StoreInst>(in.I)->getOrdering(), false);
        f = s->top(); f->pc++; break;
      }
      case X_GEP: {
        GepX& g = f->fi->geps[in.x]; V r = *op(f, in.a); if (g.off) r = vbin(K_ADD, 64, r, CV((uint64_t)g.off));
        for (auto& ix : g.idx) { V v = *op(f, ix.first); if (ix.second.first < 64) v = vsext(v, ix.second.first, 64); else if (ix.second.first > 64) v = vext(v, 0, 64, 64); if (ix.second.second != 1) v = vbin(K_MUL, 64, v, CV((uint64_t)ix.second.second)); r = vbin(K_ADD, 64, r, v); }
        f->s[in.dst] = r; f->pc++; break;
      }
      case X_BR: takeEdge(s, f, in.b); if (atBarrier(s, bar)) return true; break;
      case X_CONDBR: {
        V c = *op(f, in.a);
        if (!c.e) { takeEdge(s, f, c.c ? in.b : in.c); if (atBarrier(s, bar)) return true; break; }
        size_t pre = s->pc.size(); int blk = f->block; FnInfo* fi = f->fi; State* o; bool side = forkOn(s, c.e, &o);
        f = s->top(); takeEdge(s, f, side ? in.b : in.c);
        if (o) { Frame* g = o->top(); takeEdge(o, g, side ? in.c : in.b); std::vector<State*> v{s, o}; if (!forkRegion(s, v, blk, fi, pre)) return false; }
        if (atBarrier(s, bar)) return true; break;
      }
      case X_SWITCH: {
        V c = *op(f, in.a); auto& sw = f->fi->sw[in.x];
        if (!c.e) { int e = in.b; for (auto& p : sw) if (p.first == c.c) { e = p.second; break; } takeEdge(s, f, e); if (atBarrier(s, bar)) return true; break; }
        std::vector<std::pair<int, Expr*>> alt; Expr* def = mkConst(1, 1);
        for (auto& p : sw) { Expr* q = mkCmp(K_EQ, c.e, mkConst(p.first, in.wa)); def = mkBin(K_AND, def, mkNot(q)); bool fd = false; for (auto& x : alt) if (x.first == p.second) { x.second = mkBin(K_OR, x.second, q); fd = true; break; } if (!fd) alt.push_back({p.second, q}); }
        bool fd = false; for (auto& x : alt) if (x.first == in.b) { x.second = mkBin(K_OR, x.second, def); fd = true; } if (!fd) alt.push_back({in.b, def});
        size_t pre = s->pc.size(); int blk = f->block; FnInfo* fi = f->fi; std::vector<State*> v; int mine = -1; Expr* mineC = nullptr;
        for (auto& x : alt) {
          if (isFalse(x.second)) continue;
          if (mine < 0 && mval(s, x.second)) { mine = x.first; mineC = x.second; continue; }
          Model m; Res q = feasible(s, x.second, &m); if (q == R_UNKNOWN) incomplete("solver-unknown at switch " + locOf(curInst(s))); if (q != R_SAT) continue;
          State* o = s->clone(); o->id = ++gStateId; o->model = std::make_shared<Model>(std::move(m)); o->pc.push_back(x.second); Frame* g = o->top(); takeEdge(o, g, x.first); v.push_back(o); gForks++;
        }
        if (!v.empty()) { s->pc.push_back(mineC); f->fi->forked = true; }
        f = s->top(); takeEdge(s, f, mine); v.insert(v.begin(), s);
        if (!forkRegion(s, v, blk, fi, pre)) return false;
        if (atBarrier(s, bar)) return true; break;
      }
      case X_RET: {
        std::vector<V> r(in.n); if (in.n) { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) r[i] = a[i]; }
        int dst = f->retDst; 
        if (dst == -2 && s->cur != 0) {
          popFrame(s); int me = s->cur; s->th[me].st = T_DONE; for (auto& t : s->th) if (t.st == T_BLOCK_JOIN && t.waitOn == (uint64_t)me) t.st = T_RUN;
          int nx = pickForced(s); if (nx < 0) { report(s, "deadlock", "deadlock: every thread is blocked", *s->model); die(s); return false; } s->cur = nx; break;
        }
        popFrame(s);
        if (dst == -2) return true;
        f = s->top(); for (int i = 0; i < in.n && dst >= 0; i++) f->s[dst + i] = r[i]; f->pc++;
        if (atBarrier(s, bar)) return true; break;
      }
      case X_CALL: {
        CallX& cx = f->fi->calls[in.x]; Step st;
        if (cx.isAsm) st = callAsm(s, f, in, cx);
        else if (cx.F && cx.F->isIntrinsic()) st = callIntrinsic(s, f, in, cx);
        else if (cx.F && cx.F->isDeclaration()) st = callExt(s, f, in, cx);
        else if (cx.F) { if (!cx.fi) cx.fi = getFn(cx.F); if (s->frames().size() > 2000) { report(s, "hang", "unbounded recursion", *s->model); die(s); return false; } doCall(s, in, cx, cx.fi); st = ST_JUMPED; }
        else {
          V fp = substC(s, *op(f, cx.ref)); auto it = gFnByAddr.find(fp.c);
          if (it == gFnByAddr.end()) { report(s, "memory", fp.c < 65536 ? "call through null pointer" : "call through invalid pointer", *s->model); die(s); return false; }
          Function* F = it->second; f = s->top();
          if (F->isDeclaration()) { int e = extId(F->getName().str()); if (e < 0) { unsup(s, "external function " + F->getName().str()); die(s); return false; } st = gExt[e].second(s, f, in, cx); }
          else { doCall(s, in, cx, getFn(F)); st = ST_JUMPED; }
        }
        if (st == ST_DONE) return false;
        if (st == ST_NEXT) s->top()->pc++;
        break;
      }
      case X_UNREACHABLE: report(s, "unreachable", "unreachable code executed", *s->model); die(s); return false;
      case X_EXTRACTELT: {
        V ix = *op(f, in.b); V* a = op(f, in.a); if (!ix.e) { f->s[in.dst] = ix.c < (uint64_t)in.x ? a[ix.c] : CV(0); f->pc++; break; }
        V r = a[0]; for (int i = 1; i < in.x; i++) r = vite(vcmp(K_EQ, in.wa, ix, CV(i)), in.w, a[i], r); f->s[in.dst] = r; f->pc++; break;
      }
      case X_INSERTELT: { V ix = *op(f, in.c); V v = *op(f, in.b); V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = !ix.e ? ((uint64_t)i == ix.c ? v : a[i]) : vite(vcmp(K_EQ, in.wa, ix, CV(i)), in.w, v, a[i]); f->pc++; break; }
      case X_SHUFFLE: { auto& m = f->fi->shuf[in.x]; int na = m.back(); V* a = op(f, in.a); V* b = op(f, in.b); V* d = &f->s[in.dst]; for (int i = 0; i < in.n; i++) { int k = m[i]; d[i] = k < 0 ? CV(0) : k < na ? a[k] : b[k - na]; } f->pc++; break; }
      case X_EXTRACTVAL: { V* a = op(f, in.a); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = a[in.x + i]; f->pc++; break; }
      case X_INSERTVAL: { V* a = op(f, in.a); V* b = op(f, in.b); for (int i = 0; i < in.n; i++) f->s[in.dst + i] = (i >= in.x && i < in.x + in.c) ? b[i - in.x] : a[i]; f->pc++; break; }
      case X_ATOMICRMW: {
        if (!visible(s)) break; V addr = substC(s, *op(f, in.a)); f = s->top(); unsigned w = in.w; std::vector<Leaf> L{{0, w}}; V old; bool sv = s->multi; s->multi = false;
        RR q = loadLeaves(s, addr, L, &old); if (q != RR_OK) { die(s); return false; } V b = *op(s->top(), in.b), nv;
        switch (in.sub) { case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = vbin(K_ADD, w, old, b); break; case AtomicRMWInst::Sub: nv = vbin(K_SUB, w, old, b); break; case AtomicRMWInst::And: nv = vbin(K_AND, w, old, b); break; case AtomicRMWInst::Or: nv = vbin(K_OR, w, old, b); break; case AtomicRMWInst::Xor: nv = vbin(K_XOR, w, old, b); break; default: unsup(s, "atomicrmw"); die(s); return false; }
        q = storeLeaves(s, addr, L, &nv); s->multi = sv; if (q != RR_OK) { die(s); return false; }
        AtomicOrdering o = cast<AtomicRMWInst>(in.I)->getOrdering(); atLoadHB(s, addr.c, o); atStoreHB(s, addr.c, o, true);
        f = s->top(); f->s[in.dst] = old; f->pc++; break;
      }
      case X_CMPXCHG: {
        if (!visible(s)) break; V addr = substC(s, *op(f, in.a)); f = s->top(); unsigned w = in.w; std::vector<Leaf> L{{0, w}}; V old; bool sv = s->multi; s->multi = false;
        RR q = loadLeaves(s, addr, L, &old); if (q != RR_OK) { die(s); return false; } f = s->top(); V ex = *op(f, in.b), nv = *op(f, in.c); V eq = substC(s, vcmp(K_EQ, w, old, ex));
        auto* ci = cast<AtomicCmpXchgInst>(in.I);
        if (eq.c) { q = storeLeaves(s, addr, L, &nv); if (q != RR_OK) { die(s); return false; } } s->multi = sv;
        if (eq.c) { atLoadHB(s, addr.c, ci->getSuccessOrdering()); atStoreHB(s, addr.c, ci->getSuccessOrdering(), true); } else atLoadHB(s, addr.c, ci->getFailureOrdering());
        f = s->top(); f->s[in.dst] = old; f->s[in.dst + 1] = eq; f->pc++; break;
      }
      case X_FENCE: { if (s->multi) { Thread& t = s->th[s->cur]; AtomicOrdering o = cast<FenceInst>(in.I)->getOrdering(); if (ordAcq(o)) vcJoin(t.vc, t.pend); if (ordRel(o)) { t.frel = t.vc; t.vc[s->cur]++; } } f->pc++; break; }
      default: { std::string is; raw_string_ostream os(is); in.I->print(os); unsup(s, "instruction " + is); die(s); return false; }
    }
  }
}
