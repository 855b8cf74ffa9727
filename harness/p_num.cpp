// Numbers, bounds and intervals of every number type (num.h, bound.h, itv.h) against exact rational arithmetic.
#include "apx.hpp"
#include "num_shim.h"
#include <fenv.h>
#define NUMS(F) F(MPQ) F(D) F(MPFR) F(MPZ) F(Dl) F(Rll) F(Ill) F(Rl) F(Il)
extern "C" {
#define DCL(N) int shim_op_##N(int, xop*); void shim_round_##N(mpq_t);
NUMS(DCL)
}
struct NT { const char* name; int (*op)(int, xop*); void (*round)(mpq_t); int cls; int prec; bool native; };
#define ENT(N) {#N, shim_op_##N, shim_round_##N, 0, 0, false},
static NT NTS[] = {NUMS(ENT)};
static void init_types() { for (auto& t : NTS) { string n = t.name; t.cls = n == "MPZ" || n == "Il" || n == "Ill" ? 0 : n == "MPQ" || n == "Rl" || n == "Rll" ? 1 : 2; t.prec = t.cls == 2 ? (n == "D" ? 53 : n == "Dl" ? 64 : (int)mpfr_get_default_prec()) : 0; t.native = n == "Il" || n == "Ill" || n == "Rl" || n == "Rll"; } }
static const char* ON[] = {"load", "add", "sub", "neg", "mul", "div", "add_num", "sub_num", "mul_num", "div_num", "add_bound", "sub_bound", "mul_bound", "div_bound", "sqrt", "abs", "mul_2exp", "mod", "ceil", "floor", "trunc", "to_int", "to_float", "to_double", "unceil", "unfloor", "untrunc", "from_int", "from_float", "from_double", "pow", "inv_pow", "meet", "join", "widening", "enlarge_bound", "canonicalize", "predicates", "relations", "magnitude", "range_abs", "print", "ap_interval_set_itv", "ap_coeff_set_itv", "itv_set_ap_coeff", "set_num", "num_sqrt", "num_pow", "num_root", "num_arith", "num_conv", "bound_arith", "bound_un", "serialize"};
static Q qpow(const Q& q, unsigned n) { Q r = 1; for (unsigned i = 0; i < n; i++) r *= q; return r; }
struct Num {
  Src& s; NT& t; xop o; bool nontriv = false; int op; int lim;
  Num(Src& s) : s(s), t(NTS[s.draw(sizeof NTS / sizeof *NTS)]) { memset(&o, 0, sizeof o); for (xq* x = o.b; x < o.b + 6; x++) mpq_init(x->q); mpq_init(o.s.q); for (auto& x : o.r) mpq_init(x.q); }
  ~Num() { for (xq* x = o.b; x < o.b + 6; x++) mpq_clear(x->q); mpq_clear(o.s.q); for (auto& x : o.r) mpq_clear(x.q); if (o.ap) ap_coeff_free((ap_coeff_t*)o.ap); }
  [[noreturn]] void die(const char* k, const string& msg) { fail(string("num:") + t.name + ":" + ON[op] + ":" + k, string(ON[op]) + " over " + t.name + ": " + msg); }
  // a number of the type
  Q num() {
    Q q;
    if (t.native) { int l = lim; q = s.range(0, s.coin() ? 4 : l); if (t.cls == 1 && s.coin()) { q /= s.range(1, s.coin() ? 4 : l); } if (s.coin()) q = -q; return q; }
    NumCfg c; c.level = s.draw(3); q = gen_q(s, c); if (t.cls == 0) { if (!is_int(q)) q = Q(qceil(q)); return q; }
    if (t.cls == 2) { if (s.chance(1, 5)) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, s.range(0, 60)); Q e(z); if (s.coin()) q /= e; else q *= e; } t.round(q.get_mpq_t()); if (s.chance(1, 6)) { mpfr_t f; mpfr_init2(f, t.prec); mpfr_set_q(f, q.get_mpq_t(), MPFR_RNDN); if (s.coin()) mpfr_nextabove(f); else mpfr_nextbelow(f); if (t.prec != 53 || 1) { mpfr_exp_t e = mpfr_zero_p(f) ? 0 : mpfr_get_exp(f); if (e > -900 && e < 900) q = q_of_mpfr(f); } mpfr_clear(f); } }
    return q; }
  void set(xq& x, const X& v) { x.inf = v.inf; mpq_set(x.q, v.v.get_mpq_t()); }
  X get(const xq& x) { if (x.inf == 99) die("nan", "a bound is not a number; " + args()); X r; r.inf = x.inf; if (!r.inf) mpq_set(r.v.get_mpq_t(), x.q); return r; }
  I geti(const xq* x) { I r; r.lo = get(x[0]); r.hi = get(x[1]); return r; }
  void seti(xq* x, const I& v) { set(x[0], v.lo); set(x[1], v.hi); }
  X up(Q q) { t.round(q.get_mpq_t()); return X(q); } X down(Q q) { return neg(up(-q)); }
  I itv(bool inf_ok = true) { Q a = num(), b = s.chance(1, 4) ? a : num(); if (b < a) std::swap(a, b); I i{X(a), X(b)}; if (s.chance(1, 6)) { if (s.coin()) i.lo = X(0); else i.hi = X(0); if (i.empty()) std::swap(i.lo, i.hi); } if (inf_ok) { int w = s.weighted({8, 1, 1, 1}); if (w & 1) i.lo = X::minf(); if (w & 2) i.hi = X::pinf(); } return i; }
  string args() { I b, c; b.lo = get(o.b[0]); b.hi = get(o.b[1]); c.lo = get(o.c[0]); c.hi = get(o.c[1]); return "b=" + S(b) + " c=" + S(c) + " s=" + S(get(o.s)) + " n=" + std::to_string(o.n) + " alias=" + std::to_string(o.alias); }
  bool close(const Q& got, const Q& want, int slack = 3) { Q d = abs(Q(got - want)), tol = abs(want); mpq_div_2exp(tol.get_mpq_t(), tol.get_mpq_t(), t.prec - slack); Q tiny = 1; mpq_div_2exp(tiny.get_mpq_t(), tiny.get_mpq_t(), 1050); return d <= tol + tiny; }
  void tight_hi(const X& got, const X& want, const char* what, const string& msg) {
    if (got < want) die("unsound", string(what) + ": " + msg);
    if (want.inf || got == want) return;
    if (t.cls == 1) die("inexact", string(what) + ": " + msg);
    if (t.cls == 0) { if (got.inf || got.v > Q(qceil(want.v))) die("loose", string(what) + ": " + msg); }
    else { if (got.inf) { if (abs(want.v) < Q(mpz_class(1) << 1000)) die("loose", string(what) + ": " + msg); } else if (!close(got.v, want.v)) die("loose", string(what) + ": " + msg); } }
  void tight(const I& got, const I& want, const string& msg) { tight_hi(got.hi, want.hi, "sup", "got " + S(got) + ", exact image " + S(want) + "; " + msg); tight_hi(neg(got.lo), neg(want.lo), "inf", "got " + S(got) + ", exact image " + S(want) + "; " + msg); }
  void encl(const I& got, const Q& x, const string& why) { if (!got.has(x)) die("unsound", "got " + S(got) + ", which misses " + S(x) + " (" + why + "); " + args()); }
  Q inside(const I& i) { if (i.lo.inf && i.hi.inf) return num(); if (i.lo.inf) return Q(i.hi.v - abs(num())); if (i.hi.inf) return Q(i.lo.v + abs(num())); switch (s.draw(3)) { case 0: return i.lo.v; case 1: return i.hi.v; default: return Q(i.lo.v + (i.hi.v - i.lo.v) * Q(s.range(0, 16)) / 16); } }
  // real points next to a bound
  Q sample(const I& i) { Q q = inside(i); if (s.coin()) { Q e = Q(1) / Q(mpz_class(1) << s.range(1, 70)); if (s.coin()) e = -e; if (i.has(q + e)) q += e; } return q; }
  static I cap(const I& i) { return i; }
  static Q fl(const Q& q, int prec, mpfr_rnd_t r, int emin) { mpfr_exp_t e0 = mpfr_get_emin(), e1 = mpfr_get_emax(); mpfr_t f; mpfr_init2(f, prec); mpfr_set_emin(emin); int k = mpfr_set_q(f, q.get_mpq_t(), r); mpfr_subnormalize(f, k, r); mpfr_set_emin(e0); mpfr_set_emax(e1); Q x = q_of_mpfr(f); mpfr_clear(f); return x; }
  static Q flt(const Q& q, mpfr_rnd_t r) { return fl(q, 24, r, -148); }
  static Q dbl(const Q& q, mpfr_rnd_t r) { return fl(q, 53, r, -1073); }
  I hullmul(const I& a, const I& b) { return imul(a, b); }
  // exact image of a division by an interval that does not contain 0
  I idiv(const I& a, const I& b) { auto inv = [&](const X& x) { return x.inf ? X(0) : X(Q(1 / x.v)); }; I k(inv(b.hi), inv(b.lo)); return imul(a, k); }
  X xadd(const X& a, const X& b) { if (a.inf) return a; if (b.inf) return b; return X(Q(a.v + b.v)); }
  bool run() { crumb(ON[op]); fesetround(FE_UPWARD); bool ok = t.op(op, &o); return ok; }
  void same(int k, const I& before, const char* what) { I now = geti(&o.r[k]); if (!(now.lo == before.lo && now.hi == before.hi)) die("argument", string(what) + " changed from " + S(before) + " to " + S(now) + "; " + args()); }
  void go() {
    lim = strcmp(t.name, "Rl") && strcmp(t.name, "Rll") ? 1000 : 60;
    op = s.weighted({1, 4, 4, 2, 8, 8, 3, 3, 3, 3, 2, 2, 3, 3, 4, 3, 3, 6, 2, 2, 2, 2, 3, 3, 2, 2, 2, 2, 3, 3, 5, 5, 3, 3, 3, 2, 3, 3, 3, 2, 2, 2, 4, 4, 6, 2, 4, 4, 4, 8, 8, 8, 0, 3});
    if (op == X_POW || op == X_INVPOW || op == X_NPOW || op == X_NROOT) lim = t.cls == 1 ? 20 : 100;
    I b = itv(), c = itv(), d = itv(); Q sq = num(); X sx(sq); o.n = s.range(0, 9); I r, img; string why;
    bool usec = op == X_ADD || op == X_SUB || op == X_MUL || op == X_DIV || op == X_MOD || op == X_MEET || op == X_JOIN || op == X_WIDEN;
    int al = s.draw(usec ? 6 : 2); o.alias = al == 3 ? 4 : al == 4 ? 5 : al == 5 ? 2 : al;
    if (usec && (o.alias & 4)) c = b;
    I x, y;
    switch (op) {
    case X_ADDBOUND: case X_SUBBOUND: break;
    case X_MULBOUND: case X_DIVBOUND: if (s.chance(1, 5)) { sx = s.coin() ? X::pinf() : X::minf(); } if (op == X_DIVBOUND && !sx.inf && sx.v == 0) sx = X(1); break;
    case X_DIVNUM: if (sx.v == 0) sx = X(3); break;
    case X_ENLARGE: sx = X(abs(sq)); if (s.chance(1, 6)) sx = X::pinf(); break;
    case X_NSQRT: sx = X(abs(sq)); break;
    case X_NROOT: o.n = s.range(1, 5); if (o.n % 2 == 0) sx = X(abs(sq)); break;
    case X_POW: { int w = s.weighted({8, 1, 1, 1}); o.n = s.range(0, 6); Q e = o.n; c = I(e); if (w == 1) { c = itv(); if (c.sing() && c.lo.v > 6) c = I(Q(2)); if (c.sing() && is_int(c.lo.v) && c.lo.v >= 0) o.n = c.lo.v.get_num().get_si(); } else if (w == 2) c = I(Q(-s.range(1, 3))); else if (w == 3 && t.cls) c = I(Q(1, 2)); break; }
    case X_INVPOW: { o.n = s.range(0, 5); c = I(Q(o.n)); break; }
    case X_MOD: if (t.cls == 0 || s.coin()) { o.n = 1; auto in = [&](I& i) { if (!i.lo.inf) i.lo = X(Q(qfloor(i.lo.v))); if (!i.hi.inf) i.hi = X(Q(qceil(i.hi.v))); }; in(b); in(c); } else o.n = 0; if (s.chance(3, 4) && c.lo <= X(0) && X(0) <= c.hi) { if (c.hi.inf) c.lo = X(1); else { Q m = up(Q(abs(c.hi.v) + 1)).v; c = I(X(Q(1)), X(m)); if (s.coin()) c = ineg(c); } } if (o.alias & 4) c = b; break;
    case X_MEET: case X_JOIN: case X_WIDEN: case X_REL: if (s.chance(1, 3)) { I w = b; if (s.coin() && !w.lo.inf) w.lo = down(Q(w.lo.v - abs(num()))); if (s.coin() && !w.hi.inf) w.hi = up(Q(w.hi.v + abs(num()))); if (s.coin()) c = w; else { c = b; b = w; } if (o.alias & 4) c = b; } if (op != X_MEET && s.chance(1, 8)) { (s.coin() ? b : c) = I(X(1), X(-1)); if (o.alias & 4) c = b; } break;
    case X_CANON: case X_PRED: if (s.chance(1, 4) && !b.sing()) std::swap(b.lo, b.hi); if (b.lo.inf > 0 || b.hi.inf < 0) b = I::top(); if (s.chance(1, 8)) b = I(X(1), X(-1)); break;
    case X_TOFLOAT: case X_TODOUBLE: case X_FROMFLOAT: case X_FROMDOUBLE: if (t.native) o.alias = 0; break;
    case X_SETNUM2: b = itv(false); if (o.n & 1) img = I(sx, sx); else img = b; break;
    case X_MUL2EXP: o.n = s.range(-4, 4); break;
    default: break; }
    // set-valued inputs for the inverse operations are grown around a witness
    Q wx, wy; bool wit = false;
    auto grow = [&](const Q& y) { I i{X(y), X(y)}; t.round(i.hi.v.get_mpq_t()); Q m = -y; t.round(m.get_mpq_t()); i.lo = X(Q(-m)); if (s.coin()) i.lo = X(Q(i.lo.v - abs(Q(qceil(num()))))); if (s.coin()) i.hi = X(Q(i.hi.v + abs(Q(qceil(num()))))); if (s.chance(1, 8)) i.hi = X::pinf(); if (s.chance(1, 8)) i.lo = X::minf(); Q z; if (i.hi.fin()) t.round(i.hi.v.get_mpq_t()); if (i.lo.fin()) { z = -i.lo.v; t.round(z.get_mpq_t()); i.lo = X(Q(-z)); } return i; };
    switch (op) {
    case X_UNCEIL: wx = sample(itv()); wy = qceil(wx); wit = true; break;
    case X_UNFLOOR: wx = sample(itv()); wy = qfloor(wx); wit = true; break;
    case X_UNTRUNC: wx = sample(itv()); wy = qtrunc(wx); wit = true; break;
    case X_FROMINT: wx = sample(itv()); wy = s.coin() ? qfloor(wx) : qceil(wx); wit = true; break;
    case X_FROMFLOAT: wx = sample(itv()); wy = flt(wx, (mpfr_rnd_t)(s.draw(4) == 0 ? MPFR_RNDN : s.coin() ? MPFR_RNDU : MPFR_RNDD)); wit = true; break;
    case X_FROMDOUBLE: wx = sample(itv()); wy = dbl(wx, (mpfr_rnd_t)(s.draw(4) == 0 ? MPFR_RNDN : s.coin() ? MPFR_RNDU : MPFR_RNDD)); wit = true; break;
    case X_INVPOW: wx = num(); d = grow(wx); wy = qpow(wx, o.n); wit = true; break; }
    if (wit) b = grow(wy);
    seti(o.b, b); seti(o.c, c); seti(o.d, d); set(o.s, sx);
    I cur = I::top(); // coefficient operand
    if (op == X_UNIT || op == X_TOCOEFF || op == X_TOINTERVAL) { o.ap = ap_coeff_alloc(AP_COEFF_SCALAR);
      if (op == X_UNIT) { NumCfg nc; nc.level = t.native ? 0 : s.draw(3); auto g = [&] { Q q = gen_q(s, nc); if (t.native && s.coin()) { q /= s.range(1, 9); } return q; }; Q u = g(), v = s.chance(1, 3) ? u : g(); if (v < u) std::swap(u, v); cur = I(X(u), X(v)); if (!t.native || 1) { if (s.chance(1, 8)) cur.lo = X::minf(); if (s.chance(1, 8)) cur.hi = X::pinf(); } set_coeff((ap_coeff_t*)o.ap, cur, gen_kind(s), gen_kind(s), s.coin()); } }
    if (op == X_NARITH || op == X_BARITH) { o.flag2 = s.draw(16); Q u = num(), v = num(); X xu(u), xv(v);
      if (op == X_BARITH) { if (s.chance(1, 5)) xu = s.coin() ? X::pinf() : X::minf(); if (s.chance(1, 5)) xv = s.coin() ? X::pinf() : X::minf();
        if (o.flag2 == 0 && xu.inf && xv.inf) xv = xu; if (o.flag2 == 1 && xu.inf && xv.inf) xv = neg(xu); if (o.flag2 == 3) { if (!xv.inf && xv.v == 0) { if (xu.inf || xu.v == 0) xv = X(1); } } }
      else if (o.flag2 == 3 && v == 0) xv = X(1);
      o.b[0].inf = o.b[1].inf = 0; set(o.b[0], xu); set(o.b[1], xv); }
    if (op == X_NCONV && t.cls == 2 && s.chance(1, 4)) { Q q = num(); mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), s.range(0, 200)); t.round(q.get_mpq_t()); set(o.s, sx = X(q)); }
    if (t.native && t.cls == 1 && (op == X_TODOUBLE || op == X_FROMFLOAT || op == X_FROMDOUBLE)) return; // overflows
    label(string(t.name)); label(ON[op]);
    TR(ON[op] << " over " << t.name << " " << args());
    if (!run()) die("harness", "operand not representable: " + args());
    if (op == X_NCONV) { conv(sx.v); return; }
    if (op == X_NARITH || op == X_BARITH) { arith(); return; }
    r = geti(o.r); TR("  = " << S(r)); nontriv = true;
    if ((o.alias & 3) != 1 && !(o.alias & 4 && (o.alias & 3) == 2) && op != X_REL && op != X_SETNUM2 && op != X_SERIAL) same(4, b, "b"); if (!(o.alias & 6) && !(o.alias & 4 && (o.alias & 3)) && op != X_REL) same(6, c, "c");
    string A = args();
    switch (op) {
    case X_LOAD: tight(r, b, A); if (!(r.lo == b.lo && r.hi == b.hi)) die("copy", A); break;
    case X_ADD: tight(r, iadd(b, c), A); break;
    case X_SUB: tight(r, isub(b, c), A); break;
    case X_NEG: tight(r, ineg(b), A); if (!(r.lo == neg(b.hi) && r.hi == neg(b.lo))) die("inexact", A); break;
    case X_MUL: tight(r, imul(b, c), A); break;
    case X_DIV: if (c.lo <= X(0) && X(0) <= c.hi) { if (b.sing() && b.lo.v == 0) break; /* 0/c */ if (!(r.lo.inf < 0 && r.hi.inf > 0)) die("unsound", "division by an interval with zero gave " + S(r) + "; " + A); } else tight(r, idiv(b, c), A); break;
    case X_ADDNUM: tight(r, iadd(b, I(sq)), A); break;
    case X_SUBNUM: tight(r, isub(b, I(sq)), A); break;
    case X_MULNUM: tight(r, imul(b, I(sq)), A); break;
    case X_DIVNUM: tight(r, idiv(b, I(sx.v)), A); break;
    case X_ADDBOUND: tight(r, iadd(b, I(sq)), A); break;
    case X_SUBBOUND: tight(r, isub(b, I(sq)), A); break;
    case X_MULBOUND: if (!sx.inf) tight(r, imul(b, I(sx.v)), A); break;
    case X_DIVBOUND: if (!sx.inf) tight(r, idiv(b, I(sx.v)), A); else if (!r.has(0) && !r.empty()) die("table", "x/oo is " + S(r)); break;
    case X_SQRT: { if (b.hi < X(0)) { if (!r.empty()) die("unsound", "square root of a negative interval is " + S(r) + "; " + A); break; }
      X lo = b.lo < X(0) ? X(0) : b.lo; if (r.lo.inf > 0 || (r.lo.fin() && r.lo.v > 0 && (lo.inf ? false : r.lo.v * r.lo.v > lo.v))) die("unsound", "got " + S(r) + "; " + A); if (b.hi.inf ? !r.hi.inf : (r.hi.fin() && (r.hi.v < 0 || r.hi.v * r.hi.v < b.hi.v))) die("unsound", "got " + S(r) + "; " + A);
      if (r.lo < X(0)) die("loose", "square root below zero: " + S(r) + "; " + A);
      if (o.flag) { if (lo.fin() && r.lo.v * r.lo.v != lo.v) die("exact", "claimed exact: " + S(r) + "; " + A); if (b.hi.fin() && (r.hi.inf || r.hi.v * r.hi.v != b.hi.v)) die("exact", "claimed exact: " + S(r) + "; " + A); }
      if (b.hi.fin()) { if (r.hi.inf) die("loose", "got " + S(r) + "; " + A); if (t.cls == 0 && r.hi.v > 0 && (r.hi.v - 1) * (r.hi.v - 1) >= b.hi.v) die("loose", "got " + S(r) + "; " + A); if (t.cls == 2 && !close(r.hi.v * r.hi.v, b.hi.v, 5)) die("loose", "got " + S(r) + "; " + A); if (t.cls == 1) { Q den(b.hi.v.get_den()); Q w = r.hi.v - 1 / den; if (w > 0 && w * w >= b.hi.v) die("loose", "got " + S(r) + "; " + A); } }
      break; }
    case X_ABS: { I w = b; if (b.hi < X(0)) w = ineg(b); else if (b.lo < X(0)) { X m = neg(b.lo); w = I(X(0), m < b.hi ? b.hi : m); } tight(r, w, A); if (!(r.lo == w.lo && r.hi == w.hi)) die("inexact", "got " + S(r) + "; " + A); break; }
    case X_MUL2EXP: { Q k = o.n >= 0 ? Q(1 << o.n) : Q(1, 1 << -o.n); tight(r, imul(b, I(k)), A); break; }
    case X_MOD: { if (c.lo <= X(0) && X(0) <= c.hi) { if (!(r.lo.inf && r.hi.inf)) die("unsound", "modulo by an interval with zero gave " + S(r)); break; }
      for (int i = 0; i < 3; i++) { Q u = o.n ? inside(b) : sample(b), v = o.n ? inside(c) : sample(c); if (o.n) { u = qfloor(u); v = qfloor(v); if (!b.has(u) || !c.has(v)) continue; } v = abs(v); Q m = u - v * Q(qtrunc(u / v)); encl(r, m, S(u) + " mod " + S(v)); }
      if (b.lo.fin() && b.hi.fin() && c.lo.fin() && c.hi.fin()) { Q mx = std::max(Q(abs(c.lo.v)), Q(abs(c.hi.v))); if (r.lo.inf || r.hi.inf) die("loose", "got " + S(r) + "; " + A); Q g = std::max(Q(abs(r.lo.v)), Q(abs(r.hi.v))); if (g > mx) die("loose", "got " + S(r) + "; " + A); }
      break; }
    case X_CEIL: { auto f = [](const X& v) { return v.inf ? v : X(Q(qceil(v.v))); }; I w(f(b.lo), f(b.hi)); tight(r, w, A); break; }
    case X_FLOOR: { auto f = [](const X& v) { return v.inf ? v : X(Q(qfloor(v.v))); }; I w(f(b.lo), f(b.hi)); tight(r, w, A); break; }
    case X_TRUNC: { auto f = [](const X& v) { return v.inf ? v : X(Q(qtrunc(v.v))); }; I w(f(b.lo), f(b.hi)); tight(r, w, A); break; }
    case X_TOINT: { I w = b; if (w.lo.fin()) w.lo = X(Q(qfloor(w.lo.v))); if (w.hi.fin()) w.hi = X(Q(qceil(w.hi.v))); tight(r, w, A); break; }
    case X_TOFLOAT: case X_TODOUBLE: { auto f = [&](const X& v, mpfr_rnd_t m) { if (v.inf) return v; return X(op == X_TOFLOAT ? flt(v.v, m) : dbl(v.v, m)); }; I w(f(b.lo, MPFR_RNDD), f(b.hi, MPFR_RNDU)); if (!isubset(w, r)) die("unsound", "got " + S(r) + ", roundings cover " + S(w) + "; " + A); if (t.cls == 2 || !strcmp(t.name, "MPQ")) { Q big(mpz_class(1) << 120); bool sm = (b.lo.inf || abs(b.lo.v) < big) && (b.hi.inf || abs(b.hi.v) < big); if (sm && !(r.lo == w.lo && r.hi == w.hi)) die("loose", "got " + S(r) + ", roundings cover " + S(w) + "; " + A); } break; }
    case X_UNCEIL: case X_UNFLOOR: case X_UNTRUNC: case X_FROMINT: case X_FROMFLOAT: case X_FROMDOUBLE: encl(r, wx, "whose cast is " + S(wy)); break;
    case X_POW: { if (!c.sing() || !is_int(c.lo.v) || c.lo.v < 0) { if (!(r.lo.inf < 0 && r.hi.inf > 0)) die("unsound", "power with exponent " + S(c) + " is " + S(r) + "; " + A); break; }
      unsigned n = o.n; I w; auto f = [&](const X& v) { if (v.inf) { X u; u.inf = n == 0 ? 0 : n % 2 ? v.inf : 1; u.v = 1; return u; } return X(qpow(v.v, n)); }; if (n == 0) w = I(Q(1)); else if (n % 2 || X(0) <= b.lo) w = I(f(b.lo), f(b.hi)); else if (b.hi <= X(0)) w = I(f(b.hi), f(b.lo)); else { X u = f(b.lo), v = f(b.hi); w = I(X(0), u < v ? v : u); }
      if (n == 0) { encl(r, 1, "power 0"); break; } if (t.native) { if (!isubset(w, r)) die("unsound", "got " + S(r) + ", exact image " + S(w) + "; " + A); break; }
      if (t.cls == 2) { if (!isubset(w, r)) die("unsound", "got " + S(r) + ", exact image " + S(w) + "; " + A); if (w.hi.fin() && (r.hi.inf || !close(r.hi.v, w.hi.v, 8)) ) die("loose", "got " + S(r) + ", exact image " + S(w) + "; " + A); break; }
      tight(r, w, A); break; }
    case X_INVPOW: encl(r, wx, "whose power is " + S(wy) + ", originally in " + S(d)); break;
    case X_MEET: { I w(b.lo < c.lo ? c.lo : b.lo, b.hi < c.hi ? b.hi : c.hi); if (!(r.lo == w.lo && r.hi == w.hi)) die("wrong", "got " + S(r) + "; " + A); if ((bool)o.flag != w.empty()) die("wrong", string("emptiness reported ") + (o.flag ? "true" : "false") + " for " + S(r) + "; " + A); break; }
    case X_JOIN: { I w = b.empty() ? c : c.empty() ? b : I(b.lo < c.lo ? b.lo : c.lo, b.hi < c.hi ? c.hi : b.hi); if (!(r.lo == w.lo && r.hi == w.hi)) die("wrong", "got " + S(r) + "; " + A); break; }
    case X_WIDEN: { I w = b.empty() ? c : c.empty() ? b : I(c.lo < b.lo ? X::minf() : b.lo, b.hi < c.hi ? X::pinf() : b.hi); if (!(r.lo == w.lo && r.hi == w.hi)) die("wrong", "got " + S(r) + "; " + A); break; }
    case X_ENLARGE: { if (sx.inf) { if (!(r.lo.inf && r.hi.inf)) die("unsound", "got " + S(r) + "; " + A); } else tight(r, iadd(b, I(X(Q(-sx.v)), sx)), A); break; }
    case X_CANON: { bool integer = o.n; I w = b; if (integer) { if (w.lo.fin()) w.lo = X(Q(qceil(w.lo.v))); if (w.hi.fin()) w.hi = X(Q(qfloor(w.hi.v))); } if (!(r.lo == w.lo && r.hi == w.hi)) die("wrong", "got " + S(r) + ", expected " + S(w) + "; " + A); if ((bool)o.flag != w.empty()) die("wrong", "emptiness of " + S(w) + "; " + A); break; }
    case X_PRED: { auto k = [&](int bit, bool want, const char* nm) { if (((o.flag >> bit) & 1) != want) die("predicate", string(nm) + " of " + S(b) + " is " + (want ? "false" : "true")); }; k(0, b.lo.inf && b.hi.inf, "is_top"); k(1, b.empty(), "is_bottom"); k(2, b.sing(), "is_point"); k(3, b.sing() && b.lo.v == 0, "is_zero"); if (!b.empty()) { k(4, X(0) <= b.lo, "is_pos"); k(5, b.hi <= X(0), "is_neg"); } if (b.lo.fin() && b.hi.fin()) k(6, is_int(b.lo.v) && is_int(b.hi.v), "is_int"); k(7, b.lo == X(1) && b.hi == X(-1), "is_canonical_bottom"); break; }
    case X_REL: { bool leq = b.empty() ? true : c.empty() ? false : c.lo <= b.lo && b.hi <= c.hi, eq = b.lo == c.lo && b.hi == c.hi; if ((o.flag & 1) != leq) die("leq", A); if (((o.flag >> 1) & 1) != eq) die("eq", A); if (eq && !(o.flag & 4)) die("hash", A); I w = geti(&o.r[2]); if (!(w.lo == b.lo && w.hi == b.hi)) die("swap", "got " + S(w) + "; " + A); if (!(r.lo == c.lo && r.hi == c.hi) && !o.alias) die("swap", "got " + S(r) + "; " + A); break; }
    case X_MAGN: { X m = get(o.r[2]), w = neg(b.lo) < b.hi ? b.hi : neg(b.lo); if (m != w) die("wrong", "magnitude " + S(m) + "; " + A); break; }
    case X_RANGEABS: { X m = get(o.r[2]); if (b.lo.inf || b.hi.inf) { if (m.inf <= 0) die("wrong", "range " + S(m) + "; " + A); break; } tight_hi(m, X(Q(b.hi.v - b.lo.v)), "range", "got " + S(m) + "; " + A); X k = get(o.r[3]); if (t.cls == 1) { Q mg = std::max(Q(abs(b.lo.v)), Q(abs(b.hi.v))); X w = mg == 0 ? X(0) : X(Q((b.hi.v - b.lo.v) * 2 / mg)); if (k != w) die("wrong", "relative range " + S(k) + " instead of " + S(w) + "; " + A); } break; }
    case X_PRINT: if (strcmp(o.str, o.str2)) die("text", string("itv_snprint gives ") + o.str + " and itv_fprint " + o.str2); if (o.flag != (int)strlen(o.str2)) die("text", "itv_snprint returns " + std::to_string(o.flag) + " for " + o.str2); break;
    case X_TOINTERVAL: case X_TOCOEFF: { I k = of_coeff((ap_coeff_t*)o.ap); if (!isubset(b, k)) die("unsound", "converted to " + S(k) + "; " + A); if (o.flag && !(k.lo == b.lo && k.hi == b.hi)) die("exact", "claimed exact, got " + S(k) + "; " + A); if (!isubset(k, r)) die("unsound", "converted back to " + S(r) + " from " + S(k)); if (o.flag2 && !(k.lo == r.lo && k.hi == r.hi)) die("exact", "claimed exact, got back " + S(r) + " from " + S(k)); if (strcmp(t.name, "Dl") && !(k.lo == b.lo && k.hi == b.hi) && !(t.cls == 2)) die("loose", "converted to " + S(k) + "; " + A); break; }
    case X_UNIT: { tight(r, cur, "from " + S(cur)); if (o.flag2 && !(r.lo == cur.lo && r.hi == cur.hi)) die("exact", "claimed exact, got " + S(r) + " from " + S(cur)); break; }
    case X_SETNUM2: if (!(r.lo == img.lo && r.hi == img.hi)) die("wrong", "got " + S(r) + "; " + A); if (!(o.n & 1)) { X u = get(o.r[2]); if (u != b.lo) die("argument", "changed to " + S(u) + "; " + A); } break;
    case X_NSQRT: case X_NROOT: { unsigned n = op == X_NSQRT ? 2 : o.n; Q up = get(o.r[2]).v, dn = get(o.r[3]).v; if (qpow(dn, n) > sx.v || qpow(up, n) < sx.v || (n % 2 == 0 && (dn < 0 || up < 0)) || up < dn) die("unsound", "root in [" + S(dn) + "," + S(up) + "]; " + A);
      if (t.cls == 0 && qpow(Q(up - dn), 1) > 1) die("loose", "root in [" + S(dn) + "," + S(up) + "]; " + A); if (t.cls == 2 && !(close(up, dn, t.prec - 47))) die("loose", "root in [" + S(dn) + "," + S(up) + "]; " + A); break; }
    case X_NPOW: { if (o.flag) break; Q up = get(o.r[2]).v, dn = get(o.r[3]).v, w = qpow(sx.v, o.n); if (t.native && (abs(w.get_num()) > (mpz_class(1) << 62) || w.get_den() > (mpz_class(1) << 62))) break; if (up < w || dn > w) die("unsound", "power in [" + S(dn) + "," + S(up) + "]; " + A); if (t.cls < 2 && up != dn) die("loose", "power in [" + S(dn) + "," + S(up) + "]; " + A); if (t.cls == 2 && !close(up, dn, 8)) die("loose", "power in [" + S(dn) + "," + S(up) + "]; " + A); break; }
    case X_SERIAL: { X y = get(o.r[2]); if (o.flag & 6) die("overrun", A); if (o.flag & 8) die("size", A); if (!(r.lo == b.lo && r.hi == b.hi && y == sx)) die("value", "read back " + S(r) + " and " + S(y) + "; " + A); break; }
    }
  }
  void arith() {
    X u = get(o.b[0]), v = get(o.b[1]); X w; int k = o.flag2; bool exact_ok = true; static const char* nm[] = {"add", "sub", "mul", "div", "min", "max", "neg", "abs", "add_uint", "sub_uint", "mul_2", "div_2", "floor", "ceil", "trunc", "mul_2exp"};
    string A = string(nm[k]) + " x=" + S(u) + " y=" + S(v) + " n=" + std::to_string(o.n); label(nm[k]); nontriv = true; X r = get(o.r[2]);
    auto f = [&](auto g) { return u.inf ? u : X(Q(g(u.v))); };
    switch (k) {
    case 0: w = xadd(u, v); break; case 1: w = xadd(u, neg(v)); break; case 2: w = xmul(u, v); break;
    case 3: if ((!u.inf && u.v == 0) || v.inf) w = X(0); else if (v.v == 0) { w.inf = u.inf ? u.inf : sgn(u.v); } else if (u.inf) { w.inf = u.inf * sgn(v.v); } else w = X(Q(u.v / v.v)); break;
    case 4: w = u < v ? u : v; break; case 5: w = u < v ? v : u; break; case 6: w = neg(u); break; case 7: w = u < X(0) ? neg(u) : u; break;
    case 8: w = xadd(u, X(o.n)); break; case 9: w = xadd(u, X(-o.n)); break; case 10: w = f([](Q q) { return q * 2; }); break; case 11: w = f([](Q q) { return q / 2; }); break;
    case 12: w = f([](Q q) { return Q(qfloor(q)); }); break; case 13: w = f([](Q q) { return Q(qceil(q)); }); break; case 14: w = f([](Q q) { return Q(qtrunc(q)); }); break;
    case 15: { Q m = o.n >= 4 ? Q(1 << (o.n - 4)) : Q(1, 1 << (4 - o.n)); w = f([&](Q q) { return q * m; }); break; } }
    tight_hi(r, w, nm[k], "got " + S(r) + ", exact " + S(w) + "; " + A);
    X c = get(o.r[3]); if (c.v != cmp(u, v)) die("cmp", "compare gives " + S(c) + "; " + A);
    auto bit = [&](int b, bool want, const char* p) { if (((o.flag >> b) & 1) != want) die("predicate", string(p) + "; " + A); };
    bit(0, u == v, "equal"); bit(1, u.fin() && is_int(u.v), "integer"); bit(2, X(0) < u, "sgn"); bit(3, u < X(0), "sgn"); bit(4, X(o.n) < u, "cmp_int"); bit(5, u < X(o.n), "cmp_int"); }
  void conv(const Q& q) {
    nontriv = true; int f = o.flag; string A = "of " + S(q);
    auto up = [&](int i, bool exact, const char* nm, const Q& q) { X r = get(o.r[i]); if (r < X(q)) die("unsound", string(nm) + " gives " + S(r) + " " + A); if (exact && r != X(q)) die("exact", string(nm) + " claims exact, gives " + S(r) + " " + A); return r; };
    X r = up(0, f & 1, "to double", q); if (r.fin()) { if (dbl(q, MPFR_RNDU) != r.v && abs(q) < Q(mpz_class(1) << 1000)) die("loose", "to double gives " + S(r) + " " + A); }
    Q dq = r.fin() ? r.v : Q(0); r = up(1, f & 2, "to mpq", q); if (r.v != q && strcmp(t.name, "Dl")) die("loose", "to mpq gives " + S(r) + " " + A); Q mq = r.v;
    r = up(2, f & 4, "to mpz", q); if (r.v != Q(qceil(q)) && strcmp(t.name, "Dl")) die("loose", "to mpz gives " + S(r) + " " + A); Q zq = r.v;
    r = up(3, f & 8, "to mpfr", q); if (t.cls == 2 && !close(r.v, q, t.prec - 50)) die("loose", "to mpfr gives " + S(r) + " " + A);
    if (f & 32) { r = up(4, f & 16, "to int", q); if (r.v != Q(qceil(q))) die("loose", "to int gives " + S(r) + " " + A); }
    else if (abs(q) < Q(mpz_class(1) << 60)) die("fits", "num_fits_int refuses " + S(q));
    if (f & (1 << 9)) { r = up(5, f & (1 << 10), "from mpq", mq); if (r != X(mq)) die("loose", "from mpq gives " + S(r) + " " + A); } else if (abs(q) < Q(1 << 20) && !t.native) die("fits", "mpq_fits_num refuses " + S(q));
    if (f & (1 << 11)) { r = up(6, f & (1 << 12), "from double", dq); if (t.cls && !t.native && r != X(dq)) die("loose", "from double gives " + S(r) + " instead of " + S(dq)); if (t.cls == 0 && r.v != Q(qceil(dq))) die("loose", "from double gives " + S(r) + " instead of " + S(dq)); }
    if (f & (1 << 13)) { r = up(7, f & (1 << 14), "from mpz", zq); if (t.cls < 2 && r != X(zq)) die("loose", "from mpz gives " + S(r) + " " + A); } }
};
static void case_num(Src& s) { Num n(s); n.go(); s.nontrivial = n.nontriv; }
int main(int argc, char** argv) {
  fesetround(FE_UPWARD); init_types();
  Prop p; p.id = "num"; p.fn = case_num; p.quick = 1000000; p.thorough = 50000000; p.init = [] { fesetround(FE_UPWARD); };
  p.rule = "one operation of num.h, bound.h or itv.h in one of the nine number types (machine and multiprecision integers and rationals, double, long double, MPFR) on generated operands (points, half-lines, intervals with or around zero, values next to each other in the type, huge and tiny values for the unbounded types), with the result apart from or aliased to an operand. Every operation is non-trivial.";
  p.assumptions = {"FPU rounding is upward", "operands of the machine integer and rational types stay small enough not to overflow (documented as unchecked)", "intervals are non-empty where itv.h assumes it"};
  return engine_main(argc, argv, {p}); }
