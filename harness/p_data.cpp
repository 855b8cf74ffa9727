// Scalars, intervals, coefficients (prop "scalar") and expressions, constraints, generators, trees (prop "expr")
// against exact models.
#include "apx.hpp"
static string SI(long i) { return std::to_string(i); }
// ================================================================ scalars
static const mpfr_rnd_t RND[4] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD};
struct MS { X v; ap_scalar_discr_t d = AP_SCALAR_DOUBLE; };  // model of a scalar
struct MI { I v; };
struct MC { bool itv = false; I v; };
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int sgx(const X& x) { return x.inf ? x.inf : sgn(x.v); }
static bool same(const I& a, const I& b) { return a.lo == b.lo && a.hi == b.hi; }
static bool bot(const I& a) { return a.hi < a.lo; }
static int icmp(const I& a, const I& b) { // documented comparison, arguments not empty
  int si = cmp(a.lo, b.lo), ss = cmp(a.hi, b.hi); if (!si && !ss) return 0; if (si >= 0 && ss <= 0) return -1; if (si <= 0 && ss >= 0) return 1; return si < 0 ? -2 : 2; }
static int ccmp(const MC& a, const MC& b) { if (a.itv != b.itv) return a.itv ? 3 : -3; return a.itv ? icmp(a.v, b.v) : cmp(a.v.lo, b.v.lo); }
struct Mpfr { mpfr_t m; Mpfr(int p) { mpfr_init2(m, p); } ~Mpfr() { mpfr_clear(m); } Mpfr(const Mpfr&) = delete; };
static NumCfg NC2() { NumCfg c; c.level = 2; return c; }
static vector<X> POOL; // values drawn so far in this case: their close neighbours are drawn too
static X gen_x(Src& s) {
  if (s.chance(1, 8)) return s.coin() ? X::pinf() : X::minf();
  if (!POOL.empty() && s.chance(1, 4)) { X x = POOL[s.draw(POOL.size())]; if (s.chance(1, 3)) return x; Q e = x.v == 0 ? Q(1) : abs(x.v); static const int sh[] = {52, 53, 54, 60, 30, 110, 1060}; mpq_div_2exp(e.get_mpq_t(), e.get_mpq_t(), sh[s.draw(7)]); if (s.chance(1, 4)) e /= 3; if (s.coin()) e = -e; return X(Q(x.v + e)); }
  X x(gen_q(s, NC2())); POOL.push_back(x); return x; }
// sets m to something near q at its precision, returns the exact value
static X near(mpfr_ptr m, const X& x) { if (x.inf) { mpfr_set_inf(m, x.inf); return x; } mpfr_set_q(m, x.v.get_mpq_t(), MPFR_RNDN); return X(q_of_mpfr(m)); }
static X neard(double& d, const X& x) { if (x.inf) { d = x.inf * INFINITY; return x; } Mpfr m(53); near(m.m, x); d = mpfr_get_d(m.m, MPFR_RNDN); return X(q_of_double(d)); }
static void setq(mpq_ptr q, const X& x) { if (x.inf) { mpz_set_si(mpq_numref(q), x.inf); mpz_set_si(mpq_denref(q), 0); } else mpq_set(q, x.v.get_mpq_t()); }
struct RawQ { mpq_t q; RawQ(const X& x) { mpq_init(q); setq(q, x); } ~RawQ() { mpq_clear(q); } };
static string printed(const std::function<void(FILE*)>& f) { char* b = nullptr; size_t n = 0; FILE* o = open_memstream(&b, &n); f(o); fclose(o); string r(b, n); free(b); return r; }
static X parse_num(const string& t) { // decimal or rational or infinity
  if (t == "+oo") return X::pinf(); if (t == "-oo") return X::minf(); size_t i = 0; bool ng = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) ng = t[i++] == '-'; mpz_class m = 0; long e = 0; bool dot = false, any = false;
  for (; i < t.size(); i++) { if (isdigit(t[i])) { m = m * 10 + (t[i] - '0'); any = true; if (dot) e--; } else if (t[i] == '.' && !dot) dot = true; else break; }
  if (!any) fail("print:number", "printed number '" + t + "' is not a number"); Q q(m); if (i < t.size() && t[i] == '/') { mpz_class d; if (d.set_str(t.substr(i + 1), 10) || d == 0) fail("print:number", "printed number '" + t + "' is not a number"); q = Q(m, d); q.canonicalize(); i = t.size(); }
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { e += strtol(t.c_str() + i + 1, nullptr, 10); i = t.size(); } if (i != t.size()) fail("print:number", "printed number '" + t + "' is not a number");
  mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, labs(e)); if (e >= 0) q *= p; else q /= p; return X(ng ? Q(-q) : q); }
// the printed text of x must denote x: exactly for rationals, to the number of digits else
static void chk_num(const string& t, const X& x, bool exact, const char* w) {
  X y = parse_num(t); if (y == x) return; if (y.inf || x.inf || exact) fail(string("print:") + w, "printed " + t + " for " + S(x)); Q e = abs(Q(y.v - x.v)), m = abs(x.v); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, 18); if (Q(e * p) > m) fail(string("print:") + w, "printed " + t + " for " + S(x)); }
struct SW {
  Src& s; ap_scalar_t* sc[3]; MS ms[3]; ap_interval_t* iv[3]; MI mi[3]; ap_coeff_t* co[3]; MC mc[3];
  SW(Src& s_) : s(s_) { POOL.clear(); for (int i = 0; i < 3; i++) { sc[i] = ap_scalar_alloc(); ms[i].v = X(0); iv[i] = ap_interval_alloc(); mi[i].v = I(Q(0)); mc[i].itv = s.coin(); co[i] = ap_coeff_alloc(mc[i].itv ? AP_COEFF_INTERVAL : AP_COEFF_SCALAR); mc[i].v = I(Q(0)); } }
  ~SW() { for (int i = 0; i < 3; i++) { ap_scalar_free(sc[i]); ap_interval_free(iv[i]); ap_coeff_free(co[i]); } }
  void chk(const char* op) { // all registers hold what they should
    for (int i = 0; i < 3; i++) { X x = of_scalar(sc[i]); if (x != ms[i].v) fail(string(op) + ":value", string(op) + ": scalar " + SI(i) + " is " + S(x) + " instead of " + S(ms[i].v)); if (sc[i]->discr != ms[i].d) fail(string(op) + ":type", string(op) + ": the type of the scalar is wrong");
      I v = of_interval(iv[i]); if (!same(v, mi[i].v)) fail(string(op) + ":value", string(op) + ": interval " + SI(i) + " is " + S(v) + " instead of " + S(mi[i].v));
      if ((co[i]->discr == AP_COEFF_INTERVAL) != mc[i].itv) fail(string(op) + ":discr", string(op) + ": coefficient of the wrong type"); v = of_coeff(co[i]); if (!same(v, mc[i].v)) fail(string(op) + ":value", string(op) + ": coefficient " + SI(i) + " is " + S(v) + " instead of " + S(mc[i].v)); } }
  // one of the ways to set a scalar
  void set_scalar_op() {
    int i = s.draw(3); int k = s.draw(9); TR("scalar set " << k); crumb("scalar-set");
    switch (k) {
    case 0: { int j = s.draw(3); ap_scalar_set(sc[i], sc[j]); ms[i] = ms[j]; chk("ap_scalar_set"); break; }
    case 1: { X x = gen_x(s); RawQ q(x); ap_scalar_set_mpq(sc[i], q.q); ms[i] = {x, AP_SCALAR_MPQ}; chk("ap_scalar_set_mpq"); break; }
    case 2: { long v = s.chance(1, 4) ? (s.coin() ? LONG_MAX : LONG_MIN) : s.range(-100, 100); ap_scalar_set_int(sc[i], v); ms[i] = {X(Q(v)), AP_SCALAR_MPQ}; chk("ap_scalar_set_int"); break; }
    case 3: { long v = s.range(-60, 60); unsigned long d = s.range(1, 40); ap_scalar_set_frac(sc[i], v, d); Q q(v, d); q.canonicalize(); ms[i] = {X(q), AP_SCALAR_MPQ}; chk("ap_scalar_set_frac"); break; }
    case 4: { double d; X x = neard(d, gen_x(s)); ap_scalar_set_double(sc[i], d); ms[i] = {x, AP_SCALAR_DOUBLE}; chk("ap_scalar_set_double"); break; }
    case 5: { Mpfr m(s.range(2, 130)); X x = near(m.m, gen_x(s)); ap_scalar_set_mpfr(sc[i], m.m); ms[i] = {x, AP_SCALAR_MPFR}; chk("ap_scalar_set_mpfr"); break; }
    case 6: { int g = s.range(-1, 1); ap_scalar_set_infty(sc[i], g); ms[i].v = g ? (g > 0 ? X::pinf() : X::minf()) : X(0); chk("ap_scalar_set_infty"); break; }
    case 7: { int j = s.draw(3); ap_scalar_t* n = nullptr; int h = s.draw(4); ap_scalar_free(sc[i]); if (h == 0) { if (j == i) j = (i + 1) % 3; n = ap_scalar_alloc_set(sc[j]); ms[i] = ms[j]; } else if (h == 1) { X x = gen_x(s); RawQ q(x); n = ap_scalar_alloc_set_mpq(q.q); ms[i] = {x, AP_SCALAR_MPQ}; } else if (h == 2) { double d; X x = neard(d, gen_x(s)); n = ap_scalar_alloc_set_double(d); ms[i] = {x, AP_SCALAR_DOUBLE}; } else { Mpfr m(s.range(2, 130)); X x = near(m.m, gen_x(s)); n = ap_scalar_alloc_set_mpfr(m.m); ms[i] = {x, AP_SCALAR_MPFR}; } sc[i] = n; chk("ap_scalar_alloc_set"); break; }
    case 8: { int j = s.draw(3); ap_scalar_swap(sc[i], sc[j]); std::swap(ms[i], ms[j]); chk("ap_scalar_swap"); break; }
    } }
  void scalar_arith() {
    int i = s.draw(3), j = s.draw(3); 
    if (s.coin()) { TR("neg"); crumb("neg"); ap_scalar_neg(sc[i], sc[j]); X x = neg(ms[j].v); ms[i] = {x, ms[j].d}; chk("ap_scalar_neg"); return; }
    if (ms[j].v.fin() && ms[j].v.v == 0) return; TR("inv " << S(ms[j].v)); crumb("inv"); MS o = ms[j]; int pr = o.d == AP_SCALAR_MPFR ? mpfr_get_prec(sc[j]->val.mpfr) : 0; ap_scalar_inv(sc[i], sc[j]); X x = o.v.inf ? X(0) : X(Q(1 / o.v.v)); X g = of_scalar(sc[i]);
    if (o.d == AP_SCALAR_MPQ) { if (g != x) fail("inv", "the inverse of " + S(o.v) + " is " + S(g)); }
    else { if (g.inf && !(o.v.fin() && x.fin() && abs(x.v) > Q(mpz_class(1) << 1000))) fail("inv", "the inverse of " + S(o.v) + " is " + S(g)); if (g.fin()) { Q e = abs(Q(g.v - x.v)), m = abs(x.v); int b = o.d == AP_SCALAR_DOUBLE ? 52 : pr - 1; mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 2, b); if (Q(e * p) > m && !(o.d == AP_SCALAR_DOUBLE && e < Q(1, mpz_class(1) << 1060))) fail("inv", "the inverse of " + S(o.v) + " is " + S(g)); } }
    ms[i] = {g, o.d}; chk("ap_scalar_inv"); }
  void scalar_query() {
    int i = s.draw(3), j = s.draw(3); const X &a = ms[i].v, &b = ms[j].v; ap_scalar_t *p = sc[i], *q = sc[j]; TR("scalar query " << S(a) << " " << S(b)); crumb("scalar-query"); int c = ap_scalar_cmp(p, q);
    if (sg(c) != cmp(a, b)) fail("ap_scalar_cmp", "compares " + S(a) + " and " + S(b) + " as " + SI(c)); if (c < -1 || c > 1) fail("ap_scalar_cmp:range", "comparison of " + S(a) + " and " + S(b) + " gives " + SI(c) + ", not one of -1, 0, 1");
    if (ap_scalar_equal(p, q) != (a == b)) fail("ap_scalar_equal", "wrong answer on " + S(a) + " and " + S(b)); if (ap_scalar_sgn(p) != sgx(a)) fail("ap_scalar_sgn", "wrong sign of " + S(a)); if (ap_scalar_infty(p) != a.inf) fail("ap_scalar_infty", "wrong answer on " + S(a));
    int k = s.chance(1, 3) ? (s.coin() ? INT_MAX : INT_MIN) : a.fin() && abs(a.v) < 1000000 && s.coin() ? (int)qtrunc(a.v).get_si() : s.range(-5, 5); c = ap_scalar_cmp_int(p, k); if (sg(c) != cmp(a, X(Q(k)))) fail("ap_scalar_cmp_int", "compares " + S(a) + " and " + SI(k) + " as " + SI(c)); if (c < -1 || c > 1) fail("ap_scalar_cmp_int:range", "comparison of " + S(a) + " and " + SI(k) + " gives " + SI(c)); if (ap_scalar_equal_int(p, k) != (a == X(Q(k)))) fail("ap_scalar_equal_int", "wrong answer on " + S(a) + " and " + SI(k));
    if (a == b && ap_scalar_hash(p) != ap_scalar_hash(q)) fail("ap_scalar_hash", "equal scalars " + S(a) + " with different hash codes"); else ap_scalar_hash(p); chk("scalar query"); if (ms[i].d != ms[j].d) label("scalar:mixed-compare"); }
  void convert() {
    int i = s.draw(3); const X& a = ms[i].v; mpfr_rnd_t r = RND[s.draw(4)]; int w = s.draw(3); TR("convert " << w << " " << S(a) << " rnd " << (int)r); crumb("convert");
    if (w == 0) { RawQ q(X(7)); int t = ap_mpq_set_scalar(q.q, sc[i], (mp_rnd_t)r); X g; if (mpz_sgn(mpq_denref(q.q)) == 0) g = mpz_sgn(mpq_numref(q.q)) > 0 ? X::pinf() : X::minf(); else { Q v; mpq_set(v.get_mpq_t(), q.q); Q v2 = v; v2.canonicalize(); if (mpz_cmp(mpq_denref(q.q), v2.get_den_mpz_t())) fail("ap_mpq_set_scalar:canonical", "not canonical"); g = X(v2); } if (g != a || t) fail("ap_mpq_set_scalar", S(a) + " converted to " + S(g) + " with return value " + SI(t)); }
    else if (w == 1) { double k = 3; int t = ap_double_set_scalar(&k, sc[i], (mp_rnd_t)r); if (std::isnan(k)) fail("ap_double_set_scalar", S(a) + " converted to NaN"); X g = std::isinf(k) ? (k > 0 ? X::pinf() : X::minf()) : X(q_of_double(k));
      if (sg(t) != cmp(g, a)) fail("ap_double_set_scalar:return", S(a) + " converted to " + S(g) + " with return value " + SI(t));
      if (a.inf) { if (g != a) fail("ap_double_set_scalar", S(a) + " converted to " + S(g)); }
      else { double lo = k, hi = k; bool up = r == MPFR_RNDU || (r == MPFR_RNDZ && sgn(a.v) < 0), dn = r == MPFR_RNDD || (r == MPFR_RNDZ && sgn(a.v) > 0); (void)lo; (void)hi; auto xd = [](double d) { return std::isinf(d) ? (d > 0 ? X::pinf() : X::minf()) : X(q_of_double(d)); };
        if (up && (g < a || (g != a && a <= xd(nextafter(k, -INFINITY))))) fail("ap_double_set_scalar:up", S(a) + " converted upwards to " + S(g)); if (dn && (a < g || (g != a && xd(nextafter(k, INFINITY)) <= a))) fail("ap_double_set_scalar:down", S(a) + " converted downwards to " + S(g));
        if (r == MPFR_RNDN && g.fin() && g != a && abs(a.v) > Q(1, mpz_class(1) << 1000)) { Q e = abs(Q(g.v - a.v)); for (double d : {nextafter(k, -INFINITY), nextafter(k, INFINITY)}) if (std::isfinite(d) && abs(Q(q_of_double(d) - a.v)) < e) fail("ap_double_set_scalar:nearest", S(a) + " converted to " + S(g) + " which is not the nearest"); } label(g == a ? "convert:exact" : "convert:rounded"); } }
    else { int p = s.range(2, 120); Mpfr m(p), o(p); mpfr_set_ui(m.m, 5, MPFR_RNDN); int t = ap_mpfr_set_scalar(m.m, sc[i], (mp_rnd_t)r); if (mpfr_get_prec(m.m) != p) fail("ap_mpfr_set_scalar:prec", "the precision was changed"); RawQ q(a); int u; if (a.inf) { mpfr_set_inf(o.m, a.inf); u = 0; } else u = mpfr_set_q(o.m, q.q, r); if (mpfr_cmp(m.m, o.m) || sg(t) != sg(u)) fail("ap_mpfr_set_scalar", S(a) + " wrongly converted at precision " + SI(p)); }
    chk("convert"); }
  void set_interval_op() {
    int i = s.draw(3); int k = s.draw(11); TR("interval set " << k); crumb("interval-set"); I v = gen_itv(s, NC2()); if (s.chance(1, 10)) std::swap(v.lo, v.hi); if (v.lo.inf > 0 || v.hi.inf < 0) v = I(Q(0));
    switch (k) {
    case 0: { int j = s.draw(3); ap_interval_set(iv[i], iv[j]); mi[i] = mi[j]; break; }
    case 1: { int a = s.draw(3), b = s.draw(3); ap_interval_set_scalar(iv[i], sc[a], sc[b]); mi[i].v = I(ms[a].v, ms[b].v); break; }
    case 2: { RawQ a(v.lo), b(v.hi); ap_interval_set_mpq(iv[i], a.q, b.q); mi[i].v = v; break; }
    case 3: { int a = s.range(-50, 50), b = s.range(-50, 50); ap_interval_set_int(iv[i], a, b); mi[i].v = I(X(Q(a)), X(Q(b))); break; }
    case 4: { int a = s.range(-50, 50), b = s.range(1, 9), c = s.range(-50, 50), d = s.range(1, 9); ap_interval_set_frac(iv[i], a, b, c, d); Q p(a, b), q(c, d); p.canonicalize(); q.canonicalize(); mi[i].v = I(X(p), X(q)); break; }
    case 5: { double a, b; X x = neard(a, v.lo), y = neard(b, v.hi); ap_interval_set_double(iv[i], a, b); mi[i].v = I(x, y); break; }
    case 6: { Mpfr a(s.range(2, 120)), b(s.range(2, 120)); X x = near(a.m, v.lo), y = near(b.m, v.hi); ap_interval_set_mpfr(iv[i], a.m, b.m); mi[i].v = I(x, y); break; }
    case 7: ap_interval_set_top(iv[i]); mi[i].v = I::top(); break;
    case 8: ap_interval_set_bottom(iv[i]); mi[i].v = I(X(1), X(Q(-1))); break;
    case 9: { int j = s.draw(3); ap_interval_t* n = ap_interval_alloc_set(iv[j]); ap_interval_free(iv[i]); iv[i] = n; mi[i] = mi[j]; if (j == i) break; break; }
    case 10: { int j = s.draw(3); ap_interval_swap(iv[i], iv[j]); std::swap(mi[i], mi[j]); break; }
    } chk("interval set"); }
  void interval_ops() {
    int i = s.draw(3), j = s.draw(3); TR("interval ops " << S(mi[i].v) << " " << S(mi[j].v)); crumb("interval-ops"); if (s.chance(1, 4)) { I v = ineg(mi[j].v); ap_interval_neg(iv[i], iv[j]); mi[i].v = v; chk("ap_interval_neg"); return; }
    const I &a = mi[i].v, &b = mi[j].v; ap_interval_t *p = iv[i], *q = iv[j]; bool ba = bot(a), bb = bot(b); string ab = S(a) + " and " + S(b);
    if (ap_interval_is_bottom(p) != ba) fail("ap_interval_is_bottom", "wrong answer on " + S(a)); if (ap_interval_is_top(p) != (a.lo.inf < 0 && a.hi.inf > 0)) fail("ap_interval_is_top", "wrong answer on " + S(a));
    if (ap_interval_is_leq(p, q) != (ba || (!bb && b.lo <= a.lo && a.hi <= b.hi))) fail("ap_interval_is_leq", "wrong answer on " + ab); bool eq = (ba && bb) || same(a, b); if (ap_interval_equal(p, q) != eq) fail("ap_interval_equal", "wrong answer on " + ab); if (!ba && !bb && ap_interval_cmp(p, q) != icmp(a, b)) fail("ap_interval_cmp", "comparison of " + ab + " gives " + SI(ap_interval_cmp(p, q)));
    int k = s.range(-3, 3); if (ap_interval_equal_int(p, k) != same(a, I(Q(k)))) fail("ap_interval_equal_int", "wrong answer on " + S(a) + " and " + SI(k)); if (eq && ap_interval_hash(p) != ap_interval_hash(q)) fail("ap_interval_hash", "equal intervals " + ab + " with different hash codes"); chk("interval query"); }
  void set_coeff_op() {
    int i = s.draw(3); int k = s.draw(16); TR("coeff set " << k); crumb("coeff-set"); I v = gen_itv(s, NC2()); X x = gen_x(s); auto put = [&](bool itv, const I& w) { mc[i].itv = itv; mc[i].v = w; };
    switch (k) {
    case 0: { int j = s.draw(3); ap_coeff_set(co[i], co[j]); mc[i] = mc[j]; break; }
    case 1: { int j = s.draw(3); ap_coeff_set_scalar(co[i], sc[j]); put(false, I(ms[j].v, ms[j].v)); break; }
    case 2: { RawQ q(x); ap_coeff_set_scalar_mpq(co[i], q.q); put(false, I(x, x)); break; }
    case 3: { int a = s.range(-50, 50); ap_coeff_set_scalar_int(co[i], a); put(false, I(Q(a))); break; }
    case 4: { int a = s.range(-50, 50), b = s.range(1, 9); ap_coeff_set_scalar_frac(co[i], a, b); Q q(a, b); q.canonicalize(); put(false, I(q)); break; }
    case 5: { double d; X y = neard(d, x); ap_coeff_set_scalar_double(co[i], d); put(false, I(y, y)); break; }
    case 6: { Mpfr m(s.range(2, 120)); X y = near(m.m, x); ap_coeff_set_scalar_mpfr(co[i], m.m); put(false, I(y, y)); break; }
    case 7: { int j = s.draw(3); ap_coeff_set_interval(co[i], iv[j]); put(true, mi[j].v); break; }
    case 8: { int a = s.draw(3), b = s.draw(3); ap_coeff_set_interval_scalar(co[i], sc[a], sc[b]); put(true, I(ms[a].v, ms[b].v)); break; }
    case 9: { RawQ a(v.lo), b(v.hi); ap_coeff_set_interval_mpq(co[i], a.q, b.q); put(true, v); break; }
    case 10: { int a = s.range(-50, 50), b = s.range(-50, 50); ap_coeff_set_interval_int(co[i], a, b); put(true, I(X(Q(a)), X(Q(b)))); break; }
    case 11: { int a = s.range(-50, 50), b = s.range(1, 9), c = s.range(-50, 50), d = s.range(1, 9); ap_coeff_set_interval_frac(co[i], a, b, c, d); Q p(a, b), q(c, d); p.canonicalize(); q.canonicalize(); put(true, I(X(p), X(q))); break; }
    case 12: { double a, b; X y = neard(a, v.lo), z = neard(b, v.hi); ap_coeff_set_interval_double(co[i], a, b); put(true, I(y, z)); break; }
    case 13: ap_coeff_set_interval_top(co[i]); put(true, I::top()); break;
    case 14: { Mpfr a(s.range(2, 120)), b(s.range(2, 120)); X y = near(a.m, v.lo), z = near(b.m, v.hi); ap_coeff_set_interval_mpfr(co[i], a.m, b.m); put(true, I(y, z)); break; }
    case 15: { int j = s.draw(3), h = s.draw(3); ap_coeff_t* n; MC m; if (h == 0) { n = ap_coeff_alloc_set(co[j]); m = mc[j]; } else if (h == 1) { n = ap_coeff_alloc_set_scalar(sc[j]); m.itv = false; m.v = I(ms[j].v, ms[j].v); } else { n = ap_coeff_alloc_set_interval(iv[j]); m.itv = true; m.v = mi[j].v; } ap_coeff_free(co[i]); co[i] = n; mc[i] = m; break; }
    } chk("coeff set"); }
  void coeff_ops() {
    int i = s.draw(3), j = s.draw(3); TR("coeff ops " << S(mc[i].v) << " " << S(mc[j].v)); crumb("coeff-ops"); int w = s.draw(6);
    if (w == 5) { MC m = mc[j]; m.v = ineg(m.v); ap_coeff_neg(co[i], co[j]); mc[i] = m; chk("ap_coeff_neg"); return; }
    if (w == 4) { ap_coeff_reduce(co[i]); if (mc[i].itv && mc[i].v.lo == mc[i].v.hi) mc[i].itv = false; chk("ap_coeff_reduce"); return; }
    if (w == 3) { ap_coeff_swap(co[i], co[j]); std::swap(mc[i], mc[j]); chk("ap_coeff_swap"); return; }
    const MC &a = mc[i], &b = mc[j]; string ab = S(a.v) + " and " + S(b.v); bool ba = bot(a.v), bb = bot(b.v); bool eq = a.itv == b.itv && (same(a.v, b.v) || (ba && bb));
    if (!ba && !bb && (a.itv != b.itv || a.itv ? ap_coeff_cmp(co[i], co[j]) != ccmp(a, b) : sg(ap_coeff_cmp(co[i], co[j])) != ccmp(a, b))) fail("ap_coeff_cmp", "comparison of " + ab + " gives " + SI(ap_coeff_cmp(co[i], co[j])) + " instead of " + SI(ccmp(a, b))); if (ap_coeff_equal(co[i], co[j]) != eq) fail("ap_coeff_equal", "wrong answer on " + ab);
    int k = s.range(-3, 3); bool z = same(a.v, I(Q(0))); if (ap_coeff_zero(co[i]) != z) fail("ap_coeff_zero", "wrong answer on " + S(a.v)); if (ap_coeff_equal_int(co[i], k) != same(a.v, I(Q(k)))) fail("ap_coeff_equal_int", "wrong answer on " + S(a.v) + " and " + SI(k)); if (eq && ap_coeff_hash(co[i]) != ap_coeff_hash(co[j])) fail("ap_coeff_hash", "equal coefficients " + ab + " with different hash codes"); chk("coeff query"); }
  void print() {
    int i = s.draw(3); TR("print"); crumb("print"); string t = printed([&](FILE* f) { ap_scalar_fprint(f, sc[i]); }); chk_num(t, ms[i].v, ms[i].d == AP_SCALAR_MPQ, "scalar"); t = printed([&](FILE* f) { ap_interval_fprint(f, iv[i]); }); size_t c = t.find(','); if (t.size() < 5 || t[0] != '[' || t.back() != ']' || c == string::npos) fail("print:interval", "printed " + t); chk_num(t.substr(1, c - 1), mi[i].v.lo, iv[i]->inf->discr == AP_SCALAR_MPQ, "interval"); chk_num(t.substr(c + 1, t.size() - c - 2), mi[i].v.hi, iv[i]->sup->discr == AP_SCALAR_MPQ, "interval");
    string u = printed([&](FILE* f) { ap_coeff_fprint(f, co[i]); }), v = printed([&](FILE* f) { if (mc[i].itv) ap_interval_fprint(f, co[i]->val.interval); else ap_scalar_fprint(f, co[i]->val.scalar); }); if (u != v) fail("print:coeff", "printed " + u + " instead of " + v); chk("print"); }
};
static void scalar_case(Src& s) { SW w(s); int n = s.range(4, 30); s.nontrivial = n >= 8; for (int i = 0; i < n; i++) switch (s.weighted({5, 3, 4, 4, 4, 4, 5, 4, 1})) { case 0: w.set_scalar_op(); break; case 1: w.scalar_arith(); break; case 2: w.scalar_query(); break; case 3: w.convert(); break; case 4: w.set_interval_op(); break; case 5: w.interval_ops(); break; case 6: w.set_coeff_op(); break; case 7: w.coeff_ops(); break; case 8: w.print(); break; } }

// ================================================================ linear expressions
// model: coefficient (with its kind) per dimension; absent = scalar 0
struct ML { bool dense = false; size_t size = 0; std::map<unsigned, MC> c; MC k; };
static bool zero(const MC& c) { return same(c.v, I(Q(0))); }
static MC red(MC c) { if (c.itv && c.v.lo == c.v.hi) c.itv = false; return c; }
static string S(const MC& c) { return c.itv ? S(c.v) : S(c.v.lo); }
static string S(const ML& l) { string r = l.dense ? "dense:" : "sparse:"; for (auto& p : l.c) if (!zero(p.second)) r += S(p.second) + "*x" + SI(p.first) + " + "; return r + S(l.k); }
static MC get(const ML& l, unsigned d) { auto i = l.c.find(d); if (i == l.c.end()) { MC z; z.v = I(Q(0)); return z; } return i->second; }
static bool leq_dims(const ML& a, const ML& b, std::set<unsigned>& ds) { for (auto& p : a.c) ds.insert(p.first); for (auto& p : b.c) ds.insert(p.first); return true; }
static bool mceq(const MC& a, const MC& b) { MC x = red(a), y = red(b); return x.itv == y.itv && (same(x.v, y.v) || (bot(x.v) && bot(y.v))); }
static MC gen_mc(Src& s, bool itvok = true) { MC c; c.itv = itvok && s.chance(1, 4); NumCfg n; n.level = s.chance(1, 6) ? 2 : 1; if (c.itv) { c.v = gen_itv(s, n); if (s.chance(1, 5)) c.v = I(c.v.lo.fin() ? c.v.lo : X(1), c.v.lo.fin() ? c.v.lo : X(1)); } else c.v = I(s.chance(1, 6) ? Q(0) : gen_q(s, n)); return c; }
static void put_coeff(Src& s, ap_coeff_t* c, const MC& m) { int k = gen_kind(s); if (m.itv) { ap_coeff_reinit(c, AP_COEFF_INTERVAL, AP_SCALAR_DOUBLE); set_scalar(c->val.interval->inf, m.v.lo, k); set_scalar(c->val.interval->sup, m.v.hi, gen_kind(s)); } else { ap_coeff_reinit(c, AP_COEFF_SCALAR, AP_SCALAR_DOUBLE); set_scalar(c->val.scalar, m.v.lo, k); } }
static MC of_mc(const ap_coeff_t* c) { MC m; m.itv = c->discr == AP_COEFF_INTERVAL; m.v = of_coeff(c); return m; }
struct CH { ap_coeff_t* c; CH(Src& s, const MC& m) { c = ap_coeff_alloc(AP_COEFF_SCALAR); put_coeff(s, c, m); } ~CH() { ap_coeff_free(c); } };
// printed linear expression: terms "c*xN" joined by + or -, constant last
struct Parser { string t; size_t i = 0; Parser(const string& x) : t(x) {} void sp() { while (i < t.size() && t[i] == ' ') i++; } bool eat(char c) { sp(); if (i < t.size() && t[i] == c) { i++; return true; } return false; } [[noreturn]] void bad(const char* w) { fail(string("print:") + w, "cannot read '" + t + "' at " + SI(i)); }
  X num(const char* w) { sp(); size_t b = i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; if (t.compare(i, 2, "oo") == 0) { i += 2; return t[b] == '-' ? X::minf() : X::pinf(); } if (i >= t.size() || !isdigit(t[i])) bad(w); while (i < t.size() && (isdigit(t[i]) || t[i] == '.' || t[i] == '/' || ((t[i] == 'e' || t[i] == 'E')) || ((t[i] == '-' || t[i] == '+') && (t[i - 1] == 'e' || t[i - 1] == 'E')))) i++; return parse_num(t.substr(b, i - b)); }
  MC coeff(const char* w) { MC c; if (eat('[')) { c.itv = true; c.v.lo = num(w); if (!eat(',')) bad(w); c.v.hi = num(w); if (!eat(']')) bad(w); } else { X x = num(w); c.v = I(x, x); } return c; } };
static bool close(const X& a, const X& b) { if (a == b) return true; if (a.inf || b.inf) return false; Q e = abs(Q(a.v - b.v)); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, 18); return Q(e * p) <= abs(b.v); }
static bool close(const I& a, const I& b) { return close(a.lo, b.lo) && close(a.hi, b.hi); }
static void parse_lin(Parser& p, std::map<unsigned, I>& c, I& k, bool names) {
  k = I(Q(0)); bool first = true; while (true) { p.sp(); int sign = 1; if (!first) { if (p.eat('+')) sign = 1; else if (p.eat('-')) sign = -1; else return; p.sp(); } else if (p.i < p.t.size() && p.t[p.i] == '-' && p.i + 1 < p.t.size() && (p.t[p.i + 1] == 'x' || p.t[p.i + 1] == 'v')) { p.i++; sign = -1; }
    first = false; I v = I(Q(1)); p.sp(); bool var = false; if (p.i < p.t.size() && (p.t[p.i] == 'x' || p.t[p.i] == 'v')) var = true; else { v = p.coeff("linexpr").v; if (p.i < p.t.size() && p.t[p.i] == '*') { p.i++; var = true; } else if (p.i < p.t.size() && (p.t[p.i] == 'x' || p.t[p.i] == 'v')) var = true; }
    if (sign < 0) v = ineg(v); if (var) { char w = names ? 'v' : 'x'; if (p.i >= p.t.size() || p.t[p.i] != w) p.bad("linexpr"); p.i++; char* e; unsigned d = strtoul(p.t.c_str() + p.i, &e, 10); p.i = e - p.t.c_str(); if (names) d = 1000 - d; if (c.count(d)) p.bad("linexpr"); c[d] = v; } else { k = v; return; } } }
static vector<string> NAMES; static vector<char*> NAMEP;
static char** names(size_t n) { NAMES.clear(); NAMEP.clear(); for (size_t i = 0; i < n; i++) NAMES.push_back("v" + SI(1000 - i)); for (auto& x : NAMES) NAMEP.push_back((char*)x.c_str()); return NAMEP.data(); }
static const unsigned MAXD = 40;
struct LW {
  Src& s; vector<ap_linexpr0_t*> e; vector<ML> m;
  LW(Src& s_) : s(s_) { int n = s.range(1, 2); for (int i = 0; i < n; i++) alloc(); }
  ~LW() { for (auto x : e) ap_linexpr0_free(x); }
  void chk(const char* op) { for (size_t r = 0; r < e.size(); r++) chk1(op, e[r], m[r]); }
  void chk1(const char* op, ap_linexpr0_t* x, const ML& l) {
    if ((x->discr == AP_LINEXPR_DENSE) != l.dense) fail(string(op) + ":repr", string(op) + ": wrong representation"); if (l.dense && x->size != l.size) fail(string(op) + ":size", string(op) + ": size " + SI(x->size) + " instead of " + SI(l.size));
    std::map<unsigned, MC> c; bool end = false; long last = -1; for (size_t i = 0; i < x->size; i++) { unsigned d; ap_coeff_t* k; if (l.dense) { d = i; k = &x->p.coeff[i]; } else { d = x->p.linterm[i].dim; k = &x->p.linterm[i].coeff; if (d == AP_DIM_MAX) { end = true; continue; } if (end || (long)d <= last) fail(string(op) + ":order", string(op) + ": the terms of the sparse expression are not sorted"); last = d; } c[d] = of_mc(k); }
    for (auto& p : c) if (!zero(p.second) && !mceq(p.second, get(l, p.first))) fail(string(op) + ":coeff", string(op) + ": coefficient of x" + SI(p.first) + " is " + S(p.second) + " instead of " + S(get(l, p.first)) + " in " + S(l)); for (auto& p : l.c) if (!zero(p.second) && !c.count(p.first)) fail(string(op) + ":coeff", string(op) + ": x" + SI(p.first) + " is missing in " + S(l)); MC k = of_mc(&x->cst); if (!mceq(k, l.k)) fail(string(op) + ":cst", string(op) + ": constant " + S(k) + " instead of " + S(l.k)); }
  unsigned gen_dim(const ML& l) { if (l.dense) return s.draw(l.size + (s.chance(1, 10) ? 2 : 0) + (l.size == 0)); return s.chance(1, 6) ? s.draw(MAXD) : s.draw(8); }
  int pick() { return s.draw(e.size()); }
  void push(ap_linexpr0_t* x, const ML& l) { if (e.size() < 4) { e.push_back(x); m.push_back(l); } else { int i = pick(); ap_linexpr0_free(e[i]); e[i] = x; m[i] = l; } }
  void alloc() { ML l; l.dense = s.coin(); l.size = s.draw(s.chance(1, 8) ? 24 : 6); l.k.v = I(Q(0)); TR("alloc " << (l.dense ? "dense" : "sparse") << " " << l.size); crumb("alloc"); push(ap_linexpr0_alloc(l.dense ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, l.size), l); chk("alloc"); }
  // value-to-set, through one of the many interfaces
  void set() {
    int r = pick(); ML& l = m[r]; ap_linexpr0_t* x = e[r]; bool cst = s.chance(1, 5); unsigned d = gen_dim(l); bool oob = !cst && l.dense && d >= l.size; int k = s.draw(22); MC c = gen_mc(s); bool ret = false; bool chkret = true; X a = c.v.lo, b = c.v.hi; if (k == 4 || k == 7 || k == 13 || k == 14) if (a.inf) a = X(2); TR("set reg " << r << " way " << k << (cst ? " cst" : " x" + SI(d)) << " := " << S(c)); crumb("set");
    int i1 = s.range(-30, 30), i2 = i1 + s.range(0, 9), d1 = s.range(1, 7), d2 = s.range(1, 7); double f1, f2; Mpfr m1(80), m2(80);
    auto frac = [](int p, int q) { Q r(p, q); r.canonicalize(); return r; }; auto sc = [&](const X& v) { MC c; c.v = I(v, v); return c; }; auto it = [&](const X& u, const X& v) { MC c; c.itv = true; c.v = I(u, v); return c; }; bool lst = s.coin(); 
    #define DO(TAGC, TAGX, INLC, INLX, ...) do { if (lst) { ret = cst ? ap_linexpr0_set_list(x, TAGC, __VA_ARGS__, AP_END) : ap_linexpr0_set_list(x, TAGX, __VA_ARGS__, d, AP_END); } else if (cst) { INLC(x, __VA_ARGS__); } else ret = INLX(x, d, __VA_ARGS__); } while (0)
    #define LST(TAGC, TAGX, ...) do { ret = cst ? ap_linexpr0_set_list(x, TAGC, __VA_ARGS__, AP_END) : ap_linexpr0_set_list(x, TAGX, __VA_ARGS__, d, AP_END); } while (0)
    switch (k) {
    case 0: case 1: case 2: case 3: { CH h(s, c); DO(AP_CST, AP_COEFF, ap_linexpr0_set_cst, ap_linexpr0_set_coeff, h.c); break; }
    case 4: { ScalarH h(a, gen_kind(s)); DO(AP_CST_S, AP_COEFF_S, ap_linexpr0_set_cst_scalar, ap_linexpr0_set_coeff_scalar, h.s); c = sc(a); break; }
    case 5: { DO(AP_CST_S_INT, AP_COEFF_S_INT, ap_linexpr0_set_cst_scalar_int, ap_linexpr0_set_coeff_scalar_int, i1); c = sc(X(Q(i1))); break; }
    case 6: { DO(AP_CST_S_FRAC, AP_COEFF_S_FRAC, ap_linexpr0_set_cst_scalar_frac, ap_linexpr0_set_coeff_scalar_frac, i1, d1); c = sc(X(frac(i1, d1))); break; }
    case 7: { X v = neard(f1, a); DO(AP_CST_S_DOUBLE, AP_COEFF_S_DOUBLE, ap_linexpr0_set_cst_scalar_double, ap_linexpr0_set_coeff_scalar_double, f1); c = sc(v); break; }
    case 8: { ap_interval_t* v = mk_interval(c.v, gen_kind(s), gen_kind(s)); if (lst) LST(AP_CST_I, AP_COEFF_I, v); else if (cst) ap_linexpr0_set_cst_interval(x, v); else ret = ap_linexpr0_set_coeffinterval(x, d, v); ap_interval_free(v); c.itv = true; break; }
    case 9: { ScalarH p(a, gen_kind(s)), q(b, gen_kind(s)); DO(AP_CST_I_SCALAR, AP_COEFF_I_SCALAR, ap_linexpr0_set_cst_interval_scalar, ap_linexpr0_set_coeff_interval_scalar, p.s, q.s); c = it(a, b); break; }
    case 10: { DO(AP_CST_I_INT, AP_COEFF_I_INT, ap_linexpr0_set_cst_interval_int, ap_linexpr0_set_coeff_interval_int, i1, i2); c = it(X(Q(i1)), X(Q(i2))); break; }
    case 11: { Q p = frac(i1, d1), q = frac(i2, d2); if (q < p) { std::swap(p, q); std::swap(i1, i2); std::swap(d1, d2); } DO(AP_CST_I_FRAC, AP_COEFF_I_FRAC, ap_linexpr0_set_cst_interval_frac, ap_linexpr0_set_coeff_interval_frac, i1, d1, i2, d2); c = it(X(p), X(q)); break; }
    case 12: { X p = neard(f1, a), q = neard(f2, b); DO(AP_CST_I_DOUBLE, AP_COEFF_I_DOUBLE, ap_linexpr0_set_cst_interval_double, ap_linexpr0_set_coeff_interval_double, f1, f2); c = it(p, q); break; }
    case 13: { RawQ q(a); LST(AP_CST_S_MPQ, AP_COEFF_S_MPQ, q.q); c = sc(a); break; }
    case 14: { X v = near(m1.m, a); LST(AP_CST_S_MPFR, AP_COEFF_S_MPFR, m1.m); c = sc(v); break; }
    case 15: { RawQ p(a), q(b); LST(AP_CST_I_MPQ, AP_COEFF_I_MPQ, p.q, q.q); c = it(a, b); break; }
    case 16: { X p = near(m1.m, a), q = near(m2.m, b); LST(AP_CST_I_MPFR, AP_COEFF_I_MPFR, m1.m, m2.m); c = it(p, q); break; }
    case 17: case 18: case 19: { if (cst) { put_coeff(s, ap_linexpr0_cstref(x), c); break; } ap_coeff_t* f = ap_linexpr0_coeffref(x, d); ret = f == nullptr; if (f) put_coeff(s, f, c); break; }
    case 20: { // several at once
      MC c2 = gen_mc(s, false); RawQ q(c2.v.lo); unsigned d3 = l.dense ? (l.size ? s.draw(l.size) : 0) : s.draw(10); if (l.dense && l.size == 0) { chkret = false; ret = ap_linexpr0_set_list(x, AP_CST_S_INT, i1, AP_END); if (ret) fail("set_list:return", "error reported"); l.k = sc(X(Q(i1))); chk("set_list"); return; }
      if (l.dense && d >= l.size) d = d3; cst = false; oob = false; ret = ap_linexpr0_set_list(x, AP_COEFF_S_INT, i1, d, AP_CST_S_FRAC, i2, d1, AP_COEFF_S_MPQ, q.q, d3, AP_COEFF_I_INT, i1, i2, d, AP_END); l.k = sc(X(frac(i2, d1))); l.c[d3] = c2; c = it(X(Q(i1)), X(Q(i2))); break; }
    case 21: { if (!cst) { MC o = get(l, d); CH h(s, gen_mc(s)); ret = ap_linexpr0_get_coeff(h.c, x, d); if (ret != oob) fail("get_coeff:return", "ap_linexpr0_get_coeff returned " + SI(ret)); if (!ret && !mceq(of_mc(h.c), o)) fail("get_coeff", "coefficient " + S(of_mc(h.c)) + " instead of " + S(o)); } else { CH h(s, gen_mc(s)); ap_linexpr0_get_cst(h.c, x); if (!mceq(of_mc(h.c), l.k)) fail("get_cst", "wrong constant"); } chk("get"); return; }
    }
    #undef DO
    #undef LST
    if (!cst && chkret && ret != oob) fail("set:return", "the setter (way " + SI(k) + ") returned " + SI(ret) + " for dimension " + SI(d)); if (cst && lst && ret) fail("set:return", "the setter of the constant (way " + SI(k) + ") reported an error"); if (oob) { chk("set out of bounds"); return; }
    if (cst) l.k = c; else l.c[d] = c; chk("set"); label(l.dense ? "set:dense" : "set:sparse"); }
  void realloc() { int r = pick(); ML& l = m[r]; size_t n; if (l.dense) { n = s.draw(10); for (auto i = l.c.begin(); i != l.c.end();) if (i->first >= n) i = l.c.erase(i); else ++i; l.size = n; } else { size_t u = 0; while (u < e[r]->size && e[r]->p.linterm[u].dim != AP_DIM_MAX) u++; n = u + s.draw(4); } TR("realloc reg " << r << " " << n); crumb("realloc"); ap_linexpr0_realloc(e[r], n); chk("realloc"); }
  void minimize() { int r = pick(); TR("minimize reg " << r); crumb("minimize"); ap_linexpr0_minimize(e[r]); chk("minimize"); size_t i; ap_dim_t d; ap_coeff_t* c; ap_linexpr0_ForeachLinterm(e[r], i, d, c) { MC x = of_mc(c); if (red(x).itv != x.itv) fail("minimize:reduced", "a coefficient is not reduced"); if (!m[r].dense && zero(x)) fail("minimize:zero", "a zero coefficient is left"); } }
  void copy() { int r = pick(); TR("copy reg " << r); crumb("copy"); ap_linexpr0_t* x = ap_linexpr0_copy(e[r]); ML l = m[r]; chk1("copy", x, l); push(x, l); chk("copy"); }
  void dims() {
    int r = pick(); bool in_place = s.coin(); ML l = m[r]; unsigned mx = 0; for (auto& p : l.c) mx = std::max(mx, p.first + 1); if (l.dense) mx = l.size;
    if (s.coin()) { size_t n = mx + s.draw(3); if (n > 60) return; unsigned k = s.range(1, 4), nint = s.draw(k + 1); vector<unsigned> pos; for (unsigned i = 0; i < k; i++) pos.push_back(s.draw(n + 1)); std::sort(pos.begin(), pos.end()); ap_dimchange_t* dc = ap_dimchange_alloc(nint, k - nint); for (unsigned i = 0; i < k; i++) dc->dim[i] = pos[i]; TR("add_dimensions reg " << r << (in_place ? " in place" : "")); crumb("add_dimensions");
      auto mv = [&](unsigned d) { unsigned c = 0; for (unsigned p : pos) if (p <= d) c++; return d + c; }; ML o = l; o.c.clear(); for (auto& p : l.c) o.c[mv(p.first)] = p.second; if (l.dense) { o.size = std::max((size_t)l.size, (size_t)pos.back()) + k; }
      if (in_place) { ap_linexpr0_add_dimensions_with(e[r], dc); if (o.dense && e[r]->size != o.size && e[r]->size >= l.size) o.size = e[r]->size; m[r] = o; } else { ap_linexpr0_t* x = ap_linexpr0_add_dimensions(e[r], dc); if (o.dense) o.size = x->size; chk1("add_dimensions", x, o); push(x, o); } ap_dimchange_free(dc); chk("add_dimensions"); }
    else { size_t n = l.dense ? l.size : mx + s.draw(3); ap_dimperm_t* p = ap_dimperm_alloc(n); for (size_t i = 0; i < n; i++) p->dim[i] = i; for (size_t i = 0; i + 1 < n; i++) std::swap(p->dim[i], p->dim[i + s.draw(n - i)]); ML o = l; o.c.clear(); for (auto& q : l.c) o.c[p->dim[q.first]] = q.second; TR("permute reg " << r << (in_place ? " in place" : "")); crumb("permute");
      if (in_place) { ap_linexpr0_permute_dimensions_with(e[r], p); m[r] = o; } else { ap_linexpr0_t* x = ap_linexpr0_permute_dimensions(e[r], p); chk1("permute", x, o); push(x, o); } ap_dimperm_free(p); chk("permute"); } }
  void query() {
    int r = pick(); const ML& l = m[r]; unsigned nint = s.draw(10); TR("query reg " << r << " intdim " << nint); crumb("query"); bool real = true, integer = true, itv = false; for (auto& p : l.c) { if (zero(p.second)) continue; if (p.first < nint) real = false; else integer = false; }
    if (ap_linexpr0_is_real(e[r], nint) != real) fail("is_real", "wrong answer on " + S(l)); if (ap_linexpr0_is_integer(e[r], nint) != integer) fail("is_integer", "wrong answer on " + S(l));
    bool kitv = false; { size_t i; ap_dim_t d; ap_coeff_t* c; ap_linexpr0_ForeachLinterm(e[r], i, d, c) if (c->discr == AP_COEFF_INTERVAL) itv = true; kitv = e[r]->cst.discr == AP_COEFF_INTERVAL; } ap_linexpr_type_t t = itv ? AP_LINEXPR_INTLINEAR : kitv ? AP_LINEXPR_QUASILINEAR : AP_LINEXPR_LINEAR;
    if (ap_linexpr0_type(e[r]) != t) fail("type", "wrong type of " + S(l)); if (ap_linexpr0_is_linear(e[r]) != (t == AP_LINEXPR_LINEAR)) fail("is_linear", "wrong answer on " + S(l)); if (ap_linexpr0_is_quasilinear(e[r]) != (t != AP_LINEXPR_INTLINEAR)) fail("is_quasilinear", "wrong answer on " + S(l)); label("type:" + SI(t));
    if (ap_linexpr0_size(e[r]) != e[r]->size) fail("size", "wrong size"); chk("query");
    // arrays
    ap_linexpr_type_t w = AP_LINEXPR_LINEAR; for (auto x : e) w = std::min(w, ap_linexpr0_type(x)); if (ap_linexpr0_array_type(e.data(), e.size()) != w) fail("array_type", "wrong type of an array"); if (ap_linexpr0_array_is_linear(e.data(), e.size()) != (w == AP_LINEXPR_LINEAR)) fail("array_is_linear", "wrong answer"); if (ap_linexpr0_array_is_quasilinear(e.data(), e.size()) != (w != AP_LINEXPR_INTLINEAR)) fail("array_is_quasilinear", "wrong answer"); }
  void compare() {
    int i = pick(), j = pick(); const ML &a = m[i], &b = m[j]; TR("compare " << S(a) << " | " << S(b)); crumb("compare"); std::set<unsigned> ds; leq_dims(a, b, ds); bool eq = mceq(a.k, b.k), emp = bot(a.k.v) || bot(b.k.v); int c = 0; for (unsigned d : ds) { MC x = red(get(a, d)), y = red(get(b, d)); if (!mceq(x, y)) eq = false; if (bot(x.v) || bot(y.v)) emp = true; if (c == 0) c = ccmp(x, y); } if (c == 0) c = ccmp(red(a.k), red(b.k));
    long h1 = ap_linexpr0_hash(e[i]), h2 = ap_linexpr0_hash(e[j]); chk("hash"); bool g = ap_linexpr0_equal(e[i], e[j]); if (g != eq) fail("equal", "ap_linexpr0_equal gives " + SI(g) + " on " + S(a) + " and " + S(b)); chk("equal"); if (eq && h1 != h2) fail("hash", "equal expressions with different hash codes: " + S(a) + " and " + S(b)); if (ap_linexpr0_hash(e[i]) != h1) fail("hash:stable", "the hash code changed");
    if (!emp) { int r = ap_linexpr0_compare(e[i], e[j]); if (r != c) fail("compare", "ap_linexpr0_compare gives " + SI(r) + " instead of " + SI(c) + " on " + S(a) + " and " + S(b)); chk("compare"); } label(eq ? "compare:equal" : "compare:different"); if (a.dense != b.dense) label("compare:mixed"); }
  void twin() { // the same expression in the other representation
    int r = pick(); ML l = m[r]; unsigned mx = 0; for (auto& p : l.c) mx = std::max(mx, p.first + 1); if (mx > 30) return; l.dense = !l.dense; l.size = l.dense ? mx + s.draw(3) : s.draw(3); TR("twin of reg " << r); ap_linexpr0_t* x = ap_linexpr0_alloc(l.dense ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, l.size); for (auto& p : l.c) if (!zero(p.second) || s.coin()) put_coeff(s, ap_linexpr0_coeffref(x, p.first), p.second); else if (l.dense) ; put_coeff(s, &x->cst, l.k); push(x, l); chk("twin"); }
  void print() {
    int r = pick(); const ML& l = m[r]; bool nm = s.coin(); unsigned mx = 0; for (auto& p : l.c) mx = std::max(mx, p.first + 1); mx = std::max((size_t)mx, l.dense ? l.size : 0); TR("print reg " << r); crumb("print"); char** nd = nm ? names(mx + 1) : nullptr; string t = printed([&](FILE* f) { ap_linexpr0_fprint(f, e[r], nd); }); chk("print");
    Parser p(t); std::map<unsigned, I> c; I k; parse_lin(p, c, k, nm); p.sp(); if (p.i != t.size()) p.bad("linexpr"); auto bad = [&]() { fail("print:linexpr", "printed '" + t + "' for " + S(l)); }; if (!close(k, l.k.v)) bad(); for (auto& q : l.c) { I v = c.count(q.first) ? c[q.first] : I(Q(0)); if (!close(v, q.second.v)) bad(); } for (auto& q : c) if (!same(q.second, I(Q(0))) && !l.c.count(q.first)) bad(); }
  void cons() {
    int r = pick(); const ML& l = m[r]; ap_constyp_t ty = gen_type(s, true); ap_scalar_t* md = nullptr; Q mod = 0; if (ty == AP_CONS_EQMOD) { mod = s.range(0, 4); md = ap_scalar_alloc(); set_scalar(md, X(mod), gen_kind(s)); } TR("constraint on reg " << r << " " << tyname(ty)); crumb("cons");
    ap_lincons0_t c0 = ap_lincons0_make(ty, ap_linexpr0_copy(e[r]), md), c = ap_lincons0_copy(&c0); chk1("lincons0_copy", c.linexpr0, l); if (c.constyp != ty || !c.scalar != !md || (md && of_scalar(c.scalar) != X(mod))) fail("lincons0_copy", "copy differs"); ap_lincons0_clear(&c0); if (c0.linexpr0 || c0.scalar) fail("lincons0_clear", "pointers not reset"); chk1("lincons0_copy", c.linexpr0, l);
    bool cst = true; for (auto& p : l.c) if (!zero(p.second)) cst = false; bool emp = bot(l.k.v); if (!emp) { bool sat = ap_lincons0_is_sat(&c), uns = ap_lincons0_is_unsat(&c); bool ms = cst && must_sat(l.k.v, ty, mod), un = cst && !may_sat(l.k.v, ty, mod); string d = S(l) + " " + tyname(ty); if (sat && !ms) fail("lincons0_is_sat", "true on " + d); if (uns && !un) fail("lincons0_is_unsat", "true on " + d); if (ty != AP_CONS_EQMOD && (sat != ms || uns != un)) fail("lincons0_is_sat:incomplete", "wrong answer on " + d); label(cst ? "cons:constant" : "cons"); }
    if (!emp) { string t = printed([&](FILE* f) { ap_lincons0_fprint(f, &c, nullptr); }), u = printed([&](FILE* f) { ap_linexpr0_fprint(f, e[r], nullptr); }); static const char* tn[] = {" = 0", " >= 0", " > 0", " = 0 mod ", " != 0"}; string w = u + tn[ty]; if (t.compare(0, w.size(), w)) fail("print:lincons", "printed '" + t + "' instead of '" + w + "'"); if (md) chk_num(t.substr(w.size()), X(mod), false, "modulo"); else if (t != w) fail("print:lincons", "printed '" + t + "' instead of '" + w + "'"); }
    // arrays: make, resize, dimension changes, type
    size_t n = s.draw(4); ap_lincons0_array_t a = ap_lincons0_array_make(n); if (a.size != n) fail("array_make", "wrong size"); for (size_t i = 0; i < n; i++) { if (a.p[i].linexpr0 || a.p[i].scalar) fail("array_make", "not initialised"); a.p[i] = ap_lincons0_make(AP_CONS_SUPEQ, ap_linexpr0_copy(e[(r + i) % e.size()]), nullptr); } size_t n2 = s.draw(5); ap_lincons0_array_resize(&a, n2); if (a.size != n2) fail("array_resize", "wrong size"); for (size_t i = 0; i < n2; i++) if (i < n) chk1("array_resize", a.p[i].linexpr0, m[(r + i) % e.size()]); else { if (a.p[i].linexpr0 || a.p[i].scalar) fail("array_resize", "not initialised"); a.p[i] = ap_lincons0_copy(&c); }
    ap_linexpr_type_t w = AP_LINEXPR_LINEAR; for (size_t i = 0; i < n2; i++) w = std::min(w, ap_linexpr0_type(a.p[i].linexpr0)); if (ap_lincons0_array_type(&a) != w) fail("lincons_array_type", "wrong type"); if (ap_lincons0_array_is_linear(&a) != (w == AP_LINEXPR_LINEAR)) fail("lincons_array_is_linear", "wrong answer"); if (ap_lincons0_array_is_quasilinear(&a) != (w != AP_LINEXPR_INTLINEAR)) fail("lincons_array_is_quasilinear", "wrong answer");
    ap_dimchange_t* dc = ap_dimchange_alloc(0, 1); dc->dim[0] = 0; ap_lincons0_array_t b = ap_lincons0_array_add_dimensions(&a, dc); ap_lincons0_array_add_dimensions_with(&a, dc); for (size_t i = 0; i < n2; i++) { ML o = i < n ? m[(r + i) % e.size()] : l; ML q = o; q.c.clear(); for (auto& p : o.c) q.c[p.first + 1] = p.second; q.size++; chk1("array_add_dimensions", a.p[i].linexpr0, q); chk1("array_add_dimensions", b.p[i].linexpr0, q); if (b.p[i].constyp != a.p[i].constyp || !b.p[i].scalar != !a.p[i].scalar) fail("array_add_dimensions", "the type of a constraint changed"); } ap_dimchange_free(dc); ap_lincons0_array_clear(&b); ap_lincons0_array_clear(&a); ap_lincons0_clear(&c); chk("cons"); }
};
// ================================================================ trees
static bool texact(const T& t) { return t->op == AP_TEXPR_NEG || t->op == AP_TEXPR_MOD || t->ty == AP_RTYPE_REAL; }
static bool t_cstonly(const T& t) { return !t_has(t, [](const TE& x) { return x.k == 1; }); }
static bool t_lin(const T& t) { if (t->k < 2) return true; switch (t->op) { case AP_TEXPR_NEG: return t_lin(t->a); case AP_TEXPR_CAST: return texact(t) && t_lin(t->a); case AP_TEXPR_ADD: case AP_TEXPR_SUB: return texact(t) && t_lin(t->a) && t_lin(t->b); case AP_TEXPR_MUL: return texact(t) && ((t_lin(t->a) && t_cstonly(t->b)) || (t_lin(t->b) && t_cstonly(t->a))); case AP_TEXPR_DIV: return texact(t) && t_lin(t->a) && t_cstonly(t->b); default: return false; } }
static bool t_poly(const T& t, bool frac) { if (t->k < 2) return true; switch (t->op) { case AP_TEXPR_NEG: return t_poly(t->a, frac); case AP_TEXPR_CAST: return texact(t) && t_poly(t->a, frac); case AP_TEXPR_ADD: case AP_TEXPR_SUB: case AP_TEXPR_MUL: return texact(t) && t_poly(t->a, frac) && t_poly(t->b, frac); case AP_TEXPR_DIV: return texact(t) && t_poly(t->a, frac) && (frac ? t_poly(t->b, frac) : t_cstonly(t->b)); case AP_TEXPR_POW: return texact(t) && t_poly(t->a, frac) && t_cstonly(t->b); default: return false; } }
static size_t t_depth(const T& t) { return t->k < 2 ? 0 : 1 + std::max(t_depth(t->a), t->b ? t_depth(t->b) : 0); }
static size_t t_size(const T& t) { return t->k < 2 ? 0 : 1 + t_size(t->a) + (t->b ? t_size(t->b) : 0); }
static void t_dims(const T& t, std::set<unsigned>& d) { if (t->k == 1) d.insert(t->dim); if (t->k == 2) { t_dims(t->a, d); if (t->b) t_dims(t->b, d); } }
static T t_map(const T& t, const std::function<T(const TE&)>& leaf) { if (t->k < 2) { T r = leaf(*t); return r ? r : t; } T n(new TE(*t)); n->a = t_map(t->a, leaf); if (t->b) n->b = t_map(t->b, leaf); return n; }
// does the tree denote exactly the model (structure, operators, rounding, constants)?
static bool t_is(ap_texpr0_t* e, const T& t) {
  if (!e) return false; if (t->k == 0) return e->discr == AP_TEXPR_CST && same(of_coeff(&e->val.cst), t->cst); if (t->k == 1) return e->discr == AP_TEXPR_DIM && e->val.dim == (ap_dim_t)t->dim;
  return e->discr == AP_TEXPR_NODE && e->val.node->op == t->op && e->val.node->type == t->ty && e->val.node->dir == t->dir && t_is(e->val.node->exprA, t->a) && (t->b ? t_is(e->val.node->exprB, t->b) : !e->val.node->exprB); }
static bool t_eq(const T& a, const T& b) { if (a->k != b->k) return false; if (a->k == 0) return same(a->cst, b->cst); if (a->k == 1) return a->dim == b->dim; return a->op == b->op && a->ty == b->ty && a->dir == b->dir && t_eq(a->a, b->a) && !a->b == !b->b && (!a->b || t_eq(a->b, b->b)); }
// reads a printed tree back: precedences as documented by the printer, binary operators associate to the left
static T p_tree(Parser& p, int prec, bool nm);
static void p_round(Parser& p, T& t) { if (p.i < p.t.size() && p.t[p.i] == '_') { p.i++; static const char* tn = " ifdlq"; const char* q = p.i < p.t.size() ? strchr(tn, p.t[p.i]) : nullptr; if (!q) p.bad("tree"); t->ty = (ap_texpr_rtype_t)(q - tn); p.i++; if (p.i >= p.t.size() || p.t[p.i] != ',') p.bad("tree"); p.i++; if (p.t.compare(p.i, 3, "+oo") == 0) { t->dir = AP_RDIR_UP; p.i += 3; } else if (p.t.compare(p.i, 3, "-oo") == 0) { t->dir = AP_RDIR_DOWN; p.i += 3; } else { char c = p.i < p.t.size() ? p.t[p.i] : 0; p.i++; if (c == 'n') t->dir = AP_RDIR_NEAREST; else if (c == '0') t->dir = AP_RDIR_ZERO; else if (c == '?') t->dir = AP_RDIR_RND; else p.bad("tree"); } } }
static T p_atom(Parser& p, bool nm) {
  p.sp(); T t(new TE); if (p.eat('(')) { T r = p_tree(p, 0, nm); if (!p.eat(')')) p.bad("tree"); return r; }
  auto un = [&](ap_texpr_op_t o, size_t len) { p.i += len; t->k = 2; t->op = o; t->ty = AP_RTYPE_REAL; t->dir = AP_RDIR_RND; p_round(p, t); t->a = p_atom(p, nm); return t; };
  if (p.t.compare(p.i, 4, "cast") == 0) return un(AP_TEXPR_CAST, 4); if (p.t.compare(p.i, 4, "sqrt") == 0) return un(AP_TEXPR_SQRT, 4); if (p.i < p.t.size() && p.t[p.i] == '-' && !(p.i + 1 < p.t.size() && (isdigit(p.t[p.i + 1]) || p.t[p.i + 1] == 'o'))) return un(AP_TEXPR_NEG, 1);
  if (p.i < p.t.size() && p.t[p.i] == (nm ? 'v' : 'x')) { p.i++; char* e; t->k = 1; t->dim = strtoul(p.t.c_str() + p.i, &e, 10); if (nm) t->dim = 1000 - t->dim; p.i = e - p.t.c_str(); return t; } t->k = 0; t->cst = p.coeff("tree").v; return t; }
static T p_tree(Parser& p, int prec, bool nm) {
  T l = p_atom(p, nm); while (true) { p.sp(); if (p.i >= p.t.size()) return l; static const char ops[] = "+-*/%^"; const char* q = strchr(ops, p.t[p.i]); if (!q) return l; int o = q - ops, pr = o < 2 ? 1 : o < 5 ? 2 : 3; if (pr <= prec) return l; p.i++; T n(new TE); n->k = 2; n->op = (ap_texpr_op_t)o; n->ty = AP_RTYPE_REAL; n->dir = AP_RDIR_RND; p_round(p, n); n->a = l; n->b = p_tree(p, pr, nm); l = n; } }
static bool t_close(const T& a, const T& b) { // b: the model; rounding of exact nodes is not printed
  if (a->k != b->k) return false; if (a->k == 0) return close(a->cst, b->cst); if (a->k == 1) return a->dim == b->dim; bool ex = texact(b); return a->op == b->op && (ex || (a->ty == b->ty && a->dir == b->dir)) && t_close(a->a, b->a) && !a->b == !b->b && (!a->b || t_close(a->b, b->b)); }

static T gen_t(Src& s, size_t n) { TECfg c; c.num.level = 1; c.flround = true; return gen_te(s, n, c, s.range(0, 4)); }
static void tree_ops(Src& s) {
  size_t n = s.range(1, 6); T t = gen_t(s, n); TR("tree " << S(t)); crumb("tree"); ap_texpr0_t* e = mk_te(t); auto bad = [&](const char* w) { fail(string("texpr:") + w, string(w) + ": wrong result on " + S(t)); }; if (!t_is(e, t)) bad("build");
  if (ap_texpr0_depth(e) != t_depth(t)) bad("depth"); if (ap_texpr0_size(e) != t_size(t)) bad("size"); std::set<unsigned> ds; t_dims(t, ds); if (ap_texpr0_max_dim(e) != (ds.empty() ? 0 : *ds.rbegin() + 1)) bad("max_dim"); for (unsigned d = 0; d < n + 2; d++) if (ap_texpr0_has_dim(e, d) != (ds.count(d) > 0)) bad("has_dim"); ap_dim_t* dl = ap_texpr0_dimlist(e); size_t i = 0; for (unsigned d : ds) if (dl[i++] != d) bad("dimlist"); if (dl[i] != AP_DIM_MAX) bad("dimlist"); free(dl);
  if (ap_texpr0_is_interval_cst(e) != ds.empty()) bad("is_interval_cst"); if (ap_texpr0_is_interval_linear(e) != t_lin(t)) bad("is_interval_linear"); if (ap_texpr0_is_interval_polynomial(e) != t_poly(t, false)) bad("is_interval_polynomial"); if (ap_texpr0_is_interval_polyfrac(e) != t_poly(t, true)) bad("is_interval_polyfrac"); if (ap_texpr0_is_scalar(e) != !t_has(t, [](const TE& x) { return x.k == 0 && !(x.cst.lo == x.cst.hi); })) bad("is_scalar"); label(string("tree:") + (t_lin(t) ? "linear" : t_poly(t, false) ? "polynomial" : "other"));
  ap_texpr0_t* c = ap_texpr0_copy(e); if (!t_is(c, t)) bad("copy"); if (!ap_texpr0_equal(c, e) ) bad("equal"); if (ap_texpr0_hash(c) != ap_texpr0_hash(e)) bad("hash");
  { T u = s.coin() ? gen_t(s, n) : t_map(t, [&](const TE& x) -> T { if (s.chance(1, 4)) { T r(new TE(x)); if (x.k == 0) r->cst = iadd(r->cst, I(Q(s.range(0, 1)))); else r->dim = s.draw(n); return r; } return T(); }); ap_texpr0_t* f = mk_te(u); bool eq = t_eq(t, u); 
    if (ap_texpr0_equal(e, f) != eq && !t_has(t, [](const TE& x) { return x.k == 0; })) fail("texpr:equal", "ap_texpr0_equal is wrong on " + S(t) + " and " + S(u)); if (ap_texpr0_equal(e, f) && !eq) fail("texpr:equal", "ap_texpr0_equal is true on " + S(t) + " and " + S(u)); if (ap_texpr0_equal(e, f) && ap_texpr0_hash(e) != ap_texpr0_hash(f)) bad("hash-equal"); label(eq ? "tree:equal" : "tree:different");
    // substitution
    unsigned d = s.draw(n); T v = t_map(t, [&](const TE& x) -> T { return x.k == 1 && x.dim == (int)d ? u : T(); }); ap_texpr0_t* g = ap_texpr0_substitute(e, d, f); if (!t_is(g, v)) fail("texpr:substitute", "wrong substitution of x" + SI(d) + " in " + S(t) + " by " + S(u)); if (!t_is(e, t) || !t_is(f, u)) bad("substitute-arguments"); ap_texpr0_free(g); g = ap_texpr0_copy(e); ap_texpr0_substitute_with(g, d, f); if (!t_is(g, v)) fail("texpr:substitute_with", "wrong substitution of x" + SI(d) + " in " + S(t) + " by " + S(u)); ap_texpr0_free(g); if (!t_is(f, u)) bad("substitute-arguments"); ap_texpr0_free(f); }
  { unsigned k = s.range(1, 3), ni = s.draw(k + 1); vector<unsigned> pos; for (unsigned j = 0; j < k; j++) pos.push_back(s.draw(n + 1)); std::sort(pos.begin(), pos.end()); ap_dimchange_t* dc = ap_dimchange_alloc(ni, k - ni); for (unsigned j = 0; j < k; j++) dc->dim[j] = pos[j]; T v = t_map(t, [&](const TE& x) -> T { if (x.k != 1) return T(); T r(new TE(x)); unsigned a = 0; for (unsigned p : pos) if (p <= (unsigned)x.dim) a++; r->dim += a; return r; }); ap_texpr0_t* g = ap_texpr0_add_dimensions(e, dc); if (!t_is(g, v)) bad("add_dimensions"); ap_texpr0_free(g); g = ap_texpr0_copy(e); ap_texpr0_add_dimensions_with(g, dc); if (!t_is(g, v)) bad("add_dimensions_with"); ap_texpr0_free(g); ap_dimchange_free(dc); }
  { std::set<unsigned> rm; for (unsigned j = 0; j < n; j++) if (s.chance(1, 3)) rm.insert(j); if (!rm.empty()) { unsigned ni = s.draw(rm.size() + 1); ap_dimchange_t* dc = ap_dimchange_alloc(ni, rm.size() - ni); unsigned j = 0; for (unsigned d : rm) dc->dim[j++] = d; T v = t_map(t, [&](const TE& x) -> T { if (x.k != 1) return T(); T r(new TE(x)); if (rm.count(x.dim)) { r->k = 0; r->cst = I::top(); return r; } for (unsigned d : rm) if (d < (unsigned)x.dim) r->dim--; return r; }); ap_texpr0_t* g = ap_texpr0_remove_dimensions(e, dc); if (!t_is(g, v)) bad("remove_dimensions"); ap_texpr0_free(g); g = ap_texpr0_copy(e); ap_texpr0_remove_dimensions_with(g, dc); if (!t_is(g, v)) bad("remove_dimensions_with"); ap_texpr0_free(g); ap_dimchange_free(dc); } }
  { ap_dimperm_t* p = ap_dimperm_alloc(n); for (size_t j = 0; j < n; j++) p->dim[j] = j; for (size_t j = 0; j + 1 < n; j++) std::swap(p->dim[j], p->dim[j + s.draw(n - j)]); T v = t_map(t, [&](const TE& x) -> T { if (x.k != 1) return T(); T r(new TE(x)); r->dim = p->dim[x.dim]; return r; }); ap_texpr0_t* g = ap_texpr0_permute_dimensions(e, p); if (!t_is(g, v)) bad("permute_dimensions"); ap_texpr0_free(g); g = ap_texpr0_copy(e); ap_texpr0_permute_dimensions_with(g, p); if (!t_is(g, v)) bad("permute_dimensions_with"); ap_texpr0_free(g); ap_dimperm_free(p); }
  if (!t_is(e, t) || !t_is(c, t)) bad("arguments");
  { bool nm = s.coin(); char** nd = nm ? names(n) : nullptr; string x = printed([&](FILE* f) { ap_texpr0_fprint(f, e, nd); }); Parser p(x); T r = p_tree(p, 0, nm); p.sp(); if (p.i != x.size()) p.bad("tree"); if (!t_close(r, t)) fail("print:tree", "printed '" + x + "' for " + S(t)); }
  { // constraints on trees
    ap_constyp_t ty = gen_type(s, true); ap_scalar_t* md = nullptr; if (ty == AP_CONS_EQMOD) md = ap_scalar_alloc_set_double(3); ap_tcons0_t a = ap_tcons0_make(ty, c, md), b = ap_tcons0_copy(&a); if (!t_is(b.texpr0, t) || b.constyp != ty || !b.scalar != !md) bad("tcons0_copy"); string x = printed([&](FILE* f) { ap_tcons0_fprint(f, &a, nullptr); }), y = printed([&](FILE* f) { ap_texpr0_fprint(f, e, nullptr); }); static const char* tn[] = {" = 0", " >= 0", " > 0", " = 0 mod 3", " != 0"}; if (x != y + tn[ty]) fail("print:tcons", "printed '" + x + "'"); ap_tcons0_clear(&a); if (!t_is(b.texpr0, t)) bad("tcons0_clear"); size_t k = s.draw(4), k2 = s.draw(4); ap_tcons0_array_t ar = ap_tcons0_array_make(k); for (size_t j = 0; j < k; j++) { if (ar.p[j].texpr0) bad("tcons0_array_make"); ar.p[j] = ap_tcons0_copy(&b); } ap_tcons0_array_resize(&ar, k2); if (ar.size != k2) bad("tcons0_array_resize"); for (size_t j = 0; j < k2; j++) { if (j < k ? !t_is(ar.p[j].texpr0, t) : ar.p[j].texpr0 != nullptr) bad("tcons0_array_resize"); if (j >= k) ar.p[j] = ap_tcons0_copy(&b); } if (ap_tcons0_array_is_interval_linear(&ar) != (k2 == 0 || t_lin(t))) bad("tcons0_array_is_interval_linear"); ap_tcons0_array_clear(&ar); ap_tcons0_clear(&b); }
  ap_texpr0_free(e);
  { // from a linear expression
    LinCfg lc; lc.num.level = 1; Lin l = gen_lin(s, n, lc); ap_linexpr0_t* le = mk_lin(l); ap_texpr0_t* g = ap_texpr0_from_linexpr0(le); if (!ap_texpr0_is_interval_linear(g)) fail("texpr:from_linexpr", "not interval linear"); Lin acc(n); std::function<void(ap_texpr0_t*)> go = [&](ap_texpr0_t* x) { if (x->discr == AP_TEXPR_CST) acc.k = iadd(acc.k, of_coeff(&x->val.cst)); else if (x->discr == AP_TEXPR_NODE && x->val.node->op == AP_TEXPR_ADD && x->val.node->type == AP_RTYPE_REAL) { go(x->val.node->exprA); go(x->val.node->exprB); } else if (x->discr == AP_TEXPR_NODE && x->val.node->op == AP_TEXPR_MUL && x->val.node->type == AP_RTYPE_REAL && x->val.node->exprA->discr == AP_TEXPR_CST && x->val.node->exprB->discr == AP_TEXPR_DIM) { unsigned d = x->val.node->exprB->val.dim; if (d >= n) fail("texpr:from_linexpr", "wrong dimension"); acc.c[d] = iadd(acc.c[d], of_coeff(&x->val.node->exprA->val.cst)); } else fail("texpr:from_linexpr", "unexpected shape"); }; go(g); bool ok = same(acc.k, l.k); for (size_t j = 0; j < n; j++) if (!same(acc.c[j], l.c[j])) ok = false; if (!ok) fail("texpr:from_linexpr", "wrong tree for " + S(l)); ap_texpr0_free(g); ap_linexpr0_free(le); } }
static void gens(Src& s) {
  size_t n = s.range(1, 5); LinCfg lc; lc.num.level = 1; lc.itv = 0; Lin l = gen_lin(s, n, lc); ap_gentyp_t ty = (ap_gentyp_t)s.draw(5); TR("generator " << S(l)); crumb("generator"); ap_generator0_t g = ap_generator0_make(ty, mk_lin(l)), c = ap_generator0_copy(&g); auto is = [&](ap_generator0_t& x, const Lin& w, size_t k) { Lin r = of_lin(x.linexpr0, k); if (x.gentyp != ty) return false; for (size_t i = 0; i < k; i++) if (!same(r.c[i], w.c[i])) return false; return true; }; if (!is(c, l, n)) fail("generator:copy", "copy differs");
  size_t k = s.draw(4), k2 = s.draw(4); ap_generator0_array_t a = ap_generator0_array_make(k); for (size_t i = 0; i < k; i++) { if (a.p[i].linexpr0) fail("generator:array_make", "not initialised"); a.p[i] = ap_generator0_copy(&g); } ap_generator0_array_resize(&a, k2); if (a.size != k2) fail("generator:array_resize", "wrong size"); for (size_t i = 0; i < k2; i++) { if (i < k ? !is(a.p[i], l, n) : a.p[i].linexpr0 != nullptr) fail("generator:array_resize", "wrong content"); if (i >= k) a.p[i] = ap_generator0_copy(&g); }
  unsigned pos = l.sparse ? s.draw(n + 1) : s.draw(n + 1); ap_dimchange_t* dc = ap_dimchange_alloc(0, 1); dc->dim[0] = pos; Lin w = l; w.c.insert(w.c.begin() + pos, I(Q(0))); ap_generator0_array_t b = ap_generator0_array_add_dimensions(&a, dc); ap_generator0_array_add_dimensions_with(&a, dc); for (size_t i = 0; i < k2; i++) if (!is(a.p[i], w, n + 1) || !is(b.p[i], w, n + 1)) fail("generator:add_dimensions", "wrong result"); ap_dimchange_free(dc); ap_generator0_array_clear(&b); ap_generator0_array_clear(&a);
  ap_dimperm_t* p = ap_dimperm_alloc(n); for (size_t j = 0; j < n; j++) p->dim[j] = j; for (size_t j = 0; j + 1 < n; j++) std::swap(p->dim[j], p->dim[j + s.draw(n - j)]); Lin q(n); for (size_t j = 0; j < n; j++) q.c[p->dim[j]] = l.c[j]; ap_generator0_t h = ap_generator0_permute_dimensions(&g, p); if (!is(h, q, n)) fail("generator:permute", "wrong result"); ap_generator0_permute_dimensions_with(&g, p); if (!is(g, q, n)) fail("generator:permute", "wrong result"); ap_dimperm_free(p); ap_generator0_clear(&h);
  static const char* gn[] = {"LINE: ", "RAY: ", "VERT: ", "LINEMOD: ", "RAYMOD: "}; string t = printed([&](FILE* f) { ap_generator0_fprint(f, &c, nullptr); }); (void)gn; string u = printed([&](FILE* f) { ap_linexpr0_fprint(f, c.linexpr0, nullptr); }); if (t.find(u) == string::npos) fail("print:generator", "printed '" + t + "' without '" + u + "'"); ap_generator0_clear(&g); if (!is(c, l, n)) fail("generator:copy", "the copy is not independent"); ap_generator0_clear(&c); }
static void expr_case(Src& s) {
  switch (s.weighted({6, 4, 1})) {
  case 1: tree_ops(s); s.nontrivial = true; return;
  case 2: gens(s); s.nontrivial = true; return; }
  LW w(s); int n = s.range(3, 24); s.nontrivial = n >= 8; for (int i = 0; i < n; i++) switch (s.weighted({10, 1, 1, 2, 2, 4, 2, 4, 2, 1, 2})) { case 0: w.set(); break; case 1: w.alloc(); break; case 2: w.realloc(); break; case 3: w.minimize(); break; case 4: w.copy(); break; case 5: w.dims(); break; case 6: w.query(); break; case 7: w.compare(); break; case 8: w.twin(); break; case 9: w.print(); break; case 10: w.cons(); break; } }
int main(int argc, char** argv) {
  vector<Prop> ps; Prop p; p.id = "scalar"; p.fn = scalar_case; p.rule = "histories of 4 to 30 operations on registers of scalars, intervals and coefficients, of the three number types, MPFR precisions 2 to 130; non-trivial: at least 8 operations"; p.quick = 300000; p.thorough = 10000000; ps.push_back(p);
  p.id = "expr"; p.fn = expr_case; p.rule = "histories of 3 to 24 operations on dense and sparse linear expressions and constraints; random trees of depth at most 4; generators; non-trivial: at least 8 operations, or a tree or generator"; ps.push_back(p);
  return engine_main(argc, argv, ps);
}
