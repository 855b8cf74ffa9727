// Evaluation and linearisation of expressions relative to an abstract value (ap_linearize.h).
#include "ops.hpp"
extern "C" {
#include "ap_linearize.h"
}
static const ap_scalar_discr_t DISCR[3] = {AP_SCALAR_MPQ, AP_SCALAR_DOUBLE, AP_SCALAR_MPFR};
static const char* DN[3] = {"MPQ", "DOUBLE", "MPFR"};
// a result of discr d has only scalars of that type
static bool isdiscr(const ap_coeff_t* c, ap_scalar_discr_t d) { return c->discr == AP_COEFF_SCALAR ? c->val.scalar->discr == d : c->val.interval->inf->discr == d && c->val.interval->sup->discr == d; }
struct Ev : Ops {
  using Ops::Ops; Reg r; vector<I> box; bool exact_num = false; int di = 0; ap_scalar_discr_t discr;
  string pre(const char* f) { return string(f) + ":" + DN[di] + ":"; }
  void die(const char* f, const char* k, const string& msg) { fail(pre(f) + k, string(f) + " in " + d.name + " with " + DN[di] + ": " + msg); }
  bool quasi(const Lin& l) { for (auto& c : l.c) if (!c.sing()) return false; return true; }
  bool notlin(const Cons& c) { if (c.t > AP_CONS_SUP || c.e.k.sing()) return false; for (auto& x : c.e.c) if (!(x.sing() && x.lo.v == 0)) return true; return false; } // intervals are removed when they can be
  void cov(const char* f, const I& v, const I& x, const Pt& p, const string& e) { if (!isubset(x, v)) die(f, "unsound", "result " + S(v) + " for " + e + " misses " + S(x) + " at " + S(p)); }
  void chk_lin(const char* f, ap_linexpr0_t* e, const std::function<bool(const Pt&, I&)>& val, const string& txt) {
    size_t k = n(); Lin l = of_lin(e, k); for (auto& p : r.w) { I v; if (val(p, v)) { nontriv = true; I x = eval(l, p); if (!isubset(v, x)) die(f, "unsound", txt + " became " + S(l) + ", which at " + S(p) + " is " + S(x) + " and misses " + S(v)); } } }
  // constraint rewriting: meet direction (anything that may hold still may hold) or sat direction (what surely holds, surely held)
  bool conj_may(const vector<Cons>& v, const Pt& p) { for (auto& c : v) if (!may_sat(c, p)) return false; return true; }
  bool conj_must(const vector<Cons>& v, const Pt& p) { for (auto& c : v) if (!must_sat(eval(c.e, p), c.t, c.mod)) return false; return true; }
  T gent() { return gen_te(s, n(), tc, tc.depth); }
  bool nondet(const T& c) { return t_has(c, [](const TE& t) { return (t.k == 0 && !t.cst.sing()) || (t.k == 2 && t.ty != AP_RTYPE_REAL && t.dir == AP_RDIR_RND); }); }
  TCons gtc() { TCons c; c.e = gent(); c.t = gen_type(s, true); if (c.t == AP_CONS_EQMOD) { c.mod = s.chance(1, 4) ? Q(s.range(1, 7), s.range(2, 6)) : Q(s.range(1, 5)); c.mod.canonicalize(); } if (!r.w.empty() && s.chance(3, 4)) { Q q; if (teval(c.e, r.w[s.draw(r.w.size())], &s, q)) { Q dlt = s.coin() ? Q(0) : Q(s.range(0, 3)); c.e = t_bin(AP_TEXPR_SUB, c.e, t_cst(I(Q(q - dlt)))); } } return c; }
  Cons glc() { Cons c = gencons(r); if (c.t == AP_CONS_EQMOD && c.mod == 0) c.mod = 2; return c; }

  void eval_lin() {
    Lin l = genlin(); ap_linexpr0_t* e = mk_lin(l); bool ex = false; crumb("ap_eval_linexpr0"); ap_interval_t* t = ap_eval_linexpr0(m, r.a, e, discr, &ex); I v = of_interval(t); if (t->inf->discr != discr || t->sup->discr != discr) die("eval_linexpr0", "discr", "scalars of the wrong type"); ap_interval_free(t); Lin back = of_lin(e, n()); ap_linexpr0_free(e); TR("eval_linexpr " << S(l) << " = " << S(v) << (ex ? " exact" : ""));
    for (auto& p : r.w) { nontriv = true; cov("eval_linexpr0", v, eval(l, p), p, S(l)); } if (S(back) != S(l)) die("eval_linexpr0", "argument", "argument changed");
    I w = l.k; for (size_t i = 0; i < n(); i++) if (!(l.c[i].sing() && l.c[i].lo.v == 0)) w = iadd(w, imul(l.c[i], box[i])); if (!isubset(w, v)) die("eval_linexpr0", "box", S(l) + " over " + SV(box) + " is " + S(w) + ", not " + S(v));
    if (di == 0 && exact_num) if (!(v.lo == w.lo && v.hi == w.hi)) die("eval_linexpr0", "precision", S(l) + " over " + SV(box) + " is " + S(w) + ", not " + S(v)); }
  void eval_te() {
    T t = gent(); ap_texpr0_t* e = mk_te(t); bool ex = false; crumb("ap_eval_texpr0"); ap_interval_t* iv = ap_eval_texpr0(m, r.a, e, discr, &ex); I v = of_interval(iv); if (iv->inf->discr != discr || iv->sup->discr != discr) die("eval_texpr0", "discr", "scalars of the wrong type"); ap_interval_free(iv); T back = of_te(e); ap_texpr0_free(e); TR("eval_texpr " << S(t) << " = " << S(v));
    for (auto& p : r.w) for (int k = 0; k < 2; k++) { Q q; if (teval(t, p, &s, q)) { nontriv = true; cov("eval_texpr0", v, I(q), p, S(t)); if (ex && v.sing() && v.lo.v != q && !nondet(t) && r.w.size() == 1) die("eval_texpr0", "exact", "claimed exact"); } }
    if (S(back) != S(t)) die("eval_texpr0", "argument", "argument changed"); }
  void quasi_lin() {
    int k = s.draw(3); vector<Lin> ls; for (int i = 0; i < (k ? k : 1); i++) ls.push_back(genlin()); vector<ap_linexpr0_t*> es; for (auto& l : ls) es.push_back(mk_lin(l)); bool ex = false;
    auto one = [&](const char* f, ap_linexpr0_t* q, const Lin& l, bool same) { Lin w = of_lin(q, n()); TR(f << " " << S(l) << " -> " << S(w)); if (!quasi(w)) die(f, "not-quasilinear", S(l) + " became " + S(w)); if (!same && q) for (auto c : {&q->cst}) if (!isdiscr(c, discr)) die(f, "discr", "scalars of the wrong type");
      chk_lin(f, q, [&](const Pt& p, I& v) { v = eval(l, p); return true; }, S(l)); };
    if (k == 0) { crumb("ap_quasilinearize_linexpr0"); ap_linexpr0_t* q = ap_quasilinearize_linexpr0(m, r.a->value, es[0], &ex, discr); one("quasilinearize_linexpr0", q, ls[0], q == es[0]); if (quasi(ls[0]) && q != es[0]) die("quasilinearize_linexpr0", "identity", "a quasilinear expression must be returned itself"); if (q != es[0]) ap_linexpr0_free(q); }
    else { crumb("ap_quasilinearize_linexpr0_array"); ap_linexpr0_t** q = ap_quasilinearize_linexpr0_array(m, r.a->value, es.data(), es.size(), &ex, discr); for (size_t i = 0; i < ls.size(); i++) one("quasilinearize_linexpr0_array", q[i], ls[i], q == es.data()); if (q != es.data()) { for (size_t i = 0; i < ls.size(); i++) ap_linexpr0_free(q[i]); free(q); } }
    for (size_t i = 0; i < ls.size(); i++) { if (S(of_lin(es[i], n())) != S(ls[i])) die("quasilinearize_linexpr0", "argument", "argument changed"); ap_linexpr0_free(es[i]); } }
  void rel(const char* f, const vector<Cons>& before, const vector<Cons>& after, bool meet, bool both) {
    TR(f << (meet ? " meet " : " sat ") << SV(before) << " -> " << SV(after));
    for (auto& p : r.w) { if ((meet || both) && conj_may(before, p)) { nontriv = true; if (!conj_may(after, p)) die(f, "meet", SV(before) + " became " + SV(after) + ", which excludes " + S(p)); }
      if ((!meet || both) && conj_must(after, p)) { nontriv = true; if (!conj_must(before, p)) die(f, "sat", SV(before) + " became " + SV(after) + ", which holds at " + S(p) + " where the former may not"); } } }
  void quasi_cons() {
    bool meet = s.coin(), arr = s.coin(), ex = false; vector<Cons> v; int k = arr ? s.range(0, 3) : 1; for (int i = 0; i < k; i++) v.push_back(glc());
    if (!arr) { ap_lincons0_t c = mk_cons(v[0]); crumb("ap_quasilinearize_lincons0"); ap_lincons0_t q = ap_quasilinearize_lincons0(m, r.a->value, &c, &ex, discr, meet); vector<Cons> a = {of_cons(&q, n())}; if (!quasi(a[0].e)) die("quasilinearize_lincons0", "not-quasilinear", S(a[0])); rel("quasilinearize_lincons0", v, a, meet, false); if (q.linexpr0 != c.linexpr0) { ap_lincons0_clear(&q); } if (S(of_cons(&c, n())) != S(v[0])) die("quasilinearize_lincons0", "argument", "argument changed"); ap_lincons0_clear(&c); }
    else { bool lin = s.coin(); ap_lincons0_array_t c = mk_cons_array(v); crumb("ap_quasilinearize_lincons0_array"); ap_lincons0_array_t q = ap_quasilinearize_lincons0_array(m, r.a->value, &c, &ex, discr, lin, meet); vector<Cons> a = of_cons_array(&q, n()); for (auto& x : a) { if (!quasi(x.e)) die("quasilinearize_lincons0_array", "not-quasilinear", S(x)); if (lin && notlin(x)) die("quasilinearize_lincons0_array", "not-linear", S(x)); } rel(lin ? "linearize_lincons0_array" : "quasilinearize_lincons0_array", v, a, meet, false); if (q.p != c.p) ap_lincons0_array_clear(&q); vector<Cons> b = of_cons_array(&c, n()); if (SV(b) != SV(v)) die("quasilinearize_lincons0_array", "argument", "argument changed"); ap_lincons0_array_clear(&c); } }
  bool intlinear(const T& t) { ap_texpr0_t* e = mk_te(t); bool b = ap_texpr0_is_interval_linear(e); ap_texpr0_free(e); return b; }
  void linearize_te() {
    int k = s.draw(3); bool ql = s.coin(), ex = false; vector<T> ts; for (int i = 0; i < (k == 1 ? 2 : 1); i++) ts.push_back(gent()); vector<ap_texpr0_t*> es; for (auto& t : ts) es.push_back(mk_te(t));
    auto one = [&](const char* f, ap_linexpr0_t* q, const T& t, bool ql) { if (!q) die(f, "null", "no result for " + S(t)); Lin w = of_lin(q, n()); TR(f << (ql ? " quasi " : " ") << S(t) << " -> " << S(w)); if (ql && !quasi(w)) die(f, "not-quasilinear", S(t) + " became " + S(w)); if (!isdiscr(&q->cst, discr)) die(f, "discr", "scalars of the wrong type"); chk_lin(f, q, [&](const Pt& p, I& v) { Q x; if (!teval(t, p, &s, x)) return false; v = I(x); return true; }, S(t)); ap_linexpr0_free(q); };
    if (k == 0) { crumb("ap_intlinearize_texpr0"); one("intlinearize_texpr0", ap_intlinearize_texpr0(m, r.a, es[0], &ex, discr, ql), ts[0], ql); }
    else if (k == 1) { crumb("ap_intlinearize_texpr0_array"); ap_linexpr0_t** q = ap_intlinearize_texpr0_array(m, r.a, es.data(), es.size(), &ex, discr, ql); for (size_t i = 0; i < es.size(); i++) one("intlinearize_texpr0_array", q[i], ts[i], ql); free(q); }
    else { crumb("ap_intlinearize_texpr0_intlinear"); ap_linexpr0_t* q = ap_intlinearize_texpr0_intlinear(m, es[0], discr); bool il = ap_texpr0_is_interval_linear(es[0]); if (q) one("intlinearize_texpr0_intlinear", q, ts[0], false); else if (il) die("intlinearize_texpr0_intlinear", "rejects", "no result for " + S(ts[0])); }
    for (size_t i = 0; i < es.size(); i++) { if (S(of_te(es[i])) != S(ts[i])) die("intlinearize_texpr0", "argument", "argument changed"); ap_texpr0_free(es[i]); } }
  void linearize_tcons() {
    bool arr = s.coin(), meet = s.coin(), ql = s.coin(), ex = false; int k = arr ? s.range(0, 3) : 1; vector<TCons> v; for (int i = 0; i < k; i++) v.push_back(gtc()); vector<Cons> a; const char* f; bool mt = meet;
    if (!arr) { f = "intlinearize_tcons0"; ap_tcons0_t c = mk_tcons(v[0]); crumb(f); ap_lincons0_t q = ap_intlinearize_tcons0(m, r.a, &c, &ex, discr, ql, meet); a = {of_cons(&q, n())}; if (ql && !quasi(a[0].e)) die(f, "not-quasilinear", S(a[0])); ap_lincons0_clear(&q); ap_tcons0_clear(&c); }
    else { f = "intlinearize_tcons0_array"; ap_linexpr_type_t ty = (ap_linexpr_type_t)s.draw(3); bool bz = s.coin(), io = s.coin(); size_t km = s.range(0, 4); ap_tcons0_array_t c = mk_tcons_array(v); crumb(f); ap_lincons0_array_t q = ap_intlinearize_tcons0_array(m, r.a, &c, &ex, discr, ty, meet, bz, km, io); a = of_cons_array(&q, n()); for (auto& x : a) { if (ty != AP_LINEXPR_INTLINEAR && !quasi(x.e)) die(f, "not-quasilinear", S(x)); if (ty == AP_LINEXPR_LINEAR && notlin(x)) die(f, "not-linear", S(x)); } ap_lincons0_array_clear(&q); ap_tcons0_array_clear(&c); TR("type " << ty << " boxize " << bz << " kmax " << km << " intervalonly " << io); }
    TR(f << (meet ? " meet " : " sat ") << SV(v) << " -> " << SV(a));
    for (auto& p : r.w) { bool all = true, def = true, nd = false, sure = true; for (auto& c : v) { Q q; nd |= nondet(c.e); if (!teval(c.e, p, &s, q)) { def = all = false; } else if (!may_sat(I(q), c.t, c.mod)) all = false; } (void)sure;
      if (mt && all) { nontriv = true; if (!conj_may(a, p)) die(f, "meet", SV(v) + " became " + SV(a) + ", which excludes " + S(p)); }
      if (!mt && def && !nd && conj_must(a, p)) { nontriv = true; if (!all) die(f, "sat", SV(v) + " became " + SV(a) + ", which holds at " + S(p)); } } }
  void go() {
    R.emplace_back(); r = fresh(); int k = s.weighted({3, 4, 2}); R[0] = r; for (int i = 0; i < k; i++) op_meet_lincons(); r = R[0]; R[0].a = nullptr;
    setop("is_bottom"); if (ap_abstract0_is_bottom(m, r.a)) { ap_abstract0_free(m, r.a); r.a = ap_abstract0_top(m, id, rd); r.w.clear(); r.w.push_back(gen_pt()); }
    ap_interval_t** t = ap_abstract0_to_box(m, r.a); for (size_t i = 0; i < n(); i++) box.push_back(of_interval(t[i])); ap_interval_array_free(t, n()); TR("box " << SV(box) << " witnesses " << SV(r.w)); for (auto& b : box) if (b.empty()) { ap_abstract0_free(m, r.a); return; }
    if (n() && s.coin()) { Pt p; bool ok = true; for (size_t i = 0; i < n(); i++) p.push_back(r.w.empty() ? Q(0) : r.w[0][i]); (void)ok; }
    int c = s.range(1, 4); for (int i = 0; i < c; i++) { di = s.draw(3); discr = DISCR[di]; switch (s.weighted({3, 6, 3, 4, 5, 5})) { case 0: eval_lin(); break; case 1: eval_te(); break; case 2: quasi_lin(); break; case 3: quasi_cons(); break; case 4: linearize_te(); break; default: linearize_tcons(); } if (fegetround() != FE_UPWARD) { fesetround(FE_UPWARD); die("rounding", "mode", "the rounding mode was changed"); } }
    ap_abstract0_free(m, r.a); s.nontrivial = nontriv; }
};
static void eval_case(Src& s) {
  static const vector<Dom> ds = doms_named({"boxMPQ", "boxD", "pkMPQ", "octMPQ", "boxMPFR"}); const Dom& d = ds[s.weighted({6, 3, 3, 2, 1})]; label("domain:" + d.name); Ev w(s, d); int n = s.weighted({1, 4, 5, 3, 1}); int mode = s.weighted({5, 3, 2}); w.id = mode == 0 ? 0 : mode == 1 ? s.draw(n + 1) : n; w.rd = n - w.id; w.exact_num = !d.flt;
  int lev = s.weighted({4, 4, 1}); w.lc.num.level = lev; w.pc.level = lev; w.tc.num.level = lev; w.tc.depth = s.range(1, 4); w.lc.density = s.coin() ? 50 : 80; w.lc.itv = s.weighted({1, 2}) ? 50 : 10; w.go(); }
int main(int argc, char** argv) {
  vector<Prop> ps; Prop p; p.id = "eval"; p.fn = eval_case; p.rule = "an abstract value (box, octagon, polyhedron; 0 to 4 integer and real dimensions) with known points inside, then 1 to 4 evaluations, quasilinearisations or linearisations of random linear or tree expressions and constraints into each of the three number types; non-trivial: at least one known point at which the expression is defined (and, for constraints, the premise holds)"; p.quick = 200000; p.thorough = 8000000; ps.push_back(p);
  return engine_main(argc, argv, ps); }
