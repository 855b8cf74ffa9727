// Exact (rational) semantics for APRON's data types, and generators for them.
#pragma once
#include "engine.hpp"
#include <gmpxx.h>
#include <mpfr.h>
#include <cmath>
#include <memory>
#include <algorithm>
#include <map>
#include <set>
#include <stdio.h>
extern "C" {
#include "ap_global0.h"
#include "ap_generic.h"
}
typedef mpq_class Q;
typedef std::vector<Q> Pt;
using std::string; using std::vector;

inline string S(const Q& q) { return q.get_str(); }
inline string S(const Pt& p) { string r = "("; for (size_t i = 0; i < p.size(); i++) r += (i ? "," : "") + p[i].get_str(); return r + ")"; }
inline bool is_int(const Q& q) { return q.get_den() == 1; }
inline mpz_class qfloor(const Q& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
inline mpz_class qceil(const Q& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
inline mpz_class qtrunc(const Q& q) { mpz_class r; mpz_tdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
inline Q q_of_double(double d) { Q q; mpq_set_d(q.get_mpq_t(), d); return q; } // exact
inline Q q_of_mpfr(mpfr_srcptr m) { mpz_class z; if (mpfr_zero_p(m)) return 0; mpfr_exp_t e = mpfr_get_z_2exp(z.get_mpz_t(), m); Q q(z); if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e); return q; }
// exact double conversion if possible
inline bool q_to_double_exact(const Q& q, double* d) {
  mpfr_t m; mpfr_init2(m, 53); int t = mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN);
  *d = mpfr_get_d(m, MPFR_RNDN); bool ok = t == 0 && std::isfinite(*d) && q_of_double(*d) == q; mpfr_clear(m); return ok; }

// extended rationals
struct X { int inf = 0; Q v; X() {} X(const Q& q) : v(q) {} X(int i) : v(i) {} static X pinf() { X x; x.inf = 1; return x; } static X minf() { X x; x.inf = -1; return x; } bool fin() const { return inf == 0; } };
inline int cmp(const X& a, const X& b) { if (a.inf || b.inf) return a.inf < b.inf ? -1 : a.inf > b.inf ? 1 : 0; return a.v < b.v ? -1 : a.v > b.v ? 1 : 0; }
inline bool operator<(const X& a, const X& b) { return cmp(a, b) < 0; }
inline bool operator<=(const X& a, const X& b) { return cmp(a, b) <= 0; }
inline bool operator==(const X& a, const X& b) { return cmp(a, b) == 0; }
inline bool operator!=(const X& a, const X& b) { return cmp(a, b) != 0; }
inline string S(const X& x) { return x.inf < 0 ? "-oo" : x.inf > 0 ? "+oo" : x.v.get_str(); }
inline X neg(const X& a) { X r; r.inf = -a.inf; r.v = -a.v; return r; }
struct I { X lo, hi; I() {} I(const X& l, const X& h) : lo(l), hi(h) {} I(const Q& q) : lo(q), hi(q) {} bool empty() const { return hi < lo || lo.inf > 0 || hi.inf < 0; } bool has(const Q& q) const { return lo <= X(q) && X(q) <= hi; } static I top() { return I(X::minf(), X::pinf()); } bool sing() const { return lo.fin() && lo == hi; } };
inline string S(const I& i) { return "[" + S(i.lo) + "," + S(i.hi) + "]"; }
inline I iadd(const I& a, const I& b) { I r; if (a.lo.inf || b.lo.inf) r.lo = X::minf(); else r.lo = X(Q(a.lo.v + b.lo.v)); if (a.hi.inf || b.hi.inf) r.hi = X::pinf(); else r.hi = X(Q(a.hi.v + b.hi.v)); return r; }
inline I ineg(const I& a) { return I(neg(a.hi), neg(a.lo)); }
inline I isub(const I& a, const I& b) { return iadd(a, ineg(b)); }
inline X xmul(const X& a, const X& b) { int sa = a.inf ? a.inf : sgn(a.v), sb = b.inf ? b.inf : sgn(b.v); if (sa == 0 || sb == 0) return X(0); if (a.inf || b.inf) { X r; r.inf = sa * sb; return r; } return X(Q(a.v * b.v)); }
inline I imul(const I& a, const I& b) { X c[4] = {xmul(a.lo, b.lo), xmul(a.lo, b.hi), xmul(a.hi, b.lo), xmul(a.hi, b.hi)}; I r(c[0], c[0]); for (int i = 1; i < 4; i++) { if (c[i] < r.lo) r.lo = c[i]; if (r.hi < c[i]) r.hi = c[i]; } return r; }
inline bool isubset(const I& a, const I& b) { return a.empty() || (b.lo <= a.lo && a.hi <= b.hi); }

// ---------------------------------------------------------------- scalars
inline X of_scalar(const ap_scalar_t* s) {
  int inf = ap_scalar_infty((ap_scalar_t*)s); if (inf) return inf > 0 ? X::pinf() : X::minf();
  switch (s->discr) {
  case AP_SCALAR_DOUBLE: if (std::isnan(s->val.dbl)) fail("nan-scalar", "a scalar is NaN"); return X(q_of_double(s->val.dbl));
  case AP_SCALAR_MPQ: { Q q; mpq_set(q.get_mpq_t(), s->val.mpq); return X(q); }
  case AP_SCALAR_MPFR: if (mpfr_nan_p(s->val.mpfr)) fail("nan-scalar", "a scalar is NaN"); return X(q_of_mpfr(s->val.mpfr));
  }
  return X(0);
}
inline I of_interval(const ap_interval_t* i) { return I(of_scalar(i->inf), of_scalar(i->sup)); }
inline I of_coeff(const ap_coeff_t* c) { if (c->discr == AP_COEFF_SCALAR) { X x = of_scalar(c->val.scalar); return I(x, x); } return of_interval(c->val.interval); }

enum { K_MPQ = 0, K_DBL = 1, K_MPFR = 2 };
// sets s to x exactly, in representation kind when x is representable there, else as MPQ
inline void set_scalar(ap_scalar_t* s, const X& x, int kind) {
  if (x.inf) { if (kind == K_DBL) { ap_scalar_reinit(s, AP_SCALAR_DOUBLE); s->val.dbl = x.inf > 0 ? INFINITY : -INFINITY; } else { ap_scalar_reinit(s, kind == K_MPFR ? AP_SCALAR_MPFR : AP_SCALAR_MPQ); ap_scalar_set_infty(s, x.inf); } return; }
  double d; if (kind == K_DBL && q_to_double_exact(x.v, &d)) { ap_scalar_set_double(s, d); return; }
  if (kind == K_MPFR) { mpfr_t m; mpfr_init2(m, 200); int t = mpfr_set_q(m, x.v.get_mpq_t(), MPFR_RNDN); if (t == 0) { ap_scalar_set_mpfr(s, m); mpfr_clear(m); return; } mpfr_clear(m); }
  ap_scalar_set_mpq(s, (mpq_ptr)x.v.get_mpq_t());
}
struct ScalarH { ap_scalar_t* s; ScalarH(const X& x, int k) { s = ap_scalar_alloc(); set_scalar(s, x, k); } ~ScalarH() { ap_scalar_free(s); } ScalarH(const ScalarH&) = delete; operator ap_scalar_t*() { return s; } };
inline ap_interval_t* mk_interval(const I& i, int k1, int k2) { ap_interval_t* r = ap_interval_alloc(); set_scalar(r->inf, i.lo, k1); set_scalar(r->sup, i.hi, k2); return r; }
inline void set_coeff(ap_coeff_t* c, const I& i, int k1, int k2, bool force_itv = false) {
  if (i.sing() && !force_itv) { ap_coeff_reinit(c, AP_COEFF_SCALAR, AP_SCALAR_MPQ); set_scalar(c->val.scalar, i.lo, k1); }
  else { ap_coeff_reinit(c, AP_COEFF_INTERVAL, AP_SCALAR_MPQ); set_scalar(c->val.interval->inf, i.lo, k1); set_scalar(c->val.interval->sup, i.hi, k2); } }

// ---------------------------------------------------------------- generation of numbers
struct NumCfg { int level = 1; int kinds = 7; bool frac = true; bool dyadic = false; };  // level 0: small ints, 1: mixed, 2: also huge/tiny
inline Q gen_q(Src& s, const NumCfg& c) {
  if (c.level == 0) { Q q = s.weighted({3, 3, 2}) == 0 ? Q(s.range(0, 2)) : Q(s.range(0, 6)); return s.coin() ? Q(-q) : q; }
  Q q;
  switch (s.weighted({40, 20, c.frac ? 14 : 0, c.frac && !c.dyadic ? 10 : 0, 6, c.level >= 2 ? 6 : 0, c.level >= 2 && c.frac ? 4 : 0})) {
  case 0: q = s.range(0, 5); break;
  case 1: q = s.range(0, 100); break;
  case 2: q = Q(s.range(0, 64), 1 << s.range(1, 5)); break;
  case 3: q = Q(s.range(0, 30), s.range(3, 11)); break;
  case 4: q = Q(s.range(0, 1 << 20)); if (c.frac && s.coin()) q /= 1024; break;
  case 5: { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, s.range(30, 90)); z += s.range(0, 2) - 1; q = z; break; }
  case 6: { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, s.range(20, 80)); q = Q(s.range(1, 7), z); break; }
  }
  q.canonicalize();
  return s.coin() ? Q(-q) : q;
}
inline int gen_kind(Src& s) { return s.weighted({4, 3, 1}); }
inline I gen_itv(Src& s, const NumCfg& c, bool inf_ok = true) {
  Q a = gen_q(s, c), b = gen_q(s, c); if (b < a) std::swap(a, b); I i{X(a), X(b)};
  if (inf_ok) { int w = s.weighted({8, 1, 1, 1}); if (w & 1) i.lo = X::minf(); if (w & 2) i.hi = X::pinf(); }
  return i; }

// ---------------------------------------------------------------- linear expressions
struct Lin { vector<I> c; I k = I(Q(0)); bool sparse = false; int kd = 0; Lin(size_t n = 0) : c(n, I(Q(0))) {} bool scalar() const { for (auto& i : c) if (!i.sing()) return false; return k.sing(); } };
inline string S(const Lin& l) { string r; for (size_t i = 0; i < l.c.size(); i++) if (!(l.c[i].sing() && l.c[i].lo.v == 0)) r += (l.c[i].sing() ? S(l.c[i].lo) : S(l.c[i])) + "*x" + std::to_string(i) + " + "; return r + (l.k.sing() ? S(l.k.lo) : S(l.k)); }
inline I eval(const Lin& l, const Pt& p) { I r = l.k; for (size_t i = 0; i < l.c.size(); i++) r = iadd(r, imul(l.c[i], I(p[i]))); return r; }
// exact value with interval coefficients resolved by the source
inline ap_linexpr0_t* mk_lin(const Lin& l, Src* s = nullptr) {
  ap_linexpr0_t* e = ap_linexpr0_alloc(l.sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, l.sparse ? 0 : l.c.size());
  auto kd = [&](size_t i) { return (l.kd == 3) ? (int)(i % 3) : l.kd; };
  for (size_t i = 0; i < l.c.size(); i++) { if (l.c[i].sing() && l.c[i].lo.v == 0) continue; set_coeff(ap_linexpr0_coeffref(e, i), l.c[i], kd(i), kd(i + 1)); }
  set_coeff(&e->cst, l.k, kd(7), kd(8)); return e; }
inline Lin of_lin(const ap_linexpr0_t* e, size_t n) {
  Lin l(n); l.k = of_coeff(&((ap_linexpr0_t*)e)->cst); size_t i; ap_dim_t d; ap_coeff_t* c;
  if (e->discr == AP_LINEXPR_DENSE) { for (i = 0; i < e->size; i++) { I v = of_coeff(&e->p.coeff[i]); if (i < n) l.c[i] = v; else if (!(v.sing() && v.lo.v == 0)) fail("linexpr-dim", "linear expression mentions dimension outside the space"); } }
  else for (i = 0; i < e->size; i++) { d = e->p.linterm[i].dim; if (d == AP_DIM_MAX) continue; if (d >= n) fail("linexpr-dim", "linear expression mentions dimension outside the space"); l.c[d] = iadd(l.c[d], of_coeff(&e->p.linterm[i].coeff)); }
  return l; }
struct LinCfg { NumCfg num; int itv = 15; /* percent of interval coefficients */ bool inf = true; int density = 50; int shape = 0; /* 0 any, 1: interval, 2: octagonal */ };
inline Lin gen_lin(Src& s, size_t n, const LinCfg& c) {
  Lin l(n); bool useitv = c.itv && (int)s.draw(100) >= 100 - c.itv; l.sparse = s.coin(); l.kd = s.weighted({4, 3, 1, 2});
  if (n) {
    int shape = c.shape ? c.shape : s.weighted({5, 2, 3});
    if (shape == 1) { l.c[s.draw(n)] = I(Q(s.coin() ? 1 : -1)); }
    else if (shape == 2) { int a = s.draw(n), b = s.draw(n); l.c[a] = I(Q(s.coin() ? 1 : -1)); if (b != a) l.c[b] = I(Q(s.coin() ? 1 : -1)); }
    else for (size_t i = 0; i < n; i++) if ((int)s.draw(100) >= 100 - c.density) { NumCfg nc = c.num; if (!s.chance(1, 4)) nc.level = 0; l.c[i] = useitv && s.coin() ? gen_itv(s, nc, c.inf && s.chance(1, 4)) : I(gen_q(s, nc)); }
  }
  l.k = useitv && s.coin() ? gen_itv(s, c.num, c.inf) : I(gen_q(s, c.num)); return l; }

// ---------------------------------------------------------------- linear constraints
struct Cons { Lin e; ap_constyp_t t = AP_CONS_SUPEQ; Q mod; };
inline const char* tyname(ap_constyp_t t) { static const char* n[] = {"=0", ">=0", ">0", "=0 mod", "!=0"}; switch (t) { case AP_CONS_EQ: return n[0]; case AP_CONS_SUPEQ: return n[1]; case AP_CONS_SUP: return n[2]; case AP_CONS_EQMOD: return n[3]; default: return n[4]; } }
inline string S(const Cons& c) { return S(c.e) + " " + tyname(c.t) + (c.t == AP_CONS_EQMOD ? " " + S(c.mod) : ""); }
// does some choice of the values in v satisfy the constraint type?
inline bool may_sat(const I& v, ap_constyp_t t, const Q& mod) {
  switch (t) {
  case AP_CONS_EQ: return v.lo <= X(0) && X(0) <= v.hi;
  case AP_CONS_SUPEQ: return X(0) <= v.hi;
  case AP_CONS_SUP: return X(0) < v.hi;
  case AP_CONS_DISEQ: return !(v.sing() && v.lo.v == 0);
  case AP_CONS_EQMOD: { if (mod == 0) return v.lo <= X(0) && X(0) <= v.hi; if (v.lo.inf || v.hi.inf) return true; Q m = abs(mod); mpz_class k = qceil(Q(v.lo.v / m)); return X(Q(k * m)) <= v.hi; }
  } return false; }
inline bool must_sat(const I& v, ap_constyp_t t, const Q& mod) { // all choices
  switch (t) { case AP_CONS_EQ: return v.sing() && v.lo.v == 0; case AP_CONS_SUPEQ: return X(0) <= v.lo; case AP_CONS_SUP: return X(0) < v.lo; case AP_CONS_DISEQ: return X(0) < v.lo || v.hi < X(0); case AP_CONS_EQMOD: return v.sing() && may_sat(v, t, mod); } return false; }
inline bool may_sat(const Cons& c, const Pt& p) { return may_sat(eval(c.e, p), c.t, c.mod); }
inline ap_lincons0_t mk_cons(const Cons& c) { ap_scalar_t* m = nullptr; if (c.t == AP_CONS_EQMOD) { m = ap_scalar_alloc(); set_scalar(m, X(c.mod), 0); } return ap_lincons0_make(c.t, mk_lin(c.e), m); }
inline Cons of_cons(const ap_lincons0_t* c, size_t n) { Cons r; r.e = of_lin(c->linexpr0, n); r.t = c->constyp; if (c->constyp == AP_CONS_EQMOD) { if (!c->scalar) fail("eqmod-no-modulo", "EQMOD constraint without modulo"); r.mod = of_scalar(c->scalar).v; } return r; }
inline ap_lincons0_array_t mk_cons_array(const vector<Cons>& v) { ap_lincons0_array_t a = ap_lincons0_array_make(v.size()); for (size_t i = 0; i < v.size(); i++) a.p[i] = mk_cons(v[i]); return a; }
inline vector<Cons> of_cons_array(const ap_lincons0_array_t* a, size_t n) { vector<Cons> v; for (size_t i = 0; i < a->size; i++) v.push_back(of_cons(&a->p[i], n)); return v; }
template<class T> string SV(const vector<T>& v) { string r = "{"; for (size_t i = 0; i < v.size(); i++) r += (i ? "; " : "") + S(v[i]); return r + "}"; }
// shifts the constant so that the constraint holds at p, tightly half of the time
inline void make_hold(Src& s, Cons& c, const Pt& p) {
  I v = eval(c.e, p); Q slack = s.coin() ? Q(s.range(1, 8)) : Q(0);
  auto shift = [&](const Q& d) { c.e.k = iadd(c.e.k, I(d)); };
  switch (c.t) {
  case AP_CONS_EQ: if (v.lo.fin() && (X(0) < v.lo)) shift(-v.lo.v); else if (v.hi.fin() && v.hi < X(0)) shift(-v.hi.v); break;
  case AP_CONS_SUPEQ: if (v.hi.fin()) shift(slack - v.hi.v); break;
  case AP_CONS_SUP: if (v.hi.fin()) shift(slack + (s.coin() ? Q(1) : Q(1, 2)) - v.hi.v); break;
  case AP_CONS_DISEQ: if (v.sing() && v.lo.v == 0) shift(1); break;
  case AP_CONS_EQMOD: if (v.lo.fin() && !may_sat(v, c.t, c.mod)) shift(-v.lo.v); break;
  } }
inline ap_constyp_t gen_type(Src& s, bool mod) { switch (s.weighted({8, 4, 3, mod ? 3 : 0, 1})) { case 0: return AP_CONS_SUPEQ; case 1: return AP_CONS_EQ; case 2: return AP_CONS_SUP; case 3: return AP_CONS_EQMOD; default: return AP_CONS_DISEQ; } }

// ---------------------------------------------------------------- tree expressions
struct TE; typedef std::shared_ptr<TE> T;
struct TE { int k = 0; /*0 cst 1 dim 2 node*/ I cst = I(Q(0)); int kd = 0; int dim = 0; ap_texpr_op_t op = AP_TEXPR_ADD; ap_texpr_rtype_t ty = AP_RTYPE_REAL; ap_texpr_rdir_t dir = AP_RDIR_RND; T a, b; };
inline bool unary(ap_texpr_op_t op) { return op == AP_TEXPR_NEG || op == AP_TEXPR_CAST || op == AP_TEXPR_SQRT; }
inline string S(const T& t) {
  if (t->k == 0) return t->cst.sing() ? S(t->cst.lo) : S(t->cst); if (t->k == 1) return "x" + std::to_string(t->dim);
  static const char* on[] = {"+", "-", "*", "/", "%", "^", "-", "cast", "sqrt"}; static const char* tn[] = {"", "i", "f", "d", "l", "q"}; static const char* dn[] = {"n", "0", "+oo", "-oo", "?", "?"};
  string d = t->ty == AP_RTYPE_REAL ? "" : string("_") + tn[t->ty] + "," + dn[t->dir];
  if (unary(t->op)) return string(on[t->op]) + d + "(" + S(t->a) + ")"; return "(" + S(t->a) + " " + on[t->op] + d + " " + S(t->b) + ")"; }
inline T t_cst(const I& i, int kd = 0) { T t(new TE); t->cst = i; t->kd = kd; return t; }
inline T t_dim(int d) { T t(new TE); t->k = 1; t->dim = d; return t; }
inline T t_bin(ap_texpr_op_t op, T a, T b, ap_texpr_rtype_t ty = AP_RTYPE_REAL, ap_texpr_rdir_t dir = AP_RDIR_RND) { T t(new TE); t->k = 2; t->op = op; t->a = a; t->b = b; t->ty = ty; t->dir = dir; return t; }
inline ap_texpr0_t* mk_te(const T& t) {
  if (t->k == 0) { ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); set_coeff(&c, t->cst, t->kd % 3, (t->kd + (t->kd == 3)) % 3); ap_texpr0_t* r = ap_texpr0_cst(&c); ap_coeff_clear(&c); return r; }
  if (t->k == 1) return ap_texpr0_dim(t->dim);
  if (unary(t->op)) return ap_texpr0_unop(t->op, mk_te(t->a), t->ty, t->dir);
  return ap_texpr0_binop(t->op, mk_te(t->a), mk_te(t->b), t->ty, t->dir); }
inline T of_te(const ap_texpr0_t* e) {
  T t(new TE); switch (e->discr) { case AP_TEXPR_CST: t->k = 0; t->cst = of_coeff(&e->val.cst); break; case AP_TEXPR_DIM: t->k = 1; t->dim = e->val.dim; break;
  default: t->k = 2; t->op = e->val.node->op; t->ty = e->val.node->type; t->dir = e->val.node->dir; t->a = of_te(e->val.node->exprA); if (e->val.node->exprB) t->b = of_te(e->val.node->exprB); } return t; }
inline bool t_linear_exact(const T& t) { // syntactically (interval) linear with exact arithmetic
  if (t->k < 2) return true; if (t->ty != AP_RTYPE_REAL && t->op != AP_TEXPR_NEG) return false;
  return true; }
// Rounding of an exact real to a type; nullopt-like: returns false on overflow
inline bool round_to(const Q& v, ap_texpr_rtype_t ty, ap_texpr_rdir_t dir, Src* s, Q& out) {
  if (ty == AP_RTYPE_REAL) { out = v; return true; }
  int d = dir; if (dir == AP_RDIR_RND) { if (s) { static const int m[4] = {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN}; d = m[s->draw(4)]; } else d = AP_RDIR_NEAREST; }
  if (ty == AP_RTYPE_INT) {
    switch (d) { case AP_RDIR_ZERO: out = qtrunc(v); break; case AP_RDIR_UP: out = qceil(v); break; case AP_RDIR_DOWN: out = qfloor(v); break;
    default: { mpz_class f = qfloor(v); Q r = v - f; if (r < Q(1, 2)) out = f; else if (r > Q(1, 2)) out = f + 1; else out = (mpz_even_p(f.get_mpz_t())) ? Q(f) : Q(f + 1); } } return true; }
  static const int prec[] = {0, 0, 24, 53, 64, 113}; static const long emax[] = {0, 0, 128, 1024, 16384, 16384}; static const long emin[] = {0, 0, -148, -1073, -16444, -16493};
  mpfr_rnd_t r = d == AP_RDIR_NEAREST ? MPFR_RNDN : d == AP_RDIR_ZERO ? MPFR_RNDZ : d == AP_RDIR_UP ? MPFR_RNDU : MPFR_RNDD;
  mpfr_exp_t oe = mpfr_get_emin(), oE = mpfr_get_emax(); mpfr_set_emin(emin[ty]); mpfr_set_emax(emax[ty]);
  mpfr_t m; mpfr_init2(m, prec[ty]); int t = mpfr_set_q(m, v.get_mpq_t(), r); t = mpfr_check_range(m, t, r); mpfr_subnormalize(m, t, r);
  bool ok = mpfr_number_p(m); { Q mx(1); mpq_mul_2exp(mx.get_mpq_t(), mx.get_mpq_t(), emax[ty]); if (abs(v) >= mx) ok = false; } // overflow is an error whatever the direction
  if (ok) out = q_of_mpfr(m); mpfr_clear(m); mpfr_set_emin(oe); mpfr_set_emax(oE); return ok; }
// One concrete value of the expression at p (free choices from s, or fixed). false: undefined or not exactly computable.
inline bool teval(const T& t, const Pt& p, Src* s, Q& out) {
  if (t->k == 0) { const I& i = t->cst; if (i.empty()) return false; if (i.sing()) { out = i.lo.v; return true; }
    Q lo = i.lo.fin() ? i.lo.v : i.hi.fin() ? Q(i.hi.v - 7) : Q(-3), hi = i.hi.fin() ? i.hi.v : i.lo.fin() ? Q(i.lo.v + 7) : Q(3);
    switch (s ? s->draw(3) : 0) { case 0: out = lo; break; case 1: out = hi; break; default: out = (lo + hi) / 2; } return true; }
  if (t->k == 1) { out = p[t->dim]; return true; }
  Q a, b, r; if (!teval(t->a, p, s, a)) return false; if (t->b && !teval(t->b, p, s, b)) return false;
  switch (t->op) {
  case AP_TEXPR_ADD: r = a + b; break; case AP_TEXPR_SUB: r = a - b; break; case AP_TEXPR_MUL: r = a * b; break;
  case AP_TEXPR_DIV: if (b == 0) return false; r = a / b; break;
  case AP_TEXPR_MOD: { if (b == 0) return false; if (t->ty == AP_RTYPE_INT && (!is_int(a) || !is_int(b))) return false; // an integer modulo is meant for integers
    Q c = abs(b); r = a - c * Q(qtrunc(Q(a / c))); out = r; return true; } // no rounding
  case AP_TEXPR_POW: { if (!is_int(b) || b < 0 || b > 20) return false; r = 1; for (int i = 0; i < b; i++) r *= a; break; }
  case AP_TEXPR_NEG: out = -a; return true;
  case AP_TEXPR_CAST: r = a; break;
  case AP_TEXPR_SQRT: { if (a < 0) return false; mpz_class sn, sd; if (mpz_perfect_square_p(a.get_num_mpz_t()) && mpz_perfect_square_p(a.get_den_mpz_t())) { sn = sqrt(a.get_num()); sd = sqrt(a.get_den()); r = Q(sn, sd); r.canonicalize(); break; }
      // irrational: exact only after rounding; use a far more precise enclosure whose ends round alike
      if (t->ty == AP_RTYPE_REAL) return false; mpfr_t m; mpfr_init2(m, 1000); mpfr_set_q(m, a.get_mpq_t(), MPFR_RNDN); Q l, u, o1, o2; mpfr_sqrt(m, m, MPFR_RNDN); Q mid = q_of_mpfr(m); mpfr_clear(m); Q eps = mid; mpq_div_2exp(eps.get_mpq_t(), eps.get_mpq_t(), 900); l = mid - eps; u = mid + eps;
      ap_texpr_rdir_t d = t->dir; if (d == AP_RDIR_RND) { static const ap_texpr_rdir_t mm[4] = {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN}; d = s ? mm[s->draw(4)] : AP_RDIR_NEAREST; }
      if (!round_to(l, t->ty, d, nullptr, o1) || !round_to(u, t->ty, d, nullptr, o2) || o1 != o2) return false; out = o1; return true; }
  default: return false; }
  return round_to(r, t->ty, t->dir, s, out); }
struct TECfg { NumCfg num; int depth = 3; bool nonlin = true, round = true, flround = true, itv = true, divmod = true, sqrtpow = true, nomod = false, nopow = false; };
inline T gen_te(Src& s, size_t n, const TECfg& c, int depth) {
  if (depth <= 0 || s.chance(1, 4)) { if (n && s.chance(2, 3)) return t_dim(s.draw(n)); NumCfg nc = c.num; if (s.coin()) nc.level = 0; I i = c.itv && s.chance(1, 5) ? gen_itv(s, nc, s.chance(1, 5)) : I(gen_q(s, nc)); return t_cst(i, s.weighted({4, 3, 1, 1})); }
  int op = s.weighted({6, 4, 5, c.divmod ? 3 : 0, c.divmod && !c.nomod ? 1 : 0, c.sqrtpow && !c.nopow ? 1 : 0, 2, c.round ? 2 : 0, c.sqrtpow ? 2 : 0});
  ap_texpr_rtype_t ty = AP_RTYPE_REAL; ap_texpr_rdir_t dir = AP_RDIR_RND;
  if (c.round && s.chance(1, 3)) { ty = (ap_texpr_rtype_t)s.range(1, c.flround ? 5 : 1); static const ap_texpr_rdir_t mm[5] = {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN, AP_RDIR_RND}; dir = mm[s.draw(5)]; }
  ap_texpr_op_t o = (ap_texpr_op_t)op; if (op == AP_TEXPR_CAST && ty == AP_RTYPE_REAL) { ty = AP_RTYPE_INT; dir = AP_RDIR_ZERO; }
  T t(new TE); t->k = 2; t->op = o; t->ty = ty; t->dir = dir; t->a = gen_te(s, n, c, depth - 1);
  if (!unary(o)) { if (o == AP_TEXPR_POW) t->b = t_cst(I(Q(s.range(0, 4))), s.draw(3)); else if (o == AP_TEXPR_MUL && !c.nonlin) t->b = t_cst(I(gen_q(s, c.num))); else t->b = gen_te(s, n, c, depth - 1); }
  return t; }
inline bool t_has(const T& t, const std::function<bool(const TE&)>& f) { if (f(*t)) return true; if (t->k == 2) { if (t_has(t->a, f)) return true; if (t->b && t_has(t->b, f)) return true; } return false; }
struct TCons { T e; ap_constyp_t t = AP_CONS_SUPEQ; Q mod; };
inline string S(const TCons& c) { return S(c.e) + " " + tyname(c.t) + (c.t == AP_CONS_EQMOD ? " " + S(c.mod) : ""); }
inline ap_tcons0_t mk_tcons(const TCons& c) { ap_scalar_t* m = nullptr; if (c.t == AP_CONS_EQMOD) { m = ap_scalar_alloc(); set_scalar(m, X(c.mod), 0); } return ap_tcons0_make(c.t, mk_te(c.e), m); }
inline ap_tcons0_array_t mk_tcons_array(const vector<TCons>& v) { ap_tcons0_array_t a = ap_tcons0_array_make(v.size()); for (size_t i = 0; i < v.size(); i++) a.p[i] = mk_tcons(v[i]); return a; }
