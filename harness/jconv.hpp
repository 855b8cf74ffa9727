// Expressions, constraints, generators, trees, dimension changes: model -> Java objects (several constructors) and back.
#pragma once
#include "jvm.hpp"
#define L_(c) "Lapron/" c ";"
inline jobject j_lin(const Lin& l, int how) {
  auto kd = [&](size_t i) { return (l.kd == 3) ? (int)(i % 3) : l.kd; }; auto zero = [](const I& i) { return i.sing() && i.lo.fin() && i.lo.v == 0; };
  if (how % 3 == (l.sparse ? 0 : 1)) how = 2;  // the same shape as in C: libraries may be more precise on one than on the other
  jobject k = j_coeff(l.k, kd(7), kd(8));
  if (how % 3 == 0) { vector<jobject> c; for (size_t i = 0; i < l.c.size(); i++) c.push_back(j_coeff(l.c[i], kd(i), kd(i + 1))); return jnew("apron/Linexpr0", "([Lapron/Coeff;Lapron/Coeff;)V", jarr("apron/Coeff", c), k); }
  if (how % 3 == 1) { vector<jobject> t; for (size_t i = l.c.size(); i-- > 0;) if (!zero(l.c[i])) t.push_back(jnew("apron/Linterm0", "(ILapron/Coeff;)V", (jint)i, j_coeff(l.c[i], kd(i), kd(i + 1)))); return jnew("apron/Linexpr0", "([Lapron/Linterm0;Lapron/Coeff;)V", jarr("apron/Linterm0", t), k); }
  jobject o = jnew("apron/Linexpr0", "(ZI)V", l.sparse, (jint)(l.sparse ? 0 : l.c.size()));
  for (size_t i = 0; i < l.c.size(); i++) if (!zero(l.c[i])) jcall("apron/Linexpr0", o, "setCoeff", "(ILapron/Coeff;)V", (jint)i, j_coeff(l.c[i], kd(i), kd(i + 1)));
  jcall("apron/Linexpr0", o, "setCst", "(Lapron/Coeff;)V", k); return o; }
inline ap_linexpr0_t* j_linptr(jobject o) { return (ap_linexpr0_t*)jptr("apron/Linexpr0", o); }
inline Lin j_of_lin(jobject o, size_t n) { return of_lin(j_linptr(o), n); }
inline jobject j_cons(const Cons& c, int how) { jobject e = j_lin(c.e, how); if (c.t == AP_CONS_EQMOD) return jnew("apron/Lincons0", "(ILapron/Linexpr0;Lapron/Scalar;)V", (jint)c.t, e, j_scalar(X(c.mod), 0)); return jnew("apron/Lincons0", "(ILapron/Linexpr0;)V", (jint)c.t, e); }
inline Cons j_of_cons(jobject o, size_t n) { if (!o) fail("java-null", "null constraint"); Cons c; c.t = (ap_constyp_t)JE->GetIntField(o, jfld("apron/Lincons0", "kind", "I")); c.e = j_of_lin(jget("apron/Lincons0", o, "expr", "Lapron/Linexpr0;"), n); jobject m = jget("apron/Lincons0", o, "scalar", "Lapron/Scalar;"); if (c.t == AP_CONS_EQMOD) { if (!m) fail("java-null", "congruence without modulo"); X x = j_of_scalar(m); c.mod = x.v; } return c; }
inline jobject j_te(const T& t) {
  if (t->k == 0) return jnew("apron/Texpr0CstNode", "(Lapron/Coeff;)V", j_coeff(t->cst, t->kd % 3, (t->kd + (t->kd == 3)) % 3));
  if (t->k == 1) return jnew("apron/Texpr0DimNode", "(I)V", (jint)t->dim);
  static const int un[] = {AP_TEXPR_NEG, AP_TEXPR_CAST, AP_TEXPR_SQRT}; (void)un;
  if (unary(t->op)) return jnew("apron/Texpr0UnNode", "(IIILapron/Texpr0Node;)V", (jint)t->op, (jint)t->ty, (jint)t->dir, j_te(t->a));
  return jnew("apron/Texpr0BinNode", "(IIILapron/Texpr0Node;Lapron/Texpr0Node;)V", (jint)t->op, (jint)t->ty, (jint)t->dir, j_te(t->a), j_te(t->b)); }
inline T j_of_te(jobject o) {
  if (!o) fail("java-null", "null tree expression"); T t(new TE); auto gi = [&](const char* c, const char* f) { return JE->GetIntField(o, jfld(c, f, "I")); };
  if (jis(o, "apron/Texpr0CstNode")) { t->k = 0; t->cst = j_of_coeff(jget("apron/Texpr0CstNode", o, "cst", "Lapron/Coeff;")); return t; }
  if (jis(o, "apron/Texpr0DimNode")) { t->k = 1; t->dim = gi("apron/Texpr0DimNode", "dim"); return t; }
  t->k = 2;
  if (jis(o, "apron/Texpr0UnNode")) { const char* c = "apron/Texpr0UnNode"; t->op = (ap_texpr_op_t)gi(c, "op"); t->ty = (ap_texpr_rtype_t)gi(c, "rtype"); t->dir = (ap_texpr_rdir_t)gi(c, "rdir"); t->a = j_of_te(jget(c, o, "arg", "Lapron/Texpr0Node;")); }
  else { const char* c = "apron/Texpr0BinNode"; t->op = (ap_texpr_op_t)gi(c, "op"); t->ty = (ap_texpr_rtype_t)gi(c, "rtype"); t->dir = (ap_texpr_rdir_t)gi(c, "rdir"); t->a = j_of_te(jget(c, o, "lArg", "Lapron/Texpr0Node;")); t->b = j_of_te(jget(c, o, "rArg", "Lapron/Texpr0Node;")); }
  return t; }
inline jobject j_tintern(const T& t) { return jnew("apron/Texpr0Intern", "(Lapron/Texpr0Node;)V", j_te(t)); }
inline ap_texpr0_t* j_teptr(jobject o) { return (ap_texpr0_t*)jptr("apron/Texpr0Intern", o); }
inline jobject j_tcons(const TCons& c, int how) { if (c.t == AP_CONS_EQMOD) return jnew("apron/Tcons0", "(ILapron/Texpr0Node;Lapron/Scalar;)V", (jint)c.t, j_te(c.e), j_scalar(X(c.mod), 0)); if (how & 1) return jnew("apron/Tcons0", "(ILapron/Texpr0Node;)V", (jint)c.t, j_te(c.e)); return jnew("apron/Tcons0", "(ILapron/Texpr0Intern;)V", (jint)c.t, j_tintern(c.e)); }
inline TCons j_of_tcons(jobject o) { if (!o) fail("java-null", "null constraint"); TCons c; c.t = (ap_constyp_t)JE->GetIntField(o, jfld("apron/Tcons0", "kind", "I")); c.e = of_te(j_teptr(jget("apron/Tcons0", o, "expr", "Lapron/Texpr0Intern;"))); jobject m = jget("apron/Tcons0", o, "scalar", "Lapron/Scalar;"); if (c.t == AP_CONS_EQMOD) { if (!m) fail("java-null", "congruence without modulo"); c.mod = j_of_scalar(m).v; } return c; }
inline bool ieq(const I& a, const I& b) { return a.lo == b.lo && a.hi == b.hi; }
inline bool iempty2(const I& a, const I& b) { return a.empty() && b.empty(); }
inline bool leq_(const Lin& a, const Lin& b) { if (a.c.size() != b.c.size() || !(ieq(a.k, b.k) || iempty2(a.k, b.k))) return false; for (size_t i = 0; i < a.c.size(); i++) if (!(ieq(a.c[i], b.c[i]) || iempty2(a.c[i], b.c[i]))) return false; return true; }
inline bool teq_(const T& a, const T& b) { if (a->k != b->k) return false; if (a->k == 0) return ieq(a->cst, b->cst) || iempty2(a->cst, b->cst); if (a->k == 1) return a->dim == b->dim; if (a->op != b->op || a->ty != b->ty || a->dir != b->dir || !!a->b != !!b->b) return false; return teq_(a->a, b->a) && (!a->b || teq_(a->b, b->b)); }
inline jobject j_dimchange(size_t ki, size_t kr, const vector<ap_dim_t>& d) { return jnew("apron/Dimchange", "(II[I)V", (jint)ki, (jint)kr, jints(d)); }
inline jobject j_dimperm(const vector<ap_dim_t>& p) { return jnew("apron/Dimperm", "([I)V", jints(p)); }
