// The data types of the Java interface (big numbers, scalars, intervals, expressions, dimension changes) against exact models.
#include "jconv.hpp"
#define GZ "Lgmp/Mpz;"
#define GQ "Lgmp/Mpq;"
#define GF "Lgmp/Mpfr;"
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static string NM(const string& c, const string& n) { return "java-" + c + "-" + n; }
static mpz_class gen_z(Src& s) { mpz_class z; switch (s.draw(4)) { case 0: case 1: z = s.range(0, 12); break; case 2: z = s.range(0, 1 << 30); break; default: mpz_ui_pow_ui(z.get_mpz_t(), 2, s.range(28, 100)); z += s.range(0, 4) - 2; } return s.coin() ? mpz_class(-z) : z; }
static int gen_int(Src& s) { switch (s.draw(5)) { case 0: case 1: return s.range(-9, 9); case 2: return s.range(-1000000, 1000000); case 3: return s.coin() ? 2147483647 : -2147483647 - 1; default: return s.range(-100, 100); } }
static double gen_d(Src& s) { static const double t[] = {0, 1, -1, 0.5, -2.75, 1e10, -1e-3, 4294967296.5, -1e300, 5e-324, 3}; return t[s.draw(11)] * (s.coin() ? 1 : s.range(1, 9)); }
#define ARITH "java.lang.ArithmeticException"
struct Zop { const char* n; void (*f)(mpz_ptr, mpz_srcptr, mpz_srcptr); bool div; };
static const Zop ZB[] = {{"add", mpz_add, 0}, {"sub", mpz_sub, 0}, {"mul", mpz_mul, 0}, {"addMul", mpz_addmul, 0}, {"subMul", mpz_submul, 0}, {"and", mpz_and, 0}, {"or", mpz_ior, 0}, {"xor", mpz_xor, 0}, {"gcd", mpz_gcd, 0}, {"lcm", mpz_lcm, 0}, {"cdivQ", mpz_cdiv_q, 1}, {"cdivR", mpz_cdiv_r, 1}, {"fdivQ", mpz_fdiv_q, 1}, {"fdivR", mpz_fdiv_r, 1}, {"tdivQ", mpz_tdiv_q, 1}, {"tdivR", mpz_tdiv_r, 1}, {"mod", mpz_mod, 1}};
static void mpz_case(Src& s) {
  const char* C = "gmp/Mpz"; mpz_class z[3]; jobject o[3]; for (int i = 0; i < 3; i++) { z[i] = gen_z(s); switch (s.draw(4)) { case 0: o[i] = j_mpz(z[i]); break; case 1: o[i] = jnew(C, "(Ljava/math/BigInteger;)V", j_big(z[i])); break; case 2: o[i] = jnew(C, "(Ljava/lang/String;)V", jutf(z[i].get_str())); break; default: o[i] = jnew(C, "(" GZ ")V", j_mpz(z[i])); } }
  string w; auto check = [&](const string& n) { for (int i = 0; i < 3; i++) if (mpz_cmp(z[i].get_mpz_t(), JZ(o[i]))) fail(NM("mpz", n), w + ": number " + std::to_string(i) + " should be " + z[i].get_str() + " and is " + mpz_class(JZ(o[i])).get_str()); };
  check("init"); int st = s.range(1, 5);
  for (int k = 0; k < st; k++) { int r = s.draw(3), a = s.draw(3), b = s.draw(3); w = ""; string n; auto W = [&](const string& nm) { n = nm; w = nm + " r=" + std::to_string(r) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " on " + z[0].get_str() + " " + z[1].get_str() + " " + z[2].get_str(); TR(w); label("mpz:" + nm); };
    switch (s.draw(13)) {
    case 0: case 1: { const Zop& p = ZB[s.draw(sizeof ZB / sizeof *ZB)]; W(p.n); bool z0 = p.div && z[b] == 0, ex = false; try { jcall(C, o[r], p.n, "(" GZ GZ ")V", o[a], o[b]); } catch (const JX& x) { if (x.cls != ARITH) throw; ex = true; } if (ex != z0) fail(NM("mpz", n), w + (ex ? ": division refused" : ": division by zero accepted")); if (!z0) p.f(z[r].get_mpz_t(), z[a].get_mpz_t(), z[b].get_mpz_t()); break; }
    case 2: { static const struct { const char* n; void (*f)(mpz_ptr, mpz_srcptr); } U[] = {{"neg", mpz_neg}, {"abs", mpz_abs}, {"not", mpz_com}, {"set", mpz_set}}; auto& p = U[s.draw(4)]; W(p.n); jcall(C, o[r], p.n, "(" GZ ")V", o[a]); p.f(z[r].get_mpz_t(), z[a].get_mpz_t()); break; }
    case 3: { int i = gen_int(s); mpz_class I = i; static const char* N[] = {"add", "sub", "mul", "addMul", "subMul"}; int q = s.draw(5); W(N[q]); w += " int " + std::to_string(i); jcall(C, o[r], N[q], "(" GZ "I)V", o[a], (jint)i); mpz_class t = z[a]; switch (q) { case 0: z[r] = t + I; break; case 1: z[r] = t - I; break; case 2: z[r] = t * I; break; case 3: z[r] += t * I; break; default: z[r] -= t * I; } break; }
    case 4: { int e = s.draw(70); static const char* N[] = {"mul2exp", "fdivQ2exp", "cdivQ2exp", "tdivQ2exp", "fdivR2exp", "cdivR2exp", "tdivR2exp"}; static void (*F[])(mpz_ptr, mpz_srcptr, mp_bitcnt_t) = {mpz_mul_2exp, mpz_fdiv_q_2exp, mpz_cdiv_q_2exp, mpz_tdiv_q_2exp, mpz_fdiv_r_2exp, mpz_cdiv_r_2exp, mpz_tdiv_r_2exp}; int q = s.draw(7); W(N[q]); w += " " + std::to_string(e); jcall(C, o[r], N[q], "(" GZ "I)V", o[a], (jint)e); F[q](z[r].get_mpz_t(), z[a].get_mpz_t(), e); break; }
    case 5: { int i = gen_int(s); double d = gen_d(s); int t; W("cmp"); w += " int " + std::to_string(i) + " double " + std::to_string(d);
      t = jcall(C, o[a], "cmp", "(" GZ ")I", o[b]).i; if (sg(t) != sg(cmp(z[a], z[b]))) fail(NM("mpz", "cmp"), w); t = jcall(C, o[a], "cmp", "(I)I", (jint)i).i; if (sg(t) != sg(cmp(z[a], i))) fail(NM("mpz", "cmp-int"), w); t = jcall(C, o[a], "cmp", "(D)I", d).i; if (sg(t) != sg(cmp(Q(z[a]), q_of_double(d)))) fail(NM("mpz", "cmp-double"), w);
      t = jcall(C, o[a], "cmpAbs", "(" GZ ")I", o[b]).i; if (sg(t) != sg(cmp(abs(z[a]), abs(z[b])))) fail(NM("mpz", "cmpAbs"), w); t = jcall(C, o[a], "cmpAbs", "(I)I", (jint)i).i; if (sg(t) != sg(cmp(abs(z[a]), abs(mpz_class(i))))) fail(NM("mpz", "cmpAbs-int"), w); if (jcall(C, o[a], "sgn", "()I").i != sgn(z[a])) fail(NM("mpz", "sgn"), w);
      if (jcall(C, o[a], "isEqual", "(" GZ ")Z", o[b]).z != (z[a] == z[b])) fail(NM("mpz", "isEqual"), w); if (z[a] == z[b] && jcall(C, o[a], "hashCode", "()I").i != jcall(C, o[b], "hashCode", "()I").i) fail(NM("mpz", "hashCode"), w);
      if ((bool)jcall(C, o[a], "fitsInt", "()Z").z != (bool)mpz_fits_sint_p(z[a].get_mpz_t())) fail(NM("mpz", "fitsInt"), w); if (mpz_fits_sint_p(z[a].get_mpz_t()) && jcall(C, o[a], "intValue", "()I").i != z[a].get_si()) fail(NM("mpz", "intValue"), w); if (jcall(C, o[a], "doubleValue", "()D").d != z[a].get_d()) fail(NM("mpz", "doubleValue"), w);
      if (jcall(C, o[a], "isOdd", "()Z").z != (bool)mpz_odd_p(z[a].get_mpz_t())) fail(NM("mpz", "isOdd"), w); break; }
    case 6: { int base = s.range(2, 36); W("toString"); if (jstr(jcall(C, o[a], "toString", "(I)Ljava/lang/String;", (jint)base).l) != z[a].get_str(base)) fail(NM("mpz", "toString"), w); jobject q = jnew(C, "(Ljava/lang/String;I)V", jutf(z[a].get_str(base)), (jint)base); if (mpz_cmp(JZ(q), z[a].get_mpz_t())) fail(NM("mpz", "of-string"), w); jobject bi = jcall(C, o[a], "bigIntegerValue", "()Ljava/math/BigInteger;").l; if (jstr(jcall("java/math/BigInteger", bi, "toString", "()Ljava/lang/String;").l) != z[a].get_str()) fail(NM("mpz", "bigIntegerValue"), w); double d = gen_d(s); jcall(C, o[r], "set", "(D)V", d); mpz_set_d(z[r].get_mpz_t(), d); break; }
    case 7: { int e = s.draw(8); W("pow"); jcall(C, o[r], "pow", "(" GZ "I)V", o[a], (jint)e); mpz_pow_ui(z[r].get_mpz_t(), z[a].get_mpz_t(), e); break; }
    case 9: case 10: { // division by an int: the remainder is returned (its absolute value) and both results may be stored
      int d = gen_int(s); typedef unsigned long (*FQ)(mpz_ptr, mpz_srcptr, unsigned long); static const struct { const char* n; FQ q, r; } D[] = {{"cdiv", mpz_cdiv_q_ui, mpz_cdiv_r_ui}, {"fdiv", mpz_fdiv_q_ui, mpz_fdiv_r_ui}, {"tdiv", mpz_tdiv_q_ui, mpz_tdiv_r_ui}}; auto& p = D[s.draw(3)]; int kind = s.draw(4); static const char* K[] = {"Q", "R", "QR", "R1"}; string nm = string(p.n) + K[kind]; if (kind == 2 && r == b) break; W(nm + " int"); w += " int " + std::to_string(d); string mn = kind == 3 ? string(p.n) + "R" : nm; string ex; int t = 0;
      try { t = kind == 2 ? jcall(C, o[r], mn, "(" GZ GZ "I)I", o[b], o[a], (jint)d).i : kind == 3 ? jcall(C, o[a], mn, "(I)I", (jint)d).i : jcall(C, o[r], mn, "(" GZ "I)I", o[a], (jint)d).i; } catch (const JX& x) { ex = x.cls; }
      if (d <= 0) { if (ex != (d ? "java.lang.IllegalArgumentException" : ARITH)) fail(NM("mpz", nm), w + ": division by zero or a negative integer gives " + (ex.empty() ? "no exception" : ex)); break; } if (!ex.empty()) fail(NM("mpz", nm), w + ": exception " + ex);
      mpz_class x = z[a], q, m; unsigned long e = p.q(q.get_mpz_t(), x.get_mpz_t(), d); p.r(m.get_mpz_t(), x.get_mpz_t(), d); if ((long)t != (long)e) fail(NM("mpz", nm), w + ": remainder " + std::to_string(t) + " instead of " + std::to_string(e)); if (kind == 0) z[r] = q; else if (kind == 1) z[r] = m; else if (kind == 2) { z[r] = q; z[b] = m; } break; }
    case 11: { switch (s.draw(4)) {
      case 0: { if (z[a] < 0 || r == b) break; W("sqrtrem"); jcall(C, o[r], "sqrt", "(" GZ GZ ")V", o[b], o[a]); mpz_class x = z[a]; mpz_sqrtrem(z[r].get_mpz_t(), z[b].get_mpz_t(), x.get_mpz_t()); break; }
      case 1: { int e = s.range(1, 9); mpz_class x = abs(z[b]); if (x == 0) break; W("mod int"); e = e * e * 37; int t = jcall(C, o[r], "mod", "(" GZ "I)I", o[a], (jint)e).i; mpz_class m; unsigned long u = mpz_mod_ui(m.get_mpz_t(), z[a].get_mpz_t(), e); if ((unsigned long)t != u) fail(NM("mpz", "mod-int"), w + ": " + std::to_string(t)); z[r] = m; break; }
      case 2: { int e = s.range(1, 9); W("divExact"); mpz_class x = z[a] * e; jcall(C, o[r], "mul", "(" GZ "I)V", o[a], (jint)e); z[r] = x; jcall(C, o[r], "divExact", "(" GZ "I)V", o[r], (jint)e); z[r] = x / e; break; }
      default: { int e = s.range(1, 40); W("divisible"); bool t = jcall(C, o[a], "isDivisible", "(I)Z", (jint)e).z, u = z[b] != 0 && jcall(C, o[a], "isDivisible", "(" GZ ")Z", o[b]).z; if (t != (bool)mpz_divisible_ui_p(z[a].get_mpz_t(), e)) fail(NM("mpz", "isDivisible"), w + " int " + std::to_string(e)); if (z[b] != 0 && u != (bool)mpz_divisible_p(z[a].get_mpz_t(), z[b].get_mpz_t())) fail(NM("mpz", "isDivisible"), w);
        if (jcall(C, o[a], "isDivisible2exp", "(I)Z", (jint)(e / 8)).z != (bool)mpz_divisible_2exp_p(z[a].get_mpz_t(), e / 8)) fail(NM("mpz", "isDivisible2exp"), w); if (z[r] != 0 && jcall(C, o[a], "isCongruent", "(" GZ GZ ")Z", o[b], o[r]).z != (bool)mpz_congruent_p(z[a].get_mpz_t(), z[b].get_mpz_t(), z[r].get_mpz_t())) fail(NM("mpz", "isCongruent"), w); break; } } break; }
    case 12: { int e = s.range(0, 9); switch (s.draw(3)) { case 0: { W("powm"); mpz_class m = abs(z[b]); if (m == 0) break; mpz_class x; mpz_powm_ui(x.get_mpz_t(), z[a].get_mpz_t(), e, z[b].get_mpz_t()); jcall(C, o[r], "pow", "(" GZ "I" GZ ")V", o[a], (jint)e, o[b]); z[r] = x; break; }
      case 1: { int i = s.range(0, 12); W("pow-int"); jcall(C, o[r], "pow", "(II)V", (jint)i, (jint)e); mpz_ui_pow_ui(z[r].get_mpz_t(), i, e); break; }
      default: { int i = gen_int(s); W("sub-from-int"); w += " int " + std::to_string(i); jcall(C, o[r], "sub", "(I" GZ ")V", (jint)i, o[a]); z[r] = mpz_class(i) - z[a]; } } break; }
    case 8: { if (z[a] < 0) break; W("root"); int e = s.range(1, 5); if (s.coin()) { jcall(C, o[r], "sqrt", "(" GZ ")V", o[a]); mpz_sqrt(z[r].get_mpz_t(), z[a].get_mpz_t()); } else { bool x = jcall(C, o[r], "root", "(" GZ "I)Z", o[a], (jint)e).z; bool y = mpz_root(z[r].get_mpz_t(), z[a].get_mpz_t(), e); if (x != y) fail(NM("mpz", "root"), w); } break; } }
    if (n.size()) { check(n); s.nontrivial = true; } } }
static void mpq_case(Src& s) {
  const char* C = "gmp/Mpq"; Q q[3]; jobject o[3]; NumCfg nc; nc.level = 2; for (int i = 0; i < 3; i++) { q[i] = gen_q(s, nc); switch (s.draw(3)) { case 0: o[i] = j_mpq(q[i]); break; case 1: o[i] = jnew(C, "(" GZ GZ ")V", j_mpz(q[i].get_num()), j_mpz(q[i].get_den())); break; default: o[i] = jnew(C, "(Ljava/lang/String;)V", jutf(q[i].get_str())); } }
  string w; auto check = [&](const string& n) { for (int i = 0; i < 3; i++) if (!mpq_equal(q[i].get_mpq_t(), JQ(o[i]))) fail(NM("mpq", n), w + ": number " + std::to_string(i) + " should be " + q[i].get_str() + " and is " + Q(JQ(o[i])).get_str()); };
  check("init"); int st = s.range(1, 4);
  for (int k = 0; k < st; k++) { int r = s.draw(3), a = s.draw(3), b = s.draw(3); string n; auto W = [&](const string& nm) { n = nm; w = nm + " r=" + std::to_string(r) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " on " + q[0].get_str() + " " + q[1].get_str() + " " + q[2].get_str(); TR(w); label("mpq:" + nm); };
    switch (s.draw(5)) {
    case 0: { static const struct { const char* n; void (*f)(mpq_ptr, mpq_srcptr, mpq_srcptr); } B[] = {{"add", mpq_add}, {"sub", mpq_sub}, {"mul", mpq_mul}, {"div", mpq_div}}; auto& p = B[s.draw(4)]; if (p.f == mpq_div && q[b] == 0) break; W(p.n); jcall(C, o[r], p.n, "(" GQ GQ ")V", o[a], o[b]); p.f(q[r].get_mpq_t(), q[a].get_mpq_t(), q[b].get_mpq_t()); break; }
    case 1: { static const struct { const char* n; void (*f)(mpq_ptr, mpq_srcptr); } U[] = {{"neg", mpq_neg}, {"abs", mpq_abs}, {"set", mpq_set}, {"inv", mpq_inv}}; auto& p = U[s.draw(4)]; if (p.f == mpq_inv && q[a] == 0) break; W(p.n); jcall(C, o[r], p.n, "(" GQ ")V", o[a]); p.f(q[r].get_mpq_t(), q[a].get_mpq_t()); break; }
    case 2: { int e = s.range(-40, 40); bool m = s.coin(); W(m ? "mul2exp" : "div2exp"); w += " " + std::to_string(e); jcall(C, o[r], n, "(" GQ "I)V", o[a], (jint)e); int f = m ? e : -e; if (f >= 0) mpq_mul_2exp(q[r].get_mpq_t(), q[a].get_mpq_t(), f); else mpq_div_2exp(q[r].get_mpq_t(), q[a].get_mpq_t(), -f); break; }
    case 3: { int x = gen_int(s), y = s.range(1, 50); W("cmp"); w += " " + std::to_string(x) + "/" + std::to_string(y); Q xy(x, y); xy.canonicalize(); if (sg(jcall(C, o[a], "cmp", "(" GQ ")I", o[b]).i) != sg(cmp(q[a], q[b]))) fail(NM("mpq", "cmp"), w); if (sg(jcall(C, o[a], "cmp", "(II)I", (jint)x, (jint)y).i) != sg(cmp(q[a], xy))) fail(NM("mpq", "cmp-int"), w); if (jcall(C, o[a], "isEqual", "(" GQ ")Z", o[b]).z != (q[a] == q[b])) fail(NM("mpq", "isEqual"), w); if (q[a] == q[b] && jcall(C, o[a], "hashCode", "()I").i != jcall(C, o[b], "hashCode", "()I").i) fail(NM("mpq", "hashCode"), w); if (jcall(C, o[a], "sgn", "()I").i != sgn(q[a])) fail(NM("mpq", "sgn"), w);
      if (mpz_cmp(JZ(jcall(C, o[a], "getNum", "()" GZ).l), q[a].get_num_mpz_t()) || mpz_cmp(JZ(jcall(C, o[a], "getDen", "()" GZ).l), q[a].get_den_mpz_t())) fail(NM("mpq", "getNum"), w); if (jstr(jcall(C, o[a], "toString", "()Ljava/lang/String;").l) != q[a].get_str()) fail(NM("mpq", "toString"), w); if (jcall(C, o[a], "doubleValue", "()D").d != mpq_get_d(q[a].get_mpq_t())) fail(NM("mpq", "doubleValue"), w); break; }
    case 4: { W("set-value"); switch (s.draw(3)) { case 0: { double d = gen_d(s); jcall(C, o[r], "set", "(D)V", d); q[r] = q_of_double(d); break; } case 1: { int x = gen_int(s); jcall(C, o[r], "set", "(I)V", (jint)x); q[r] = x; break; } case 2: { mpz_class t = gen_z(s); jcall(C, o[r], "set", "(" GZ ")V", j_mpz(t)); q[r] = t; break; } } break; } }
    if (n.size()) { check(n); s.nontrivial = true; } } }
static mpfr_rnd_t rnd(int i) { static const mpfr_rnd_t t[] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD}; return t[i]; }
static void mpfr_case(Src& s) {
  const char* C = "gmp/Mpfr"; struct M { mpfr_t m[3]; M() {} ~M() { for (auto& x : m) mpfr_clear(x); } } mm; mpfr_t* m = mm.m; jobject o[3]; NumCfg nc; nc.level = 2;
  for (int i = 0; i < 3; i++) { static const int pr[] = {53, 24, 2, 113, 64}; mpfr_init2(m[i], pr[s.draw(5)]); if (s.chance(1, 12)) mpfr_set_inf(m[i], s.coin() ? 1 : -1); else mpfr_set_q(m[i], gen_q(s, nc).get_mpq_t(), MPFR_RNDN); o[i] = j_mpfr(m[i]); if (s.coin()) o[i] = jnew(C, "(" GF ")V", o[i]); }
  string w; auto st_ = [&](mpfr_srcptr x) { char b[300]; mpfr_snprintf(b, 300, "%.30Rg(%d)", x, (int)mpfr_get_prec(x)); return string(b); };
  auto check = [&](const string& n) { for (int i = 0; i < 3; i++) { if (mpfr_nan_p(m[i]) ? !mpfr_nan_p(JF(o[i])) : (!mpfr_equal_p(m[i], JF(o[i])) || mpfr_get_prec(m[i]) != mpfr_get_prec(JF(o[i])))) fail(NM("mpfr", n), w + ": number " + std::to_string(i) + " should be " + st_(m[i]) + " and is " + st_(JF(o[i]))); } };
  check("init"); int st = s.range(1, 4);
  for (int k = 0; k < st; k++) { int r = s.draw(3), a = s.draw(3), b = s.draw(3), rd = s.draw(4); string n; int t1 = 0, t2 = 0; auto W = [&](const string& nm) { n = nm; w = nm + " r=" + std::to_string(r) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " rnd " + std::to_string(rd) + " on " + st_(m[0]) + " " + st_(m[1]) + " " + st_(m[2]); TR(w); label("mpfr:" + nm); }; mpfr_rnd_t R = rnd(rd);
    switch (s.draw(7)) {
    case 0: { static const struct { const char* n; int (*f)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t); } B[] = {{"add", mpfr_add}, {"sub", mpfr_sub}, {"mul", mpfr_mul}, {"div", mpfr_div}, {"min", mpfr_min}, {"max", mpfr_max}, {"dim", mpfr_dim}, {"hypot", mpfr_hypot}, {"copySign", mpfr_copysign}}; auto& p = B[s.draw(9)]; W(p.n); t1 = jcall(C, o[r], p.n, "(" GF GF "I)I", o[a], o[b], (jint)rd).i; t2 = p.f(m[r], m[a], m[b], R); break; }
    case 1: { static const struct { const char* n; int (*f)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t); } U[] = {{"neg", mpfr_neg}, {"abs", mpfr_abs}, {"sqrt", mpfr_sqrt}, {"cbrt", mpfr_cbrt}, {"rint", mpfr_rint}, {"rint_ceil", mpfr_rint_ceil}, {"rint_floor", mpfr_rint_floor}, {"rint_trunc", mpfr_rint_trunc}, {"rint_round", mpfr_rint_round}, {"frac", mpfr_frac}}; auto& p = U[s.draw(10)]; W(p.n); t1 = jcall(C, o[r], p.n, "(" GF "I)I", o[a], (jint)rd).i; t2 = p.f(m[r], m[a], R); break; }
    case 2: { int i = gen_int(s); static const struct { const char* n; int (*f)(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t); } B[] = {{"add", mpfr_add_si}, {"sub", mpfr_sub_si}, {"mul", mpfr_mul_si}, {"div", mpfr_div_si}}; auto& p = B[s.draw(4)]; W(string(p.n) + "-int"); w += " int " + std::to_string(i); t1 = jcall(C, o[r], p.n, "(" GF "II)I", o[a], (jint)i, (jint)rd).i; t2 = p.f(m[r], m[a], i, R); break; }
    case 3: { Q x = gen_q(s, nc); static const struct { const char* n; int (*f)(mpfr_ptr, mpfr_srcptr, mpq_srcptr, mpfr_rnd_t); } B[] = {{"add", mpfr_add_q}, {"sub", mpfr_sub_q}, {"mul", mpfr_mul_q}, {"div", mpfr_div_q}}; auto& p = B[s.draw(4)]; if (x == 0) x = 1; W(string(p.n) + "-mpq"); w += " " + x.get_str(); t1 = jcall(C, o[r], p.n, "(" GF GQ "I)I", o[a], j_mpq(x), (jint)rd).i; t2 = p.f(m[r], m[a], x.get_mpq_t(), R); break; }
    case 4: { double d = gen_d(s); int i = gen_int(s); Q x = gen_q(s, nc); mpz_class z = gen_z(s); W("cmp"); w += " double " + std::to_string(d) + " int " + std::to_string(i) + " " + x.get_str() + " " + z.get_str(); if (mpfr_nan_p(m[a]) || mpfr_nan_p(m[b])) break; if (sg(jcall(C, o[a], "cmp", "(" GF ")I", o[b]).i) != sg(mpfr_cmp(m[a], m[b]))) fail(NM("mpfr", "cmp"), w); if (sg(jcall(C, o[a], "cmp", "(D)I", d).i) != sg(mpfr_cmp_d(m[a], d))) fail(NM("mpfr", "cmp-double"), w); if (sg(jcall(C, o[a], "cmp", "(I)I", (jint)i).i) != sg(mpfr_cmp_si(m[a], i))) fail(NM("mpfr", "cmp-int"), w); if (sg(jcall(C, o[a], "cmp", "(" GQ ")I", j_mpq(x)).i) != sg(mpfr_cmp_q(m[a], x.get_mpq_t()))) fail(NM("mpfr", "cmp-mpq"), w); if (sg(jcall(C, o[a], "cmp", "(" GZ ")I", j_mpz(z)).i) != sg(mpfr_cmp_z(m[a], z.get_mpz_t()))) fail(NM("mpfr", "cmp-mpz"), w); if (sg(jcall(C, o[a], "sgn", "()I").i) != sg(mpfr_sgn(m[a]))) fail(NM("mpfr", "sgn"), w); if (mpfr_equal_p(m[a], m[b]) && mpfr_get_prec(m[a]) == mpfr_get_prec(m[b]) && !mpfr_zero_p(m[a]) && jcall(C, o[a], "hashCode", "()I").i != jcall(C, o[b], "hashCode", "()I").i) fail(NM("mpfr", "hashCode"), w); if (jcall(C, o[a], "isEqual", "(" GF ")Z", o[b]).z != (bool)mpfr_equal_p(m[a], m[b])) fail(NM("mpfr", "isEqual"), w); if (jcall(C, o[a], "isInf", "()Z").z != (bool)mpfr_inf_p(m[a])) fail(NM("mpfr", "isInf"), w); if (jcall(C, o[a], "doubleValue", "(I)D", (jint)rd).d != mpfr_get_d(m[a], R)) fail(NM("mpfr", "doubleValue"), w); break; }
    case 5: { W("set-value"); switch (s.draw(5)) { case 0: { double d = gen_d(s); t1 = jcall(C, o[r], "set", "(DI)I", d, (jint)rd).i; t2 = mpfr_set_d(m[r], d, R); break; } case 1: { int i = gen_int(s); t1 = jcall(C, o[r], "set", "(II)I", (jint)i, (jint)rd).i; t2 = mpfr_set_si(m[r], i, R); break; } case 2: { Q x = gen_q(s, nc); t1 = jcall(C, o[r], "set", "(" GQ "I)I", j_mpq(x), (jint)rd).i; t2 = mpfr_set_q(m[r], x.get_mpq_t(), R); break; } case 3: t1 = jcall(C, o[r], "set", "(" GF "I)I", o[a], (jint)rd).i; t2 = mpfr_set(m[r], m[a], R); break; case 4: { mpz_class z = gen_z(s); t1 = jcall(C, o[r], "set", "(" GZ "I)I", j_mpz(z), (jint)rd).i; t2 = mpfr_set_z(m[r], z.get_mpz_t(), R); break; } } break; }
    case 6: { if (!mpfr_number_p(m[a])) break; W("mpz-value"); mpz_class z; mpfr_get_z(z.get_mpz_t(), m[a], R); if (mpz_cmp(z.get_mpz_t(), JZ(jcall(C, o[a], "MpzValue", "(I)" GZ, (jint)rd).l))) fail(NM("mpfr", "MpzValue"), w); break; } }
    if (n.size()) { if (sg(t1) != sg(t2)) fail(NM("mpfr", n), w + ": the ternary value is " + std::to_string(t1) + " instead of " + std::to_string(t2)); check(n); s.nontrivial = true; } } }
// ---- scalars and intervals
static const char* scls(jobject o) { return jis(o, "apron/MpqScalar") ? "apron/MpqScalar" : jis(o, "apron/MpfrScalar") ? "apron/MpfrScalar" : "apron/DoubleScalar"; }
static X gen_sx(Src& s) { NumCfg nc; nc.level = 2; if (s.chance(1, 6)) return s.coin() ? X::pinf() : X::minf(); return X(gen_q(s, nc)); }
static void scalar_case(Src& s) {
  X x = gen_sx(s), y = s.chance(1, 4) ? x : gen_sx(s); jobject o = j_scalar(x, gen_kind(s)), p = j_scalar(y, gen_kind(s)); string C = scls(o), w = S(x) + " (" + C + ") and " + S(y) + " (" + scls(p) + ")"; TR("scalars " << w); label("scalar:" + C); s.nontrivial = true;
  auto ck = [&](const char* n, long g, long e) { if (g != e) fail(NM("scalar", n), w + ": " + n + " is " + std::to_string(g) + " instead of " + std::to_string(e)); };
  int i = s.coin() && x.fin() && is_int(x.v) && x.v.get_num().fits_sint_p() ? (int)x.v.get_num().get_si() : gen_int(s); w += " and the integer " + std::to_string(i);
  ck("isInfty", sg(jcall(C, o, "isInfty", "()I").i), x.inf); ck("isZero", jcall(C, o, "isZero", "()Z").z, x == X(0)); ck("sgn", sg(jcall(C, o, "sgn", "()I").i), x.inf ? x.inf : sgn(x.v)); ck("cmp", sg(jcall(C, o, "cmp", "(Lapron/Scalar;)I", p).i), cmp(x, y)); ck("cmp-int", sg(jcall(C, o, "cmp", "(I)I", (jint)i).i), cmp(x, X(Q(i)))); ck("isEqual", jcall(C, o, "isEqual", "(Lapron/Scalar;)Z", p).z, x == y); ck("isEqual-int", jcall(C, o, "isEqual", "(I)Z", (jint)i).z, x == X(Q(i)));
  ck("cmp-coeff", sg(jcall("apron/Coeff", o, "cmp", "(Lapron/Coeff;)I", p).i), cmp(x, y)); ck("equals", jcall("java/lang/Object", o, "equals", "(Ljava/lang/Object;)Z", p).z, x == y);
  if (x == y && string(scls(p)) == C) ck("hashCode", jcall(C, o, "hashCode", "()I").i == jcall(C, p, "hashCode", "()I").i, 1);
  jobject c = jcall("apron/Scalar", o, "copy", "()Lapron/Scalar;").l; if (j_of_scalar(c) != x) fail(NM("scalar", "copy"), w);
  auto same = [&](const char* n, jobject z, const X& e) { X g = j_of_scalar(z); if (g != e) fail(NM("scalar", n), w + ": " + n + " gives " + S(g) + " instead of " + S(e)); };
  jcall("apron/Scalar", c, "neg", "()V"); same("neg", c, neg(x)); same("copy-shared", o, x);
  // conversions: the returned sign tells whether the result is below, equal to or above the scalar; directed roundings go the right way
  { int rd = s.draw(4); jobject q = jnew("gmp/Mpq", "()V"); int t = jcall(C, o, "toMpq", "(" GQ "I)I", q, (jint)rd).i; same("toMpq", jnew("apron/MpqScalar", "(" GQ ")V", q), x); ck("toMpq-exact", t, 0);
    auto dir = [&](const char* n, const X& g, int t) { if (x.inf) { if (g != x) fail(NM("scalar", n), w + ": " + n + " gives " + S(g)); return; } int e = cmp(g, x); if ((rd == 2 && e < 0) || (rd == 3 && e > 0) || (rd == 1 && (sgn(x.v) >= 0 ? e > 0 : e < 0))) fail(NM("scalar", string(n) + "-rounding"), w + ": " + n + " rounds " + S(x) + " to " + S(g) + " in mode " + std::to_string(rd)); if (sg(t) != e) fail(NM("scalar", string(n) + "-sign"), w + ": " + n + " rounds " + S(x) + " to " + S(g) + " and answers " + std::to_string(t)); };
    jdoubleArray da = JE->NewDoubleArray(1); t = jcall(C, o, "toDouble", "([DI)I", (jobject)da, (jint)rd).i; double d; JE->GetDoubleArrayRegion(da, 0, 1, &d); dir("toDouble", std::isinf(d) ? (d > 0 ? X::pinf() : X::minf()) : X(q_of_double(d)), t);
    jobject f = jnew("gmp/Mpfr", "(I)V", (jint)s.range(2, 80)); t = jcall(C, o, "toMpfr", "(" GF "I)I", f, (jint)rd).i; mpfr_ptr fm = JF(f); dir("toMpfr", mpfr_inf_p(fm) ? (mpfr_sgn(fm) > 0 ? X::pinf() : X::minf()) : X(q_of_mpfr(fm)), t); }
  if (!x.inf && x.v != 0) { jobject z = jcall("apron/Scalar", o, "copy", "()Lapron/Scalar;").l; jcall("apron/Scalar", z, "inv", "()V"); X e(Q(1 / x.v)), g = j_of_scalar(z); if (C == "apron/MpqScalar" ? g != e : g.fin() && cmp(abs(Q(g.v - e.v)), Q(abs(e.v) / 1000)) > 0) fail(NM("scalar", "inv"), w + ": inv gives " + S(g)); }
  if (x.inf) { jobject z = jcall("apron/Scalar", o, "copy", "()Lapron/Scalar;").l; jcall("apron/Scalar", z, "neg", "()V"); same("neg", z, neg(x)); }
  { int k = s.range(-1, 1); jcall("apron/Scalar", o, "setInfty", "(I)V", (jint)k); same("setInfty", o, k ? (k > 0 ? X::pinf() : X::minf()) : X(0)); jcall("apron/Scalar", o, "set", "(I)V", (jint)i); same("set-int", o, X(Q(i))); } }
static void interval_case(Src& s) {
  NumCfg nc; nc.level = 2; auto gi = [&] { I a = gen_itv(s, nc); if (s.chance(1, 8)) a = I(X(1), X(-1)); return a; }; I a = gi(), b = s.chance(1, 4) ? a : gi(); const char* C = "apron/Interval"; int k = gen_kind(s); jobject o = j_interval(a, k, gen_kind(s)), p = j_interval(b, gen_kind(s), k); string w = S(a) + " and " + S(b); TR("intervals " << w); label("interval"); s.nontrivial = true;
  auto ck = [&](const char* n, bool g, bool e) { if (g != e) fail(NM("interval", n), w + ": " + n + " answers " + std::to_string(g)); };
  ck("isTop", jcall(C, o, "isTop", "()Z").z, a.lo.inf < 0 && a.hi.inf > 0); ck("isBottom", jcall(C, o, "isBottom", "()Z").z, a.empty()); ck("isLeq", jcall(C, o, "isLeq", "(Lapron/Interval;)Z", p).z, isubset(a, b)); ck("isEqual", jcall(C, o, "isEqual", "(Lapron/Interval;)Z", p).z, (a.empty() && b.empty()) || ieq(a, b)); ck("isZero", jcall(C, o, "isZero", "()Z").z, a.lo == X(0) && a.hi == X(0)); ck("isScalar", jcall(C, o, "isScalar", "()Z").z, a.lo == a.hi);
  int t = jcall(C, o, "cmp", "(Lapron/Interval;)I", p).i; bool le = isubset(a, b), ge = isubset(b, a); if (le && ge ? t != 0 : le ? t != -1 : ge ? t != 1 : (cmp(a.lo, b.lo) > 0 ? t != 2 : t != -2)) fail(NM("interval", "cmp"), w + ": cmp is " + std::to_string(t)); ck("equals", jcall("java/lang/Object", o, "equals", "(Ljava/lang/Object;)Z", p).z, (a.empty() && b.empty()) || ieq(a, b));
  jobject c = jcall(C, o, "copy", "()Lapron/Interval;").l; jcall(C, c, "neg", "()V"); I g = j_of_coeff(c); if (!ieq(g, ineg(a))) fail(NM("interval", "neg"), w + ": neg gives " + S(g)); if (!ieq(j_of_coeff(o), a)) fail(NM("interval", "copy-shared"), w);
  jcall(C, c, "setTop", "()V"); if (jcall(C, c, "isTop", "()Z").z != 1) fail(NM("interval", "setTop"), w); jcall(C, c, "setBottom", "()V"); ck("setBottom", jcall(C, c, "isBottom", "()Z").z, true); if (!ieq(j_of_coeff(o), a)) fail(NM("interval", "copy-shared"), w);
  X x = s.coin() ? a.lo : gen_sx(s); jobject sc = j_scalar(x, gen_kind(s)); ck("isEqual-coeff", jcall("apron/Coeff", o, "isEqual", "(Lapron/Coeff;)Z", sc).z, ieq(a, I(x, x))); ck("isEqual-coeff2", jcall("apron/Coeff", sc, "isEqual", "(Lapron/Coeff;)Z", o).z, ieq(a, I(x, x))); }
// ---- linear expressions
static void lin_case(Src& s) {
  const char* C = "apron/Linexpr0"; size_t n = s.range(0, 5); LinCfg lc; lc.num.level = 2; lc.itv = 30; Lin l = gen_lin(s, n, lc); jobject o = j_lin(l, s.draw(3)); string w = S(l); TR("linear expression " << w); label("linexpr"); s.nontrivial = true;
  auto same = [&](const string& nm, jobject z, const Lin& e) { Lin g = j_of_lin(z, e.c.size()); if (!leq_(g, e)) fail(NM("linexpr", nm), w + ": " + nm + " gives " + S(g) + " instead of " + S(e)); };
  same("init", o, l); int st = s.range(1, 4);
  for (int k = 0; k < st; k++) { n = l.c.size(); switch (s.draw(9)) {
    case 0: { if (!n) break; size_t d = s.draw(n); NumCfg nc; I v = s.chance(1, 3) ? gen_itv(s, nc) : I(gen_q(s, nc)); w += " setCoeff x" + std::to_string(d) + " " + S(v); if ((size_t)jcall(C, o, "getSize", "()I").i <= d && !jcall(C, o, "isSparse", "()Z").z) break; jcall(C, o, "setCoeff", "(ILapron/Coeff;)V", (jint)d, j_coeff(v, gen_kind(s), gen_kind(s))); l.c[d] = v; same("setCoeff", o, l); break; }
    case 1: { NumCfg nc; I v = s.chance(1, 3) ? gen_itv(s, nc) : I(gen_q(s, nc)); w += " setCst " + S(v); jcall(C, o, "setCst", "(Lapron/Coeff;)V", j_coeff(v, gen_kind(s), gen_kind(s))); l.k = v; same("setCst", o, l); break; }
    case 2: { for (size_t d = 0; d < n; d++) { if (d >= (size_t)jcall(C, o, "getSize", "()I").i && !jcall(C, o, "isSparse", "()Z").z) continue; I g = j_of_coeff(jcall(C, o, "getCoeff", "(I)Lapron/Coeff;", (jint)d).l); if (!ieq(g, l.c[d]) && !iempty2(g, l.c[d])) fail(NM("linexpr", "getCoeff"), w + ": x" + std::to_string(d) + " " + S(g)); } I g = j_of_coeff(jcall(C, o, "getCst", "()Lapron/Coeff;").l); if (!ieq(g, l.k)) fail(NM("linexpr", "getCst"), w);
      Lin h(n); h.k = l.k; for (auto t : ofarr(jcall(C, o, "getLinterms", "()[Lapron/Linterm0;").l)) { int d = JE->GetIntField(t, jfld("apron/Linterm0", "dim", "I")); if ((size_t)d >= n) fail(NM("linexpr", "getLinterms"), w); h.c[d] = j_of_coeff(jget("apron/Linterm0", t, "coeff", "Lapron/Coeff;")); } if (!leq_(h, l)) fail(NM("linexpr", "getLinterms"), w + ": " + S(h)); auto cs = ofarr(jcall(C, o, "getCoeffs", "()[Lapron/Coeff;").l); for (size_t d = 0; d < std::max(n, cs.size()); d++) { I g = d < cs.size() ? j_of_coeff(cs[d]) : I(Q(0)), e = d < n ? l.c[d] : I(Q(0)); if (!ieq(g, e) && !iempty2(g, e)) fail(NM("linexpr", "getCoeffs"), w); } break; }
    case 3: { size_t md = 0; for (size_t d = 0; d < n; d++) if (!(l.c[d].sing() && l.c[d].lo == X(0))) md = d + 1; int id = s.draw(n + 1); w += " queries with " + std::to_string(id) + " integers"; bool lin = true, ql = l.k.sing() || true; (void)ql; bool cl = true; for (auto& i : l.c) { if (!i.sing()) cl = false; } lin = cl && l.k.sing(); int g = jcall(C, o, "maxDim", "()I").i; int e0 = 0; { ap_linexpr0_t* p = j_linptr(o); if (p->discr == AP_LINEXPR_DENSE) e0 = p->size; else for (size_t i = 0; i < p->size; i++) if (p->p.linterm[i].dim != AP_DIM_MAX) e0 = std::max(e0, (int)p->p.linterm[i].dim + 1); } if (g != e0 || (size_t)g < md) fail(NM("linexpr", "maxDim"), w + ": " + std::to_string(g));
      if (jcall(C, o, "isLinear", "()Z").z != lin) fail(NM("linexpr", "isLinear"), w); if (jcall(C, o, "isQuasilinear", "()Z").z != cl) fail(NM("linexpr", "isQuasilinear"), w); if (jcall(C, o, "isInteger", "(I)Z", (jint)id).z != (bool)ap_linexpr0_is_integer(j_linptr(o), id)) fail(NM("linexpr", "isInteger"), w); if (jcall(C, o, "isReal", "(I)Z", (jint)id).z != (bool)ap_linexpr0_is_real(j_linptr(o), id)) fail(NM("linexpr", "isReal"), w); break; }
    case 4: { Lin m = s.coin() ? l : gen_lin(s, n, lc); jobject q = j_lin(m, s.draw(3)); w += " compared to " + S(m); bool e = leq_(l, m); if (jcall(C, o, "isEqual", "(Lapron/Linexpr0;)Z", q).z != e) fail(NM("linexpr", "isEqual"), w); int t = jcall(C, o, "cmp", "(Lapron/Linexpr0;)I", q).i; if (sg(t) != sg(ap_linexpr0_compare(j_linptr(o), j_linptr(q)))) fail(NM("linexpr", "cmp"), w); if (e && jcall(C, o, "hashCode", "()I").i != jcall(C, q, "hashCode", "()I").i) fail(NM("linexpr", "hashCode"), w); same("compared", o, l); break; }
    case 5: { w += " minimize"; jcall(C, o, "minimize", "()V"); same("minimize", o, l); break; }
    case 6: { int nk = s.range(0, 2); vector<ap_dim_t> ds; for (int i = 0; i < nk; i++) ds.push_back(s.draw(n + 1)); std::sort(ds.begin(), ds.end()); int ki = s.draw(nk + 1); jobject dc = j_dimchange(ki, nk - ki, ds); Lin e(n + nk); e.k = l.k; for (size_t d = 0; d < n; d++) { size_t q = d; for (auto x : ds) if (x <= d) q++; e.c[q] = l.c[d]; } w += " addDimensions"; for (auto d : ds) w += " " + std::to_string(d); if (s.coin()) { jcall(C, o, "addDimensions", "(Lapron/Dimchange;)V", dc); same("addDimensions", o, e); l.c = e.c; } else { jobject q = jcall(C, o, "addDimensionsCopy", "(Lapron/Dimchange;)Lapron/Linexpr0;", dc).l; same("addDimensionsCopy", q, e); same("addDimensionsCopy-argument", o, l); o = q; l.c = e.c; } break; }
    case 7: { vector<ap_dim_t> pm(n); for (size_t i = 0; i < n; i++) { pm[i] = i; std::swap(pm[i], pm[s.draw(i + 1)]); } jobject dp = j_dimperm(pm); Lin e(n); e.k = l.k; for (size_t d = 0; d < n; d++) e.c[pm[d]] = l.c[d]; if (!jcall(C, o, "isSparse", "()Z").z && (size_t)jcall(C, o, "getSize", "()I").i != n) break; w += " permuteDimensions"; if (s.coin()) { jcall(C, o, "permuteDimensions", "(Lapron/Dimperm;)V", dp); same("permuteDimensions", o, e); } else { jobject q = jcall(C, o, "permuteDimensionsCopy", "(Lapron/Dimperm;)Lapron/Linexpr0;", dp).l; same("permuteDimensionsCopy", q, e); same("permuteDimensionsCopy-argument", o, l); o = q; } l.c = e.c; break; }
    case 8: { w += " clone"; jobject q = jcall(C, o, "clone", "()Lapron/Linexpr0;").l; same("clone", q, l); jcall(C, q, "setCst", "(Lapron/Coeff;)V", j_scalar(X(Q(77)), 0)); same("clone-shared", o, l); break; } } } }
// ---- tree expressions: the Java trees, the interned C trees and the model
static T t_map(const T& t, const std::function<T(int)>& f) { if (t->k == 0) return t; if (t->k == 1) return f(t->dim); T r(new TE(*t)); r->a = t_map(t->a, f); if (t->b) r->b = t_map(t->b, f); return r; }
static int t_depth(const T& t) { return t->k < 2 ? 0 : 1 + std::max(t_depth(t->a), t->b ? t_depth(t->b) : 0); }
static int t_size(const T& t) { return t->k < 2 ? 0 : 1 + t_size(t->a) + (t->b ? t_size(t->b) : 0); }
static void t_dims(const T& t, std::set<int>& r) { if (t->k == 1) r.insert(t->dim); if (t->k == 2) { t_dims(t->a, r); if (t->b) t_dims(t->b, r); } }
static void te_case(Src& s) {
  const char* N = "apron/Texpr0Node"; const char* C = "apron/Texpr0Intern"; size_t n = s.range(0, 4); TECfg tc; T t = gen_te(s, n, tc, 3); jobject o = j_te(t), c = j_tintern(t); string w = S(t); TR("tree " << w); label("texpr"); s.nontrivial = true;
  auto sameN = [&](const string& nm, jobject z, const T& e) { T g = j_of_te(z); if (!teq_(g, e)) fail(NM("texprnode", nm), w + ": " + nm + " gives " + S(g) + " instead of " + S(e)); };
  auto sameC = [&](const string& nm, jobject z, const T& e) { T g = of_te(j_teptr(z)); if (!teq_(g, e)) fail(NM("texpr", nm), w + ": " + nm + " gives " + S(g) + " instead of " + S(e)); };
  sameN("init", o, t); sameC("init", c, t); int st = s.range(1, 4); auto both = [&](const char* nm, long a, long b, long e) { if (a != e) fail(NM("texprnode", nm), w + ": " + nm + " is " + std::to_string(a) + " instead of " + std::to_string(e)); if (b != e) fail(NM("texpr", nm), w + ": " + nm + " is " + std::to_string(b) + " instead of " + std::to_string(e)); };
  for (int k = 0; k < st; k++) switch (s.draw(7)) {
    case 0: { std::set<int> ds; t_dims(t, ds); ap_texpr0_t* p = j_teptr(c); w += " queries"; both("getDepth", jcall(N, o, "getDepth", "()I").i, jcall(C, c, "getDepth", "()I").i, t_depth(t)); both("getSize", jcall(N, o, "getSize", "()I").i, jcall(C, c, "getSize", "()I").i, t_size(t)); both("maxDim", jcall(N, o, "maxDim", "()I").i, jcall(C, c, "maxDim", "()I").i, ds.empty() ? 0 : *ds.rbegin() + 1);
      for (int d = 0; d < (int)n + 1; d++) both("hasDim", jcall(N, o, "hasDim", "(I)Z", (jint)d).z, jcall(C, c, "hasDim", "(I)Z", (jint)d).z, ds.count(d)); vector<int> e(ds.begin(), ds.end()); if (ofints(jcall(N, o, "getDims", "()[I").l) != e) fail(NM("texprnode", "getDims"), w); if (ofints(jcall(C, c, "getDims", "()[I").l) != e) fail(NM("texpr", "getDims"), w);
      static const struct { const char* n; bool (*f)(ap_texpr0_t*); } P[] = {{"isIntervalCst", ap_texpr0_is_interval_cst}, {"isIntervalLinear", ap_texpr0_is_interval_linear}, {"isIntervalPolynomial", ap_texpr0_is_interval_polynomial}, {"isIntervalPolyfrac", ap_texpr0_is_interval_polyfrac}, {"isScalar", ap_texpr0_is_scalar}}; for (auto& q : P) both(q.n, jcall(N, o, q.n, "()Z").z, jcall(C, c, q.n, "()Z").z, q.f(p)); break; }
    case 1: { int d = s.draw(n + 1); T u = gen_te(s, n, tc, 1); w += " substitute x" + std::to_string(d) + " by " + S(u); T e = t_map(t, [&](int x) { return x == d ? u : t_dim(x); }); jobject ou = j_te(u), cu = j_tintern(u); if (s.coin()) { o = jcall(N, o, "substitute", "(ILapron/Texpr0Node;)Lapron/Texpr0Node;", (jint)d, ou).l; o = jcall(N, o, "deepCopy", "()Lapron/Texpr0Node;").l; jcall(C, c, "substitute", "(ILapron/Texpr0Intern;)V", (jint)d, cu); } else { jobject o2 = jcall(N, o, "substituteCopy", "(ILapron/Texpr0Node;)Lapron/Texpr0Node;", (jint)d, ou).l, c2 = jcall(C, c, "substituteCopy", "(ILapron/Texpr0Intern;)Lapron/Texpr0Intern;", (jint)d, cu).l; sameN("substituteCopy-argument", o, t); sameC("substituteCopy-argument", c, t); o = jcall(N, o2, "deepCopy", "()Lapron/Texpr0Node;").l; c = c2; } t = e; sameN("substitute", o, t); sameC("substitute", c, t); sameC("substitute-argument", cu, u); break; }
    case 2: { int nk = s.range(0, 2); vector<ap_dim_t> ds; for (int i = 0; i < nk; i++) ds.push_back(s.draw(n + 1)); std::sort(ds.begin(), ds.end()); int ki = s.draw(nk + 1); jobject dc = j_dimchange(ki, nk - ki, ds); w += " addDimensions"; for (auto d : ds) w += " " + std::to_string(d); T e = t_map(t, [&](int x) { int q = x; for (auto y : ds) if ((int)y <= x) q++; return t_dim(q); }); if (s.coin()) { jcall(N, o, "addDimensions", "(Lapron/Dimchange;)V", dc); jcall(C, c, "addDimensions", "(Lapron/Dimchange;)V", dc); } else { jobject o2 = jcall(N, o, "addDimensionsCopy", "(Lapron/Dimchange;)Lapron/Texpr0Node;", dc).l, c2 = jcall(C, c, "addDimensionsCopy", "(Lapron/Dimchange;)Lapron/Texpr0Intern;", dc).l; sameN("addDimensionsCopy-argument", o, t); sameC("addDimensionsCopy-argument", c, t); o = o2; c = c2; } t = e; n += nk; sameN("addDimensions", o, t); sameC("addDimensions", c, t); break; }
    case 3: { vector<ap_dim_t> ds; for (size_t i = 0; i < n; i++) if (s.chance(1, 3)) ds.push_back(i); int ki = s.draw(ds.size() + 1); jobject dc = j_dimchange(ki, ds.size() - ki, ds); w += " removeDimensions"; for (auto d : ds) w += " " + std::to_string(d); I top(X::minf(), X::pinf()); T e = t_map(t, [&](int x) { int q = x; for (auto y : ds) { if ((int)y == x) return t_cst(top); if ((int)y < x) q--; } return t_dim(q); }); if (s.coin()) { o = jcall(N, o, "removeDimensions", "(Lapron/Dimchange;)Lapron/Texpr0Node;", dc).l; jcall(C, c, "removeDimensions", "(Lapron/Dimchange;)V", dc); } else { jobject o2 = jcall(N, o, "removeDimensionsCopy", "(Lapron/Dimchange;)Lapron/Texpr0Node;", dc).l, c2 = jcall(C, c, "removeDimensionsCopy", "(Lapron/Dimchange;)Lapron/Texpr0Intern;", dc).l; sameN("removeDimensionsCopy-argument", o, t); sameC("removeDimensionsCopy-argument", c, t); o = o2; c = c2; } t = e; n -= ds.size(); sameN("removeDimensions", o, t); sameC("removeDimensions", c, t); break; }
    case 4: { vector<ap_dim_t> pm(n); for (size_t i = 0; i < n; i++) { pm[i] = i; std::swap(pm[i], pm[s.draw(i + 1)]); } jobject dp = j_dimperm(pm); w += " permuteDimensions"; T e = t_map(t, [&](int x) { return t_dim(pm[x]); }); if (s.coin()) { jcall(N, o, "permuteDimensions", "(Lapron/Dimperm;)V", dp); jcall(C, c, "permuteDimensions", "(Lapron/Dimperm;)V", dp); } else { jobject o2 = jcall(N, o, "permuteDimensionsCopy", "(Lapron/Dimperm;)Lapron/Texpr0Node;", dp).l, c2 = jcall(C, c, "permuteDimensionsCopy", "(Lapron/Dimperm;)Lapron/Texpr0Intern;", dp).l; sameN("permuteDimensionsCopy-argument", o, t); sameC("permuteDimensionsCopy-argument", c, t); o = o2; c = c2; } t = e; sameN("permuteDimensions", o, t); sameC("permuteDimensions", c, t); break; }
    case 5: { T u = s.coin() ? t : gen_te(s, n, tc, 2); w += " compared to " + S(u); jobject ou = j_te(u), cu = j_tintern(u); bool e = teq_(t, u); both("isEqual", jcall(N, o, "isEqual", "(Lapron/Texpr0Node;)Z", ou).z, jcall(C, c, "isEqual", "(Lapron/Texpr0Intern;)Z", cu).z, e); if (e) { if (jcall(C, c, "hashCode", "()I").i != jcall(C, cu, "hashCode", "()I").i) fail(NM("texpr", "hashCode"), w); } break; }
    case 6: { w += " conversions"; jobject x = jcall(C, c, "toTexpr0Node", "()Lapron/Texpr0Node;").l; sameN("toTexpr0Node", x, t); jobject y = jnew(C, "(Lapron/Texpr0Intern;)V", c); sameC("copy", y, t); jobject z = jnew(C, "(Lapron/Texpr0Node;)V", o); sameC("of-node", z, t); sameN("deepCopy", jcall(N, o, "deepCopy", "()Lapron/Texpr0Node;").l, t); LinCfg lc; lc.num.level = 1; Lin l = gen_lin(s, n, lc); jobject jl = j_lin(l, s.draw(3)); T f = of_te(j_teptr(jnew(C, "(Lapron/Linexpr0;)V", jl))), g = j_of_te(jstatic(N, "fromLinexpr0", "(Lapron/Linexpr0;)Lapron/Texpr0Node;", jl).l); Pt pt; for (size_t i = 0; i < n; i++) pt.push_back(Q(s.range(-5, 5))); Q v1, v2; if (l.scalar() && teval(f, pt, nullptr, v1) && teval(g, pt, nullptr, v2)) { I e = eval(l, pt); if (X(v1) != e.lo) fail(NM("texpr", "of-linexpr"), S(l)); if (X(v2) != e.lo) fail(NM("texprnode", "fromLinexpr0"), S(l) + " becomes " + S(g)); } break; } } }
static void dims_case(Src& s) {
  label("dimensions"); s.nontrivial = true; size_t n = s.range(0, 6); vector<ap_dim_t> p(n), q(n); for (size_t i = 0; i < n; i++) { p[i] = i; std::swap(p[i], p[s.draw(i + 1)]); } for (size_t i = 0; i < n; i++) { q[i] = i; std::swap(q[i], q[s.draw(i + 1)]); } const char* C = "apron/Dimperm"; string w = "permutations"; for (auto x : p) w += " " + std::to_string(x); w += " and"; for (auto x : q) w += " " + std::to_string(x); TR(w);
  jobject a = j_dimperm(p), b = j_dimperm(q); auto same = [&](const char* nm, jobject z, const vector<ap_dim_t>& e) { auto g = ofints(jcall(C, z, "getContents", "()[I").l); if (vector<ap_dim_t>(g.begin(), g.end()) != e) { string r = w + ": " + nm + " gives"; for (auto x : g) r += " " + std::to_string(x); fail(NM("dimperm", nm), r); } };
  same("init", a, p); vector<ap_dim_t> e(n); for (size_t i = 0; i < n; i++) e[p[i]] = i; same("invert", jcall(C, a, "invert", "()Lapron/Dimperm;").l, e); for (size_t i = 0; i < n; i++) e[i] = q[p[i]]; same("compose", jcall(C, a, "compose", "(Lapron/Dimperm;)Lapron/Dimperm;", b).l, e); same("argument", a, p); same("argument", b, q); if (jcall(C, a, "isEqual", "(Lapron/Dimperm;)Z", b).z != (p == q)) fail(NM("dimperm", "isEqual"), w); if ((size_t)jcall(C, a, "getSize", "()I").i != n) fail(NM("dimperm", "getSize"), w); for (size_t i = 0; i < n; i++) if ((ap_dim_t)jcall(C, a, "getElem", "(I)I", (jint)i).i != p[i]) fail(NM("dimperm", "getElem"), w); jobject c = jnew(C, "(Lapron/Dimperm;)V", a); jcall(C, c, "setId", "()V"); for (size_t i = 0; i < n; i++) e[i] = i; same("setId", c, e); same("copy-shared", a, p);
  const char* D = "apron/Dimchange"; int id = s.range(0, 3), rd = s.range(0, 3), ki = s.draw(3), kr = s.draw(3); vector<ap_dim_t> ds; for (int i = 0; i < ki; i++) ds.push_back(s.draw(id + 1)); for (int i = 0; i < kr; i++) ds.push_back(id + s.draw(rd + 1)); std::sort(ds.begin(), ds.begin() + ki); std::sort(ds.begin() + ki, ds.end()); w = "change of (" + std::to_string(id) + "," + std::to_string(rd) + ") adding " + std::to_string(ki) + "+" + std::to_string(kr); for (auto x : ds) w += " " + std::to_string(x); jobject dc = j_dimchange(ki, kr, ds); TR(w);
  for (int i = 0; i < id + rd; i++) { int f = i; for (auto x : ds) if ((int)x <= i) f++; int g = jcall(D, dc, "afterAdd", "(I)I", (jint)i).i; if (g != f) fail(NM("dimchange", "afterAdd"), w + ": " + std::to_string(i) + " goes to " + std::to_string(g)); }
  jobject iv = jcall(D, dc, "clone", "()Lapron/Dimchange;").l; jcall(D, iv, "addInvert", "()V"); if (jcall(D, dc, "isEqual", "(Lapron/Dimchange;)Z", iv).z != (ofints(jcall(D, dc, "getContents", "()[I").l) == ofints(jcall(D, iv, "getContents", "()[I").l))) fail(NM("dimchange", "isEqual"), w); auto orig = ofints(jcall(D, dc, "getContents", "()[I").l); if (vector<ap_dim_t>(orig.begin(), orig.end()) != ds) fail(NM("dimchange", "clone-shared"), w);
  for (int i = 0; i < id + rd; i++) { int f = jcall(D, dc, "afterAdd", "(I)I", (jint)i).i, g = jcall(D, iv, "afterRemove", "(I)I", (jint)f).i; if (g != i) fail(NM("dimchange", "addInvert"), w + ": " + std::to_string(i) + " comes back as " + std::to_string(g)); } std::set<int> nw; for (int i = 0; i < id + rd; i++) nw.insert(jcall(D, dc, "afterAdd", "(I)I", (jint)i).i); for (int i = 0; i < id + rd + ki + kr; i++) if (!nw.count(i) && jcall(D, iv, "afterRemove", "(I)I", (jint)i).i != -1) fail(NM("dimchange", "afterRemove"), w);
  jobject dd = jcall(D, dc, "getDimension", "()Lapron/Dimension;").l; if (JE->GetIntField(dd, jfld("apron/Dimension", "intDim", "I")) != ki || JE->GetIntField(dd, jfld("apron/Dimension", "realDim", "I")) != kr) fail(NM("dimchange", "getDimension"), w); }
void javad_case(Src& s) { JE->PushLocalFrame(2000); struct P { ~P() { JE->PopLocalFrame(nullptr); } } pop;
  try { switch (s.draw(8)) { case 0: crumb("mpz"); mpz_case(s); break; case 1: crumb("mpq"); mpq_case(s); break; case 2: crumb("mpfr"); mpfr_case(s); break; case 3: crumb("scalar"); scalar_case(s); break; case 4: crumb("interval"); interval_case(s); break; case 5: crumb("linexpr"); lin_case(s); break; case 6: crumb("texpr"); te_case(s); break; case 7: crumb("dims"); dims_case(s); break; } }
  catch (const JX& x) { fail("java-exception:" + x.cls, x.msg); } }
