// Level 1: every operation on named variables against a reference keyed by name.
// A value is known as a polyhedron over a fixed universe of names (names outside the environment are
// unconstrained) and, with integer variables, as a set of points that must remain inside it.
#include "doms.hpp"
#include "pplx.hpp"
extern "C" {
#include "ap_global1.h"
}
static const size_t NU = 9;
static const char* NAMES[NU] = {"x", "B", "x10", "x2", "a", "_t", "zz", "x1", "Ab"};
typedef std::set<size_t> NS;                     // set of names
struct R1 { ap_abstract1_t a; NS env; Poly u; vector<Pt> w; };
static string S(const NS& n) { string r = "{"; for (auto i : n) r += (r.size() > 1 ? "," : "") + string(NAMES[i]); return r + "}"; }
static string SE(const LinE& e) { string r; for (size_t i = 0; i < NU; i++) if (e.c[i] != 0) r += S(e.c[i]) + "*" + NAMES[i] + " + "; return r + S(e.k); }
static size_t nid(ap_var_t v) { for (size_t i = 0; i < NU; i++) if (!strcmp((char*)v, NAMES[i])) return i; fail("l1:unknown-name", string("an environment mentions an unknown variable ") + (char*)v); }
static ap_var_t nv(size_t i) { return (ap_var_t)NAMES[i]; }

struct L1 {
  Src& s; Dom d; ap_manager_t* m; bool strict, exact; vector<char> isint; vector<R1> R; string op; bool nontriv = false; int steps = 0;
  L1(Src& s_, const Dom& d_) : s(s_), d(d_) { ap_fpu_init(); m = quietman(d.alloc()); strict = d.name.find("strict") != string::npos; }
  ~L1() { if (std::uncaught_exceptions()) return; for (auto& r : R) ap_abstract1_clear(m, &r.a); ap_manager_free(m); }
  void B(const string& k, const string& msg) { fail("l1:" + d.name + ":" + op + ":" + k, msg); }
  void setop(const char* o) { op = o; crumb(("l1:" + d.name + ":" + o).c_str()); }
  void exn() { ap_exc_t e = m->result.exn; if (e != AP_EXC_NONE) B("exception", string("valid arguments raise ") + ap_name_of_exception[e] + ": " + (m->result.exclog ? m->result.exclog->msg : "")); }
  // ---- environments
  NS gen_ns(int lo, int hi) { NS r; int k = s.range(lo, hi); for (int i = 0; i < k * 2 && (int)r.size() < k; i++) r.insert(s.draw(NU)); return r; }
  NS subset(const NS& e) { NS r; for (auto i : e) if (s.coin()) r.insert(i); return r; }
  ap_environment_t* mkenv(const NS& e) { vector<ap_var_t> vi, vr; vector<size_t> o(e.begin(), e.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[s.draw(i)]); for (auto i : o) (isint[i] ? vi : vr).push_back(nv(i)); ap_environment_t* r = ap_environment_alloc(vi.data(), vi.size(), vr.data(), vr.size()); if (!r) B("environment", "environment " + S(e) + " rejected"); return r; }
  void chkenv(ap_environment_t* e, const NS& want, const char* what) {
    NS got; for (size_t i = 0; i < e->intdim + e->realdim; i++) { size_t n = nid(ap_environment_var_of_dim(e, i)); if ((i < e->intdim) != (bool)isint[n]) B("type", string(what) + ": variable " + NAMES[n] + " has changed its type"); if (i && i != e->intdim && strcmp((char*)ap_environment_var_of_dim(e, i - 1), NAMES[n]) >= 0) B("order", string(what) + ": variables not sorted"); got.insert(n); }
    if (got != want) B("environment", string(what) + " has environment " + S(got) + " instead of " + S(want)); }
  LinE zero() { LinE e; e.c.assign(NU, 0); e.k = 0; return e; }
  LinE unit(size_t i) { LinE e = zero(); e.c[i] = 1; return e; }
  // ---- numbers and expressions
  Q num() { int k = s.weighted({6, 3, d.small ? 0 : 2}); Q q = k == 0 ? Q(s.range(0, 3)) : k == 1 ? Q(s.range(0, 9)) : Q(s.range(1, 9), s.range(2, 4)); q.canonicalize(); return s.coin() ? Q(-q) : q; }
  Q val(size_t i) { Q q = num(); return isint[i] ? Q(qfloor(q)) : q; }
  Pt pt() { Pt p; for (size_t i = 0; i < NU; i++) p.push_back(val(i)); return p; }
  LinE glin(const NS& e, int dens = 45) { LinE l = zero(); int shape = s.weighted({3, 1}); vector<size_t> v(e.begin(), e.end()); if (shape == 1 && !v.empty()) l.c[v[s.draw(v.size())]] = s.coin() ? 1 : -1; else for (auto i : v) if ((int)s.draw(100) >= 100 - dens) l.c[i] = num(); l.k = num(); return l; }
  Q at(const LinE& l, const Pt& p) { Q r = l.k; for (size_t i = 0; i < NU; i++) r += l.c[i] * p[i]; return r; }
  NS support(const LinE& l) { NS r; for (size_t i = 0; i < NU; i++) if (l.c[i] != 0) r.insert(i); return r; }
  // an environment for an expression used with values on env
  NS expr_env(const LinE& l, const NS& env) { NS r = support(l); if (s.coin()) return env; for (auto i : env) if (s.chance(1, 3)) r.insert(i); return r; }
  void setc(ap_coeff_t* c, const Q& q) { set_coeff(c, I(q), gen_kind(s), gen_kind(s)); }
  ap_linexpr1_t mkle_in(const LinE& l, const NS& e) {
    ap_environment_t* en = mkenv(e); bool sp = s.coin(); ap_linexpr1_t r = ap_linexpr1_make(en, sp ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, sp ? s.draw(3) : e.size()); ap_environment_free(en);
    vector<size_t> o(e.begin(), e.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[s.draw(i)]);
    for (auto i : o) { if (l.c[i] == 0 && s.coin()) continue; ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); setc(&c, l.c[i]); bool er = false;
      switch (s.draw(4)) { case 0: er = ap_linexpr1_set_coeff(&r, nv(i), &c); break; case 1: er = ap_linexpr1_set_list(&r, AP_COEFF, &c, nv(i), AP_END); break;
      case 2: if (is_int(l.c[i])) { er = ap_linexpr1_set_list(&r, AP_COEFF_S_INT, (int)l.c[i].get_num().get_si(), nv(i), AP_END); break; } // fall through
      default: { ap_coeff_t* k = ap_linexpr1_coeffref(&r, nv(i)); if (!k) er = true; else ap_coeff_set(k, &c); } }
      if (er) B("set_coeff", string("variable ") + NAMES[i] + " not found in the environment of an expression"); ap_coeff_clear(&c); }
    ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); setc(&c, l.k); if (s.coin()) ap_linexpr1_set_cst(&r, &c); else ap_linexpr1_set_list(&r, AP_CST, &c, AP_END); ap_coeff_clear(&c); return r; }
  // expression on a sub-environment of env, sometimes built on a smaller one and then extended
  ap_linexpr1_t mkle(const LinE& l, const NS& env) {
    NS e = expr_env(l, env); if (!s.chance(1, 3)) return mkle_in(l, e);
    NS small = support(l); for (auto i : e) if (s.coin()) small.insert(i); string o = op; setop("linexpr1_extend_environment"); ap_linexpr1_t a = mkle_in(l, small); ap_environment_t* en = mkenv(e); ap_linexpr1_t r; bool er;
    if (s.coin()) { er = ap_linexpr1_extend_environment_with(&a, en); r = a; if (er) B("fails", "extension to a larger environment is refused"); } else { er = ap_linexpr1_extend_environment(&r, &a, en); if (er) B("fails", "extension to a larger environment is refused"); chk_le(&a, l, small); ap_linexpr1_clear(&a); }
    ap_environment_free(en); chk_le(&r, l, e); op = o; return r; }
  LinE rdle(ap_linexpr1_t* e) { LinE l = zero(); l.k = sc(&e->linexpr0->cst); size_t i; ap_dim_t dm; ap_coeff_t* c; size_t n = e->env->intdim + e->env->realdim; ap_linexpr0_ForeachLinterm(e->linexpr0, i, dm, c) { if (dm >= n) { if (e->linexpr0->discr == AP_LINEXPR_DENSE && sc(c) == 0) continue; B("linexpr1-dim", "an expression mentions a dimension outside its environment"); } l.c[nid(ap_environment_var_of_dim(e->env, dm))] += sc(c); } return l; }
  Q sc(ap_coeff_t* c) { I v = of_coeff(c); if (!v.sing()) B("coefficient", "coefficient is not a scalar: " + S(v)); return v.lo.v; }
  void chk_le(ap_linexpr1_t* e, const LinE& l, const NS& env) { chkenv(e->env, env, "expression"); LinE g = rdle(e); if (g.c != l.c || g.k != l.k) B("expression", "expression is " + SE(g) + " instead of " + SE(l));
    size_t i = s.draw(NU); ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); bool er = ap_linexpr1_get_coeff(&c, e, nv(i)); if (er != !env.count(i)) B("get_coeff", string("get_coeff of ") + NAMES[i] + (er ? " fails" : " succeeds") + " in environment " + S(env)); if (!er && sc(&c) != l.c[i]) B("get_coeff", string("coefficient of ") + NAMES[i] + " is " + S(sc(&c)) + " in " + SE(l)); ap_linexpr1_get_cst(&c, e); if (sc(&c) != l.k) B("get_cst", "constant is " + S(sc(&c)) + " in " + SE(l)); ap_coeff_clear(&c); }
  // tree expressions
  ap_texpr1_t* mkte_in(const LinE& l, const NS& e) {
    if (s.chance(1, 4)) { ap_linexpr1_t a = mkle_in(l, e); ap_texpr1_t* r = ap_texpr1_from_linexpr1(&a); ap_linexpr1_clear(&a); return r; }
    ap_environment_t* en = mkenv(e); ap_texpr1_t* t = nullptr; auto cst = [&](const Q& q) { ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); setc(&c, q); ap_texpr1_t* r = ap_texpr1_cst(en, &c); ap_coeff_clear(&c); return r; };
    vector<size_t> o(e.begin(), e.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[s.draw(i)]);
    for (auto i : o) { if (l.c[i] == 0) continue; ap_texpr1_t* x = ap_texpr1_var(en, nv(i)); if (!x) B("texpr1_var", string("variable ") + NAMES[i] + " unknown in " + S(e)); Q c = l.c[i]; bool sub = false; if (t && c < 0 && s.coin()) { sub = true; c = -c; } if (!t && c == -1 && s.coin()) x = ap_texpr1_unop(AP_TEXPR_NEG, x, AP_RTYPE_REAL, AP_RDIR_RND); else if (c != 1) x = s.coin() ? ap_texpr1_binop(AP_TEXPR_MUL, cst(c), x, AP_RTYPE_REAL, AP_RDIR_RND) : ap_texpr1_binop(AP_TEXPR_MUL, x, cst(c), AP_RTYPE_REAL, AP_RDIR_RND); t = t ? ap_texpr1_binop(sub ? AP_TEXPR_SUB : AP_TEXPR_ADD, t, x, AP_RTYPE_REAL, AP_RDIR_RND) : x; }
    if (!t) t = cst(l.k); else if (l.k != 0) t = ap_texpr1_binop(AP_TEXPR_ADD, t, cst(l.k), AP_RTYPE_REAL, AP_RDIR_RND);
    ap_environment_free(en); return t; }
  bool afft(const ap_texpr0_t* t, ap_environment_t* en, LinE& e) {
    if (t->discr == AP_TEXPR_CST) { e = zero(); e.k = sc((ap_coeff_t*)&t->val.cst); return true; } if (t->discr == AP_TEXPR_DIM) { if (t->val.dim >= en->intdim + en->realdim) B("texpr1-dim", "a tree expression mentions a dimension outside its environment"); e = unit(nid(ap_environment_var_of_dim(en, t->val.dim))); return true; }
    LinE a, b; if (!afft(t->val.node->exprA, en, a)) return false; if (t->val.node->exprB && !afft(t->val.node->exprB, en, b)) return false; bool ca = support(a).empty(); e = zero();
    switch (t->val.node->op) { case AP_TEXPR_NEG: for (size_t i = 0; i < NU; i++) e.c[i] = -a.c[i]; e.k = -a.k; return true; case AP_TEXPR_ADD: for (size_t i = 0; i < NU; i++) e.c[i] = a.c[i] + b.c[i]; e.k = a.k + b.k; return true; case AP_TEXPR_SUB: for (size_t i = 0; i < NU; i++) e.c[i] = a.c[i] - b.c[i]; e.k = a.k - b.k; return true;
    case AP_TEXPR_MUL: if (!ca) std::swap(a, b); if (!support(a).empty()) return false; for (size_t i = 0; i < NU; i++) e.c[i] = a.k * b.c[i]; e.k = a.k * b.k; return true; default: return false; } }
  void chk_te(ap_texpr1_t* t, const LinE& l, const NS& env) { chkenv(t->env, env, "tree expression"); LinE g; if (!afft(t->texpr0, t->env, g)) B("tree", "tree expression is no longer affine"); if (g.c != l.c || g.k != l.k) B("tree", "tree expression is " + SE(g) + " instead of " + SE(l)); }
  ap_texpr1_t* mkte(LinE l, const NS& env) {
    NS e = expr_env(l, env); int k = s.weighted({4, 2, 1}); if (k == 0) return mkte_in(l, e); string o = op; ap_texpr1_t* r;
    if (k == 1) { setop("texpr1_extend_environment"); NS small = support(l); for (auto i : e) if (s.coin()) small.insert(i); ap_texpr1_t* a = mkte_in(l, small); ap_environment_t* en = mkenv(e); if (s.coin()) { if (ap_texpr1_extend_environment_with(a, en)) B("fails", "extension to a larger environment is refused"); r = a; } else { r = ap_texpr1_extend_environment(a, en); if (!r) B("fails", "extension to a larger environment is refused"); chk_te(a, l, small); ap_texpr1_free(a); } ap_environment_free(en); }
    else { setop("texpr1_substitute"); if (e.empty()) return mkte_in(l, e); vector<size_t> v(e.begin(), e.end()); size_t x = v[s.draw(v.size())]; // l = f[x := g]; choose f = l + x - g where l' = l + x - g
      LinE g = glin(e), f = l; // f(x:=g) = l  requires f = l - cx*g with coefficient cx on x; build f = l + c*(x - g) only when l and g do not mention x
      if (l.c[x] != 0 || g.c[x] != 0) { ap_texpr1_t* q = mkte_in(l, e); op = o; return q; } Q c = num(); f.c[x] = c; for (size_t i = 0; i < NU; i++) if (i != x) f.c[i] -= c * g.c[i]; f.k -= c * g.k; ap_texpr1_t *a = mkte_in(f, e), *b = mkte_in(g, e); if (ap_texpr1_has_var(a, nv(x)) != (c != 0)) { if (c != 0) B("has_var", string("has_var misses ") + NAMES[x]); } bool er = false; if (s.coin()) { er = ap_texpr1_substitute_with(a, nv(x), b); r = a; } else { r = ap_texpr1_substitute(a, nv(x), b); if (r) chk_te(a, f, e); ap_texpr1_free(a); } if (er || !r) B("fails", "substitution refused"); ap_texpr1_free(b); }
    chk_te(r, l, e); op = o; return r; }
  // ---- constraints
  struct C1 { LinE e; int rel; }; // 0 =, 1 >=, 2 >
  static ap_constyp_t ty(int rel) { return rel == 0 ? AP_CONS_EQ : rel == 1 ? AP_CONS_SUPEQ : AP_CONS_SUP; }
  static string S1(const C1& c) { return SE(c.e) + (c.rel == 0 ? " = 0" : c.rel == 1 ? " >= 0" : " > 0"); }
  bool holds(const C1& c, const Pt& p) { Q q = at(c.e, p); return c.rel == 0 ? q == 0 : c.rel == 1 ? q >= 0 : q > 0; }
  C1 gcons(const NS& env, const vector<Pt>& w) { C1 c; c.e = glin(env); c.rel = s.weighted({3, 6, strict ? 3 : 0}); c.rel = c.rel == 0 ? 1 : c.rel == 1 ? 0 : 2; if (!w.empty() && s.chance(7, 8)) { Q q = at(c.e, w[s.draw(w.size())]); if (c.rel == 0) c.e.k -= q; else if (q < 0 || (c.rel == 2 && q == 0)) c.e.k += Q(s.range(c.rel == 2 ? 1 : 0, 2)) - q; else if (s.coin()) c.e.k -= q - (c.rel == 2); } return c; }
  vector<C1> gconss(const NS& env, const vector<Pt>& w) { vector<C1> v; int k = s.weighted({5, 3, 2, 1}) + 1; if (s.chance(1, 20)) k = 0; for (int i = 0; i < k; i++) v.push_back(gcons(env, w)); return v; }
  static string SC(const vector<C1>& v) { string r = "["; for (auto& c : v) r += (r.size() > 1 ? "; " : "") + S1(c); return r + "]"; }
  NS conss_env(const vector<C1>& v, const NS& env) { NS r; for (auto& c : v) for (auto i : support(c.e)) r.insert(i); if (s.coin()) return env; for (auto i : env) if (s.chance(1, 3)) r.insert(i); return r; }
  void put_le(ap_linexpr1_t* /*by name*/, const LinE&) {}
  ap_lincons1_array_t mkla(const vector<C1>& v, const NS& env) {
    NS e = conss_env(v, env), small; bool ext = s.chance(1, 4); if (ext) { for (auto& c : v) for (auto i : support(c.e)) small.insert(i); for (auto i : e) if (s.coin()) small.insert(i); } else small = e;
    ap_environment_t* en = mkenv(small); ap_lincons1_array_t a = ap_lincons1_array_make(en, v.size());
    for (size_t i = 0; i < v.size(); i++) { ap_linexpr1_t l = mkle_in(v[i].e, small); ap_lincons1_t c = ap_lincons1_make(ty(v[i].rel), &l, NULL); // same environment up to equality
      if (s.chance(1, 4)) { ap_lincons1_t c2 = ap_lincons1_copy(&c); ap_lincons1_clear(&c); c = c2; }
      if (ap_lincons1_array_set(&a, i, &c)) B("lincons1_array_set", "constraint refused"); }
    ap_environment_free(en); string o = op;
    if (ext) { setop("lincons1_array_extend_environment"); en = mkenv(e); bool er; if (s.coin()) er = ap_lincons1_array_extend_environment_with(&a, en); else { ap_lincons1_array_t b; er = ap_lincons1_array_extend_environment(&b, &a, en); ap_lincons1_array_clear(&a); a = b; } ap_environment_free(en); if (er) B("fails", "extension refused"); }
    chkenv(a.env, e, "constraint array"); if (a.lincons0_array.size != v.size()) B("size", "wrong size");
    if (v.size()) { size_t i = s.draw(v.size()); ap_lincons1_t c = ap_lincons1_array_get(&a, i); ap_linexpr1_t l = ap_lincons1_linexpr1ref(&c); LinE g = rdle(&l); if (g.c != v[i].e.c || g.k != v[i].e.k || c.lincons0.constyp != ty(v[i].rel)) B("lincons1_array", "constraint is " + SE(g) + " instead of " + S1(v[i])); if (s.coin()) { size_t x = s.draw(NU); ap_coeff_t k; ap_coeff_init(&k, AP_COEFF_SCALAR); bool er = ap_lincons1_get_coeff(&k, &c, nv(x)); if (er != !e.count(x) || (!er && sc(&k) != v[i].e.c[x])) B("lincons1_get_coeff", string("wrong coefficient of ") + NAMES[x]); ap_coeff_clear(&k); } }
    op = o; return a; }
  ap_tcons1_array_t mkta(const vector<C1>& v, const NS& env) {
    NS e = conss_env(v, env), small; bool ext = s.chance(1, 4); if (ext) { for (auto& c : v) for (auto i : support(c.e)) small.insert(i); for (auto i : e) if (s.coin()) small.insert(i); } else small = e;
    ap_environment_t* en = mkenv(small); ap_tcons1_array_t a = ap_tcons1_array_make(en, v.size());
    for (size_t i = 0; i < v.size(); i++) { ap_tcons1_t c; if (s.chance(1, 4)) { ap_linexpr1_t l = mkle_in(v[i].e, small); ap_lincons1_t lc = ap_lincons1_make(ty(v[i].rel), &l, NULL); c = ap_tcons1_from_lincons1(&lc); ap_lincons1_clear(&lc); } else { ap_texpr1_t* t = mkte_in(v[i].e, small); c = ap_tcons1_make(ty(v[i].rel), t, NULL); free(t); } if (ap_tcons1_array_set(&a, i, &c)) B("tcons1_array_set", "constraint refused"); }
    ap_environment_free(en); string o = op;
    if (ext) { setop("tcons1_array_extend_environment"); en = mkenv(e); bool er; if (s.coin()) er = ap_tcons1_array_extend_environment_with(&a, en); else { ap_tcons1_array_t b; er = ap_tcons1_array_extend_environment(&b, &a, en); ap_tcons1_array_clear(&a); a = b; } ap_environment_free(en); if (er) B("fails", "extension refused"); }
    chkenv(a.env, e, "tree constraint array"); if (v.size()) { size_t i = s.draw(v.size()); ap_tcons1_t c = ap_tcons1_array_get(&a, i); ap_texpr1_t t = ap_tcons1_texpr1ref(&c); chk_te(&t, v[i].e, e); if (c.tcons0.constyp != ty(v[i].rel)) B("tcons1_array", "wrong type"); }
    op = o; return a; }
  // ---- oracle helpers
  void addc(Poly& p, const C1& c) { p.add(c.e, c.rel); }
  static vector<int> ident() { vector<int> v; for (size_t i = 0; i < NU; i++) v.push_back(i); return v; }
  Poly swapped(const Poly& p, size_t a, size_t b) { vector<int> v = ident(); std::swap(v[a], v[b]); return p.remap(v); }
  void addw(R1& r, const Pt& p) { if (r.w.size() < 6 && std::find(r.w.begin(), r.w.end(), p) == r.w.end()) r.w.push_back(p); }
  // ---- values
  R1 fresh(NS env) {
    R1 r; r.env = env; ap_environment_t* en = mkenv(env); int k = s.weighted({1, 5, 4, 3, 1}); Pt p = pt(), q = s.coin() ? pt() : p;
    if (k == 0) { setop("top"); r.a = ap_abstract1_top(m, en); r.u = Poly::univ(NU); addw(r, p); addw(r, q); TR("  top " << S(env)); }
    else if (k == 4) { setop("bottom"); r.a = ap_abstract1_bottom(m, en); r.u = Poly::empty(NU); TR("  bottom " << S(env)); }
    else if (k == 1) { setop("of_box"); vector<size_t> v; for (auto i : env) if (s.chance(3, 4)) v.push_back(i); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.draw(i)]); vector<ap_var_t> tv; vector<ap_interval_t*> ti; r.u = Poly::univ(NU); string t;
      for (auto i : v) { I x{X(std::min(p[i], q[i])), X(std::max(p[i], q[i]))}; int w = s.weighted({6, 1, 1}); if (w & 1) x.lo = X::minf(); if (w & 2) x.hi = X::pinf(); t += string(" ") + NAMES[i] + " in " + S(x); LinE e = unit(i); if (x.lo.fin()) { e.k = -x.lo.v; r.u.add(e, 1); } if (x.hi.fin()) { e = zero(); e.c[i] = -1; e.k = x.hi.v; r.u.add(e, 1); } tv.push_back(nv(i)); ti.push_back(mk_interval(x, gen_kind(s), gen_kind(s))); }
      TR("  of_box " << S(env) << t); r.a = ap_abstract1_of_box(m, en, tv.data(), ti.data(), tv.size()); for (auto i : ti) ap_interval_free(i); addw(r, p); addw(r, q); }
    else { vector<C1> v = gconss(env, {p}); r.u = Poly::univ(NU); bool all = true; for (auto& c : v) { addc(r.u, c); all &= holds(c, p); } if (all) addw(r, p); TR("  of constraints " << S(env) << " " << SC(v)); if (k == 2) { setop("of_lincons_array"); ap_lincons1_array_t a = mkla(v, env); r.a = ap_abstract1_of_lincons_array(m, en, &a); ap_lincons1_array_clear(&a); } else { setop("of_tcons_array"); ap_tcons1_array_t a = mkta(v, env); r.a = ap_abstract1_of_tcons_array(m, en, &a); ap_tcons1_array_clear(&a); } }
    ap_environment_free(en); exn(); chk(r); return r; }
  void put(R1& r, ap_abstract1_t x, bool de) { exn(); if (!de) { if (s.coin()) chk(r); ap_abstract1_clear(m, &r.a); } r.a = x; }
  // value as a polyhedron
  Poly read(R1& r) { ap_lincons1_array_t a = ap_abstract1_to_lincons_array(m, &r.a); exn(); chkenv(a.env, r.env, "to_lincons_array"); Poly p = Poly::univ(NU); for (size_t i = 0; i < a.lincons0_array.size; i++) { ap_lincons1_t c = ap_lincons1_array_get(&a, i); ap_linexpr1_t l = ap_lincons1_linexpr1ref(&c); C1 k; k.e = rdle(&l); if (c.lincons0.constyp > AP_CONS_SUP) B("to_lincons_array", "unexpected constraint type"); k.rel = c.lincons0.constyp == AP_CONS_EQ ? 0 : c.lincons0.constyp == AP_CONS_SUPEQ ? 1 : 2; addc(p, k); } ap_lincons1_array_clear(&a); return p; }
  I bounds(const Poly& p, const LinE& e) { I r = I::top(); Q q; bool at; if (p.is_empty()) return I(X(1), X(-1)); if (p.sup(e, q, at)) r.hi = X(q); if (p.inf(e, q, at)) r.lo = X(q); return r; }
  // compares an interval answered for e
  void cmpb(const char* k, const I& v, const LinE& e, R1& r) { I w = bounds(r.u, e); for (auto& p : r.w) if (!v.has(at(e, p))) B(k, string(k) + " of " + SE(e) + " is " + S(v) + " but at " + S(p) + " it is " + S(at(e, p)));
    if (exact ? (v.empty() != w.empty() || (!v.empty() && !(v.lo == w.lo && v.hi == w.hi))) : !isubset(v, w)) B(k, string(k) + " of " + SE(e) + " is " + S(v) + " instead of " + S(w) + " in {" + r.u.str() + "}"); }
  void chk(R1& r) {
    string o = op; string os = op; ap_environment_t* en = ap_abstract1_environment(m, &r.a); chkenv(en, r.env, "result"); ap_dimension_t dm = ap_abstract0_dimension(m, r.a.abstract0); if (dm.intdim != r.a.env->intdim || dm.realdim != r.a.env->realdim) B("dimension", "dimensions of the value and of its environment differ");
    auto T = [&](const char* q) { op = o + "/" + q; crumb(("l1:" + d.name + ":" + op).c_str()); };
    if (s.chance(4, 5)) { T("to_lincons"); Poly p = read(r); for (auto& q : r.w) if (!p.contains_point(q)) B("value", "value {" + p.str() + "} excludes " + S(q)); if (exact ? !p.equals(r.u) : !r.u.contains(p)) B("value", "value is {" + p.str() + "} instead of {" + r.u.str() + "} (variables A.. stand for " + "x B x10 x2 a _t zz x1 Ab)"); if (!r.u.is_empty() && r.env.size() > 1) nontriv = true; }
    bool em = r.u.is_empty();
    int which = s.draw(11); if (s.chance(1, 3)) which = -1; vector<size_t> v(r.env.begin(), r.env.end());
    if (which == 0) { T("to_box"); ap_box1_t b = ap_abstract1_to_box(m, &r.a); exn(); chkenv(b.env, r.env, "to_box"); for (size_t i = 0; i < v.size(); i++) { I x = of_interval(b.p[i]); cmpb("to_box", x, unit(nid(ap_environment_var_of_dim(b.env, i))), r); } ap_box1_clear(&b); }
    if (which == 1 && !v.empty()) { T("bound_variable"); size_t x = s.pick(v); ap_interval_t* i = ap_abstract1_bound_variable(m, &r.a, nv(x)); exn(); cmpb("bound_variable", of_interval(i), unit(x), r); ap_interval_free(i); }
    if (which == 2) { T("bound_linexpr"); LinE e = glin(r.env); ap_linexpr1_t l = mkle(e, r.env); ap_interval_t* i = ap_abstract1_bound_linexpr(m, &r.a, &l); exn(); cmpb("bound_linexpr", of_interval(i), e, r); ap_interval_free(i); ap_linexpr1_clear(&l); }
    if (which == 3) { T("bound_texpr"); LinE e = glin(r.env); ap_texpr1_t* l = mkte(e, r.env); ap_interval_t* i = ap_abstract1_bound_texpr(m, &r.a, l); exn(); cmpb("bound_texpr", of_interval(i), e, r); ap_interval_free(i); ap_texpr1_free(l); }
    if (which == 4 || which == 5) { C1 c = gcons(r.env, r.w); bool res; if (which == 4) { T("sat_lincons"); ap_linexpr1_t l = mkle(c.e, r.env); ap_lincons1_t k = ap_lincons1_make(ty(c.rel), &l, NULL); res = ap_abstract1_sat_lincons(m, &r.a, &k); exn(); ap_lincons1_clear(&k); } else { T("sat_tcons"); ap_texpr1_t* t = mkte(c.e, r.env); ap_tcons1_t k = ap_tcons1_make(ty(c.rel), t, NULL); free(t); res = ap_abstract1_sat_tcons(m, &r.a, &k); exn(); ap_tcons1_clear(&k); }
      for (auto& p : r.w) if (res && !holds(c, p)) B("sat", "claims " + S1(c) + " but it is false at " + S(p)); if (exact ? res != r.u.sat(c.e, c.rel) : !res && c.rel < 2 && r.u.sat(c.e, c.rel)) B("sat", "answers " + std::to_string(res) + " for " + S1(c) + " in {" + r.u.str() + "}"); }
    if (which == 6 && !v.empty()) { T("sat_interval"); size_t x = s.pick(v); I b = bounds(r.u, unit(x)); if (b.empty() || s.coin()) { Q p = num(), q = num(); b = I(X(std::min(p, q)), X(std::max(p, q))); } else if (s.coin() && b.lo.fin()) b.lo.v -= s.range(0, 1); ap_interval_t* t = mk_interval(b, gen_kind(s), gen_kind(s)); bool res = ap_abstract1_sat_interval(m, &r.a, nv(x), t); exn(); ap_interval_free(t); bool w = em || isubset(bounds(r.u, unit(x)), b); if (exact ? res != w : !res && w) B("sat_interval", string("answers ") + std::to_string(res) + " for " + NAMES[x] + " in " + S(b) + " in {" + r.u.str() + "}"); }
    if (which == 7 && !v.empty()) { T("is_variable_unconstrained"); size_t x = s.pick(v); bool res = ap_abstract1_is_variable_unconstrained(m, &r.a, nv(x)); exn(); Poly f = r.u.copy(); f.forget(x); bool w = !em && r.u.contains(f); if (exact && !em ? res != w : res && !w && !em) B("is_variable_unconstrained", string("answers ") + std::to_string(res) + " for " + NAMES[x] + " in {" + r.u.str() + "}"); }
    if (which == 8) { T("to_generators"); ap_generator1_array_t g = ap_abstract1_to_generator_array(m, &r.a); exn(); chkenv(g.env, r.env, "to_generator_array"); vector<std::pair<int, Pt>> gs; for (size_t i = 0; i < g.generator0_array.size; i++) { ap_generator1_t x = ap_generator1_array_get(&g, i); ap_linexpr1_t l = ap_generator1_linexpr1ref(&x); LinE e = rdle(&l); gs.push_back({(int)x.generator0.gentyp, e.c}); } if (!gs.empty()) for (size_t i = 0; i < NU; i++) if (!r.env.count(i)) gs.push_back({0, unit(i).c}); bool ok; Poly p = Poly::of_generators(NU, gs, ok); Poly c = r.u.copy(); c.close(); if (!ok || (exact ? !p.equals(c) : !c.contains(p))) B("to_generators", "generators describe {" + p.str() + "} instead of {" + c.str() + "}"); for (auto& q : r.w) if (!p.contains_point(q)) B("to_generators", "generators exclude " + S(q)); ap_generator1_array_clear(&g); }
    if (which == 9) { T("to_tcons"); ap_tcons1_array_t a = ap_abstract1_to_tcons_array(m, &r.a); exn(); chkenv(a.env, r.env, "to_tcons_array"); Poly p = Poly::univ(NU); for (size_t i = 0; i < a.tcons0_array.size; i++) { ap_tcons1_t c = ap_tcons1_array_get(&a, i); ap_texpr1_t t = ap_tcons1_texpr1ref(&c); C1 k; if (!afft(t.texpr0, t.env, k.e)) B("to_tcons", "constraint is not affine"); k.rel = c.tcons0.constyp == AP_CONS_EQ ? 0 : c.tcons0.constyp == AP_CONS_SUPEQ ? 1 : 2; addc(p, k); } ap_tcons1_array_clear(&a); if (exact ? !p.equals(r.u) : !r.u.contains(p)) B("to_tcons", "value is {" + p.str() + "} instead of {" + r.u.str() + "}"); for (auto& q : r.w) if (!p.contains_point(q)) B("to_tcons", "constraints exclude " + S(q)); }
    if (which == 10) { T("is_bottom/top"); bool b = ap_abstract1_is_bottom(m, &r.a); exn(); if (exact ? b != em : (b && !r.w.empty()) || (!b && em)) B("is_bottom", "answers " + std::to_string(b) + " in {" + r.u.str() + "}"); bool t = ap_abstract1_is_top(m, &r.a); exn(); bool w = r.u.equals(Poly::univ(NU)); if (t != w && (exact || t)) B("is_top", "answers " + std::to_string(t) + " in {" + r.u.str() + "}"); }
    op = o; crumb(("l1:" + d.name + ":" + o).c_str()); }
  R1& reg() { return R[s.draw(R.size())]; }
  bool destr() { return s.coin(); }
  R1 copy(R1& r) { R1 c; string o = op; c.a = ap_abstract1_copy(m, &r.a); exn(); c.env = r.env; c.u = r.u.copy(); c.w = r.w; return c; }
  void drop(R1& r) { ap_abstract1_clear(m, &r.a); }
  // ---- operations
  void change(R1& r, const NS& ne, bool proj) { setop(proj ? "change_environment-project" : "change_environment"); ap_environment_t* en = mkenv(ne); bool de = destr(); TR("  change_environment r" << (&r - &R[0]) << " " << S(r.env) << " to " << S(ne) << (proj ? " project" : "")); ap_abstract1_t x = ap_abstract1_change_environment(m, de, &r.a, en, proj); put(r, x, de); ap_environment_free(en);
    Poly u = r.u.copy(); for (auto i : r.env) if (!ne.count(i)) u.forget(i); for (auto i : ne) if (!r.env.count(i) && proj) u.add(unit(i), 0); for (auto& p : r.w) for (size_t i = 0; i < NU; i++) { if (r.env.count(i) && !ne.count(i)) p[i] = val(i); if (!r.env.count(i) && ne.count(i)) p[i] = proj ? Q(0) : val(i); } r.u = u; r.env = ne; chk(r); }
  void op_fresh() { R1& r = reg(); R1 f = fresh(gen_ns(0, 5)); drop(r); r = f; }
  void op_copy() { R1 &a = reg(), &b = reg(); if (&a == &b) return; setop("copy"); TR("  copy"); R1 c = copy(a); drop(b); b = c; chk(b); }
  void op_change() { R1& r = reg(); NS ne = s.coin() ? gen_ns(0, 6) : r.env; if (s.coin()) { for (auto i : gen_ns(0, 2)) if (ne.count(i)) ne.erase(i); else if (ne.size() < 6) ne.insert(i); } change(r, ne, s.coin()); }
  void op_minenv() { R1& r = reg(); setop("minimize_environment"); TR("  minimize_environment r" << (&r - &R[0])); bool de = destr(); NS ne; for (auto i : r.env) { Poly f = r.u.copy(); f.forget(i); if (r.u.is_empty() || !r.u.contains(f)) ne.insert(i); } ap_abstract1_t x = ap_abstract1_minimize_environment(m, de, &r.a); put(r, x, de); if (exact) r.env = ne; else { NS got; for (size_t i = 0; i < x.env->intdim + x.env->realdim; i++) got.insert(nid(ap_environment_var_of_dim(x.env, i))); for (auto i : r.env) if (!got.count(i)) { if (ne.count(i) && !r.w.empty()) B("environment", string("removes the constrained variable ") + NAMES[i]); r.u.forget(i); } r.env = got; } chk(r); }
  void op_rename() { R1& r = reg(); if (r.env.empty()) return; setop("rename_array"); NS from = subset(r.env), keep, ne; for (auto i : r.env) if (!from.count(i)) keep.insert(i); vector<size_t> f(from.begin(), from.end()), t; for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s.draw(i)]); std::set<size_t> used = keep; ne = keep;
    vector<size_t> f2; for (auto x : f) { vector<size_t> c; for (size_t y = 0; y < NU; y++) if (!used.count(y) && isint[y] == isint[x]) c.push_back(y); if (c.empty()) return; size_t y = s.pick(c); used.insert(y); ne.insert(y); t.push_back(y); }
    vector<ap_var_t> a, b; string txt; for (size_t i = 0; i < f.size(); i++) { a.push_back(nv(f[i])); b.push_back(nv(t[i])); txt += string(" ") + NAMES[f[i]] + "->" + NAMES[t[i]]; } TR("  rename r" << (&r - &R[0]) << txt); bool de = destr(); ap_abstract1_t x = ap_abstract1_rename_array(m, de, &r.a, a.data(), b.data(), a.size()); put(r, x, de);
    vector<int> from_(NU, -1); for (auto i : keep) from_[i] = i; for (size_t i = 0; i < f.size(); i++) from_[t[i]] = f[i]; r.u = r.u.is_empty() ? Poly::empty(NU) : r.u.remap(from_); for (auto& p : r.w) { Pt q = p; for (size_t i = 0; i < NU; i++) q[i] = from_[i] >= 0 ? p[from_[i]] : val(i); p = q; } r.env = ne; chk(r); }
  void op_expand() { R1& r = reg(); if (r.env.empty() || r.env.size() > 5) return; setop("expand"); vector<size_t> v(r.env.begin(), r.env.end()); size_t x = s.pick(v); vector<size_t> nw; for (int k = s.range(0, 3), i = 0; i < k; i++) { size_t y = s.draw(NU); if (!r.env.count(y) && isint[y] == isint[x] && std::find(nw.begin(), nw.end(), y) == nw.end() && r.env.size() + nw.size() < 7) nw.push_back(y); } string txt; vector<ap_var_t> tv; for (auto y : nw) { tv.push_back(nv(y)); txt += string(" ") + NAMES[y]; } TR("  expand r" << (&r - &R[0]) << " " << NAMES[x] << " into" << txt); bool de = destr(); ap_abstract1_t z = ap_abstract1_expand(m, de, &r.a, nv(x), tv.data(), tv.size()); put(r, z, de);
    Poly u = r.u.copy(); for (auto y : nw) u.meet(swapped(r.u, x, y)); vector<Pt> w; for (auto& p : r.w) { Pt q = p; for (auto y : nw) q[y] = p[x]; w.push_back(q); } // other witnesses that differ only on x
    if (!r.w.empty() && nw.size()) { Pt p = r.w[0], q = p; q[x] = val(x); if (exact && r.u.contains_point(q)) { Pt z = p; for (auto y : nw) z[y] = s.coin() ? q[x] : p[x]; w.push_back(z); } } for (auto y : nw) r.env.insert(y); r.u = u; r.w = w; chk(r); }
  void op_fold() { R1& r = reg(); if (r.env.empty()) return; setop("fold"); vector<size_t> v(r.env.begin(), r.env.end()), f; size_t x = s.pick(v); for (auto i : v) if (isint[i] == isint[x] && (i == x || s.coin())) f.push_back(i); for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[s.draw(i)]); string txt; vector<ap_var_t> tv; for (auto i : f) { tv.push_back(nv(i)); txt += string(" ") + NAMES[i]; } TR("  fold r" << (&r - &R[0]) << txt); bool de = destr(); ap_abstract1_t z = ap_abstract1_fold(m, de, &r.a, tv.data(), tv.size()); put(r, z, de);
    Poly u = Poly::empty(NU); for (size_t i = 0; i < f.size(); i++) { Poly p = r.u.copy(); for (size_t j = 0; j < f.size(); j++) if (j != i) p.forget(f[j]); u.hull(i ? swapped(p, f[0], f[i]) : p); } vector<Pt> w; for (auto& p : r.w) { Pt q = p; q[f[0]] = p[f[s.draw(f.size())]]; for (size_t j = 1; j < f.size(); j++) q[f[j]] = val(f[j]); w.push_back(q); } for (size_t j = 1; j < f.size(); j++) r.env.erase(f[j]); r.u = u; r.w = w; chk(r); }
  void op_forget() { R1& r = reg(); if (r.env.empty()) return; NS f = subset(r.env); bool proj = s.coin(), de = destr(); setop(proj ? "forget-project" : "forget"); vector<size_t> v(f.begin(), f.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.draw(i)]); vector<ap_var_t> tv; for (auto i : v) tv.push_back(nv(i)); TR("  forget r" << (&r - &R[0]) << " " << S(f) << (proj ? " project" : "")); ap_abstract1_t x = ap_abstract1_forget_array(m, de, &r.a, tv.data(), tv.size(), proj); put(r, x, de); r.u = r.u.copy(); for (auto i : v) { r.u.forget(i); if (proj) r.u.add(unit(i), 0); } for (auto& p : r.w) for (auto i : v) p[i] = proj ? Q(0) : val(i); chk(r); }
  void op_meetcons() { R1& r = reg(); vector<C1> v = gconss(r.env, r.w); bool de = destr(); TR("  meet r" << (&r - &R[0]) << " with " << SC(v)); ap_abstract1_t x; if (s.coin()) { setop("meet_lincons_array"); ap_lincons1_array_t a = mkla(v, r.env); x = ap_abstract1_meet_lincons_array(m, de, &r.a, &a); ap_lincons1_array_clear(&a); } else { setop("meet_tcons_array"); ap_tcons1_array_t a = mkta(v, r.env); x = ap_abstract1_meet_tcons_array(m, de, &r.a, &a); ap_tcons1_array_clear(&a); } put(r, x, de); r.u = r.u.copy(); for (auto& c : v) addc(r.u, c); vector<Pt> w; for (auto& p : r.w) { bool ok = true; for (auto& c : v) ok &= holds(c, p); if (ok) w.push_back(p); } r.w = w; chk(r); }
  void op_lattice() { // values on the same environment
    R1 &a = reg(), &b = reg(); if (a.env != b.env && b.env.size() < 7 && a.env.size() < 7 && &a != &b) change(b, a.env, false); if (a.env != b.env) return; int k = s.draw(5); bool de = destr() && &a != &b; ap_abstract1_t x; vector<Pt> w; Poly u = a.u.copy();
    if (k == 0) { setop("meet"); u.meet(b.u); for (auto& p : a.w) { bool in = false; for (auto& q : b.w) { bool eq = true; for (auto i : a.env) eq &= p[i] == q[i]; in |= eq; } if (in) w.push_back(p); } TR("  meet r" << (&a - &R[0]) << " r" << (&b - &R[0])); x = ap_abstract1_meet(m, de, &a.a, &b.a); put(a, x, de); }
    else if (k == 1) { setop("join"); u.hull(b.u); w = a.w; for (auto& p : b.w) if (w.size() < 6) w.push_back(p); TR("  join r" << (&a - &R[0]) << " r" << (&b - &R[0])); x = ap_abstract1_join(m, de, &a.a, &b.a); put(a, x, de); }
    else if (k == 2) { setop("join_array"); ap_abstract1_t t[3] = {a.a, b.a, a.a}; u.hull(b.u); w = a.w; for (auto& p : b.w) if (w.size() < 6) w.push_back(p); TR("  join_array"); x = ap_abstract1_join_array(m, t, s.range(2, 3)); put(a, x, false); }
    else if (k == 3) { setop("meet_array"); ap_abstract1_t t[3] = {a.a, b.a, b.a}; u.meet(b.u); TR("  meet_array"); x = ap_abstract1_meet_array(m, t, s.range(2, 3)); put(a, x, false); }
    else { setop("is_leq"); bool l = ap_abstract1_is_leq(m, &a.a, &b.a); exn(); bool e = ap_abstract1_is_eq(m, &a.a, &b.a); exn(); if (exact && (l != b.u.contains(a.u) || e != b.u.equals(a.u))) B("order", "is_leq answers " + std::to_string(l) + " and is_eq " + std::to_string(e) + " for {" + a.u.str() + "} and {" + b.u.str() + "}"); return; }
    a.u = u; a.w = w; chk(a); }
  void op_unify() { R1 &a = reg(), &b = reg(); NS e = a.env; for (auto i : b.env) e.insert(i); if (e.size() > 7) return; setop("unify"); TR("  unify r" << (&a - &R[0]) << " r" << (&b - &R[0])); bool de = destr() && &a != &b; ap_abstract1_t x = ap_abstract1_unify(m, de, &a.a, &b.a); put(a, x, de); Poly u = a.u.copy(); u.meet(b.u); vector<Pt> w; for (auto& p : a.w) for (auto& q : b.w) { bool ok = true; Pt z = p; for (auto i : b.env) { if (a.env.count(i)) ok &= p[i] == q[i]; else z[i] = q[i]; } if (ok && w.size() < 6) w.push_back(z); } a.u = u; a.w = w; a.env = e; chk(a); }
  void op_assign(bool subst) {
    R1& r = reg(); if (r.env.empty()) return; NS ds = subset(r.env); if (ds.empty()) ds.insert(*r.env.begin()); if (s.coin()) { vector<size_t> v(ds.begin(), ds.end()); ds = {s.pick(v)}; } vector<size_t> v(ds.begin(), ds.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.draw(i)]);
    vector<LinE> es; string txt; for (auto x : v) { LinE l = glin(r.env); if (isint[x]) { for (size_t i = 0; i < NU; i++) l.c[i] = isint[i] ? Q(qfloor(l.c[i])) : Q(0); l.k = Q(qfloor(l.k)); } es.push_back(l); }
    bool te = s.coin(), de = destr(), one = v.size() == 1 && s.coin(); setop(subst ? (te ? "substitute_texpr" : "substitute_linexpr") : (te ? "assign_texpr" : "assign_linexpr"));
    vector<Pt> w; if (!subst) for (auto& p : r.w) { Pt q = p; for (size_t i = 0; i < v.size(); i++) q[v[i]] = at(es[i], p); w.push_back(q); }
    else if (!r.w.empty()) { Pt post = r.w[0], pre = post; for (auto x : v) pre[x] = val(x); for (size_t i = 0; i < v.size(); i++) es[i].k += post[v[i]] - at(es[i], pre); w.push_back(pre); }
    for (size_t i = 0; i < v.size(); i++) txt += string(" ") + NAMES[v[i]] + (subst ? " -> " : " := ") + SE(es[i]) + ";"; 
    Poly u = r.u.copy(); if (subst) u.preimage(v, es); else u.image(v, es); R1 dst; bool hasd = s.chance(1, 4); string op0 = op; if (hasd) { vector<C1> cs; for (int i = s.range(0, 2); i > 0; i--) { C1 c = gcons(r.env, w); bool all = true; for (auto& p : w) all &= holds(c, p); if (all) cs.push_back(c); } ap_lincons1_array_t a = mkla(cs, r.env); dst.a = ap_abstract1_of_lincons_array(m, r.a.env, &a); exn(); ap_lincons1_array_clear(&a); dst.u = Poly::univ(NU); for (auto& c : cs) addc(dst.u, c); txt += " dest " + SC(cs); u.meet(dst.u); } setop(op0.c_str());
    TR("  " << op << " r" << (&r - &R[0]) << txt << (de ? " destructive" : "")); vector<ap_var_t> tv; for (auto x : v) tv.push_back(nv(x)); ap_abstract1_t x; ap_abstract1_t* dp = hasd ? &dst.a : nullptr;
    if (te) { vector<ap_texpr1_t> a; vector<ap_texpr1_t*> ap; for (auto& e : es) { ap_texpr1_t* t = mkte(e, r.env); ap.push_back(t); a.push_back(*t); } if (one) x = subst ? ap_abstract1_substitute_texpr(m, de, &r.a, tv[0], &a[0], dp) : ap_abstract1_assign_texpr(m, de, &r.a, tv[0], &a[0], dp); else x = subst ? ap_abstract1_substitute_texpr_array(m, de, &r.a, tv.data(), a.data(), a.size(), dp) : ap_abstract1_assign_texpr_array(m, de, &r.a, tv.data(), a.data(), a.size(), dp); for (auto t : ap) ap_texpr1_free(t); }
    else { vector<ap_linexpr1_t> a; for (auto& e : es) a.push_back(mkle(e, r.env)); if (one) x = subst ? ap_abstract1_substitute_linexpr(m, de, &r.a, tv[0], &a[0], dp) : ap_abstract1_assign_linexpr(m, de, &r.a, tv[0], &a[0], dp); else x = subst ? ap_abstract1_substitute_linexpr_array(m, de, &r.a, tv.data(), a.data(), a.size(), dp) : ap_abstract1_assign_linexpr_array(m, de, &r.a, tv.data(), a.data(), a.size(), dp); for (auto& t : a) ap_linexpr1_clear(&t); }
    put(r, x, de); if (hasd) ap_abstract1_clear(m, &dst.a); r.u = u; r.w = w; chk(r); }
  void op_assign_() { op_assign(false); } void op_subst_() { op_assign(true); }
  void op_rays() { R1& r = reg(); setop("add_ray_array"); NS e = s.coin() ? r.env : subset(r.env), small = e; bool ext = s.chance(1, 4); if (ext) small = subset(e); ap_environment_t* en = mkenv(small); int k = s.range(0, 2); ap_generator1_array_t a = ap_generator1_array_make(en, k); Poly u = r.u.copy(); string txt; bool em = r.u.is_empty(); if (em && !exact) { ap_environment_free(en); ap_generator1_array_clear(&a); return; }
    vector<Pt> w = r.w; for (int i = 0; i < k; i++) { LinE l = glin(small); l.k = 0; if (!exact) for (auto& q : l.c) q = Q(qfloor(q)); if (support(l).empty() && !small.empty()) l.c[*small.begin()] = 1; bool line = s.coin(); ap_linexpr1_t x = mkle_in(l, small); ap_generator1_t g = ap_generator1_make(line ? AP_GEN_LINE : AP_GEN_RAY, &x); if (ap_generator1_array_set(&a, i, &g)) B("generator1_array_set", "generator refused"); if (support(l).empty()) { ap_environment_free(en); ap_generator1_array_clear(&a); return; } u.ray(l.c, line); txt += string(line ? " line " : " ray ") + SE(l); for (auto& p : w) { Q t = s.range(0, 2); if (line && s.coin()) t = -t; for (size_t j = 0; j < NU; j++) p[j] += t * l.c[j]; } }
    ap_environment_free(en); if (ext) { en = mkenv(e); string o = op; setop("generator1_array_extend_environment"); bool er; if (s.coin()) er = ap_generator1_array_extend_environment_with(&a, en); else { ap_generator1_array_t b; er = ap_generator1_array_extend_environment(&b, &a, en); ap_generator1_array_clear(&a); a = b; } if (er) B("fails", "extension refused"); ap_environment_free(en); chkenv(a.env, e, "generator array"); setop(o.c_str()); }
    TR("  add rays r" << (&r - &R[0]) << txt); bool de = destr(); ap_abstract1_t x = ap_abstract1_add_ray_array(m, de, &r.a, &a); put(r, x, de); ap_generator1_array_clear(&a); r.u = u; r.w = w; chk(r); }
  void op_closure() { R1& r = reg(); setop("closure"); TR("  closure"); bool de = destr(); ap_abstract1_t x = ap_abstract1_closure(m, de, &r.a); put(r, x, de); r.u = r.u.copy(); r.u.close(); chk(r); }
  void op_widen() { R1 &a = reg(), &b = reg(); if (&a == &b || a.env != b.env) return; R1 j; setop("widening"); j.a = ap_abstract1_join(m, false, &a.a, &b.a); exn(); j.env = a.env; j.u = a.u.copy(); j.u.hull(b.u); j.w = a.w; for (auto& p : b.w) if (j.w.size() < 6) j.w.push_back(p); bool th = s.coin(); R1 r; r.env = a.env; vector<C1> cs;
    if (th) { setop("widening_threshold"); cs = gconss(a.env, j.w); ap_lincons1_array_t t = mkla(cs, a.env); r.a = ap_abstract1_widening_threshold(m, &a.a, &j.a, &t); ap_lincons1_array_clear(&t); } else r.a = ap_abstract1_widening(m, &a.a, &j.a); exn(); TR("  widening r" << (&a - &R[0]) << " with join of r" << (&b - &R[0]) << (th ? " thresholds " + SC(cs) : ""));
    Poly p = read(r); if (!p.contains(exact ? j.u : Poly::empty(NU))) B("widening", "{" + p.str() + "} does not contain {" + j.u.str() + "}"); if (th && exact) for (auto& c : cs) if (c.rel == 1 && !j.u.is_empty() && !a.u.is_empty() && j.u.sat(c.e, 1) && a.u.sat(c.e, 1) && !p.sat(c.e, 1)) B("threshold", "threshold " + S1(c) + " holds for both arguments but not for {" + p.str() + "}"); r.u = p; r.w = j.w; for (auto& q : r.w) if (!p.contains_point(q)) B("widening", "excludes " + S(q)); drop(j); drop(a); a = r; chk(a); }
  void op_lin() { R1& r = reg(); if (r.u.is_empty() || r.env.empty()) return; setop("intlinear_of_tree"); LinE l = glin(r.env); bool ql = s.coin(); ap_texpr1_t* t = mkte(l, r.env); ap_linexpr1_t e = ap_abstract1_intlinear_of_tree(m, &r.a, t, AP_SCALAR_MPQ, ql); exn(); chkenv(e.env, r.env, "intlinear_of_tree"); LinE g = rdle(&e); bool same = g.c == l.c && g.k == l.k; if (!same) { LinE df = l; for (size_t i = 0; i < NU; i++) df.c[i] -= g.c[i]; df.k -= g.k; if (!exact || !r.u.sat(df, 0)) B("intlinear_of_tree", SE(l) + " becomes " + SE(g)); } ap_linexpr1_clear(&e); ap_texpr1_free(t); (void)r; }
  struct Op { int w; void (L1::*f)(); };
  void run(int maxs) {
    for (int i = 0; i < 3; i++) R.push_back(fresh(gen_ns(0, 5)));
    static const vector<Op> ops = {{3, &L1::op_assign_}, {2, &L1::op_fresh}, {1, &L1::op_copy}, {4, &L1::op_change}, {2, &L1::op_minenv}, {3, &L1::op_rename}, {2, &L1::op_expand}, {2, &L1::op_fold}, {2, &L1::op_forget}, {3, &L1::op_meetcons}, {4, &L1::op_lattice}, {4, &L1::op_unify}, {2, &L1::op_subst_}, {1, &L1::op_rays}, {1, &L1::op_closure}, {1, &L1::op_widen}, {1, &L1::op_lin}};
    int tot = 0; for (auto& o : ops) tot += o.w; steps = s.range(0, maxs);
    for (int i = 0; i < steps; i++) { int k = s.draw(tot); for (auto& o : ops) { if (k < o.w) { (this->*o.f)(); label("op:" + op); break; } k -= o.w; } for (auto& r : R) if (r.w.size() > 6) r.w.resize(6); }
    if (steps >= 2 && nontriv) s.nontrivial = true; }
};
int main(int argc, char** argv) {
  Prop p; p.id = "l1"; p.rule = "random histories of 0-8 level-1 operations over three values on random environments drawn from 9 names (arguments on sub-environments, expressions extended from smaller environments); after every operation the environment and the value read back by name must be those of a reference polyhedron keyed by name (exact with real variables; between the reference and known integer points otherwise); non-trivial: at least two operations and a non-empty value of two or more variables observed"; p.quick = 40000; p.thorough = 1000000;
  vector<Dom> ds = doms_named({"pkMPQ", "pkstrictMPQ", "pplpoly", "pplstrict"});
  p.fn = [ds](Src& s) { const Dom& d = ds[s.weighted({5, 3, 2, 2})]; label("domain:" + d.name); L1 w(s, d); bool ints = d.name[1] == 'k' && s.chance(1, 3); w.exact = !ints; for (size_t i = 0; i < NU; i++) w.isint.push_back(ints && s.coin()); label(ints ? "mixed" : "real"); TR(d.name); w.run(8); };
  return engine_main(argc, argv, {p}); }
