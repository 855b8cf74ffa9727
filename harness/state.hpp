// A history of abstract operations run next to concrete knowledge about what the values must contain:
//  - w: witness points (exact, integer on integer dimensions) that belong to the concrete value
//  - u: a polyhedron included in the concrete value (only without integer dimensions, convex domains)
#pragma once
#include "doms.hpp"
#include "pplx.hpp"
#include <fenv.h>

struct Reg { ap_abstract0_t* a = nullptr; vector<Pt> w; Poly u; bool fe = false, fb = false; };

inline LinE to_linE(const Lin& l) { LinE e; for (auto& i : l.c) e.c.push_back(i.lo.v); e.k = l.k.lo.v; return e; }
// picks one finite value in every interval coefficient
inline Lin instantiate(Src& s, const Lin& l) {
  Lin r = l; auto f = [&](I& i) { if (i.sing()) return; Q lo = i.lo.fin() ? i.lo.v : i.hi.fin() ? Q(i.hi.v - 3) : Q(-1), hi = i.hi.fin() ? i.hi.v : i.lo.fin() ? Q(i.lo.v + 3) : Q(1); Q v; switch (s.draw(3)) { case 0: v = lo; break; case 1: v = hi; break; default: v = (lo + hi) / 2; } i = I(v); };
  for (auto& c : r.c) f(c); f(r.k); return r; }
inline bool fails_dim(const ap_dimension_t& d, size_t i, size_t r) { return d.intdim != i || d.realdim != r; }

struct World {
  Src& s; Dom d; ap_manager_t* m; size_t id = 0, rd = 0; vector<Reg> R; bool useU = false; LinCfg lc; TECfg tc; NumCfg pc; string op; int steps = 0; bool nontriv = false;
  std::set<string> off; // excluded operations
  unsigned obsmask = ~0u;   // excluded observations
  bool nodest = false;      // no destination in assignments, no widening
  bool keepman = false;     // the manager is not freed (values lost by destructive operations keep it busy)
  bool exact = false, strictok = true, fex = false, fbe = false, accept = false; // exact: u is the concrete value itself; flags of the last operation
  virtual Poly conc(ap_abstract0_t*, const Poly& u) { return u; }
  virtual bool best_assign(const vector<LinE>&, bool subst, bool hasd) { return true; }
  virtual void settle(Reg&) {}                                  // exact mode: compares the value with u
  World(Src& s_, const Dom& d_) : s(s_), d(d_) { ap_fpu_init(); m = quietman(d.alloc()); }
  virtual ~World() { if (std::uncaught_exceptions()) return; for (auto& r : R) if (r.a) ap_abstract0_free(m, r.a); if (!keepman) ap_manager_free(m); }
  size_t n() const { return id + rd; }
  bool isint(size_t i) const { return i < id; }
  string sig(const string& k) { return d.name + ":" + op + ":" + k; }
  void bad(const string& k, const string& msg) { fail(sig(k), msg); }
  void setop(const char* o) { op = o; crumb((d.name + ":" + o).c_str()); }
  void exn() { fex = m->result.flag_exact; fbe = m->result.flag_best; if (fegetround() != FE_UPWARD) { fesetround(FE_UPWARD); bad("fpu-rounding", "the rounding mode of the processor was changed"); } ap_exc_t e = m->result.exn; if (e == AP_EXC_NONE) return; label(d.name + ":" + op.substr(0, op.find(":")) + ":exn:" + ap_name_of_exception[e]); if (e == AP_EXC_INVALID_ARGUMENT) bad("invalid-argument", "valid arguments rejected: " + string(m->result.exclog ? m->result.exclog->msg : "")); m->result.exn = AP_EXC_NONE; }
  bool okpoint(const Pt& p) const { for (size_t i = 0; i < id; i++) if (!::is_int(p[i])) return false; return true; }
  Q gen_val(size_t dim) { Q q = gen_q(s, pc); if (dim < id) q = Q(qfloor(q)); return q; }
  Pt gen_pt() { Pt p; for (size_t i = 0; i < n(); i++) p.push_back(gen_val(i)); return p; }
  void addw(Reg& r, const Pt& p) { if (r.w.size() >= 8) return; for (auto& q : r.w) if (q == p) return; r.w.push_back(p); }
  // an abstract value around some points
  ap_interval_t** mk_box(const vector<I>& b) { ap_interval_t** t = (ap_interval_t**)malloc(sizeof(ap_interval_t*) * (b.size() + 1)); for (size_t i = 0; i < b.size(); i++) t[i] = mk_interval(b[i], gen_kind(s), gen_kind(s)); return t; }
  void free_box(ap_interval_t** t, size_t k) { for (size_t i = 0; i < k; i++) ap_interval_free(t[i]); free(t); }
  Poly poly_of_box(const vector<I>& b) { Poly p = Poly::univ(b.size()); for (size_t i = 0; i < b.size(); i++) { LinE e; e.c.assign(b.size(), 0); if (b[i].lo.fin()) { e.c[i] = 1; e.k = -b[i].lo.v; p.add(e, 1); } if (b[i].hi.fin()) { e.c[i] = -1; e.k = b[i].hi.v; p.add(e, 1); } } return p; }
  Reg fresh() {
    Reg r; int k = s.weighted({2, 4, 4, 1});
    if (k == 0) { setop("top"); r.a = ap_abstract0_top(m, id, rd); exn(); r.w.push_back(gen_pt()); if (s.coin()) addw(r, gen_pt()); if (useU) r.u = Poly::univ(n()); TR("  top, witnesses " << SV(r.w)); }
    else if (k == 3) { setop("bottom"); r.a = ap_abstract0_bottom(m, id, rd); exn(); if (useU) r.u = Poly::empty(n()); TR("  bottom"); }
    else {
      Pt p = gen_pt(), q = s.coin() ? gen_pt() : p; vector<I> b;
      for (size_t i = 0; i < n(); i++) { I x{X(std::min(p[i], q[i])), X(std::max(p[i], q[i]))}; if (s.coin()) { Q e = k == 2 ? abs(gen_val(i)) : Q(0); x.lo = X(Q(x.lo.v - e)); x.hi = X(Q(x.hi.v + e)); } int w = s.weighted({8, 1, 1, 1}); if (w & 1) x.lo = X::minf(); if (w & 2) x.hi = X::pinf(); b.push_back(x); }
      ap_interval_t** t = mk_box(b); setop("of_box"); r.a = ap_abstract0_of_box(m, id, rd, t); exn(); free_box(t, n()); addw(r, p); addw(r, q); if (useU) r.u = poly_of_box(b); TR("  of_box " << SV(b) << " witnesses " << SV(r.w));
    }
    r.fe = fex; r.fb = fbe; check(r, "of_box"); return r; }

  // ---- constraint generation
  ap_constyp_t gentype(bool mod) { if (!exact) return gen_type(s, mod); ap_constyp_t t = gen_type(s, false); return t == AP_CONS_DISEQ || (t == AP_CONS_SUP && !strictok) ? AP_CONS_SUPEQ : t; }
  Lin genlin() { return gen_lin(s, n(), lc); }
  Cons gencons(const Reg& r) { Cons c; c.e = genlin(); c.t = gentype(true); if (c.t == AP_CONS_EQMOD) { c.mod = s.chance(1, 6) ? Q(0) : s.chance(1, 4) && !d.small ? Q(s.range(1, 9), s.range(2, 4)) : Q(s.range(1, 6)); c.mod.canonicalize(); } if (!r.w.empty() && s.chance(7, 8)) make_hold(s, c, r.w[s.draw(r.w.size())]); return c; }
  vector<Cons> genconss(const Reg& r) { vector<Cons> v; int k = s.weighted({6, 3, 2, 1, 1}) + 1; if (s.chance(1, 30)) k = 0; for (int i = 0; i < k; i++) v.push_back(gencons(r)); return v; }
  void u_meet(Reg& r, const Cons& c) { if (!r.u.valid()) return; Lin l = instantiate(s, c.e); LinE e = to_linE(l);
    switch (c.t) { case AP_CONS_EQ: r.u.add(e, 0); break; case AP_CONS_SUPEQ: r.u.add(e, 1); break; case AP_CONS_SUP: r.u.add(e, 2); break; case AP_CONS_EQMOD: r.u.add(e, 0); break;
    case AP_CONS_DISEQ: if (s.coin()) { for (auto& x : e.c) x = -x; e.k = -e.k; } r.u.add(e, 2); break; } }
  void u_of_points(Reg& r) { if (!useU) return; r.u = Poly::empty(n()); for (auto& p : r.w) r.u.hull(Poly::point(p)); }

  // ---- checks: everything a user can observe must be compatible with the knowledge
  void check(Reg& r0, const char* after) {
    if (!r0.a) bad("null", "operation returned a null value");
    if (exact) settle(r0);
    if (s.chance(1, 5)) return;             // sometimes left unobserved (keeps lazy states alive)
    if (s.coin()) { Reg c; string o = op; setop("copy"); c.a = ap_abstract0_copy(m, r0.a); exn(); op = o; c.w = r0.w; c.u = r0.u; check_obs(c); r0.w = c.w; r0.u = c.u; ap_abstract0_free(m, c.a); }
    else check_obs(r0); }
  virtual void check_obs(Reg& r) {
    string o = op; string pre = d.name + ":" + o + ":"; auto B = [&](const string& k, const string& msg) { fail(pre + k, msg); };
    ap_dimension_t dd = ap_abstract0_dimension(m, r.a); if (fails_dim(dd, id, rd)) B("dimension", "dimension is (" + std::to_string(dd.intdim) + "," + std::to_string(dd.realdim) + ") instead of (" + std::to_string(id) + "," + std::to_string(rd) + ")");
    bool known = !r.w.empty() || (r.u.valid() && !r.u.is_empty()); if (known) nontriv = true;
    unsigned which = s.draw(4) == 0 ? 0xfff : (1u << s.draw(9)) | (1u << s.draw(9)) | (1u << s.draw(9)); which &= obsmask;
    if (which & 1) { crumb((pre + "is_bottom").c_str()); bool b = ap_abstract0_is_bottom(m, r.a); exn(); if (b && known) B("is_bottom", "reported empty but contains " + (r.w.empty() ? string("a polyhedron") : S(r.w[0]))); }
    if (which & 2) { crumb((pre + "to_lincons").c_str()); ap_lincons0_array_t a = ap_abstract0_to_lincons_array(m, r.a); exn(); if (d.absl) { for (size_t i = 0; i < a.size; i++) for (auto& p : r.w) { Q val; string t; if (!abs_eval(&a.p[i], p, val, t)) B("to_lincons", "ill-formed constraint"); if (!may_sat(I(val), a.p[i].constyp, 0)) B("to_lincons", "constraint " + t + " " + tyname(a.p[i].constyp) + " excludes " + S(p)); } } vector<Cons> v; if (!d.absl) v = of_cons_array(&a, n()); ap_lincons0_array_clear(&a);
      for (auto& c : v) { for (auto& p : r.w) if (!may_sat(c, p)) B("to_lincons", "constraint " + S(c) + " excludes " + S(p));
        if (r.u.valid() && c.e.scalar() && c.t <= AP_CONS_SUP) if (!r.u.sat(to_linE(c.e), c.t == AP_CONS_EQ ? 0 : c.t == AP_CONS_SUPEQ ? 1 : 2)) B("to_lincons-poly", "constraint " + S(c) + " excludes part of {" + r.u.str() + "}"); } }
    if (which & 4) { crumb((pre + "to_box").c_str()); ap_interval_t** t = ap_abstract0_to_box(m, r.a); exn(); if (!t && n()) B("to_box-null", "to_box returned NULL"); if (t) { vector<I> v; for (size_t i = 0; i < n(); i++) v.push_back(of_interval(t[i])); ap_interval_array_free(t, n()); for (size_t i = 0; i < n(); i++) chk_itv(B, "to_box", v[i], r, unit(i)); } }
    if ((which & 8) && n()) { size_t i = s.draw(n()); crumb((pre + "bound_dimension").c_str()); ap_interval_t* t = ap_abstract0_bound_dimension(m, r.a, i); exn(); I v = of_interval(t); ap_interval_free(t); chk_itv(B, "bound_dimension", v, r, unit(i)); }
    if (which & 16) { Lin l = genlin(); crumb((pre + "bound_linexpr").c_str()); ap_linexpr0_t* e = mk_lin(l); ap_interval_t* t = ap_abstract0_bound_linexpr(m, r.a, e); exn(); I v = of_interval(t); ap_interval_free(t); ap_linexpr0_free(e); TR("    bound_linexpr " << S(l) << " = " << S(v)); for (auto& p : r.w) if (!isubset(eval(l, p), v)) B("bound_linexpr", "bound of " + S(l) + " is " + S(v) + " but at " + S(p) + " it is " + S(eval(l, p))); if (l.scalar()) chk_itv(B, "bound_linexpr", v, r, l); }
    if ((which & 32) && !off.count("texpr")) { T t = gen_te(s, n(), tc, tc.depth); crumb((pre + "bound_texpr").c_str()); ap_texpr0_t* e = mk_te(t); ap_interval_t* iv = ap_abstract0_bound_texpr(m, r.a, e); exn(); I v = of_interval(iv); ap_interval_free(iv); ap_texpr0_free(e); TR("    bound_texpr " << S(t) << " = " << S(v)); for (auto& p : r.w) { Q q; if (teval(t, p, &s, q) && !v.has(q)) B("bound_texpr", "bound of " + S(t) + " is " + S(v) + " but at " + S(p) + " it takes value " + S(q)); } }
    if (which & 64) { Cons c = gencons(r); crumb((pre + "sat_lincons").c_str()); ap_lincons0_t k = mk_cons(c); bool b = ap_abstract0_sat_lincons(m, r.a, &k); exn(); ap_lincons0_clear(&k); TR("    sat_lincons " << S(c) << " = " << b); if (b) { label("sat_lincons:true"); for (auto& p : r.w) if (!may_sat(c, p)) B("sat_lincons", "claims " + S(c) + " but it is false at " + S(p)); if (c.e.scalar() && c.t <= AP_CONS_SUP && r.u.valid() && !r.u.sat(to_linE(c.e), c.t == AP_CONS_EQ ? 0 : c.t == AP_CONS_SUPEQ ? 1 : 2)) B("sat_lincons-poly", "claims " + S(c) + " but it is false on part of {" + r.u.str() + "}"); } }
    if ((which & 128) && n()) { size_t i = s.draw(n()); NumCfg nc = pc; I iv = gen_itv(s, nc); if (!r.w.empty() && s.coin()) { Q q = r.w[0][i]; if (iv.lo.fin()) iv.lo = X(Q(q - s.range(0, 2))); if (iv.hi.fin()) iv.hi = X(Q(q + s.range(0, 2))); } ap_interval_t* t = mk_interval(iv, gen_kind(s), gen_kind(s)); crumb((pre + "sat_interval").c_str()); bool b = ap_abstract0_sat_interval(m, r.a, i, t); exn(); ap_interval_free(t); TR("    sat_interval x" << i << " in " << S(iv) << " = " << b); if (b) { label("sat_interval:true"); chk_itv(B, "sat_interval", iv, r, unit(i)); }
      crumb((pre + "is_dimension_unconstrained").c_str()); b = ap_abstract0_is_dimension_unconstrained(m, r.a, i); exn(); if (b) { label("unconstrained:true"); if (!r.w.empty()) { Pt p = r.w[s.draw(r.w.size())]; p[i] = gen_val(i); addw(r, p); TR("    x" << i << " unconstrained -> witness " << S(p)); } if (r.u.valid()) r.u.forget(i); } }
    if ((which & 256) && !off.count("texpr")) { TCons c; c.e = gen_te(s, n(), tc, 2); c.t = gen_type(s, false); if (!r.w.empty() && s.coin()) { Q q; if (teval(c.e, r.w[0], &s, q)) c.e = t_bin(AP_TEXPR_SUB, c.e, t_cst(I(Q(q - s.range(0, 3))))); } ap_tcons0_t k = mk_tcons(c); crumb((pre + "sat_tcons").c_str()); bool b = ap_abstract0_sat_tcons(m, r.a, &k); exn(); ap_tcons0_clear(&k); TR("    sat_tcons " << S(c) << " = " << b); if (b) { label("sat_tcons:true"); bool nd = t_has(c.e, [](const TE& t) { return (t.k == 0 && !t.cst.sing()) || (t.k == 2 && t.ty != AP_RTYPE_REAL && t.dir == AP_RDIR_RND); }); for (auto& p : r.w) { Q q; if (!nd && teval(c.e, p, &s, q) && !may_sat(I(q), c.t, c.mod)) B("sat_tcons", "claims " + S(c) + " but the expression is " + S(q) + " at " + S(p)); } } }
    if ((which & 512)) { crumb((pre + "is_top").c_str()); bool b = ap_abstract0_is_top(m, r.a); exn(); if (b) { label("is_top:true"); addw(r, gen_pt()); if (r.u.valid()) r.u = Poly::univ(n()); } 
      if (d.absl) return; crumb((pre + "to_tcons").c_str()); ap_tcons0_array_t a = ap_abstract0_to_tcons_array(m, r.a); exn(); for (size_t i = 0; i < a.size; i++) { TCons c; c.e = of_te(a.p[i].texpr0); c.t = a.p[i].constyp; if (c.t == AP_CONS_EQMOD) c.mod = of_scalar(a.p[i].scalar).v; for (auto& p : r.w) { Q q; bool nd = t_has(c.e, [](const TE& t) { return t.k == 0 && !t.cst.sing(); }); if (nd) continue; if (!teval(c.e, p, nullptr, q) || !may_sat(I(q), c.t, c.mod)) B("to_tcons", "constraint " + S(c) + " excludes " + S(p)); } } ap_tcons0_array_clear(&a); }
    if ((which & 1024) && !off.count("generators")) { crumb((pre + "to_generators").c_str()); ap_generator0_array_t g = ap_abstract0_to_generator_array(m, r.a); ap_exc_t e = m->result.exn; exn(); if (e == AP_EXC_NONE && d.convex) { vector<std::pair<int, Pt>> gs; bool okk = true; for (size_t i = 0; i < g.size; i++) { Lin l = of_lin(g.p[i].linexpr0, n()); if (!l.scalar() || g.p[i].gentyp > AP_GEN_VERTEX) { okk = false; break; } Pt v; for (auto& c : l.c) v.push_back(c.lo.v); gs.push_back({(int)g.p[i].gentyp, v}); } bool ok2; Poly P; if (okk) { P = Poly::of_generators(n(), gs, ok2); if (!ok2) B("to_generators-bad", "generator system without vertex or with null ray"); for (auto& p : r.w) if (!P.contains_point(p)) B("to_generators", "generators do not cover " + S(p)); if (r.u.valid()) { Poly c = r.u.copy(); c.close(); if (!P.contains(c)) B("to_generators-poly", "generators do not cover {" + r.u.str() + "}"); } } } ap_generator0_array_clear(&g); }
    op = o; }
  // absolute-value octagons return constraints where 11*x stands for |x|
  bool abs_eval(const ap_lincons0_t* c, const Pt& p, Q& val, string& txt) {
    ap_linexpr0_t* e = c->linexpr0; size_t i; ap_dim_t dm; ap_coeff_t* k; val = of_coeff(&e->cst).lo.v; txt = S(val);
    ap_linexpr0_ForeachLinterm(e, i, dm, k) { if (dm >= p.size()) return false; I v = of_coeff(k); if (!v.sing()) return false; Q x = p[dm]; bool ab = abs(v.lo.v) == 11; if (ab) x = abs(x); Q cc = ab ? Q(v.lo.v / 11) : v.lo.v; val += cc * x; txt += " + " + S(cc) + (ab ? "*|x" : "*x") + std::to_string(dm) + (ab ? "|" : ""); }
    return true; }
  Lin unit(size_t i) { Lin l(n()); l.c[i] = I(Q(1)); return l; }
  template<class F> void chk_itv(F& B, const char* k, const I& v, const Reg& r, const Lin& l) {
    for (auto& p : r.w) if (!isubset(eval(l, p), v)) B(k, string(k) + " of " + S(l) + " is " + S(v) + " but at " + S(p) + " it is " + S(eval(l, p)));
    if (r.u.valid() && !r.u.is_empty()) { LinE e = to_linE(l); Q q; bool at; if (v.hi.fin() && (!r.u.sup(e, q, at) || v.hi < X(q))) B(string(k) + "-poly", string(k) + " of " + S(l) + " has upper bound " + S(v.hi) + ", too small for {" + r.u.str() + "}"); if (v.lo.fin() && (!r.u.inf(e, q, at) || X(q) < v.lo)) B(string(k) + "-poly", string(k) + " of " + S(l) + " has lower bound " + S(v.lo) + ", too large for {" + r.u.str() + "}"); } }
  Reg& reg() { return R[s.draw(R.size())]; }
  // replaces register by the result
  void put(Reg& r, ap_abstract0_t* a, bool destr) { exn(); if (!destr) ap_abstract0_free(m, r.a); r.a = a; r.fe = fex; r.fb = fbe; }
  void put(Reg& r, Reg&& x) { if (r.a) ap_abstract0_free(m, r.a); r = std::move(x); r.fe = fex; r.fb = fbe; }
};
