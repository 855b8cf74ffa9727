// Exactness: the value computed by every operation must be the abstraction (identity for polyhedra, hulls for the
// weaker domains) of the exact concrete result, and queries must be answered exactly; flags must not overstate.
#include "ops.hpp"
static const std::set<string> EXPR = {"meet_lincons", "meet_tcons", "of_lincons_array", "of_tcons_array", "assign_linexpr", "assign_texpr", "substitute_linexpr", "substitute_texpr"};
enum { A_ID, A_BOX, A_OCT, A_AFF };
static Poly boxhull(const Poly& u, bool oct) {
  size_t n = u.dim(); if (u.is_empty()) return Poly::empty(n); Poly r = Poly::univ(n);
  auto dir = [&](LinE e) { Q q; bool at; e.k = 0; if (u.sup(e, q, at)) { for (auto& x : e.c) x = -x; e.k = q; r.add(e, 1); } };
  for (size_t i = 0; i < n; i++) for (int a = -1; a <= 1; a += 2) { LinE e; e.c.assign(n, 0); e.c[i] = a; dir(e); if (oct) for (size_t j = 0; j < i; j++) for (int b = -1; b <= 1; b += 2) { e.c[j] = b; dir(e); e.c[j] = 0; } }
  return r; }
static Poly affhull(const Poly& u) {
  size_t n = u.dim(); if (u.is_empty()) return Poly::empty(n); Poly r = Poly::univ(n); for (auto& c : u.constraints()) if (c.first == 0) r.add(c.second, 0); return r; }
struct Ex : Ops {
  int alpha; int qshape; bool loose = false; std::set<string> weak; // operations that need not be best
  Ex(Src& s, const Dom& d, int al) : Ops(s, d), alpha(al) { exact = true; useU = true; qshape = al == A_OCT ? 2 : 0; }
  Poly al(const Poly& u) { switch (alpha) { case A_BOX: return boxhull(u, false); case A_OCT: return boxhull(u, true); case A_AFF: return affhull(u); default: return u; } }
  Poly gamma(ap_abstract0_t* a) {
    ap_lincons0_array_t t = ap_abstract0_to_lincons_array(m, a); vector<Cons> v = of_cons_array(&t, n()); ap_lincons0_array_clear(&t); Poly p = Poly::univ(n()); for (auto& c : v) { if (!c.e.scalar() || c.t > AP_CONS_SUP) bad("to_lincons-kind", "unexpected constraint " + S(c)); p.add(to_linE(c.e), c.t == AP_CONS_EQ ? 0 : c.t == AP_CONS_SUPEQ ? 1 : 2); }
    // the sign of strictness in the values of the C enumeration: EQ, SUPEQ, SUP
    return p; }
  Poly conc(ap_abstract0_t* a, const Poly& u) override { ap_abstract0_t* c = ap_abstract0_copy(m, a); Poly g = gamma(c); ap_abstract0_free(m, c); return g; }
  bool best_assign(const vector<LinE>& e, bool subst, bool hasd) override { if (alpha == A_ID || alpha == A_AFF) return true; if (alpha == A_BOX) return !subst && !hasd; if (hasd) return false; for (auto& l : e) { int k = 0; for (auto& q : l.c) k += q != 0; if (k > 1) return false; } return !subst || e.size() == 1; }
  void settle(Reg& r) override {
    string o = op; ap_abstract0_t* c = ap_abstract0_copy(m, r.a); ap_dimension_t dd = ap_abstract0_dimension(m, c); if (fails_dim(dd, id, rd)) bad("dimension", "wrong dimension"); Poly g = gamma(c); ap_abstract0_free(m, c); m->result.exn = AP_EXC_NONE;
    bool acc = accept || weak.count(o) || (loose && EXPR.count(o)); accept = false;
    if (!g.contains(r.u)) bad("unsound", "result {" + g.str() + "} does not contain {" + r.u.str() + "}");
    if (!acc || r.fb || r.fe) { Poly a = al(r.u); if (!g.equals(a)) { if (!acc) bad("imprecise", "result is {" + g.str() + "} instead of {" + a.str() + "}"); if (r.fb && o != "approximate" && o != "widening" && o != "widening_threshold") bad("flag_best", "flag_best is set but the result is {" + g.str() + "} instead of {" + a.str() + "}"); }
      if (r.fe && o != "widening" && o != "widening_threshold" && o != "approximate" && !g.equals(r.u)) bad("flag_exact", "flag_exact is set but the result is {" + g.str() + "} and the exact one {" + r.u.str() + "}"); }
    if (!g.equals(r.u)) { label("abstracted:" + o); } else label("exact:" + o);
    r.u = g; vector<Pt> w; if (!g.is_empty()) { Pt p; if (d.flt) { for (auto& x : g.generators()) if (x.first == 2) { bool dy = true; for (auto& q : x.second) { mpz_class z = q.get_den(); dy &= mpz_popcount(z.get_mpz_t()) == 1; } if (dy) w.push_back(x.second); break; } } else if (g.some_point(p)) w.push_back(p); } if (r.w.size() > 4 || acc) r.w.resize(std::min<size_t>(r.w.size(), 3)); for (auto& p : w) addw(r, p); }
  I bnd(const Poly& u, const LinE& e) { I r; Q q; bool at; if (u.is_empty()) { r.lo = X::pinf(); r.hi = X::minf(); return r; } r.hi = u.sup(e, q, at) ? X(q) : X::pinf(); r.lo = u.inf(e, q, at) ? X(q) : X::minf(); return r; }
  void eqi(const string& k, const I& v, const I& w, const string& what) { if (v.empty() && w.empty()) return; if (v.lo != w.lo || v.hi != w.hi) bad(k, what + " is " + S(v) + " instead of " + S(w)); }
  Lin qlin() { LinCfg c = lc; c.shape = qshape; return gen_lin(s, n(), c); }
  void check_obs(Reg& r) override {
    string o = op; auto B = [&](const char* k, const string& msg) { fail(d.name + ":" + k + ":after-" + o, msg); }; const Poly& u = r.u; bool em = u.is_empty(); if (!em) nontriv = true; label(em ? "obs:empty" : "obs:non-empty");
    unsigned which = s.draw(4) == 0 ? 0xfff : (1u << s.draw(10)) | (1u << s.draw(10)) | (1u << s.draw(10)); string us = "{" + (TRON ? u.str() : string("")) + "}";
    auto flagok = [&](bool ans) { return true; };
    if (which & 1) { setop("is_bottom"); bool b = ap_abstract0_is_bottom(m, r.a); exn(); if (b != em) B("is_bottom", "is_bottom answers " + std::to_string(b) + " on {" + u.str() + "}"); }
    if (which & 2) { setop("is_top"); bool b = ap_abstract0_is_top(m, r.a); exn(); if (b != u.contains(Poly::univ(n()))) B("is_top", "is_top answers " + std::to_string(b) + " on {" + u.str() + "}"); }
    if (which & 4) { setop("to_box"); ap_interval_t** t = ap_abstract0_to_box(m, r.a); exn(); if (t) { vector<I> v; for (size_t i = 0; i < n(); i++) v.push_back(of_interval(t[i])); ap_interval_array_free(t, n()); for (size_t i = 0; i < n(); i++) eqi("to_box", v[i], bnd(u, to_linE(unit(i))), "to_box of dimension " + std::to_string(i) + " in {" + u.str() + "}"); } }
    if ((which & 8) && n()) { setop("bound_dimension"); size_t i = s.draw(n()); ap_interval_t* t = ap_abstract0_bound_dimension(m, r.a, i); exn(); I v = of_interval(t); ap_interval_free(t); eqi("bound_dimension", v, bnd(u, to_linE(unit(i))), "bound of dimension " + std::to_string(i) + " in {" + u.str() + "}"); }
    if (which & 16) { setop("bound_linexpr"); Lin l = qlin(); ap_linexpr0_t* e = mk_lin(l); ap_interval_t* t = ap_abstract0_bound_linexpr(m, r.a, e); exn(); I v = of_interval(t); ap_interval_free(t); ap_linexpr0_free(e); I w = bnd(u, to_linE(l)); if (loose && !isubset(w, v)) B("bound_linexpr", "bound " + S(v) + " of " + S(l) + " does not contain " + S(w)); if (!loose || fex || fbe) eqi(loose ? "bound_linexpr-flags" : "bound_linexpr", v, w, "bound of " + S(l) + " in {" + u.str() + "}"); }
    if (which & 32) { setop("bound_texpr"); LinE e = to_linE(qlin()); T t = of_linE(e); ap_texpr0_t* x = mk_te(t); ap_interval_t* iv = ap_abstract0_bound_texpr(m, r.a, x); exn(); I v = of_interval(iv); ap_interval_free(iv); ap_texpr0_free(x); if (loose && !isubset(bnd(u, e), v)) B("bound_texpr", "bound " + S(v) + " of " + S(t) + " does not contain " + S(bnd(u, e))); if (!weak.count("bound_texpr") && (!loose || fex || fbe)) eqi("bound_texpr", v, bnd(u, e), "bound of " + S(t) + " in {" + u.str() + "}"); }
    if (which & 64) { setop("sat_lincons"); Lin l0 = lc.shape ? qlin() : genlin(); Cons c; c.e = l0; c.t = s.weighted({4, 2, 3}) == 0 ? AP_CONS_SUPEQ : s.coin() ? AP_CONS_EQ : AP_CONS_SUP; if (!em && s.chance(3, 4)) { Q q; bool at; LinE e = to_linE(l0); if (u.inf(e, q, at)) c.e.k = I(Q(l0.k.lo.v - q + (s.chance(1, 3) ? Q(s.range(-1, 1)) : Q(0)))); }
      ap_lincons0_t k = mk_cons(c); bool b = ap_abstract0_sat_lincons(m, r.a, &k); exn(); ap_lincons0_clear(&k); bool w = em || u.sat(to_linE(c.e), c.t == AP_CONS_EQ ? 0 : c.t == AP_CONS_SUPEQ ? 1 : 2); TR("    sat " << S(c) << " = " << b); if (b != w && (b || ((c.t != AP_CONS_SUP || strictok) && (!loose || fex)))) B("sat_lincons", "sat_lincons " + S(c) + " answers " + std::to_string(b) + " in {" + u.str() + "}"); label(string("sat:") + (b ? "true" : "false")); }
    if ((which & 128) && n()) { setop("sat_interval"); size_t i = s.draw(n()); I iv = bnd(u, to_linE(unit(i))); if (iv.empty() || s.coin()) iv = gen_itv(s, pc); else { if (s.coin() && iv.lo.fin()) iv.lo = X(Q(iv.lo.v + s.range(-1, 1))); if (s.coin() && iv.hi.fin()) iv.hi = X(Q(iv.hi.v + s.range(-1, 1))); if (iv.empty()) iv = I::top(); } ap_interval_t* t = mk_interval(iv, gen_kind(s), gen_kind(s)); bool b = ap_abstract0_sat_interval(m, r.a, i, t); exn(); ap_interval_free(t); bool w = em || isubset(bnd(u, to_linE(unit(i))), iv); TR("    sat_interval x" << i << " " << S(iv) << " = " << b); if (b != w) B("sat_interval", "x" + std::to_string(i) + " in " + S(iv) + " answers " + std::to_string(b) + " in {" + u.str() + "}"); }
    if ((which & 256) && n()) { setop("is_dimension_unconstrained"); size_t i = s.draw(n()); bool b = ap_abstract0_is_dimension_unconstrained(m, r.a, i); exn(); Poly f = u.copy(); f.forget(i); bool w = !em && u.contains(f); if (em ? false : b != w) B("is_dimension_unconstrained", "x" + std::to_string(i) + " answers " + std::to_string(b) + " in {" + u.str() + "}"); }
    if ((which & 512) && !off.count("generators")) { setop("to_generators"); ap_generator0_array_t g = ap_abstract0_to_generator_array(m, r.a); ap_exc_t e = m->result.exn; exn(); if (e == AP_EXC_NONE) { vector<std::pair<int, Pt>> gs; for (size_t i = 0; i < g.size; i++) { Lin l = of_lin(g.p[i].linexpr0, n()); Pt v; for (auto& c : l.c) v.push_back(c.lo.v); if (g.p[i].gentyp > AP_GEN_VERTEX) B("to_generators", "unexpected generator type"); gs.push_back({(int)g.p[i].gentyp, v}); } bool ok; Poly G = Poly::of_generators(n(), gs, ok); if (!ok) B("to_generators", "ill-formed generators for {" + u.str() + "}"); Poly c = u.copy(); c.close(); if (!G.contains(c)) B("to_generators", "generators describe {" + G.str() + "} which does not cover {" + u.str() + "}"); if ((alpha != A_OCT || fex) && !G.equals(c)) B("to_generators", "generators describe {" + G.str() + "} instead of {" + u.str() + "}"); } ap_generator0_array_clear(&g); }
    op = o; crumb((d.name + ":" + o).c_str()); }
};
static void exact_case(Src& s, const vector<Dom>& ds, int al, std::function<void(Ex&)> tune) {
  const Dom& d = ds[s.draw(ds.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); Ex w(s, d, al);
  w.id = 0; w.rd = std::min<int>(s.weighted({1, 3, 6, 6, 3}), d.maxdim); w.lc.itv = 0; w.strictok = d.name.find("strict") != string::npos;
  int lev = s.weighted({5, 4}); if (d.small || d.flt) lev = 0; w.lc.num.level = w.pc.level = w.tc.num.level = lev; if (d.small || d.flt) { w.lc.num.dyadic = w.pc.dyadic = true; } if (d.small) w.lc.num.frac = false; w.lc.density = s.coin() ? 40 : 80; w.tc.round = false; w.lc.num.frac = w.lc.num.frac && lev;
  if (tune) tune(w); if (w.lc.shape && !d.flt && s.chance(1, 3)) { w.loose = true; w.lc.shape = w.qshape = 0; label("loose"); }
  TR(d.name << " dims (" << w.id << "," << w.rd << ")"); w.run(d.small ? 6 : 10); label("steps:" + std::to_string(w.steps / 4 * 4)); }
int main(int argc, char** argv) {
  static const char* RULE = "random histories of 0-10 operations over real dimensions (at most 5) with scalar linear arguments; after every operation the value must equal the abstraction of the exact result computed by a reference polyhedron, every query must be answered exactly, and flag_exact/flag_best must not overstate; non-trivial: at least two operations and an observation of a non-empty value";
  vector<Prop> P; auto add = [&](const char* id, vector<Dom> ds, int al, std::function<void(Ex&)> tune = nullptr) { Prop p; p.id = id; p.rule = RULE; p.quick = 40000; p.thorough = 1000000; p.fn = [ds, al, tune](Src& s) { exact_case(s, ds, al, tune); }; P.push_back(p); };
  add("box", doms_named({"boxMPQ", "boxD", "boxMPFR"}), A_BOX, [](Ex& w) { w.lc.shape = 1; });
  add("oct", doms_named({"octMPQ", "octD"}), A_OCT, [](Ex& w) { w.lc.shape = 2; });
  add("pk", doms_named({"pkMPQ", "pkstrictMPQ", "pkRll", "pkstrictRll"}), A_ID);
  add("ppl", doms_named({"pplpoly", "pplstrict"}), A_ID);
  add("pkeq", doms_named({"pkeqMPQ", "pkeqRll"}), A_AFF);
  return engine_main(argc, argv, P); }
