// The operations of a history, each with its concrete semantics on the knowledge kept by World.
#pragma once
#include "state.hpp"

struct Ops : World {
  using World::World;
  struct Op { const char* name; int weight; void (Ops::*fn)(); };
  ap_abstract0_t* in(Reg& r, bool destr) { return r.a; }
  bool destr() { return s.coin(); }

  void op_fresh() { Reg& r = reg(); Reg f = fresh(); put(r, std::move(f)); }
  void op_copy() { Reg &a = reg(), &b = reg(); if (&a == &b) return; setop("copy"); Reg c; c.a = ap_abstract0_copy(m, a.a); exn(); c.w = a.w; if (a.u.valid()) c.u = a.u.copy(); put(b, std::move(c)); TR("  copy"); check(b, "copy"); }

  void op_meet_lincons() {
    Reg& r = reg(); vector<Cons> v = genconss(r); bool de = destr(), mk = s.chance(1, 8); TR("  meet_lincons " << SV(v) << (de ? " destructive" : ""));
    ap_lincons0_array_t a = mk_cons_array(v); 
    if (mk) { setop("of_lincons_array"); Reg t; t.a = ap_abstract0_of_lincons_array(m, id, rd, &a); exn(); t.w = r.w; if (s.coin()) addw(t, gen_pt()); if (useU) t.u = Poly::univ(n()); put(r, std::move(t)); }
    else { setop("meet_lincons"); ap_abstract0_t* x = ap_abstract0_meet_lincons_array(m, de, r.a, &a); put(r, x, de); }
    ap_lincons0_array_clear(&a);
    vector<Pt> w; for (auto& p : r.w) { bool ok = true; for (auto& c : v) ok &= may_sat(c, p); if (ok) w.push_back(p); } r.w = w; for (auto& c : v) u_meet(r, c); TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  // the exact linear form of an expression, if it is affine
  bool affine(const T& t, LinE& e) {
    if (t->k == 0) { if (!t->cst.sing()) return false; e.c.assign(n(), 0); e.k = t->cst.lo.v; return true; }
    if (t->k == 1) { e.c.assign(n(), 0); e.k = 0; e.c[t->dim] = 1; return true; }
    if (t->ty != AP_RTYPE_REAL && t->op != AP_TEXPR_NEG) return false; LinE a, b; if (!affine(t->a, a) || (t->b && !affine(t->b, b))) return false; auto cst = [](const LinE& x) { for (auto& q : x.c) if (q != 0) return false; return true; };
    switch (t->op) { case AP_TEXPR_NEG: e = a; for (auto& q : e.c) q = -q; e.k = -e.k; return true; case AP_TEXPR_ADD: case AP_TEXPR_SUB: e = a; for (size_t i = 0; i < n(); i++) if (t->op == AP_TEXPR_ADD) e.c[i] += b.c[i]; else e.c[i] -= b.c[i]; if (t->op == AP_TEXPR_ADD) e.k += b.k; else e.k -= b.k; return true;
    case AP_TEXPR_MUL: { if (!cst(a)) { if (!cst(b)) return false; std::swap(a, b); } e = b; for (auto& q : e.c) q *= a.k; e.k *= a.k; return true; }
    case AP_TEXPR_DIV: if (!cst(b) || b.k == 0) return false; e = a; for (auto& q : e.c) q /= b.k; e.k /= b.k; return true; default: return false; } }
  T of_linE(const LinE& e) { T t; for (size_t i = 0; i < e.c.size(); i++) if (e.c[i] != 0) { T x = t_dim(i); if (e.c[i] == -1 && !t) { T y(new TE); y->k = 2; y->op = AP_TEXPR_NEG; y->a = x; x = y; } else if (e.c[i] == -1) { t = t_bin(AP_TEXPR_SUB, t, x); continue; } else if (e.c[i] != 1) x = t_bin(AP_TEXPR_MUL, t_cst(I(e.c[i]), s.draw(3)), x); t = t ? t_bin(AP_TEXPR_ADD, t, x) : x; } if (!t) return t_cst(I(e.k), s.draw(3)); if (e.k != 0) t = t_bin(AP_TEXPR_ADD, t, t_cst(I(e.k), s.draw(3))); return t; }
  T gente() { if (!exact) return gen_te(s, n(), tc, tc.depth); return of_linE(to_linE(genlin())); }
  TCons gentcons(const Reg& r) { TCons c; c.t = gentype(false); c.e = gente(); Q q; if (!r.w.empty() && teval(c.e, r.w[0], &s, q)) { I v(q); if (!may_sat(v, c.t, c.mod)) { Q k = q - (c.t == AP_CONS_SUP || c.t == AP_CONS_DISEQ ? Q(s.range(1, 3)) : Q(0)); c.e = t_bin(AP_TEXPR_SUB, c.e, t_cst(I(k))); } else if (s.coin()) c.e = t_bin(AP_TEXPR_SUB, c.e, t_cst(I(q))); } return c; }
  void op_meet_tcons() {
    if (off.count("texpr")) return; Reg& r = reg(); vector<TCons> v; int k = s.weighted({6, 2, 1}) + 1; for (int i = 0; i < k; i++) v.push_back(gentcons(r)); bool de = destr(), mk = s.chance(1, 8); TR("  meet_tcons " << SV(v));
    ap_tcons0_array_t a = mk_tcons_array(v);
    if (mk) { setop("of_tcons_array"); Reg t; t.a = ap_abstract0_of_tcons_array(m, id, rd, &a); exn(); t.w = r.w; if (s.coin()) addw(t, gen_pt()); put(r, std::move(t)); }
    else { setop("meet_tcons"); ap_abstract0_t* x = ap_abstract0_meet_tcons_array(m, de, r.a, &a); put(r, x, de); }
    ap_tcons0_array_clear(&a);
    vector<Pt> w; for (auto& p : r.w) { bool ok = true; for (auto& c : v) { Q q; if (!teval(c.e, p, &s, q) || !may_sat(I(q), c.t, c.mod)) ok = false; } if (ok) w.push_back(p); } r.w = w; if (exact) { r.u = mk ? Poly::univ(n()) : r.u.copy(); for (auto& c : v) { LinE e; affine(c.e, e); r.u.add(e, c.t == AP_CONS_EQ ? 0 : c.t == AP_CONS_SUPEQ ? 1 : 2); } } else u_of_points(r); TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  // constraints on the destination: hold at every result point we know
  ap_abstract0_t* gen_dest(const vector<Pt>& w, Poly& du, bool& used, string& txt) {
    used = false; if (nodest || !s.chance(1, 4)) return nullptr; used = true; Reg t; t.w = w; vector<Cons> v; int k = s.range(0, 2); for (int i = 0; i < k; i++) { Cons c = gencons(t); bool all = true; for (auto& p : w) all &= may_sat(c, p); if (all && c.e.scalar() && c.t != AP_CONS_EQMOD && c.t != AP_CONS_DISEQ) v.push_back(c); }
    string o = op; setop("of_lincons_array"); ap_lincons0_array_t a = mk_cons_array(v); ap_abstract0_t* x = ap_abstract0_of_lincons_array(m, id, rd, &a); exn(); ap_lincons0_array_clear(&a); op = o; crumb((d.name + ":" + o).c_str());
    if (useU) { du = Poly::univ(n()); Reg q; q.u = du; for (auto& c : v) u_meet(q, c); du = conc(x, q.u); } txt = " dest " + SV(v); return x; }

  void op_assign_lin() {
    if (!n()) return; Reg& r = reg(); int k = s.weighted({5, 2, 1}) + 1; vector<size_t> ds; for (int i = 0; i < k; i++) { size_t x = s.draw(n()); if (std::find(ds.begin(), ds.end(), x) == ds.end()) ds.push_back(x); }
    vector<Lin> es, in; for (auto x : ds) { Lin l = genlin(); if (x < id) { for (size_t i = 0; i < n(); i++) { if (i >= id) l.c[i] = I(Q(0)); else if (l.c[i].lo.fin() && l.c[i].hi.fin()) l.c[i] = l.c[i].sing() ? I(Q(qfloor(l.c[i].lo.v))) : I(X(Q(qfloor(l.c[i].lo.v))), X(Q(qceil(l.c[i].hi.v)))); } if (l.k.sing()) l.k = I(Q(qfloor(l.k.lo.v))); } es.push_back(l); in.push_back(instantiate(s, l)); }
    bool subst = false; vector<Pt> w; for (auto& p : r.w) { Pt q = p; for (size_t i = 0; i < ds.size(); i++) q[ds[i]] = eval(in[i], p).lo.v; if (okpoint(q)) w.push_back(q); }
    Poly u, du; bool hasd; string txt; setop("assign_linexpr"); ap_abstract0_t* dest = gen_dest(w, du, hasd, txt);
    if (r.u.valid()) { u = r.u.copy(); vector<LinE> le; for (auto& l : in) le.push_back(to_linE(l)); u.image(ds, le); if (hasd) u.meet(du); if (exact) accept |= !best_assign(le, false, hasd); }
    bool de = destr(); if (TRON) { string t; for (size_t i = 0; i < ds.size(); i++) t += " x" + std::to_string(ds[i]) + " := " + S(es[i]) + ";"; TR("  assign_linexpr" << t << txt << (de ? " destructive" : "")); }
    vector<ap_linexpr0_t*> te; vector<ap_dim_t> td; for (size_t i = 0; i < ds.size(); i++) { te.push_back(mk_lin(es[i])); td.push_back(ds[i]); }
    ap_abstract0_t* x; if (ds.size() == 1 && s.coin()) x = ap_abstract0_assign_linexpr(m, de, r.a, td[0], te[0], dest); else x = ap_abstract0_assign_linexpr_array(m, de, r.a, td.data(), te.data(), ds.size(), dest);
    put(r, x, de); for (auto e : te) ap_linexpr0_free(e); if (dest) ap_abstract0_free(m, dest); r.w = w; r.u = u; TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  void op_assign_te() {
    if (!n() || off.count("texpr")) return; Reg& r = reg(); int k = s.weighted({5, 2}) + 1; vector<size_t> ds; for (int i = 0; i < k; i++) { size_t x = s.draw(n()); if (std::find(ds.begin(), ds.end(), x) == ds.end()) ds.push_back(x); }
    vector<T> es; for (auto x : ds) { T t = gente(); if (x < id) { T c(new TE); c->k = 2; c->op = AP_TEXPR_CAST; c->ty = AP_RTYPE_INT; c->dir = s.coin() ? AP_RDIR_ZERO : AP_RDIR_DOWN; c->a = t; t = c; } es.push_back(t); }
    vector<Pt> w; for (auto& p : r.w) { Pt q = p; bool ok = true; for (size_t i = 0; i < ds.size() && ok; i++) ok = teval(es[i], p, &s, q[ds[i]]); if (ok && okpoint(q)) w.push_back(q); }
    Poly du; bool hasd; string txt; setop("assign_texpr"); ap_abstract0_t* dest = gen_dest(w, du, hasd, txt);
    bool de = destr(); if (TRON) { string t; for (size_t i = 0; i < ds.size(); i++) t += " x" + std::to_string(ds[i]) + " := " + S(es[i]) + ";"; TR("  assign_texpr" << t << txt << (de ? " destructive" : "")); }
    vector<ap_texpr0_t*> te; vector<ap_dim_t> td; for (size_t i = 0; i < ds.size(); i++) { te.push_back(mk_te(es[i])); td.push_back(ds[i]); }
    ap_abstract0_t* x; if (ds.size() == 1 && s.coin()) x = ap_abstract0_assign_texpr(m, de, r.a, td[0], te[0], dest); else x = ap_abstract0_assign_texpr_array(m, de, r.a, td.data(), te.data(), ds.size(), dest);
    put(r, x, de); for (auto e : te) ap_texpr0_free(e); if (dest) ap_abstract0_free(m, dest); r.w = w; if (exact) { r.u = r.u.copy(); vector<LinE> le(es.size()); for (size_t i = 0; i < es.size(); i++) affine(es[i], le[i]); r.u.image(ds, le); if (hasd) r.u.meet(du); accept |= !best_assign(le, false, hasd); } else u_of_points(r); TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  void op_substitute_lin() {
    if (!n()) return; Reg& r = reg(); int k = s.weighted({5, 2}) + 1; vector<size_t> ds; for (int i = 0; i < k; i++) { size_t x = s.draw(n()); if (std::find(ds.begin(), ds.end(), x) == ds.end()) ds.push_back(x); }
    vector<Lin> es, in; for (auto x : ds) { Lin l = genlin(); es.push_back(l); in.push_back(instantiate(s, l)); }
    // choose the pre-state of the first witness, then the constants so that it maps onto it
    vector<Pt> w; if (!r.w.empty()) { const Pt& post = r.w[0]; Pt pre = post; for (auto x : ds) pre[x] = gen_val(x); for (size_t i = 0; i < ds.size(); i++) { Q dl = post[ds[i]] - eval(in[i], pre).lo.v; es[i].k = iadd(es[i].k, I(dl)); in[i].k = iadd(in[i].k, I(dl)); } if (okpoint(pre)) w.push_back(pre); }
    Poly u, du; bool hasd; string txt; setop("substitute_linexpr"); ap_abstract0_t* dest = gen_dest(w, du, hasd, txt);
    if (r.u.valid()) { u = r.u.copy(); vector<LinE> le; for (auto& l : in) le.push_back(to_linE(l)); u.preimage(ds, le); if (hasd) u.meet(du); if (exact) accept |= !best_assign(le, true, hasd); }
    bool de = destr(); if (TRON) { string t; for (size_t i = 0; i < ds.size(); i++) t += " x" + std::to_string(ds[i]) + " -> " + S(es[i]) + ";"; TR("  substitute_linexpr" << t << txt << (de ? " destructive" : "")); }
    vector<ap_linexpr0_t*> te; vector<ap_dim_t> td; for (size_t i = 0; i < ds.size(); i++) { te.push_back(mk_lin(es[i])); td.push_back(ds[i]); }
    ap_abstract0_t* x; if (ds.size() == 1 && s.coin()) x = ap_abstract0_substitute_linexpr(m, de, r.a, td[0], te[0], dest); else x = ap_abstract0_substitute_linexpr_array(m, de, r.a, td.data(), te.data(), ds.size(), dest);
    put(r, x, de); for (auto e : te) ap_linexpr0_free(e); if (dest) ap_abstract0_free(m, dest); r.w = w; r.u = u; TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  void op_substitute_te() {
    if (!n() || off.count("texpr")) return; Reg& r = reg(); vector<size_t> ds{s.draw(n())}; if (s.chance(1, 4)) { size_t x = s.draw(n()); if (x != ds[0]) ds.push_back(x); }
    vector<T> es; for (size_t i = 0; i < ds.size(); i++) es.push_back(gente());
    vector<Pt> w; if (!r.w.empty()) { const Pt& post = r.w[0]; Pt pre = post; for (auto x : ds) pre[x] = gen_val(x); bool ok = true; for (size_t i = 0; i < ds.size() && ok; i++) { Q v; ok = teval(es[i], pre, &s, v); if (ok && v != post[ds[i]]) es[i] = t_bin(AP_TEXPR_ADD, es[i], t_cst(I(Q(post[ds[i]] - v)))); } if (ok && okpoint(pre)) w.push_back(pre); }
    Poly du; bool hasd; string txt; setop("substitute_texpr"); ap_abstract0_t* dest = gen_dest(w, du, hasd, txt);
    bool de = destr(); if (TRON) { string t; for (size_t i = 0; i < ds.size(); i++) t += " x" + std::to_string(ds[i]) + " -> " + S(es[i]) + ";"; TR("  substitute_texpr" << t << txt << (de ? " destructive" : "")); }
    vector<ap_texpr0_t*> te; vector<ap_dim_t> td; for (size_t i = 0; i < ds.size(); i++) { te.push_back(mk_te(es[i])); td.push_back(ds[i]); }
    ap_abstract0_t* x; if (ds.size() == 1 && s.coin()) x = ap_abstract0_substitute_texpr(m, de, r.a, td[0], te[0], dest); else x = ap_abstract0_substitute_texpr_array(m, de, r.a, td.data(), te.data(), ds.size(), dest);
    put(r, x, de); for (auto e : te) ap_texpr0_free(e); if (dest) ap_abstract0_free(m, dest); r.w = w; if (exact) { r.u = r.u.copy(); vector<LinE> le(es.size()); for (size_t i = 0; i < es.size(); i++) affine(es[i], le[i]); r.u.preimage(ds, le); if (hasd) r.u.meet(du); accept |= !best_assign(le, true, hasd); } else u_of_points(r); TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  void op_forget() {
    if (!n()) return; Reg& r = reg(); int k = s.weighted({4, 2, 1}) + 1; vector<ap_dim_t> td; for (int i = 0; i < k; i++) { ap_dim_t x = s.draw(n()); if (std::find(td.begin(), td.end(), x) == td.end()) td.push_back(x); } bool proj = s.coin(), de = destr(); setop(proj ? "forget-project" : "forget"); TR("  forget dims " << td[0] << (td.size() > 1 ? ",..." : "") << (proj ? " project" : ""));
    ap_abstract0_t* x = ap_abstract0_forget_array(m, de, r.a, td.data(), td.size(), proj); put(r, x, de); vector<Pt> w; for (auto& p : r.w) { Pt q = p; for (auto x : td) q[x] = proj ? Q(0) : gen_val(x); w.push_back(q); if (!proj && w.size() < 6 && s.coin()) w.push_back(p); } r.w = w;
    if (r.u.valid()) { if (!proj) for (auto x : td) r.u.forget(x); else { vector<size_t> ds(td.begin(), td.end()); LinE z; z.c.assign(n(), 0); z.k = 0; r.u = r.u.copy(); r.u.image(ds, vector<LinE>(ds.size(), z)); } } TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  void op_lattice() {
    Reg &a = reg(), &b = reg(), &c = reg(); int k = s.draw(5); if (nodest && k == 4) k = 0; bool de = destr(); Reg res;
    if (k == 0 || k == 2) { // join
      res.w = a.w; for (auto& p : b.w) if (res.w.size() < 8) res.w.push_back(p); if (useU) { res.u = a.u.copy(); res.u.hull(b.u); } }
    if (k == 0) { setop("join"); TR("  join r" << &a - &R[0] << " r" << &b - &R[0]); if (de && &a != &b) { ap_abstract0_t* x = ap_abstract0_join(m, true, a.a, b.a); exn(); a.a = x; a.fe = fex; a.fb = fbe; a.w = res.w; a.u = res.u; check(a, "join"); return; } res.a = ap_abstract0_join(m, false, a.a, b.a); exn(); }
    else if (k == 1) { setop("meet"); TR("  meet r" << &a - &R[0] << " r" << &b - &R[0]); for (auto& p : a.w) for (auto& q : b.w) if (p == q) res.w.push_back(p); if (useU) { for (auto& p : a.w) if (b.u.contains_point(p)) addw(res, p); for (auto& p : b.w) if (a.u.contains_point(p)) addw(res, p); res.u = a.u.copy(); res.u.meet(b.u); } if (de && &a != &b) { ap_abstract0_t* x = ap_abstract0_meet(m, true, a.a, b.a); exn(); a.a = x; a.fe = fex; a.fb = fbe; a.w = res.w; a.u = res.u; check(a, "meet"); return; } res.a = ap_abstract0_meet(m, false, a.a, b.a); exn(); }
    else if (k == 2) { ap_abstract0_t* t[3] = {a.a, b.a, c.a}; int sz = s.range(1, 3); setop("join_array"); TR("  join_array " << sz); Reg r2; r2.w = a.w; if (useU) r2.u = a.u.copy(); for (int i = 1; i < sz; i++) { Reg& o = i == 1 ? b : c; for (auto& p : o.w) if (r2.w.size() < 8) r2.w.push_back(p); if (useU) r2.u.hull(o.u); } r2.a = ap_abstract0_join_array(m, t, sz); exn(); res = r2; }
    else if (k == 3) { ap_abstract0_t* t[3] = {a.a, b.a, c.a}; int sz = s.range(1, 3); setop("meet_array"); TR("  meet_array " << sz); vector<Reg*> rs{&a, &b, &c}; rs.resize(sz); for (auto r0 : rs) for (auto& p : r0->w) { bool all = true; for (auto r : rs) { bool h = std::find(r->w.begin(), r->w.end(), p) != r->w.end() || (useU && r->u.contains_point(p)); all &= h; } if (all) addw(res, p); } if (useU) { res.u = a.u.copy(); for (auto r : rs) res.u.meet(r->u); } res.a = ap_abstract0_meet_array(m, t, sz); exn(); }
    else { // widening of a and a join b
      setop("join"); ap_abstract0_t* j = ap_abstract0_join(m, false, a.a, b.a); exn(); res.w = a.w; for (auto& p : b.w) if (res.w.size() < 8) res.w.push_back(p); if (useU) { res.u = a.u.copy(); res.u.hull(b.u); }
      if (!nodest && s.chance(1, 4)) { vector<Cons> v; int kk = s.range(0, 3); for (int i = 0; i < kk; i++) { Cons cc = gencons(a); if (cc.t == AP_CONS_SUPEQ || cc.t == AP_CONS_SUP) if (cc.e.scalar()) v.push_back(cc); } ap_lincons0_array_t arr = mk_cons_array(v); accept = true; setop("widening_threshold"); TR("  widening_threshold r" << &a - &R[0] << " (join r" << &b - &R[0] << ") " << SV(v)); res.a = ap_abstract0_widening_threshold(m, a.a, j, &arr); exn(); ap_lincons0_array_clear(&arr); }
      else { accept = true; setop("widening"); TR("  widening r" << &a - &R[0] << " (join r" << &b - &R[0] << ")"); res.a = ap_abstract0_widening(m, a.a, j); exn(); } ap_abstract0_free(m, j); }
    put(c, std::move(res)); TR("    witnesses " << SV(c.w)); check(c, op.c_str()); }

  void op_order() {
    Reg &a = reg(), &b = reg(); if (&a == &b) return; setop("is_leq"); bool l = ap_abstract0_is_leq(m, a.a, b.a); exn(); TR("  is_leq r" << &a - &R[0] << " r" << &b - &R[0] << " = " << l); if (exact) { bool w = b.u.contains(a.u); if (l != w) bad(l ? "wrong-true" : "wrong-false", "is_leq answers " + std::to_string(l) + " on {" + a.u.str() + "} and {" + b.u.str() + "}"); setop("is_eq"); bool q = ap_abstract0_is_eq(m, a.a, b.a); exn(); w = a.u.equals(b.u); if (q != w) bad(q ? "wrong-true" : "wrong-false", "is_eq answers " + std::to_string(q) + " on {" + a.u.str() + "} and {" + b.u.str() + "}"); label(string("is_leq:") + (l ? "true" : "false")); return; }
    auto flow = [&](Reg& x, Reg& y) { for (auto& p : x.w) addw(y, p); if (x.u.valid()) y.u.hull(x.u); };
    if (l) { label("is_leq:true"); flow(a, b); op = "is_leq"; check_obs(b); }
    setop("is_eq"); bool e = ap_abstract0_is_eq(m, a.a, b.a); exn(); if (e) { label("is_eq:true"); flow(a, b); flow(b, a); op = "is_eq"; check_obs(b); check_obs(a); } }

  void op_intern() { Reg& r = reg(); int k = s.draw(5); switch (k) { case 0: setop("minimize"); ap_abstract0_minimize(m, r.a); break; case 1: setop("canonicalize"); ap_abstract0_canonicalize(m, r.a); break; case 2: { setop("approximate"); int al = s.weighted({1,1,1,1,1,1,1,1}); static const int als[] = {0, -1, 1, 2, 3, 10, 11, 12}; TR("  algorithm " << als[al]); ap_abstract0_approximate(m, r.a, als[al]); accept = true; break; } case 3: { bool de = destr(); setop("closure"); ap_abstract0_t* x = ap_abstract0_closure(m, de, r.a); put(r, x, de); if (r.u.valid()) { r.u = r.u.copy(); r.u.close(); } break; } default: setop("hash"); (void)ap_abstract0_hash(m, r.a); (void)ap_abstract0_size(m, r.a); } exn(); TR("  " << op); check(r, op.c_str()); }

  void op_add_ray() { if (!n()) return; Reg& r = reg(); int k = s.range(1, 2); vector<std::pair<bool, Pt>> g; for (int i = 0; i < k; i++) { Pt v; NumCfg c; c.level = 0; for (size_t j = 0; j < n(); j++) v.push_back(gen_q(s, c)); bool z = true; for (auto& q : v) z &= q == 0; if (z) v[s.draw(n())] = 1; g.push_back({s.coin(), v}); }
    ap_generator0_array_t a = ap_generator0_array_make(k); for (int i = 0; i < k; i++) { Lin l(n()); for (size_t j = 0; j < n(); j++) l.c[j] = I(g[i].second[j]); l.sparse = s.coin(); l.kd = s.draw(3); a.p[i] = ap_generator0_make(g[i].first ? AP_GEN_LINE : AP_GEN_RAY, mk_lin(l)); }
    bool de = destr(); setop("add_ray"); if (TRON) for (auto& x : g) TR("  add " << (x.first ? "line " : "ray ") << S(x.second)); ap_abstract0_t* x = ap_abstract0_add_ray_array(m, de, r.a, &a); put(r, x, de); ap_generator0_array_clear(&a);
    for (auto& p : r.w) for (auto& x : g) { Q c = s.range(0, 3); if (x.first && s.coin()) c = -c; for (size_t j = 0; j < n(); j++) p[j] += c * x.second[j]; } if (r.u.valid()) { r.u = r.u.copy(); for (auto& x : g) r.u.ray(x.second, x.first); } TR("    witnesses " << SV(r.w)); check(r, op.c_str()); }

  // ---- dimension changes apply to all registers
  void op_add_dims() {
    if (n() >= (size_t)d.maxdim) return; size_t ai = s.draw(2), ar = s.draw(3 - ai); if (d.convex && useU) ai = 0; if (n() + ai + ar > (size_t)d.maxdim) return; if (ai + ar == 0) ar = 1; bool proj = s.coin();
    ap_dimchange_t* c = ap_dimchange_alloc(ai, ar); vector<ap_dim_t> pos; for (size_t i = 0; i < ai; i++) pos.push_back(s.range(0, id)); for (size_t i = 0; i < ar; i++) pos.push_back(id + s.range(0, rd)); std::sort(pos.begin(), pos.begin() + ai); std::sort(pos.begin() + ai, pos.end()); for (size_t i = 0; i < ai + ar; i++) c->dim[i] = pos[i];
    size_t n0 = n(); setop(proj ? "add_dimensions-project" : "add_dimensions"); if (TRON) { string t; for (auto p : pos) t += " " + std::to_string(p); TR("  add_dimensions (" << ai << "," << ar << ") at" << t << (proj ? " project" : "")); }
    vector<int> from; for (size_t j = 0, k = 0; j <= n0; j++) { while (k < pos.size() && pos[k] == j) { from.push_back(-1); k++; } if (j < n0) from.push_back(j); }
    // an integer position equal to intdim and a real one equal to intdim are distinct insertion points: ints first
    for (auto& r : R) { bool de = destr(); ap_abstract0_t* x = ap_abstract0_add_dimensions(m, de, r.a, c, proj); put(r, x, de); }
    id += ai; rd += ar; for (auto& r : R) { for (auto& p : r.w) { Pt q; for (size_t i = 0; i < from.size(); i++) q.push_back(from[i] >= 0 ? p[from[i]] : proj ? Q(0) : gen_val(i)); p = q; } if (r.u.valid()) { r.u = r.u.remap(from); if (proj) for (size_t i = 0; i < from.size(); i++) if (from[i] < 0) { LinE e; e.c.assign(from.size(), 0); e.c[i] = 1; e.k = 0; r.u.add(e, 0); } } }
    ap_dimchange_free(c); for (auto& r : R) check(r, op.c_str()); }
  void op_remove_dims() {
    if (n() < 2) return; vector<char> rm(n(), 0); int k = s.range(1, n() > 3 ? 2 : 1); for (int i = 0; i < k; i++) rm[s.draw(n())] = 1; size_t ri = 0, rr = 0; vector<int> from; vector<ap_dim_t> ds; for (size_t i = 0; i < n(); i++) if (rm[i]) { ds.push_back(i); (i < id ? ri : rr)++; } else from.push_back(i);
    ap_dimchange_t* c = ap_dimchange_alloc(ri, rr); for (size_t i = 0; i < ds.size(); i++) c->dim[i] = ds[i]; setop("remove_dimensions"); if (TRON) { string t; for (auto p : ds) t += " " + std::to_string(p); TR("  remove_dimensions" << t); }
    for (auto& r : R) { bool de = destr(); ap_abstract0_t* x = ap_abstract0_remove_dimensions(m, de, r.a, c); put(r, x, de); for (auto& p : r.w) { Pt q; for (int f : from) q.push_back(p[f]); p = q; } if (r.u.valid()) r.u = r.u.remap(from); } id -= ri; rd -= rr; ap_dimchange_free(c); for (auto& r : R) check(r, op.c_str()); }
  void op_permute() {
    if (!n()) return; ap_dimperm_t* pm = ap_dimperm_alloc(n()); ap_dimperm_set_id(pm); for (size_t i = 0; i + 1 < id; i++) std::swap(pm->dim[i], pm->dim[i + s.draw(id - i)]); for (size_t i = id; i + 1 < n(); i++) std::swap(pm->dim[i], pm->dim[i + s.draw(n() - i)]);
    vector<int> from(n()); for (size_t i = 0; i < n(); i++) from[pm->dim[i]] = i; setop("permute_dimensions"); if (TRON) { string t; for (size_t i = 0; i < n(); i++) t += " " + std::to_string(i) + "->" + std::to_string(pm->dim[i]); TR("  permute" << t); }
    for (auto& r : R) { bool de = destr(); ap_abstract0_t* x = ap_abstract0_permute_dimensions(m, de, r.a, pm); put(r, x, de); for (auto& p : r.w) { Pt q(n()); for (size_t i = 0; i < n(); i++) q[i] = p[from[i]]; p = q; } if (r.u.valid()) r.u = r.u.remap(from); } ap_dimperm_free(pm); for (auto& r : R) check(r, op.c_str()); }
  void op_expand() {
    if (!n() || n() >= (size_t)d.maxdim) return; size_t x = s.draw(n()), k = s.range(1, std::min<int>(2, d.maxdim - n())); size_t at = x < id ? id : n(); setop("expand"); TR("  expand x" << x << " into " << k << " more"); size_t n0 = n();
    for (auto& r : R) { bool de = destr(); ap_abstract0_t* y = ap_abstract0_expand(m, de, r.a, x, k); put(r, y, de); }
    vector<int> from; for (size_t i = 0; i < n0 + k; i++) from.push_back(i < at ? (int)i : i < at + k ? -1 : (int)(i - k));
    for (auto& r : R) { vector<Pt> w0 = r.w; for (auto& p : r.w) { vector<Q> alt{p[x]}; for (auto& q : w0) { bool same = true; for (size_t i = 0; i < n0; i++) if (i != x && q[i] != p[i]) same = false; if (same) alt.push_back(q[x]); } Pt q; for (size_t i = 0; i < from.size(); i++) q.push_back(from[i] >= 0 ? p[from[i]] : alt[s.draw(alt.size())]); p = q; }
      if (r.u.valid()) { r.u = r.u.copy(); r.u.expand(x, k); vector<int> f2; for (size_t i = 0; i < n0 + k; i++) f2.push_back(i < at ? (int)i : i < at + k ? (int)(n0 + i - at) : (int)(i - k)); r.u = r.u.remap(f2); } }
    (x < id ? id : rd) += k; for (auto& r : R) check(r, op.c_str()); }
  void op_fold() {
    bool ints = s.coin() && id >= 2; size_t lo = ints ? 0 : id, hi = ints ? id : n(); if (hi - lo < 2) return; vector<ap_dim_t> td; int k = s.range(2, std::min<int>(3, hi - lo)); for (int i = 0; i < k; i++) { ap_dim_t x = lo + s.draw(hi - lo); if (std::find(td.begin(), td.end(), x) == td.end()) td.push_back(x); } if (td.size() < 2) return; std::sort(td.begin(), td.end());
    setop("fold"); if (TRON) { string t; for (auto p : td) t += " " + std::to_string(p); TR("  fold" << t); }
    vector<int> from; for (size_t i = 0; i < n(); i++) if (i == td[0] || std::find(td.begin(), td.end(), i) == td.end()) from.push_back(i);
    for (auto& r : R) { bool de = destr(); ap_abstract0_t* y = ap_abstract0_fold(m, de, r.a, td.data(), td.size()); put(r, y, de); vector<Pt> w; for (auto& p : r.w) { int times = 1 + s.draw(2); for (int t = 0; t < times && w.size() < 8; t++) { Pt q; Q v = p[td[s.draw(td.size())]]; for (int f : from) q.push_back(f == (int)td[0] ? v : p[f]); w.push_back(q); } } r.w = w;
      if (r.u.valid()) { Poly a = r.u.copy(); vector<size_t> ds(td.begin(), td.end()); a.fold(ds); r.u = a; } }
    (ints ? id : rd) -= td.size() - 1; for (auto& r : R) check(r, op.c_str()); }
  void op_serialize() { Reg& r = reg(); setop("serialize_raw"); ap_membuf_t b = ap_abstract0_serialize_raw(m, r.a); if (m->result.exn != AP_EXC_NONE || !b.ptr) { m->result.exn = AP_EXC_NONE; off.insert("serialize"); return; } size_t sz = 0; setop("deserialize_raw"); ap_abstract0_t* x = ap_abstract0_deserialize_raw(m, b.ptr, &sz); exn(); if (sz != b.size) bad("size", "deserialization consumed " + std::to_string(sz) + " bytes of " + std::to_string(b.size)); free(b.ptr); TR("  serialize/deserialize"); put(r, x, false); check(r, op.c_str()); }
  void op_dimchange2() { // remove some, add some: apply_dimchange2 = add after remove
    if (n() < 1) return; op_permute(); }

  vector<Op> table() { return {{"meet_lincons", 14, &Ops::op_meet_lincons}, {"assign_lin", 8, &Ops::op_assign_lin}, {"lattice", 10, &Ops::op_lattice}, {"fresh", 3, &Ops::op_fresh}, {"forget", 5, &Ops::op_forget}, {"meet_tcons", 5, &Ops::op_meet_tcons}, {"assign_te", 5, &Ops::op_assign_te}, {"substitute_lin", 6, &Ops::op_substitute_lin}, {"substitute_te", 3, &Ops::op_substitute_te}, {"copy", 2, &Ops::op_copy}, {"order", 4, &Ops::op_order}, {"intern", 5, &Ops::op_intern}, {"add_ray", 2, &Ops::op_add_ray}, {"add_dims", 3, &Ops::op_add_dims}, {"remove_dims", 3, &Ops::op_remove_dims}, {"permute", 2, &Ops::op_permute}, {"expand", 3, &Ops::op_expand}, {"fold", 3, &Ops::op_fold}, {"serialize", 1, &Ops::op_serialize}}; }
  std::set<string> noops;
  // options of the manager: algorithms per function and requests for flags
  void gen_options() {
    int mode = s.weighted({5, 2, 2}); bool fl = s.coin(); if (mode == 0 && !fl) return; vector<int> al{0};
    if (d.name.compare(0, 3, "box") == 0) al = {0, 1, 2, 3, 6, 100, 101, 103}; else if (d.name.compare(0, 3, "oct") == 0) { al = {0, 1}; if (!exact) al.push_back(-1); } else if (d.name.compare(0, 2, "pk") == 0) { al = {0, 1}; if (!exact) al.push_back(-1); }
    string t; int one = al[s.draw(al.size())]; bool fe1 = s.coin(), fb1 = s.coin();
    for (int f = 1; f < AP_FUNID_SIZE; f++) { ap_funopt_t o = ap_manager_get_funopt(m, (ap_funid_t)f); o.algorithm = mode == 0 ? 0 : mode == 1 ? one : al[s.draw(al.size())]; o.flag_exact_wanted = fl && fe1; o.flag_best_wanted = fl && fb1; ap_manager_set_funopt(m, (ap_funid_t)f, &o); if (mode == 2) t += " " + std::to_string(o.algorithm); }
    label("options:" + std::to_string(mode)); TR("options: " << (mode == 1 ? "algorithm " + std::to_string(one) : mode == 2 ? "algorithms" + t : string("default algorithms")) << (fl && fe1 ? " exact wanted" : "") << (fl && fb1 ? " best wanted" : "")); }
  void run(int maxsteps) { gen_options();
    vector<Op> t = table(), u; int tot = 0; for (auto& o : t) if (!noops.count(o.name)) { u.push_back(o); tot += o.weight; }
    int nr = s.range(2, 3); for (int i = 0; i < nr; i++) { R.emplace_back(); R.back() = fresh(); }
    while (steps < maxsteps && !s.chance(1, maxsteps)) { int v = s.draw(tot); size_t k = 0; while (v >= u[k].weight) v -= u[k++].weight; steps++; (this->*u[k].fn)(); if (s.exhausted()) break; }
    for (auto& r : R) { setop("final"); check_obs(r); }
    if (nontriv && steps >= 2) s.nontrivial = true; }
};
