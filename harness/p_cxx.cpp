// The C++ interface agrees with the C interface: every overload computes what the C function computes on the same
// arguments, whatever destination it writes to; arguments are left alone; an error of the C function becomes the
// corresponding C++ exception and leaves every value usable.
#include "apronxx.hh"
#include "state.hpp"
namespace ax = apron;

struct XM : ax::manager { explicit XM(ap_manager_t* m) : ax::manager(ap_manager_copy(m)) {} };
struct XA : ax::abstract0 { explicit XA(ap_abstract0_t* p) : ax::abstract0(p) {} };
typedef ap_abstract0_t* V;

struct CX : World {
  XM xm; vector<V> R; string what; int ok = 0, ncall = 0;
  CX(Src& s, const Dom& d) : World(s, d), xm(m) {}
  ~CX() { if (std::uncaught_exceptions()) return; for (auto v : R) ap_abstract0_free(m, v); }
  void clr() { m->result.exn = AP_EXC_NONE; ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = true; }
  struct Out { ap_exc_t e = AP_EXC_NONE; bool fe = true, fb = true; };
  Out oc, ox;
  void capture(Out& o) { o.e = m->result.exclog ? m->result.exclog->exn : AP_EXC_NONE; o.fe = m->result.flag_exact; o.fb = m->result.flag_best; }
  // runs the C function
  template<class F> auto c(F f) { clr(); auto r = f(); capture(oc); clr(); return r; }
  // runs the C++ function; false if it raised
  template<class F> bool x(F f) { clr(); try { f(); capture(ox); if (ox.e != AP_EXC_NONE) bad("log", what + ": no C++ exception but the log of the manager is not empty"); clr(); return true; } catch (const ax::not_implemented&) { ox.e = AP_EXC_NOT_IMPLEMENTED; } catch (const std::invalid_argument&) { ox.e = AP_EXC_INVALID_ARGUMENT; } catch (const std::overflow_error&) { ox.e = AP_EXC_OVERFLOW; } catch (const std::length_error&) { ox.e = AP_EXC_OUT_OF_SPACE; } catch (const ax::timeout&) { ox.e = AP_EXC_TIMEOUT; }
    if (m->result.exclog) bad("log", what + ": the log of the manager is not cleared by the C++ exception"); clr(); return false; }
  void start(const char* o, const string& w) { setop(o); op = string("cxx-") + o; what = w; ncall++; label(string("call:") + o); TR("  " << o << " " << w); }
  bool agree() { if (oc.e != ox.e) bad("exception", what + ": C reports " + ap_name_of_exception[oc.e] + " and C++ " + ap_name_of_exception[ox.e]); if (oc.e != AP_EXC_NONE) { label(string("exn:") + ap_name_of_exception[oc.e]); return false; } ok++; if (oc.fe != ox.fe || oc.fb != ox.fb) bad("flags", what + ": the flags exact, best are " + std::to_string(ox.fe) + "," + std::to_string(ox.fb) + " instead of " + std::to_string(oc.fe) + "," + std::to_string(oc.fb)); return true; }
  string str(V v) { char* p = nullptr; size_t k = 0; FILE* f = open_memstream(&p, &k); ap_abstract0_fprint(f, m, v, NULL); fclose(f); string r(p, k); free(p); clr(); return r; }
  void eq(V a, V b, const char* k) { if (!b) bad("null", what + ": null value"); ap_dimension_t x = ap_abstract0_dimension(m, a), y = ap_abstract0_dimension(m, b); if (x.intdim != y.intdim || x.realdim != y.realdim) bad(k, what + ": dimensions differ");
    bool e = ap_abstract0_is_eq(m, a, b) || ap_abstract0_is_eq(m, b, a); clr(); if (!e) bad(k, what + ": " + str(b) + " instead of " + str(a)); }
  V cp(V v) { V r = ap_abstract0_copy(m, v); clr(); return r; }
  XA xa(V v) { return XA(cp(v)); }
  V get(const ax::abstract0& a) { return const_cast<ax::abstract0&>(a).get_ap_abstract0_t(); }
  V reg() { return R[s.draw(R.size())]; }
  bool bd() { return s.chance(1, 12); }   // an invalid argument
  // ---- operations computing a value: cf computes it in C; vs are the C++ ways: in place (on a copy of the first argument) or into a destination
  typedef std::function<void(ax::abstract0&)> InPl; typedef std::function<ax::abstract0&(ax::abstract0&, const ax::abstract0&)> Dst;
  void compute(V a0, const std::function<V(V)>& cf, vector<InPl> in, vector<Dst> dst) {
    V k = cp(a0), cr = c([&] { return cf(cp(a0)); }); int nv = in.size() + 3 * dst.size(), w = s.draw(nv);
    if (w < (int)in.size()) { XA z(cp(a0)); label("in place"); if (x([&] { in[w](z); }), agree()) eq(cr, get(z), "value"); else { if (!get(z)) bad("null", what + ": null value after the exception"); ap_dimension_t dd = ap_abstract0_dimension(m, get(z)); (void)dd; str(get(z)); } }
    else { w -= in.size(); auto& f = dst[w / 3]; int al = w % 3; static const char* an[] = {"into another value", "into its argument", "into a value of other dimensions"}; label(an[al]); TR("    " << an[al]); XA z(cp(a0)); XA o(al == 2 ? ap_abstract0_top(m, id + 1, rd + 2) : s.coin() ? ap_abstract0_bottom(m, id, rd) : cp(reg())); ax::abstract0& t = al == 1 ? (ax::abstract0&)z : o; V kt = cp(get(t)); ax::abstract0* r = nullptr;
      if (x([&] { r = &f(t, z); }), agree()) { eq(cr, get(t), "value"); if (r != &t) bad("result", what + ": the function does not return its destination"); } else eq(kt, get(t), "destination changed by an exception"); if (al != 1) eq(k, get(z), "argument changed"); ap_abstract0_free(m, kt); }
    // the history goes on with the result
    if (oc.e == AP_EXC_NONE) { ap_dimension_t dd = ap_abstract0_dimension(m, cr); clr(); if (dd.intdim == id && dd.realdim == rd) { size_t i = s.draw(R.size()); ap_abstract0_free(m, R[i]); R[i] = cr; cr = nullptr; } } if (cr) ap_abstract0_free(m, cr); ap_abstract0_free(m, k); clr(); }
  // ---- arguments
  Lin glin() { Lin l = gen_lin(s, n() + (bd() ? 2 : 0), lc); return l; }
  Cons gcons() { Cons k; k.e = glin(); k.t = gentype(true); if (k.t == AP_CONS_EQMOD) k.mod = Q(s.range(1, 5)); return k; }
  ap_lincons0_array_t glinconss() { vector<Cons> v; int k = s.range(0, 3); for (int i = 0; i < k; i++) v.push_back(gcons()); TR("    " << SV(v)); return mk_cons_array(v); }
  TCons gtc() { TCons k; k.e = gen_te(s, n() + (bd() ? 2 : 0), tc, 2); k.t = gentype(false); return k; }
  ap_tcons0_array_t gtconss() { vector<TCons> v; int k = s.range(0, 2); for (int i = 0; i < k; i++) v.push_back(gtc()); TR("    " << SV(v)); return mk_tcons_array(v); }
  template<class A, class B> A& as(B& b) { static_assert(sizeof(A) == sizeof(B), "layout"); return *reinterpret_cast<A*>(&b); }
  size_t gdim() { return n() && !bd() ? s.draw(n()) : n() + s.draw(2); }
  V gother() { if (bd()) { V v = ap_abstract0_top(m, id, rd + 1); clr(); return v; } return cp(reg()); }

  void op_binary() { V a = reg(), b = gother(); int k = s.draw(3); XA xb(b); b = cp(b); V kb = cp(b); // C and C++ have their own copies
    switch (k) {
    case 0: start("meet", ""); compute(a, [&](V v) { return ap_abstract0_meet(m, true, v, b); }, {[&](ax::abstract0& z) { z.meet(xm, xb); }, [&](ax::abstract0& z) { z *= xb; }}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return meet(xm, t, z, xb); }}); break;
    case 1: start("join", ""); compute(a, [&](V v) { return ap_abstract0_join(m, true, v, b); }, {[&](ax::abstract0& z) { z.join(xm, xb); }, [&](ax::abstract0& z) { z += xb; }}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return join(xm, t, z, xb); }}); break;
    case 2: { ap_dimension_t dd = ap_abstract0_dimension(m, b); clr(); V j = dd.realdim == rd ? ap_abstract0_join(m, false, a, b) : cp(b); clr(); XA xj(j); j = cp(j); start("widening", ""); auto fr = [&](V v, V r) { ap_abstract0_free(m, v); return r; };
      if (s.coin()) compute(a, [&](V v) { V r = ap_abstract0_widening(m, v, j); return fr(v, r); }, {}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return widening(xm, t, z, xj); }});
      else { ap_lincons0_array_t l = glinconss(), l2 = ap_lincons0_array_make(l.size); for (size_t i = 0; i < l.size; i++) l2.p[i] = ap_lincons0_copy(&l.p[i]); what = "with thresholds"; 
        compute(a, [&](V v) { V r = ap_abstract0_widening_threshold(m, v, j, &l); return fr(v, r); }, {}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return widening(xm, t, z, xj, as<ax::lincons0_array>(l2)); }}); ap_lincons0_array_clear(&l); ap_lincons0_array_clear(&l2); } ap_abstract0_free(m, j); break; } }
    eq(kb, b, "argument changed"); eq(kb, get(xb), "argument changed"); ap_abstract0_free(m, kb); ap_abstract0_free(m, b); }
  // both arguments and the destination may be the same object
  void op_alias() { V a = reg(); XA z(cp(a)); bool mt = s.coin(); start(mt ? "meet" : "join", "of a value with itself"); V r = c([&] { return mt ? ap_abstract0_meet(m, false, a, a) : ap_abstract0_join(m, false, a, a); }); int k = s.draw(3);
    x([&] { if (mt) { if (k == 0) meet(xm, z, z, z); else if (k == 1) z.meet(xm, z); else z *= z; } else { if (k == 0) join(xm, z, z, z); else if (k == 1) z.join(xm, z); else z += z; } }); if (agree()) eq(r, get(z), "value"); ap_abstract0_free(m, r);
    XA y(cp(reg())); start("copy", "assignment, construction and set"); V ky = cp(get(y)); switch (s.draw(5)) { case 0: { ax::abstract0 w(y); eq(ky, get(w), "value"); break; } case 1: { ax::abstract0 w(xm, y); eq(ky, get(w), "value"); break; } case 2: z = y; eq(ky, get(z), "value"); break; case 3: z.set(xm, y); eq(ky, get(z), "value"); break; case 4: y = y; y.set(xm, y); break; } eq(ky, get(y), "argument changed"); ap_abstract0_free(m, ky); ok++; }
  void op_arrays() { int k = s.range(1, 4); vector<V> v; vector<const ax::abstract0*> xs; std::vector<std::unique_ptr<XA>> hold; for (int i = 0; i < k; i++) { V g = gother(); hold.emplace_back(new XA(g)); v.push_back(g); xs.push_back(hold.back().get()); } bool mt = s.coin(); start(mt ? "meet" : "join", "of " + std::to_string(k) + " values");
    V r = c([&] { return mt ? ap_abstract0_meet_array(m, v.data(), k) : ap_abstract0_join_array(m, v.data(), k); }); bool al = s.coin(); XA o(cp(reg())); XA& t = al ? *hold[s.draw(k)] : o; V kt = cp(get(t)); int w = s.draw(2);
    x([&] { if (w) { if (mt) meet(xm, t, xs); else join(xm, t, xs); } else { if (mt) meet(xm, t, (size_t)k, xs.data()); else join(xm, t, (size_t)k, xs.data()); } }); if (agree()) eq(r, get(t), "value"); else eq(kt, get(t), "destination changed by an exception"); ap_abstract0_free(m, kt); ap_abstract0_free(m, r); }
  void op_constraints() { V a = reg(); switch (s.draw(3)) {
    case 0: { start("meet", "with linear constraints"); ap_lincons0_array_t l = glinconss(); auto& y = as<ax::lincons0_array>(l); compute(a, [&](V v) { return ap_abstract0_meet_lincons_array(m, true, v, &l); }, {[&](ax::abstract0& z) { z.meet(xm, y); }, [&](ax::abstract0& z) { z *= y; }}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return meet(xm, t, z, y); }}); ap_lincons0_array_clear(&l); break; }
    case 1: { start("meet", "with tree constraints"); ap_tcons0_array_t l = gtconss(); auto& y = as<ax::tcons0_array>(l); compute(a, [&](V v) { return ap_abstract0_meet_tcons_array(m, true, v, &l); }, {[&](ax::abstract0& z) { z.meet(xm, y); }, [&](ax::abstract0& z) { z *= y; }}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return meet(xm, t, z, y); }}); ap_tcons0_array_clear(&l); break; }
    case 2: { start("add_rays", ""); int k = s.range(0, 2); ap_generator0_array_t g = ap_generator0_array_make(k); for (int i = 0; i < k; i++) { Lin l = gen_lin(s, n(), lc); for (auto& q : l.c) if (!q.sing()) q = I(Q(1)); l.k = I(Q(0)); g.p[i] = ap_generator0_make(bd() ? AP_GEN_VERTEX : s.coin() ? AP_GEN_RAY : AP_GEN_LINE, mk_lin(l)); } auto& y = as<ax::generator0_array>(g);
      compute(a, [&](V v) { return ap_abstract0_add_ray_array(m, true, v, &g); }, {[&](ax::abstract0& z) { z.add_rays(xm, y); }, [&](ax::abstract0& z) { z += y; }}, {[&](ax::abstract0& t, const ax::abstract0& z) -> ax::abstract0& { return add_rays(xm, t, z, y); }}); ap_generator0_array_clear(&g); break; } } }
  void op_assign() { V a = reg(); int k = s.range(1, 3); vector<ap_dim_t> ds; for (int i = 0; i < k; i++) { size_t q = gdim(); if (std::find(ds.begin(), ds.end(), q) == ds.end()) ds.push_back(q); } k = ds.size(); bool sub = s.coin(), one = k == 1 && s.coin(), withd = s.chance(1, 3); V dv = withd ? gother() : nullptr; std::unique_ptr<XA> xd(withd ? new XA(dv) : nullptr); const ax::abstract0* D = xd.get();
    if (s.coin()) { start(sub ? "substitute" : "assign", "linear"); vector<ap_linexpr0_t*> es; vector<const ax::linexpr0*> xe; for (int i = 0; i < k; i++) { Lin l = glin(); TR("    x" << ds[i] << " := " << S(l)); es.push_back(mk_lin(l)); xe.push_back(reinterpret_cast<ax::linexpr0*>(es.back())); }
      auto cf = [&](V v) { if (one) return sub ? ap_abstract0_substitute_linexpr(m, true, v, ds[0], es[0], dv) : ap_abstract0_assign_linexpr(m, true, v, ds[0], es[0], dv); return sub ? ap_abstract0_substitute_linexpr_array(m, true, v, ds.data(), es.data(), k, dv) : ap_abstract0_assign_linexpr_array(m, true, v, ds.data(), es.data(), k, dv); };
      vector<InPl> in; vector<Dst> dst; typedef ax::abstract0 A;
#define BOTH(F) if (one) { in.push_back([&](A& z) { if (D) z.F(xm, ds[0], *xe[0], *D); else z.F(xm, ds[0], *xe[0]); }); dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, ds[0], *xe[0], *D) : F(xm, t, z, ds[0], *xe[0]); }); } \
      in.push_back([&](A& z) { if (D) z.F(xm, ds, xe, *D); else z.F(xm, ds, xe); }); in.push_back([&](A& z) { if (D) z.F(xm, k, ds.data(), xe.data(), *D); else z.F(xm, k, ds.data(), xe.data()); }); \
      dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, ds, xe, *D) : F(xm, t, z, ds, xe); }); dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, k, ds.data(), xe.data(), *D) : F(xm, t, z, k, ds.data(), xe.data()); });
      if (sub) { BOTH(substitute) } else { BOTH(assign) }
      compute(a, cf, in, dst); for (auto e : es) ap_linexpr0_free(e); }
    else { start(sub ? "substitute" : "assign", "tree"); vector<ap_texpr0_t*> es; vector<const ax::texpr0*> xe; for (int i = 0; i < k; i++) { T l = gen_te(s, n() + (bd() ? 1 : 0), tc, 2); TR("    x" << ds[i] << " := " << S(l)); es.push_back(mk_te(l)); } for (auto& e : es) xe.push_back(reinterpret_cast<ax::texpr0*>(e));
      auto cf = [&](V v) { if (one) return sub ? ap_abstract0_substitute_texpr(m, true, v, ds[0], es[0], dv) : ap_abstract0_assign_texpr(m, true, v, ds[0], es[0], dv); return sub ? ap_abstract0_substitute_texpr_array(m, true, v, ds.data(), es.data(), k, dv) : ap_abstract0_assign_texpr_array(m, true, v, ds.data(), es.data(), k, dv); };
      vector<InPl> in; vector<Dst> dst; typedef ax::abstract0 A; if (sub) { BOTH(substitute) } else { BOTH(assign) }
      compute(a, cf, in, dst); for (auto e : es) ap_texpr0_free(e); } }
  void op_dims() { V a = reg(); typedef ax::abstract0 A; switch (s.draw(6)) {
    case 0: { int k = s.range(n() ? 1 : 0, 2); vector<ap_dim_t> ds; for (int i = 0; i < k; i++) { size_t q = gdim(); if (std::find(ds.begin(), ds.end(), q) == ds.end()) ds.push_back(q); } k = ds.size(); bool p = s.coin(); start("forget", p ? "project" : ""); vector<InPl> in; vector<Dst> dst; if (k == 1) { in.push_back([&](A& z) { z.forget(xm, ds[0], p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, ds[0], p); }); }
      in.push_back([&](A& z) { z.forget(xm, ds, p); }); in.push_back([&](A& z) { z.forget(xm, k, ds.data(), p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, ds, p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, k, ds.data(), p); }); compute(a, [&](V v) { return ap_abstract0_forget_array(m, true, v, ds.data(), k, p); }, in, dst); break; }
    case 1: { size_t ki = s.draw(3), kr = s.draw(3); vector<ap_dim_t> ds; for (size_t i = 0; i < ki; i++) ds.push_back(s.draw(id + 1)); for (size_t i = 0; i < kr; i++) ds.push_back(id + s.draw(rd + 1)); std::sort(ds.begin(), ds.begin() + ki); std::sort(ds.begin() + ki, ds.end()); if (bd() && ds.size()) ds[s.draw(ds.size())] = n() + 3; ax::dimchange dc(ki, kr, ds); bool p = s.coin(); start("add_dimensions", p ? "project" : ""); ap_dimchange_t* q = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < ds.size(); i++) q->dim[i] = ds[i];
      compute(a, [&](V v) { return ap_abstract0_add_dimensions(m, true, v, q, p); }, {[&](A& z) { if (p) z.add_dimensions(xm, dc, p); else z.add_dimensions(xm, dc); }}, {[&](A& t, const A& z) -> A& { return p ? add_dimensions(xm, t, z, dc, p) : add_dimensions(xm, t, z, dc); }}); ap_dimchange_free(q); break; }
    case 2: { vector<ap_dim_t> ds; size_t ki = 0; for (size_t i = 0; i < n(); i++) if (s.chance(1, 3)) { ds.push_back(i); ki += i < id; } if (bd() && ds.size()) ds[s.draw(ds.size())] = n() + 3; size_t kr = ds.size() - ki; ax::dimchange dc(ki, kr, ds.data()); start("remove_dimensions", ""); ap_dimchange_t* q = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < ds.size(); i++) q->dim[i] = ds[i];
      compute(a, [&](V v) { return ap_abstract0_remove_dimensions(m, true, v, q); }, {[&](A& z) { z.remove_dimensions(xm, dc); }}, {[&](A& t, const A& z) -> A& { return remove_dimensions(xm, t, z, dc); }}); ap_dimchange_free(q); break; }
    case 3: { vector<ap_dim_t> pm(n()); for (size_t i = 0; i < n(); i++) pm[i] = i; for (size_t i = 0; i < n(); i++) { size_t lo = i < id ? 0 : id; std::swap(pm[i], pm[lo + s.draw(i - lo + 1)]); } if (bd() && n()) pm[s.draw(n())] = n(); ax::dimperm dp(pm); start("permute_dimensions", ""); ap_dimperm_t* q = ap_dimperm_alloc(n()); for (size_t i = 0; i < n(); i++) q->dim[i] = pm[i];
      compute(a, [&](V v) { return ap_abstract0_permute_dimensions(m, true, v, q); }, {[&](A& z) { z.permute_dimensions(xm, dp); }}, {[&](A& t, const A& z) -> A& { return permute_dimensions(xm, t, z, dp); }}); ap_dimperm_free(q); break; }
    case 4: { size_t dm = gdim(), k = s.draw(3); start("expand", "x" + std::to_string(dm)); compute(a, [&](V v) { return ap_abstract0_expand(m, true, v, dm, k); }, {[&](A& z) { if (k == 1) z.expand(xm, dm); else z.expand(xm, dm, k); }}, {[&](A& t, const A& z) -> A& { return k == 1 ? expand(xm, t, z, dm) : expand(xm, t, z, dm, k); }}); break; }
    case 5: { bool it = id && (!rd || s.coin()); vector<ap_dim_t> ds; for (size_t i = it ? 0 : id; i < (it ? id : n()); i++) if (s.coin()) ds.push_back(i); if (ds.empty() && n()) ds.push_back(it ? 0 : id); if (bd()) ds.push_back(n()); if (ds.empty()) return; start("fold", ""); compute(a, [&](V v) { return ap_abstract0_fold(m, true, v, ds.data(), ds.size()); }, {[&](A& z) { z.fold(xm, ds); }, [&](A& z) { z.fold(xm, ds.size(), ds.data()); }}, {[&](A& t, const A& z) -> A& { return fold(xm, t, z, ds); }, [&](A& t, const A& z) -> A& { return fold(xm, t, z, ds.size(), ds.data()); }}); break; } } }
  void op_repr() { V a = reg(); typedef ax::abstract0 A; switch (s.draw(4)) {
    case 0: start("closure", ""); compute(a, [&](V v) { return ap_abstract0_closure(m, true, v); }, {[&](A& z) { z.closure(xm); }}, {[&](A& t, const A& z) -> A& { return closure(xm, t, z); }}); break;
    case 1: start("minimize", ""); compute(a, [&](V v) { ap_abstract0_minimize(m, v); return v; }, {[&](A& z) { z.minimize(xm); }}, {}); break;
    case 2: start("canonicalize", ""); compute(a, [&](V v) { ap_abstract0_canonicalize(m, v); return v; }, {[&](A& z) { z.canonicalize(xm); }}, {}); break;
    case 3: { int al = s.draw(4); start("approximate", std::to_string(al)); compute(a, [&](V v) { ap_abstract0_approximate(m, v, al); return v; }, {[&](A& z) { z.approximate(xm, al); }}, {}); break; } } }
  // construction and assignment from top, bottom, boxes and constraints
  void op_make() { typedef ax::abstract0 A; V a = reg(); size_t i = id, r = rd; bool dims = s.coin(); if (dims) { i = s.draw(3); r = s.draw(3); } size_t N = i + r; int k = s.draw(5); bool da = s.coin() && !dims; // da: default dimensions or operator=
    auto go = [&](const std::function<V()>& cf, const std::function<A*()>& ctor, const std::function<void(A&)>& asg, const std::function<void(A&)>& set, const std::function<void(A&)>& set2) { V q = c(cf); int w = s.draw(3); XA z(cp(a)); A* p = nullptr; V kz = cp(get(z)); bool res = x([&] { if (w == 0) p = ctor(); else if (w == 1 && da) asg(z); else if (da) set2(z); else set(z); }); if (agree()) eq(q, get(p ? *p : (A&)z), "value"); else eq(kz, get(z), "value changed by an exception"); (void)res; delete p; ap_abstract0_free(m, kz); ap_abstract0_free(m, q); clr(); };
    switch (k) {
    case 0: start("make", "top"); go([&] { return ap_abstract0_top(m, i, r); }, [&] { return new A(xm, i, r, ax::top()); }, [&](A& z) { z = ax::top(); }, [&](A& z) { z.set(xm, ax::top(), i, r); }, [&](A& z) { z.set(xm, ax::top()); }); break;
    case 1: start("make", "bottom"); go([&] { return ap_abstract0_bottom(m, i, r); }, [&] { return new A(xm, i, r, ax::bottom()); }, [&](A& z) { z = ax::bottom(); }, [&](A& z) { z.set(xm, ax::bottom(), i, r); }, [&](A& z) { z.set(xm, ax::bottom()); }); break;
    case 2: { start("make", "a box"); vector<I> b; for (size_t j = 0; j < N; j++) b.push_back(gen_itv(s, pc)); ap_interval_t** t = mk_box(b); ax::interval_array y(N + s.draw(2)); for (size_t j = 0; j < N; j++) ap_interval_set(const_cast<ap_interval_t*>(y[j].get_ap_interval_t()), t[j]); TR("    " << SV(b));
      go([&] { return ap_abstract0_of_box(m, i, r, t); }, [&] { return new A(xm, i, r, y); }, [&](A& z) { z = y; }, [&](A& z) { z.set(xm, y, i, r); }, [&](A& z) { z.set(xm, y); });
      if (N) { ax::interval_array sh(N - 1); XA z(cp(a)); V kz = cp(get(z)); bool th = false; try { switch (s.draw(2)) { case 0: { A w(xm, i, r, sh); break; } case 1: z.set(xm, sh, i, r); break; } } catch (const std::invalid_argument&) { th = true; } if (!th) bad("short", "an array of intervals shorter than the number of dimensions is accepted"); eq(kz, get(z), "value changed by an exception"); ap_abstract0_free(m, kz); }
      free_box(t, N); break; }
    case 3: { start("make", "linear constraints"); vector<Cons> v; int q = s.range(0, 3); for (int j = 0; j < q; j++) { Cons t; t.e = gen_lin(s, N + (bd() ? 1 : 0), lc); t.t = gentype(false); v.push_back(t); } ap_lincons0_array_t l = mk_cons_array(v); auto& y = as<ax::lincons0_array>(l); TR("    " << SV(v)); go([&] { return ap_abstract0_of_lincons_array(m, i, r, &l); }, [&] { return new A(xm, i, r, y); }, [&](A& z) { z = y; }, [&](A& z) { z.set(xm, y, i, r); }, [&](A& z) { z.set(xm, y); }); ap_lincons0_array_clear(&l); break; }
    case 4: { start("make", "tree constraints"); vector<TCons> v; int q = s.range(0, 2); for (int j = 0; j < q; j++) { TCons t; t.e = gen_te(s, N + (bd() ? 1 : 0), tc, 2); t.t = gentype(false); v.push_back(t); } ap_tcons0_array_t l = mk_tcons_array(v); auto& y = as<ax::tcons0_array>(l); TR("    " << SV(v)); go([&] { return ap_abstract0_of_tcons_array(m, i, r, &l); }, [&] { return new A(xm, i, r, y); }, [&](A& z) { z = y; }, [&](A& z) { z.set(xm, y, i, r); }, [&](A& z) { z.set(xm, y); }); ap_tcons0_array_clear(&l); break; } } }
  // ---- queries
  template<class F, class G> void query(F cf, G xf) { auto r = c(cf); decltype(r) q{}; x([&] { q = xf(); }); if (agree() && !(r == q)) bad("answer", what + ": C++ answers " + std::to_string((long)q) + " and C " + std::to_string((long)r)); }
  void op_query() { V a = reg(); XA z(cp(a)); V kz = cp(a); switch (s.draw(12)) {
    case 0: start("is_bottom", ""); query([&] { return ap_abstract0_is_bottom(m, a); }, [&] { return z.is_bottom(xm); }); break;
    case 1: start("is_top", ""); query([&] { return ap_abstract0_is_top(m, a); }, [&] { return z.is_top(xm); }); break;
    case 2: case 3: { V b = s.chance(1, 4) ? cp(a) : gother(); XA y(cp(b)); ap_dimension_t dd = ap_abstract0_dimension(m, b); clr(); start("compare", ""); switch (s.draw(8)) {
      case 0: query([&] { return ap_abstract0_is_eq(m, a, b); }, [&] { return z.is_eq(xm, y); }); break; case 1: query([&] { return ap_abstract0_is_leq(m, a, b); }, [&] { return z.is_leq(xm, y); }); break;
      case 2: what = "=="; query([&] { return ap_abstract0_is_eq(m, a, b); }, [&] { return z == y; }); break; case 3: what = "!="; query([&] { return !ap_abstract0_is_eq(m, a, b); }, [&] { return z != y; }); break;
      case 4: what = "<="; query([&] { return ap_abstract0_is_leq(m, a, b); }, [&] { return z <= y; }); break; case 5: what = ">="; query([&] { return ap_abstract0_is_leq(m, b, a); }, [&] { return z >= y; }); break;
      case 6: case 7: { bool gt = s.coin(); if (dd.realdim != rd) break; what = gt ? "> (strictly contains)" : "< (strictly included)"; bool l = ap_abstract0_is_leq(m, a, b), g = ap_abstract0_is_leq(m, b, a); clr(); bool q = gt ? z > y : z < y; clr(); bool e = gt ? g && !l : l && !g; if (q != e) bad("strict", "operator " + what + " of " + str(a) + " and " + str(b) + " is " + std::to_string(q)); ok++; break; } } ap_abstract0_free(m, b); break; }
    case 4: { start("sat", "linear"); ap_lincons0_t k = mk_cons(gcons()); query([&] { return ap_abstract0_sat_lincons(m, a, &k); }, [&] { return z.sat(xm, as<ax::lincons0>(k)); }); ap_lincons0_clear(&k); break; }
    case 5: { start("sat", "tree"); ap_tcons0_t k = mk_tcons(gtc()); query([&] { return ap_abstract0_sat_tcons(m, a, &k); }, [&] { return z.sat(xm, as<ax::tcons0>(k)); }); ap_tcons0_clear(&k); break; }
    case 6: { start("sat", "interval"); size_t dm = gdim(); ap_interval_t* i = mk_interval(gen_itv(s, pc), 0, 0); query([&] { return ap_abstract0_sat_interval(m, a, dm, i); }, [&] { return z.sat(xm, dm, *reinterpret_cast<ax::interval*>(i)); }); ap_interval_free(i); break; }
    case 7: { start("is_dimension_unconstrained", ""); size_t dm = gdim(); query([&] { return ap_abstract0_is_dimension_unconstrained(m, a, dm); }, [&] { return z.is_dimension_unconstrained(xm, dm); }); break; }
    case 8: start("size", ""); query([&] { return ap_abstract0_size(m, a); }, [&] { return z.size(xm); }); { ap_dimension_t dd = z.get_dimension(xm); if (dd.intdim != id || dd.realdim != rd) bad("dimension", "get_dimension"); ax::manager g = z.get_manager(); if (g.get_ap_manager_t() != m || g.get_library() != m->library || g.get_version() != m->version) bad("manager", "get_manager"); } break;
    case 9: case 10: { int k = s.draw(3); start("bound", k == 0 ? "linear" : k == 1 ? "tree" : "dimension"); size_t dm = gdim(); ap_linexpr0_t* e = mk_lin(glin()); ap_texpr0_t* t = mk_te(gen_te(s, n() + (bd() ? 1 : 0), tc, 2)); ap_interval_t* r = c([&] { return k == 0 ? ap_abstract0_bound_linexpr(m, a, e) : k == 1 ? ap_abstract0_bound_texpr(m, a, t) : ap_abstract0_bound_dimension(m, a, dm); });
      ax::interval q; x([&] { q = k == 0 ? z.bound(xm, *reinterpret_cast<ax::linexpr0*>(e)) : k == 1 ? z.bound(xm, *reinterpret_cast<ax::texpr0*>(t)) : z.bound(xm, (ap_dim_t)dm); }); if (agree()) { I u = of_interval(r), w = of_interval(q.get_ap_interval_t()); if (u.lo != w.lo || u.hi != w.hi) bad("answer", what + ": C++ answers " + S(w) + " and C " + S(u)); } ap_interval_free(r); ap_linexpr0_free(e); ap_texpr0_free(t); break; }
    case 11: { start("to_box", ""); ap_interval_t** r = c([&] { return ap_abstract0_to_box(m, a); }); ax::interval_array q((size_t)0); std::vector<ax::interval> qv; bool vec = s.coin(); x([&] { q = z.to_box(xm); if (vec) qv = q; }); if (agree()) { if (q.size() != n() || (vec && qv.size() != n())) bad("answer", "to_box: wrong size"); for (size_t i = 0; i < n(); i++) { I u = of_interval(r[i]), w = of_interval((vec ? qv[i] : q[i]).get_ap_interval_t()); if (u.lo != w.lo || u.hi != w.hi) bad("answer", "to_box: C++ answers " + S(w) + " and C " + S(u)); } } if (r) ap_interval_array_free(r, n()); break; } }
    eq(kz, get(z), "argument changed"); ap_abstract0_free(m, kz); }
  template<class F> string text(F f) { char* p = nullptr; size_t k = 0; FILE* fp = open_memstream(&p, &k); f(fp); fclose(fp); string r(p, k); free(p); return r; }
  void op_convert() { V a = reg(); XA z(cp(a)); V kz = cp(a); switch (s.draw(6)) {
    case 0: { start("to_lincons_array", ""); ap_lincons0_array_t r = c([&] { return ap_abstract0_to_lincons_array(m, kz); }); ax::lincons0_array q((size_t)0); x([&] { q = z.to_lincons_array(xm); }); if (agree()) { string u = text([&](FILE* f) { ap_lincons0_array_fprint(f, &r, NULL); }), w = text([&](FILE* f) { q.print(NULL, f); }); if (u != w || q.size() != r.size) bad("answer", "to_lincons_array: " + w + " instead of " + u); } ap_lincons0_array_clear(&r); break; }
    case 1: { start("to_tcons_array", ""); ap_tcons0_array_t r = c([&] { return ap_abstract0_to_tcons_array(m, kz); }); ax::tcons0_array q((size_t)0); x([&] { q = z.to_tcons_array(xm); }); if (agree()) { string u = text([&](FILE* f) { ap_tcons0_array_fprint(f, &r, NULL); }), w = text([&](FILE* f) { q.print(NULL, f); }); if (u != w || q.size() != r.size) bad("answer", "to_tcons_array: " + w + " instead of " + u); } ap_tcons0_array_clear(&r); break; }
    case 2: { start("to_generator_array", ""); ap_generator0_array_t r = c([&] { return ap_abstract0_to_generator_array(m, kz); }); ax::generator0_array q((size_t)0); x([&] { q = z.to_generator_array(xm); }); if (agree()) { string u = text([&](FILE* f) { ap_generator0_array_fprint(f, &r, NULL); }), w = text([&](FILE* f) { q.print(NULL, f); }); if (u != w || q.size() != r.size) bad("answer", "to_generator_array: " + w + " instead of " + u); } ap_generator0_array_clear(&r); break; }
    case 3: { start("print", ""); string u = c([&] { return text([&](FILE* f) { ap_abstract0_fprint(f, m, kz, NULL); }); }), w; x([&] { w = text([&](FILE* f) { z.print(xm, NULL, f); }); }); if (agree() && u != w) bad("answer", "print: " + w + " instead of " + u); std::ostringstream os; os << z; ax::abstract0 zz(z); string ref = z.is_bottom(xm) ? "bottom" : z.is_top(xm) ? "top" : [&] { std::ostringstream o; o << z.to_lincons_array(xm); return o.str(); }(); if (os.str() != ref) bad("stream", os.str() + " instead of " + ref); clr(); break; }
    case 4: { start("printdiff", ""); V b = reg(), b1 = cp(b), b2 = cp(b); XA y(b2); string u = c([&] { return text([&](FILE* f) { ap_abstract0_fprintdiff(f, m, kz, b1, NULL); }); }), w; x([&] { w = text([&](FILE* f) { printdiff(xm, z, y, NULL, f); }); }); if (agree() && u != w) bad("answer", "printdiff: " + w + " instead of " + u); ap_abstract0_free(m, b1); break; }
    case 5: { start("serialize", ""); ap_membuf_t b = c([&] { return ap_abstract0_serialize_raw(m, kz); }); std::string* sr = nullptr; x([&] { sr = z.serialize(xm); }); if (agree()) { if (sr->size() != b.size) bad("answer", "serialize: size"); V kk = cp(kz); XA o(cp(reg())); size_t eaten = 0; string more = *sr + "abc"; x([&] { deserialize(xm, o, more, s.coin() ? &eaten : NULL); }); if (ox.e != AP_EXC_NONE) bad("exception", "deserialize"); if (eaten && eaten != b.size) bad("eaten", "deserialize consumes " + std::to_string(eaten) + " bytes of " + std::to_string(b.size)); eq(kk, get(o), "value"); ap_abstract0_free(m, kk); } delete sr; free(b.ptr); break; } }
    eq(kz, get(z), "argument changed"); ap_abstract0_free(m, kz); }
  void free_(V) {}
  void run() { id = s.draw(3); rd = s.draw(4); TR(d.name << " (" << id << "," << rd << ")"); lc.num = pc; int k = s.range(2, 3); for (int i = 0; i < k; i++) { Reg r = fresh(); V v = r.a; r.a = nullptr; if (s.coin()) { vector<Cons> cs; cs.push_back(gencons(r)); ap_lincons0_array_t l = mk_cons_array(cs); v = ap_abstract0_meet_lincons_array(m, true, v, &l); ap_lincons0_array_clear(&l); } R.push_back(v); } clr();
    int st = s.range(1, 6); for (int i = 0; i < st; i++) switch (s.weighted({3, 1, 2, 3, 4, 4, 2, 3, 4, 3})) { case 0: op_binary(); break; case 1: op_alias(); break; case 2: op_arrays(); break; case 3: op_constraints(); break; case 4: op_assign(); break; case 5: op_dims(); break; case 6: op_repr(); break; case 7: op_make(); break; case 8: op_query(); break; case 9: op_convert(); break; } if (ok) s.nontrivial = true; }
};
// ---- level 1: environments against a model (two sets of names), abstract values against the C functions
struct XA1 : ax::abstract1 { explicit XA1(ap_abstract1_t a) : ax::abstract1(a) {} };
typedef ap_abstract1_t V1;
struct EM { std::set<string> i, r; bool has(const string& x) const { return i.count(x) || r.count(x); } size_t n() const { return i.size() + r.size(); } bool operator==(const EM& o) const { return i == o.i && r == o.r; } string var(size_t k) const { if (k < i.size()) { auto p = i.begin(); std::advance(p, k); return *p; } auto p = r.begin(); std::advance(p, k - i.size()); return *p; } size_t dim(const string& x) const { for (size_t k = 0; k < n(); k++) if (var(k) == x) return k; return (size_t)-1; } };
static string S(const EM& e) { string t = "{"; for (auto& x : e.i) t += x + ":int "; for (auto& x : e.r) t += x + " "; return t + "}"; }
struct C1 : CX {
  C1(Src& s, const Dom& d) : CX(s, d) {} ~C1() { if (std::uncaught_exceptions()) return; for (auto& v : R1) ap_abstract1_clear(m, &v); }
  vector<V1> R1; const vector<string> IN = {"i0", "i1"}, RN = {"r0", "r1", "r2", "r3"};
  static std::vector<ax::var> vs(const vector<string>& v) { std::vector<ax::var> r; for (auto& x : v) r.push_back(ax::var(x)); return r; } static std::vector<ax::var> vs(const std::set<string>& v) { return vs(vector<string>(v.begin(), v.end())); }
  static EM em(const ap_environment_t* e) { EM r; for (size_t k = 0; k < e->intdim; k++) r.i.insert((char*)e->var_of_dim[k]); for (size_t k = 0; k < e->realdim; k++) r.r.insert((char*)e->var_of_dim[e->intdim + k]); return r; }
  static EM em(const ax::environment& e) { return em(e.get_ap_environment_t()); }
  ax::environment xe(const EM& e) { auto a = vs(e.i), b = vs(e.r); if (s.coin()) return ax::environment(a, b); return ax::environment(a.data(), a.size(), b.data(), b.size()); }
  EM genv(bool weird = false) { EM e; for (auto& x : IN) if (s.coin()) (weird && s.chance(1, 6) ? e.r : e.i).insert(x); for (auto& x : RN) if (s.coin()) (weird && s.chance(1, 10) ? e.i : e.r).insert(x); return e; }
  string nm() { return s.chance(1, 3) ? IN[s.draw(2)] : RN[s.draw(4)]; }
  void cke(const ax::environment& e, const EM& w, const char* k) { EM g = em(e); if (!(g == w)) bad(k, what + ": " + S(g) + " instead of " + S(w)); if (e.intdim() != w.i.size() || e.realdim() != w.r.size()) bad(k, what + ": dimensions"); auto v = e.get_vars(); if (v.size() != w.n()) bad(k, "get_vars"); for (size_t j = 0; j < w.n(); j++) { string x = w.var(j); if ((string)e[(ap_dim_t)j] != x || (string)e.get_var(j) != x || (string)v[j] != x) bad(k, what + ": variable " + std::to_string(j) + " of " + S(w)); if (e[ax::var(x)] != j || e.get_dim(ax::var(x)) != j || !e.contains(ax::var(x))) bad(k, what + ": dimension of " + x + " in " + S(w)); } bool th = false; try { e.get_var(w.n()); } catch (const std::out_of_range&) { th = true; } if (!th) bad(k, "get_var beyond the end"); th = false; try { e.get_dim(ax::var("zz")); } catch (const std::invalid_argument&) { th = true; } if (!th || e.contains(ax::var("zz"))) bad(k, "get_dim of a name outside"); }
  // the dimension change from a to its superset b
  void ckch(const ax::dimchange& d, const EM& a, const EM& b, const char* k) { size_t ni = b.i.size() - a.i.size(), nr = b.r.size() - a.r.size(); if (d.get_intdim() != ni || d.get_realdim() != nr) bad(k, what + ": sizes of the dimension change from " + S(a) + " to " + S(b)); size_t j = 0, below = 0; for (size_t q = 0; q < b.n(); q++) { if (q == b.i.size()) below = a.i.size(); if (a.has(b.var(q))) below++; else { if (j >= ni + nr || d.get(j) != below) bad(k, what + ": element " + std::to_string(j) + " of the dimension change from " + S(a) + " to " + S(b)); j++; } } }
  // perm sends the dimensions of a followed by the new ones (integers then reals) to those of b
  void op_env() { start("environment", ""); EM a = genv(); ax::environment e = xe(a); what = "environment"; cke(e, a, "env-make"); ok++; auto throws = [&](const std::function<void()>& f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } };
    for (int st = s.range(1, 4); st > 0; st--) switch (s.draw(7)) {
    case 0: { what = "add"; EM b = genv(true); bool over = false; for (auto& x : b.i) over |= a.has(x); for (auto& x : b.r) over |= a.has(x); if (over && s.chance(3, 4)) { for (auto it = b.i.begin(); it != b.i.end();) if (a.has(*it)) it = b.i.erase(it); else ++it; for (auto it = b.r.begin(); it != b.r.end();) if (a.has(*it)) it = b.r.erase(it); else ++it; over = false; } auto bi = vs(b.i), br = vs(b.r); if (bi.size() > 1 && s.coin()) std::swap(bi[0], bi[1]); if (br.size() > 1 && s.coin()) std::swap(br[0], br[1]); TR("    add " << S(b)); EM w = a; w.i.insert(b.i.begin(), b.i.end()); w.r.insert(b.r.begin(), b.r.end()); bool pm = s.coin(), ve = s.coin(); ax::dimperm p; ax::environment g; bool th = throws([&] { g = pm ? (ve ? e.add(bi, br, p) : e.add(bi.data(), bi.size(), br.data(), br.size(), p)) : ve ? e.add(bi, br) : e.add(bi.data(), bi.size(), br.data(), br.size()); }); if (th != over) bad("env-add", string("adding ") + S(b) + " to " + S(a) + (th ? " fails" : " succeeds")); cke(e, a, "env-changed"); if (th) break; cke(g, w, "env-add"); if (pm) { if (p.size() != w.n()) bad("env-add", "size of the permutation"); vector<string> old; for (size_t k = 0; k < a.i.size(); k++) old.push_back(a.var(k)); for (auto& x : bi) old.push_back(x); for (size_t k = a.i.size(); k < a.n(); k++) old.push_back(a.var(k)); for (auto& x : br) old.push_back(x); for (size_t k = 0; k < old.size(); k++) if (p[k] != w.dim(old[k])) bad("env-add", "the permutation sends " + old[k] + " to " + std::to_string(p[k]) + " in " + S(w)); } e = g; a = w; break; }
    case 1: { what = "remove"; vector<string> l; EM w = a; bool miss = false; for (auto& x : IN) if (s.chance(1, 3) && (a.has(x) || (s.chance(1, 6) && (miss = true)))) { l.push_back(x); w.i.erase(x); w.r.erase(x); } for (auto& x : RN) if (s.chance(1, 3) && (a.has(x) || (s.chance(1, 6) && (miss = true)))) { l.push_back(x); w.i.erase(x); w.r.erase(x); } auto v = vs(l); ax::environment g; bool ve = s.coin(); bool th = throws([&] { g = ve ? e.remove(v) : e.remove(v.data(), v.size()); }); if (th != miss) bad("env-remove", string("removing names from ") + S(a) + (th ? " fails" : " succeeds")); cke(e, a, "env-changed"); if (th) break; cke(g, w, "env-remove"); e = g; a = w; break; }
    case 2: { what = "rename"; vector<string> from, to; EM w = a; for (size_t k = 0; k < a.n(); k++) if (s.chance(1, 3)) from.push_back(a.var(k)); EM rest = a; for (auto& x : from) { rest.i.erase(x); rest.r.erase(x); } vector<string> av; for (auto& x : IN) if (!rest.has(x)) av.push_back(x); for (auto& x : RN) if (!rest.has(x)) av.push_back(x); for (const char* x : {"n0", "z9"}) if (!rest.has(x)) av.push_back(x); std::set<string> used; bool miss = false; w = rest; for (auto& x : from) { string y; do { y = av[s.draw(av.size())]; } while (used.count(y)); used.insert(y); to.push_back(y); (a.i.count(x) ? w.i : w.r).insert(y); } if (s.chance(1, 8)) { from.push_back("zz"); to.push_back("q"); miss = true; } auto f = vs(from), g = vs(to); std::vector<std::pair<ax::var, ax::var>> pr; for (size_t k = 0; k < f.size(); k++) pr.emplace_back(f[k], g[k]); ax::environment h; ax::dimperm p; bool ve = s.coin(), pm = s.coin(); bool th = throws([&] { h = pm ? (ve ? e.rename(pr, p) : e.rename(f.data(), g.data(), f.size(), p)) : ve ? e.rename(pr) : e.rename(f.data(), g.data(), f.size()); }); if (th != miss) bad("env-rename", string("renaming in ") + S(a) + (th ? " fails" : " succeeds")); cke(e, a, "env-changed"); if (th) break; cke(h, w, "env-rename"); if (pm) { if (p.size() != a.n()) bad("env-rename", "size of the permutation"); for (size_t k = 0; k < a.n(); k++) { string x = a.var(k); for (size_t q = 0; q < from.size(); q++) if (from[q] == x) { x = to[q]; break; } if (p[k] != w.dim(x)) bad("env-rename", "the permutation sends " + a.var(k) + " of " + S(a) + " to " + std::to_string(p[k]) + " in " + S(w)); } } e = h; a = w; break; }
    case 3: { what = "lce"; EM b = genv(s.chance(1, 3)); ax::environment f = xe(b); EM w = a; w.i.insert(b.i.begin(), b.i.end()); w.r.insert(b.r.begin(), b.r.end()); bool clash = false; for (auto& x : w.i) clash |= w.r.count(x) > 0; TR("    lce " << S(a) << " " << S(b)); ax::dimchange c1, c2; ax::environment g; bool ch = s.coin(); bool th = throws([&] { g = ch ? lce(e, f, c1, c2) : lce(e, f); }); if (th != clash) bad("env-lce", S(a) + " and " + S(b) + (th ? " fails" : " succeeds")); if (th) break; cke(g, w, "env-lce"); if (ch) { ckch(c1, a, w, "env-lce"); ckch(c2, b, w, "env-lce"); } ckch(get_dimchange(e, g), a, w, "env-dimchange"); if (s.coin()) { e = g; a = w; } break; }
    case 4: { what = "lce of several"; int k = s.range(0, 4); std::vector<ax::environment> v; vector<EM> ms; EM w; for (int q = 0; q < k; q++) { ms.push_back(genv(s.chance(1, 4))); v.push_back(xe(ms.back())); w.i.insert(ms[q].i.begin(), ms[q].i.end()); w.r.insert(ms[q].r.begin(), ms[q].r.end()); } bool clash = false; for (auto& x : w.i) clash |= w.r.count(x) > 0; std::vector<ax::dimchange> c(k + s.draw(2)); ax::environment g; int how = s.draw(4); bool th = throws([&] { g = how == 0 ? lce(v) : how == 1 ? lce(v.data(), v.size()) : how == 2 ? lce(v, c) : lce(v.data(), c.data(), v.size()); }); if (th != clash) bad("env-lce", string("of several environments ") + (th ? "fails" : "succeeds")); if (th) break; cke(g, w, "env-lce"); if (how >= 2) for (int q = 0; q < k; q++) ckch(c[q], ms[q], w, "env-lce"); break; }
    case 5: { what = "comparison"; EM b = s.chance(1, 3) ? a : genv(true); if (s.chance(1, 3)) { b = a; if (b.n()) { string x = b.var(s.draw(b.n())); b.i.erase(x); b.r.erase(x); } } ax::environment f = xe(b); bool eqv = a == b, le = std::includes(b.i.begin(), b.i.end(), a.i.begin(), a.i.end()) && std::includes(b.r.begin(), b.r.end(), a.r.begin(), a.r.end()), ge = std::includes(a.i.begin(), a.i.end(), b.i.begin(), b.i.end()) && std::includes(a.r.begin(), a.r.end(), b.r.begin(), b.r.end()); if ((e == f) != eqv || (e != f) == eqv || (e <= f) != le || (e >= f) != ge) bad("env-compare", "an operator comparing " + S(a) + " and " + S(b)); bool th = throws([&] { ax::dimchange c = get_dimchange(f, e); if (ge) ckch(c, b, a, "env-dimchange"); }); if (th == ge) bad("env-dimchange", "from " + S(b) + " to " + S(a) + (th ? " fails" : " succeeds")); EM l = a; l.i.insert(b.i.begin(), b.i.end()); l.r.insert(b.r.begin(), b.r.end()); bool clash = false; for (auto& x : l.i) clash |= l.r.count(x) > 0; int cc = cmp(e, f), want = clash ? -2 : eqv ? 0 : le ? -1 : ge ? 1 : 2; if (cc != want) bad("env-compare", "cmp of " + S(a) + " and " + S(b) + " is " + std::to_string(cc)); break; }
    case 6: { what = "copy"; ax::environment f(e), g; g = f; cke(g, a, "env-copy"); g = g; { ax::environment h; g = h; } cke(f, a, "env-copy"); EM b = genv(); for (auto& x : IN) if (b.r.count(x)) b.r.erase(x); std::vector<ax::var> bi = vs(b.i), br = vs(b.r); if (b.n()) { (s.coin() ? bi : br).push_back(ax::var(b.var(s.draw(b.n())))); if (!throws([&] { ax::environment z(bi, br); })) bad("env-make", "a name twice in an environment"); } ax::var v1("abc"), v2(v1), v3("abd"); v3 = v3; if (!(v1 == v2) || v1 != v2 || !(v1 < v3) || v3 <= v1 || !(v3 > v1) || !(v3 >= v1) || compare(v1, v3) >= 0) bad("var", "comparison of names"); v2 = v3; if ((string)v2 != "abd" || (string)v1 != "abc") bad("var", "assignment of names"); break; } }
    cke(e, a, "env-value"); }
  // ---- values
  V1 cp1(const V1& v) { V1 r = ap_abstract1_copy(m, const_cast<V1*>(&v)); clr(); return r; } void fr1(V1 v) { ap_abstract1_clear(m, &v); }
  ap_abstract1_t& g1(const ax::abstract1& a) { return *const_cast<ax::abstract1&>(a).get_ap_abstract1_t(); }
  void eq1(const V1& a, const V1& b, const char* k) { if (!b.abstract0) bad("null", what + ": null value"); if (!ap_environment_is_eq(a.env, b.env)) bad(k, what + ": on " + S(em(b.env)) + " instead of " + S(em(a.env))); eq(a.abstract0, b.abstract0, k); }
  V1 fresh1(const EM& e) { ax::environment x = xe(e); size_t n = e.n(); id = e.i.size(); rd = e.r.size(); vector<I> b; for (size_t i = 0; i < n; i++) b.push_back(gen_itv(s, pc)); ap_interval_t** t = mk_box(b); V1 v; v.env = ap_environment_copy(x.get_ap_environment_t()); v.abstract0 = s.chance(1, 12) ? ap_abstract0_bottom(m, id, rd) : ap_abstract0_of_box(m, id, rd, t); free_box(t, n); if (s.coin()) { vector<Cons> cs; Cons k; k.e = gen_lin(s, n, lc); k.t = gentype(false); cs.push_back(k); ap_lincons0_array_t l = mk_cons_array(cs); v.abstract0 = ap_abstract0_meet_lincons_array(m, true, v.abstract0, &l); ap_lincons0_array_clear(&l); } clr(); TR("  value on " << S(e)); return v; }
  const V1& reg1() { return R1[s.draw(R1.size())]; }
  V1 other1(const V1& a) { if (s.chance(1, 8)) return cp1(reg1()); vector<size_t> c; for (size_t i = 0; i < R1.size(); i++) if (ap_environment_is_eq(R1[i].env, a.env)) c.push_back(i); if (c.size() && s.chance(2, 3)) return cp1(R1[c[s.draw(c.size())]]); return fresh1(em(a.env)); }
  // an environment included in that of a (or not, for an invalid argument)
  EM sub(const V1& a) { EM e = em(a.env), r; if (bd()) return genv(true); for (auto& x : e.i) if (!s.chance(1, 4)) r.i.insert(x); for (auto& x : e.r) if (!s.chance(1, 4)) r.r.insert(x); return r; }
  string gvar(const V1& a) { EM e = em(a.env); return e.n() && !bd() ? e.var(s.draw(e.n())) : s.coin() ? string("zz") : nm(); }
  vector<string> gvars(const V1& a, int k) { vector<string> v; for (int i = 0; i < k; i++) { string x = gvar(a); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); } return v; }
  typedef ax::abstract1 A; typedef std::function<void(A&)> In1; typedef std::function<A&(A&, const A&)> Ds1;
  void compute1(const V1& a0, const std::function<V1(V1*)>& cf, vector<In1> in, vector<Ds1> dst) { V1 base = cp1(a0), k = cp1(base); V1 cr = c([&] { V1 t = cp1(base); return cf(&t); }); int nv = in.size() + 3 * dst.size(), w = s.draw(nv);
    if (w < (int)in.size()) { XA1 z(cp1(base)); label("in place"); x([&] { in[w](z); }); if (agree()) eq1(cr, g1(z), "value"); else { if (!g1(z).abstract0 || !g1(z).env) bad("null", what + ": null value after the exception"); str(g1(z).abstract0); } }
    else { w -= in.size(); auto& f = dst[w / 3]; int al = w % 3; static const char* an[] = {"into another value", "into its argument", "into a value of another environment"}; label(an[al]); TR("    " << an[al]); XA1 z(cp1(base)); XA1 o(al == 2 ? fresh1(genv()) : cp1(reg1())); A& t = al == 1 ? (A&)z : o; V1 kt = cp1(g1(t)); A* r = nullptr; x([&] { r = &f(t, z); }); if (agree()) { eq1(cr, g1(t), "value"); if (r != &t) bad("result", what + ": the function does not return its destination"); } else eq1(kt, g1(t), "destination changed by an exception"); if (al != 1) eq1(k, g1(z), "argument changed"); fr1(kt); }
    if (oc.e == AP_EXC_NONE && em(cr.env).n() <= 7) { size_t i = s.draw(R1.size()); std::swap(R1[i], cr); } fr1(cr); fr1(k); fr1(base); clr(); }
  ax::linexpr1 glin1(const EM& e) { Lin l = gen_lin(s, e.n(), lc); TR("    " << S(l) << " on " << S(e)); ap_linexpr0_t* p = mk_lin(l); ax::linexpr1 r(xe(e), *reinterpret_cast<ax::linexpr0*>(p)); ap_linexpr0_free(p); return r; }
  ax::texpr1 gte1(const EM& e) { T t = gen_te(s, e.n(), tc, 2); TR("    " << S(t) << " on " << S(e)); ap_texpr0_t* p = mk_te(t); ax::texpr1 r(xe(e), *reinterpret_cast<ax::texpr0*>(p)); ap_texpr0_free(p); return r; }
  ax::lincons1_array glinconss1(const EM& e) { vector<Cons> v; int k = s.range(0, 3); for (int i = 0; i < k; i++) { Cons q; q.e = gen_lin(s, e.n(), lc); q.t = gentype(false); v.push_back(q); } TR("    " << SV(v) << " on " << S(e)); ap_lincons0_array_t l = mk_cons_array(v); ax::lincons1_array r(xe(e), as<ax::lincons0_array>(l)); ap_lincons0_array_clear(&l); return r; }
  ax::tcons1_array gtconss1(const EM& e) { vector<TCons> v; int k = s.range(0, 2); for (int i = 0; i < k; i++) { TCons q; q.e = gen_te(s, e.n(), tc, 2); q.t = gentype(false); v.push_back(q); } TR("    " << SV(v) << " on " << S(e)); ap_tcons0_array_t l = mk_tcons_array(v); ax::tcons1_array r(xe(e), as<ax::tcons0_array>(l)); ap_tcons0_array_clear(&l); return r; }
  void p_binary() { V1 a = cp1(reg1()), b = other1(a); XA1 xb(cp1(b)); V1 kb = cp1(b); switch (s.draw(5)) {
    case 0: start("1-meet", ""); compute1(a, [&](V1* v) { return ap_abstract1_meet(m, true, v, &b); }, {[&](A& z) { z.meet(xm, xb); }, [&](A& z) { z *= xb; }}, {[&](A& t, const A& z) -> A& { return meet(xm, t, z, xb); }}); break;
    case 1: start("1-join", ""); compute1(a, [&](V1* v) { return ap_abstract1_join(m, true, v, &b); }, {[&](A& z) { z.join(xm, xb); }, [&](A& z) { z += xb; }}, {[&](A& t, const A& z) -> A& { return join(xm, t, z, xb); }}); break;
    case 2: { V1 u = fresh1(genv(s.chance(1, 8))); XA1 xu(cp1(u)); start("1-unify", ""); compute1(a, [&](V1* v) { return ap_abstract1_unify(m, true, v, &u); }, {[&](A& z) { z.unify(xm, xu); }}, {[&](A& t, const A& z) -> A& { return unify(xm, t, z, xu); }}); eq1(u, g1(xu), "argument changed"); fr1(u); break; }
    default: { V1 j = ap_environment_is_eq(a.env, b.env) ? ap_abstract1_join(m, false, &a, &b) : cp1(b); clr(); XA1 xj(cp1(j)); start("1-widening", ""); auto fin = [&](V1* v, V1 r) { ap_abstract1_clear(m, v); return r; }; if (s.coin()) compute1(a, [&](V1* v) { V1 r = ap_abstract1_widening(m, v, &j); return fin(v, r); }, {}, {[&](A& t, const A& z) -> A& { return widening(xm, t, z, xj); }}); else { what = "with thresholds"; ax::lincons1_array l = glinconss1(sub(a)), l2(l); compute1(a, [&](V1* v) { V1 r = ap_abstract1_widening_threshold(m, v, &j, l.get_ap_lincons1_array_t()); return fin(v, r); }, {}, {[&](A& t, const A& z) -> A& { return widening(xm, t, z, xj, l2); }}); } fr1(j); break; } }
    eq1(kb, b, "argument changed"); eq1(kb, g1(xb), "argument changed"); fr1(kb); fr1(b); fr1(a); }
  void p_arrays() { V1 a = cp1(reg1()); int k = s.range(1, 4); vector<V1> v; vector<const A*> xs; std::vector<std::unique_ptr<XA1>> hold; for (int i = 0; i < k; i++) { V1 g = other1(a); v.push_back(g); hold.emplace_back(new XA1(cp1(g))); xs.push_back(hold.back().get()); } bool mt = s.coin(); start(mt ? "1-meet" : "1-join", "of " + std::to_string(k) + " values"); V1 r = c([&] { return mt ? ap_abstract1_meet_array(m, v.data(), k) : ap_abstract1_join_array(m, v.data(), k); }); XA1 o(cp1(reg1())); A& t = s.coin() ? (A&)*hold[s.draw(k)] : o; V1 kt = cp1(g1(t)); bool w = s.coin();
    x([&] { if (w) { if (mt) meet(xm, t, xs); else join(xm, t, xs); } else { if (mt) meet(xm, t, (size_t)k, xs.data()); else join(xm, t, (size_t)k, xs.data()); } }); if (agree()) eq1(r, g1(t), "value"); else eq1(kt, g1(t), "destination changed by an exception"); fr1(kt); fr1(r); fr1(a); for (auto& g : v) fr1(g); }
  void p_constraints() { const V1 a = cp1(reg1()); switch (s.draw(3)) {
    case 0: { start("1-meet", "with linear constraints"); ax::lincons1_array l = glinconss1(sub(a)), l2(l); compute1(a, [&](V1* v) { return ap_abstract1_meet_lincons_array(m, true, v, l.get_ap_lincons1_array_t()); }, {[&](A& z) { z.meet(xm, l2); }, [&](A& z) { z *= l2; }}, {[&](A& t, const A& z) -> A& { return meet(xm, t, z, l2); }}); break; }
    case 1: { start("1-meet", "with tree constraints"); ax::tcons1_array l = gtconss1(sub(a)), l2(l); compute1(a, [&](V1* v) { return ap_abstract1_meet_tcons_array(m, true, v, l.get_ap_tcons1_array_t()); }, {[&](A& z) { z.meet(xm, l2); }, [&](A& z) { z *= l2; }}, {[&](A& t, const A& z) -> A& { return meet(xm, t, z, l2); }}); break; }
    case 2: { start("1-add_rays", ""); EM e = sub(a); int k = s.range(0, 2); ap_generator0_array_t g = ap_generator0_array_make(k); for (int i = 0; i < k; i++) { Lin l = gen_lin(s, e.n(), lc); for (auto& q : l.c) if (!q.sing()) q = I(Q(1)); l.k = I(Q(0)); g.p[i] = ap_generator0_make(s.coin() ? AP_GEN_RAY : AP_GEN_LINE, mk_lin(l)); } ax::generator1_array l(xe(e), as<ax::generator0_array>(g)), l2(l); ap_generator0_array_clear(&g); compute1(a, [&](V1* v) { return ap_abstract1_add_ray_array(m, true, v, l.get_ap_generator1_array_t()); }, {[&](A& z) { z.add_rays(xm, l2); }, [&](A& z) { z += l2; }}, {[&](A& t, const A& z) -> A& { return add_rays(xm, t, z, l2); }}); break; } } fr1(a); }
  void p_assign() { const V1 a = cp1(reg1()); vector<string> ns = gvars(a, s.range(1, 3)); size_t k = ns.size(); auto v = vs(ns); vector<ap_var_t> cv; for (auto& y : v) cv.push_back(y.get_ap_var_t()); bool subst = s.coin(), one = k == 1 && s.coin(), withd = s.chance(1, 3); V1 dv = withd ? other1(a) : V1{nullptr, nullptr}; std::unique_ptr<XA1> xd(withd ? new XA1(cp1(dv)) : nullptr); const A* D = xd.get(); V1* CD = withd ? &dv : nullptr; vector<In1> in; vector<Ds1> dst; const size_t kk = k; for (auto& q : ns) TR("    " << q);
#define BOTH1(F) if (one) { in.push_back([&](A& z) { if (D) z.F(xm, v[0], *xs[0], *D); else z.F(xm, v[0], *xs[0]); }); dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, v[0], *xs[0], *D) : F(xm, t, z, v[0], *xs[0]); }); } \
    in.push_back([&](A& z) { if (D) z.F(xm, v, xs, *D); else z.F(xm, v, xs); }); in.push_back([&](A& z) { if (D) z.F(xm, kk, v.data(), xs.data(), *D); else z.F(xm, kk, v.data(), xs.data()); }); dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, v, xs, *D) : F(xm, t, z, v, xs); }); dst.push_back([&](A& t, const A& z) -> A& { return D ? F(xm, t, z, kk, v.data(), xs.data(), *D) : F(xm, t, z, kk, v.data(), xs.data()); });
    if (s.coin()) { start(subst ? "1-substitute" : "1-assign", "linear"); vector<ax::linexpr1> es; for (size_t i = 0; i < k; i++) es.push_back(glin1(sub(a))); vector<const ax::linexpr1*> xs; vector<ap_linexpr1_t> ce; for (auto& e : es) { xs.push_back(&e); ce.push_back(*e.get_ap_linexpr1_t()); } if (subst) { BOTH1(substitute) } else { BOTH1(assign) }
      compute1(a, [&](V1* z) { return subst ? ap_abstract1_substitute_linexpr_array(m, true, z, cv.data(), ce.data(), k, CD) : ap_abstract1_assign_linexpr_array(m, true, z, cv.data(), ce.data(), k, CD); }, in, dst); }
    else { start(subst ? "1-substitute" : "1-assign", "tree"); vector<ax::texpr1> es; for (size_t i = 0; i < k; i++) es.push_back(gte1(sub(a))); vector<const ax::texpr1*> xs; vector<ap_texpr1_t> ce; for (auto& e : es) { xs.push_back(&e); ce.push_back(*e.get_ap_texpr1_t()); } if (subst) { BOTH1(substitute) } else { BOTH1(assign) }
      compute1(a, [&](V1* z) { return subst ? ap_abstract1_substitute_texpr_array(m, true, z, cv.data(), ce.data(), k, CD) : ap_abstract1_assign_texpr_array(m, true, z, cv.data(), ce.data(), k, CD); }, in, dst); }
    if (withd) { eq1(dv, g1(*xd), "argument changed"); fr1(dv); } fr1(a); }
  void p_env() { const V1 a = cp1(reg1()); EM ea = em(a.env); switch (s.draw(6)) {
    case 0: { vector<string> ns = gvars(a, s.range(ea.n() ? 1 : 0, 2)); auto v = vs(ns); vector<ap_var_t> cv; for (auto& y : v) cv.push_back(y.get_ap_var_t()); bool p = s.coin(); start("1-forget", p ? "project" : ""); vector<In1> in; vector<Ds1> dst; if (v.size() == 1) { in.push_back([&](A& z) { z.forget(xm, v[0], p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, v[0], p); }); } in.push_back([&](A& z) { z.forget(xm, v, p); }); in.push_back([&](A& z) { z.forget(xm, v.size(), v.data(), p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, v, p); }); dst.push_back([&](A& t, const A& z) -> A& { return forget(xm, t, z, v.size(), v.data(), p); }); compute1(a, [&](V1* z) { return ap_abstract1_forget_array(m, true, z, cv.data(), cv.size(), p); }, in, dst); break; }
    case 1: { EM b = genv(bd()); ax::environment e = xe(b); bool p = s.coin(); start("1-change_environment", S(b)); compute1(a, [&](V1* z) { return ap_abstract1_change_environment(m, true, z, e.get_ap_environment_t(), p); }, {[&](A& z) { if (p) z.change_environment(xm, e, p); else z.change_environment(xm, e); }}, {[&](A& t, const A& z) -> A& { return p ? change_environment(xm, t, z, e, p) : change_environment(xm, t, z, e); }}); break; }
    case 2: start("1-minimize_environment", ""); compute1(a, [&](V1* z) { return ap_abstract1_minimize_environment(m, true, z); }, {[&](A& z) { z.minimize_environment(xm); }}, {[&](A& t, const A& z) -> A& { return minimize_environment(xm, t, z); }}); break;
    case 3: { vector<string> from = gvars(a, s.range(0, 2)), to; for (size_t i = 0; i < from.size(); i++) { string y; do { y = s.coin() ? nm() : string("n") + char('0' + s.draw(4)); } while (std::find(to.begin(), to.end(), y) != to.end() || (ea.has(y) && !s.chance(1, 10))); to.push_back(y); } auto f = vs(from), g = vs(to); vector<ap_var_t> cf, cg; for (auto& y : f) cf.push_back(y.get_ap_var_t()); for (auto& y : g) cg.push_back(y.get_ap_var_t()); start("1-rename", ""); compute1(a, [&](V1* z) { return ap_abstract1_rename_array(m, true, z, cf.data(), cg.data(), cf.size()); }, {[&](A& z) { z.rename(xm, f, g); }, [&](A& z) { z.rename(xm, f.size(), f.data(), g.data()); }}, {[&](A& t, const A& z) -> A& { return rename(xm, t, z, f, g); }, [&](A& t, const A& z) -> A& { return rename(xm, t, z, f.size(), f.data(), g.data()); }}); break; }
    case 4: { string v = gvar(a); vector<string> to; for (int i = s.range(0, 2); i > 0; i--) { string y = s.coin() ? nm() : string("n") + char('0' + s.draw(4)); if (std::find(to.begin(), to.end(), y) == to.end() && (!ea.has(y) || s.chance(1, 10))) to.push_back(y); } ax::var xv(v); auto g = vs(to); vector<ap_var_t> cg; for (auto& y : g) cg.push_back(y.get_ap_var_t()); start("1-expand", v); compute1(a, [&](V1* z) { return ap_abstract1_expand(m, true, z, xv.get_ap_var_t(), cg.data(), cg.size()); }, {[&](A& z) { z.expand(xm, xv, g); }, [&](A& z) { z.expand(xm, xv, g.size(), g.data()); }}, {[&](A& t, const A& z) -> A& { return expand(xm, t, z, xv, g); }, [&](A& t, const A& z) -> A& { return expand(xm, t, z, xv, g.size(), g.data()); }}); break; }
    case 5: { vector<string> ns; bool it = ea.i.size() && (ea.r.empty() || s.coin()); for (auto& y : it ? ea.i : ea.r) if (s.coin()) ns.push_back(y); if (bd()) ns.push_back("zz"); if (ns.empty()) break; for (size_t i = 0; i < ns.size(); i++) std::swap(ns[i], ns[s.draw(i + 1)]); auto v = vs(ns); vector<ap_var_t> cv; for (auto& y : v) cv.push_back(y.get_ap_var_t()); start("1-fold", ""); compute1(a, [&](V1* z) { return ap_abstract1_fold(m, true, z, cv.data(), cv.size()); }, {[&](A& z) { z.fold(xm, v); }, [&](A& z) { z.fold(xm, v.size(), v.data()); }}, {[&](A& t, const A& z) -> A& { return fold(xm, t, z, v); }, [&](A& t, const A& z) -> A& { return fold(xm, t, z, v.size(), v.data()); }}); break; } } fr1(a); }
  void p_repr() { const V1 a = cp1(reg1()); switch (s.draw(4)) {
    case 0: start("1-closure", ""); compute1(a, [&](V1* v) { return ap_abstract1_closure(m, true, v); }, {[&](A& z) { z.closure(xm); }}, {[&](A& t, const A& z) -> A& { return closure(xm, t, z); }}); break;
    case 1: start("1-minimize", ""); compute1(a, [&](V1* v) { ap_abstract1_minimize(m, v); return *v; }, {[&](A& z) { z.minimize(xm); }}, {}); break;
    case 2: start("1-canonicalize", ""); compute1(a, [&](V1* v) { ap_abstract1_canonicalize(m, v); return *v; }, {[&](A& z) { z.canonicalize(xm); }}, {}); break;
    case 3: { int al = s.draw(4); start("1-approximate", std::to_string(al)); compute1(a, [&](V1* v) { ap_abstract1_approximate(m, v, al); return *v; }, {[&](A& z) { z.approximate(xm, al); }}, {}); break; } } fr1(a); }
  void p_make() { V1 a = cp1(reg1()); EM e = s.coin() ? em(a.env) : genv(); ax::environment E = xe(e), EA = xe(em(a.env)); int k = s.draw(6); auto go = [&](const std::function<V1()>& cf, const std::function<A*()>& ctor, vector<In1> asg) { V1 q = c(cf); size_t w = s.draw(1 + asg.size()); if (!ctor) w = 1 + s.draw(asg.size()); XA1 z(cp1(a)); A* p = nullptr; V1 kz = cp1(a); x([&] { if (w == 0) p = ctor(); else asg[w - 1](z); }); if (agree()) eq1(q, g1(p ? *p : (A&)z), "value"); else eq1(kz, g1(z), "value changed by an exception"); delete p; fr1(kz); fr1(q); }; bool own = s.coin();
    switch (k) {
    case 0: start("1-make", "top"); if (own) go([&] { return ap_abstract1_top(m, EA.get_ap_environment_t()); }, nullptr, {[&](A& z) { z = ax::top(); }, [&](A& z) { z.set(xm, ax::top()); }}); else go([&] { return ap_abstract1_top(m, E.get_ap_environment_t()); }, [&] { return new A(xm, E, ax::top()); }, {[&](A& z) { z.set(xm, E, ax::top()); }}); break;
    case 1: start("1-make", "bottom"); if (own) go([&] { return ap_abstract1_bottom(m, EA.get_ap_environment_t()); }, nullptr, {[&](A& z) { z = ax::bottom(); }, [&](A& z) { z.set(xm, ax::bottom()); }}); else go([&] { return ap_abstract1_bottom(m, E.get_ap_environment_t()); }, [&] { return new A(xm, E, ax::bottom()); }, {[&](A& z) { z.set(xm, E, ax::bottom()); }}); break;
    case 2: { start("1-make", "a box"); if (own) { EM ea = em(a.env); vector<I> b; for (size_t j = 0; j < ea.n(); j++) b.push_back(gen_itv(s, pc)); ap_interval_t** t = mk_box(b); ax::interval_array y(ea.n() + s.draw(2)); for (size_t j = 0; j < b.size(); j++) ap_interval_set(y[j].get_ap_interval_t(), t[j]); go([&] { V1 r; r.env = ap_environment_copy(EA.get_ap_environment_t()); r.abstract0 = ap_abstract0_of_box(m, ea.i.size(), ea.r.size(), t); return r; }, nullptr, {[&](A& z) { z = y; }, [&](A& z) { z.set(xm, y); }}); free_box(t, b.size()); }
      else { vector<string> ns; for (size_t j = 0; j < e.n(); j++) if (s.coin()) ns.push_back(e.var(j)); if (bd()) ns.push_back("zz"); auto v = vs(ns); vector<ap_var_t> cv; for (auto& q : v) cv.push_back(q.get_ap_var_t()); vector<I> b; for (size_t j = 0; j < ns.size(); j++) b.push_back(gen_itv(s, pc)); ap_interval_t** t = mk_box(b); ax::interval_array y(ns.size()); for (size_t j = 0; j < b.size(); j++) ap_interval_set(y[j].get_ap_interval_t(), t[j]); go([&] { return ap_abstract1_of_box(m, E.get_ap_environment_t(), cv.data(), t, cv.size()); }, [&] { return s.coin() ? new A(xm, E, v, y) : new A(xm, E, v.data(), y); }, {[&](A& z) { z.set(xm, E, v, y); }, [&](A& z) { z.set(xm, E, v.data(), y); }}); free_box(t, b.size()); } break; }
    case 3: { start("1-make", "linear constraints"); ax::lincons1_array l = glinconss1(e), l2(l); go([&] { return ap_abstract1_of_lincons_array(m, E.get_ap_environment_t(), l.get_ap_lincons1_array_t()); }, [&] { return new A(xm, l2); }, {[&](A& z) { z = l2; }, [&](A& z) { z.set(xm, l2); }}); break; }
    case 4: { start("1-make", "tree constraints"); ax::tcons1_array l = gtconss1(e), l2(l); go([&] { return ap_abstract1_of_tcons_array(m, E.get_ap_environment_t(), l.get_ap_tcons1_array_t()); }, [&] { return new A(xm, l2); }, {[&](A& z) { z = l2; }, [&](A& z) { z.set(xm, l2); }}); break; }
    case 5: { start("1-copy", ""); V1 b = cp1(reg1()); XA1 y(cp1(b)); go([&] { return cp1(b); }, [&] { return s.coin() ? new A(y) : s.coin() ? new A(xm, y) : new A(xm, xe(em(b.env)), y.get_abstract0()); }, {[&](A& z) { z = y; }, [&](A& z) { z.set(xm, y); }}); eq1(b, g1(y), "argument changed"); y = y; eq1(b, g1(y), "argument changed"); fr1(b); break; } } fr1(a); }
  void p_query() { V1 a = cp1(reg1()); XA1 z(cp1(a)); V1 kz = cp1(a); EM ea = em(a.env); switch (s.draw(11)) {
    case 0: start("1-is_bottom", ""); query([&] { return ap_abstract1_is_bottom(m, &a); }, [&] { return z.is_bottom(xm); }); break;
    case 1: start("1-is_top", ""); query([&] { return ap_abstract1_is_top(m, &a); }, [&] { return z.is_top(xm); }); break;
    case 2: case 3: { V1 b = s.chance(1, 4) ? cp1(a) : other1(a); XA1 y(cp1(b)); bool comp = ap_environment_is_eq(a.env, b.env); start("1-compare", ""); switch (s.draw(7)) {
      case 0: query([&] { return ap_abstract1_is_eq(m, &a, &b); }, [&] { return z.is_eq(xm, y); }); break; case 1: query([&] { return ap_abstract1_is_leq(m, &a, &b); }, [&] { return z.is_leq(xm, y); }); break; case 2: what = "=="; query([&] { return ap_abstract1_is_eq(m, &a, &b); }, [&] { return z == y; }); break; case 3: what = "!="; query([&] { return !ap_abstract1_is_eq(m, &a, &b); }, [&] { return z != y; }); break; case 4: what = "<="; query([&] { return ap_abstract1_is_leq(m, &a, &b); }, [&] { return z <= y; }); break; case 5: what = ">="; query([&] { return ap_abstract1_is_leq(m, &b, &a); }, [&] { return z >= y; }); break;
      case 6: { if (!comp) break; bool gt = s.coin(); what = gt ? "> (strictly contains)" : "< (strictly included)"; bool l = ap_abstract1_is_leq(m, &a, &b), g = ap_abstract1_is_leq(m, &b, &a); clr(); bool q = gt ? z > y : z < y; clr(); if (q != (gt ? g && !l : l && !g)) bad("strict", "operator " + what + " of " + str(a.abstract0) + " and " + str(b.abstract0) + " is " + std::to_string(q)); ok++; break; } } fr1(b); break; }
    case 4: { start("1-sat", "linear"); EM e = sub(a); ax::linexpr1 l = glin1(e); ax::lincons1 k(gentype(false), l); query([&] { return ap_abstract1_sat_lincons(m, &a, k.get_ap_lincons1_t()); }, [&] { return z.sat(xm, k); }); break; }
    case 5: { start("1-sat", "tree"); EM e = sub(a); ax::texpr1 l = gte1(e); ax::tcons1 k(gentype(false), ax::texpr1::builder(l)); query([&] { return ap_abstract1_sat_tcons(m, &a, k.get_ap_tcons1_t()); }, [&] { return z.sat(xm, k); }); break; }
    case 6: { start("1-sat", "interval"); ax::var v(gvar(a)); ap_interval_t* i = mk_interval(gen_itv(s, pc), 0, 0); query([&] { return ap_abstract1_sat_interval(m, &a, v.get_ap_var_t(), i); }, [&] { return z.sat(xm, v, *reinterpret_cast<ax::interval*>(i)); }); ap_interval_free(i); break; }
    case 7: { start("1-unconstrained", ""); ax::var v(gvar(a)); query([&] { return ap_abstract1_is_variable_unconstrained(m, &a, v.get_ap_var_t()); }, [&] { return z.is_variable_unconstrained(xm, v); }); start("1-size", ""); query([&] { return ap_abstract1_size(m, &a); }, [&] { return z.size(xm); }); what = "get_environment"; cke(z.get_environment(), ea, "env-of"); ax::manager g = z.get_manager(); if (g.get_ap_manager_t() != m) bad("manager", "get_manager"); eq(a.abstract0, get(z.get_abstract0()), "get_abstract0"); break; }
    case 8: case 9: { int k = s.draw(3); start("1-bound", k == 0 ? "linear" : k == 1 ? "tree" : "variable"); ax::var v(gvar(a)); EM e = sub(a); ax::linexpr1 l = glin1(e); ax::texpr1 t = gte1(e); ap_interval_t* r = c([&] { return k == 0 ? ap_abstract1_bound_linexpr(m, &a, l.get_ap_linexpr1_t()) : k == 1 ? ap_abstract1_bound_texpr(m, &a, t.get_ap_texpr1_t()) : ap_abstract1_bound_variable(m, &a, v.get_ap_var_t()); }); ax::interval q; x([&] { q = k == 0 ? z.bound(xm, l) : k == 1 ? z.bound(xm, t) : z.bound(xm, v); }); if (agree()) { I u = of_interval(r), w = of_interval(q.get_ap_interval_t()); if (u.lo != w.lo || u.hi != w.hi) bad("answer", what + ": C++ answers " + S(w) + " and C " + S(u)); } ap_interval_free(r); break; }
    case 10: { start("1-to_box", ""); ap_box1_t r = c([&] { return ap_abstract1_to_box(m, &a); }); ax::interval_array q((size_t)0); x([&] { q = z.to_box(xm); }); if (agree()) { if (q.size() != ea.n()) bad("answer", "to_box: wrong size"); for (size_t i = 0; i < ea.n(); i++) { I u = of_interval(r.p[i]), w = of_interval(q[i].get_ap_interval_t()); if (u.lo != w.lo || u.hi != w.hi) bad("answer", "to_box: C++ answers " + S(w) + " and C " + S(u)); } } ap_box1_clear(&r); break; } } eq1(kz, g1(z), "argument changed"); fr1(kz); fr1(a); }
  void p_convert() { V1 a = cp1(reg1()); XA1 z(cp1(a)); V1 kz = cp1(a); EM ea = em(a.env); switch (s.draw(6)) {
    case 0: { start("1-to_lincons_array", ""); ap_lincons1_array_t r = c([&] { return ap_abstract1_to_lincons_array(m, &kz); }); std::unique_ptr<ax::lincons1_array> q; x([&] { q.reset(new ax::lincons1_array(z.to_lincons_array(xm))); }); if (agree()) { string u = text([&](FILE* f) { ap_lincons1_array_fprint(f, &r); }), w = text([&](FILE* f) { q->print(f); }); if (u != w) bad("answer", "to_lincons_array: " + w + " instead of " + u); cke(q->get_environment(), ea, "env-of"); std::vector<ax::lincons1> v = *q; if (v.size() != q->size()) bad("answer", "size"); } ap_lincons1_array_clear(&r); break; }
    case 1: { start("1-to_tcons_array", ""); ap_tcons1_array_t r = c([&] { return ap_abstract1_to_tcons_array(m, &kz); }); std::unique_ptr<ax::tcons1_array> q; x([&] { q.reset(new ax::tcons1_array(z.to_tcons_array(xm))); }); if (agree()) { string u = text([&](FILE* f) { ap_tcons1_array_fprint(f, &r); }), w = text([&](FILE* f) { q->print(f); }); if (u != w) bad("answer", "to_tcons_array: " + w + " instead of " + u); cke(q->get_environment(), ea, "env-of"); std::vector<ax::tcons1> v = *q; if (v.size() != q->size()) bad("answer", "size"); } ap_tcons1_array_clear(&r); break; }
    case 2: { start("1-to_generator_array", ""); ap_generator1_array_t r = c([&] { return ap_abstract1_to_generator_array(m, &kz); }); std::unique_ptr<ax::generator1_array> q; x([&] { q.reset(new ax::generator1_array(z.to_generator_array(xm))); }); if (agree()) { string u = text([&](FILE* f) { ap_generator1_array_fprint(f, &r); }), w = text([&](FILE* f) { q->print(f); }); if (u != w) bad("answer", "to_generator_array: " + w + " instead of " + u); cke(q->get_environment(), ea, "env-of"); std::vector<ax::generator1> v = *q; if (v.size() != q->size()) bad("answer", "size"); } ap_generator1_array_clear(&r); break; }
    case 3: { start("1-print", ""); string u = c([&] { return text([&](FILE* f) { ap_abstract1_fprint(f, m, &kz); }); }), w; x([&] { w = text([&](FILE* f) { z.print(xm, f); }); }); if (agree() && u != w) bad("answer", "print: " + w + " instead of " + u); break; }
    case 4: { V1 b = cp1(a); EM e = sub(a); ax::linexpr1 l = glin1(e), l2(l); start("1-linexpr", ""); EM big = em(a.env); big.i.insert(e.i.begin(), e.i.end()); big.r.insert(e.r.begin(), e.r.end()); bool clash = false; for (auto& q : big.i) clash |= big.r.count(q) > 0; fr1(b); if (clash) break; Lin u = of_lin(l.get_linexpr0().get_ap_linexpr0_t() ? const_cast<ap_linexpr0_t*>(l.get_linexpr0().get_ap_linexpr0_t()) : nullptr, e.n()); ax::environment B = xe(big); ax::linexpr1 g(l, B); l2.extend_environment(B); for (auto* y : {&g, &l2}) { cke(y->get_environment(), big, "linexpr1-env"); Lin w = of_lin(y->get_linexpr0().get_ap_linexpr0_t(), big.n()); if (w.k.lo != u.k.lo || w.k.hi != u.k.hi) bad("linexpr1", "constant"); for (size_t q = 0; q < big.n(); q++) { string nmq = big.var(q); I want = e.has(nmq) ? u.c[e.dim(nmq)] : I(Q(0)); if (w.c[q].lo != want.lo || w.c[q].hi != want.hi) bad("linexpr1", "coefficient of " + nmq + " after the extension from " + S(e) + " to " + S(big)); I got = of_coeff((*y)[ax::var(nmq)].get_ap_coeff_t()); if (got.lo != want.lo || got.hi != want.hi) bad("linexpr1", "operator[] of " + nmq); } size_t cnt = 0; for (ax::linexpr1::iterator i = y->begin(); i.valid(); ++i) { ax::linexpr1::iterator j(i); if (j.get_dim() != i.get_dim()) bad("iterator1-copy", "a copy of an iterator at x" + std::to_string(i.get_dim()) + " is at x" + std::to_string(j.get_dim())); if ((string)i.get_var() != big.var(i.get_dim())) bad("iterator1", "get_var"); cnt++; } bool th = false; try { (*y)[ax::var("zz")]; } catch (const std::invalid_argument&) { th = true; } catch (const std::out_of_range&) { th = true; } if (!th) bad("linexpr1", "coefficient of a name outside"); } ok++;
      if (big.n()) { size_t q = s.draw(big.n()); ax::dim dd(B, ax::var(big.var(q))); if (dd.d != q) bad("dim", "apron::dim of " + big.var(q) + " in " + S(big) + " is " + std::to_string(dd.d)); }
      bool th = false; try { ax::dim dd(B, ax::var("zz")); } catch (const std::invalid_argument&) { th = true; } if (!th) bad("dim", "apron::dim of a name outside of the environment does not fail");
      break; }
    case 5: { start("1-serialize", ""); ap_membuf_t b = c([&] { return ap_abstract1_serialize_raw(m, &kz); }); std::string* sr = nullptr; x([&] { sr = z.serialize(xm); }); agree(); delete sr; free(b.ptr); break; } } eq1(kz, g1(z), "argument changed"); fr1(kz); fr1(a); }
  void run1() { TR(d.name); lc.num = pc; EM e = genv(); for (int i = 0; i < 3; i++) R1.push_back(fresh1(i == 2 && s.coin() ? genv() : e)); for (int i = s.range(1, 5); i > 0; i--) switch (s.weighted({3, 3, 2, 3, 4, 4, 2, 3, 4, 3})) { case 0: op_env(); break; case 1: p_binary(); break; case 2: p_arrays(); break; case 3: p_constraints(); break; case 4: p_assign(); break; case 5: p_env(); break; case 6: p_repr(); break; case 7: p_make(); break; case 8: p_query(); break; case 9: p_convert(); break; } if (ok) s.nontrivial = true; }
};
static void cxx1_case(Src& s, const vector<Dom>& all) { const Dom& d = all[s.draw(all.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); C1 w(s, d); w.run1(); }
static void cxx0_case(Src& s, const vector<Dom>& all) { const Dom& d = all[s.draw(all.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); CX w(s, d); w.run(); }
int main(int argc, char** argv) {
  vector<Prop> P; vector<Dom> v; for (auto& d : all_doms()) if (d.name == "boxMPQ" || d.name == "octMPQ" || d.name == "octD" || d.name == "pkMPQ" || d.name == "pkstrictMPQ") v.push_back(d);
  { Prop p; p.id = "cxx0"; p.rule = "histories over 2-3 level 0 values in which each step calls one C function and one C++ overload of it (in place, into another value, into its own argument) on copies of the same arguments, 1 argument in 12 being invalid, and compares values, answers, flags, exceptions and arguments; non-trivial: at least one call that succeeds"; p.quick = 40000; p.thorough = 1000000; p.fn = [v](Src& s) { cxx0_case(s, v); }; P.push_back(p); }
  { Prop p; p.id = "cxx1"; p.rule = "as cxx0 on level 1 values over environments drawn from 6 names (expressions, constraints and generators on sub-environments, 1 argument in 12 invalid), and environment operations (add, remove, rename, lce of 2 or more, comparisons, with permutations and dimension changes) against a model made of two sets of names; non-trivial: at least one call that succeeds"; p.quick = 40000; p.thorough = 1000000; p.fn = [v](Src& s) { cxx1_case(s, v); }; P.push_back(p); }
  return engine_main(argc, argv, P); }
