// Laws relating the results of several operations on the same abstract values:
// order and lattice laws, convergence of widenings, purity of the functional interface, round trips.
#include "ops.hpp"
#include <functional>
struct Laws : Ops {
  using Ops::Ops; typedef ap_abstract0_t* V; vector<V> tmp; bool quietobs = true;
  void check_obs(Reg& r) override { if (!quietobs) World::check_obs(r); }
  ~Laws() { if (std::uncaught_exceptions()) return; for (auto v : tmp) ap_abstract0_free(m, v); }
  V keep(V v) { if (!v) bad("null", "operation returned a null value"); tmp.push_back(v); return v; }
  bool notimpl() { if (m->result.exn == AP_EXC_NOT_IMPLEMENTED) { m->result.exn = AP_EXC_NONE; return true; } exn(); return false; }
  V cp(V a) { V r = ap_abstract0_copy(m, a); exn(); return keep(r); }
  V join(V a, V b) { crumb((d.name + ":join").c_str()); V r = ap_abstract0_join(m, false, a, b); exn(); return keep(r); }
  V meet(V a, V b) { crumb((d.name + ":meet").c_str()); V r = ap_abstract0_meet(m, false, a, b); exn(); return keep(r); }
  V top() { V r = ap_abstract0_top(m, id, rd); exn(); return keep(r); }
  V bot() { V r = ap_abstract0_bottom(m, id, rd); exn(); return keep(r); }
  bool leq(V a, V b) { crumb((d.name + ":is_leq").c_str()); bool r = ap_abstract0_is_leq(m, a, b); exn(); return r; }
  bool eq(V a, V b) { crumb((d.name + ":is_eq").c_str()); bool r = ap_abstract0_is_eq(m, a, b); exn(); return r; }
  bool isbot(V a) { bool r = ap_abstract0_is_bottom(m, a); exn(); return r; }
  bool istop(V a) { bool r = ap_abstract0_is_top(m, a); exn(); return r; }
  bool isgrid() { return d.grid; }
  vector<I> box(V a) { crumb((d.name + ":to_box").c_str()); vector<I> v; ap_dimension_t dd = ap_abstract0_dimension(m, a); size_t k = dd.intdim + dd.realdim; ap_interval_t** t = ap_abstract0_to_box(m, a); exn(); for (size_t i = 0; i < k; i++) v.push_back(of_interval(t[i])); if (t) ap_interval_array_free(t, k); return v; }
  vector<Cons> cons(V a) { crumb((d.name + ":to_lincons").c_str()); ap_dimension_t dd = ap_abstract0_dimension(m, a); ap_lincons0_array_t x = ap_abstract0_to_lincons_array(m, a); exn(); vector<Cons> v = of_cons_array(&x, dd.intdim + dd.realdim); ap_lincons0_array_clear(&x); return v; }
  string text(V a) { string r = SV(box(a)); vector<string> c; for (auto& x : cons(a)) c.push_back(S(x)); std::sort(c.begin(), c.end()); for (auto& x : c) r += "; " + x; return r; }
  string show(V a) { return "{" + text(cp(a)) + "}"; }
  void need(bool b, const char* law, vector<V> vs, const string& more = "") { if (b) return; string t = string(law) + " fails " + more + " for "; for (auto v : vs) t += show(v) + " "; fail(d.name + ":" + op + ":" + law, t); }
  // the same set, as far as can be observed
  void same(V a, V b, const char* law, vector<V> ctx = {}) {
    ap_dimension_t x = ap_abstract0_dimension(m, a), y = ap_abstract0_dimension(m, b); if (fails_dim(x, y.intdim, y.realdim)) bad(law, "different dimensions"); V a2 = cp(a), b2 = cp(b); bool e = eq(a, b); if (!e && fuzzy() && near(a2, b2)) return;
    if (!e) { string t = string(law) + ": results differ: {" + text(a2) + "} and {" + text(b2) + "}"; for (auto v : ctx) t += " from " + show(v); bad(law, t); }
    // is_eq is not believed alone
    if (s.coin()) { bool ea = isbot(a2), eb = isbot(b2); if (ea != eb) bad(law, "one result is empty, the other {" + text(ea ? b2 : a2) + "}"); if (!ea) { vector<I> p = box(a2), q = box(b2); if (SV(p) != SV(q) && !fuzzy()) bad(law, "bounds differ: " + SV(p) + " and " + SV(q)); } } }
  // floating-point closures are only reached up to rounding
  bool fuzzy() { return d.name == "octD"; }
  bool near(V a, V b) { if (isbot(cp(a)) || isbot(cp(b))) return true; box(a); box(b); vector<Cons> p = cons(a), q = cons(b); std::map<string, std::pair<vector<double>, vector<double>>> t; double big = 1; auto put = [&](const vector<Cons>& v, bool second) { for (auto& c : v) { Lin e = c.e; double k = e.k.lo.v.get_d(); big = std::max(big, std::fabs(k)); e.k = I(Q(0)); auto& x = t[S(e)]; (second ? x.second : x.first).push_back(k); } }; put(p, false); put(q, true); for (auto& x : t) { auto& f = x.second.first; auto& g = x.second.second; if (f.size() != 1 || g.size() != 1) return big > 1e6; if (std::fabs(f[0] - g[0]) > 1e-6 * big) return false; } return true; }
  V hist() { // some value
    Reg& r = reg(); return r.a; }
  // ------------------------------------------------------------------ C15
  void order() {
    V a = hist(), b = hist(), c = hist(); int k = s.draw(16); static const char* nm[] = {"reflexive", "bottom-top", "meet-lower", "join-upper", "antisymmetric", "transitive", "hash", "commutative", "idempotent", "absorption", "arrays", "emptiness", "associative", "meet-leq", "least-upper", "greatest-lower"}; setop(nm[k]); TR("law " << nm[k]);
    switch (k) {
    case 0: need(leq(a, a), "leq(a,a)", {a}); need(eq(a, a), "eq(a,a)", {a}); { V x = cp(a); need(leq(a, x) && leq(x, a) && eq(x, a), "copy-equal", {a}); } break;
    case 1: need(leq(bot(), a), "bottom-least", {a}); need(leq(a, top()), "top-greatest", {a}); break;
    case 2: { V x = meet(a, b); need(leq(x, a) && leq(x, b), "meet-lower", {a, b, x}); break; }
    case 3: { V x = join(a, b); need(leq(a, x) && leq(b, x), "join-upper", {a, b, x}); break; }
    case 4: { bool e = eq(a, b), l = leq(a, b), g = leq(b, a); need(e == (l && g), "antisymmetric", {a, b}, "eq " + std::to_string(e) + " leq " + std::to_string(l) + " geq " + std::to_string(g)); need(eq(b, a) == e, "symmetric", {a, b}); break; }
    case 5: { V x = s.coin() ? meet(a, b) : a, y = x == a ? b : a, z = s.coin() ? join(y, c) : c; if (leq(x, y) && leq(y, z)) need(leq(x, z), "transitive", {x, y, z}); break; }
    case 6: { V x = s.coin() ? join(a, a) : s.coin() ? meet(a, join(a, b)) : cp(a); if (eq(a, x)) { label("hash:equal"); V a2 = cp(a), x2 = cp(x); int h = ap_abstract0_hash(m, a2); exn(); int g = ap_abstract0_hash(m, x2); exn(); need(h == g, "equal-hash", {a, x}); } break; }
    case 7: same(join(a, b), join(b, a), "join-commutative", {a, b}); same(meet(a, b), meet(b, a), "meet-commutative", {a, b}); break;
    case 8: same(join(a, a), a, "join-idempotent"); same(meet(a, a), a, "meet-idempotent"); same(join(a, bot()), a, "join-bottom"); same(meet(a, top()), a, "meet-top"); need(isbot(meet(a, bot())), "meet-bottom", {a}); need(istop(join(a, top())), "join-top", {a}); break;
    case 9: { V x = join(a, meet(a, b)), y = meet(a, join(a, b)); same(x, a, "absorb-join", {a, b}); same(y, a, "absorb-meet", {a, b}); break; }
    case 10: { V t[3] = {a, b, c}; int sz = s.range(1, 3); V x = keep(ap_abstract0_join_array(m, t, sz)); exn(); V y = keep(ap_abstract0_meet_array(m, t, sz)); exn(); V jx = a, my = a; for (int i = 1; i < sz; i++) { jx = join(jx, t[i]); my = meet(my, t[i]); } same(x, jx, "join-array", {a, b, c}); same(y, my, "meet-array", {a, b, c}); break; }
    case 11: need(isbot(cp(a)) == leq(a, bot()), "empty-leq", {a}); need(istop(cp(a)) == leq(top(), a), "top-leq", {a}); need(isbot(bot()) && istop(top()), "constants", {}); need(isbot(cp(a)) == eq(a, bot()), "empty-eq", {a}); break;
    case 12: if (d.flt) break; same(join(a, join(b, c)), join(join(a, b), c), "join-associative", {a, b, c}); same(meet(a, meet(b, c)), meet(meet(a, b), c), "meet-associative", {a, b, c}); break;
    case 13: { bool l = leq(a, b); V x = meet(a, b); bool e = eq(x, a); if (d.flt) { if (l) need(leq(a, x) || d.flt, "meet-leq", {a, b}); break; } need(l == e, "meet-leq", {a, b, x}); V y = join(a, b); need(l == eq(y, b), "join-leq", {a, b, y}); break; }
    case 14: { V x = join(c, a), j = join(a, b); V u = join(x, b); need(leq(j, u), "least-upper", {a, b, u}); break; }
    case 15: { V x = meet(c, a), u = meet(x, b), g = meet(a, b); need(leq(u, g), "greatest-lower", {a, b, u}); break; }
    } }
  void order_case() { run0(6); int k = s.range(1, 5); for (int i = 0; i < k; i++) order(); s.nontrivial = true; for (auto& r : R) if (!isbot(cp(r.a))) return; s.nontrivial = false; }
  // random values, with some history
  void run0(int maxsteps) { auto t = table(); int tot = 0; for (auto& o : t) tot += o.weight; int nr = 3; for (int i = 0; i < nr; i++) { R.emplace_back(); R.back() = fresh(); } int k = s.range(0, maxsteps); for (int i = 0; i < k; i++) { int v = s.draw(tot); size_t j = 0; while (v >= t[j].weight) v -= t[j++].weight; (this->*t[j].fn)(); } m->result.exn = AP_EXC_NONE;
    if (s.chance(1, 3)) { V x = meet(R[0].a, R[1].a); V y = ap_abstract0_copy(m, x); ap_abstract0_free(m, R[2].a); R[2].a = y; } }
  // ------------------------------------------------------------------ C16
  V point(const Pt& p) { vector<I> b; for (auto& q : p) b.push_back(I(q)); ap_interval_t** t = mk_box(b); V x = ap_abstract0_of_box(m, id, rd, t); exn(); free_box(t, p.size()); return keep(x); }
  void widen() {
    V x = cp(hist()); int lim = 150, grow = 0; bool any = false; Q scale = 1; int mode = s.draw(5); vector<Pt> dirs; for (int i = 0; i < 2; i++) { Pt v; for (size_t j = 0; j < n(); j++) v.push_back(Q(s.range(-2, 2))); dirs.push_back(v); } Pt at = R[0].w.empty() ? gen_pt() : R[0].w[0]; setop("widening"); TR("widening sequence, growth mode " << mode << " from " << S(at));
    bool thr = s.chance(1, 4); vector<Cons> tv; if (thr) { int k = s.range(1, 3); for (int i = 0; i < k; i++) { Cons c; c.e = genlin(); c.t = AP_CONS_SUPEQ; if (thr_shape(c)) { tv.push_back(c); TR("threshold " << S(c)); } } } ap_lincons0_array_t ta = mk_cons_array(tv); struct G { ap_lincons0_array_t* a; ~G() { ap_lincons0_array_clear(a); } } g{&ta};
    int steps = 0, still = 0;
    for (;; steps++) {
      size_t keepn = tmp.size(); Pt p = at; scale += mode == 0 ? Q(1) : mode == 1 ? scale : mode == 2 ? Q(s.range(0, 3)) : Q(1, 2);
      if (mode == 4) { p = gen_pt(); if (still > 3) for (size_t j = 0; j < n(); j++) p[j] = Q(qfloor(Q(at[j] + scale * dirs[0][j]))); }
      else for (size_t j = 0; j < n(); j++) { Q v = at[j] + scale * dirs[steps % 2][j] ; if (mode == 3) v = at[j] + dirs[steps % 2][j] * (2 - 1 / scale); if (isint(j)) v = Q(qfloor(v)); p[j] = v; }
      V y = point(p); if (leq(y, x)) { still++; if (still > 6) break; if (steps > 400) break; continue; } still = 0; any = true; grow++;
      V b = join(x, y); need(leq(x, b), "join-upper", {x, b}); V w;
      if (thr) { setop("widening_threshold"); V q = ap_abstract0_widening_threshold(m, x, b, &ta); if (m->result.exn == AP_EXC_NOT_IMPLEMENTED) { m->result.exn = AP_EXC_NONE; q = ap_abstract0_widening(m, x, b); } exn(); w = keep(q);
        for (auto& c : tv) { ap_lincons0_t k = mk_cons(c); bool h = ap_abstract0_sat_lincons(m, x, &k) && ap_abstract0_sat_lincons(m, b, &k); exn(); bool r = ap_abstract0_sat_lincons(m, w, &k); exn(); ap_lincons0_clear(&k); if (h && !r && !d.grid) bad("threshold", "threshold " + S(c) + " holds on both arguments " + show(x) + " and " + show(b) + " but not on the result " + show(w)); } }
      else { setop("widening"); w = keep(ap_abstract0_widening(m, x, b)); exn(); }
      need(leq(b, w), "above", {x, b, w}); TR("  + " << S(p) << " -> " << (TRON ? show(w) : string()));
      if (grow > lim) bad("diverges", "still growing after " + std::to_string(grow) + " widenings: " + show(w));
      V keepv = w; vector<V> nt(tmp.begin(), tmp.begin() + keepn); for (size_t i = keepn; i < tmp.size(); i++) if (tmp[i] != keepv) ap_abstract0_free(m, tmp[i]); nt.push_back(keepv); tmp = nt; x = keepv; if (s.exhausted() && steps > 400) break; }
    label("widenings:" + std::to_string(grow < 6 ? grow : grow < 12 ? 6 : grow < 30 ? 12 : 30)); s.nontrivial = any; }
  // restricts a threshold to what the domain can express
  bool thr_shape(Cons& c) { if (!c.e.scalar()) return false; string p = d.name.substr(0, 3); if (p != "box" && p != "oct" && !id) return true; size_t room = p == "box" ? 1 : p == "oct" ? 2 : n(), k = 0; if (id) c.e.k = I(Q(qfloor(c.e.k.lo.v))); if (p == "box" || d.flt) { c.e.k = I(Q(qfloor(c.e.k.lo.v))); if (abs(c.e.k.lo.v) > 1000000) c.e.k = I(Q(1)); } for (auto& x : c.e.c) if (x.lo.v != 0) { if (k++ < room) x = I(Q(sgn(x.lo.v))); else x = I(Q(0)); } return true; }
  void widen_case() { run0(4); widen(); }
  // ------------------------------------------------------------------ C17
  struct OpR { string name; std::function<V(bool, V)> f; vector<V> other; };
  OpR genop() {
    OpR o; int k = s.draw(17); V b = hist(); ap_manager_t* m = this->m; using std::make_shared;
    auto hold = [](auto* p, auto fr) { typedef typename std::remove_pointer<decltype(p)>::type TT; return std::shared_ptr<TT>(p, fr); };
    struct LA { ap_lincons0_array_t a; ~LA() { ap_lincons0_array_clear(&a); } }; struct TA { ap_tcons0_array_t a; ~TA() { ap_tcons0_array_clear(&a); } }; struct GA { ap_generator0_array_t a; ~GA() { ap_generator0_array_clear(&a); } };
    struct EA { vector<ap_linexpr0_t*> e; vector<ap_texpr0_t*> t; vector<ap_dim_t> d; ~EA() { for (auto x : e) ap_linexpr0_free(x); for (auto x : t) ap_texpr0_free(x); } };
    if (!n() && k >= 4 && k != 6) k = k % 4;
    switch (k) {
    case 0: o.name = "meet"; o.other = {b}; o.f = [=](bool d, V a) { return ap_abstract0_meet(m, d, a, b); }; break;
    case 1: o.name = "join"; o.other = {b}; o.f = [=](bool d, V a) { return ap_abstract0_join(m, d, a, b); }; break;
    case 2: case 3: { auto l = make_shared<LA>(); vector<Cons> v = genconss(reg()); l->a = mk_cons_array(v); o.name = "meet_lincons_array"; TR(o.name << " " << SV(v)); o.f = [=](bool d, V a) { return ap_abstract0_meet_lincons_array(m, d, a, &l->a); }; break; }
    case 4: { auto l = make_shared<TA>(); vector<TCons> v; int q = s.range(1, 2); for (int i = 0; i < q; i++) v.push_back(gentcons(reg())); l->a = mk_tcons_array(v); o.name = "meet_tcons_array"; TR(o.name << " " << SV(v)); o.f = [=](bool d, V a) { return ap_abstract0_meet_tcons_array(m, d, a, &l->a); }; break; }
    case 5: { auto l = make_shared<GA>(); l->a = ap_generator0_array_make(1); Lin e(n()); for (size_t j = 0; j < n(); j++) e.c[j] = I(Q(s.range(-2, 2))); bool z = true; for (auto& c : e.c) z &= c.lo.v == 0; if (z) e.c[0] = I(Q(1)); l->a.p[0] = ap_generator0_make(s.coin() ? AP_GEN_RAY : AP_GEN_LINE, mk_lin(e)); o.name = "add_ray_array"; o.f = [=](bool d, V a) { return ap_abstract0_add_ray_array(m, d, a, &l->a); }; break; }
    case 6: o.name = "closure"; o.f = [=](bool d, V a) { return ap_abstract0_closure(m, d, a); }; break;
    case 7: case 8: case 9: case 10: { auto l = make_shared<EA>(); bool sub = k >= 9, tx = k & 1; int q = s.weighted({4, 2}) + 1; for (int i = 0; i < q; i++) { ap_dim_t x = s.draw(n()); if (std::find(l->d.begin(), l->d.end(), x) != l->d.end()) continue; l->d.push_back(x); if (tx) { T t = gente(); TR("  x" << x << " " << S(t)); l->t.push_back(mk_te(t)); } else { Lin e = genlin(); TR("  x" << x << " " << S(e)); l->e.push_back(mk_lin(e)); } } V dst = s.chance(1, 4) ? b : nullptr; if (dst) o.other = {dst}; o.name = string(sub ? "substitute_" : "assign_") + (tx ? "texpr" : "linexpr") + (dst ? "-dest" : ""); TR(o.name);
      bool one = l->d.size() == 1 && s.coin();
      o.f = [=](bool d, V a) { size_t z = l->d.size(); if (one) { if (sub) return tx ? ap_abstract0_substitute_texpr(m, d, a, l->d[0], l->t[0], dst) : ap_abstract0_substitute_linexpr(m, d, a, l->d[0], l->e[0], dst); return tx ? ap_abstract0_assign_texpr(m, d, a, l->d[0], l->t[0], dst) : ap_abstract0_assign_linexpr(m, d, a, l->d[0], l->e[0], dst); } if (sub) return tx ? ap_abstract0_substitute_texpr_array(m, d, a, l->d.data(), l->t.data(), z, dst) : ap_abstract0_substitute_linexpr_array(m, d, a, l->d.data(), l->e.data(), z, dst); return tx ? ap_abstract0_assign_texpr_array(m, d, a, l->d.data(), l->t.data(), z, dst) : ap_abstract0_assign_linexpr_array(m, d, a, l->d.data(), l->e.data(), z, dst); }; break; }
    case 11: { auto l = make_shared<EA>(); l->d.push_back(s.draw(n())); bool p = s.coin(); o.name = p ? "forget-project" : "forget"; o.f = [=](bool d, V a) { return ap_abstract0_forget_array(m, d, a, l->d.data(), 1, p); }; break; }
    case 12: { auto c = hold(ap_dimchange_alloc(0, 1), ap_dimchange_free); c->dim[0] = id + s.draw(rd + 1); bool p = s.coin(); o.name = "add_dimensions"; o.f = [=](bool d, V a) { return ap_abstract0_add_dimensions(m, d, a, c.get(), p); }; break; }
    case 13: { ap_dim_t x = s.draw(n()); auto c = hold(ap_dimchange_alloc(x < id, x >= id), ap_dimchange_free); c->dim[0] = x; o.name = "remove_dimensions"; o.f = [=](bool d, V a) { return ap_abstract0_remove_dimensions(m, d, a, c.get()); }; break; }
    case 14: { auto p = hold(ap_dimperm_alloc(n()), ap_dimperm_free); ap_dimperm_set_id(p.get()); if (id >= 2) std::swap(p->dim[0], p->dim[s.draw(id)]); if (rd >= 2) std::swap(p->dim[id], p->dim[id + s.draw(rd)]); o.name = "permute_dimensions"; o.f = [=](bool d, V a) { return ap_abstract0_permute_dimensions(m, d, a, p.get()); }; break; }
    case 15: { ap_dim_t x = s.draw(n()); o.name = "expand"; int q = s.range(1, 2); o.f = [=](bool d, V a) { return ap_abstract0_expand(m, d, a, x, q); }; break; }
    default: { size_t lo = id, hi = n(); if (id >= 2 && s.coin()) { lo = 0; hi = id; } if (hi - lo < 2) { o.name = "join"; o.other = {b}; o.f = [=](bool d, V a) { return ap_abstract0_join(m, d, a, b); }; break; } auto l = make_shared<EA>(); ap_dim_t x = lo + s.draw(hi - lo - 1); l->d = {x, (ap_dim_t)(x + 1 + s.draw(hi - x - 1))}; o.name = "fold"; o.f = [=](bool d, V a) { return ap_abstract0_fold(m, d, a, l->d.data(), 2); }; break; } }
    return o; }
  void pure() {
    V a = hist(); int mode = s.draw(4);
    if (mode == 0) { // readers do not change what is denoted
      string t0 = text(cp(a)); V c = cp(a); static const char* nm[] = {"minimize", "canonicalize", "hash", "to_lincons", "to_generators", "to_box", "is_bottom", "is_leq", "size", "print", "bound_linexpr", "sat_lincons", "to_tcons", "meet", "join", "widening", "dump"}; int k = s.draw(17); setop(nm[k]); TR("reader " << nm[k]);
      switch (k) { case 0: ap_abstract0_minimize(m, a); break; case 1: ap_abstract0_canonicalize(m, a); break; case 2: ap_abstract0_hash(m, a); break; case 3: { auto x = ap_abstract0_to_lincons_array(m, a); ap_lincons0_array_clear(&x); break; } case 4: { auto x = ap_abstract0_to_generator_array(m, a); ap_generator0_array_clear(&x); break; } case 5: { auto x = ap_abstract0_to_box(m, a); if (x) ap_interval_array_free(x, n()); break; } case 6: isbot(a); istop(a); break; case 7: leq(a, hist()); eq(hist(), a); break; case 8: ap_abstract0_size(m, a); break;
        case 9: { char* b = nullptr; size_t z; FILE* f = open_memstream(&b, &z); ap_abstract0_fprint(f, m, a, nullptr); fclose(f); free(b); break; } case 10: { Lin l = genlin(); auto e = mk_lin(l); ap_interval_free(ap_abstract0_bound_linexpr(m, a, e)); ap_linexpr0_free(e); break; } case 11: { Cons q = gencons(R[0]); auto e = mk_cons(q); ap_abstract0_sat_lincons(m, a, &e); ap_lincons0_clear(&e); break; } case 12: { auto x = ap_abstract0_to_tcons_array(m, a); ap_tcons0_array_clear(&x); break; } case 13: meet(a, hist()); meet(hist(), a); break; case 14: join(a, hist()); join(hist(), a); break; case 15: { V j = join(a, hist()); keep(ap_abstract0_widening(m, a, j)); break; } default: { char* b = nullptr; size_t z; FILE* f = open_memstream(&b, &z); ap_abstract0_fdump(f, m, a); fclose(f); free(b); } }
      m->result.exn = AP_EXC_NONE; same(a, c, "argument-changed"); string t1 = text(cp(a)); if (t0 != t1 && !textok(k)) bad("argument-text", "the argument {" + t0 + "} became {" + t1 + "}"); s.nontrivial = true; return; }
    OpR o = genop(); setop(o.name.c_str());
    if (std::find(o.other.begin(), o.other.end(), a) != o.other.end() && mode != 1) return;
    vector<V> oth; vector<string> ot; for (auto v : o.other) { oth.push_back(cp(v)); ot.push_back(SV(box(cp(v)))); }
    string t0 = SV(box(cp(a))); V c = cp(a), keepc = cp(a);
    V r1 = keep(o.f(false, a)); if (notimpl()) return; 
    same(a, c, "argument-changed"); if (SV(box(cp(a))) != t0) bad("argument-text", "the argument " + t0 + " became " + SV(box(cp(a)))); for (size_t i = 0; i < oth.size(); i++) { same(o.other[i], oth[i], "second-argument-changed"); if (SV(box(cp(o.other[i]))) != ot[i]) bad("second-argument-text", "changed"); }
    if (mode == 1) { s.nontrivial = true; return; }
    // destructive version on a copy: same result, original kept
    if (mode == 2) { V q = ap_abstract0_copy(m, keepc); V r2 = o.f(true, q); exn(); keep(r2); if (!(d.flt && loose(o.name))) same(r1, r2, "destructive-differs", {keepc}); if (SV(box(cp(keepc))) != t0) bad("copy-changed", "the destructive version changed a copy of its argument"); same(a, c, "copy-changed"); }
    // later destructive operations on the result leave the argument alone
    else { OpR o2 = genop(); if (o2.other.size()) return; ap_dimension_t dd = ap_abstract0_dimension(m, r1); if (fails_dim(dd, id, rd)) return; string t1 = SV(box(cp(r1))); V q = ap_abstract0_copy(m, r1); V r3 = o2.f(true, q); exn(); keep(r3); if (SV(box(cp(r1))) != t1) bad("shared", o2.name + " on a copy changed the original " + t1 + " to " + SV(box(cp(r1)))); same(a, c, "argument-shared"); if (SV(box(cp(a))) != t0) bad("argument-shared", o2.name + " on the result changed the argument"); }
    s.nontrivial = true; }
  bool textok(int k) { return d.flt || k < 20; } // constraint systems may be rewritten
  bool loose(const string& n) { return false; }
  void pure_case() { run0(5); int k = s.range(1, 4); for (int i = 0; i < k; i++) pure(); }
  // ------------------------------------------------------------------ C20
  void trip() {
    V a = hist(); int k = s.draw(8); static const char* nm[] = {"lincons-trip", "tcons-trip", "box-trip", "generator-trip", "serialize-trip", "bounds-agree", "unconstrained", "sat-meet"}; setop(nm[k]); TR(nm[k]); s.nontrivial = !isbot(cp(a));
    switch (k) {
    case 0: case 1: { V b; if (k == 0) { ap_lincons0_array_t x = ap_abstract0_to_lincons_array(m, a); exn(); if (TRON) TR(SV(of_cons_array(&x, n()))); if (s.coin()) { b = keep(ap_abstract0_of_lincons_array(m, id, rd, &x)); } else { b = keep(ap_abstract0_meet_lincons_array(m, false, top(), &x)); } exn(); ap_lincons0_array_clear(&x); } else { ap_tcons0_array_t x = ap_abstract0_to_tcons_array(m, a); exn(); b = keep(ap_abstract0_of_tcons_array(m, id, rd, &x)); exn(); ap_tcons0_array_clear(&x); }
      if (d.grid && isbot(cp(a))) { need(leq(a, b), "reconstructed", {a, b}); break; } if (id && !d.grid) { need(leq(b, a), "reconstructed-int", {a, b}); break; }  same(a, b, "reconstructed", {a}); break; }
    case 2: { vector<I> v = box(a); if (isbot(cp(a)) || d.grid) break; ap_interval_t** t = mk_box(v); V b = keep(ap_abstract0_of_box(m, id, rd, t)); exn(); free_box(t, n()); if (id) { need(isbot(cp(b)) || leq(meet(a, b), b), "box-meet", {a, b}); break; } need(leq(a, b), "box-above", {a, b}); vector<I> w = box(cp(b)); if (SV(v) != SV(w)) bad("box-trip", "of_box of " + SV(v) + " has the bounds " + SV(w)); if (d.name.substr(0, 3) == "box") same(a, b, "box-exact"); break; }
    case 3: { ap_generator0_array_t g = ap_abstract0_to_generator_array(m, a); if (m->result.exn != AP_EXC_NONE || d.name.substr(0, 2) == "oc" || d.name.substr(0, 3) == "box") { m->result.exn = AP_EXC_NONE; ap_generator0_array_clear(&g); break; } if (d.name == "pkstrictMPQ" || d.name == "pkstrictRll" || d.name == "pplstrict" || d.grid) { ap_generator0_array_clear(&g); break; }
      V b = bot(); vector<ap_generator0_t> rays; for (size_t i = 0; i < g.size; i++) { Lin l = of_lin(g.p[i].linexpr0, n()); TR("  generator " << g.p[i].gentyp << " " << S(l)); if (g.p[i].gentyp == AP_GEN_VERTEX) { Pt p; for (auto& c : l.c) p.push_back(c.lo.v); bool ok = okpoint(p); if (!ok) { b = nullptr; break; } b = join(b, point(p)); } else rays.push_back(g.p[i]); }
      if (b && !rays.empty()) { ap_generator0_array_t ra; ra.p = rays.data(); ra.size = rays.size(); b = keep(ap_abstract0_add_ray_array(m, false, b, &ra)); exn(); } if (b) same(a, b, "regenerated", {a}); ap_generator0_array_clear(&g); break; }
    case 4: { ap_membuf_t b = ap_abstract0_serialize_raw(m, a); if (m->result.exn != AP_EXC_NONE || !b.ptr) { m->result.exn = AP_EXC_NONE; s.nontrivial = false; break; } size_t z = 0; vector<char> raw((char*)b.ptr, (char*)b.ptr + b.size); free(b.ptr); V x = keep(ap_abstract0_deserialize_raw(m, raw.data(), &z)); exn(); if (z != raw.size()) bad("size", "consumed " + std::to_string(z) + " of " + std::to_string(raw.size()) + " bytes"); same(a, x, "deserialized", {a}); break; }
    case 5: { if (isbot(cp(a))) break; vector<I> v = box(cp(a)); for (size_t i = 0; i < n(); i++) { ap_interval_t* t = ap_abstract0_bound_dimension(m, a, i); exn(); I x = of_interval(t); ap_interval_free(t); if (S(x) != S(v[i])) bad("bound_dimension", "bound_dimension of x" + std::to_string(i) + " is " + S(x) + ", to_box says " + S(v[i])); Lin l = unit(i); ap_linexpr0_t* e = mk_lin(l); t = ap_abstract0_bound_linexpr(m, a, e); exn(); x = of_interval(t); ap_interval_free(t); ap_linexpr0_free(e); if (isint(i)) { /* may be looser than the integer bounds */ if (!isubset(v[i], x)) bad("bound_linexpr", "bound_linexpr of x" + std::to_string(i) + " is " + S(x) + ", to_box says " + S(v[i])); } else if (S(x) != S(v[i])) bad("bound_linexpr", "bound_linexpr of x" + std::to_string(i) + " is " + S(x) + ", to_box says " + S(v[i])); 
          ap_interval_t* q = mk_interval(v[i], 0, 0); bool b = ap_abstract0_sat_interval(m, a, i, q); exn(); ap_interval_free(q); if (!b) bad("sat_interval", "sat_interval denies the bounds " + S(v[i]) + " of x" + std::to_string(i)); } break; }
    case 6: { if (!n() || isbot(cp(a))) break; ap_dim_t i = s.draw(n()); bool u = ap_abstract0_is_dimension_unconstrained(m, a, i); exn(); V f = keep(ap_abstract0_forget_array(m, false, a, &i, 1, false)); exn(); if (u) label("unconstrained"); bool e = eq(a, f); if (u != e) bad("forget", "is_dimension_unconstrained says " + std::to_string(u) + " for x" + std::to_string(i) + " in " + show(a) + ", forgetting it gives " + show(f)); bool u2 = ap_abstract0_is_dimension_unconstrained(m, f, i); exn(); if (!u2) bad("forgotten", "a forgotten dimension is not unconstrained"); break; }
    default: { Cons c = gencons(R[0]); if (!c.e.scalar() || c.t > AP_CONS_SUPEQ) { s.nontrivial = false; break; } ap_lincons0_t q = mk_cons(c); ap_lincons0_array_t arr; arr.p = &q; arr.size = 1; V x = keep(ap_abstract0_meet_lincons_array(m, false, a, &arr)); exn(); bool b = ap_abstract0_sat_lincons(m, a, &q); exn(); bool b2 = ap_abstract0_sat_lincons(m, x, &q); exn(); ap_lincons0_clear(&q); need(leq(x, a), "meet-shrinks", {a, x}, S(c)); if (b) { label("sat"); if (!d.flt && !id) need(eq(x, a), "sat-meet", {a, x}, S(c)); } if (polyexact() && !id && !b2) bad("meet-sat", "after meeting " + S(c) + " it is not satisfied by " + show(x)); } } }
  bool triptight() { return d.name.substr(0, 3) == "box"; }
  bool polyexact() { return d.name == "pkMPQ" || d.name == "pkstrictMPQ" || d.name == "pplpoly" || d.name == "pplstrict"; }
  void trip_case() { run0(5); int k = s.range(1, 4); bool nt = false; for (int i = 0; i < k; i++) { trip(); nt |= s.nontrivial; } s.nontrivial = nt; }
};
static void laws_case(Src& s, const vector<Dom>& ds, void (Laws::*f)()) {
  const Dom& d = ds[s.draw(ds.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); Laws w(s, d); int n = s.weighted({1, 3, 6, 5, 2}); n = std::min(n, d.maxdim); int mode = s.weighted({5, 2, 2}); w.id = mode == 0 ? 0 : mode == 1 ? s.draw(n + 1) : n; w.rd = n - w.id;
  int lev = s.weighted({4, 3, 1}); if (d.small || w.fuzzy()) lev = 0; w.lc.num.level = lev; w.pc.level = lev; w.tc.num.level = lev; w.tc.depth = s.range(1, 3); if (d.small) { w.lc.num.frac = w.pc.frac = w.tc.num.frac = false; w.tc.flround = false; } w.lc.density = s.coin() ? 50 : 80; if (s.coin()) w.lc.itv = 0; TR(d.name << " dims (" << w.id << "," << w.rd << ")"); (w.*f)(); }
int main(int argc, char** argv) {
  vector<Prop> P; auto add = [&](const char* id, void (Laws::*f)(), const char* rule) { Prop p; p.id = id; p.rule = rule; p.quick = 60000; p.thorough = 2000000; p.fn = [f](Src& s) { static const vector<Dom> ds = doms_named({"boxMPQ", "boxD", "boxMPFR", "octMPQ", "octD", "pkMPQ", "pkstrictMPQ", "pkRll", "pkeqMPQ", "pkeqRll", "pplpoly", "pplstrict", "pplgrid"}), nog(ds.begin(), ds.end() - 1); laws_case(s, f == &Laws::widen_case ? ds : nog, f); }; P.push_back(p); };
  add("order", &Laws::order_case, "three abstract values of one of 12 domains, each the outcome of a random history, then 1 to 5 laws drawn from 16; non-trivial: one of the values is not empty");
  add("widen", &Laws::widen_case, "an increasing sequence in one of 13 domains: each step adds a point outside of the current value, in one of five growth patterns, then widens, possibly with thresholds; non-trivial: the sequence grew at least once");
  add("pure", &Laws::pure_case, "values of one of 12 domains with a random history; one operation is applied both functionally and destructively, with snapshots of all the arguments before and after; non-trivial: the comparison was made");
  add("trip", &Laws::trip_case, "values of one of 12 domains with a random history; one conversion out and back, or two ways to ask the same question; non-trivial: a non-empty value");
  return engine_main(argc, argv, P); }
