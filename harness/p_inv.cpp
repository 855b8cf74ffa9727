// Invalid arguments: every call that breaks the contract of an operation is reported in the manager, returns the
// documented safe value, leaves alone the arguments it does not own and does not disturb the rest of the history.
#include "ops.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <csignal>
extern "C" {
#include "ap_global1.h"
}
struct Inv : Ops {
  vector<Dom> others; using Ops::Ops; typedef ap_abstract0_t* V; ap_manager_t* fm = nullptr; int ninv = 0;
  ~Inv() { if (std::uncaught_exceptions()) return; if (fm) ap_manager_free(fm); }
  // ---- what an invalid call must do
  void clr() { m->result.exn = AP_EXC_NONE; ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = true; }
  void start(const char* o, const string& what) { setop(o); op = string("inv-") + o; clr(); ninv++; label(string("invalid:") + what); TR("  " << o << ": " << what); what_ = what; }
  string what_;
  void raised() { if (fegetround() != FE_UPWARD) bad("fpu-rounding", "the rounding mode was changed"); ap_exc_t e = m->result.exn; if (e != AP_EXC_INVALID_ARGUMENT) bad("not-reported", what_ + ": the exception of the manager is " + ap_name_of_exception[e]);
    ap_exclog_t* l = m->result.exclog; if (!l || l->exn != AP_EXC_INVALID_ARGUMENT || !l->msg) bad("log", what_ + ": the exception is not in the log"); clr(); }
  void isfalse(bool r) { bool fe = m->result.flag_exact, fb = m->result.flag_best; raised(); if (r) bad("true", what_ + ": the predicate answers true"); if (fe || fb) bad("flags", what_ + ": the answer false is flagged as exact"); }
  void istopitv(ap_interval_t* i) { raised(); if (!i) bad("null", what_ + ": null interval"); I v = of_interval(i); ap_interval_free(i); if (v.lo.fin() || v.hi.fin() || v.empty()) bad("bound", what_ + ": returns " + S(v) + " and not the top interval"); }
  // a top value of dimensions (i,r) is returned
  V istop(V v, size_t i, size_t r) { raised(); if (!v) bad("null", what_ + ": null value"); if (v->man->library != m->library) bad("library", what_ + ": the result belongs to another library"); ap_dimension_t dd = ap_abstract0_dimension(m, v);
    if (dd.intdim != i || dd.realdim != r) bad("dimension", what_ + ": result of dimensions (" + std::to_string(dd.intdim) + "," + std::to_string(dd.realdim) + ") instead of (" + std::to_string(i) + "," + std::to_string(r) + ")");
    if (!ap_abstract0_is_top(m, v)) bad("not-top", what_ + ": the result is not the greatest value"); if (m->result.exn != AP_EXC_NONE) bad("is_top", "is_top of the result raises an exception");
    for (size_t k = 0; k < i + r; k++) { ap_interval_t* b = ap_abstract0_bound_dimension(m, v, k); I x = of_interval(b); ap_interval_free(b); if (x.lo.fin() || x.hi.fin()) bad("not-top", what_ + ": dimension " + std::to_string(k) + " of the result is bounded"); }
    clr(); return v; }
  void topfree(V v, size_t i, size_t r) { ap_abstract0_free(m, istop(v, i, r)); }
  // the value operated on: the register itself, or a copy when the call consumes it
  V arg(Reg& r, bool de) { if (!de) return r.a; V c = ap_abstract0_copy(m, r.a); clr(); return c; }
  void same(Reg& r) { string o = op; op = o + ":arg"; check_obs(r); op = o; }
  // sometimes the history goes on with the result
  void result(Reg& r, V v) { istop(v, id, rd); if (s.coin()) { ap_abstract0_free(m, v); same(r); } else { ap_abstract0_free(m, r.a); r.a = v; if (r.u.valid()) { vector<Pt> w = r.w; r.u = Poly::univ(n()); } r.fe = r.fb = false; } }
  // ---- invalid arguments
  size_t bad_dim() { return n() + (s.chance(1, 8) ? 1000000 : s.draw(3)); }
  Lin bad_lin() { size_t k = s.range(1, 3); Lin l = gen_lin(s, n(), lc); Lin r(n() + k); for (size_t i = 0; i < n(); i++) r.c[i] = l.c[i]; r.k = l.k; r.c[n() + k - 1] = I(Q(s.range(1, 3))); return r; }
  ap_linexpr0_t* bad_linexpr() { Lin l = bad_lin(); if (s.coin()) return mk_lin(l); ap_linexpr0_t* e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0); for (size_t i = 0; i < l.c.size(); i++) { if (l.c[i].sing() && l.c[i].lo.v == 0) continue; ap_coeff_t* c = ap_linexpr0_coeffref(e, i); set_coeff(c, l.c[i], gen_kind(s), gen_kind(s)); } set_coeff(&e->cst, l.k, gen_kind(s), gen_kind(s)); return e; }
  T bad_te() { T t = gen_te(s, n(), tc, tc.depth); T b = t_dim(n() + s.draw(3)); if (s.chance(1, 3)) return b; T r(new TE); r->k = 2; r->op = s.coin() ? AP_TEXPR_ADD : AP_TEXPR_MUL; r->ty = AP_RTYPE_REAL; r->dir = AP_RDIR_RND; r->a = t; r->b = b; if (s.coin()) std::swap(r->a, r->b); return r; }
  // arrays of constraints with one faulty element
  ap_lincons0_array_t bad_lincons(bool null) { int k = s.range(1, 3), at = s.draw(k); ap_lincons0_array_t a = ap_lincons0_array_make(k); for (int i = 0; i < k; i++) { if (i == at && null) { a.p[i].linexpr0 = NULL; continue; } a.p[i] = ap_lincons0_make(s.coin() ? AP_CONS_SUPEQ : AP_CONS_EQ, i == at ? bad_linexpr() : mk_lin(gen_lin(s, n(), lc)), NULL); } return a; }
  ap_tcons0_array_t bad_tcons(bool null) { int k = s.range(1, 3), at = s.draw(k); ap_tcons0_array_t a = ap_tcons0_array_make(k); for (int i = 0; i < k; i++) { if (i == at && null) { a.p[i].texpr0 = NULL; continue; } a.p[i] = ap_tcons0_make(s.coin() ? AP_CONS_SUPEQ : AP_CONS_EQ, mk_te(i == at ? bad_te() : gen_te(s, n(), tc, tc.depth)), NULL); } return a; }
  // a value over other dimensions
  V other_dims(size_t& i, size_t& r) { do { i = s.draw(3); r = s.draw(4); } while (i == id && r == rd); if (i + r == n() && s.coin()) { i = id ? id - 1 : 1; r = n() + (id ? 0 : 0) - i; if (n() == 0) { i = 1; r = 0; } } V v = s.coin() ? ap_abstract0_top(m, i, r) : ap_abstract0_bottom(m, i, r); clr(); return v; }
  // a value of another library
  V foreign(size_t i, size_t r) { if (!fm) { vector<Dom> c; for (auto& o : others) { string x = o.name.substr(0, 3), y = d.name.substr(0, 3); if (o.name != d.name && (x != y || x == "ppl" || x == "pke")) c.push_back(o); } const Dom& f = c[s.draw(c.size())]; fm = quietman(f.alloc()); TR("  (foreign manager " << f.name << ")"); } if (s.coin()) return ap_abstract0_top(fm, i, r); ap_interval_t** b = (ap_interval_t**)malloc(sizeof(void*) * (i + r + 1)); for (size_t k = 0; k < i + r; k++) { b[k] = ap_interval_alloc(); ap_interval_set_int(b[k], 0, 1); } V v = ap_abstract0_of_box(fm, i, r, b); for (size_t k = 0; k < i + r; k++) ap_interval_free(b[k]); free(b); return v; }

  // ---- the calls
  void op_pred() { Reg& r = reg(); int k = s.draw(6); switch (k) {
    case 0: { start("sat_lincons", "dimension out of range"); ap_lincons0_t c = ap_lincons0_make(s.coin() ? AP_CONS_SUPEQ : AP_CONS_EQ, bad_linexpr(), NULL); isfalse(ap_abstract0_sat_lincons(m, r.a, &c)); ap_lincons0_clear(&c); break; }
    case 1: { start("sat_tcons", "dimension out of range"); ap_tcons0_t c = ap_tcons0_make(s.coin() ? AP_CONS_SUPEQ : AP_CONS_EQ, mk_te(bad_te()), NULL); isfalse(ap_abstract0_sat_tcons(m, r.a, &c)); ap_tcons0_clear(&c); break; }
    case 2: { start("sat_interval", "dimension out of range"); ap_interval_t* i = mk_interval(I(), 0, 0); isfalse(ap_abstract0_sat_interval(m, r.a, bad_dim(), i)); ap_interval_free(i); break; }
    case 3: start("is_dimension_unconstrained", "dimension out of range"); isfalse(ap_abstract0_is_dimension_unconstrained(m, r.a, bad_dim())); break;
    case 4: { size_t i, q; V o = other_dims(i, q); start("is_leq", "different dimensions"); bool sw = s.coin(); isfalse(ap_abstract0_is_leq(m, sw ? o : r.a, sw ? r.a : o)); ap_abstract0_free(m, o); break; }
    case 5: { size_t i, q; V o = other_dims(i, q); start("is_eq", "different dimensions"); bool sw = s.coin(); isfalse(ap_abstract0_is_eq(m, sw ? o : r.a, sw ? r.a : o)); ap_abstract0_free(m, o); break; } }
    same(r); }
  void op_bound() { Reg& r = reg(); switch (s.draw(3)) {
    case 0: { start("bound_linexpr", "dimension out of range"); ap_linexpr0_t* e = bad_linexpr(); istopitv(ap_abstract0_bound_linexpr(m, r.a, e)); ap_linexpr0_free(e); break; }
    case 1: { start("bound_texpr", "dimension out of range"); ap_texpr0_t* e = mk_te(bad_te()); istopitv(ap_abstract0_bound_texpr(m, r.a, e)); ap_texpr0_free(e); break; }
    case 2: start("bound_dimension", "dimension out of range"); istopitv(ap_abstract0_bound_dimension(m, r.a, bad_dim())); break; }
    same(r); }
  void op_combine() { Reg& r = reg(); size_t i = id, q = rd; bool de = s.coin(); switch (s.draw(6)) {
    case 0: case 1: { bool mt = s.coin(); V o = other_dims(i, q); V a = arg(r, de); start(mt ? "meet" : "join", "different dimensions"); V v = mt ? ap_abstract0_meet(m, de, a, o) : ap_abstract0_join(m, de, a, o); ap_abstract0_free(m, o); result(r, v); break; }
    case 2: { bool mt = s.coin(); V o = other_dims(i, q); vector<V> t; int k = s.range(1, 3); for (int j = 0; j < k; j++) t.push_back(reg().a); t.insert(t.begin() + 1 + s.draw(k), o); start(mt ? "meet_array" : "join_array", "different dimensions"); V v = mt ? ap_abstract0_meet_array(m, t.data(), t.size()) : ap_abstract0_join_array(m, t.data(), t.size()); ap_abstract0_free(m, o); result(r, v); break; }
    case 3: { bool mt = s.coin(); V t[1] = {r.a}; start(mt ? "meet_array" : "join_array", "empty array"); topfree(mt ? ap_abstract0_meet_array(m, t, 0) : ap_abstract0_join_array(m, t, 0), 0, 0); break; }
    case 4: { V o = other_dims(i, q); start("widening", "different dimensions"); bool sw = s.coin(); V v = ap_abstract0_widening(m, sw ? o : r.a, sw ? r.a : o); ap_abstract0_free(m, o); if (sw) topfree(v, i, q); else result(r, v); break; }
    case 5: { ap_lincons0_array_t t; bool nl = s.chance(1, 3), df = s.chance(1, 3); V o = r.a; if (df) { o = other_dims(i, q); t = ap_lincons0_array_make(0); } else t = bad_lincons(nl); start("widening_threshold", df ? "different dimensions" : nl ? "null constraint" : "dimension out of range"); V v = ap_abstract0_widening_threshold(m, r.a, o, &t); if (df) ap_abstract0_free(m, o); ap_lincons0_array_clear(&t); result(r, v); break; } } }
  void op_meetcons() { Reg& r = reg(); bool de = s.coin(), nl = s.chance(1, 3); const char* w = nl ? "null element" : "dimension out of range"; V a = arg(r, de); switch (s.draw(3)) {
    case 0: { ap_lincons0_array_t t = bad_lincons(nl); start("meet_lincons", w); V v = ap_abstract0_meet_lincons_array(m, de, a, &t); ap_lincons0_array_clear(&t); result(r, v); break; }
    case 1: { ap_tcons0_array_t t = bad_tcons(nl); start("meet_tcons", w); V v = ap_abstract0_meet_tcons_array(m, de, a, &t); ap_tcons0_array_clear(&t); result(r, v); break; }
    case 2: { int k = s.range(1, 2), at = s.draw(k); ap_generator0_array_t t = ap_generator0_array_make(k); for (int i = 0; i < k; i++) { if (i == at && nl) { t.p[i].linexpr0 = NULL; continue; } t.p[i] = ap_generator0_make(s.coin() ? AP_GEN_RAY : AP_GEN_LINE, i == at ? bad_linexpr() : mk_lin(Lin(n()))); } start("add_ray", w); V v = ap_abstract0_add_ray_array(m, de, a, &t); ap_generator0_array_clear(&t); result(r, v); break; } } }
  void op_assign_bad() { Reg& r = reg(); bool de = s.coin(), lin = s.coin(), sub = s.coin(); int k = s.range(1, std::max<int>(1, n())), at = s.draw(k), kind = s.draw(4); if (n() == 0) kind = 1; V dest = nullptr; size_t i, q; if (kind == 3) dest = other_dims(i, q);
    static const char* nm[] = {"expression out of range", "dimension out of range", "null expression", "destination of other dimensions"}; vector<ap_dim_t> td; for (int j = 0; j < k; j++) td.push_back(j < (int)n() ? j : 0); if (kind == 1) td[at] = bad_dim(); V a = arg(r, de);
    if (lin) { vector<ap_linexpr0_t*> e; for (int j = 0; j < k; j++) e.push_back(j == at && kind == 0 ? bad_linexpr() : j == at && kind == 2 ? nullptr : mk_lin(gen_lin(s, n(), lc))); start(sub ? "substitute_linexpr" : "assign_linexpr", nm[kind]);
      V v = k == 1 && s.coin() ? sub ? ap_abstract0_substitute_linexpr(m, de, a, td[0], e[0], dest) : ap_abstract0_assign_linexpr(m, de, a, td[0], e[0], dest) : sub ? ap_abstract0_substitute_linexpr_array(m, de, a, td.data(), e.data(), k, dest) : ap_abstract0_assign_linexpr_array(m, de, a, td.data(), e.data(), k, dest); for (auto x : e) if (x) ap_linexpr0_free(x); if (dest) ap_abstract0_free(m, dest); result(r, v); }
    else { vector<ap_texpr0_t*> e; for (int j = 0; j < k; j++) e.push_back(j == at && kind == 0 ? mk_te(bad_te()) : j == at && kind == 2 ? nullptr : mk_te(gen_te(s, n(), tc, tc.depth))); start(sub ? "substitute_texpr" : "assign_texpr", nm[kind]);
      V v = k == 1 && s.coin() ? sub ? ap_abstract0_substitute_texpr(m, de, a, td[0], e[0], dest) : ap_abstract0_assign_texpr(m, de, a, td[0], e[0], dest) : sub ? ap_abstract0_substitute_texpr_array(m, de, a, td.data(), e.data(), k, dest) : ap_abstract0_assign_texpr_array(m, de, a, td.data(), e.data(), k, dest); for (auto x : e) if (x) ap_texpr0_free(x); if (dest) ap_abstract0_free(m, dest); result(r, v); } }
  void op_dims() { Reg& r = reg(); bool de = s.coin(); int k = s.draw(6); V a = arg(r, de); switch (k) {
    case 0: { vector<ap_dim_t> td; int sz = s.range(1, 3), at = s.draw(sz); for (int i = 0; i < sz; i++) td.push_back(i == at || !n() ? bad_dim() : s.draw(n())); start("forget", "dimension out of range"); result(r, ap_abstract0_forget_array(m, de, a, td.data(), sz, s.coin())); return; }
    case 1: { size_t x = bad_dim(), c = s.range(1, 3); start("expand", "dimension out of range"); topfree(ap_abstract0_expand(m, de, a, x, c), id, rd + c); break; }
    case 2: { // folding
      vector<ap_dim_t> td; string w; int kk = s.draw(5); if (n() < 2) kk = s.draw(2); size_t i2 = id, r2 = rd; if (kk == 0) w = "empty array"; else if (kk == 1) { w = "dimension out of range"; int sz = s.range(1, 6); for (int i = 0; i < sz; i++) td.push_back(n() && s.coin() ? s.draw(n()) : n() + i); td[s.draw(sz)] = bad_dim(); }
      else if (kk == 2) { w = "unsorted array"; size_t y = s.range(1, n() - 1), x = s.draw(y); td = {(ap_dim_t)y, (ap_dim_t)x}; } else if (kk == 3) { w = "repeated dimension"; ap_dim_t x = s.draw(n()); td.assign(s.range(2, 6), x); } else { if (!id || !rd) { td = {(ap_dim_t)1, (ap_dim_t)0}; w = "unsorted array"; } else { w = "integer and real dimensions"; td = {(ap_dim_t)s.draw(id), (ap_dim_t)(id + s.draw(rd))}; } }
      start("fold", w); if (td.size() > 1) { size_t& x = td[0] < id ? i2 : r2; x = x >= td.size() - 1 ? x - (td.size() - 1) : 0; } ap_dim_t none = 0; topfree(ap_abstract0_fold(m, de, a, td.empty() ? &none : td.data(), td.size()), i2, r2); break; }
    case 3: { // added dimensions
      size_t ai = s.draw(3), ar = s.draw(3); if (ai + ar == 0) ar = 1; ap_dimchange_t* c = ap_dimchange_alloc(ai, ar); for (size_t i = 0; i < ai; i++) c->dim[i] = s.draw(id + 1); for (size_t i = 0; i < ar; i++) c->dim[ai + i] = id + s.draw(rd + 1); std::sort(c->dim, c->dim + ai); std::sort(c->dim + ai, c->dim + ai + ar);
      string w; int kk = s.draw(4); bool done = false; if (kk == 1 && ai + ar >= 2) { for (size_t i = 0; i + 1 < ai + ar && !done; i++) if (c->dim[i] < c->dim[i + 1] && (i + 1 < ai || i >= ai)) { std::swap(c->dim[i], c->dim[i + 1]); w = "unsorted positions"; done = true; } } if (kk == 2 && ar && id) { c->dim[ai] = s.draw(id); w = "real dimension among the integer ones"; done = true; if (ai) for (size_t i = 0; i < ai; i++) c->dim[i] = 0; } if (kk == 3 && ai && rd) { c->dim[ai - 1] = id + 1; for (size_t i = 0; i < ar; i++) c->dim[ai + i] = n(); w = "integer dimension among the real ones"; done = true; }
      if (!done) { c->dim[ai + ar - 1] = n() + 1 + s.draw(2); w = "position out of range"; } start("add_dimensions", w); V v = ap_abstract0_add_dimensions(m, de, a, c, s.coin()); ap_dimchange_free(c); topfree(v, id + ai, rd + ar); break; }
    case 4: { // removed dimensions
      size_t ri = s.draw(std::min<size_t>(id, 2) + 1), rr = s.draw(std::min<size_t>(rd, 2) + 1); vector<ap_dim_t> x, y; for (size_t i = 0; i < id; i++) x.push_back(i); for (size_t i = id; i < n(); i++) y.push_back(i); while (x.size() > ri) x.erase(x.begin() + s.draw(x.size())); while (y.size() > rr) y.erase(y.begin() + s.draw(y.size()));
      string w; int kk = s.draw(6); bool done = false; if (kk == 1 && (x.size() > 1 || y.size() > 1)) { auto& z = x.size() > 1 ? x : y; std::swap(z[0], z[1]); w = "unsorted dimensions"; done = true; } if (kk == 2 && (x.size() || y.size())) { auto& z = x.size() ? x : y; z.push_back(z.back()); w = "repeated dimension"; done = true; } if (kk == 3 && id) { y.insert(y.begin(), (ap_dim_t)(id - 1)); x.clear(); w = "integer dimension removed as a real one"; done = true; } if (kk == 4 && rd) { x.push_back(id); y.clear(); w = "real dimension removed as an integer one"; done = true; }
      if (!done) { y.push_back(bad_dim()); w = "dimension out of range"; } ap_dimchange_t* c = ap_dimchange_alloc(x.size(), y.size()); for (size_t i = 0; i < x.size(); i++) c->dim[i] = x[i]; for (size_t i = 0; i < y.size(); i++) c->dim[x.size() + i] = y[i];
      start("remove_dimensions", w); V v = ap_abstract0_remove_dimensions(m, de, a, c); ap_dimchange_free(c); topfree(v, id >= x.size() ? id - x.size() : 0, rd >= y.size() ? rd - y.size() : 0); break; }
    case 5: { ap_dimperm_t* p; string w; int kk = n() >= 2 ? s.draw(3) : 2; if (kk == 2) { size_t z = n() + 1; if (n() && s.coin()) z = n() - 1; p = ap_dimperm_alloc(z); ap_dimperm_set_id(p); w = "permutation of another size"; } else { p = ap_dimperm_alloc(n()); ap_dimperm_set_id(p); size_t i = s.draw(n()); if (kk == 0) { p->dim[i] = bad_dim(); w = "image out of range"; } else { p->dim[i] = p->dim[i ? i - 1 : 1]; w = "repeated image"; } }
      start("permute_dimensions", w); V v = ap_abstract0_permute_dimensions(m, de, a, p); ap_dimperm_free(p); result(r, v); return; } }
    same(r); }
  void op_foreign() { V f = foreign(id, rd); Reg& r = reg(); const char* w = "value of another library"; bool used = false, de = s.coin(), sw = s.coin(); V own = nullptr; if (de) own = arg(r, true);
    auto pair = [&](V& x, V& y) { x = f; y = de ? own : r.a; if (sw) std::swap(x, y); };   // for binary operations: either side
    V x, y; pair(x, y); int k = s.draw(30); switch (k) {
    case 0: start("is_leq", w); isfalse(ap_abstract0_is_leq(m, x, y)); break;
    case 1: start("is_eq", w); isfalse(ap_abstract0_is_eq(m, x, y)); break;
    case 2: case 3: { start(k == 2 ? "meet" : "join", w); bool owned = de; V v = k == 2 ? ap_abstract0_meet(m, de, x, y) : ap_abstract0_join(m, de, x, y); if (owned) { if (x == f) f = nullptr; else own = nullptr; } result(r, v); break; }
    case 4: case 5: { start(k == 4 ? "meet_array" : "join_array", w); V t[2] = {x, y}; result(r, k == 4 ? ap_abstract0_meet_array(m, t, 2) : ap_abstract0_join_array(m, t, 2)); break; }
    case 6: start("widening", w); result(r, ap_abstract0_widening(m, x, y)); break;
    case 7: start("is_bottom", w); isfalse(ap_abstract0_is_bottom(m, f)); break;
    case 8: start("is_top", w); isfalse(ap_abstract0_is_top(m, f)); break;
    case 9: { start("copy", w); topfree(ap_abstract0_copy(m, f), id, rd); break; }
    case 10: { start("size", w); ap_abstract0_size(m, f); raised(); break; }
    case 11: { start("minimize", w); ap_abstract0_minimize(m, f); raised(); break; }
    case 12: { start("canonicalize", w); ap_abstract0_canonicalize(m, f); raised(); break; }
    case 13: { start("hash", w); ap_abstract0_hash(m, f); raised(); break; }
    case 14: { start("approximate", w); ap_abstract0_approximate(m, f, s.draw(3)); raised(); break; }
    case 15: { start("serialize_raw", w); ap_membuf_t b = ap_abstract0_serialize_raw(m, f); raised(); if (b.ptr || b.size) bad("buffer", "a buffer is returned"); break; }
    case 16: { start("sat_lincons", w); ap_lincons0_t c = ap_lincons0_make(AP_CONS_SUPEQ, mk_lin(gen_lin(s, n(), lc)), NULL); isfalse(ap_abstract0_sat_lincons(m, f, &c)); ap_lincons0_clear(&c); break; }
    case 17: if (n()) { start("is_dimension_unconstrained", w); isfalse(ap_abstract0_is_dimension_unconstrained(m, f, s.draw(n()))); } break;
    case 18: { start("bound_linexpr", w); ap_linexpr0_t* e = mk_lin(gen_lin(s, n(), lc)); istopitv(ap_abstract0_bound_linexpr(m, f, e)); ap_linexpr0_free(e); break; }
    case 19: if (n()) { start("bound_dimension", w); istopitv(ap_abstract0_bound_dimension(m, f, s.draw(n()))); } break;
    case 20: { start("to_lincons_array", w); ap_lincons0_array_t t = ap_abstract0_to_lincons_array(m, f); raised(); if (t.size) bad("constraints", "constraints are returned"); ap_lincons0_array_clear(&t); break; }
    case 21: { start("to_tcons_array", w); ap_tcons0_array_t t = ap_abstract0_to_tcons_array(m, f); raised(); if (t.size) bad("constraints", "constraints are returned"); ap_tcons0_array_clear(&t); break; }
    case 22: { start("to_box", w); ap_interval_t** b = ap_abstract0_to_box(m, f); raised(); for (size_t i = 0; i < n(); i++) { I v = of_interval(b[i]); if (v.lo.fin() || v.hi.fin()) bad("box", "the box is not the whole space"); } ap_interval_array_free(b, n()); break; }
    case 23: { start("to_generator_array", w); ap_generator0_array_t t = ap_abstract0_to_generator_array(m, f); raised(); if (t.size) bad("generators", "generators are returned"); ap_generator0_array_clear(&t); break; }
    case 24: { start("closure", w); V v = ap_abstract0_closure(m, de, f); if (de) f = nullptr; result(r, v); break; }
    case 25: { start("meet_lincons", w); ap_lincons0_array_t t = mk_cons_array(genconss(r)); V v = ap_abstract0_meet_lincons_array(m, de, f, &t); ap_lincons0_array_clear(&t); if (de) f = nullptr; result(r, v); break; }
    case 26: if (n()) { start("assign_linexpr", w); ap_linexpr0_t* e = mk_lin(gen_lin(s, n(), lc)); bool ds = s.coin(); V v; if (ds) v = ap_abstract0_assign_linexpr(m, false, r.a, s.draw(n()), e, f); else { v = ap_abstract0_assign_linexpr(m, de, f, s.draw(n()), e, NULL); if (de) f = nullptr; } ap_linexpr0_free(e); result(r, v); } break;
    case 27: if (n()) { start("forget", w); ap_dim_t z = s.draw(n()); V v = ap_abstract0_forget_array(m, de, f, &z, 1, s.coin()); if (de) f = nullptr; result(r, v); } break;
    case 28: if (n()) { start("expand", w); ap_dim_t z = s.draw(n()); V v = ap_abstract0_expand(m, de, f, z, 1); if (de) f = nullptr; topfree(v, id + (z < id), rd + (z >= id)); } break;
    case 29: { start("permute_dimensions", w); ap_dimperm_t* p = ap_dimperm_alloc(n()); ap_dimperm_set_id(p); V v = ap_abstract0_permute_dimensions(m, de, f, p); ap_dimperm_free(p); if (de) f = nullptr; result(r, v); break; } }
    (void)used; if (own) ap_abstract0_free(m, own); if (f) { ap_abstract0_free(fm, f); if (fm->result.exn != AP_EXC_NONE) bad("foreign", "the foreign value was damaged"); } same(r); }
  // an exception for which the manager is asked to abort does abort the program, with its name on standard error
  void op_abort() { if (!s.chance(1, 12)) { op_pred(); return; } start("abort", "abort_if_exception"); int fd[2]; if (pipe(fd)) return; fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) return;
    if (p == 0) { for (int g : {SIGABRT, SIGSEGV, SIGILL, SIGFPE}) signal(g, SIG_DFL); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); dup2(fd[1], 2); ap_manager_set_abort_if_exception(m, AP_EXC_INVALID_ARGUMENT, true); ap_interval_t* i = ap_abstract0_bound_dimension(m, R[0].a, n()); (void)i; _exit(0); }
    close(fd[1]); string t; char b[256]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) bad("no-abort", "the program goes on although abort_if_exception is set"); if (t.find("INVALID_ARGUMENT") == string::npos) bad("message", "the message does not name the exception: " + t); }
  void step() { switch (s.weighted({3, 2, 3, 3, 3, 4, 4, 1})) { case 0: op_pred(); break; case 1: op_bound(); break; case 2: op_combine(); break; case 3: op_meetcons(); break; case 4: op_assign_bad(); break; case 5: op_dims(); break; case 6: op_foreign(); break; case 7: op_abort(); } for (auto& r : R) if (s.chance(1, 3)) { string o = op; op += ":after"; World::check_obs(r); op = o; } }
  void case_() { auto t = table(); int tot = 0; for (auto& o : t) tot += o.weight; int nr = s.range(2, 3); for (int i = 0; i < nr; i++) { R.emplace_back(); R.back() = fresh(); } int k = s.range(1, 8);
    for (int i = 0; i < k; i++) { if (s.coin()) { int v = s.draw(tot); size_t j = 0; while (v >= t[j].weight) v -= t[j++].weight; if (!noops.count(t[j].name)) (this->*t[j].fn)(); } step(); }
    for (auto& r : R) { setop("final"); check_obs(r); } if (ninv) s.nontrivial = true; }
};
static void inv_case(Src& s, const vector<Dom>& all) {
  const Dom& d = all[s.draw(all.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); Inv w(s, d); w.others = all;
  int n = s.weighted({1, 3, 6, 6, 4}); w.id = s.weighted({2, 1}) == 0 ? 0 : s.draw(n + 1); if (s.coin()) w.id = n / 2; w.rd = n - w.id; w.useU = w.id == 0 && d.convex && s.coin(); int lev = d.small ? 0 : s.weighted({5, 2}); w.lc.num.level = lev; w.pc.level = lev; w.tc.num.level = lev; w.tc.depth = s.range(0, 2); if (d.small) { w.lc.num.frac = false; w.tc.num.frac = false; w.tc.flround = false; } w.lc.density = 60;
  TR(d.name << " dims (" << w.id << "," << w.rd << ")"); w.case_(); }

// ---------------------------------------------------------------------------------------------- level 1
static const char* NAMES1[] = {"x", "y", "i", "j", "B", "x2", "zz"}; static const size_t NN = 7;
static I IV(int l, int h) { return I(X(Q(l)), X(Q(h))); }
struct Inv1 {
  Src& s; Dom d; ap_manager_t* m; string op, what; vector<ap_abstract1_t> V, K; vector<char> isint; int ninv = 0; typedef std::set<size_t> NS; vector<NS> E;
  Inv1(Src& s_, const Dom& d_) : s(s_), d(d_) { ap_fpu_init(); m = quietman(d.alloc()); }
  ~Inv1() { if (std::uncaught_exceptions()) return; for (auto& v : V) ap_abstract1_clear(m, &v); for (auto& v : K) ap_abstract1_clear(m, &v); ap_manager_free(m); }
  void bad(const string& k, const string& t) { fail("inv1:" + d.name + ":" + op + ":" + k, what + ": " + t); }
  void clr() { m->result.exn = AP_EXC_NONE; ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = true; }
  void start(const char* o, const char* w) { op = o; what = w; clr(); ninv++; crumb(("inv1:" + d.name + ":" + o).c_str()); label(string("invalid1:") + w); TR("  " << o << ": " << w); }
  void raised() { ap_exc_t e = m->result.exn; if (e != AP_EXC_INVALID_ARGUMENT) bad("not-reported", string("the exception of the manager is ") + ap_name_of_exception[e]); if (!m->result.exclog || m->result.exclog->exn != AP_EXC_INVALID_ARGUMENT) bad("log", "the exception is not in the log"); clr(); }
  void isfalse(bool r) { bool fe = m->result.flag_exact, fb = m->result.flag_best; raised(); if (r) bad("true", "the predicate answers true"); if (fe || fb) bad("flags", "the answer false is flagged as exact"); }
  void istopitv(ap_interval_t* i) { raised(); I v = of_interval(i); ap_interval_free(i); if (v.lo.fin() || v.hi.fin() || v.empty()) bad("bound", "returns " + S(v) + " and not the top interval"); }
  ap_var_t nv(size_t i) { return (ap_var_t)NAMES1[i]; }
  ap_environment_t* mkenv(const NS& e, bool flip = false) { vector<ap_var_t> vi, vr; for (auto i : e) (((bool)isint[i] ^ flip) ? vi : vr).push_back(nv(i)); ap_environment_t* r = ap_environment_alloc(vi.data(), vi.size(), vr.data(), vr.size()); if (!r) bad("environment", "cannot build an environment"); return r; }
  void free_env(ap_environment_t* e) { ap_environment_free(e); }
  NS subset() { NS r; for (size_t i = 0; i < NN; i++) if (s.chance(2, 5)) r.insert(i); return r; }
  ap_abstract1_t value(const NS& e, bool flip = false) { ap_environment_t* en = mkenv(e, flip); vector<ap_var_t> v; vector<ap_interval_t*> b; for (auto i : e) if (s.coin()) { v.push_back(nv(i)); int lo = s.range(-3, 3); b.push_back(mk_interval(IV(lo, lo + s.range(0, 3)), 0, 0)); } ap_abstract1_t a = s.chance(1, 8) ? ap_abstract1_bottom(m, en) : ap_abstract1_of_box(m, en, v.data(), b.data(), v.size()); for (auto x : b) ap_interval_free(x); ap_environment_free(en); return a; }
  bool eqval(ap_abstract1_t* a, ap_abstract1_t* b) { bool r = ap_environment_is_eq(a->env, b->env) && ap_abstract1_is_eq(m, a, b); if (m->result.exn != AP_EXC_NONE && m->result.exn != AP_EXC_NOT_IMPLEMENTED) bad("compare", "comparing raises an exception"); return r; }
  void consistent(ap_abstract1_t* a) { ap_dimension_t x = ap_abstract0_dimension(m, a->abstract0); if (x.intdim != a->env->intdim || x.realdim != a->env->realdim) bad("inconsistent", "the value has " + std::to_string(x.intdim) + "+" + std::to_string(x.realdim) + " dimensions and its environment " + std::to_string(a->env->intdim) + "+" + std::to_string(a->env->realdim)); }
  // the greatest value over env (consumed unless borrowed)
  void topfree(ap_abstract1_t a, ap_environment_t* env) { raised(); consistent(&a); if (!ap_environment_is_eq(a.env, env)) bad("environment", "the result is not over the expected environment"); if (!ap_abstract1_is_top(m, &a)) bad("not-top", "the result is not the greatest value"); clr(); ap_abstract1_clear(m, &a); }
  void samefree(ap_abstract1_t a, ap_abstract1_t* k) { raised(); consistent(&a); if (!eqval(&a, k)) bad("not-same", "the result is not the argument"); clr(); ap_abstract1_clear(m, &a); }
  // an expression on an environment which is not included in e: one more variable, or a type changed
  bool flipv = false;
  ap_environment_t* bad_env(const NS& e, size_t& var) { NS f; vector<size_t> out; for (size_t i = 0; i < NN; i++) if (!e.count(i)) out.push_back(i); for (auto i : e) if (s.coin()) f.insert(i); if (out.empty() || (!f.empty() && s.chance(1, 3))) { if (f.empty()) f = e; var = *f.begin(); return mkenv(f, true); } var = out[s.draw(out.size())]; f.insert(var); return mkenv(f); }
  size_t unknown(const NS& e) { vector<size_t> out; for (size_t i = 0; i < NN; i++) if (!e.count(i)) out.push_back(i); return out.empty() ? NN : out[s.draw(out.size())]; }
  static constexpr const char* UNK = "unknown variable";
  ap_var_t uvar(const NS& e) { size_t u = unknown(e); return u == NN ? (ap_var_t)"nobody" : nv(u); }
  ap_linexpr1_t lin(ap_environment_t* en, size_t var, bool withvar = true) { ap_linexpr1_t l = ap_linexpr1_make(en, s.coin() ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, en->intdim + en->realdim); if (withvar) ap_linexpr1_set_list(&l, AP_COEFF_S_INT, s.range(1, 3), nv(var), AP_END); ap_linexpr1_set_list(&l, AP_CST_S_INT, s.range(-2, 2), AP_END); return l; }
  ap_texpr1_t* tex(ap_environment_t* en, size_t var) { ap_texpr1_t* a = ap_texpr1_var(en, nv(var)); if (!a) bad("texpr", "no such variable"); ap_texpr1_t* b = ap_texpr1_cst_scalar_int(en, s.range(1, 3)); return ap_texpr1_binop(AP_TEXPR_ADD, a, b, AP_RTYPE_REAL, AP_RDIR_RND); }
  ap_abstract1_t arg(size_t i, bool de) { return de ? ap_abstract1_copy(m, &V[i]) : V[i]; }
  void step() { size_t vi = s.draw(V.size()); ap_abstract1_t& a = V[vi]; const NS& e = E[vi]; bool de = s.coin(); size_t var;
    switch (s.draw(26)) {
    case 0: case 1: { NS f; do { f = subset(); } while (f == e); ap_abstract1_t o = value(f); bool sw = s.coin(), l = s.coin(); start(l ? "is_leq" : "is_eq", "different environments"); isfalse(l ? ap_abstract1_is_leq(m, sw ? &o : &a, sw ? &a : &o) : ap_abstract1_is_eq(m, sw ? &o : &a, sw ? &a : &o)); ap_abstract1_clear(m, &o); break; }
    case 2: case 3: { NS f; do { f = subset(); } while (f == e); ap_abstract1_t o = value(f), x = arg(vi, de); bool j = s.coin(); start(j ? "join" : "meet", "different environments"); topfree(j ? ap_abstract1_join(m, de, &x, &o) : ap_abstract1_meet(m, de, &x, &o), a.env); ap_abstract1_clear(m, &o); break; }
    case 4: { NS f; do { f = subset(); } while (f == e); ap_abstract1_t o = value(f); ap_abstract1_t t[3] = {a, a, a}; int at = s.range(1, 2); t[at] = o; bool j = s.coin(); start(j ? "join_array" : "meet_array", "different environments"); topfree(j ? ap_abstract1_join_array(m, t, 3) : ap_abstract1_meet_array(m, t, 3), a.env); ap_abstract1_clear(m, &o); break; }
    case 5: { bool j = s.coin(); start(j ? "join_array" : "meet_array", "empty array"); ap_environment_t* z = ap_environment_alloc_empty(); topfree(j ? ap_abstract1_join_array(m, &a, 0) : ap_abstract1_meet_array(m, &a, 0), z); free_env(z); break; }
    case 6: { NS f; do { f = subset(); } while (f == e); ap_abstract1_t o = value(f); start("widening", "different environments"); topfree(ap_abstract1_widening(m, &a, &o), a.env); ap_abstract1_clear(m, &o); break; }
    case 7: { ap_environment_t* en = bad_env(e, var); ap_lincons1_array_t t = ap_lincons1_array_make(en, 1); ap_linexpr1_t l = lin(en, var); ap_lincons1_t c = ap_lincons1_make(AP_CONS_SUPEQ, &l, NULL); ap_lincons1_array_set(&t, 0, &c); int k = s.draw(3);
      if (k == 0) { start("widening_threshold", "expression on another environment"); topfree(ap_abstract1_widening_threshold(m, &a, &a, &t), a.env); }
      else if (k == 1) { ap_abstract1_t x = arg(vi, de); start("meet_lincons", "expression on another environment"); samefree(ap_abstract1_meet_lincons_array(m, de, &x, &t), &K[vi]); }
      else { start("of_lincons_array", "expression on another environment"); topfree(ap_abstract1_of_lincons_array(m, a.env, &t), a.env); }
      ap_lincons1_array_clear(&t); free_env(en); break; }
    case 8: { ap_environment_t* en = bad_env(e, var); ap_tcons1_array_t t = ap_tcons1_array_make(en, 1); ap_texpr1_t* x = tex(en, var); ap_tcons1_t c = ap_tcons1_make(AP_CONS_SUPEQ, x, NULL); free(x); ap_tcons1_array_set(&t, 0, &c);
      if (s.coin()) { ap_abstract1_t y = arg(vi, de); start("meet_tcons", "expression on another environment"); samefree(ap_abstract1_meet_tcons_array(m, de, &y, &t), &K[vi]); } else { start("of_tcons_array", "expression on another environment"); topfree(ap_abstract1_of_tcons_array(m, a.env, &t), a.env); } ap_tcons1_array_clear(&t); free_env(en); break; }
    case 9: { ap_environment_t* en = bad_env(e, var); ap_generator1_array_t t = ap_generator1_array_make(en, 1); ap_linexpr1_t l = lin(en, var); ap_generator1_t g = ap_generator1_make(AP_GEN_RAY, &l); ap_generator1_array_set(&t, 0, &g); ap_abstract1_t x = arg(vi, de); start("add_ray", "expression on another environment"); topfree(ap_abstract1_add_ray_array(m, de, &x, &t), a.env); ap_generator1_array_clear(&t); free_env(en); break; }
    case 10: { ap_environment_t* en = bad_env(e, var); ap_linexpr1_t l = lin(en, var); if (s.coin()) { start("bound_linexpr", "expression on another environment"); istopitv(ap_abstract1_bound_linexpr(m, &a, &l)); ap_linexpr1_clear(&l); } else { ap_lincons1_t c = ap_lincons1_make(AP_CONS_EQ, &l, NULL); start("sat_lincons", "expression on another environment"); isfalse(ap_abstract1_sat_lincons(m, &a, &c)); ap_lincons1_clear(&c); } free_env(en); break; }
    case 11: { ap_environment_t* en = bad_env(e, var); ap_texpr1_t* x = tex(en, var); if (s.coin()) { start("bound_texpr", "expression on another environment"); istopitv(ap_abstract1_bound_texpr(m, &a, x)); ap_texpr1_free(x); } else { ap_tcons1_t c = ap_tcons1_make(AP_CONS_EQ, x, NULL); free(x); start("sat_tcons", "expression on another environment"); isfalse(ap_abstract1_sat_tcons(m, &a, &c)); ap_tcons1_clear(&c); } free_env(en); break; }
    case 12: { ap_interval_t* i = mk_interval(I(), 0, 0); start("sat_interval", UNK); isfalse(ap_abstract1_sat_interval(m, &a, uvar(e), i)); ap_interval_free(i); break; }
    case 13: start("is_variable_unconstrained", UNK); isfalse(ap_abstract1_is_variable_unconstrained(m, &a, uvar(e))); break;
    case 14: start("bound_variable", UNK); istopitv(ap_abstract1_bound_variable(m, &a, uvar(e))); break;
    case 15: case 16: case 17: { // assignments and substitutions
      bool linear = s.coin(), sub = s.coin(); int k = s.range(1, 2), at = s.draw(k), kind = e.empty() ? 0 : s.draw(3); ap_environment_t* en = nullptr; vector<ap_var_t> tv; for (int j = 0; j < k; j++) { if (e.empty()) tv.push_back(uvar(e)); else { auto it = e.begin(); std::advance(it, std::min<size_t>(j, e.size() - 1)); tv.push_back(nv(*it)); } }
      if (kind == 0) tv[at] = uvar(e); if (kind == 1) en = bad_env(e, var); ap_abstract1_t dest; if (kind == 2) { NS f; do { f = subset(); } while (f == e); dest = value(f); } static const char* nm[] = {"unknown variable", "expression on another environment", "destination on another environment"};
      ap_abstract1_t x = arg(vi, de); NS sub_; for (auto i : e) if (s.coin()) sub_.insert(i); ap_environment_t* good = s.coin() ? ap_environment_copy(a.env) : mkenv(sub_);
      if (linear) { vector<ap_linexpr1_t> t; for (int j = 0; j < k; j++) t.push_back(j == at && kind == 1 ? lin(en, var) : lin(good, 0, false)); start(sub ? "substitute_linexpr" : "assign_linexpr", nm[kind]); ap_abstract1_t* ds = kind == 2 ? &dest : NULL;
        ap_abstract1_t r = k == 1 ? sub ? ap_abstract1_substitute_linexpr(m, de, &x, tv[0], &t[0], ds) : ap_abstract1_assign_linexpr(m, de, &x, tv[0], &t[0], ds) : sub ? ap_abstract1_substitute_linexpr_array(m, de, &x, tv.data(), t.data(), k, ds) : ap_abstract1_assign_linexpr_array(m, de, &x, tv.data(), t.data(), k, ds); topfree(r, a.env); for (auto& l : t) ap_linexpr1_clear(&l); }
      else { vector<ap_texpr1_t> t; for (int j = 0; j < k; j++) { ap_texpr1_t* q = j == at && kind == 1 ? tex(en, var) : ap_texpr1_cst_scalar_int(good, s.range(-2, 2)); t.push_back(*q); free(q); } start(sub ? "substitute_texpr" : "assign_texpr", nm[kind]); ap_abstract1_t* ds = kind == 2 ? &dest : NULL;
        ap_abstract1_t r = k == 1 ? sub ? ap_abstract1_substitute_texpr(m, de, &x, tv[0], &t[0], ds) : ap_abstract1_assign_texpr(m, de, &x, tv[0], &t[0], ds) : sub ? ap_abstract1_substitute_texpr_array(m, de, &x, tv.data(), t.data(), k, ds) : ap_abstract1_assign_texpr_array(m, de, &x, tv.data(), t.data(), k, ds); topfree(r, a.env); for (auto& l : t) { ap_texpr0_free(l.texpr0); ap_environment_free(l.env); }; }
      if (kind == 1) free_env(en); if (kind == 2) ap_abstract1_clear(m, &dest); free_env(good); break; }
    case 18: { vector<ap_var_t> t; for (auto i : e) if (s.coin()) t.push_back(nv(i)); t.insert(t.begin() + s.draw(t.size() + 1), uvar(e)); ap_abstract1_t x = arg(vi, de); start("forget", UNK); topfree(ap_abstract1_forget_array(m, de, &x, t.data(), t.size(), s.coin()), a.env); break; }
    case 19: { bool bt = !e.empty() && s.coin(); ap_abstract1_t x = arg(vi, de); if (bt) { // an existing name among the new ones
        auto it = e.begin(); std::advance(it, s.draw(e.size())); ap_var_t t[3] = {(ap_var_t)"n1", (ap_var_t)"n2", (ap_var_t)"n3"}; int k = s.range(1, 3); auto jt = e.begin(); std::advance(jt, s.draw(e.size())); t[s.draw(k)] = nv(*jt); start("expand", "existing variable"); topfree(ap_abstract1_expand(m, de, &x, nv(*it), t, k), a.env); }
      else { ap_var_t t[2] = {(ap_var_t)"n1", (ap_var_t)"n2"}; start("expand", UNK); topfree(ap_abstract1_expand(m, de, &x, uvar(e), t, s.range(1, 2)), a.env); } break; }
    case 20: { ap_abstract1_t x = arg(vi, de); vector<ap_var_t> t; vector<size_t> is, rs; for (auto i : e) (isint[i] ? is : rs).push_back(i); const char* w; int k = s.draw(4);
      if (k == 0 && is.size() && rs.size()) { w = "integer and real variables"; bool f = s.coin(); t.push_back(nv(f ? is[0] : rs[0])); t.push_back(nv(f ? rs[0] : is[0])); if (s.coin()) for (auto i : e) if (i != is[0] && i != rs[0]) t.push_back(nv(i)); }
      else if (k == 1) { w = "empty array"; } else { w = UNK; for (auto i : e) if (t.size() < 2) t.push_back(nv(i)); t.insert(t.begin() + s.draw(t.size() + 1), uvar(e)); if (t.size() < 2) t.push_back(uvar(e)); }
      start("fold", w); ap_var_t none = (ap_var_t)"none"; topfree(ap_abstract1_fold(m, de, &x, t.empty() ? &none : t.data(), t.size()), a.env); break; }
    case 21: { ap_abstract1_t x = arg(vi, de); vector<ap_var_t> t1, t2; bool unk = e.size() < 2 || s.coin(); if (unk) { for (auto i : e) if (s.coin()) { t1.push_back(nv(i)); t2.push_back((ap_var_t)(t1.size() == 1 ? "m1" : t1.size() == 2 ? "m2" : t1.size() == 3 ? "m3" : t1.size() == 4 ? "m4" : t1.size() == 5 ? "m5" : t1.size() == 6 ? "m6" : "m7")); } size_t at = s.draw(t1.size() + 1); t1.insert(t1.begin() + at, uvar(e)); t2.insert(t2.begin() + at, (ap_var_t)"m9"); }
      else { auto it = e.begin(); size_t p = *it++; t1.push_back(nv(p)); t2.push_back(nv(*it)); } start("rename", unk ? UNK : "two variables with the same name"); topfree(ap_abstract1_rename_array(m, de, &x, t1.data(), t2.data(), t1.size()), a.env); break; }
    case 22: if (!e.empty()) { NS f; for (auto i : e) if (s.coin()) f.insert(i); if (f.empty()) f = e; ap_environment_t* en = mkenv(f, true); ap_abstract1_t x = arg(vi, de); start("change_environment", "variables of another type"); topfree(ap_abstract1_change_environment(m, de, &x, en, s.coin()), en); free_env(en); } break;
    case 23: if (!e.empty()) { NS f = subset(); bool common = false; for (auto i : f) common |= e.count(i) > 0; if (!common) f.insert(*e.begin()); ap_abstract1_t o = value(f, true), x = arg(vi, de), k2 = ap_abstract1_copy(m, &o); if (de) { start("unify", "variables of another type"); ap_abstract1_t r = ap_abstract1_unify(m, true, &x, &o); samefree(r, &K[vi]); } else { start("unify", "variables of another type"); samefree(ap_abstract1_unify(m, false, &x, &o), &K[vi]); } if (!eqval(&o, &k2)) bad("second", "the second argument has changed"); clr(); ap_abstract1_clear(m, &o); ap_abstract1_clear(m, &k2); } break;
    case 24: { vector<ap_var_t> v; vector<ap_interval_t*> b; for (auto i : e) if (s.coin()) v.push_back(nv(i)); v.insert(v.begin() + s.draw(v.size() + 1), uvar(e)); for (size_t i = 0; i < v.size(); i++) b.push_back(mk_interval(IV(0, 1), 0, 0)); start("of_box", UNK); topfree(ap_abstract1_of_box(m, a.env, v.data(), b.data(), v.size()), a.env); for (auto x : b) ap_interval_free(x); break; }
    case 25: { ap_environment_t* en = ap_environment_copy(a.env); start("linexpr1", UNK); ap_linexpr1_t l = ap_linexpr1_make(en, s.coin() ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, 1); ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); ap_coeff_set_scalar_int(&c, 3); ap_var_t u = uvar(e); if (!ap_linexpr1_set_coeff(&l, u, &c)) bad("accepted", "set_coeff accepts it"); if (!ap_linexpr1_get_coeff(&c, &l, u)) bad("accepted", "get_coeff accepts it"); if (ap_linexpr1_coeffref(&l, u)) bad("accepted", "coeffref accepts it"); if (!ap_linexpr1_set_list(&l, AP_COEFF_S_INT, 3, u, AP_END)) bad("accepted", "set_list accepts it"); ap_texpr1_t* t = ap_texpr1_var(en, u); if (t) bad("accepted", "ap_texpr1_var accepts it"); ap_linexpr1_clear(&l); ap_coeff_clear(&c); free_env(en); clr(); break; }
    }
    for (size_t i = 0; i < V.size(); i++) { consistent(&V[i]); if (!eqval(&V[i], &K[i])) bad("argument", "a value that was not consumed has changed"); clr(); } }
  void run() { for (size_t i = 0; i < NN; i++) isint.push_back(s.chance(2, 5)); int k = s.range(1, 2); for (int i = 0; i < k; i++) { E.push_back(subset()); V.push_back(value(E.back())); K.push_back(ap_abstract1_copy(m, &V.back())); } TR(d.name); int st = s.range(1, 6); for (int i = 0; i < st; i++) step(); if (ninv) s.nontrivial = true; }
};
static void inv1_case(Src& s, const vector<Dom>& all) { const Dom& d = all[s.draw(all.size())]; label("domain:" + d.name); crumb((d.name + ":alloc").c_str()); Inv1 w(s, d); w.run(); }
static const char* RULE = "random histories of valid operations interleaved with invalid calls at level 0 (values of another library, of other dimensions, dimensions, expressions and constraints out of range, null elements, empty arrays, malformed dimension changes and permutations); after each one the exception and its log, the returned value, the arguments not consumed and the other values are checked; non-trivial: at least one invalid call";
int main(int argc, char** argv) {
  vector<Prop> P; auto add = [&](const char* id, vector<Dom> ds, long q, long t) { Prop p; p.id = id; p.rule = RULE; p.quick = q; p.thorough = t; p.fn = [ds](Src& s) { inv_case(s, ds); }; P.push_back(p); };
  vector<Dom> v; for (auto& d : all_doms()) if (d.name == "boxMPQ" || d.name == "boxD" || d.name == "octMPQ" || d.name == "octD" || d.name == "pkMPQ" || d.name == "pkstrictMPQ" || d.name == "pkeqMPQ" || d.name == "pplpoly" || d.name == "pplgrid" || d.name == "pkgrid") v.push_back(d);
  add("inv0", v, 40000, 800000);
  Prop p; p.id = "inv1"; p.rule = "invalid calls at level 1 (values and expressions on other environments, unknown or clashing variables, variables of another type, empty arrays): exception, returned value and its environment, arguments not consumed; non-trivial: at least one invalid call"; p.quick = 40000; p.thorough = 800000; p.fn = [v](Src& s) { inv1_case(s, v); }; P.push_back(p);
  return engine_main(argc, argv, P); }
