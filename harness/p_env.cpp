// Environments, dimension changes and permutations against a model of sorted sets of names.
#include "apx.hpp"
extern "C" {
#include "ap_environment.h"
#include "ap_dimension.h"
}
static int rcmp(ap_var_t a, ap_var_t b) { return -strcmp((char*)a, (char*)b); }
static int hsh(ap_var_t v) { int r = 0; for (unsigned char* c = (unsigned char*)v; *c; c++) r = r * 11 + *c; return r; }
static ap_var_t cpy(ap_var_t v) { return strdup((char*)v); }
static void fre(ap_var_t v) { free(v); }
static char* tos(ap_var_t v) { return strdup((char*)v); }
static ap_var_operations_t REV = {rcmp, hsh, cpy, fre, tos};
extern "C" { extern ap_var_operations_t ap_var_operations_default; bool ap_environment_check(ap_environment_t*); bool ap_environment_check_compatibility(ap_environment_t*, ap_environment_t*); }
typedef vector<string> Names;
static const Names POOL = {"a", "b", "c", "x", "x1", "x10", "x2", "y", "z", "A", "Z", "_", "a b", "\xc3\xa9", "x'", "aa"};
struct Cmp { bool rev; bool operator()(const string& a, const string& b) const { return rev ? strcmp(a.c_str(), b.c_str()) > 0 : strcmp(a.c_str(), b.c_str()) < 0; } };
struct ME { Names in, re; Names all() const { Names r = in; r.insert(r.end(), re.begin(), re.end()); return r; } bool operator==(const ME& o) const { return in == o.in && re == o.re; } };
static string S(const Names& v) { string r; for (auto& x : v) r += " " + x; return r; }
static string S(const ME& e) { return "{int" + S(e.in) + "; real" + S(e.re) + "}"; }
static bool has(const Names& v, const string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
struct Env { ap_environment_t* e; ME m; };
struct EW {
  Src& s; Cmp c; vector<Env> E; vector<ap_environment_t*> owned; int steps = 0;
  EW(Src& s_) : s(s_) { c.rev = s.chance(1, 4); ap_var_operations = c.rev ? &REV : &ap_var_operations_default; }
  ~EW() { if (!std::uncaught_exceptions()) for (auto& x : E) ap_environment_free(x.e); ap_var_operations = &ap_var_operations_default; }
  Names sorted(Names v) { std::sort(v.begin(), v.end(), c); return v; }
  bool dup(const ME& m) { Names a = m.all(); std::sort(a.begin(), a.end()); return std::adjacent_find(a.begin(), a.end()) != a.end(); }
  Names gen(int mx) { Names r; int k = s.draw(mx + 1); for (int i = 0; i < k; i++) r.push_back(POOL[s.draw(s.coin() ? 6 : POOL.size())]); return r; }
  Names genfresh(int mx) { Names r; for (auto& x : gen(mx)) if (!has(r, x)) r.push_back(x); return r; }
  vector<ap_var_t> vars(const Names& n, vector<string>& keep) { keep = n; vector<ap_var_t> r; for (auto& x : keep) r.push_back((ap_var_t)x.c_str()); r.push_back(nullptr); return r; }
  // compares an environment with the model
  void chk(const char* op, ap_environment_t* e, const ME& m) {
    if (!e) fail(string(op) + ":null", string(op) + " returned NULL instead of " + S(m));
    if (e->intdim != m.in.size() || e->realdim != m.re.size()) fail(string(op) + ":size", "dimensions (" + std::to_string(e->intdim) + "," + std::to_string(e->realdim) + ") instead of " + S(m));
    Names a = m.all(); for (size_t i = 0; i < a.size(); i++) if (a[i] != (char*)ap_environment_var_of_dim(e, i)) fail(string(op) + ":names", "dimension " + std::to_string(i) + " is " + (char*)e->var_of_dim[i] + " instead of " + a[i] + " in " + S(m));
    if (ap_environment_check(e)) fail(string(op) + ":check", "ap_environment_check rejects " + S(m)); }
  void refs() { // reference counts: exactly the references we hold
    std::map<ap_environment_t*, size_t> n; for (auto& x : E) n[x.e]++; for (auto& x : n) if (x.first->count != x.second) fail("refcount", "an environment with " + std::to_string(x.second) + " references has count " + std::to_string(x.first->count)); }
  void push(ap_environment_t* e, const ME& m) { if (E.size() < 6) E.push_back({e, m}); else { Env& o = E[s.draw(E.size())]; ap_environment_free(o.e); o = {e, m}; } }
  Env& pick() { return E[s.draw(E.size())]; }
  ME lce(const ME& a, const ME& b, bool& ok) { ME r = a; for (auto& x : b.in) if (!has(r.in, x)) r.in.push_back(x); for (auto& x : b.re) if (!has(r.re, x)) r.re.push_back(x); r.in = sorted(r.in); r.re = sorted(r.re); ok = !dup(r); return r; }
  bool leq(const ME& a, const ME& b) { for (auto& x : a.in) if (!has(b.in, x)) return false; for (auto& x : a.re) if (!has(b.re, x)) return false; return true; }
  // does adding the dimensions of d to a give b?
  void chk_add(const char* op, ap_dimchange_t* d, const ME& a, const ME& b) {
    if (!d) { if (!(a == b)) fail(string(op) + ":no-change", "no dimension change from " + S(a) + " to " + S(b)); return; }
    size_t ai = a.in.size(), n = ai + a.re.size(); if (d->intdim != b.in.size() - ai || d->realdim != b.re.size() - a.re.size()) fail(string(op) + ":change-size", "dimension change of wrong size from " + S(a) + " to " + S(b));
    vector<int> from; size_t k = 0; Names an = a.all(), bn = b.all(); for (size_t i = 0; i + 1 < d->intdim; i++) if (d->dim[i] > d->dim[i + 1]) fail(string(op) + ":change-order", "dimension change is not sorted");
    for (size_t i = d->intdim; i + 1 < d->intdim + d->realdim; i++) if (d->dim[i] > d->dim[i + 1]) fail(string(op) + ":change-order", "dimension change is not sorted");
    for (size_t j = 0; j <= n; j++) { if (j <= ai) while (k < d->intdim && d->dim[k] == j) { from.push_back(-1); k++; } if (j >= ai && k >= d->intdim) while (k < d->intdim + d->realdim && d->dim[k] == j) { from.push_back(-1); k++; } if (j < n) from.push_back(j); }
    if (k != d->intdim + d->realdim || from.size() != bn.size()) fail(string(op) + ":change-invalid", "ill-formed dimension change from " + S(a) + " to " + S(b));
    for (size_t i = 0; i < from.size(); i++) if (from[i] >= 0 ? an[from[i]] != bn[i] : has(an, bn[i])) fail(string(op) + ":change", "the dimension change from " + S(a) + " to " + S(b) + " misplaces " + bn[i]); }
  void chk_remove(const char* op, ap_dimchange_t* d, const ME& a, const ME& b) { // a minus d = b
    if (!d) { if (!(a == b)) fail(string(op) + ":no-change", "no removal from " + S(a) + " to " + S(b)); return; }
    Names an = a.all(), r; size_t k = 0, N = d->intdim + d->realdim; for (size_t i = 0; i < an.size(); i++) { if (k < N && d->dim[k] == i) { if ((k < d->intdim) != (i < a.in.size())) fail(string(op) + ":remove-type", "an integer dimension removed as real or conversely"); k++; } else r.push_back(an[i]); }
    if (k != N || r != b.all() || d->intdim != a.in.size() - b.in.size()) fail(string(op) + ":remove", "removal from " + S(a) + " gives" + S(r) + " instead of " + S(b)); }
  void start() {
    int k = s.range(1, 3); for (int i = 0; i < k; i++) op_alloc(); }
  void op_alloc() {
    ME m; m.in = genfresh(3); m.re = genfresh(4); if (!s.chance(1, 6)) { Names r; for (auto& x : m.re) if (!has(m.in, x)) r.push_back(x); m.re = r; } if (s.chance(1, 10) && !m.in.empty()) m.in.push_back(m.in[0]);
    vector<string> k1, k2; auto a = vars(m.in, k1), b = vars(m.re, k2); TR("alloc " << S(m)); crumb("alloc"); ap_environment_t* e = m.in.empty() && m.re.empty() && s.coin() ? ap_environment_alloc_empty() : ap_environment_alloc(a.data(), m.in.size(), b.data(), m.re.size());
    for (size_t i = 0; i < m.in.size(); i++) if (m.in[i] != (char*)a[i]) fail("alloc:args", "the array of names of the caller was modified");
    if (dup(m)) { if (e) fail("alloc:dup", "an environment with the same name twice was accepted: " + S(m)); if (E.empty()) push(ap_environment_alloc_empty(), ME()); return; }
    m.in = sorted(m.in); m.re = sorted(m.re); chk("alloc", e, m); push(e, m); }
  void op_copy() { Env x = pick(); ap_environment_t* e = ap_environment_copy(x.e); TR("copy"); if (e != x.e) fail("copy", "copy did not return its argument"); push(e, x.m); }
  void op_free() { if (E.size() < 2) return; size_t i = s.draw(E.size()); TR("free"); ap_environment_free(E[i].e); E.erase(E.begin() + i); }
  void op_add() {
    Env x = pick(); Names i = genfresh(2), r = genfresh(3); bool perm = s.coin(); if (!s.chance(1, 5)) { Names a = x.m.all(), i2, r2; for (auto& y : i) if (!has(a, y)) i2.push_back(y); for (auto& y : r) if (!has(a, y) && !has(i2, y)) r2.push_back(y); i = i2; r = r2; }
    ME m = x.m; m.in.insert(m.in.end(), i.begin(), i.end()); m.re.insert(m.re.end(), r.begin(), r.end()); vector<string> k1, k2; auto a = vars(i, k1), b = vars(r, k2); TR((perm ? "add_perm " : "add ") << S(x.m) << " int" << S(i) << " real" << S(r)); crumb("add");
    ap_dimperm_t p; ap_environment_t* e = perm ? ap_environment_add_perm(x.e, a.data(), i.size(), b.data(), r.size(), &p) : ap_environment_add(x.e, a.data(), i.size(), b.data(), r.size());
    if (dup(m)) { if (e) fail("add:dup", "duplicate names accepted: " + S(m)); if (perm && p.dim) fail("add_perm:perm", "permutation not NULL after a failure"); return; }
    ME q = m; m.in = sorted(m.in); m.re = sorted(m.re); chk("add", e, m);
    if (perm) { Names o = q.all(), n = m.all(); if (p.size != n.size()) fail("add_perm:size", "permutation of wrong size"); for (size_t k = 0; k < o.size(); k++) if (p.dim[k] >= n.size() || n[p.dim[k]] != o[k]) fail("add_perm:perm", "the permutation sends " + o[k] + " to the wrong place"); ap_dimperm_clear(&p); }
    push(e, m); }
  void op_remove() {
    Env x = pick(); Names a = x.m.all(), d; bool unk = false; for (auto& y : a) if (s.chance(1, 3)) d.push_back(y); if (s.chance(1, 6)) { string u = POOL[s.draw(POOL.size())]; if (!has(a, u)) { d.push_back(u); unk = true; } } for (size_t i = 0; i + 1 < d.size(); i++) std::swap(d[i], d[i + s.draw(d.size() - i)]);
    vector<string> k; auto v = vars(d, k); TR("remove " << S(x.m) << " names" << S(d)); crumb("remove"); ap_environment_t* e = ap_environment_remove(x.e, v.data(), d.size());
    for (size_t i = 0; i < d.size(); i++) if (v[i] != k[i].c_str()) fail("remove:args", "the array of names of the caller was modified");
    if (unk) { if (e) fail("remove:unknown", "removal of an unknown variable accepted"); return; }
    ME m; for (auto& y : x.m.in) if (!has(d, y)) m.in.push_back(y); for (auto& y : x.m.re) if (!has(d, y)) m.re.push_back(y); chk("remove", e, m); push(e, m); }
  void op_rename() {
    Env x = pick(); Names a = x.m.all(), f, t; for (auto& y : a) if (s.chance(1, 3)) f.push_back(y); bool unk = false; if (s.chance(1, 8)) { string u = POOL[s.draw(POOL.size())]; if (!has(a, u)) { f.push_back(u); unk = true; } } for (size_t i = 0; i + 1 < f.size(); i++) std::swap(f[i], f[i + s.draw(f.size() - i)]);
    if (s.chance(1, 3) && f.size() > 1) { t = f; std::rotate(t.begin(), t.begin() + 1, t.end()); } else for (size_t i = 0; i < f.size(); i++) t.push_back(POOL[s.draw(POOL.size())]);
    vector<string> k1, k2; auto v1 = vars(f, k1), v2 = vars(t, k2); TR("rename " << S(x.m) << " from" << S(f) << " to" << S(t)); crumb("rename"); ap_dimperm_t p; memset(&p, 0x55, sizeof p); ap_environment_t* e = ap_environment_rename(x.e, v1.data(), v2.data(), f.size(), &p);
    ME q = x.m; for (auto* l : {&q.in, &q.re}) for (auto& y : *l) for (size_t i = 0; i < f.size(); i++) if (f[i] == y) { y = t[i]; break; }
    if (unk || dup(q)) { if (e) fail("rename:invalid", "invalid renaming accepted"); if (p.dim) fail("rename:perm", "perm->dim not NULL after a failure"); return; }
    ME m = q; m.in = sorted(m.in); m.re = sorted(m.re); chk("rename", e, m); Names o = q.all(), n = m.all(); if (p.size != n.size()) fail("rename:size", "permutation of wrong size"); for (size_t k = 0; k < o.size(); k++) if (p.dim[k] >= n.size() || n[p.dim[k]] != o[k]) fail("rename:perm", "the permutation sends " + o[k] + " to the wrong place"); ap_dimperm_clear(&p); push(e, m); }
  void op_compare() {
    Env &x = pick(), &y = pick(); bool ok; ME l = lce(x.m, y.m, ok); TR("compare " << S(x.m) << " " << S(y.m)); crumb("compare"); bool eq = x.m == y.m, le = leq(x.m, y.m), ge = leq(y.m, x.m);
    if (ap_environment_is_eq(x.e, y.e) != eq) fail("is_eq", "wrong answer on " + S(x.m) + " and " + S(y.m)); if (ap_environment_is_leq(x.e, y.e) != le) fail("is_leq", "wrong answer on " + S(x.m) + " and " + S(y.m));
    int w = !ok ? -2 : eq ? 0 : le ? -1 : ge ? 1 : 2; int r = ap_environment_compare(x.e, y.e); if (r != w) fail("compare", "compare gives " + std::to_string(r) + " instead of " + std::to_string(w) + " on " + S(x.m) + " and " + S(y.m));
    if (ap_environment_check_compatibility(x.e, y.e) != !ok) fail("compatibility", "wrong answer on " + S(x.m) + " and " + S(y.m));
    if (eq && ap_environment_hash(x.e) != ap_environment_hash(y.e)) fail("hash", "equal environments with different hash codes"); label("compare:" + std::to_string(w)); }
  void op_query() {
    Env& x = pick(); Names a = x.m.all(); TR("dim_of_var " << S(x.m)); crumb("dim_of_var"); for (auto& n : POOL) { ap_dim_t d = ap_environment_dim_of_var(x.e, (ap_var_t)n.c_str()); size_t i = std::find(a.begin(), a.end(), n) - a.begin(); if (d != (i < a.size() ? (ap_dim_t)i : AP_DIM_MAX)) fail("dim_of_var", "dimension of " + n + " is " + std::to_string(d) + " in " + S(x.m)); if (ap_environment_mem_var(x.e, (ap_var_t)n.c_str()) != (i < a.size())) fail("mem_var", "wrong answer"); }
    ap_environment_name_of_dim_t* nd = ap_environment_name_of_dim_alloc(x.e); if (nd->size != a.size()) fail("name_of_dim", "wrong size"); for (size_t i = 0; i < a.size(); i++) if (a[i] != nd->p[i]) fail("name_of_dim", "wrong name"); ap_environment_name_of_dim_free(nd);
    if (ap_environment_var_of_dim(x.e, a.size())) fail("var_of_dim", "a variable beyond the end"); chk("query", x.e, x.m); }
  void op_dimchange() {
    Env &x = pick(), &y = pick(); TR("dimchange " << S(x.m) << " -> " << S(y.m)); crumb("dimchange"); ap_dimchange_t* d = ap_environment_dimchange(x.e, y.e); bool le = leq(x.m, y.m); if (!le) { if (d) fail("dimchange:not-super", "a dimension change from " + S(x.m) + " to " + S(y.m)); }
    else { if (!d) fail("dimchange:null", "no dimension change from " + S(x.m) + " to " + S(y.m)); chk_add("dimchange", d, x.m, y.m); ap_dimchange_add_invert(d); chk_remove("add_invert", d, y.m, x.m); ap_dimchange_free(d); label("dimchange:super"); }
    bool ok; ME l = lce(x.m, y.m, ok); ap_dimchange2_t* d2 = ap_environment_dimchange2(x.e, y.e); if (!ok) { if (d2) fail("dimchange2:incompatible", "accepted " + S(x.m) + " to " + S(y.m)); }
    else { if (!d2) fail("dimchange2:null", "refused " + S(x.m) + " to " + S(y.m)); chk_add("dimchange2", d2->add, x.m, l); chk_remove("dimchange2", d2->remove, l, y.m); ap_dimchange2_free(d2); } }
  void op_lce() {
    Env x = pick(), y = pick(); TR("lce " << S(x.m) << " " << S(y.m)); crumb("lce"); ap_dimchange_t *d1 = nullptr, *d2 = nullptr; ap_environment_t* e = ap_environment_lce(x.e, y.e, &d1, &d2); bool ok; ME l = lce(x.m, y.m, ok); if (!ok) { if (e) fail("lce:incompatible", "accepted"); return; }
    chk("lce", e, l); chk_add("lce", d1, x.m, l); chk_add("lce", d2, y.m, l); if (x.m == l && d1) fail("lce:change", "a dimension change to the same environment"); if (d1) ap_dimchange_free(d1); if (d2) ap_dimchange_free(d2); push(e, l); }
  void op_lce_array() {
    int k = s.range(1, 5); vector<Env> v; for (int i = 0; i < k; i++) v.push_back(pick()); vector<ap_environment_t*> t; bool ok = true, same = true; ME l = v[0].m; for (auto& x : v) { t.push_back(x.e); bool o; l = lce(l, x.m, o); ok &= o; same &= x.m == v[0].m; }
    if (TRON) { string q; for (auto& x : v) q += " " + S(x.m); TR("lce_array" << q); } crumb("lce_array"); vector<ap_environment_t*> t0 = t; ap_dimchange_t** d = (ap_dimchange_t**)&d; ap_environment_t* e = ap_environment_lce_array(t.data(), k, &d);
    if (t != t0) fail("lce_array:args", "the array of the caller was modified");
    if (!ok) { if (e) fail("lce_array:incompatible", "accepted"); if (d) fail("lce_array:change", "dimension changes after a failure"); return; }
    chk("lce_array", e, l); if (d) { for (int i = 0; i < k; i++) { chk_add("lce_array", d[i], v[i].m, l); if (v[i].m == l && d[i]) fail("lce_array:change", "a dimension change to the same environment"); } for (int i = 0; i < k; i++) if (d[i]) ap_dimchange_free(d[i]); free(d); } else if (!same) fail("lce_array:null", "no dimension changes although the environments differ"); push(e, l); label("lce_array:" + std::to_string(k)); }
  void op_perm() {
    size_t n = s.range(0, 6); auto gen = [&] { ap_dimperm_t* p = ap_dimperm_alloc(n); ap_dimperm_set_id(p); for (size_t i = 0; i + 1 < n; i++) std::swap(p->dim[i], p->dim[i + s.draw(n - i)]); return p; }; TR("permutations of " << n); crumb("perm");
    ap_dimperm_t *p = gen(), *q = gen(), *r = ap_dimperm_alloc(n), *t = ap_dimperm_alloc(n); ap_dimperm_compose(r, p, q); ap_dimperm_invert(t, p); for (size_t i = 0; i < n; i++) { if (r->dim[i] != q->dim[p->dim[i]]) fail("perm:compose", "composition is wrong"); if (t->dim[p->dim[i]] != i) fail("perm:invert", "inverse is wrong"); }
    ap_dimperm_free(p); ap_dimperm_free(q); ap_dimperm_free(r); ap_dimperm_free(t); }
  void run() {
    start(); struct O { int w; void (EW::*f)(); }; static const O t[] = {{4, &EW::op_add}, {4, &EW::op_remove}, {4, &EW::op_rename}, {3, &EW::op_alloc}, {2, &EW::op_copy}, {2, &EW::op_free}, {4, &EW::op_compare}, {2, &EW::op_query}, {5, &EW::op_dimchange}, {4, &EW::op_lce}, {5, &EW::op_lce_array}, {1, &EW::op_perm}};
    int tot = 0; for (auto& o : t) tot += o.w; while (steps < 14 && !s.chance(1, 14)) { int v = s.draw(tot); size_t k = 0; while (v >= t[k].w) v -= t[k++].w; steps++; (this->*t[k].f)(); refs(); if (s.exhausted()) break; }
    for (auto& x : E) chk("final", x.e, x.m); bool big = false; for (auto& x : E) big |= x.m.all().size() >= 2; if (steps >= 3 && big) s.nontrivial = true; }
};
int main(int argc, char** argv) {
  vector<Prop> P; Prop p; p.id = "env"; p.rule = "histories of 1-14 operations (alloc, add, add_perm, remove, rename, copy, free, lce, lce_array, comparisons, dimension changes, permutations) on up to 6 environments over 16 names (prefixes of one another, upper/lower case, non-ASCII), default and user-defined variable orders; every result compared with a model of sorted name sets, reference counts with the references held; non-trivial: at least 3 operations and an environment of at least 2 variables";
  p.quick = 100000; p.thorough = 5000000; p.fn = [](Src& s) { EW w(s); w.run(); }; P.push_back(p);
  return engine_main(argc, argv, P); }
