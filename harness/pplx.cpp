#include <ppl.hh>
#include "pplx.hpp"
#include <sstream>
using namespace Parma_Polyhedra_Library;
struct PX { NNC_Polyhedron q; PX(const NNC_Polyhedron& x) : q(x) {} };
typedef mpq_class Q;
static Linear_Expression le(const LinE& e, mpz_class& den) {
  den = 1; auto l = [&](const Q& q) { mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), q.get_den_mpz_t()); };
  for (auto& q : e.c) l(q); l(e.k); Linear_Expression r;
  for (size_t i = 0; i < e.c.size(); i++) { mpz_class z = e.c[i].get_num() * (den / e.c[i].get_den()); if (z != 0) r += z * Variable(i); }
  r += mpz_class(e.k.get_num() * (den / e.k.get_den())); return r; }
static Poly mk(const NNC_Polyhedron& x) { Poly r; r.p = std::make_shared<PX>(x); return r; }
Poly Poly::univ(size_t n) { return mk(NNC_Polyhedron(n)); }
Poly Poly::empty(size_t n) { return mk(NNC_Polyhedron(n, EMPTY)); }
Poly Poly::point(const std::vector<Q>& pt) { Poly r = univ(pt.size()); for (size_t i = 0; i < pt.size(); i++) { LinE e; e.c.assign(pt.size(), 0); e.c[i] = 1; e.k = -pt[i]; r.add(e, 0); } return r; }
Poly Poly::copy() const { return mk(p->q); }
size_t Poly::dim() const { return p->q.space_dimension(); }
bool Poly::is_empty() const { return p->q.is_empty(); }
void Poly::add(const LinE& e, int rel) { mpz_class d; Linear_Expression l = le(e, d); if (rel == 0) p->q.add_constraint(l == 0); else if (rel == 1) p->q.add_constraint(l >= 0); else p->q.add_constraint(l > 0); }
void Poly::meet(const Poly& o) { p->q.intersection_assign(o.p->q); }
void Poly::hull(const Poly& o) { p->q.poly_hull_assign(o.p->q); }
struct PF : public Partial_Function {};
static void swapmap(NNC_Polyhedron& q, size_t n, const std::vector<size_t>& d) { // new dims n+i replace d[i]
  Partial_Function pf; std::vector<char> gone(n, 0); for (auto x : d) gone[x] = 1;
  for (size_t i = 0; i < n; i++) if (!gone[i]) pf.insert(i, i);
  for (size_t i = 0; i < d.size(); i++) pf.insert(n + i, d[i]);
  q.map_space_dimensions(pf); }
void Poly::image(const std::vector<size_t>& d, const std::vector<LinE>& e) {
  size_t n = dim(); NNC_Polyhedron& q = p->q; q.add_space_dimensions_and_embed(d.size());
  for (size_t i = 0; i < d.size(); i++) { mpz_class den; Linear_Expression l = le(e[i], den); q.add_constraint(den * Variable(n + i) == l); }
  swapmap(q, n, d); }
void Poly::preimage(const std::vector<size_t>& d, const std::vector<LinE>& e) {
  // {x | x[d := e(x)] in P}: rename d to fresh dims, add x_d free, add fresh = e(x), project fresh out
  size_t n = dim(); NNC_Polyhedron& q = p->q; q.add_space_dimensions_and_embed(d.size());
  Partial_Function pf; std::vector<int> ix(n, -1); for (size_t i = 0; i < d.size(); i++) ix[d[i]] = i;
  for (size_t i = 0; i < n; i++) pf.insert(i, ix[i] < 0 ? i : n + ix[i]);
  for (size_t i = 0; i < d.size(); i++) pf.insert(n + i, d[i]);
  if (n + d.size() > 0) q.map_space_dimensions(pf);
  for (size_t i = 0; i < d.size(); i++) { mpz_class den; Linear_Expression l = le(e[i], den); q.add_constraint(den * Variable(n + i) == l); }
  q.remove_higher_space_dimensions(n); }
void Poly::forget(size_t d) { p->q.unconstrain(Variable(d)); }
void Poly::ray(const std::vector<Q>& r, bool line) { if (p->q.is_empty()) return; LinE e; e.c = r; e.k = 0; mpz_class den; Linear_Expression l = le(e, den); if (l.all_homogeneous_terms_are_zero()) return; p->q.add_generator(line ? Parma_Polyhedra_Library::line(l) : Parma_Polyhedra_Library::ray(l)); }
void Poly::close() { p->q.topological_closure_assign(); }
Poly Poly::remap(const std::vector<int>& from) const {
  size_t n = dim(), m = from.size(); NNC_Polyhedron q = p->q; if (q.is_empty()) return empty(m);
  std::vector<char> used(n, 0); size_t fresh = 0; for (int f : from) if (f >= 0) used[f] = 1; else fresh++;
  q.add_space_dimensions_and_embed(fresh);
  Partial_Function pf; size_t k = n; bool any = false; for (size_t i = 0; i < m; i++) { if (from[i] >= 0) pf.insert(from[i], i); else pf.insert(k++, i); any = true; }
  if (!any) return univ(0);
  q.map_space_dimensions(pf); return mk(q); }
void Poly::expand(size_t d, size_t n) { p->q.expand_space_dimension(Variable(d), n); }
void Poly::fold(const std::vector<size_t>& dims) { Variables_Set vs; for (size_t i = 1; i < dims.size(); i++) vs.insert(Variable(dims[i])); p->q.fold_space_dimensions(vs, Variable(dims[0])); }
bool Poly::contains(const Poly& o) const { return p->q.contains(o.p->q); }
bool Poly::equals(const Poly& o) const { return p->q == o.p->q; }
bool Poly::contains_point(const std::vector<Q>& pt) const { return p->q.contains(point(pt).p->q); }
bool Poly::disjoint(const Poly& o) const { return p->q.is_disjoint_from(o.p->q); }
bool Poly::sup(const LinE& e, Q& v, bool& att) const { mpz_class den; Linear_Expression l = le(e, den); Coefficient a, b; bool m; if (!p->q.maximize(l, a, b, m)) return false; v = Q(a, b * den); v.canonicalize(); att = m; return true; }
bool Poly::inf(const LinE& e, Q& v, bool& att) const { mpz_class den; Linear_Expression l = le(e, den); Coefficient a, b; bool m; if (!p->q.minimize(l, a, b, m)) return false; v = Q(a, b * den); v.canonicalize(); att = m; return true; }
bool Poly::sat(const LinE& e, int rel) const { mpz_class d; Linear_Expression l = le(e, d); Constraint c = rel == 0 ? Constraint(l == 0) : rel == 1 ? Constraint(l >= 0) : Constraint(l > 0); if (l.space_dimension() > dim()) return false; return p->q.is_empty() || p->q.relation_with(c).implies(Poly_Con_Relation::is_included()); }
Poly Poly::of_generators(size_t n, const std::vector<std::pair<int, std::vector<Q>>>& g, bool& ok) {
  Generator_System gs; bool pt = false; ok = true;
  for (auto& x : g) { LinE e; e.c = x.second; e.k = 0; mpz_class den; Linear_Expression l = le(e, den);
    if (x.first == 2) { gs.insert(Parma_Polyhedra_Library::point(l, den)); pt = true; }
    else if (l.all_homogeneous_terms_are_zero()) { if (n) ok = false; }
    else gs.insert(x.first == 0 ? Parma_Polyhedra_Library::line(l) : Parma_Polyhedra_Library::ray(l)); }
  if (g.empty()) return empty(n); if (!pt) { ok = false; return empty(n); }
  NNC_Polyhedron q(gs); if (q.space_dimension() < n) q.add_space_dimensions_and_project(n - q.space_dimension()); return mk(q); }
std::string Poly::str() const { std::ostringstream o; using namespace IO_Operators; o << p->q.minimized_constraints(); return o.str(); }
std::vector<std::pair<int, LinE>> Poly::constraints() const { std::vector<std::pair<int, LinE>> r; size_t n = dim(); for (auto& c : p->q.minimized_constraints()) { LinE e; for (size_t i = 0; i < n; i++) e.c.push_back(i < c.space_dimension() ? Q(c.coefficient(Variable(i))) : Q(0)); e.k = Q(c.inhomogeneous_term()); r.push_back({c.is_equality() ? 0 : c.is_strict_inequality() ? 2 : 1, e}); } return r; }
bool Poly::topologically_closed() const { return p->q.is_topologically_closed(); }
size_t Poly::affine_dim() const { return p->q.affine_dimension(); }
std::vector<std::pair<int, std::vector<Q>>> Poly::generators() const { std::vector<std::pair<int, std::vector<Q>>> r; size_t n = dim(); for (auto& g : p->q.minimized_generators()) { std::vector<Q> v; for (size_t i = 0; i < n; i++) { Q q = i < g.space_dimension() ? Q(g.coefficient(Variable(i))) : Q(0); if (g.is_point() || g.is_closure_point()) { q /= Q(g.divisor()); } v.push_back(q); } r.push_back({g.is_line() ? 0 : g.is_ray() ? 1 : g.is_point() ? 2 : 3, v}); } return r; }
bool Poly::some_point(std::vector<Q>& pt) const { if (is_empty()) return false; size_t n = dim(); pt.assign(n, 0); if (!n) return true; size_t k = 0; auto gs = generators(); std::vector<Q> dir(n, 0); for (auto& g : gs) { if (g.first >= 2) { for (size_t i = 0; i < n; i++) pt[i] += g.second[i]; k++; } } for (auto& q : pt) q /= Q((unsigned long)k); for (auto& g : gs) if (g.first < 2) for (size_t i = 0; i < n; i++) pt[i] += g.second[i]; return true; }
