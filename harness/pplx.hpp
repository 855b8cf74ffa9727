// Exact reference polyhedra (PPL used directly through its C++ API, not through APRON's wrapper).
#pragma once
#include <vector>
#include <string>
#include <memory>
#include <gmpxx.h>
struct PX;                 // opaque
struct LinE { std::vector<mpq_class> c; mpq_class k; };
class Poly {
public:
  std::shared_ptr<PX> p;   // value semantics through copy-on-construct helpers
  Poly() {}
  static Poly univ(size_t n); static Poly empty(size_t n); static Poly point(const std::vector<mpq_class>& pt);
  Poly copy() const; size_t dim() const; bool is_empty() const; bool valid() const { return (bool)p; }
  void add(const LinE& e, int rel);           // rel: 0 e=0, 1 e>=0, 2 e>0
  void meet(const Poly& o); void hull(const Poly& o);
  void image(const std::vector<size_t>& d, const std::vector<LinE>& e);     // parallel assignment
  void preimage(const std::vector<size_t>& d, const std::vector<LinE>& e);  // parallel substitution
  void forget(size_t d); void ray(const std::vector<mpq_class>& r, bool line);
  void close();
  // dims: new dim i takes old dim from[i], or -1 for an unconstrained fresh dim
  Poly remap(const std::vector<int>& from) const;
  void expand(size_t d, size_t n); void fold(const std::vector<size_t>& dims); // into dims[0]
  bool contains(const Poly& o) const; bool equals(const Poly& o) const;
  bool contains_point(const std::vector<mpq_class>& pt) const; bool disjoint(const Poly& o) const;
  // supremum of e; false if unbounded or empty; attained tells whether it is a maximum
  bool sup(const LinE& e, mpq_class& v, bool& attained) const; bool inf(const LinE& e, mpq_class& v, bool& attained) const;
  bool sat(const LinE& e, int rel) const;
  static Poly of_generators(size_t n, const std::vector<std::pair<int, std::vector<mpq_class>>>& g, bool& ok); // kind 0 line 1 ray 2 vertex
  std::string str() const;
  std::vector<std::pair<int, LinE>> constraints() const;
  bool topologically_closed() const; bool some_point(std::vector<mpq_class>& pt) const; size_t affine_dim() const;
  std::vector<std::pair<int, std::vector<mpq_class>>> generators() const; // kind 0 line, 1 ray, 2 point, 3 closure point
};
