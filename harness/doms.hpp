// The abstract domains linked into this binary.
#pragma once
#include "apx.hpp"
extern "C" {
#define DECL(f) ap_manager_t* f(void)
DECL(box_manager_alloc__D); DECL(box_manager_alloc__MPQ); DECL(box_manager_alloc__MPFR);
DECL(oct_manager_alloc__D); DECL(oct_manager_alloc__MPQ);
DECL(avo_manager_alloc__D); DECL(avo_manager_alloc__MPQ);
DECL(t1p_manager_alloc__D); DECL(t1p_manager_alloc__MPQ); DECL(t1p_manager_alloc__MPFR);
ap_manager_t* pk_manager_alloc__MPQ(bool strict); ap_manager_t* pk_manager_alloc__Rll(bool strict);
DECL(pkeq_manager_alloc__MPQ); DECL(pkeq_manager_alloc__Rll);
DECL(fpp_manager_alloc__D); DECL(fpp_manager_alloc__Dl);
ap_manager_t* ap_ppl_poly_manager_alloc(bool strict); ap_manager_t* ap_ppl_grid_manager_alloc(void);
ap_manager_t* ap_pkgrid_manager_alloc(ap_manager_t* manpk, ap_manager_t* manpplgrid);
ap_manager_t* ap_disjunction_manager_alloc(ap_manager_t* man, void (*merge)(ap_manager_t*, void*));
}
struct Dom {
  string name; std::function<ap_manager_t*()> alloc; std::vector<ap_manager_t*> subs;
  bool flt = false;      // floating-point numbers inside
  bool convex = true;    // concretisations are convex (over the reals)
  bool grid = false;     // congruences handled
  bool small = false;    // bounded-size integers: keep numbers small
  bool absl = false;     // returned constraints encode |x| as 11*x
  int maxdim = 5;
};
inline ap_manager_t* quietman(ap_manager_t* m) { for (int i = 0; i < AP_EXC_SIZE; i++) ap_manager_set_abort_if_exception(m, (ap_exc_t)i, false); return m; }
inline vector<Dom> all_doms() {
  vector<Dom> v; auto add = [&](const char* n, std::function<ap_manager_t*()> f, bool flt, bool convex = true, bool grid = false, bool small = false) { Dom d; d.name = n; d.alloc = f; d.flt = flt; d.convex = convex; d.grid = grid; d.small = small; v.push_back(d); };
#ifdef HAVE_box_MPQ
  add("boxMPQ", [] { return box_manager_alloc__MPQ(); }, false);
#endif
#ifdef HAVE_box_D
  add("boxD", [] { return box_manager_alloc__D(); }, true);
#endif
#ifdef HAVE_box_MPFR
  add("boxMPFR", [] { return box_manager_alloc__MPFR(); }, true);
#endif
#ifdef HAVE_oct_MPQ
  add("octMPQ", [] { return oct_manager_alloc__MPQ(); }, false);
#endif
#ifdef HAVE_oct_D
  add("octD", [] { return oct_manager_alloc__D(); }, true);
#endif
#ifdef HAVE_pk_MPQ
  add("pkMPQ", [] { return pk_manager_alloc__MPQ(false); }, false);
  add("pkstrictMPQ", [] { return pk_manager_alloc__MPQ(true); }, false);
  add("pkeqMPQ", [] { return pkeq_manager_alloc__MPQ(); }, false);
#endif
#ifdef HAVE_pk_Rll
  add("pkRll", [] { return pk_manager_alloc__Rll(false); }, false, true, false, true);
  add("pkstrictRll", [] { return pk_manager_alloc__Rll(true); }, false, true, false, true);
  add("pkeqRll", [] { return pkeq_manager_alloc__Rll(); }, false, true, false, true);
#endif
#ifdef HAVE_PPL
  add("pplpoly", [] { return ap_ppl_poly_manager_alloc(false); }, false);
  add("pplstrict", [] { return ap_ppl_poly_manager_alloc(true); }, false);
  add("pplgrid", [] { return ap_ppl_grid_manager_alloc(); }, false, false, true);
#endif
#ifdef HAVE_PKGRID
  add("pkgrid", [] { ap_manager_t* a = pk_manager_alloc__MPQ(false); ap_manager_t* b = ap_ppl_grid_manager_alloc(); quietman(a); quietman(b); ap_manager_t* r = ap_pkgrid_manager_alloc(a, b); ap_manager_free(a); ap_manager_free(b); return r; }, false, false, true);
#endif
#ifdef HAVE_t1p_MPQ
  add("t1pMPQ", [] { return t1p_manager_alloc__MPQ(); }, false);
#endif
#ifdef HAVE_t1p_D
  add("t1pD", [] { return t1p_manager_alloc__D(); }, true);
#endif
#ifdef HAVE_t1p_MPFR
  add("t1pMPFR", [] { return t1p_manager_alloc__MPFR(); }, true);
#endif
#ifdef HAVE_avo_MPQ
  add("avoMPQ", [] { return avo_manager_alloc__MPQ(); }, false, false); v.back().absl = true;
#endif
#ifdef HAVE_avo_D
  add("avoD", [] { return avo_manager_alloc__D(); }, true, false); v.back().absl = true;
#endif
#ifdef HAVE_fpp_D
  add("fppD", [] { return fpp_manager_alloc__D(); }, true);
#endif
#ifdef HAVE_fpp_Dl
  add("fppDl", [] { return fpp_manager_alloc__Dl(); }, true);
#endif
  return v;
}
inline vector<Dom> doms_named(std::initializer_list<const char*> names) { vector<Dom> r; for (auto n : names) for (auto& d : all_doms()) if (d.name == n) r.push_back(d); return r; }
