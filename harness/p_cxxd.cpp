// The C++ data types (scalars, intervals, coefficients, dimension changes, linear and tree expressions, constraints,
// generators and their arrays) against exact models: what is put in is what is read, in every way of putting and reading.
#include "apronxx.hh"
#include "state.hpp"
#include <regex>
namespace ax = apron;
static void bad(const string& k, const string& m) { fail("cxx-" + k, m); }
static X rd(const ax::scalar& a) { return of_scalar(a.get_ap_scalar_t()); }
static I rd(const ax::interval& a) { return of_interval(a.get_ap_interval_t()); }
static I rd(const ax::coeff& a) { return of_coeff(a.get_ap_coeff_t()); }
static bool same(const I& a, const I& b) { return a.lo == b.lo && a.hi == b.hi; }
static bool same(const X& a, const X& b) { return a == b; }
static bool same(const Lin& a, const Lin& b) { if (a.c.size() != b.c.size() || !same(a.k, b.k)) return false; for (size_t i = 0; i < a.c.size(); i++) if (!same(a.c[i], b.c[i])) return false; return true; }
template<class A, class B> static A& as(B& b) { static_assert(sizeof(A) == sizeof(B), "layout"); return *reinterpret_cast<A*>(&b); }
struct Mpfr { mpfr_t v; Mpfr(double d) { mpfr_init2(v, 53); mpfr_set_d(v, d, GMP_RNDN); } ~Mpfr() { mpfr_clear(v); } };
#define THROWS(E, expr) ([&]() -> bool { try { expr; return false; } catch (const E&) { return true; } }())

struct DT {
  Src& s; NumCfg nc; LinCfg lc; TECfg tc; DT(Src& s) : s(s) { nc.level = s.draw(2); lc.num = nc; tc.num = nc; tc.num.level = 0; }
  template<class A, class B> void is(const A& got, const B& want, const char* k, const string& w) { if (!same(got, want)) bad(k, w + ": " + S(got) + " instead of " + S(want)); }
  // a number in each of the ways a C++ program can write it
  struct Num { int way; int i = 0; long l = 0; double d = 0; ax::frac f{0, 1}; int inf = 0; Q q; X v; };
  Num num(bool inf_ok = true) { Num n; n.way = s.weighted({3, 2, 3, 3, 3, 2, inf_ok ? 2 : 0}); switch (n.way) { case 0: n.i = s.range(-5, 5); if (s.chance(1, 8)) n.i = s.coin() ? INT_MAX : INT_MIN; n.v = X(Q(n.i)); break; case 1: n.l = s.range(-9, 9); if (s.chance(1, 6)) n.l = (s.coin() ? LONG_MAX : LONG_MIN) + 0; n.v = X(Q(n.l)); break; case 2: n.d = s.range(-9, 9) / 4.0; if (s.chance(1, 6)) n.d = ldexp(n.d, s.range(-60, 60)); n.v = X(q_of_double(n.d)); break;
      case 3: { long a = s.range(-9, 9); unsigned long b = s.range(1, 9); n.f = ax::frac(a, b); n.v = X(Q(a) / Q(b)); break; } case 4: n.q = gen_q(s, nc); n.v = X(n.q); break; case 5: n.d = s.range(-9, 9) / 8.0; n.v = X(q_of_double(n.d)); break; case 6: n.inf = s.coin() ? 1 : -1; n.v = n.inf > 0 ? X::pinf() : X::minf(); break; } return n; }
  string w(const Num& n) { static const char* t[] = {"int", "long", "double", "frac", "mpq", "mpfr", "infinity"}; return string(t[n.way]) + " " + S(n.v); }
  template<class F> auto with(const Num& n, F f) { switch (n.way) { case 0: return f(n.i); case 1: return f(n.l); case 2: return f(n.d); case 3: return f(n.f); case 4: return f(n.q); case 5: { Mpfr m(n.d); return f(m.v); } default: return f(ax::infty(n.inf)); } }
  ax::scalar* mks(const Num& n) { switch (n.way) { case 0: return new ax::scalar(n.i); case 1: return new ax::scalar(n.l); case 2: return new ax::scalar(n.d); case 3: return new ax::scalar(n.f); case 4: return new ax::scalar(n.q); case 5: { Mpfr m(n.d); return new ax::scalar(m.v); } default: return new ax::scalar(ax::infty(n.inf)); } }
  // ---------- scalars
  void scalars() { label("topic:scalar"); vector<std::unique_ptr<ax::scalar>> a; vector<X> v; for (int i = 0; i < 3; i++) { Num n = num(); TR("s" << i << " = " << w(n)); a.emplace_back(mks(n)); v.push_back(n.v); is(rd(*a[i]), v[i], "scalar-make", w(n)); }
    auto ord = [](int c) { return c < 0 ? ax::scalar::LESS : c > 0 ? ax::scalar::GREATER : ax::scalar::EQUAL; };
    for (int st = s.range(1, 8); st > 0; st--) { size_t i = s.draw(3), j = s.draw(3); ax::scalar &x = *a[i], &y = *a[j]; switch (s.draw(11)) {
      case 0: { Num n = num(); TR("  s" << i << " = " << w(n)); switch (n.way) { case 0: x = n.i; break; case 1: x = n.l; break; case 2: x = n.d; break; case 3: x = n.f; break; case 4: x = n.q; break; case 5: { Mpfr m(n.d); x = m.v; break; } default: x = ax::infty(n.inf); } v[i] = n.v; break; }
      case 1: TR("  s" << i << " = s" << j); x = y; v[i] = v[j]; break;
      case 2: TR("  swap s" << i << " s" << j); swap(x, y); std::swap(v[i], v[j]); break;
      case 3: TR("  neg s" << i); if (s.coin()) { x.neg(); v[i] = ::neg(v[i]); } else { ax::scalar z = -y; is(rd(z), ::neg(v[j]), "scalar-neg", "-s"); } break;
      case 4: { X e; if (v[i].inf) e = X(0); else if (sgn(v[i].v) == 0) break; else e = X(Q(1 / v[i].v)); if (x.get_discr() != AP_SCALAR_MPQ || v[i].inf) break; TR("  inv s" << i); if (s.coin()) { ax::scalar z = ~x; is(rd(z), e, "scalar-inv", "~s"); } else { x.inv(); v[i] = e; } break; }
      case 5: { TR("  compare s" << i << " s" << j); int c = ::cmp(v[i], v[j]); if (cmp(x, y) != ord(c)) bad("scalar-compare", "cmp(" + S(v[i]) + "," + S(v[j]) + ") is " + std::to_string((int)cmp(x, y))); if ((x < y) != (c < 0) || (x <= y) != (c <= 0) || (x > y) != (c > 0) || (x >= y) != (c >= 0) || (x == y) != (c == 0) || (x != y) != (c != 0)) bad("scalar-compare", "an operator comparing " + S(v[i]) + " and " + S(v[j]) + " is wrong"); break; }
      case 6: { int k = s.range(-3, 3); if (s.coin() && !v[i].inf && is_int(v[i].v) && v[i].v.get_num().fits_sint_p()) k = v[i].v.get_num().get_si(); TR("  compare s" << i << " with int " << k); int c = ::cmp(v[i], X(Q(k))); if (cmp(x, k) != ord(c)) bad("scalar-compare-int", "cmp(" + S(v[i]) + "," + std::to_string(k) + ") is " + std::to_string((int)cmp(x, k))); if ((x < k) != (c < 0) || (x <= k) != (c <= 0) || (x > k) != (c > 0) || (x >= k) != (c >= 0) || (x == k) != (c == 0) || (x != k) != (c != 0)) bad("scalar-compare-int", "an operator comparing " + S(v[i]) + " and " + std::to_string(k) + " is wrong");
        if (cmp(k, x) != ord(-c)) bad("int-compare-scalar", "cmp(" + std::to_string(k) + "," + S(v[i]) + ") is " + std::to_string((int)cmp(k, x))); if ((k > x) != (c < 0) || (k >= x) != (c <= 0) || (k < x) != (c > 0) || (k <= x) != (c >= 0) || (k == x) != (c == 0) || (k != x) != (c != 0)) bad("int-compare-scalar", "an operator comparing " + std::to_string(k) + " and " + S(v[i]) + " is wrong"); break; }
      case 7: { int q = v[i].inf ? v[i].inf : sgn(v[i].v); if (x.sgn() != ord(q)) bad("scalar-sgn", "sgn(" + S(v[i]) + ")"); if (x.is_infty() != ord(v[i].inf)) bad("scalar-infty", "is_infty(" + S(v[i]) + ")"); break; }
      case 8: { ap_scalar_discr_t d = x.get_discr(); if (THROWS(ax::bad_discriminant, x.get_double()) != (d != AP_SCALAR_DOUBLE) || THROWS(ax::bad_discriminant, x.get_mpq()) != (d != AP_SCALAR_MPQ)) bad("scalar-discr", "get_double or get_mpq of another discriminant"); if (d == AP_SCALAR_MPQ && !v[i].inf && X(x.get_mpq()) != v[i]) bad("scalar-get", "get_mpq"); if (d == AP_SCALAR_DOUBLE && !v[i].inf) { if (X(q_of_double(x.get_double())) != v[i]) bad("scalar-get", "get_double"); double z = s.range(-4, 4) / 2.0; x.get_double() = z; v[i] = X(q_of_double(z)); } else if (d == AP_SCALAR_MPQ && s.coin()) { Q z = gen_q(s, nc); x.get_mpq() = z; v[i] = X(z); } break; }
      case 9: { if (v[i].inf) break; bool up = s.coin(); ax::scalar::order o; mpq_class q = x.to_mpq(up ? GMP_RNDU : GMP_RNDD, o); if (X(q) != v[i] || o != ax::scalar::EQUAL) bad("scalar-to-mpq", S(v[i]) + " becomes " + S(q)); double z = x.to_double(up ? GMP_RNDU : GMP_RNDD, o); Q e = q_of_double(z); int c = ::cmp(X(e), v[i]); if (up ? c < 0 : c > 0) bad("scalar-to-double", S(v[i]) + " becomes " + S(e) + " rounding " + (up ? "up" : "down")); if ((c > 0) != (o == ax::scalar::GREATER) || (c < 0) != (o == ax::scalar::LESS)) bad("scalar-to-double", S(v[i]) + " becomes " + S(e) + " with order " + std::to_string((int)o));
        Mpfr m(0); x.to_mpfr(m.v, up ? GMP_RNDU : GMP_RNDD, o); Q f = q_of_mpfr(m.v); c = ::cmp(X(f), v[i]); if ((up ? c < 0 : c > 0) || (c > 0) != (o == ax::scalar::GREATER) || (c < 0) != (o == ax::scalar::LESS)) bad("scalar-to-mpfr", S(v[i]) + " becomes " + S(f)); if (X((mpq_class)x) != v[i]) bad("scalar-to-mpq", "conversion operator of " + S(v[i])); break; }
      case 10: { ax::scalar z(y); is(rd(z), v[j], "scalar-copy", "copy"); if (z.hash() != y.hash()) bad("scalar-hash", "a copy has another hash value"); std::ostringstream os; os << y; if (v[j].inf ? os.str() != S(v[j]) : y.get_discr() == AP_SCALAR_MPQ && os.str() != S(v[j])) bad("scalar-stream", os.str() + " instead of " + S(v[j])); z = 77; break; } }
      for (int k = 0; k < 3; k++) is(rd(*a[k]), v[k], "scalar-value", "s" + std::to_string(k)); } s.nontrivial = true; }
  // ---------- intervals and coefficients: two numbers written in the same way
  struct Pair { Num a, b; I v; }; Pair pair() { Pair p; p.a = num(false); p.b = num(false); while (p.b.way != p.a.way) { Num n = p.b; p.b.way = p.a.way; int k = s.range(0, 6); switch (p.a.way) { case 0: p.b.i = p.a.i > INT_MAX - 6 ? p.a.i : p.a.i + k; p.b.v = X(Q(p.b.i)); break; case 1: p.b.l = p.a.l > LONG_MAX - 6 ? p.a.l : p.a.l + k; p.b.v = X(Q(p.b.l)); break; case 2: case 5: p.b.d = p.a.d + k / 8.0; p.b.v = X(q_of_double(p.b.d)); break; case 3: p.b.f = ax::frac(p.a.f.num + k, p.a.f.den); p.b.v = X(Q(p.b.f.num) / Q(p.b.f.den)); break; case 4: p.b.q = p.a.q + k; p.b.v = X(p.b.q); break; } } p.v = I(p.a.v, p.b.v); return p; }
  static bool top(const I& i) { return i.lo.inf < 0 && i.hi.inf > 0; }
  int icmp(const I& a, const I& b) { bool l = isubset(a, b), g = isubset(b, a); return l && g ? 0 : l ? -1 : g ? 1 : 2; }
  template<class T> T* mkp(const Pair& p) { switch (p.a.way) { case 0: return new T(p.a.i, p.b.i); case 1: return new T(p.a.l, p.b.l); case 2: return new T(p.a.d, p.b.d); case 3: return new T(p.a.f, p.b.f); case 4: return new T(p.a.q, p.b.q); default: { Mpfr x(p.a.d), y(p.b.d); return new T(x.v, y.v); } } }
  template<class T> T& setp(T& t, const Pair& p) { switch (p.a.way) { case 0: return t.set(p.a.i, p.b.i); case 1: return t.set(p.a.l, p.b.l); case 2: return t.set(p.a.d, p.b.d); case 3: return t.set(p.a.f, p.b.f); case 4: return t.set(p.a.q, p.b.q); default: { Mpfr x(p.a.d), y(p.b.d); return t.set(x.v, y.v); } } }
  // makes or overwrites t with a random value; v: what it is then
  template<class T> void fresh(std::unique_ptr<T>& t, I& v, const T* other, const I& ov) { bool mk = !t || s.coin(); switch (s.weighted({4, 3, 2, 2, other ? 3 : 0})) {
      case 0: { Pair p = pair(); v = p.v; TR("  = pair of " << w(p.a) << " " << S(v)); if (mk) t.reset(mkp<T>(p)); else setp(*t, p); break; }
      case 1: { Num a = num(), b = num(); std::unique_ptr<ax::scalar> x(mks(a)), y(mks(b)); v = I(a.v, b.v); TR("  = scalars " << S(v)); if (mk) t.reset(new T(*x, *y)); else t->set(*x, *y); break; }
      case 2: v = I(X::minf(), X::pinf()); TR("  = top"); if (mk) t.reset(new T(ax::top())); else if (s.coin()) *t = ax::top(); else t->set(ax::top()); break;
      case 3: TR("  = bottom"); if (mk) t.reset(new T(ax::bottom())); else if (s.coin()) *t = ax::bottom(); else t->set(ax::bottom()); v = rd(*t); if (!v.empty()) bad("interval-bottom", "bottom is " + S(v)); break;
      case 4: TR("  = other"); v = ov; if (mk) t.reset(new T(*other)); else if (s.coin()) *t = *other; else t->set(*other); break; } is(rd(*t), v, "value-set", "value"); }
  void intervals() { label("topic:interval"); std::unique_ptr<ax::interval> a, b; I u, v; fresh<ax::interval>(a, u, nullptr, I()); fresh<ax::interval>(b, v, a.get(), u); for (int st = s.range(1, 6); st > 0; st--) { switch (s.draw(7)) {
      case 0: fresh<ax::interval>(a, u, b.get(), v); break;
      case 1: swap(*a, *b); std::swap(u, v); break;
      case 2: { ax::interval z = -*a; if (!u.empty()) is(rd(z), ineg(u), "interval-neg", "-" + S(u)); else if (!rd(z).empty()) bad("interval-neg", "- empty"); z = *a; z.neg(); if (!u.empty()) is(rd(z), ineg(u), "interval-neg", "neg " + S(u)); break; }
      case 3: { if (u.lo.inf && u.lo == u.hi) break; /* no number either way, not documented as empty */ if (a->is_top() != top(u) || a->is_bottom() != u.empty()) bad("interval-query", "is_top or is_bottom of " + S(u)); break; }
      case 4: { if (u.empty() || v.empty()) break; int c = icmp(u, v); bool le = isubset(u, v), ge = isubset(v, u); if ((*a <= *b) != le || (*a >= *b) != ge || (*a < *b) != (le && !ge) || (*a > *b) != (ge && !le) || (*a == *b) != (le && ge) || (*a != *b) == (le && ge)) bad("interval-compare", "an operator comparing " + S(u) + " and " + S(v)); int k = cmp(*a, *b); if (c == 0 ? k != 0 : c == -1 ? k != -1 : c == 1 ? k != 1 : k == 0 || k == 1 || k == -1) bad("interval-compare", "cmp of " + S(u) + " and " + S(v) + " is " + std::to_string(k)); break; }
      case 5: { is(rd(a->get_inf()), u.lo, "interval-get", "inf"); is(rd(((const ax::interval&)*a).get_sup()), u.hi, "interval-get", "sup"); if (s.coin()) { Num n = num(); std::unique_ptr<ax::scalar> x(mks(n)); if (s.coin()) { a->get_inf() = *x; u.lo = n.v; } else { a->get_sup() = *x; u.hi = n.v; } } break; }
      case 6: { ax::interval z(*a); if (z.hash() != a->hash() || !(z == *a)) bad("interval-copy", "copy of " + S(u)); std::ostringstream os; os << z; string e; if (z.get_inf().get_discr() == AP_SCALAR_MPQ && z.get_sup().get_discr() == AP_SCALAR_MPQ && !u.empty() && os.str() != (e = S(u))) bad("interval-stream", os.str() + " instead of " + e); z.set(ax::top()); break; } }
      is(rd(*a), u, "interval-value", "a"); is(rd(*b), v, "interval-value", "b"); } s.nontrivial = true; }
  void coeffs() { label("topic:coeff"); std::unique_ptr<ax::coeff> a, b; I u, v; bool sa = false, sb = false; // written as a scalar
    auto fr = [&](std::unique_ptr<ax::coeff>& t, I& r, bool& sc, const ax::coeff* o, const I& ov, bool osc) { int k = s.draw(4); if (k == 0) { Num n = num(); while (n.way == 6) n = num(false); TR("  = " << w(n)); r = I(n.v, n.v); sc = true; bool mk = !t || s.coin(); switch (n.way) {
#define ONE2(V) { if (mk) t.reset(new ax::coeff(V)); else if (s.coin()) *t = V; else t->set(V); }
#define ONE(V) { ONE2(V); break; }
        case 0: ONE(n.i) case 1: ONE(n.l) case 2: ONE(n.d) case 3: ONE(n.f) case 4: ONE(n.q) default: { Mpfr m(n.d); ONE(m.v) } } }
      else if (k == 1) { Num n = num(); std::unique_ptr<ax::scalar> x(mks(n)); TR("  = scalar " << S(n.v)); r = I(n.v, n.v); sc = true; bool mk = !t || s.coin(); ONE2(*x) }
      else if (k == 2) { std::unique_ptr<ax::interval> z; I q; fresh<ax::interval>(z, q, nullptr, I()); r = q; sc = false; bool mk = !t || s.coin(); ONE2(*z) }
      else { bool cp = o; I before = r; (void)before; fresh<ax::coeff>(t, r, nullptr, ov); sc = false; if (cp && s.chance(1, 3)) { *t = *o; r = ov; sc = osc; } }
      is(rd(*t), r, "coeff-set", "coefficient"); if (t->get_discr() != (sc ? AP_COEFF_SCALAR : AP_COEFF_INTERVAL)) bad("coeff-discr", "discriminant of " + S(r)); };
    while (0) {} do { fr(a, u, sa, nullptr, I(), false); } while (0); do { fr(b, v, sb, a.get(), u, sa); } while (0);
    for (int st = s.range(1, 5); st > 0; st--) { switch (s.draw(7)) {
      case 0: fr(a, u, sa, b.get(), v, sb); break;
      case 1: swap(*a, *b); std::swap(u, v); std::swap(sa, sb); break;
      case 2: { ax::coeff z = -*a; if (!u.empty()) is(rd(z), ineg(u), "coeff-neg", "-" + S(u)); if (u.empty()) break; a->neg(); u = ineg(u); break; }
      case 3: { bool zr = u.lo == X(0) && u.hi == X(0); if (a->is_zero() != zr) bad("coeff-zero", "is_zero of " + S(u)); ax::coeff z(*a); z.reduce(); is(rd(z), u, "coeff-reduce", "reduce"); if ((u.lo == u.hi && !u.lo.inf) && z.get_discr() != AP_COEFF_SCALAR) bad("coeff-reduce", S(u) + " is not a scalar"); break; }
      case 4: { int k = ap_coeff_cmp(a->get_ap_coeff_t(), b->get_ap_coeff_t()), e = ap_coeff_equal(a->get_ap_coeff_t(), b->get_ap_coeff_t()); if (cmp(*a, *b) != k || (*a == *b) != e || (*a != *b) == e) bad("coeff-compare", "comparison of " + S(u) + " and " + S(v)); if (sa == sb && !u.empty() && !v.empty() && e != (sa ? u.lo == v.lo : u.lo == v.lo && u.hi == v.hi)) bad("coeff-compare", "equality of " + S(u) + " and " + S(v)); break; }
      case 5: { if (THROWS(ax::bad_discriminant, a->get_scalar()) == sa || THROWS(ax::bad_discriminant, a->get_interval()) != sa) bad("coeff-get", "get_scalar or get_interval of another discriminant"); if (sa) is(rd(a->get_scalar()), u.lo, "coeff-get", "get_scalar"); else is(rd(a->get_interval()), u, "coeff-get", "get_interval"); break; }
      case 6: { ax::coeff z(*a); if (z.hash() != a->hash()) bad("coeff-copy", "copy of " + S(u)); is(rd(z), u, "coeff-copy", "copy"); z = 5; break; } }
      is(rd(*a), u, "coeff-value", "a"); is(rd(*b), v, "coeff-value", "b"); } s.nontrivial = true; }
  void itvarrays() { label("topic:interval_array"); auto gv = [&](size_t k) { vector<I> v; for (size_t i = 0; i < k; i++) v.push_back(gen_itv(s, nc)); return v; }; auto mkv = [&](const vector<I>& v) { std::vector<ax::interval> r; for (auto& i : v) { ax::interval z; ap_interval_t* t = mk_interval(i, gen_kind(s), gen_kind(s)); ap_interval_set(z.get_ap_interval_t(), t); ap_interval_free(t); r.push_back(z); } return r; };
    auto ck = [&](const ax::interval_array& a, const vector<I>& v, const char* k) { if (a.size() != v.size()) bad(k, "array of size " + std::to_string(a.size())); for (size_t i = 0; i < v.size(); i++) { is(rd(a[i]), v[i], k, "element"); is(rd(a.get(i)), v[i], k, "element"); } if (!THROWS(std::out_of_range, a.get(v.size()))) bad("array-range", "get beyond the end"); };
    vector<I> v = gv(s.draw(4)); auto V = mkv(v); ax::interval_array a(V); ck(a, v, "itvarray-make"); ax::interval_array p(V.size(), V.data()); ck(p, v, "itvarray-make"); vector<I> u = gv(s.draw(4)); auto U = mkv(u); ax::interval_array b(u.size()); b = U; ck(b, u, "itvarray-assign");
    for (int st = s.range(1, 5); st > 0; st--) switch (s.draw(5)) { case 0: a = b; v = u; ck(a, v, "itvarray-assign"); break; case 1: u = gv(s.draw(5)); U = mkv(u); b = U; ck(b, u, "itvarray-assign"); break; case 2: { ax::interval_array c(a); ck(c, v, "itvarray-copy"); std::vector<ax::interval> w = c; if (w.size() != v.size()) bad("itvarray-vector", "size"); for (size_t i = 0; i < v.size(); i++) is(rd(w[i]), v[i], "itvarray-vector", "element"); if (v.size()) c[0].set(ax::top()); ck(a, v, "itvarray-copy"); break; } case 3: { vector<I> t = gv(v.size()); auto T2 = mkv(t); if (t.empty()) break; a = T2.data(); v = t; ck(a, v, "itvarray-assign"); break; } case 4: a = a; if (v.size()) { size_t i = s.draw(v.size()); auto z = mkv(gv(1)); a.get(i) = z[0]; v[i] = rd(z[0]); } ck(a, v, "itvarray-set"); break; }
    ck(b, u, "itvarray-value"); s.nontrivial = true; }
  // ---------- dimension changes and permutations
  vector<ap_dim_t> perm(size_t n) { vector<ap_dim_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = 0; i < n; i++) std::swap(p[i], p[s.draw(i + 1)]); return p; }
  void dims() { label("topic:dimension"); auto ckp = [&](const ax::dimperm& d, const vector<ap_dim_t>& v, const char* k) { if (d.size() != v.size()) bad(k, "size of a permutation"); for (size_t i = 0; i < v.size(); i++) if (d[i] != v[i] || d.get(i) != v[i]) bad(k, "element " + std::to_string(i) + " is " + std::to_string(d[i]) + " instead of " + std::to_string(v[i])); if (!THROWS(std::out_of_range, d.get(v.size()))) bad("dim-range", "get beyond the end"); };
    size_t n = s.draw(5); auto P = perm(n), R = perm(n); ax::dimperm p(P), r(n, R.data()); ckp(p, P, "perm-make"); ckp(r, R, "perm-make"); auto inv = [](const vector<ap_dim_t>& a) { vector<ap_dim_t> q(a.size()); for (size_t i = 0; i < a.size(); i++) q[a[i]] = i; return q; }; auto comp = [](const vector<ap_dim_t>& a, const vector<ap_dim_t>& b) { vector<ap_dim_t> q(a.size()); for (size_t i = 0; i < a.size(); i++) q[i] = b[a[i]]; return q; };
    for (int st = s.range(1, 6); st > 0; st--) { switch (s.draw(9)) { case 0: p.invert(); P = inv(P); break; case 1: { ax::dimperm q = -p; ckp(q, inv(P), "perm-invert"); ax::dimperm q2(p, true); ckp(q2, inv(P), "perm-invert"); ax::dimperm q3(p); ckp(q3, P, "perm-copy"); ckp(q * p, comp(inv(P), P), "perm-invert"); break; } case 2: p *= r; P = comp(P, R); break; case 3: p *= p; P = comp(P, P); break; case 4: ckp(p * r, comp(P, R), "perm-compose"); ckp(ax::dimperm(p, r), comp(P, R), "perm-compose"); break; case 5: { size_t k = s.draw(5); n = k; p = ax::id(k); P.resize(k); for (size_t i = 0; i < k; i++) P[i] = i; ckp(ax::dimperm(ax::id(k)), P, "perm-id"); R = perm(k); r = R; break; } case 6: { if (s.coin()) { p = r; P = R; } else { R = perm(n); if (n) r = R.data(); else r = R; p = p; } break; } case 7: { ax::dimperm o(n + 1 + s.draw(2)); o = ax::id(o.size()); if (!THROWS(std::invalid_argument, p *= o) || !THROWS(std::invalid_argument, p * o)) bad("perm-size", "composition of permutations of different sizes"); break; } case 8: if (n) { size_t i = s.draw(n), j = s.draw(n); std::swap(p[i], p.get(j)); std::swap(P[i], P[j]); } break; } ckp(p, P, "perm-value"); ckp(r, R, "perm-value"); }
    // dimension changes: adding then removing
    size_t in = s.draw(3), re = s.draw(3), ki = s.draw(3), kr = s.draw(3); vector<ap_dim_t> c; for (size_t i = 0; i < ki; i++) c.push_back(s.draw(in + 1)); for (size_t i = 0; i < kr; i++) c.push_back(in + s.draw(re + 1)); std::sort(c.begin(), c.begin() + ki); std::sort(c.begin() + ki, c.end()); ax::dimchange d(ki, kr, c), e(ki, kr, c.data()); auto ckd = [&](const ax::dimchange& x, size_t a, size_t b, const vector<ap_dim_t>& v, const char* k) { if (x.get_intdim() != a || x.get_realdim() != b) bad(k, "numbers of dimensions"); for (size_t i = 0; i < v.size(); i++) if (x[i] != v[i] || x.get(i) != v[i]) bad(k, "element " + std::to_string(i) + " is " + std::to_string(x[i]) + " instead of " + std::to_string(v[i])); if (!THROWS(std::out_of_range, x.get(v.size()))) bad("dim-range", "get beyond the end"); };
    ckd(d, ki, kr, c, "change-make"); ckd(e, ki, kr, c, "change-make"); vector<ap_dim_t> iv = c; for (size_t i = 0; i < iv.size(); i++) iv[i] += i; ckd(-d, ki, kr, iv, "change-invert"); ckd(ax::dimchange(d, true), ki, kr, iv, "change-invert"); ckd(ax::dimchange(d), ki, kr, c, "change-copy"); e.add_invert(); ckd(e, ki, kr, iv, "change-invert"); d = e; ckd(d, ki, kr, iv, "change-assign"); d = c; ckd(d, ki, kr, c, "change-assign"); if (c.size()) { e = c.data(); ckd(e, ki, kr, c, "change-assign"); vector<ap_dim_t> sh(c.size() - 1); if (!THROWS(std::invalid_argument, d = sh) || !THROWS(std::invalid_argument, ax::dimchange(ki, kr, sh))) bad("change-size", "a vector too short"); } ax::dimchange o(s.draw(2), s.draw(2)); o = d; ckd(o, ki, kr, c, "change-assign"); d = d; ckd(d, ki, kr, c, "change-value"); s.nontrivial = true; }
  // ---------- linear expressions
  ax::coeff cf(const I& i) { ax::coeff z; ap_coeff_t t; ap_coeff_init(&t, AP_COEFF_SCALAR); set_coeff(&t, i, gen_kind(s), gen_kind(s)); ap_coeff_set(z.get_ap_coeff_t(), &t); ap_coeff_clear(&t); return z; }
  ax::linexpr0* mkl(const Lin& l) { std::vector<ax::coeff> v; for (auto& i : l.c) v.push_back(cf(i)); ax::coeff k = cf(l.k); switch (s.draw(4)) { case 0: return new ax::linexpr0(v, k, l.sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE); case 1: return new ax::linexpr0(v.size(), v.data(), k, l.sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE); case 2: { vector<ap_dim_t> p = perm(v.size()); std::vector<ax::coeff> w(v.size()); for (size_t i = 0; i < p.size(); i++) w[i] = v[p[i]]; return new ax::linexpr0(v.size(), w.data(), p.data(), k); } default: { ax::linexpr0* r = new ax::linexpr0(l.sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, s.coin() ? v.size() : l.sparse ? 0 : v.size()); for (ap_dim_t p : perm(v.size())) (*r)[p] = v[p]; r->get_cst() = k; return r; } } }
  Lin rl(const ax::linexpr0& e, size_t n) { return of_lin(const_cast<ax::linexpr0&>(e).get_ap_linexpr0_t(), n); }
  Lin addd(const Lin& l, const vector<ap_dim_t>& c) { Lin r(l.c.size() + c.size()); r.k = l.k; size_t k = 0, o = 0; for (size_t i = 0; i <= l.c.size(); i++) { while (k < c.size() && c[k] == i) { r.c[o++] = I(Q(0)); k++; } if (i < l.c.size()) r.c[o++] = l.c[i]; } return r; }
  Lin permd(const Lin& l, const vector<ap_dim_t>& p) { Lin r = l; for (size_t i = 0; i < p.size(); i++) r.c[p[i]] = l.c[i]; return r; }
  vector<ap_dim_t> gadd(size_t n) { vector<ap_dim_t> c; for (int k = s.draw(4); k > 0; k--) c.push_back(s.draw(n + 1)); std::sort(c.begin(), c.end()); return c; }
  // reads back what the stream shows
  bool parse(string t, Lin& l) { l = Lin(l.c.size()); t.erase(std::remove(t.begin(), t.end(), ' '), t.end()); if (t == "0") return true; size_t p = 0; auto numb = [&](X& x) { bool ng = t[p] == '-'; size_t q = p; if (t[q] == '-' || t[q] == '+') q++; if (t.compare(q, 2, "oo") == 0) { x = ng ? X::minf() : X::pinf(); p = q + 2; return true; } size_t b = q; while (q < t.size() && (isdigit(t[q]) || t[q] == '/')) q++; if (q == b) return false; x = X(Q((ng ? "-" : "") + t.substr(b, q - b))); p = q; return true; };
    while (p < t.size()) { bool ng = false; if (t[p] == '+' || t[p] == '-') ng = t[p++] == '-'; I c(Q(1)); if (t[p] == '[') { p++; if (!numb(c.lo) || t[p] != ',') return false; p++; if (!numb(c.hi) || t[p] != ']') return false; p++; } else if (t[p] != 'x') { X x; if (!numb(x)) return false; c = I(x, x); } if (ng) c = ineg(c); if (t[p] == 'x') { p++; size_t d = 0; while (p < t.size() && isdigit(t[p])) d = 10 * d + (t[p++] - '0'); if (d >= l.c.size()) return false; l.c[d] = c; } else l.k = c; } return true; }
  void linexprs() { label("topic:linexpr0"); size_t n = s.draw(5); Lin l = gen_lin(s, n, lc); TR("e = " << S(l)); std::unique_ptr<ax::linexpr0> e(mkl(l)); auto ck = [&](const ax::linexpr0& x, const Lin& m, const char* k) { Lin r = rl(x, m.c.size()); if (!same(r, m)) bad(k, S(r) + " instead of " + S(m)); }; ck(*e, l, "linexpr-make");
    for (int st = s.range(1, 6); st > 0; st--) { switch (s.draw(11)) {
      case 0: { ax::linexpr0 c(*e); ck(c, l, "linexpr-copy"); if (!equal(c, *e) || c.hash() != e->hash() || compare(c, *e) != 0) bad("linexpr-copy", "equal, compare or hash of a copy of " + S(l)); if (c.get_discr() != e->get_discr()) bad("linexpr-copy", "representation"); c.get_cst() = 99; for (size_t i = 0; i < n; i++) c[i] = 98; ck(*e, l, "linexpr-copy"); break; }
      case 1: { auto c = gadd(n); TR("  add " << c.size()); ax::dimchange d(0, c.size(), c); Lin m = addd(l, c); if (s.coin()) { ax::linexpr0 z(*e, d); ck(z, m, "linexpr-add"); } else { if (e->get_discr() == AP_LINEXPR_DENSE && e->size() < n) e->resize(n); e->add_dimensions(d); l = m; n = l.c.size(); } break; }
      case 2: { auto p = perm(n); TR("  permute"); if (e->get_discr() == AP_LINEXPR_DENSE && e->size() < n) e->resize(n); ax::dimperm d(p); Lin m = permd(l, p); if (s.coin()) { ax::linexpr0 z(*e, d); ck(z, m, "linexpr-permute"); } else { e->permute_dimensions(d); l = m; } break; }
      case 3: { Lin m = gen_lin(s, s.coin() ? n : s.draw(5), lc); TR("  = " << S(m)); std::unique_ptr<ax::linexpr0> f(mkl(m)); *e = *f; l = m; n = m.c.size(); ck(*f, m, "linexpr-assign"); *e = *e; break; }
      case 4: if (n) { size_t i = s.draw(n); I c = gen_itv(s, nc); TR("  e[" << i << "] = " << S(c)); (*e)[i] = cf(c); l.c[i] = c; } else { I c = gen_itv(s, nc); e->get_cst() = cf(c); l.k = c; } break;
      case 5: { // iteration, with copies taken on the way
        vector<I> seen(n, I(Q(0))); vector<char> v(n, 0); ax::linexpr0::iterator i = e->begin(); int gd = 0; for (; i.valid(); ++i) { if (gd++ > 100) bad("iterator-loop", "the iterator does not end"); ap_dim_t d = i.get_dim(); if (d >= n) bad("iterator-dim", "dimension " + std::to_string(d)); if (v[d]) bad("iterator-twice", "dimension " + std::to_string(d) + " twice"); v[d] = 1; seen[d] = rd(i.get_coeff()); ax::linexpr0::iterator j(i); if (!j.valid() || j.get_dim() != d) bad("iterator-copy", "a copy of an iterator at x" + std::to_string(d) + " is at " + (j.valid() ? "x" + std::to_string(j.get_dim()) : string("the end")) + " of " + S(l)); is(rd(j.get_coeff()), seen[d], "iterator-copy", "coefficient at a copy of the iterator"); ax::linexpr0::const_iterator k(i); if (k.get_dim() != d) bad("iterator-copy", "constant copy"); ax::linexpr0::iterator o = e->begin(); o = i; if (o.get_dim() != d) bad("iterator-copy", "assignment"); if (s.chance(1, 4)) { I c = gen_itv(s, nc); o.get_coeff() = cf(c); seen[d] = c; l.c[d] = c; } } for (size_t d = 0; d < n; d++) is(seen[d], l.c[d], "iterator-value", "x" + std::to_string(d)); if (!THROWS(std::out_of_range, i.get_dim()) || !THROWS(std::out_of_range, i.get_coeff())) bad("iterator-end", "no exception at the end"); const ax::linexpr0& ce = *e; size_t cnt = 0; for (ax::linexpr0::const_iterator k = ce.begin(); k.valid(); k.next()) { if (k.get_dim() >= n) bad("iterator-dim", "dimension"); is(rd(k.get_coeff()), l.c[k.get_dim()], "iterator-value", "const"); cnt++; } break; }
      case 6: { e->minimize(); break; }
      case 7: { Lin m; bool mpq = true; std::unique_ptr<ap_coeff_t, void (*)(ap_coeff_t*)> dummy(nullptr, [](ap_coeff_t*) {}); ax::linexpr0 z(AP_LINEXPR_DENSE, n); for (size_t i = 0; i < n; i++) { ap_coeff_t t; ap_coeff_init(&t, AP_COEFF_SCALAR); set_coeff(&t, l.c[i], 0, 0); ap_coeff_set(z[i].get_ap_coeff_t(), &t); ap_coeff_clear(&t); if (l.c[i].sing() && l.c[i].lo.inf) mpq = false; if (l.c[i].empty()) mpq = false; } { ap_coeff_t t; ap_coeff_init(&t, AP_COEFF_SCALAR); set_coeff(&t, l.k, 0, 0); ap_coeff_set(z.get_cst().get_ap_coeff_t(), &t); ap_coeff_clear(&t); if (l.k.empty() || (l.k.sing() && l.k.lo.inf)) mpq = false; } if (!mpq) break; std::ostringstream os; os << z; m.c.resize(n, I(Q(0))); if (!parse(os.str(), m) || !same(m, l)) bad("linexpr-stream", "'" + os.str() + "' shows " + S(m) + " instead of " + S(l)); break; }
      case 8: { size_t in = s.draw(n + 1); ap_linexpr0_t* p = e->get_ap_linexpr0_t(); if (e->is_integer(in) != ap_linexpr0_is_integer(p, in) || e->is_real(in) != ap_linexpr0_is_real(p, in) || e->is_linear() != ap_linexpr0_is_linear(p) || e->is_quasilinear() != ap_linexpr0_is_quasilinear(p) || e->get_type() != ap_linexpr0_type(p) || e->size() != ap_linexpr0_size(p) || e->hash() != ap_linexpr0_hash(p)) bad("linexpr-query", "a query of " + S(l)); break; }
      case 9: { Lin m = l; if (s.coin() && n) m.c[s.draw(n)] = I(gen_q(s, nc)); std::unique_ptr<ax::linexpr0> f(mkl(m)); if (compare(*e, *f) != ap_linexpr0_compare(e->get_ap_linexpr0_t(), f->get_ap_linexpr0_t()) || equal(*e, *f) != (bool)ap_linexpr0_equal(e->get_ap_linexpr0_t(), f->get_ap_linexpr0_t())) bad("linexpr-compare", S(l) + " and " + S(m)); break; }
      case 10: { if (e->get_discr() == AP_LINEXPR_DENSE && !THROWS(std::out_of_range, (*e)[e->size()])) bad("linexpr-range", "coefficient beyond the end of a dense expression"); is(rd(((const ax::linexpr0&)*e).get_cst()), l.k, "linexpr-cst", "constant"); if (n) { size_t i = s.draw(n); is(rd(((const ax::linexpr0&)*e)[i]), l.c[i], "linexpr-get", "coefficient"); } break; } }
      ck(*e, l, "linexpr-value"); } s.nontrivial = true; }
  // ---------- linear constraints
  Cons gc(size_t n) { Cons c; c.e = gen_lin(s, n, lc); c.t = gen_type(s, true); if (c.t == AP_CONS_EQMOD) c.mod = Q(s.range(1, 7)) / Q(s.range(1, 3)); return c; }
  ax::lincons0* mkc(const Cons& c) { std::unique_ptr<ax::linexpr0> e(mkl(c.e)); if (c.t == AP_CONS_EQMOD) { ax::scalar q(c.mod); if (s.coin()) return new ax::lincons0(c.t, *e, q); ax::lincons0* r = new ax::lincons0(c.t, *e); r->set_modulo(ax::scalar(5)); r->set_modulo(q); return r; } if (s.coin()) return new ax::lincons0(c.t, *e); ax::lincons0* r = new ax::lincons0(c.t); if (!r->has_linexpr() || r->has_modulo() || r->size()) bad("lincons-empty", "not a constraint with an empty expression"); if (!THROWS(std::invalid_argument, r->get_modulo())) bad("lincons-empty", "no exception"); r->set_linexpr(*e); return r; }
  bool samec(const ap_lincons0_t* p, const Cons& c) { return p->linexpr0 && p->constyp == c.t && same(of_lin(p->linexpr0, c.e.c.size()), c.e) && (c.t != AP_CONS_EQMOD || (p->scalar && of_scalar(p->scalar) == X(c.mod))); }
  string sc(const ap_lincons0_t* p) { char* b = nullptr; size_t k = 0; FILE* f = open_memstream(&b, &k); if (p->linexpr0) ap_lincons0_fprint(f, const_cast<ap_lincons0_t*>(p), NULL); else fprintf(f, "(empty)"); fclose(f); string r(b, k); free(b); return r; }
  void ckc(const ax::lincons0& x, const Cons& c, const char* k) { if (!samec(x.get_ap_lincons0_t(), c)) bad(k, sc(x.get_ap_lincons0_t()) + " instead of " + S(c)); }
  void lincons() { label("topic:lincons0"); size_t n = s.draw(4); Cons c = gc(n); TR("c = " << S(c)); std::unique_ptr<ax::lincons0> a(mkc(c)); ckc(*a, c, "lincons-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(8)) {
      case 0: { ax::lincons0 b(*a); ckc(b, c, "lincons-copy"); b.get_cst() = 55; for (size_t i = 0; i < n; i++) b[i] = 54; break; }
      case 1: { Cons d = gc(n); std::unique_ptr<ax::lincons0> b(mkc(d)); TR("  = " << S(d)); *a = *b; c = d; ckc(*b, d, "lincons-assign"); *a = *a; break; }
      case 2: { auto v = gadd(n); ax::dimchange d(0, v.size(), v); Cons m = c; m.e = addd(c.e, v); fix(*a, n); if (s.coin()) { ax::lincons0 b(*a, d); ckc(b, m, "lincons-add"); } else { a->add_dimensions(d); c = m; n = c.e.c.size(); } break; }
      case 3: { auto v = perm(n); ax::dimperm d(v); Cons m = c; m.e = permd(c.e, v); fix(*a, n); if (s.coin()) { ax::lincons0 b(*a, d); ckc(b, m, "lincons-permute"); } else { a->permute_dimensions(d); c = m; } break; }
      case 4: { ax::lincons0 b((ax::unsat())); if (!b.is_unsat()) bad("lincons-unsat", "the unsatisfiable constraint is not"); ax::lincons0 d(*a); d = ax::unsat(); if (!d.is_unsat()) bad("lincons-unsat", "the unsatisfiable constraint is not"); d = *a; ckc(d, c, "lincons-assign"); break; }
      case 5: { ap_lincons0_t* p = a->get_ap_lincons0_t(); if (a->is_linear() != (bool)ap_linexpr0_is_linear(p->linexpr0) || a->is_quasilinear() != (bool)ap_linexpr0_is_quasilinear(p->linexpr0) || a->is_unsat() != (bool)ap_lincons0_is_unsat(p) || a->size() != ap_linexpr0_size(p->linexpr0)) bad("lincons-query", S(c)); if (a->has_modulo() != (c.t == AP_CONS_EQMOD) && c.t == AP_CONS_EQMOD) bad("lincons-modulo", S(c)); if (c.t == AP_CONS_EQMOD && rd(a->get_modulo()) != X(c.mod)) bad("lincons-modulo", S(c)); break; }
      case 6: { ap_constyp_t t = s.coin() ? AP_CONS_EQ : AP_CONS_SUP; a->get_constyp() = t; c.t = t; break; }
      case 7: { ax::lincons0_array z((size_t)1); ax::lincons0& e1 = z[0]; ax::lincons0 e2(e1), e3(*a); e3 = e1; if (e1.has_linexpr() || e2.has_linexpr() || e3.has_linexpr()) bad("lincons-empty", "a copy of an empty constraint is not empty"); if (!THROWS(std::invalid_argument, e1.get_linexpr()) || !THROWS(std::invalid_argument, e2.get_modulo()) || !THROWS(std::invalid_argument, e1.size()) || !THROWS(std::invalid_argument, e3.resize(3)) || !THROWS(std::invalid_argument, e3.is_unsat()) || !THROWS(std::invalid_argument, e3.is_linear())) bad("lincons-empty", "no exception"); break; } }
      ckc(*a, c, "lincons-value"); }
    // arrays
    auto gv = [&](size_t k) { vector<Cons> v; for (size_t i = 0; i < k; i++) v.push_back(gc(n)); return v; }; auto mkv = [&](const vector<Cons>& v) { std::vector<ax::lincons0> r; for (auto& q : v) { std::unique_ptr<ax::lincons0> x(mkc(q)); fix(*x, n); r.push_back(*x); } return r; }; auto cka = [&](const ax::lincons0_array& x, const vector<Cons>& v, const char* k) { if (x.size() != v.size()) bad(k, "array of size " + std::to_string(x.size())); for (size_t i = 0; i < v.size(); i++) { ckc(x[i], v[i], k); if (&x.get(i) != &x[i] || &x.contents()[i] != &x[i]) bad(k, "get"); } if (!THROWS(std::out_of_range, x.get(v.size()))) bad("array-range", "get beyond the end"); };
    vector<Cons> v = gv(s.draw(4)), u = gv(s.draw(4)); auto V = mkv(v), U = mkv(u); ax::lincons0_array x(V), y(U.size(), U.data()); cka(x, v, "linconsarray-make"); cka(y, u, "linconsarray-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(7)) { case 0: x = y; v = u; x = x; break; case 1: u = gv(s.draw(4)); y = mkv(u); break; case 2: { u = gv(u.size()); if (u.empty()) break; auto q = mkv(u); y = q.data(); break; } case 3: { ax::lincons0_array z(x); cka(z, v, "linconsarray-copy"); std::vector<ax::lincons0> w = z; if (w.size() != v.size()) bad("linconsarray-vector", "size"); for (size_t i = 0; i < v.size(); i++) { ckc(w[i], v[i], "linconsarray-vector"); z[i] = ax::unsat(); } break; }
        case 4: { size_t k = s.draw(5), o = v.size(); x.resize(k); if (x.size() != k) bad("linconsarray-resize", "size"); for (size_t i = o; i < k; i++) { if (x[i].has_linexpr()) bad("linconsarray-resize", "a new constraint is not empty"); } while (v.size() > k) v.pop_back(); for (size_t i = o; i < k; i++) { Cons q = gc(n); std::unique_ptr<ax::lincons0> z(mkc(q)); fix(*z, n); x[i] = *z; v.push_back(q); } break; }
        case 5: { auto w = gadd(n); ax::dimchange d(0, w.size(), w); vector<Cons> m = v; for (auto& q : m) q.e = addd(q.e, w); ax::lincons0_array z(x, d); cka(z, m, "linconsarray-add"); ax::lincons0_array z2(x); z2.add_dimensions(d); cka(z2, m, "linconsarray-add"); auto pv = perm(n); ax::dimperm pd(pv); m = v; for (auto& q : m) q.e = permd(q.e, pv); ax::lincons0_array z3(x, pd); cka(z3, m, "linconsarray-permute"); z3 = x; z3.permute_dimensions(pd); cka(z3, m, "linconsarray-permute"); break; }
        case 6: { if (x.is_linear() != (bool)ap_lincons0_array_is_linear(x.get_ap_lincons0_array_t()) || x.is_quasilinear() != (bool)ap_lincons0_array_is_quasilinear(x.get_ap_lincons0_array_t())) bad("linconsarray-query", SV(v)); break; } }
      cka(x, v, "linconsarray-value"); cka(y, u, "linconsarray-value"); } s.nontrivial = true; }
  template<class C> void fix(C& c, size_t n) { if (c.get_linexpr().get_discr() == AP_LINEXPR_DENSE && c.size() < n) c.resize(n); }
  // ---------- generators
  struct Gen { Lin e; ap_gentyp_t t; }; Gen gg(size_t n) { Gen g; g.e = gen_lin(s, n, lc); static const ap_gentyp_t ts[] = {AP_GEN_LINE, AP_GEN_RAY, AP_GEN_VERTEX, AP_GEN_LINEMOD, AP_GEN_RAYMOD}; g.t = ts[s.draw(5)]; return g; }
  ax::generator0* mkg(const Gen& g) { std::unique_ptr<ax::linexpr0> e(mkl(g.e)); if (s.coin()) return new ax::generator0(g.t, *e); ax::generator0* r = new ax::generator0(g.t); if (!r->has_linexpr() || r->size()) bad("generator-empty", "not a generator with an empty expression"); r->set_linexpr(*e); return r; }
  void ckg(const ax::generator0& x, const Gen& g, const char* k) { const ap_generator0_t* p = x.get_ap_generator0_t(); if (!p->linexpr0 || p->gentyp != g.t || !same(of_lin(p->linexpr0, g.e.c.size()), g.e)) bad(k, "another generator instead of " + std::to_string(g.t) + " " + S(g.e)); }
  void generators() { label("topic:generator0"); size_t n = s.draw(4); Gen c = gg(n); std::unique_ptr<ax::generator0> a(mkg(c)); ckg(*a, c, "generator-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(5)) {
      case 0: { ax::generator0 b(*a); ckg(b, c, "generator-copy"); b.get_linexpr().get_cst() = 55; break; }
      case 1: { Gen d = gg(n); std::unique_ptr<ax::generator0> b(mkg(d)); *a = *b; c = d; *a = *a; break; }
      case 2: { auto v = gadd(n); ax::dimchange d(0, v.size(), v); Gen m = c; m.e = addd(c.e, v); fix(*a, n); if (s.coin()) { ax::generator0 b(*a, d); ckg(b, m, "generator-add"); } else { a->add_dimensions(d); c = m; n = c.e.c.size(); } break; }
      case 3: { auto v = perm(n); ax::dimperm d(v); Gen m = c; m.e = permd(c.e, v); fix(*a, n); if (s.coin()) { ax::generator0 b(*a, d); ckg(b, m, "generator-permute"); } else { a->permute_dimensions(d); c = m; } break; }
      case 4: { a->get_gentyp() = AP_GEN_RAY; c.t = AP_GEN_RAY; break; } } ckg(*a, c, "generator-value"); }
    auto gv = [&](size_t k) { vector<Gen> v; for (size_t i = 0; i < k; i++) v.push_back(gg(n)); return v; }; auto mkv = [&](const vector<Gen>& v) { std::vector<ax::generator0> r; for (auto& q : v) { std::unique_ptr<ax::generator0> x(mkg(q)); fix(*x, n); r.push_back(*x); } return r; }; auto cka = [&](const ax::generator0_array& x, const vector<Gen>& v, const char* k) { if (x.size() != v.size()) bad(k, "array of size " + std::to_string(x.size())); for (size_t i = 0; i < v.size(); i++) { ckg(x[i], v[i], k); if (&x.get(i) != &x[i] || &x.contents()[i] != &x[i]) bad(k, "get"); } if (!THROWS(std::out_of_range, x.get(v.size()))) bad("array-range", "get beyond the end"); };
    vector<Gen> v = gv(s.draw(4)), u = gv(s.draw(4)); auto V = mkv(v), U = mkv(u); ax::generator0_array x(V), y(U.size(), U.data()); cka(x, v, "generatorarray-make"); cka(y, u, "generatorarray-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(6)) { case 0: x = y; v = u; x = x; break; case 1: u = gv(s.draw(4)); y = mkv(u); break; case 2: { u = gv(u.size()); if (u.empty()) break; auto q = mkv(u); y = q.data(); break; } case 3: { ax::generator0_array z(x); cka(z, v, "generatorarray-copy"); std::vector<ax::generator0> w = z; if (w.size() != v.size()) bad("generatorarray-vector", "size"); for (size_t i = 0; i < v.size(); i++) ckg(w[i], v[i], "generatorarray-vector"); break; }
        case 4: { size_t k = s.draw(5), o = v.size(); x.resize(k); if (x.size() != k) bad("generatorarray-resize", "size"); while (v.size() > k) v.pop_back(); for (size_t i = o; i < k; i++) { if (x[i].has_linexpr()) bad("generatorarray-resize", "a new generator is not empty"); Gen q = gg(n); std::unique_ptr<ax::generator0> z(mkg(q)); fix(*z, n); x[i] = *z; v.push_back(q); } break; }
        case 5: { auto w = gadd(n); ax::dimchange d(0, w.size(), w); vector<Gen> m = v; for (auto& q : m) q.e = addd(q.e, w); ax::generator0_array z(x, d); cka(z, m, "generatorarray-add"); ax::generator0_array z2(x); z2.add_dimensions(d); cka(z2, m, "generatorarray-add"); auto pv = perm(n); ax::dimperm pd(pv); m = v; for (auto& q : m) q.e = permd(q.e, pv); ax::generator0_array z3(x, pd); cka(z3, m, "generatorarray-permute"); z3 = x; z3.permute_dimensions(pd); cka(z3, m, "generatorarray-permute"); break; } }
      cka(x, v, "generatorarray-value"); cka(y, u, "generatorarray-value"); } s.nontrivial = true; }
  // ---------- tree expressions
  typedef ax::texpr0::builder B;
  // builders refer to the builders they are made of: these stay alive as long as the case
  std::vector<std::unique_ptr<B>> pool; const B& bld(const T& t) { pool.emplace_back(new B(bld_(t))); return *pool.back(); }
  B bld_(const T& t) { if (t->k == 0) { bool sg = t->cst.sing(); switch (s.draw(4)) { case 0: if (sg && !t->cst.lo.inf) return B(t->cst.lo.v); break; case 1: if (sg) { ax::coeff c = cf(t->cst); return B(c); } { ax::scalar a, b; set_scalar(a.get_ap_scalar_t(), t->cst.lo, gen_kind(s)); set_scalar(b.get_ap_scalar_t(), t->cst.hi, gen_kind(s)); return B(a, b); } case 2: if (sg && is_int(t->cst.lo.v) && !t->cst.lo.inf && t->cst.lo.v.get_num().fits_sint_p()) { int k = t->cst.lo.v.get_num().get_si(); return s.coin() ? B(k) : B((double)k); } if (!sg) { ax::interval i; ap_interval_t* z = mk_interval(t->cst, 0, 0); ap_interval_set(i.get_ap_interval_t(), z); ap_interval_free(z); return B(i); } break; } return B(cf(t->cst)); }
    if (t->k == 1) return B(ax::dim(t->dim)); const B& a = bld(t->a); bool ex = t->ty == AP_RTYPE_REAL && t->dir == AP_RDIR_NEAREST; if (unary(t->op)) { switch (t->op) { case AP_TEXPR_NEG: if (ex && s.coin()) return -a; return s.coin() ? ax::neg(a, t->ty, t->dir) : unary_(t->op, a, t); case AP_TEXPR_CAST: if (t->ty == AP_RTYPE_INT && s.coin()) { if (t->dir == AP_RDIR_DOWN) return ax::floor(a); if (t->dir == AP_RDIR_UP) return ax::ceil(a); if (t->dir == AP_RDIR_ZERO) return ax::trunc(a); } return s.coin() ? ax::cast(a, t->ty, t->dir) : unary_(t->op, a, t); default: return s.coin() ? ax::sqrt(a, t->ty, t->dir) : unary_(t->op, a, t); } }
    const B& b = bld(t->b); switch (t->op) {
#define OPR(O, sym, fn) case O: if (ex && s.coin()) return a sym b; if (s.coin()) return ax::fn(a, b, t->ty, t->dir); break;
      OPR(AP_TEXPR_ADD, +, add) OPR(AP_TEXPR_SUB, -, sub) OPR(AP_TEXPR_MUL, *, mul) OPR(AP_TEXPR_DIV, /, div) OPR(AP_TEXPR_MOD, %, mod) OPR(AP_TEXPR_POW, ^, pow) default: break; } return s.coin() ? ax::binary(t->op, a, b, t->ty, t->dir) : B(t->op, a, b, t->ty, t->dir); }
  B unary_(ap_texpr_op_t op, const B& a, const T& t) { return s.coin() ? ax::unary(op, a, t->ty, t->dir) : B(op, a, t->ty, t->dir); }
  static bool samet(const T& a, const T& b) { if (a->k != b->k) return false; if (a->k == 0) return same(a->cst, b->cst); if (a->k == 1) return a->dim == b->dim; return a->op == b->op && a->ty == b->ty && (a->dir == b->dir) && samet(a->a, b->a) && (unary(a->op) || samet(a->b, b->b)); }
  void ckt(const ap_texpr0_t* p, const T& t, const char* k) { T r = of_te(p); if (!samet(r, t)) bad(k, S(r) + " instead of " + S(t)); }
  static T mapd(const T& t, const std::function<T(int)>& f) { if (t->k == 0) return t; if (t->k == 1) return f(t->dim); T r(new TE(*t)); r->a = mapd(t->a, f); if (t->b) r->b = mapd(t->b, f); return r; }
  static size_t depth(const T& t) { return t->k < 2 ? 0 : 1 + std::max(depth(t->a), t->b && !unary(t->op) ? depth(t->b) : 0); } static size_t size(const T& t) { return t->k < 2 ? 0 : 1 + size(t->a) + (t->b && !unary(t->op) ? size(t->b) : 0); }
  static void coll(const T& t, std::vector<bool>& v) { if (t->k == 1) v[t->dim] = true; if (t->k == 2) { coll(t->a, v); if (t->b && !unary(t->op)) coll(t->b, v); } }
  void walk(ax::texpr0::const_iterator i, const T& t) { int d = i.get_discr(); if (d != (t->k == 0 ? AP_TEXPR_CST : t->k == 1 ? AP_TEXPR_DIM : AP_TEXPR_NODE)) bad("texpr-iterator", "discriminant"); if (THROWS(ax::bad_discriminant, i.get_coeff()) != (t->k != 0) || THROWS(ax::bad_discriminant, i.get_dim()) != (t->k != 1) || THROWS(ax::bad_discriminant, i.get_op()) != (t->k != 2) || THROWS(ax::bad_discriminant, i.child()) != (t->k != 2)) bad("texpr-iterator", "access with another discriminant"); if (t->k == 0) is(rd(i.get_coeff()), t->cst, "texpr-iterator", "constant"); else if (t->k == 1) { if ((int)i.get_dim() != t->dim) bad("texpr-iterator", "dimension"); } else { if (i.get_op() != t->op || i.get_rtype() != t->ty || i.get_rdir() != t->dir) bad("texpr-iterator", "operator"); walk(unary(t->op) && s.coin() ? i.child() : i.left(), t->a); if (unary(t->op)) { if (!THROWS(std::out_of_range, i.right())) bad("texpr-iterator", "right of a unary operator"); } else walk(i.right(), t->b); } ckt(i.get_ap_texpr0_t(), t, "texpr-iterator"); }
  void texprs() { label("topic:texpr0"); size_t n = s.range(1, 4); T t = gen_te(s, n, tc, s.range(0, 3)); TR("t = " << S(t)); std::unique_ptr<ax::texpr0> e(new ax::texpr0(bld(t))); ckt(e->get_ap_texpr0_t(), t, "texpr-make"); for (int st = s.range(1, 5); st > 0; st--) { switch (s.draw(10)) {
      case 0: { ax::texpr0 c(*e); ckt(c.get_ap_texpr0_t(), t, "texpr-copy"); if (!c.equal(*e) || c.hash() != e->hash()) bad("texpr-copy", "equal or hash"); ax::texpr0 c2(e->root()), c3((B(*e))); ckt(c2.get_ap_texpr0_t(), t, "texpr-copy"); ckt(c3.get_ap_texpr0_t(), t, "texpr-copy"); break; }
      case 1: { T u = gen_te(s, n, tc, 2); TR("  = " << S(u)); if (s.coin()) { ax::texpr0 f(bld(u)); switch (s.draw(3)) { case 0: *e = f; break; case 1: *e = f.root(); break; case 2: *e = B(f); break; } } else *e = bld(u); t = u; *e = *e; break; }
      case 2: if (t->k == 2) { bool r = !unary(t->op) && s.coin(); TR("  = its " << (r ? "right" : "left")); T u = r ? t->b : t->a; if (r) *e = s.coin() ? e->root().right() : ((const ax::texpr0&)*e).root().right(); else *e = e->root().left(); t = u; } break;   // a part of itself
      case 3: { size_t d = s.draw(n); T u = gen_te(s, n, tc, 1); ax::texpr0 f(bld(u)); T m = mapd(t, [&](int q) { return q == (int)d ? u : t_dim(q); }); ax::texpr0 g(*e, d, f); ckt(g.get_ap_texpr0_t(), m, "texpr-substitute"); TR("  x" << d << " -> " << S(u)); e->substitute(d, f); t = m; ckt(f.get_ap_texpr0_t(), u, "texpr-substitute"); break; }
      case 4: { auto c = gadd(n); ax::dimchange d(0, c.size(), c); T m = mapd(t, [&](int q) { int k = 0; for (auto z : c) if ((int)z <= q) k++; return t_dim(q + k); }); ax::texpr0 g(*e, d); ckt(g.get_ap_texpr0_t(), m, "texpr-add"); ax::dimchange iv(d, true); ax::texpr0 h(g, iv, false); ckt(h.get_ap_texpr0_t(), t, "texpr-remove"); if (s.coin()) { e->add_dimensions(d); ckt(e->get_ap_texpr0_t(), m, "texpr-add"); e->remove_dimensions(iv); } break; }
      case 5: { auto p = perm(n); ax::dimperm d(p); T m = mapd(t, [&](int q) { return t_dim(p[q]); }); ax::texpr0 g(*e, d); ckt(g.get_ap_texpr0_t(), m, "texpr-permute"); e->permute_dimensions(d); t = m; break; }
      case 6: { std::vector<bool> v(n); coll(t, v); vector<ap_dim_t> l; for (size_t i = 0; i < n; i++) { if (v[i]) l.push_back(i); if (e->has_dim(i) != v[i]) bad("texpr-dims", "has_dim(" + std::to_string(i) + ") of " + S(t)); } if (e->dimlist() != l) bad("texpr-dims", "dimlist of " + S(t)); if (e->max_dim() != (l.empty() ? 0 : l.back() + 1)) bad("texpr-dims", "max_dim of " + S(t) + " is " + std::to_string(e->max_dim())); if (e->depth() != depth(t) || e->size() != size(t)) bad("texpr-size", "depth or size of " + S(t)); bool z = t->k == 0 && t->cst.lo == X(0) && t->cst.hi == X(0); if (e->is_zero() != z || B(*e).is_zero() != z) bad("texpr-zero", "is_zero of " + S(t)); ap_texpr0_t* p = e->get_ap_texpr0_t(); if (e->is_interval_cst() != ap_texpr0_is_interval_cst(p) || e->is_interval_linear() != ap_texpr0_is_interval_linear(p) || e->is_interval_polynomial() != ap_texpr0_is_interval_polynomial(p) || e->is_interval_polyfrac() != ap_texpr0_is_interval_polyfrac(p) || e->is_scalar() != ap_texpr0_is_scalar(p)) bad("texpr-query", S(t)); break; }
      case 7: walk(e->root(), t); break;
      case 8: { // change a part through an iterator
        ax::texpr0::iterator i = e->root(); T r(new TE(*t)), c = r; while (c->k == 2 && s.coin()) { bool rt = !unary(c->op) && s.coin(); T& ch = rt ? c->b : c->a; ch = T(new TE(*ch)); if (rt) i = i.right(); else i = s.coin() ? i.left() : (unary(c->op) ? i.child() : i.left()); c = ch; } if (c->k == 2 && !unary(c->op) && s.coin()) { i.get_op() = AP_TEXPR_SUB; c->op = AP_TEXPR_SUB; } else if (c->k == 1 && s.coin()) { ap_dim_t d = s.draw(n); i.get_dim() = d; c->dim = d; } else if (c->k == 0 && s.coin()) { I z = gen_itv(s, tc.num); i.get_coeff() = cf(z); c->cst = z; } else { T u = gen_te(s, n, tc, 1); TR("  a part becomes " << S(u)); i = bld(u); *c = *u; } t = r; break; }
      case 9: { Lin l = gen_lin(s, n, lc); std::unique_ptr<ax::linexpr0> le(mkl(l)); ax::texpr0 g(*le); for (int k = 0; k < 4; k++) { Pt p; for (size_t i = 0; i < n; i++) p.push_back(gen_q(s, nc)); I want = ::eval(l, p); T gt = of_te(g.get_ap_texpr0_t()); I got = tev(gt, p); if (!same(got, want)) bad("texpr-linear", S(gt) + " is " + S(got) + " instead of " + S(want)); } if (s.coin()) { *e = *le; t = of_te(g.get_ap_texpr0_t()); } break; } }
      ckt(e->get_ap_texpr0_t(), t, "texpr-value"); } s.nontrivial = true; }
  static I tev(const T& t, const Pt& p) { if (t->k == 0) return t->cst; if (t->k == 1) return I(p[t->dim]); I a = tev(t->a, p); if (t->op == AP_TEXPR_NEG) return ineg(a); if (t->op == AP_TEXPR_CAST) return a; I b = tev(t->b, p); return t->op == AP_TEXPR_ADD ? iadd(a, b) : t->op == AP_TEXPR_SUB ? isub(a, b) : imul(a, b); }
  // ---------- tree constraints
  TCons gtc(size_t n) { TCons c; c.e = gen_te(s, n, tc, 2); c.t = gen_type(s, true); if (c.t == AP_CONS_EQMOD) c.mod = Q(s.range(1, 7)); return c; }
  ax::tcons0* mktc(const TCons& c) { B b = bld(c.e); if (c.t == AP_CONS_EQMOD) return new ax::tcons0(c.t, b, ax::scalar(c.mod)); if (s.coin()) return new ax::tcons0(c.t, b); ax::tcons0* r = new ax::tcons0(c.t); if (r->has_texpr() || !THROWS(std::invalid_argument, r->get_texpr()) || !THROWS(std::invalid_argument, r->get_modulo())) bad("tcons-empty", "not empty"); r->set_texpr(b); if (s.coin()) r->set_texpr(b); return r; }
  void cktc(const ax::tcons0& x, const TCons& c, const char* k) { const ap_tcons0_t* p = x.get_ap_tcons0_t(); if (!p->texpr0 || p->constyp != c.t || (c.t == AP_CONS_EQMOD && (!p->scalar || of_scalar(p->scalar) != X(c.mod)))) bad(k, "another constraint instead of " + S(c)); ckt(p->texpr0, c.e, k); }
  T addt(const T& t, const vector<ap_dim_t>& c) { return mapd(t, [&](int q) { int k = 0; for (auto z : c) if ((int)z <= q) k++; return t_dim(q + k); }); }
  void tconss() { label("topic:tcons0"); size_t n = s.range(1, 3); TCons c = gtc(n); TR("c = " << S(c)); std::unique_ptr<ax::tcons0> a(mktc(c)); cktc(*a, c, "tcons-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(8)) {
      case 0: { ax::tcons0 b(*a); cktc(b, c, "tcons-copy"); b.set_texpr(B(7)); if (c.t == AP_CONS_EQMOD) b.set_modulo(ax::scalar(77)); break; }
      case 1: { TCons d = gtc(n); std::unique_ptr<ax::tcons0> b(mktc(d)); *a = *b; c = d; *a = *a; break; }
      case 2: { auto v = gadd(n); ax::dimchange d(0, v.size(), v), iv(d, true); TCons m = c; m.e = addt(c.e, v); ax::tcons0 b(*a, d); cktc(b, m, "tcons-add"); ax::tcons0 e(b, iv, false); cktc(e, c, "tcons-remove"); a->add_dimensions(d); cktc(*a, m, "tcons-add"); a->remove_dimensions(iv); break; }
      case 3: { auto v = perm(n); ax::dimperm d(v); TCons m = c; m.e = mapd(c.e, [&](int q) { return t_dim(v[q]); }); ax::tcons0 b(*a, d); cktc(b, m, "tcons-permute"); a->permute_dimensions(d); c = m; break; }
      case 4: { Cons k = gc(n); std::unique_ptr<ax::lincons0> lc0(mkc(k)); ax::tcons0 b(*lc0); ax::tcons0 d(*a); d = *lc0; for (auto* z : {&b, &d}) { const ap_tcons0_t* p = z->get_ap_tcons0_t(); if (p->constyp != k.t || (k.t == AP_CONS_EQMOD && (!p->scalar || of_scalar(p->scalar) != X(k.mod)))) bad("tcons-linear", "type of " + S(k)); T gt = of_te(p->texpr0); for (int r = 0; r < 3; r++) { Pt q; for (size_t i = 0; i < n; i++) q.push_back(gen_q(s, nc)); if (!same(tev(gt, q), ::eval(k.e, q))) bad("tcons-linear", S(gt) + " instead of " + S(k)); } } break; }
      case 5: { // a op b, seen at points
        TECfg e2 = tc; e2.nonlin = e2.round = e2.flround = e2.itv = e2.divmod = e2.sqrtpow = false; T l = s.chance(1, 4) ? t_cst(I(Q(0))) : gen_te(s, n, e2, 1), r = s.chance(1, 4) ? t_cst(I(Q(0))) : gen_te(s, n, e2, 1); int o = s.draw(6); static const char* on[] = {">=", "<=", ">", "<", "==", "!="}; B x = bld(l), y = bld(r); ax::tcons0 b = o == 0 ? x >= y : o == 1 ? x <= y : o == 2 ? x > y : o == 3 ? x < y : o == 4 ? x == y : x != y; T gt = of_te(b.get_ap_tcons0_t()->texpr0); TR("  " << S(l) << " " << on[o] << " " << S(r)); for (int k = 0; k < 6; k++) { Pt q; for (size_t i = 0; i < n; i++) q.push_back(Q(s.range(-2, 2))); Q vl = tev(l, q).lo.v, vr = tev(r, q).lo.v, vd = tev(gt, q).lo.v; bool w = o == 0 ? vl >= vr : o == 1 ? vl <= vr : o == 2 ? vl > vr : o == 3 ? vl < vr : o == 4 ? vl == vr : vl != vr; if (may_sat(I(vd), b.get_constyp(), Q(0)) != w) bad("tcons-operator", S(l) + " " + on[o] + " " + S(r) + " at " + S(q) + " becomes " + S(gt) + " " + tyname(b.get_constyp())); } break; }
      case 6: { ax::tcons0 u((ax::unsat())); ax::tcons0 d(*a); d = ax::unsat(); for (auto* z : {&u, &d}) { T gt = of_te(z->get_ap_tcons0_t()->texpr0); if (gt->k != 0 || may_sat(gt->cst, z->get_constyp(), Q(0))) bad("tcons-unsat", S(gt)); } ap_tcons0_t* p = a->get_ap_tcons0_t(); if (a->is_interval_cst() != ap_tcons0_is_interval_cst(p) || a->is_interval_linear() != ap_tcons0_is_interval_linear(p) || a->is_interval_polynomial() != ap_tcons0_is_interval_polynomial(p) || a->is_interval_polyfrac() != ap_tcons0_is_interval_polyfrac(p) || a->is_scalar() != ap_tcons0_is_scalar(p)) bad("tcons-query", S(c)); break; }
      case 7: { walk(((const ax::tcons0&)*a).get_texpr(), c.e); a->get_constyp() = AP_CONS_SUP; c.t = AP_CONS_SUP; if (s.coin()) { T u = gen_te(s, n, tc, 1); ax::texpr0::iterator i = a->get_texpr(); i = bld(u); c.e = u; } ax::tcons0 e1(AP_CONS_EQ), e2(e1); ax::tcons0 e3(*a); e3 = e1; if (e2.has_texpr() || e3.has_texpr()) bad("tcons-empty", "a copy of an empty constraint is not empty"); break; } } cktc(*a, c, "tcons-value"); }
    auto gv = [&](size_t k) { vector<TCons> v; for (size_t i = 0; i < k; i++) v.push_back(gtc(n)); return v; }; auto mkv = [&](const vector<TCons>& v) { std::vector<ax::tcons0> r; for (auto& q : v) { std::unique_ptr<ax::tcons0> x(mktc(q)); r.push_back(*x); } return r; }; auto cka = [&](const ax::tcons0_array& x, const vector<TCons>& v, const char* k) { if (x.size() != v.size()) bad(k, "array of size " + std::to_string(x.size())); for (size_t i = 0; i < v.size(); i++) { cktc(x[i], v[i], k); if (&x.get(i) != &x[i] || &x.contents()[i] != &x[i]) bad(k, "get"); } if (!THROWS(std::out_of_range, x.get(v.size()))) bad("array-range", "get beyond the end"); };
    vector<TCons> v = gv(s.draw(3)), u = gv(s.draw(3)); auto V = mkv(v), U = mkv(u); ax::tcons0_array x(V), y(U.size(), U.data()); cka(x, v, "tconsarray-make"); cka(y, u, "tconsarray-make"); for (int st = s.range(1, 4); st > 0; st--) { switch (s.draw(7)) { case 0: x = y; v = u; x = x; break; case 1: u = gv(s.draw(4)); y = mkv(u); break; case 2: { u = gv(u.size()); if (u.empty()) break; auto q = mkv(u); y = q.data(); break; } case 3: { ax::tcons0_array z(x); cka(z, v, "tconsarray-copy"); std::vector<ax::tcons0> w = z; if (w.size() != v.size()) bad("tconsarray-vector", "size"); for (size_t i = 0; i < v.size(); i++) cktc(w[i], v[i], "tconsarray-vector"); break; }
        case 4: { size_t k = s.draw(5), o = v.size(); x.resize(k); if (x.size() != k) bad("tconsarray-resize", "size"); while (v.size() > k) v.pop_back(); for (size_t i = o; i < k; i++) { if (x[i].has_texpr()) bad("tconsarray-resize", "a new constraint is not empty"); TCons q = gtc(n); std::unique_ptr<ax::tcons0> z(mktc(q)); x[i] = *z; v.push_back(q); } break; }
        case 5: { auto w = gadd(n); ax::dimchange d(0, w.size(), w), iv(d, true); vector<TCons> m = v; for (auto& q : m) q.e = addt(q.e, w); ax::tcons0_array z(x, d); cka(z, m, "tconsarray-add"); ax::tcons0_array z4(z, iv, false); cka(z4, v, "tconsarray-remove"); z.remove_dimensions(iv); cka(z, v, "tconsarray-remove"); z.add_dimensions(d); cka(z, m, "tconsarray-add"); auto pv = perm(n); ax::dimperm pd(pv); m = v; for (auto& q : m) q.e = mapd(q.e, [&](int j) { return t_dim(pv[j]); }); ax::tcons0_array z3(x, pd); cka(z3, m, "tconsarray-permute"); z3 = x; z3.permute_dimensions(pd); cka(z3, m, "tconsarray-permute"); break; }
        case 6: { vector<Cons> k; for (int i = s.draw(3); i > 0; i--) k.push_back(gc(n)); std::vector<ax::lincons0> ks; for (auto& q : k) { std::unique_ptr<ax::lincons0> z(mkc(q)); ks.push_back(*z); } ax::lincons0_array ka(ks); ax::tcons0_array z(ka), z2(1); z2 = ka; for (auto* zz : {&z, &z2}) { if (zz->size() != k.size()) bad("tconsarray-linear", "size"); for (size_t i = 0; i < k.size(); i++) { T gt = of_te((*zz)[i].get_ap_tcons0_t()->texpr0); Pt q; for (size_t j = 0; j < n; j++) q.push_back(gen_q(s, nc)); if (!same(tev(gt, q), ::eval(k[i].e, q)) || (*zz)[i].get_constyp() != k[i].t) bad("tconsarray-linear", S(gt) + " instead of " + S(k[i])); } } if (x.is_interval_linear() != (bool)ap_tcons0_array_is_interval_linear(x.get_ap_tcons0_array_t())) bad("tconsarray-query", SV(v)); break; } }
      cka(x, v, "tconsarray-value"); cka(y, u, "tconsarray-value"); } s.nontrivial = true; }
  void run() { switch (s.draw(9)) { case 0: scalars(); break; case 1: intervals(); break; case 2: coeffs(); break; case 3: itvarrays(); break; case 4: dims(); break; case 5: linexprs(); break; case 6: lincons(); break; case 7: if (s.coin()) { generators(); break; } texprs(); break; case 8: if (s.coin()) texprs(); else tconss(); break; } }
};
int main(int argc, char** argv) {
  vector<Prop> P; { Prop p; p.id = "cxxd"; p.rule = "histories over C++ scalars, intervals, coefficients, dimension changes and permutations, linear and tree expressions, constraints, generators and their arrays, built, copied, assigned, resized and modified through every constructor and operator, read back after each step and compared with an exact model; non-trivial: every case with at least one step"; p.quick = 60000; p.thorough = 2000000; p.fn = [](Src& s) { crumb("cxxd:data"); DT d(s); d.run(); }; P.push_back(p); }
  return engine_main(argc, argv, P); }
