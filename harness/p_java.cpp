// The Java interface agrees with the C interface: every method computes what the C function computes on the same arguments;
// arguments are left alone; an error of the C function becomes the corresponding Java exception.
#include "jconv.hpp"
#include "state.hpp"
#include <fenv.h>
JNIEnv* JE = nullptr;
static string exedir() { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k] = 0; string r(b); return r.substr(0, r.rfind('/')); }
// The virtual machine runs Java code called from C with rounding to nearest; in a Java program the rounding towards +oo
// that the libraries need and install (ap_fpu_init) stays installed while native methods run, which we restore here:
// every native method of japron starts by fetching a pointer with GetLongField.
static jlong (JNICALL *orig_getlong)(JNIEnv*, jobject, jfieldID);
static jlong JNICALL my_getlong(JNIEnv* e, jobject o, jfieldID f) { fesetround(FE_UPWARD); return orig_getlong(e, o, f); }
void jvm_start() {
  if (JE) return; string d = exedir();
  vector<string> o = {"-Djava.class.path=" + d + "/java/classes", "-Djava.library.path=" + d + "/java", "-Xint", "-Xshare:auto", "-Xlog:disable", "-XX:ErrorFile=/dev/null", "-XX:-CreateCoredumpOnCrash", "-XX:+UnlockExperimentalVMOptions", "-XX:+UseEpsilonGC", "-Xmx3g", "-Xms64m", "-XX:-UsePerfData", "-XX:+DisableAttachMechanism", "-Xss4m", "-XX:TieredStopAtLevel=0", "-XX:ReservedCodeCacheSize=16m", "-XX:CompressedClassSpaceSize=32m"};
  vector<JavaVMOption> jo(o.size()); for (size_t i = 0; i < o.size(); i++) { jo[i].optionString = (char*)o[i].c_str(); jo[i].extraInfo = nullptr; }
  JavaVMInitArgs a; a.version = JNI_VERSION_10; a.nOptions = jo.size(); a.options = jo.data(); a.ignoreUnrecognized = JNI_TRUE; JavaVM* vm;
  if (JNI_CreateJavaVM(&vm, (void**)&JE, &a) != JNI_OK) { fprintf(stderr, "no Java virtual machine\n"); _exit(96); }
  static JNINativeInterface_ T; T = *JE->functions; orig_getlong = T.GetLongField; T.GetLongField = my_getlong; JE->functions = &T;
}
struct Frame { Frame() { JE->PushLocalFrame(512); } ~Frame() { JE->PopLocalFrame(nullptr); } };

typedef ap_abstract0_t* V;
static const char* A0 = "apron/Abstract0";
#define MAN "Lapron/Manager;"
#define ABS "Lapron/Abstract0;"
struct JDom { string name, cls; int strict; };
static vector<JDom> jdoms() { return {{"boxD", "apron/Box", -1}, {"octD", "apron/Octagon", -1}, {"pkMPQ", "apron/Polka", 0}, {"pkstrictMPQ", "apron/Polka", 1}, {"pkeqMPQ", "apron/PolkaEq", -1}, {"pplpoly", "apron/PplPoly", 0}, {"pplstrict", "apron/PplPoly", 1}, {"pplgrid", "apron/PplGrid", -1}, {"pkgrid", "apron/PolkaGrid", 0}}; }
static jobject jmanager(const JDom& d) { return d.strict < 0 ? jnew(d.cls, "()V") : jnew(d.cls, "(Z)V", (bool)d.strict); }
static ap_exc_t exc_of(const JX& x) { string c = x.cls; if (c == "java.lang.IllegalArgumentException") return AP_EXC_INVALID_ARGUMENT; if (c == "apron.NotImplementedException") return AP_EXC_NOT_IMPLEMENTED; if (c == "apron.OverflowException") return AP_EXC_OVERFLOW; if (c == "apron.TimeoutException") return AP_EXC_TIMEOUT; if (c == "apron.OutOfSpaceException") return AP_EXC_OUT_OF_SPACE; fail("java-exception", "unexpected " + x.cls + ": " + x.msg); }

struct JCase : World {
  jobject JM; string what; int ok = 0; vector<V> R;
  static Dom mkdom(const JDom& d, jobject jm) { Dom r; for (auto& q : all_doms()) if (q.name == d.name) r = q; r.alloc = [jm] { return ap_manager_copy((ap_manager_t*)jptr("apron/Manager", jm)); }; return r; }
  bool DES = true; JCase(Src& s, const JDom& d, jobject jm) : World(s, mkdom(d, jm)), JM(jm) {}
  ~JCase() { if (std::uncaught_exceptions()) return; for (auto v : R) ap_abstract0_free(m, v); }
  void clr() { m->result.exn = AP_EXC_NONE; ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = true; }
  struct Out { ap_exc_t e = AP_EXC_NONE; bool fe = true, fb = true; }; Out oc, ox;
  void start(const char* o, const string& w) { setop(o); op = string("java-") + o; what = w; label(string("call:") + o); TR("  " << o << " " << w); }
  template<class F> auto c(F f) { clr(); auto r = f(); oc.e = m->result.exclog ? m->result.exclog->exn : AP_EXC_NONE; oc.fe = m->result.flag_exact; oc.fb = m->result.flag_best; clr(); return r; }
  template<class F> bool x(F f) { clr(); ox = Out(); try { f(); ox.fe = jcall("apron/Manager", JM, "wasExact", "()Z").z; ox.fb = jcall("apron/Manager", JM, "wasBest", "()Z").z; if (m->result.exclog) bad("log", what + ": no Java exception but the log of the manager is not empty"); clr(); return true; } catch (const JX& e) { ox.e = exc_of(e); TR("    " << e.cls << ": " << e.msg); }
    if (m->result.exclog) bad("log", what + ": the log of the manager is not cleared by the Java exception"); clr(); return false; }
  bool agree() { if (oc.e != ox.e) bad("exception", what + ": C reports " + ap_name_of_exception[oc.e] + " and Java " + ap_name_of_exception[ox.e]); if (oc.e != AP_EXC_NONE) { label(string("exn:") + ap_name_of_exception[oc.e]); return false; } ok++; if (oc.fe != ox.fe || oc.fb != ox.fb) bad("flags", what + ": the flags exact, best are " + std::to_string(ox.fe) + std::to_string(ox.fb) + " in Java and " + std::to_string(oc.fe) + std::to_string(oc.fb) + " in C"); return true; }
  string str(V v) { char* p = nullptr; size_t k = 0; FILE* f = open_memstream(&p, &k); ap_abstract0_fprint(f, m, v, NULL); fclose(f); string r(p, k); free(p); clr(); return r; }
  void eq(V a, V b, const char* k) { if (!b) bad("null", what + ": null value"); ap_dimension_t x = ap_abstract0_dimension(m, a), y = ap_abstract0_dimension(m, b); if (x.intdim != y.intdim || x.realdim != y.realdim) bad(k, what + ": dimensions differ");
    bool e = ap_abstract0_is_eq(m, a, b) || ap_abstract0_is_eq(m, b, a); clr(); if (!e) bad(k, what + ": " + str(b) + " instead of " + str(a)); }
  V cp(V v) { V r = ap_abstract0_copy(m, v); clr(); return r; }
  jobject J(V v) { jobject o = jnew(A0, "()V"); JE->SetLongField(o, jfld(A0, "ptr", "J"), (jlong)v); return o; }   // a Java object that owns v
  jobject jc(V v) { return J(cp(v)); }
  V get(jobject o) { if (!o) bad("null", what + ": null result"); return (V)jptr(A0, o); }
  void drop(jobject o) { V v = get(o); if (v) ap_abstract0_free(m, v); clr(); }
  V reg() { return R[s.draw(R.size())]; }
  bool bd() { return s.chance(1, 14); }
  typedef std::function<void(jobject)> Mut; typedef std::function<jobject(jobject)> Cop;
  // cf computes the result in C; Java does it in place (mut) or into a new object (cop)
  void compute(V a0, const std::function<V(V)>& cf, const Mut& mut, const Cop& cop) {
    bool inpl = mut && (!cop || s.coin()); DES = inpl; V k = cp(a0), w = cp(a0), cr = c([&] { return cf(w); }); DES = true; if (!inpl) { ap_abstract0_free(m, w); clr(); } jobject z = jc(a0);
    if (inpl) { label("in place"); if (x([&] { mut(z); }), agree()) eq(cr, get(z), "value"); else { V v = get(z); if (!v) bad("null", what + ": null value after the exception"); str(v); } }
    else { label("into a new object"); jobject r = nullptr; if (x([&] { r = cop(z); }), agree()) { eq(cr, get(r), "value"); if (r && JE->IsSameObject(r, z)) bad("alias", what + ": the result is the argument"); if (get(r) == get(z)) bad("alias", what + ": the result shares the value of the argument"); drop(r); } eq(k, get(z), "argument changed"); }
    drop(z);
    if (oc.e == AP_EXC_NONE) { ap_dimension_t dd = ap_abstract0_dimension(m, cr); clr(); if (dd.intdim == id && dd.realdim == rd) { size_t i = s.draw(R.size()); ap_abstract0_free(m, R[i]); R[i] = cr; cr = nullptr; } } if (cr) ap_abstract0_free(m, cr); ap_abstract0_free(m, k); clr(); }
  // ---- arguments
  int how() { return s.draw(3); }
  Lin glin() { return glin(n()); }
  Lin glin(size_t N) { Lin l = gen_lin(s, N + (bd() ? 2 : 0), lc); while (l.c.size() > N && l.c.back().sing() && l.c.back().lo == X(Q(0))) l.c.pop_back(); return l; }
  Cons gcons() { Cons k; k.e = glin(); k.t = gentype(true); if (k.t == AP_CONS_EQMOD) k.mod = Q(s.range(1, 5)); return k; }
  TCons gtc() { TCons k; k.e = gen_te(s, n() + (bd() ? 2 : 0), tc, 2); k.t = gentype(false); return k; }
  size_t gdim() { return n() && !bd() ? s.draw(n()) : n() + s.draw(2); }
  V gother() { if (bd()) { V v = ap_abstract0_top(m, id, rd + 1); clr(); return v; } return cp(reg()); }
  jobject jconss(const vector<Cons>& v) { vector<jobject> r; for (auto& c : v) r.push_back(j_cons(c, how())); return jarr("apron/Lincons0", r); }
  jobject jtconss(const vector<TCons>& v) { vector<jobject> r; for (auto& c : v) r.push_back(j_tcons(c, how())); return jarr("apron/Tcons0", r); }
#define JM0(nm, sig, ...) jcall(A0, z, nm, "(" MAN sig ")V", JM, ##__VA_ARGS__)
#define JC0(nm, sig, ...) jcall(A0, z, nm, "(" MAN sig ")" ABS, JM, ##__VA_ARGS__).l
  void op_binary() { V a = reg(), b = gother(); jobject jb = jc(b); V kb = cp(b);
    switch (s.draw(3)) {
    case 0: start("meet", ""); compute(a, [&](V v) { return ap_abstract0_meet(m, DES, v, b); }, [&](jobject z) { JM0("meet", ABS, jb); }, [&](jobject z) { return JC0("meetCopy", ABS, jb); }); break;
    case 1: start("join", ""); compute(a, [&](V v) { return ap_abstract0_join(m, DES, v, b); }, [&](jobject z) { JM0("join", ABS, jb); }, [&](jobject z) { return JC0("joinCopy", ABS, jb); }); break;
    case 2: { ap_dimension_t dd = ap_abstract0_dimension(m, b); clr(); V j = dd.realdim == rd ? ap_abstract0_join(m, false, a, b) : cp(b); clr(); jobject jj = jc(j); auto fr = [&](V v, V r) { (void)v; return r; };
      if (s.coin()) { DES = false; start("widening", ""); compute(a, [&](V v) { V r = ap_abstract0_widening(m, v, j); return fr(v, r); }, nullptr, [&](jobject z) { return JC0("widening", ABS, jj); }); }
      else { vector<Cons> cs; int k = s.range(0, 3); for (int i = 0; i < k; i++) cs.push_back(gcons()); TR("    " << SV(cs)); ap_lincons0_array_t l = mk_cons_array(cs); jobject jl = jconss(cs); start("widening", "with thresholds"); compute(a, [&](V v) { V r = ap_abstract0_widening_threshold(m, v, j, &l); return fr(v, r); }, nullptr, [&](jobject z) { return JC0("wideningThreshold", ABS "[" "Lapron/Lincons0;", jj, jl); }); ap_lincons0_array_clear(&l); }
      drop(jj); ap_abstract0_free(m, j); break; } }
    eq(kb, get(jb), "argument changed"); ap_abstract0_free(m, kb); drop(jb); ap_abstract0_free(m, b); }
  void op_arrays() { int k = s.range(1, 4); vector<V> v; vector<jobject> xs; for (int i = 0; i < k; i++) { V g = gother(); v.push_back(g); xs.push_back(jc(g)); } bool mt = s.coin(); start(mt ? "meet" : "join", "of " + std::to_string(k) + " values");
    V r = c([&] { return mt ? ap_abstract0_meet_array(m, v.data(), k) : ap_abstract0_join_array(m, v.data(), k); }); jobject q = nullptr; x([&] { q = jstatic(A0, mt ? "meet" : "join", "(" MAN "[" ABS ")" ABS, JM, jarr(A0, xs)).l; }); if (agree()) { eq(r, get(q), "value"); drop(q); } ap_abstract0_free(m, r);
    for (int i = 0; i < k; i++) { eq(v[i], get(xs[i]), "argument changed"); drop(xs[i]); ap_abstract0_free(m, v[i]); } clr(); }
  void op_constraints() { V a = reg(); switch (s.draw(3)) {
    case 0: { start("meet", "with linear constraints"); vector<Cons> cs; int k = s.range(0, 3); for (int i = 0; i < k; i++) cs.push_back(gcons()); TR("    " << SV(cs)); bool one = k == 1 && s.coin(); ap_lincons0_array_t l = mk_cons_array(cs); if (one) { jobject q = j_cons(cs[0], how()); compute(a, [&](V v) { return ap_abstract0_meet_lincons_array(m, DES, v, &l); }, [&](jobject z) { JM0("meet", "Lapron/Lincons0;", q); }, [&](jobject z) { return JC0("meetCopy", "Lapron/Lincons0;", q); }); }
      else { jobject q = jconss(cs); compute(a, [&](V v) { return ap_abstract0_meet_lincons_array(m, DES, v, &l); }, [&](jobject z) { JM0("meet", "[Lapron/Lincons0;", q); }, [&](jobject z) { return JC0("meetCopy", "[Lapron/Lincons0;", q); }); size_t i = 0; for (auto o : ofarr(q)) { Cons w = j_of_cons(o, cs[i].e.c.size()); if (w.t != cs[i].t || !leq_(w.e, cs[i].e)) bad("argument changed", "constraint " + S(cs[i]) + " becomes " + S(w)); i++; } } ap_lincons0_array_clear(&l); break; }
    case 1: { start("meet", "with tree constraints"); vector<TCons> cs; int k = s.range(0, 2); for (int i = 0; i < k; i++) cs.push_back(gtc()); TR("    " << SV(cs)); bool one = k == 1 && s.coin(); ap_tcons0_array_t l = mk_tcons_array(cs); if (one) { jobject q = j_tcons(cs[0], how()); compute(a, [&](V v) { return ap_abstract0_meet_tcons_array(m, DES, v, &l); }, [&](jobject z) { JM0("meet", "Lapron/Tcons0;", q); }, [&](jobject z) { return JC0("meetCopy", "Lapron/Tcons0;", q); }); }
      else { jobject q = jtconss(cs); compute(a, [&](V v) { return ap_abstract0_meet_tcons_array(m, DES, v, &l); }, [&](jobject z) { JM0("meet", "[Lapron/Tcons0;", q); }, [&](jobject z) { return JC0("meetCopy", "[Lapron/Tcons0;", q); }); } ap_tcons0_array_clear(&l); break; }
    case 2: { start("addRay", ""); int k = s.range(0, 2); ap_generator0_array_t g = ap_generator0_array_make(k); vector<jobject> js; for (int i = 0; i < k; i++) { Lin l = gen_lin(s, n(), lc); for (auto& q : l.c) if (!q.sing()) q = I(Q(1)); l.k = I(Q(0)); ap_gentyp_t ty = bd() ? AP_GEN_VERTEX : s.coin() ? AP_GEN_RAY : AP_GEN_LINE; g.p[i] = ap_generator0_make(ty, mk_lin(l)); js.push_back(jnew("apron/Generator0", "(ILapron/Linexpr0;)V", (jint)ty, j_lin(l, how()))); }
      if (k == 1 && s.coin()) compute(a, [&](V v) { return ap_abstract0_add_ray_array(m, DES, v, &g); }, [&](jobject z) { JM0("addRay", "Lapron/Generator0;", js[0]); }, [&](jobject z) { return JC0("addRayCopy", "Lapron/Generator0;", js[0]); });
      else compute(a, [&](V v) { return ap_abstract0_add_ray_array(m, DES, v, &g); }, [&](jobject z) { JM0("addRay", "[Lapron/Generator0;", jarr("apron/Generator0", js)); }, [&](jobject z) { return JC0("addRayCopy", "[Lapron/Generator0;", jarr("apron/Generator0", js)); }); ap_generator0_array_clear(&g); break; } } }
  void op_assign() { V a = reg(); int k = s.range(1, 3); vector<ap_dim_t> ds; for (int i = 0; i < k; i++) { size_t q = gdim(); if (std::find(ds.begin(), ds.end(), q) == ds.end()) ds.push_back(q); } k = ds.size(); bool sub = s.coin(), one = k == 1 && s.coin(), withd = s.chance(1, 3); V dv = withd ? gother() : nullptr; jobject D = withd ? jc(dv) : nullptr; string F = sub ? "substitute" : "assign";
    if (s.coin()) { start(F.c_str(), "linear"); vector<ap_linexpr0_t*> es; vector<jobject> xe; for (int i = 0; i < k; i++) { Lin l = glin(); TR("    x" << ds[i] << " := " << S(l)); es.push_back(mk_lin(l)); xe.push_back(j_lin(l, how())); }
      auto cf = [&](V v) { if (one) return sub ? ap_abstract0_substitute_linexpr(m, DES, v, ds[0], es[0], dv) : ap_abstract0_assign_linexpr(m, DES, v, ds[0], es[0], dv); return sub ? ap_abstract0_substitute_linexpr_array(m, DES, v, ds.data(), es.data(), k, dv) : ap_abstract0_assign_linexpr_array(m, DES, v, ds.data(), es.data(), k, dv); };
      if (one) compute(a, cf, [&](jobject z) { JM0(F, "ILapron/Linexpr0;" ABS, (jint)ds[0], xe[0], D); }, [&](jobject z) { return JC0(F + "Copy", "ILapron/Linexpr0;" ABS, (jint)ds[0], xe[0], D); });
      else compute(a, cf, [&](jobject z) { JM0(F, "[I[Lapron/Linexpr0;" ABS, jints(ds), jarr("apron/Linexpr0", xe), D); }, [&](jobject z) { return JC0(F + "Copy", "[I[Lapron/Linexpr0;" ABS, jints(ds), jarr("apron/Linexpr0", xe), D); });
      for (auto e : es) ap_linexpr0_free(e); }
    else { start(F.c_str(), "tree"); vector<ap_texpr0_t*> es; vector<jobject> xe; for (int i = 0; i < k; i++) { T l = gen_te(s, n() + (bd() ? 1 : 0), tc, 2); TR("    x" << ds[i] << " := " << S(l)); es.push_back(mk_te(l)); xe.push_back(j_tintern(l)); }
      auto cf = [&](V v) { if (one) return sub ? ap_abstract0_substitute_texpr(m, DES, v, ds[0], es[0], dv) : ap_abstract0_assign_texpr(m, DES, v, ds[0], es[0], dv); return sub ? ap_abstract0_substitute_texpr_array(m, DES, v, ds.data(), es.data(), k, dv) : ap_abstract0_assign_texpr_array(m, DES, v, ds.data(), es.data(), k, dv); };
      if (one) compute(a, cf, [&](jobject z) { JM0(F, "ILapron/Texpr0Intern;" ABS, (jint)ds[0], xe[0], D); }, [&](jobject z) { return JC0(F + "Copy", "ILapron/Texpr0Intern;" ABS, (jint)ds[0], xe[0], D); });
      else compute(a, cf, [&](jobject z) { JM0(F, "[I[Lapron/Texpr0Intern;" ABS, jints(ds), jarr("apron/Texpr0Intern", xe), D); }, [&](jobject z) { return JC0(F + "Copy", "[I[Lapron/Texpr0Intern;" ABS, jints(ds), jarr("apron/Texpr0Intern", xe), D); });
      for (auto e : es) ap_texpr0_free(e); }
    if (D) { eq(dv, get(D), "destination changed"); drop(D); ap_abstract0_free(m, dv); } }
  void op_dims() { V a = reg(); switch (s.draw(6)) {
    case 0: { int k = s.range(n() ? 1 : 0, 2); vector<ap_dim_t> ds; for (int i = 0; i < k; i++) { size_t q = gdim(); if (std::find(ds.begin(), ds.end(), q) == ds.end()) ds.push_back(q); } k = ds.size(); bool p = s.coin(); start("forget", p ? "project" : ""); auto cf = [&](V v) { return ap_abstract0_forget_array(m, DES, v, ds.data(), k, p); }; if (k == 1 && s.coin()) compute(a, cf, [&](jobject z) { JM0("forget", "IZ", (jint)ds[0], p); }, [&](jobject z) { return JC0("forgetCopy", "IZ", (jint)ds[0], p); }); else compute(a, cf, [&](jobject z) { JM0("forget", "[IZ", jints(ds), p); }, [&](jobject z) { return JC0("forgetCopy", "[IZ", jints(ds), p); }); break; }
    case 1: { size_t ki = s.draw(3), kr = s.draw(3); vector<ap_dim_t> ds; for (size_t i = 0; i < ki; i++) ds.push_back(s.draw(id + 1)); for (size_t i = 0; i < kr; i++) ds.push_back(id + s.draw(rd + 1)); std::sort(ds.begin(), ds.begin() + ki); std::sort(ds.begin() + ki, ds.end()); if (bd() && ds.size()) ds[s.draw(ds.size())] = n() + 3; jobject dc = j_dimchange(ki, kr, ds); bool p = s.coin(); start("addDimensions", p ? "project" : ""); ap_dimchange_t* q = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < ds.size(); i++) q->dim[i] = ds[i];
      compute(a, [&](V v) { return ap_abstract0_add_dimensions(m, DES, v, q, p); }, [&](jobject z) { JM0("addDimensions", "Lapron/Dimchange;Z", dc, p); }, [&](jobject z) { return JC0("addDimensionsCopy", "Lapron/Dimchange;Z", dc, p); }); ap_dimchange_free(q); break; }
    case 2: { vector<ap_dim_t> ds; size_t ki = 0; for (size_t i = 0; i < n(); i++) if (s.chance(1, 3)) { ds.push_back(i); ki += i < id; } if (bd() && ds.size()) ds[s.draw(ds.size())] = n() + 3; size_t kr = ds.size() - ki; jobject dc = j_dimchange(ki, kr, ds); start("removeDimensions", ""); ap_dimchange_t* q = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < ds.size(); i++) q->dim[i] = ds[i];
      compute(a, [&](V v) { return ap_abstract0_remove_dimensions(m, DES, v, q); }, [&](jobject z) { JM0("removeDimensions", "Lapron/Dimchange;", dc); }, [&](jobject z) { return JC0("removeDimensionsCopy", "Lapron/Dimchange;", dc); }); ap_dimchange_free(q); break; }
    case 3: { vector<ap_dim_t> pm(n()); for (size_t i = 0; i < n(); i++) pm[i] = i; for (size_t i = 0; i < n(); i++) { size_t lo = i < id ? 0 : id; std::swap(pm[i], pm[lo + s.draw(i - lo + 1)]); } jobject dp = j_dimperm(pm); start("permuteDimensions", ""); ap_dimperm_t* q = ap_dimperm_alloc(n()); for (size_t i = 0; i < n(); i++) q->dim[i] = pm[i];
      compute(a, [&](V v) { return ap_abstract0_permute_dimensions(m, DES, v, q); }, [&](jobject z) { JM0("permuteDimensions", "Lapron/Dimperm;", dp); }, [&](jobject z) { return JC0("permuteDimensionsCopy", "Lapron/Dimperm;", dp); }); ap_dimperm_free(q); break; }
    case 4: { size_t dm = gdim(), k = s.draw(3); start("expand", "x" + std::to_string(dm)); compute(a, [&](V v) { return ap_abstract0_expand(m, DES, v, dm, k); }, [&](jobject z) { JM0("expand", "II", (jint)dm, (jint)k); }, [&](jobject z) { return JC0("expandCopy", "II", (jint)dm, (jint)k); }); break; }
    case 5: { bool it = id && (!rd || s.coin()); vector<ap_dim_t> ds; for (size_t i = it ? 0 : id; i < (it ? id : n()); i++) if (s.coin()) ds.push_back(i); if (ds.empty() && n()) ds.push_back(it ? 0 : id); if (bd()) ds.push_back(n()); if (ds.empty()) return; start("fold", ""); compute(a, [&](V v) { return ap_abstract0_fold(m, DES, v, ds.data(), ds.size()); }, [&](jobject z) { JM0("fold", "[I", jints(ds)); }, [&](jobject z) { return JC0("foldCopy", "[I", jints(ds)); }); break; } } }
  void op_repr() { V a = reg(); switch (s.draw(4)) {
    case 0: start("closure", ""); compute(a, [&](V v) { return ap_abstract0_closure(m, DES, v); }, [&](jobject z) { JM0("closure", ""); }, [&](jobject z) { return JC0("closureCopy", ""); }); break;
    case 1: start("minimize", ""); compute(a, [&](V v) { ap_abstract0_minimize(m, v); return v; }, [&](jobject z) { JM0("minimize", ""); }, nullptr); break;
    case 2: start("canonicalize", ""); compute(a, [&](V v) { ap_abstract0_canonicalize(m, v); return v; }, [&](jobject z) { JM0("canonicalize", ""); }, nullptr); break;
    case 3: { int al = s.draw(4); start("approximate", std::to_string(al)); compute(a, [&](V v) { ap_abstract0_approximate(m, v, al); return v; }, [&](jobject z) { JM0("approximate", "I", (jint)al); }, nullptr); break; } } }
  void op_make() { V a = reg(); size_t i = id, r = rd; if (s.coin()) { i = s.draw(3); r = s.draw(3); } size_t N = i + r; V q = nullptr; jobject z = nullptr;
    switch (s.draw(5)) {
    case 0: { start("make", "top or bottom"); bool e = s.coin(), df = !e && s.coin(); q = c([&] { return e ? ap_abstract0_bottom(m, i, r) : ap_abstract0_top(m, i, r); }); x([&] { z = df ? jnew(A0, "(" MAN "II)V", JM, (jint)i, (jint)r) : jnew(A0, "(" MAN "IIZ)V", JM, (jint)i, (jint)r, e); }); break; }
    case 1: { start("make", "a box"); vector<I> b; for (size_t j = 0; j < N; j++) b.push_back(gen_itv(s, pc)); TR("    " << SV(b)); ap_interval_t** t = mk_box(b); q = c([&] { return ap_abstract0_of_box(m, i, r, t); }); free_box(t, N); bool sh = N && bd(); vector<jobject> js; for (size_t j = 0; j + sh < N; j++) js.push_back(j_interval(b[j], gen_kind(s), gen_kind(s))); x([&] { z = jnew(A0, "(" MAN "II[Lapron/Interval;)V", JM, (jint)i, (jint)r, jarr("apron/Interval", js)); }); if (sh) { if (ox.e != AP_EXC_INVALID_ARGUMENT) bad("short", "an array of intervals of the wrong size is accepted"); ap_abstract0_free(m, q); return; } break; }
    case 2: { start("make", "linear constraints"); vector<Cons> v; int k = s.range(0, 3); for (int j = 0; j < k; j++) { Cons t; t.e = glin(N); t.t = gentype(false); v.push_back(t); } TR("    " << SV(v)); ap_lincons0_array_t l = mk_cons_array(v); q = c([&] { return ap_abstract0_meet_lincons_array(m, true, ap_abstract0_top(m, i, r), &l); }); ap_lincons0_array_clear(&l); x([&] { z = jnew(A0, "(" MAN "II[Lapron/Lincons0;)V", JM, (jint)i, (jint)r, jconss(v)); }); break; }
    case 3: { start("make", "tree constraints"); vector<TCons> v; int k = s.range(0, 2); for (int j = 0; j < k; j++) { TCons t; t.e = gen_te(s, N + (bd() ? 1 : 0), tc, 2); t.t = gentype(false); v.push_back(t); } TR("    " << SV(v)); ap_tcons0_array_t l = mk_tcons_array(v); q = c([&] { return ap_abstract0_meet_tcons_array(m, true, ap_abstract0_top(m, i, r), &l); }); ap_tcons0_array_clear(&l); x([&] { z = jnew(A0, "(" MAN "II[Lapron/Tcons0;)V", JM, (jint)i, (jint)r, jtconss(v)); }); break; }
    case 4: { start("make", "a copy"); jobject w = jc(a); q = c([&] { return ap_abstract0_copy(m, a); }); x([&] { z = jnew(A0, "(" MAN ABS ")V", JM, w); }); if (agree() && get(z) == get(w)) bad("alias", "the copy shares the value"); drop(w); break; } }
    if (agree()) { eq(q, get(z), "value"); drop(z); } ap_abstract0_free(m, q); clr(); }
  template<class F, class G> void query(F cf, G xf) { auto r = c(cf); decltype(r) q{}; x([&] { q = xf(); }); if (agree() && !(r == q)) bad("answer", what + ": Java answers " + std::to_string((long)q) + " and C " + std::to_string((long)r)); }
#define JQ0(nm, sig, ret, ...) jcall(A0, z, nm, "(" MAN sig ")" ret, JM, ##__VA_ARGS__)
  void op_query() { V a = reg(); jobject z = jc(a); V kz = cp(a); switch (s.draw(13)) {
    case 0: start("isBottom", ""); query([&] { return ap_abstract0_is_bottom(m, a); }, [&] { return (bool)JQ0("isBottom", "", "Z").z; }); break;
    case 1: start("isTop", ""); query([&] { return ap_abstract0_is_top(m, a); }, [&] { return (bool)JQ0("isTop", "", "Z").z; }); break;
    case 2: case 3: { V b = s.chance(1, 4) ? cp(a) : gother(); jobject y = jc(b); if (s.coin()) { start("isEqual", ""); query([&] { return ap_abstract0_is_eq(m, a, b); }, [&] { return (bool)JQ0("isEqual", ABS, "Z", y).z; }); } else { start("isIncluded", ""); query([&] { return ap_abstract0_is_leq(m, a, b); }, [&] { return (bool)JQ0("isIncluded", ABS, "Z", y).z; }); } eq(b, get(y), "argument changed"); drop(y); ap_abstract0_free(m, b); break; }
    case 4: { start("satisfy", "linear"); Cons cc = gcons(); ap_lincons0_t k = mk_cons(cc); jobject jk = j_cons(cc, how()); query([&] { return ap_abstract0_sat_lincons(m, a, &k); }, [&] { return (bool)JQ0("satisfy", "Lapron/Lincons0;", "Z", jk).z; }); ap_lincons0_clear(&k); break; }
    case 5: { start("satisfy", "tree"); TCons cc = gtc(); ap_tcons0_t k = mk_tcons(cc); jobject jk = j_tcons(cc, how()); query([&] { return ap_abstract0_sat_tcons(m, a, &k); }, [&] { return (bool)JQ0("satisfy", "Lapron/Tcons0;", "Z", jk).z; }); ap_tcons0_clear(&k); break; }
    case 6: { start("satisfy", "interval"); size_t dm = gdim(); I iv = gen_itv(s, pc); ap_interval_t* i = mk_interval(iv, 0, 0); query([&] { return ap_abstract0_sat_interval(m, a, dm, i); }, [&] { return (bool)JQ0("satisfy", "ILapron/Interval;", "Z", (jint)dm, j_interval(iv, gen_kind(s), gen_kind(s))).z; }); ap_interval_free(i); break; }
    case 7: { start("isDimensionUnconstrained", ""); size_t dm = gdim(); query([&] { return ap_abstract0_is_dimension_unconstrained(m, a, dm); }, [&] { return (bool)JQ0("isDimensionUnconstrained", "I", "Z", (jint)dm).z; }); break; }
    case 8: start("getSize", ""); query([&] { return (int)ap_abstract0_size(m, kz); }, [&] { return (int)JQ0("getSize", "", "I").i; }); { jobject dd = JQ0("getDimension", "", "Lapron/Dimension;").l; if ((size_t)JE->GetIntField(dd, jfld("apron/Dimension", "intDim", "I")) != id || (size_t)JE->GetIntField(dd, jfld("apron/Dimension", "realDim", "I")) != rd) bad("dimension", "getDimension"); jobject g = jcall(A0, z, "getCreationManager", "()Lapron/Manager;").l; if (jptr("apron/Manager", g) != m) bad("manager", "getCreationManager"); if (jstr(jcall("apron/Manager", JM, "getLibrary", "()Ljava/lang/String;").l) != m->library || jstr(jcall("apron/Manager", JM, "getVersion", "()Ljava/lang/String;").l) != m->version) bad("manager", "library and version"); } break;
    case 9: case 10: { int k = s.draw(3); start("getBound", k == 0 ? "linear" : k == 1 ? "tree" : "dimension"); size_t dm = gdim(); Lin le = glin(); T te = gen_te(s, n() + (bd() ? 1 : 0), tc, 2); ap_linexpr0_t* e = mk_lin(le); ap_texpr0_t* t = mk_te(te); jobject jl = j_lin(le, how()), jt = j_tintern(te); ap_interval_t* r = c([&] { return k == 0 ? ap_abstract0_bound_linexpr(m, a, e) : k == 1 ? ap_abstract0_bound_texpr(m, a, t) : ap_abstract0_bound_dimension(m, a, dm); });
      jobject q = nullptr; x([&] { q = k == 0 ? JQ0("getBound", "Lapron/Linexpr0;", "Lapron/Interval;", jl).l : k == 1 ? JQ0("getBound", "Lapron/Texpr0Intern;", "Lapron/Interval;", jt).l : JQ0("getBound", "I", "Lapron/Interval;", (jint)dm).l; }); if (agree()) { I u = of_interval(r), w = j_of_coeff(q); if (u.lo != w.lo || u.hi != w.hi) bad("answer", what + ": Java answers " + S(w) + " and C " + S(u)); } ap_interval_free(r); ap_linexpr0_free(e); ap_texpr0_free(t); break; }
    case 11: { start("toBox", ""); ap_interval_t** r = c([&] { return ap_abstract0_to_box(m, a); }); jobject q = nullptr; x([&] { q = JQ0("toBox", "", "[Lapron/Interval;").l; }); if (agree()) { auto w = ofarr(q); if (w.size() != n()) bad("answer", "toBox: wrong size"); for (size_t i = 0; i < n(); i++) { I u = of_interval(r[i]), y = j_of_coeff(w[i]); if (u.lo != y.lo || u.hi != y.hi) bad("answer", "toBox: " + S(y) + " instead of " + S(u)); } } for (size_t i = 0; r && i < n(); i++) ap_interval_free(r[i]); free(r); break; }
    case 12: { start("hashCode", ""); query([&] { return ap_abstract0_hash(m, kz); }, [&] { return (int)JQ0("hashCode", "", "I").i; }); break; } }
    eq(kz, get(z), "argument changed"); ap_abstract0_free(m, kz); drop(z); }
  void op_convert() { V a = reg(); jobject z = jc(a); V kz = cp(a); switch (s.draw(5)) {
    case 0: { start("toLincons", ""); ap_lincons0_array_t r = c([&] { return ap_abstract0_to_lincons_array(m, kz); }); jobject q = nullptr; x([&] { q = JQ0("toLincons", "", "[Lapron/Lincons0;").l; }); if (agree()) { auto w = ofarr(q); if (w.size() != r.size) bad("answer", "toLincons: " + std::to_string(w.size()) + " constraints instead of " + std::to_string(r.size)); for (size_t i = 0; i < w.size(); i++) { Cons u = of_cons(&r.p[i], n()), y = j_of_cons(w[i], n()); if (u.t != y.t || !leq_(u.e, y.e) || (u.t == AP_CONS_EQMOD && u.mod != y.mod)) bad("answer", "toLincons: " + S(y) + " instead of " + S(u)); } } ap_lincons0_array_clear(&r); break; }
    case 1: { start("toTcons", ""); ap_tcons0_array_t r = c([&] { return ap_abstract0_to_tcons_array(m, kz); }); jobject q = nullptr; x([&] { q = JQ0("toTcons", "", "[Lapron/Tcons0;").l; }); if (agree()) { auto w = ofarr(q); if (w.size() != r.size) bad("answer", "toTcons: size"); for (size_t i = 0; i < w.size(); i++) { TCons y = j_of_tcons(w[i]); T u = of_te(r.p[i].texpr0); if (r.p[i].constyp != y.t || !teq_(u, y.e) || (y.t == AP_CONS_EQMOD && of_scalar(r.p[i].scalar) != X(y.mod))) bad("answer", "toTcons: " + S(y) + " instead of " + S(u)); } } ap_tcons0_array_clear(&r); break; }
    case 2: { start("toGenerator", ""); ap_generator0_array_t r = c([&] { return ap_abstract0_to_generator_array(m, kz); }); jobject q = nullptr; x([&] { q = JQ0("toGenerator", "", "[Lapron/Generator0;").l; }); if (agree()) { auto w = ofarr(q); if (w.size() != r.size) bad("answer", "toGenerator: size"); for (size_t i = 0; i < w.size(); i++) { Lin u = of_lin(r.p[i].linexpr0, n()), y = j_of_lin(jget("apron/Generator0", w[i], "coord", "Lapron/Linexpr0;"), n()); if ((int)r.p[i].gentyp != JE->GetIntField(w[i], jfld("apron/Generator0", "kind", "I")) || !leq_(u, y)) bad("answer", "toGenerator: " + S(y) + " instead of " + S(u)); } } ap_generator0_array_clear(&r); break; }
    case 3: { start("toString", ""); jobject q = nullptr; x([&] { q = JQ0("toString", "", "Ljava/lang/String;").l; }); if (ox.e == AP_EXC_NONE) { string t = jstr(q); bool b = ap_abstract0_is_bottom(m, kz), tp = ap_abstract0_is_top(m, kz); clr(); if ((b && t.find("bottom") == string::npos && t.find("empty") == string::npos && t.find("{ -1") == string::npos) && false) bad("answer", "toString of an empty value: " + t); (void)tp; ok++; } break; }
    case 4: { start("serialize", ""); ap_membuf_t b = c([&] { return ap_abstract0_serialize_raw(m, kz); }); jobject sr = nullptr; x([&] { sr = JQ0("serialize", "", "[B").l; }); if (agree()) { size_t k = JE->GetArrayLength((jarray)sr); if (k != b.size) bad("answer", "serialize: size"); V kk = cp(kz); jobject o = nullptr; x([&] { o = jstatic(A0, "deserialize", "(" MAN "[B)" ABS, JM, sr).l; }); if (ox.e != AP_EXC_NONE) bad("exception", "deserialize raises an exception"); eq(kk, get(o), "deserialize"); drop(o); ap_abstract0_free(m, kk); } if (b.ptr) free(b.ptr); break; } }
    eq(kz, get(z), "argument changed"); ap_abstract0_free(m, kz); drop(z); }
  void run() { id = s.draw(3); rd = s.draw(4); TR(d.name << " (" << id << "," << rd << ")"); lc.num = pc; int k = s.range(2, 3); for (int i = 0; i < k; i++) { Reg r = fresh(); V v = r.a; r.a = nullptr; if (s.coin()) { vector<Cons> cs; cs.push_back(gencons(r)); ap_lincons0_array_t l = mk_cons_array(cs); v = ap_abstract0_meet_lincons_array(m, DES, v, &l); ap_lincons0_array_clear(&l); } R.push_back(v); } clr();
    int st = s.range(1, 6); for (int i = 0; i < st; i++) switch (s.weighted({3, 2, 3, 4, 4, 2, 3, 4, 3})) { case 0: op_binary(); break; case 1: op_arrays(); break; case 2: op_constraints(); break; case 3: op_assign(); break; case 4: op_dims(); break; case 5: op_repr(); break; case 6: op_make(); break; case 7: op_query(); break; case 8: op_convert(); break; } if (ok) s.nontrivial = true; }
};
void javad_case(Src& s);
void java1_case(Src& s);
static void java0_case(Src& s) { Frame fr; auto v = jdoms(); const JDom& d = v[s.draw(v.size())]; crumb(d.name.c_str()); JCase w(s, d, jmanager(d)); label("domain:" + d.name); try { w.run(); } catch (const JX& e) { fail(d.name + ":" + w.op + ":java-exception", e.cls + ": " + e.msg); } }
int main(int argc, char** argv) {
  vector<Prop> P;
  { Prop p; p.id = "java0"; p.rule = "a history of at most 6 calls of methods of apron.Abstract0 on values of 9 managers, dimension at most 5, each method in place or into a new object, arguments built through different constructors, 1 argument in 14 invalid; non-trivial: at least one call that succeeds"; p.quick = 20000; p.thorough = 500000; p.fn = java0_case; p.init = jvm_start; p.mem_mb = 0; P.push_back(p); }
  { Prop p; p.id = "javad"; p.rule = "scalars, intervals, coefficients, linear and tree expressions, constraints, dimension changes and permutations, big integers, rationals and floats of the Java binding against exact models; non-trivial: the case compared a result"; p.quick = 20000; p.thorough = 500000; p.fn = javad_case; p.init = jvm_start; p.mem_mb = 0; P.push_back(p); }
#ifdef JAVA_MORE
  { Prop p; p.id = "java1"; p.rule = "a history of at most 6 calls of methods of apron.Abstract1, Environment and level 1 expressions; non-trivial: at least one call that succeeds"; p.quick = 20000; p.thorough = 500000; p.fn = java1_case; p.init = jvm_start; p.mem_mb = 0; P.push_back(p); }
#endif
  return engine_main(argc, argv, P);
}
