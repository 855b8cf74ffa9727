// A Java virtual machine inside the harness process: calls of the Java binding by name, conversions between the model and Java objects.
#pragma once
#include <jni.h>
#include <unistd.h>
#include <map>
#include "apx.hpp"
struct JX { string cls, msg; };
extern JNIEnv* JE;
void jvm_start();
namespace jv {
inline jvalue v(jint x) { jvalue r; r.i = x; return r; }
inline jvalue v(unsigned x) { jvalue r; r.i = (jint)x; return r; }
inline jvalue v(size_t x) { jvalue r; r.i = (jint)x; return r; }
inline jvalue v(bool x) { jvalue r; r.j = 0; r.z = x; return r; }
inline jvalue v(double x) { jvalue r; r.d = x; return r; }
inline jvalue v(jlong x) { jvalue r; r.j = x; return r; }
inline jvalue v(jobject x) { jvalue r; r.l = x; return r; }
inline jvalue v(std::nullptr_t) { jvalue r; r.l = nullptr; return r; }
}
inline string jstr(jobject s) { if (!s) return "null"; const char* p = JE->GetStringUTFChars((jstring)s, nullptr); string r = p; JE->ReleaseStringUTFChars((jstring)s, p); return r; }
inline jclass jcls(const string& n) { static std::map<string, jclass> M; auto i = M.find(n); if (i != M.end()) return i->second; jclass c = JE->FindClass(n.c_str()); if (!c) { JE->ExceptionDescribe(); throw std::runtime_error("class " + n); } return M[n] = (jclass)JE->NewGlobalRef(c); }
inline jmethodID jmeth(const string& c, const string& n, const string& sig, bool st = false) { static std::map<string, jmethodID> M; string k = c + "." + n + sig; auto i = M.find(k); if (i != M.end()) return i->second; jmethodID m = st ? JE->GetStaticMethodID(jcls(c), n.c_str(), sig.c_str()) : JE->GetMethodID(jcls(c), n.c_str(), sig.c_str()); if (!m) { JE->ExceptionClear(); throw std::runtime_error("method " + k); } return M[k] = m; }
inline jfieldID jfld(const string& c, const string& n, const string& sig) { static std::map<string, jfieldID> M; string k = c + "." + n; auto i = M.find(k); if (i != M.end()) return i->second; jfieldID m = JE->GetFieldID(jcls(c), n.c_str(), sig.c_str()); if (!m) { JE->ExceptionClear(); throw std::runtime_error("field " + k); } return M[k] = m; }
inline void jchk() { jthrowable t = JE->ExceptionOccurred(); if (!t) return; JE->ExceptionClear(); JX x; jclass c = JE->GetObjectClass(t); jobject n = JE->CallObjectMethod(c, JE->GetMethodID(JE->GetObjectClass(c), "getName", "()Ljava/lang/String;")); x.cls = jstr(n); jobject m = JE->CallObjectMethod(t, JE->GetMethodID(c, "getMessage", "()Ljava/lang/String;")); if (JE->ExceptionCheck()) JE->ExceptionClear(); x.msg = jstr(m); throw x; }
template<class... A> jobject jnew(const string& c, const string& sig, A... a) { jvalue av[sizeof...(a) + 1] = {jv::v(a)...}; jobject r = JE->NewObjectA(jcls(c), jmeth(c, "<init>", sig), av); jchk(); return r; }
template<class... A> jvalue jcall(const string& c, jobject o, const string& n, const string& sig, A... a) {
  jvalue av[sizeof...(a) + 1] = {jv::v(a)...}; jmethodID m = jmeth(c, n, sig); jvalue r; r.j = 0; char t = sig[sig.find(')') + 1];
  switch (t) { case 'V': JE->CallVoidMethodA(o, m, av); break; case 'I': r.i = JE->CallIntMethodA(o, m, av); break; case 'Z': r.z = JE->CallBooleanMethodA(o, m, av); break; case 'D': r.d = JE->CallDoubleMethodA(o, m, av); break; case 'J': r.j = JE->CallLongMethodA(o, m, av); break; default: r.l = JE->CallObjectMethodA(o, m, av); }
  jchk(); return r; }
template<class... A> jvalue jstatic(const string& c, const string& n, const string& sig, A... a) {
  jvalue av[sizeof...(a) + 1] = {jv::v(a)...}; jmethodID m = jmeth(c, n, sig, true); jvalue r; r.j = 0; char t = sig[sig.find(')') + 1];
  switch (t) { case 'V': JE->CallStaticVoidMethodA(jcls(c), m, av); break; case 'I': r.i = JE->CallStaticIntMethodA(jcls(c), m, av); break; case 'Z': r.z = JE->CallStaticBooleanMethodA(jcls(c), m, av); break; case 'D': r.d = JE->CallStaticDoubleMethodA(jcls(c), m, av); break; default: r.l = JE->CallStaticObjectMethodA(jcls(c), m, av); }
  jchk(); return r; }
inline jobject jget(const string& c, jobject o, const string& f, const string& sig) { return JE->GetObjectField(o, jfld(c, f, sig)); }
inline void* jptr(const string& c, jobject o) { return (void*)JE->GetLongField(o, jfld(c, "ptr", "J")); }
inline bool jis(jobject o, const string& c) { return o && JE->IsInstanceOf(o, jcls(c)); }
inline jobject jutf(const string& s) { return JE->NewStringUTF(s.c_str()); }
inline jobject jarr(const string& c, const vector<jobject>& v) { jobjectArray a = JE->NewObjectArray(v.size(), jcls(c), nullptr); for (size_t i = 0; i < v.size(); i++) JE->SetObjectArrayElement(a, i, v[i]); return a; }
inline vector<jobject> ofarr(jobject a) { vector<jobject> r; int n = JE->GetArrayLength((jarray)a); for (int i = 0; i < n; i++) r.push_back(JE->GetObjectArrayElement((jobjectArray)a, i)); return r; }
template<class T> jobject jints(const vector<T>& v) { jintArray a = JE->NewIntArray(v.size()); vector<jint> w(v.begin(), v.end()); if (w.size()) JE->SetIntArrayRegion(a, 0, w.size(), w.data()); return a; }
inline vector<int> ofints(jobject a) { int n = JE->GetArrayLength((jarray)a); vector<jint> w(n); if (n) JE->GetIntArrayRegion((jintArray)a, 0, n, w.data()); return vector<int>(w.begin(), w.end()); }
#define JQ(o) ((mpq_ptr)jptr("gmp/Mpq", o))
#define JZ(o) ((mpz_ptr)jptr("gmp/Mpz", o))
#define JF(o) ((mpfr_ptr)jptr("gmp/Mpfr", o))
// ---- model -> Java
inline jobject j_mpz(const mpz_class& z) { jobject o = jnew("gmp/Mpz", "()V"); mpz_set(JZ(o), z.get_mpz_t()); return o; }
inline jobject j_mpq(const Q& q) { jobject o = jnew("gmp/Mpq", "()V"); mpq_set(JQ(o), q.get_mpq_t()); return o; }
inline jobject j_mpfr(mpfr_srcptr m) { jobject o = jnew("gmp/Mpfr", "(I)V", (jint)mpfr_get_prec(m)); mpfr_set(JF(o), m, MPFR_RNDN); return o; }
inline jobject j_big(const mpz_class& z) { return jnew("java/math/BigInteger", "(Ljava/lang/String;)V", jutf(z.get_str())); }
inline jobject j_scalar(const X& x, int kind) {
  double d;
  if (kind == K_DBL && (x.inf || q_to_double_exact(x.v, &d))) return jnew("apron/DoubleScalar", "(D)V", x.inf ? x.inf * INFINITY : d);
  if (kind == K_MPFR) { mpfr_t m; mpfr_init2(m, 200); int t = 0; if (x.inf) mpfr_set_inf(m, x.inf); else t = mpfr_set_q(m, x.v.get_mpq_t(), MPFR_RNDN); jobject r = t ? nullptr : jnew("apron/MpfrScalar", "(Lgmp/Mpfr;)V", j_mpfr(m)); mpfr_clear(m); if (r) return r; }
  if (x.inf) { jobject o = jnew("apron/MpqScalar", "()V"); jcall("apron/MpqScalar", o, "setInfty", "(I)V", (jint)x.inf); return o; }
  return jnew("apron/MpqScalar", "(Lgmp/Mpq;)V", j_mpq(x.v)); }
inline jobject j_interval(const I& i, int k1, int k2) { return jnew("apron/Interval", "(Lapron/Scalar;Lapron/Scalar;)V", j_scalar(i.lo, k1), j_scalar(i.hi, k2)); }
inline jobject j_coeff(const I& i, int k1, int k2, bool force = false) { return i.sing() && !force ? j_scalar(i.lo, k1) : j_interval(i, k1, k2); }
// ---- Java -> model
inline X j_of_scalar(jobject o) {
  if (!o) fail("java-null", "null scalar");
  if (jis(o, "apron/MpqScalar")) { mpq_ptr q = JQ(jget("apron/MpqScalar", o, "val", "Lgmp/Mpq;")); if (!mpz_sgn(mpq_denref(q))) return mpz_sgn(mpq_numref(q)) > 0 ? X::pinf() : X::minf(); Q r; mpq_set(r.get_mpq_t(), q); r.canonicalize(); return X(r); }
  if (jis(o, "apron/MpfrScalar")) { mpfr_ptr m = JF(jget("apron/MpfrScalar", o, "val", "Lgmp/Mpfr;")); if (mpfr_inf_p(m)) return mpfr_sgn(m) > 0 ? X::pinf() : X::minf(); return X(q_of_mpfr(m)); }
  double d = JE->GetDoubleField(o, jfld("apron/DoubleScalar", "val", "D")); if (std::isinf(d)) return d > 0 ? X::pinf() : X::minf(); return X(q_of_double(d)); }
inline I j_of_coeff(jobject o) { if (!o) fail("java-null", "null coefficient"); if (jis(o, "apron/Interval")) return I(j_of_scalar(jget("apron/Interval", o, "inf", "Lapron/Scalar;")), j_of_scalar(jget("apron/Interval", o, "sup", "Lapron/Scalar;"))); X x = j_of_scalar(o); return I(x, x); }
