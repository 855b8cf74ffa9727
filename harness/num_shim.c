#include <fenv.h>
#include "num.h"
#include "bound.h"
#include "itv.h"
#include "ap_coeff.h"
#include "num_shim.h"
#define FN3(a,b) a##_##b
#define FN2(a,b) FN3(a,b)
#define FN(a) FN2(a,NUM_SUFFIX)

/* exact import/export that does not use the conversions under test; returns 0 if q was not representable */
static int imp(num_t a, mpq_t q)
{
#if defined(NUM_MPQ)
  mpq_set(*(mpq_t*)a,q); return 1;
#elif defined(NUM_MPZ)
  mpz_set(*(mpz_t*)a,mpq_numref(q)); return mpz_cmp_ui(mpq_denref(q),1)==0;
#elif defined(NUM_MPFR)
  return mpfr_set_q(*(mpfr_t*)a,q,GMP_RNDU)==0;
#elif defined(NUM_DOUBLE)
  { mpfr_t f; int r; mpfr_init2(f,53); r=mpfr_set_q(f,q,GMP_RNDU); *a=mpfr_get_d(f,GMP_RNDU); mpfr_clear(f); return r==0; }
#elif defined(NUM_LONGDOUBLE)
  { mpfr_t f; int r; mpfr_init2(f,64); r=mpfr_set_q(f,q,GMP_RNDU); *a=mpfr_get_ld(f,GMP_RNDU); mpfr_clear(f); return r==0; }
#elif defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
  if (mpz_cmp_ui(mpq_denref(q),1) || !mpz_fits_slong_p(mpq_numref(q))) { *a=0; return 0; }
  *a = mpz_get_si(mpq_numref(q)); return 1;
#else
  if (!mpz_fits_slong_p(mpq_denref(q)) || !mpz_fits_slong_p(mpq_numref(q))) { *numrat_numref(a)=0; *numrat_denref(a)=1; return 0; }
  *numrat_numref(a) = mpz_get_si(mpq_numref(q)); *numrat_denref(a) = mpz_get_si(mpq_denref(q)); return 1;
#endif
}
static void expo(mpq_t q, num_t a)
{
#if defined(NUM_MPQ)
  mpq_set(q,*(mpq_t*)a);
#elif defined(NUM_MPZ)
  mpq_set_z(q,*(mpz_t*)a);
#elif defined(NUM_MPFR)
  mpfr_get_q(q,*(mpfr_t*)a);
#elif defined(NUM_DOUBLE)
  mpq_set_d(q,*a);
#elif defined(NUM_LONGDOUBLE)
  { mpfr_t f; mpfr_init2(f,64); mpfr_set_ld(f,*a,GMP_RNDN); mpfr_get_q(q,f); mpfr_clear(f); }
#elif defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
  mpq_set_si(q,*a,1);
#else
  { mpz_set_si(mpq_numref(q),*numrat_numref(a)); mpz_set_si(mpq_denref(q),*numrat_denref(a)); mpq_canonicalize(q); }
#endif
}
static int isnan_num(num_t a)
{
#if defined(NUM_MPFR)
  return mpfr_nan_p(*(mpfr_t*)a);
#elif defined(NUM_DOUBLE) || defined(NUM_LONGDOUBLE)
  return *a != *a;
#else
  (void)a; return 0;
#endif
}
static int impb(bound_t a, xq* x, int neg)
{
  if (x->inf) { bound_set_infty(a, neg ? -x->inf : x->inf); return 1; }
  { mpq_t q; int r; mpq_init(q); if (neg) mpq_neg(q,x->q); else mpq_set(q,x->q); bound_set_int(a,0); r=imp(bound_numref(a),q); mpq_clear(q); return r; }
}
static void expb(xq* x, bound_t a, int neg)
{
  if (isnan_num(bound_numref(a))) { x->inf = 99; return; }
  if (bound_infty(a)) { x->inf = bound_sgn(a)>0 ? 1 : -1; if (neg) x->inf = -x->inf; return; }
  x->inf = 0; expo(x->q,bound_numref(a)); if (neg) mpq_neg(x->q,x->q);
}
static int impi(itv_t a, xq* x) { int r1=impb(a->inf,&x[0],1), r2=impb(a->sup,&x[1],0); return r1 && r2; }
static void expi(xq* x, itv_t a) { expb(&x[0],a->inf,1); expb(&x[1],a->sup,0); }
static void garbage(itv_t a, int n) { if (n&1) { bound_set_infty(a->inf,n&2?1:-1); bound_set_infty(a->sup,1); } else { bound_set_int(a->inf,17); bound_set_int(a->sup,-23); } }

void FN(shim_init)(void) { num_t a; num_init(a); num_clear(a); }
/* nearest representable value above q (the import's own rounding), for the generators */
void FN(shim_round)(mpq_t q)
{
#if defined(NUM_MPZ) || defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
  mpz_cdiv_q(mpq_numref(q),mpq_numref(q),mpq_denref(q)); mpz_set_ui(mpq_denref(q),1);
#else
  num_t a; num_init(a); imp(a,q); expo(q,a); num_clear(a);
#endif
}
/* result 0: an operand was not representable */
int FN(shim_op)(int op, xop* o)
{
  itv_t b,c0,d,r0; num_t s,u,v; itv_ptr c = (o->alias&4) ? b : c0; bound_t bs,bu,bv; int ok=1; itv_ptr r=r0; itv_internal_t* in = itv_internal_alloc();
  itv_init(b); itv_init(c0); itv_init(d); itv_init(r0); num_init(s); num_init(u); num_init(v); bound_init(bs); bound_init(bu); bound_init(bv);
  garbage(r0,o->n ^ op);
  ok &= impi(b,o->b); ok &= impi(c0,o->c); ok &= impi(d,o->d);
  if (!o->s.inf) ok &= imp(s,o->s.q);
  ok &= impb(bs,&o->s,0);
  if ((o->alias&3)==1) r=b; else if ((o->alias&3)==2) r=c;
  if (ok) switch (op) {
  case X_LOAD: itv_set(r,b); break;
  case X_ADD: itv_add(r,b,c); break;
  case X_SUB: itv_sub(r,b,c); break;
  case X_NEG: itv_neg(r,b); break;
  case X_MUL: itv_mul(in,r,b,c); break;
  case X_DIV: itv_div(in,r,b,c); break;
  case X_ADDNUM: itv_add_num(r,b,s); break;
  case X_SUBNUM: itv_sub_num(r,b,s); break;
  case X_MULNUM: itv_mul_num(r,b,s); break;
  case X_DIVNUM: itv_div_num(r,b,s); break;
  case X_ADDBOUND: itv_add_bound(r,b,bs); break;
  case X_SUBBOUND: itv_sub_bound(r,b,bs); break;
  case X_MULBOUND: itv_mul_bound(r,b,bs); break;
  case X_DIVBOUND: itv_div_bound(r,b,bs); break;
  case X_SQRT: o->flag = itv_sqrt(in,r,b); break;
  case X_ABS: itv_abs(r,b); break;
  case X_MUL2EXP: itv_mul_2exp(r,b,o->n); break;
  case X_MOD: itv_mod(in,r,b,c,o->n); break;
  case X_CEIL: itv_ceil(r,b); break;
  case X_FLOOR: itv_floor(r,b); break;
  case X_TRUNC: itv_trunc(r,b); break;
  case X_TOINT: itv_to_int(r,b); break;
  case X_TOFLOAT: itv_to_float(r,b); break;
  case X_TODOUBLE: itv_to_double(r,b); break;
  case X_UNCEIL: itv_unceil(r,b); break;
  case X_UNFLOOR: itv_unfloor(r,b); break;
  case X_UNTRUNC: itv_untrunc(r,b); break;
  case X_FROMINT: itv_from_int(r,b); break;
  case X_FROMFLOAT: itv_from_float(r,b); break;
  case X_FROMDOUBLE: itv_from_double(r,b); break;
  case X_POW: itv_pow(in,r,b,c); break;
  case X_INVPOW: itv_inv_pow(in,r,d,b,c); break;
  case X_MEET: o->flag = itv_meet(in,r,b,c); break;
  case X_JOIN: itv_join(r,b,c); break;
  case X_WIDEN: itv_widening(r,b,c); break;
  case X_ENLARGE: itv_enlarge_bound(r,b,bs); break;
  case X_CANON: itv_set(r,b); o->flag = itv_canonicalize(in,r,o->n); break;
  case X_PRED: o->flag = itv_is_top(b) | itv_is_bottom(in,b)<<1 | itv_is_point(in,b)<<2 | itv_is_zero(b)<<3 | itv_is_pos(b)<<4 | itv_is_neg(b)<<5 | itv_is_int(in,b)<<6 | itv_is_canonical_bottom(b)<<7; break;
  case X_REL: o->flag = itv_is_leq(b,c) | itv_is_eq(b,c)<<1 | (itv_hash(b)==itv_hash(c))<<2; itv_set(r0,b); itv_swap(r0,c); expi(&o->r[2],c); break;
  case X_MAGN: itv_magnitude(bu,b); expb(&o->r[2],bu,0); break;
  case X_RANGEABS: itv_range_abs(bu,b); expb(&o->r[2],bu,0); itv_range_rel(in,bu,b); expb(&o->r[3],bu,0); break;
  case X_PRINT: { char* p=NULL; size_t z=0; FILE* f; memset(o->str,'#',sizeof o->str); o->flag = itv_snprint(o->str,sizeof o->str,b); f=open_memstream(&p,&z); itv_fprint(f,b); fclose(f); snprintf(o->str2,sizeof o->str2,"%s",p); free(p); break; }
  case X_TOINTERVAL: { ap_interval_t* i = ap_interval_alloc(); ap_coeff_t* k=(ap_coeff_t*)o->ap; o->flag = ap_interval_set_itv(in,i,b); ap_coeff_set_interval(k,i); ap_interval_free(i); o->flag2 = itv_set_ap_coeff(in,r,k); break; }
  case X_TOCOEFF: { ap_coeff_t* k=(ap_coeff_t*)o->ap; o->flag = ap_coeff_set_itv(in,k,b); o->flag2 = itv_set_ap_coeff(in,r,k); break; }
  case X_UNIT: o->flag2 = itv_set_ap_coeff(in,r,(ap_coeff_t*)o->ap); break;
  case X_SETNUM2: if (o->n&1) itv_set_num(r,s); else { imp(u,o->b[0].q); imp(v,o->b[1].q); itv_set_num2(r,u,v); expo(o->r[2].q,u); o->r[2].inf=0; } break;
  case X_NSQRT: num_sqrt(u,v,s); o->r[2].inf=o->r[3].inf=0; expo(o->r[2].q,u); expo(o->r[3].q,v); break;
  case X_NPOW: o->flag = num_pow(u,v,s,o->n); o->r[2].inf=o->r[3].inf=0; if (!o->flag) { expo(o->r[2].q,u); expo(o->r[3].q,v); } break;
  case X_NROOT: num_root(u,v,s,o->n); o->r[2].inf=o->r[3].inf=0; expo(o->r[2].q,u); expo(o->r[3].q,v); break;
  case X_NARITH: { num_t x,y; num_init(x); num_init(y); imp(x,o->b[0].q); imp(y,o->b[1].q); o->r[2].inf=0;
      switch (o->flag2) { case 0: num_add(u,x,y); break; case 1: num_sub(u,x,y); break; case 2: num_mul(u,x,y); break; case 3: num_div(u,x,y); break; case 4: num_min(u,x,y); break;
        case 5: num_max(u,x,y); break; case 6: num_neg(u,x); break; case 7: num_abs(u,x); break; case 8: num_add_uint(u,x,o->n); break; case 9: num_sub_uint(u,x,o->n); break;
        case 10: num_mul_2(u,x); break; case 11: num_div_2(u,x); break; case 12: num_floor(u,x); break; case 13: num_ceil(u,x); break; case 14: num_trunc(u,x); break; case 15: num_mul_2exp(u,x,o->n-4); break; }
      expo(o->r[2].q,u); if (isnan_num(u)) o->r[2].inf=99;
      o->r[3].inf=0; { int k=num_cmp(x,y); mpq_set_si(o->r[3].q,(k>0)-(k<0),1); }
      o->flag = num_equal(x,y) | num_integer(x)<<1 | (num_sgn(x)>0)<<2 | (num_sgn(x)<0)<<3 | (num_cmp_int(x,o->n)>0)<<4 | (num_cmp_int(x,o->n)<0)<<5;
      num_clear(x); num_clear(y); break; }
  case X_NCONV: { /* s -> double, mpq, mpz, mpfr, int; and back */
      double db; mpq_t q; mpz_t z; mpfr_t f; long l; int e;
      mpq_init(q); mpz_init(z); mpfr_init2(f,53); o->flag=0;
      e = double_set_num(&db,s); o->flag |= e; o->r[0].inf = isinf(db) ? (db>0?1:-1) : 0; if (!o->r[0].inf) mpq_set_d(o->r[0].q,db);
      e = mpq_set_num(q,s); o->flag |= e<<1; o->r[1].inf=0; mpq_set(o->r[1].q,q);
      e = mpz_set_num(z,s); o->flag |= e<<2; o->r[2].inf=0; mpq_set_z(o->r[2].q,z);
      e = mpfr_set_num(f,s); o->flag |= e<<3; o->r[3].inf=0; mpfr_get_q(o->r[3].q,f);
      if (num_fits_int(s)) { e = int_set_num(&l,s); o->flag |= e<<4; o->flag |= 1<<5; o->r[4].inf=0; mpq_set_si(o->r[4].q,l,1); }
      o->flag |= num_fits_double(s)<<6; o->flag |= num_fits_float(s)<<7; o->flag |= num_fits_mpfr(s)<<8;
      /* back from the mpq */
      e = mpq_fits_num(q); o->flag |= e<<9; if (e) { e = num_set_mpq(u,q); o->flag |= e<<10; o->r[5].inf=0; expo(o->r[5].q,u); }
      e = !isinf(db) && double_fits_num(db); o->flag |= e<<11; if (e) { e = num_set_double(u,db); o->flag |= e<<12; o->r[6].inf=0; expo(o->r[6].q,u); }
      e = mpz_fits_num(z); o->flag |= e<<13; if (e) { e = num_set_mpz(u,z); o->flag |= e<<14; o->r[7].inf=0; expo(o->r[7].q,u); }
      mpq_clear(q); mpz_clear(z); mpfr_clear(f); o->flag2=1; goto done; }
  case X_BARITH: { bound_t x,y; bound_init(x); bound_init(y); impb(x,&o->b[0],0); impb(y,&o->b[1],0); if (o->n&1) bound_set_infty(bu,-1);
      switch (o->flag2) { case 0: bound_add(bu,x,y); break; case 1: bound_sub(bu,x,y); break; case 2: bound_mul(bu,x,y); break; case 3: bound_div(bu,x,y); break; case 4: bound_min(bu,x,y); break; case 5: bound_max(bu,x,y); break;
        case 6: bound_neg(bu,x); break; case 7: bound_abs(bu,x); break; case 8: bound_add_uint(bu,x,o->n); break; case 9: bound_sub_uint(bu,x,o->n); break; case 10: bound_mul_2(bu,x); break; case 11: bound_div_2(bu,x); break;
        case 12: bound_floor(bu,x); break; case 13: bound_ceil(bu,x); break; case 14: bound_trunc(bu,x); break; case 15: bound_mul_2exp(bu,x,o->n-4); break; }
      expb(&o->r[2],bu,0); { int k=bound_cmp(x,y); o->r[3].inf=0; mpq_set_si(o->r[3].q,(k>0)-(k<0),1); }
      o->flag = bound_equal(x,y) | bound_integer(x)<<1 | (bound_sgn(x)>0)<<2 | (bound_sgn(x)<0)<<3 | (bound_cmp_int(x,o->n)>0)<<4 | (bound_cmp_int(x,o->n)<0)<<5;
      bound_clear(x); bound_clear(y); break; }
  case X_SERIAL: { size_t i,n=0,m=0,z; bound_t y; unsigned char* buf; size_t want = bound_serialized_size(b->inf)+bound_serialized_size(b->sup)+bound_serialized_size(bs);
      buf = malloc(want+16); memset(buf,0xA5,want+16); bound_init(y); bound_set_infty(y,-1);
      n = bound_serialize(buf,b->inf); n += bound_serialize(buf+n,b->sup); n += bound_serialize(buf+n,bs);
      for (i=n;i<want+16;i++) if (buf[i]!=0xA5) o->flag |= 2;
      if (n>want) o->flag |= 4;
      m = bound_deserialize(r->inf,buf); m += bound_deserialize(r->sup,buf+m); m += bound_deserialize(y,buf+m); if (m!=n) o->flag |= 8;
      expb(&o->r[2],y,0); bound_clear(y); free(buf); (void)z; break; }
  default: break;
  }
  if (ok) { expi(o->r,r); expi(&o->r[4],b); expi(&o->r[6],c); }
done:
  itv_clear(b); itv_clear(c0); itv_clear(d); itv_clear(r0); num_clear(s); num_clear(u); num_clear(v); bound_clear(bs); bound_clear(bu); bound_clear(bv);
  itv_internal_free(in);
  return ok;
}
