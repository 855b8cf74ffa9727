/* Uniform access to num_t, bound_t and itv_t of every number type: values cross the border as exact rationals. */
#pragma once
#include <gmp.h>
#include <mpfr.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int inf; mpq_t q; } xq;              /* inf: 0 finite, +1, -1 */
enum { X_LOAD, X_ADD, X_SUB, X_NEG, X_MUL, X_DIV, X_ADDNUM, X_SUBNUM, X_MULNUM, X_DIVNUM, X_ADDBOUND, X_SUBBOUND, X_MULBOUND, X_DIVBOUND,
  X_SQRT, X_ABS, X_MUL2EXP, X_MOD, X_CEIL, X_FLOOR, X_TRUNC, X_TOINT, X_TOFLOAT, X_TODOUBLE, X_UNCEIL, X_UNFLOOR, X_UNTRUNC, X_FROMINT, X_FROMFLOAT, X_FROMDOUBLE,
  X_POW, X_INVPOW, X_MEET, X_JOIN, X_WIDEN, X_ENLARGE, X_CANON, X_PRED, X_REL, X_MAGN, X_RANGEABS, X_PRINT, X_TOINTERVAL, X_TOCOEFF, X_UNIT, X_SETNUM2,
  X_NSQRT, X_NPOW, X_NROOT, X_NARITH, X_NCONV, X_BARITH, X_BUN, X_SERIAL, X_NOPS };
typedef struct {
  xq b[2], c[2], d[2];                                /* operands: [inf,sup] */
  xq s;                                               /* scalar operand (num or bound) */
  int n;                                              /* small integer operand */
  int alias;                                          /* 0: result apart; 1: result is b; 2: result is c */
  xq r[8];                                            /* results */
  int flag, flag2;
  char str[512], str2[512];
  void* ap;                                           /* ap_coeff_t* */
} xop;
#ifdef __cplusplus
}
#endif
