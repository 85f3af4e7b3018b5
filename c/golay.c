/* Contracts of golay23.c */
#include "vh.h"
#include "golay_spec.h"

void golay23_init(void);
int golay23_encode(int c);
int golay23_decode(int c);
int golay23_syndrome(int c);
int golay23_count_errors(int a, int b);

int golay23_encode(int c)
__CPROVER_requires(c >= 0 && c < 4096)
__CPROVER_ensures(__CPROVER_return_value == (int)spec_cw(c))
__CPROVER_assigns()
;
int golay23_syndrome(int c)
__CPROVER_requires(c >= 0 && c < CW_LIMIT)
__CPROVER_ensures(__CPROVER_return_value == (int)spec_syn(c))
__CPROVER_assigns()
;
/* the returned word is a code word, and no more than three bits away */
int golay23_decode(int c)
__CPROVER_requires(c >= 0 && c < CW_LIMIT)
__CPROVER_ensures(__CPROVER_return_value >= 0 && __CPROVER_return_value < CW_LIMIT)
__CPROVER_ensures(spec_syn(__CPROVER_return_value) == 0)
__CPROVER_ensures(__builtin_popcount(__CPROVER_return_value ^ c) <= 3)
__CPROVER_assigns()
;
int golay23_count_errors(int a, int b)
__CPROVER_requires(a >= 0 && a < CW_LIMIT && b >= 0 && b < CW_LIMIT)
__CPROVER_ensures(__CPROVER_return_value == __builtin_popcount(a ^ b))
__CPROVER_assigns()
;

#if defined(J_ENCODE)
void harness(void)
{
    int c;
    VH_INT_GEN("c", c, vh_rand() % 4096);
    golay23_init();
    VH_CPRE(c >= 0 && c < 4096);
    int r = golay23_encode(c);
    VH_CPOST("golay23_encode: systematic code word", r == (int)spec_cw(c));
    VH_REACH();
}
#elif defined(J_SYNDROME)
void harness(void)
{
    int c;
    VH_INT_GEN("c", c, vh_rand() % CW_LIMIT);
    VH_CPRE(c >= 0 && c < CW_LIMIT);
    int r = golay23_syndrome(c);
    VH_CPOST("golay23_syndrome: zero exactly on code words", r == (int)spec_syn(c));
    VH_REACH();
}
#elif defined(J_DECODE)
void harness(void)
{
    int c;
    VH_INT_GEN("c", c, vh_rand() % CW_LIMIT);
    golay23_init();
    VH_CPRE(c >= 0 && c < CW_LIMIT);
    int r = golay23_decode(c);
    VH_CPOST("golay23_decode: a code word within three bits", r >= 0 && r < CW_LIMIT && spec_syn(r) == 0 && __builtin_popcount(r ^ c) <= 3);
    VH_REACH();
}
#elif defined(J_COUNT)
void harness(void)
{
    int a, b;
    VH_INT_GEN("a", a, vh_rand() % CW_LIMIT);
    VH_INT_GEN("b", b, vh_rand() % CW_LIMIT);
    VH_CPRE(a >= 0 && a < CW_LIMIT && b >= 0 && b < CW_LIMIT);
    int r = golay23_count_errors(a, b);
    VH_CPOST("golay23_count_errors: number of differing bits", r == __builtin_popcount(a ^ b));
    VH_REACH();
}
#elif defined(J_LEMMA_LINEAR)
/* lemma over the specification: the syndrome is linear */
void harness(void)
{
    int a, b;
    VH_INT_GEN("a", a, vh_rand() % CW_LIMIT);
    VH_INT_GEN("b", b, vh_rand() % CW_LIMIT);
    VH_PRE(a >= 0 && a < CW_LIMIT && b >= 0 && b < CW_LIMIT);
    VH_POST("lemma: syndrome linear", spec_syn(a ^ b) == (spec_syn(a) ^ spec_syn(b)));
    VH_REACH();
}
#elif defined(J_LEMMA_DIST)
/* lemma: two code words within three bits of the same word are equal */
void harness(void)
{
    int x;
    VH_INT_GEN("x", x, vh_rand() % CW_LIMIT);
    VH_PRE(x > 0 && x < CW_LIMIT && __builtin_popcount(x) <= 6);
    VH_POST("lemma: minimum distance is seven", spec_syn(x) != 0);
    VH_REACH();
}
#elif defined(J_LEMMA_TRI)
void harness(void)
{
    int a, b;
    VH_INT_GEN("a", a, vh_rand() % CW_LIMIT);
    VH_INT_GEN("b", b, vh_rand() % CW_LIMIT);
    VH_PRE(a >= 0 && a < CW_LIMIT && b >= 0 && b < CW_LIMIT && __builtin_popcount(a) <= 3 && __builtin_popcount(b) <= 3);
    VH_POST("lemma: distances add up", __builtin_popcount(a ^ b) <= 6);
    VH_REACH();
}
#elif defined(J_THEOREM)
/* theorem from the contract of golay23_decode (the call below is replaced by
 * the contract) and the three lemmas, instantiated here */
#ifndef VH_NATIVE
int __CPROVER_uninterpreted_syn(int);
int __CPROVER_uninterpreted_pop(int);
#define syn(x) __CPROVER_uninterpreted_syn(x)
#define pop(x) __CPROVER_uninterpreted_pop(x)
int golay23_decode_abs(int c);
#endif
void harness(void)
{
    int d, e;
    VH_INT_GEN("d", d, vh_rand() % 4096);
    VH_INT_GEN("e", e, (1 << (vh_rand() % 23)) | (1 << (vh_rand() % 23)) | (vh_rand() % 2 ? (1 << (vh_rand() % 23)) : 0));
    VH_PRE(d >= 0 && d < 4096 && e >= 0 && e < CW_LIMIT);
#ifdef VH_NATIVE
    VH_PRE(__builtin_popcount(e) <= 3);
    golay23_init();
    int cw = spec_cw(d);
    int r = golay23_decode(cw ^ e);
    VH_POST("any code word with up to three bit errors decodes to itself", r == cw);
#else
    int cw = nondet_i32(), r = nondet_i32();
    VH_ASSUME(cw >= 0 && cw < CW_LIMIT && r >= 0 && r < CW_LIMIT);
    VH_ASSUME(syn(cw) == 0);                 /* cw is a code word               */
    VH_ASSUME(pop(e) <= 3);                  /* up to three errors              */
    int c = cw ^ e;
    VH_ASSUME(syn(r) == 0 && pop(r ^ c) <= 3);      /* contract of golay23_decode(c) */
    VH_ASSUME(syn(r ^ cw) == (syn(r) ^ syn(cw)));   /* lemma: linear             */
    VH_ASSUME(!(pop(r ^ c) <= 3 && pop(e) <= 3) || pop((r ^ c) ^ e) <= 6); /* lemma: distances */
    int x = r ^ cw;
    VH_ASSUME(!(x > 0 && x < CW_LIMIT && pop(x) <= 6) || syn(x) != 0); /* lemma: distance seven */
    VH_POST("any code word with up to three bit errors decodes to itself", r == cw);
#endif
    VH_REACH();
}
#endif
