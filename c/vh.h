/* Harness support shared by the proofs (CBMC) and by the native replay of
 * counterexamples against the real code.
 *
 * CBMC build : every input is nondeterministic and recorded with
 *              __CPROVER_input(tag, value), so that a counterexample trace
 *              lists the inputs; contracts are the __CPROVER_* clauses.
 * Native build (-DVH_NATIVE): the same harness is compiled with the real
 *              sources and sanitizers; inputs come from a replay file or from
 *              a seeded generator; contract clauses vanish, VH_PRE / VH_POST
 *              evaluate the same predicates at run time.
 */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

#ifdef VH_NATIVE

#include <stdio.h>
#include <stdlib.h>
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_assigns(...)
#define __CPROVER_frees(...)
extern int vh_fuzzing;
uint32_t vh_rand(void);
uint8_t vh_u8(const char *tag);
int32_t vh_i32(const char *tag);
float vh_f32(const char *tag);
void vh_bytes(const char *tag, void *p, size_t n);
void vh_record(const char *tag, const void *p, size_t n);
void vh_fail(const char *label);
void vh_skip(void);
#define VH_BYTES_GEN(tag, p, n, gen) do { if (vh_fuzzing) { gen; vh_record(tag, p, n); } else vh_bytes(tag, p, n); } while (0)
#define VH_INT_GEN(tag, var, gen) do { if (vh_fuzzing) { int32_t vh_t = (gen); (var) = vh_t; vh_record(tag, &vh_t, sizeof vh_t); } else (var) = vh_i32(tag); } while (0)
#define VH_PRE(c) do { if (!(c)) vh_skip(); } while (0)
#define VH_POST(label, c) do { if (!(c)) vh_fail(label); } while (0)
#define VH_CPRE(c) VH_PRE(c)
#define VH_CPOST(label, c) VH_POST(label, c)
#define VH_REACH() do {} while (0)
#define VH_ASSUME(c) VH_PRE(c)

#else /* CBMC */

uint8_t nondet_u8(void);
int32_t nondet_i32(void);
float nondet_f32(void);
static inline uint8_t vh_u8_(const char *tag) { uint8_t v = nondet_u8(); return v; }
#define vh_rand() 0
/* one recorded input per byte, so that the trace is independent of layout */
#define VH_IN_U8(tag, lv) do { uint8_t vh_v = nondet_u8(); __CPROVER_input(tag, vh_v); (lv) = vh_v; } while (0)
#define VH_BYTES_(tag, p, n) do { for (size_t vh_i = 0; vh_i < (size_t)(n); vh_i++) { uint8_t vh_v = nondet_u8(); __CPROVER_input(tag, vh_v); ((uint8_t *)(p))[vh_i] = vh_v; } } while (0)
#define vh_bytes(tag, p, n) VH_BYTES_(tag, p, n)
#define VH_BYTES_GEN(tag, p, n, gen) VH_BYTES_(tag, p, n)
#define VH_INT_GEN(tag, var, gen) do { int32_t vh_v = nondet_i32(); __CPROVER_input(tag, vh_v); (var) = vh_v; } while (0)
#define VH_PRE(c) __CPROVER_assume(c)
#define VH_ASSUME(c) __CPROVER_assume(c)
#ifdef VH_TUNE /* only to find out which loops run longer than the default unwinding */
#define VH_POST(label, c)
#define __CPROVER_assert(c, m)
#else
#define VH_POST(label, c) __CPROVER_assert(c, label)
#endif
/* stated by the contract that the job enforces: only evaluated natively */
#define VH_CPRE(c)
#define VH_CPOST(label, c)
/* must be reported FAILED: shows the point is reachable under the assumptions */
#define VH_REACH() __CPROVER_assert(0, "VH_REACH")

#endif
#endif
