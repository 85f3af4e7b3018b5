/* The on-air frame of a Horus Binary packet of N payload bytes as mathematics
 * (N: payload bytes, B: interleaver multiplier, both given on the command line):
 *   "$$" | body, where body = scramble(interleave(payload | parity | zero pad)).
 *   parity: the payload bits, MSB first, are cut in 12 bit words; a last short
 *   word of r bits is shifted up by one and zero extended; each contributes the
 *   11 Golay parity bits, MSB first.
 *   interleave: bit n (LSB first in each byte) goes to bit (B*n) mod nbits.
 *   scramble: LSB first additive sequence, o = s0^s1, s = s>>1 | o<<14, seed 0x4a80. */
#ifndef L2_SPEC_H
#define L2_SPEC_H
#include "golay_spec.h"
#define NCW ((8 * N + 11) / 12)
#define NB (2 + N + (NCW * 11 + 7) / 8)
#define ILB ((NB - 2) * 8)
#define NBODY (8 * N + 11 * NCW) /* bits that carry data or parity */
static uint8_t ks[ILB];
static inline void spec_keystream(void)
{
    unsigned s = 0x4a80;
    for (int i = 0; i < ILB; i++) { unsigned o = ((s >> 1) ^ s) & 1; s = (s >> 1) | (o << 14); ks[i] = o; }
}
static inline unsigned pbit(const uint8_t *p, int i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
/* data bits of code word k, as the 12 bit data field of the code word */
static inline unsigned spec_data12(const uint8_t *p, int k)
{
    unsigned v = 0; int i;
    for (i = 0; i < 12 && 12 * k + i < 8 * N; i++) v = (v << 1) | pbit(p, 12 * k + i);
    if (i < 12) v <<= 1;
    return v;
}
/* where bit `logical` (MSB first) of payload|parity|pad is on air: bit index in the body, LSB first */
static inline int spec_airpos(int logical) { int n = (logical / 8) * 8 + (7 - logical % 8); return (int)(((long)B * n) % ILB); }
static inline unsigned spec_airbit(const uint8_t *f, int logical) { int j = spec_airpos(logical); return ((f[2 + j / 8] >> (j % 8)) & 1) ^ ks[j]; }
/* code word k as received in frame f */
static inline unsigned spec_recv_cw(const uint8_t *f, int k)
{
    unsigned v = 0; int i;
    for (i = 0; i < 12 && 12 * k + i < 8 * N; i++) v = (v << 1) | spec_airbit(f, 12 * k + i);
    if (i < 12) v <<= 1;
    for (i = 0; i < 11; i++) v = (v << 1) | spec_airbit(f, 8 * N + 11 * k + i);
    return v;
}
static inline void spec_setair(uint8_t *f, int logical, unsigned bit)
{
    int j = spec_airpos(logical);
    f[2 + j / 8] = (uint8_t)((f[2 + j / 8] & ~(1u << (j % 8))) | ((bit ^ ks[j]) << (j % 8)));
}
#endif
