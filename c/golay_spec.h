/* The Golay (23,12) code as mathematics: generator x^11+x^10+x^6+x^5+x^4+x^2+1
 * (0xC75), systematic, data in bits 22..11, parity in bits 10..0. */
#ifndef GOLAY_SPEC_H
#define GOLAY_SPEC_H
static inline unsigned spec_par(unsigned d)
{
    unsigned r = 0;
    for (int i = 0; i < 12; i++) {
        unsigned bit = (d >> (11 - i)) & 1, fb = bit ^ ((r >> 10) & 1);
        r = (r << 1) & 0x7FF;
        if (fb) r ^= 0x475;
    }
    return r;
}
static inline unsigned spec_cw(unsigned d) { return (d << 11) | spec_par(d); }
/* zero exactly for code words */
static inline unsigned spec_syn(unsigned c) { return spec_par(c >> 11) ^ (c & 0x7FF); }
#define CW_LIMIT (1 << 23)
#endif
