/* Contract of horus_l2_gen_crc16: CRC-16/CCITT-FALSE (poly 0x1021, initial
 * 0xFFFF, MSB first, no final xor), for every message of 0..255 bytes.
 * crc(m, 0) = 0xFFFF and crc(m, n+1) = step(crc(m, n), m[n]) for every m and n
 * define it uniquely; both equations are obligations on the real function. */
#include "vh.h"
unsigned short horus_l2_gen_crc16(unsigned char *p, unsigned char length);
static inline unsigned spec_crc_step(unsigned crc, unsigned byte)
{
    crc ^= byte << 8;
    for (int i = 0; i < 8; i++) crc = (crc & 0x8000) ? ((crc << 1) ^ 0x1021) & 0xFFFF : (crc << 1) & 0xFFFF;
    return crc;
}
static uint8_t M[255];

#if defined(J_FRAME)
/* reads only the `length` bytes it is given and changes none of them: for every
 * length the message is an object of exactly that size */
#include <stdlib.h>
void harness(void)
{
    vh_bytes("M", M, 255);
    for (int n = LO; n < HI; n++) {
        uint8_t *p = malloc(n ? n : 1);
        VH_PRE(p != 0);
        for (int i = 0; i < n; i++) p[i] = M[i];
        unsigned r = horus_l2_gen_crc16(n ? p : p + 1, (unsigned char)n);
        if (n == 0) VH_POST("crc16: 0xFFFF for the empty message", r == 0xFFFF);
        for (int i = 0; i < n; i++) VH_POST("crc16: does not modify the message", p[i] == M[i]);
        free(p);
    }
    VH_REACH();
}
#else
void harness(void)
{
    vh_bytes("M", M, 255);
#ifdef VH_NATIVE
    unsigned crc = 0xFFFF;
    for (int n = 0; n < HI + 1; n++) {
        VH_POST("crc16: CRC-16/CCITT-FALSE of the message", horus_l2_gen_crc16(M, n) == crc);
        crc = spec_crc_step(crc, M[n]);
    }
#else
    unsigned prev = horus_l2_gen_crc16(M, LO);
    if (LO == 0) VH_POST("crc16: 0xFFFF for the empty message", prev == 0xFFFF);
    for (int n = LO; n < HI; n++) {
        unsigned cur = horus_l2_gen_crc16(M, n + 1);
        VH_POST("crc16: each further byte is one CRC-16/CCITT step", cur == spec_crc_step(prev, M[n]));
        prev = cur;
    }
#endif
    VH_REACH();
}
#endif
