/* Contract of the RTTY sentence extraction (C07) */
#include "rx.h"
#define CW (1 + ABITS + SBITS)      /* bits per character: start, data, stop */
#define NCH (MAXPKT / CW)           /* characters of a longest sentence */
static int LOC;
static uint8_t CH[NCH];             /* ghost: the received characters */

#ifndef VH_NATIVE
void horus_l2_init(void) {}
int horus_l2_get_num_tx_data_bytes(int n) { return spec_coded_bytes(n); }
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n) { __CPROVER_assert(0, "no binary packets in an RTTY mode"); }
/* contract of horus_l2_gen_crc16 (C05): the CRC of the characters it is given, here a function of the slice */
unsigned short __CPROVER_uninterpreted_F(int, int);
#define F(a, n) __CPROVER_uninterpreted_F(a, n)
unsigned short horus_l2_gen_crc16(unsigned char *p, unsigned char length)
{
    __CPROVER_assert(__CPROVER_r_ok(p, length), "crc requires: a readable message");
#ifdef J_FUNC
    __CPROVER_assert(__CPROVER_same_object(p, OUT), "crc requires: characters of the sentence");
    int off = (char *)p - OUT;
    bool same = true;
    for (int i = 0; i < NCH; i++) same = same & (i < off || i >= off + length || (uint8_t)OUT[i] == CH[i]);
    __CPROVER_assert(same, "crc requires: the received characters");
    return F(off, length);
#else
    unsigned short v; return v;
#endif
}
size_t strlen(const char *s)
{
    __CPROVER_assert(__CPROVER_r_ok(s, OUTLEN), "strlen requires: the sentence");
    int n = OUTLEN;
    for (int i = OUTLEN - 1; i >= 0; i--) if (s[i] == 0) n = i;
    __CPROVER_assert(n < OUTLEN, "strlen requires: a terminated string");
    return n;
}
#else
#define F(a, n) spec_crc(CH + (a), n)
#endif
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

#ifdef VH_NATIVE
static void gen_bits(void)
{
    char s[NCH + 40]; int n = 0;
    for (int i = 0; i < RXLEN; i++) BITS[i] = vh_rand() & 1;
    int nd = 2 + vh_rand() % 9; if (vh_rand() % 8 == 0) nd = vh_rand() % 3;
    for (int i = 0; i < nd; i++) s[n++] = '$';
    int len = vh_rand() % 3 ? vh_rand() % 90 : 95 + vh_rand() % 25;
    if (n + len > NCH) len = NCH - n;
    int wild = vh_rand() % 4 == 0;
    for (int i = 0; i < len; i++) { char c = wild ? vh_rand() % (1 << ABITS) : 32 + vh_rand() % 95; if (c == '*') c = ','; s[n++] = c; }
    int st = 0; for (int k = 0; k < 8 && k < n; k++) if (s[k] != '$') { st = k; break; }
    unsigned c = spec_crc((uint8_t *)s + st, n - st);
    int how = vh_rand() % 5;
    if (how == 0) c &= 0xff0f;
    n += sprintf(s + n, vh_rand() % 5 ? "*%04X\n" : "*%04x\n", c & 0xffff);
    if (how == 0) s[n - 3] = "GZg~ /:@`"[vh_rand() % 9];
    if (vh_rand() % 5 == 0) s[vh_rand() % n] ^= 1 << (vh_rand() % 7);
    for (int i = 0; i < n; i++) {
        int b = LOC + i * CW;
        for (int j = 0; j < ABITS; j++) if (b + j < RXLEN) BITS[b + j] = (s[i] >> j) & 1;
    }
}
#endif

void harness(void)
{
#ifdef VH_NATIVE
    open_modem();
#else
    /* as horus_open leaves it (J_OPEN in rxopen.c) */
    static struct horus HS;
    H = &HS; H->mode = MODE; H->rx_bits_len = RXLEN; H->max_packet_len = MAXPKT; H->uw_len = UWLEN; H->fsk = &FSKS; H->mFSK = 2;
    H->rx_bits = BITS; H->soft_bits = SOFT;
#endif
#ifdef FIXLOC
    LOC = FIXLOC;
#else
    VH_INT_GEN("LOC", LOC, vh_rand() % (NBITS + 8));
    VH_PRE(LOC >= 0 && LOC < RXLEN);
#endif
#ifdef VH_NATIVE
    VH_BYTES_GEN("BITS", BITS, RXLEN, gen_bits());
#else
    for (int i = 0; i < RXLEN; i += 50) vh_bytes("BITS", BITS + i, i + 50 <= RXLEN ? 50 : RXLEN - i);
#endif
#if defined(J_FUNC) || defined(VH_NATIVE)
    for (int i = 0; i < RXLEN; i += 50) for (int j = i; j < i + 50 && j < RXLEN; j++) VH_PRE(BITS[j] <= 1);
    for (int i = 0; i < NCH; i++) {
        CH[i] = 0;
        for (int j = 0; j < ABITS; j++) if (LOC + i * CW + j < RXLEN) CH[i] |= BITS[LOC + i * CW + j] << j;
    }
#endif
    int ok0; VH_INT_GEN("crc_ok", ok0, vh_rand() % 2); VH_PRE(ok0 == 0 || ok0 == 1);
     H->crc_ok = ok0;
#ifdef VH_NATIVE
    static uint8_t save[RXLEN]; memcpy(save, BITS, RXLEN);
    char *out = malloc(OUTLEN), *OUTP = out;
    uint8_t *exact = malloc(RXLEN); memcpy(exact, BITS, RXLEN); H->rx_bits = exact;
#else
    char *out = OUT;
#endif
    int r = extract_horus_rtty(H, out, LOC, ABITS, SBITS);
    VH_REACH();
#if defined(J_FUNC) || defined(VH_NATIVE)
    if (LOC + MAXPKT > RXLEN) {
        VH_POST("rtty: nothing while the sentence may be incomplete", r == 0 && H->crc_ok == ok0);
    } else {
        int s = NCH, st = 0;
        for (int i = NCH - 1; i >= 0; i--) if (CH[i] == '*') s = i;
        for (int k = 7; k >= 0; k--) if (k < s && CH[k] != '$') st = k;
        bool ok = false;
        int end = 0;
        if (s + 4 < NCH) {
            int a = hexval(CH[s + 1]), b = hexval(CH[s + 2]), c = hexval(CH[s + 3]), d = hexval(CH[s + 4]);
            ok = a >= 0 && b >= 0 && c >= 0 && d >= 0 && (a << 12 | b << 8 | c << 4 | d) == F(st, s - st);
            end = s + 5;
        }
#ifndef J_INCOMPLETE
        VH_REACH();
#endif
        VH_POST("rtty: accepted exactly if the four hex digits after * are the CRC of the text", r == ok);
        VH_POST("rtty: the CRC status is the result", H->crc_ok == ok);
        if (ok) {
            bool same = true, term = false; int z = end;
            for (int i = NCH; i >= 0; i--) {
                if (i < NCH && i < end) same = same & ((uint8_t)out[i] == CH[i]);
                if (i < end && i < NCH && CH[i] == 0) z = i;
                if (i == end) term = out[i] == 0;
            }
            VH_POST("rtty: the text is the received characters", same);
            VH_POST("rtty: terminated after the checksum", term);
            VH_POST("rtty: the number of payload bits", H->total_payload_bits == z * ABITS);
        }
    }
#endif
#ifdef VH_NATIVE
    VH_POST("rtty: does not change the received bits", memcmp(exact, save, RXLEN) == 0);
    free(exact); free(out);
#else
    VH_POST("rtty: does not change the search state", H->uw_count == 0 && H->rx_bits == BITS && H->rx_bits_len == RXLEN && H->mode == MODE && H->max_packet_len == MAXPKT && H->uw_len == UWLEN);
#endif
}
