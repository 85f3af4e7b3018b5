/* Contracts of the binary packet extraction (C06) */
#include "rx.h"
#define SIZE_OK(n) ((n) == 22 || (n) == 32 || (n) == 48 || (n) == 64 || (n) == 96 || (n) == 128)
static int LOC;                 /* ghost: where the packet is */
static uint8_t D[SIZE];         /* ghost: what the error correction makes of it */
static int HL;                  /* witness: length of the string in the output buffer */
static int NDEC;

#ifndef VH_NATIVE
void horus_l2_init(void) {}
int horus_l2_get_num_tx_data_bytes(int n) { return spec_coded_bytes(n); }
/* contract of horus_l2_decode_rx_packet */
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n)
{
    __CPROVER_assert(n == SIZE, "decode requires: the payload size of this packet");
    __CPROVER_assert(__CPROVER_rw_ok(in, spec_coded_bytes(SIZE)), "decode requires: the coded packet is readable and writable");
    __CPROVER_assert(__CPROVER_w_ok(out, SIZE), "decode requires: room for the payload");
#if defined(J_FUNC) || defined(J_LOC)
    for (int i = 0; i < spec_coded_bytes(SIZE); i++)
        for (int j = 0; j < 8; j++)
            __CPROVER_assert(((in[i] >> (7 - j)) & 1) == BITS[LOC + 8 * i + j], "decode is given the received bits, MSB first, from the unique word on");
#endif
#ifdef J_LOC
    NDEC++;
    VH_REACH();
    __CPROVER_assume(0); /* the rest of the function is the subject of the other jobs */
#endif
    for (int i = 0; i < spec_coded_bytes(SIZE); i++) in[i] = nondet_u8();
    for (int i = 0; i < SIZE; i++) out[i] = D[i];
    HL = 0; NDEC++;
}
unsigned short horus_l2_gen_crc16(unsigned char *p, unsigned char length)
{
    __CPROVER_assert(__CPROVER_r_ok(p, length), "crc requires: a readable message");
    return spec_crc(p, length);
}
/* sprintf("%02X") and strcat, as the C standard defines them */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
int sprintf(char *s, const char *f, ...)
{
    __CPROVER_assert(f[0] == '%' && f[1] == '0' && f[2] == '2' && f[3] == 'X' && f[4] == 0, "model: sprintf is used with %02X");
    __CPROVER_assert(__CPROVER_w_ok(s, 3), "sprintf: room for three characters");
    __builtin_va_list ap; __builtin_va_start(ap, f);
    unsigned v = __builtin_va_arg(ap, unsigned) & 255; /* the argument is a byte; cbmc does not promote it */
    __builtin_va_end(ap);
    s[0] = "0123456789ABCDEF"[v >> 4 & 15]; s[1] = "0123456789ABCDEF"[v & 15]; s[2] = 0;
    return 2;
}
char *strcat(char *d, const char *s)
{
    for (int i = 0; i < HL; i++) __CPROVER_assert(d[i] != 0, "model: strcat appends to the string so far");
    __CPROVER_assert(d[HL] == 0, "model: strcat appends to the string so far");
    __CPROVER_assert(s[0] != 0 && s[1] != 0 && s[2] == 0, "model: strcat appends two characters");
    __CPROVER_assert(__CPROVER_w_ok(d + HL, 3), "strcat: room for the string");
    d[HL] = s[0]; d[HL + 1] = s[1]; d[HL + 2] = 0;
    HL += 2;
    return d;
}
#pragma CPROVER check pop
#endif

static char hexdig(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }

#ifdef VH_NATIVE
static uint8_t CODED[300];
static void gen_bits(void)
{
    for (int i = 0; i < RXLEN; i++) BITS[i] = vh_rand() & 1;
    uint8_t pay[SIZE]; int k = vh_rand() % 8;
    for (int i = 0; i < SIZE; i++) pay[i] = vh_rand();
    if (k < 3) { unsigned c = spec_crc(pay, SIZE - 2); pay[SIZE - 2] = c; pay[SIZE - 1] = c >> 8; }
    else if (k < 6) { unsigned c = spec_crc(pay + 2, SIZE - 2); pay[0] = c; pay[1] = c >> 8; }
    if (vh_rand() % 4 == 0) pay[vh_rand() % SIZE] ^= 1 << (vh_rand() % 8);
    horus_l2_encode_tx_packet(CODED, pay, SIZE);
    int nb = spec_coded_bytes(SIZE);
    for (int i = vh_rand() % 5; i > 0; i--) { int b = vh_rand() % (8 * nb); CODED[b / 8] ^= 1 << (b % 8); }
    for (int i = 0; i < 8 * nb; i++) if (LOC + i < RXLEN) BITS[LOC + i] = (CODED[i / 8] >> (7 - i % 8)) & 1;
}
#endif

void harness(void)
{
    int nb = spec_coded_bytes(SIZE);
#if !(defined(J_LOC) || defined(J_SAFE)) || defined(VH_NATIVE)
    open_modem();
#else
    /* as horus_open leaves it */
    static struct horus HS;
    H = &HS; H->mode = MODE; H->rx_bits_len = RXLEN; H->max_packet_len = MAXPKT; H->uw_len = UWLEN; H->fsk = &FSKS;
#endif
#ifdef FIXLOC
    LOC = FIXLOC;
#else
    VH_INT_GEN("LOC", LOC, vh_rand() % RXLEN);
    VH_PRE(LOC >= 0 && LOC < RXLEN);
#endif
#ifdef VH_NATIVE
    VH_BYTES_GEN("BITS", BITS, RXLEN, gen_bits());
#else
    __CPROVER_havoc_object(BITS);
#endif
#if defined(J_LOC) && !defined(VH_NATIVE)
    /* the bits of the packet, if there are that many */
    for (int i = 0; i < nb; i++)
        for (int j = 0; j < 8; j++) VH_PRE(LOC + 8 * nb > RXLEN || BITS[LOC + 8 * i + j] <= 1);
#elif !defined(J_SAFE) || defined(VH_NATIVE)
    for (int i = 0; i < RXLEN; i++) VH_PRE(BITS[i] <= 1);
#endif
    vh_bytes("D", D, SIZE);
    int ver0, pb0, ok0;
    VH_INT_GEN("version", ver0, vh_rand() % 4); VH_INT_GEN("payload_bits", pb0, vh_rand() % 900); VH_INT_GEN("crc_ok", ok0, vh_rand() % 2);
    VH_PRE(ok0 == 0 || ok0 == 1);
#ifdef VH_NATIVE
    free(H->rx_bits);
#endif
    H->rx_bits = BITS;
    H->version = ver0; H->total_payload_bits = pb0; H->crc_ok = ok0;
    OUT[0] = 'x';
#ifdef VH_NATIVE
    static uint8_t save[RXLEN]; memcpy(save, BITS, RXLEN);
    if (LOC + 8 * nb <= RXLEN) {
        for (int i = 0; i < 8 * nb; i++) { if (i % 8 == 0) CODED[i / 8] = 0; CODED[i / 8] |= BITS[LOC + i] << (7 - i % 8); }
        horus_l2_decode_rx_packet(D, CODED, SIZE);
    }
    char *out = malloc(OUTLEN); out[0] = 'x';
#else
    char *out = OUT;
#endif
#ifndef VH_NATIVE
    HL = 0;
#endif
#if SIZE == 22
    int r = extract_horus_binary_v1(H, out, LOC);
#else
    int r = extract_horus_binary_v2_256(H, out, LOC, SIZE);
#endif
    VH_REACH();
#if !defined(J_SAFE) || defined(VH_NATIVE)
    if (LOC + 8 * nb > RXLEN) {
        VH_POST("extract: nothing while the packet is incomplete", r == 0 && out[0] == 'x' && H->crc_ok == ok0 && H->total_payload_bits == pb0 && H->version == ver0);
    } else {
        bool tail = spec_crc(D, SIZE - 2) == (D[SIZE - 2] | D[SIZE - 1] << 8);
        bool head = spec_crc(D + 2, SIZE - 2) == (D[0] | D[1] << 8);
        bool ok = SIZE == 22 ? tail : SIZE == 32 ? tail || head : head;
#if !defined(J_LOC) && !defined(J_INCOMPLETE)
        VH_REACH();
#endif
        VH_POST("extract: accepted exactly if the CRC matches", r == ok);
        VH_POST("extract: the CRC status is the result", H->crc_ok == ok);
        if (ok) {
            for (int i = 0; i < SIZE; i++)
                VH_POST("extract: upper case hex of the payload", out[2 * i] == hexdig(D[i] >> 4) && out[2 * i + 1] == hexdig(D[i] & 15));
            VH_POST("extract: terminated after the payload", out[2 * SIZE] == 0);
            VH_POST("extract: the payload size", H->total_payload_bits == SIZE);
            VH_POST("extract: the packet version", H->version == (SIZE == 22 ? 1 : SIZE == 32 && tail ? 2 : 3));
        }
    }
#endif
#ifdef VH_NATIVE
    for (int i = 0; i < RXLEN; i++)
        VH_POST("extract: does not change the received bits", BITS[i] == save[i]);
    free(out);
#endif
    VH_POST("extract: does not change the search state", H->uw_count == 0 && H->rx_bits == BITS && H->rx_bits_len == RXLEN && H->mode == MODE && H->max_packet_len == MAXPKT && H->uw_len == UWLEN);
}
