/* Contracts of horus_l2.c for one payload size N */
#include "vh.h"
#include "l2_spec.h"

void horus_l2_init(void);
int horus_l2_get_num_tx_data_bytes(int n);
int horus_l2_encode_tx_packet(unsigned char *out, unsigned char *in, int n);
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n);
int golay23_syndrome(int c);
int golay23_encode(int c);
int golay23_decode(int c);
void golay23_init(void);

/* exactly sized, separate objects: an access outside them is a failed obligation */
static uint8_t P[N];      /* ghost: the payload          */
static uint8_t PAY[N];    /* encoder input               */
static uint8_t FRAME[NB]; /* encoder output, decoder input */
static uint8_t OUT[N];    /* decoder output              */

#ifdef VH_NATIVE
#define gdec_is(r, cw) (__builtin_popcount((r) ^ (cw)) <= 3)
#else
/* golay23_decode as a mathematical function; C01 proves that it takes every
 * code word with up to three bit errors back to the code word */
int __CPROVER_uninterpreted_gdec(int);
#define gdec_is(r, cw) (__CPROVER_uninterpreted_gdec(r) == (int)(cw))
#endif
int golay23_decode(int c)
__CPROVER_requires(c >= 0 && c < CW_LIMIT)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_gdec(c))
__CPROVER_assigns()
;
int golay23_syndrome(int c)
__CPROVER_requires(c >= 0 && c < CW_LIMIT)
__CPROVER_ensures(__CPROVER_return_value == (int)spec_syn(c))
__CPROVER_assigns()
;
int golay23_encode(int c)
__CPROVER_requires(c >= 0 && c < 4096)
__CPROVER_ensures(__CPROVER_return_value == (int)spec_cw(c))
__CPROVER_assigns()
;

/* at most three of the bits of any code word differ from the transmitted frame of P */
static bool noisy_frame_of_P(const uint8_t *f)
{
    bool ok = true;
    for (int k = 0; k < NCW; k++)
        ok = ok && gdec_is(spec_recv_cw(f, k), spec_cw(spec_data12(P, k)));
    return ok;
}
static bool equal(const uint8_t *a, const uint8_t *b, int n)
{
    bool ok = true;
    for (int i = 0; i < n; i++) ok = ok & (a[i] == b[i]);
    return ok;
}
/* the frame f is the on-air frame of the payload p, bit by bit */
static bool is_frame_of(const uint8_t *f, const uint8_t *p)
{
    bool ok = f[0] == '$' && f[1] == '$';
    for (int i = 0; i < 8 * N; i++) ok = ok & (spec_airbit(f, i) == pbit(p, i));
    for (int k = 0; k < NCW; k++) {
        unsigned par = spec_par(spec_data12(p, k));
        for (int i = 0; i < 11; i++) ok = ok & (spec_airbit(f, 8 * N + 11 * k + i) == ((par >> (10 - i)) & 1));
    }
    for (int i = NBODY; i < ILB; i++) ok = ok & (spec_airbit(f, i) == 0);
    return ok;
}

int horus_l2_get_num_tx_data_bytes(int n)
__CPROVER_requires(n >= 0 && n <= 1000000)
__CPROVER_ensures(__CPROVER_return_value == 2 + n + (((8 * n + 11) / 12) * 11 + 7) / 8)
__CPROVER_assigns()
;
int horus_l2_encode_tx_packet(unsigned char *out, unsigned char *in, int n)
__CPROVER_requires(n == N && out == FRAME && in == PAY)
__CPROVER_ensures(__CPROVER_return_value == NB)
__CPROVER_ensures(is_frame_of(out, P))
__CPROVER_assigns(__CPROVER_object_whole(out))
;
#if defined(J_DECODE)
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n)
__CPROVER_requires(n == N && out == OUT && in == FRAME)
__CPROVER_requires(noisy_frame_of_P(in))
__CPROVER_ensures(equal(out, P, N))
__CPROVER_assigns(__CPROVER_object_whole(out), __CPROVER_object_whole(in))
;
#else
/* whatever was received: terminates normally inside its two buffers */
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n)
__CPROVER_requires(n == N && out == OUT && in == FRAME)
__CPROVER_assigns(__CPROVER_object_whole(out), __CPROVER_object_whole(in))
;
#endif

#ifdef VH_NATIVE
static void gen_frame(void)
{
    for (int i = 0; i < NB; i++) FRAME[i] = vh_rand();
    for (int k = 0; k < NCW; k++) {
        unsigned cw = spec_cw(spec_data12(P, k)), e = 0;
        int ne = vh_rand() % 4, i;
        for (i = 0; i < ne; i++) e |= 1u << (vh_rand() % 23);
        cw ^= e;
        int nd = 8 * N - 12 * k; if (nd > 12) nd = 12;
        if (nd < 12) cw ^= e & ~(((1u << nd) - 1) << (22 - nd) | 0x7ff); /* bits that are not transmitted */
        for (i = 0; i < nd; i++) spec_setair(FRAME, 12 * k + i, (cw >> ((nd < 12 ? 10 + nd - i + 1 : 22 - i) - (nd < 12 ? 0 : 0))) & 1);
        for (i = 0; i < 11; i++) spec_setair(FRAME, 8 * N + 11 * k + i, (cw >> (10 - i)) & 1);
    }
}
#endif

void harness(void)
{
#if defined(J_SIZE)
    int n;
    VH_INT_GEN("n", n, vh_rand() % 2000);
    VH_CPRE(n >= 0 && n <= 1000000);
    int r = horus_l2_get_num_tx_data_bytes(n);
    VH_CPOST("coded packet size", r == 2 + n + (((8 * n + 11) / 12) * 11 + 7) / 8);
#else
    spec_keystream();
#if defined(J_ENCODE)
    vh_bytes("P", P, N);
    for (int i = 0; i < N; i++) PAY[i] = P[i];
#ifdef VH_NATIVE
    horus_l2_init();
#endif
    vh_bytes("old", FRAME, NB);
    int r = horus_l2_encode_tx_packet(FRAME, PAY, N);
    VH_CPOST("encode: returns the size of the coded packet", r == NB);
    VH_CPOST("encode: the on-air frame of the payload", is_frame_of(FRAME, P));
    VH_CPOST("encode: the payload is not modified", equal(PAY, P, N));
#elif defined(J_DECODE)
    vh_bytes("P", P, N);
    VH_BYTES_GEN("FRAME", FRAME, NB, gen_frame());
    VH_CPRE(noisy_frame_of_P(FRAME));
#ifdef VH_NATIVE
    horus_l2_init();
#endif
    horus_l2_decode_rx_packet(OUT, FRAME, N);
    VH_CPOST("decode: the payload, with up to three bit errors in each code word", equal(OUT, P, N));
#elif defined(J_SAFE)
    vh_bytes("FRAME", FRAME, NB);
#ifdef VH_NATIVE
    horus_l2_init();
#endif
    horus_l2_decode_rx_packet(OUT, FRAME, N);
#endif
#endif
    VH_REACH();
}
