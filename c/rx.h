/* Environment of horus_api.c in the reception proofs.
 * Modem (fsk.c): replaced by its contract: each call of fsk_demod_core delivers
 * Nbits received bits, each 0 or 1, at the place it is given. What those bits
 * are is arbitrary, so every property is for every received bit stream.
 * In the CBMC build the functions of horus_l2.c / golay23.c are replaced by the
 * contracts that C02..C05 prove for them; natively they are the real ones. */
#ifndef RX_H
#define RX_H
#include "vh.h"
#include <stdlib.h>
#include <stdio.h>
#include "horus_api.h"
#include "fsk.h"
#include "horus_l2.h"

int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int ascii_bits, int stop_bits);
int extract_horus_binary_v1(struct horus *hstates, char hex_out[], int uw_loc);
int extract_horus_binary_v2_256(struct horus *hstates, char hex_out[], int uw_loc, int size);
void horus_find_uw(struct horus *hstates);
int hex2int(char ch);
int horus_packet_version(struct horus *hstates);

/* what each mode is, from the documentation of the modes (independent of the code) */
#ifndef MODE
#define MODE HORUS_MODE_BINARY_V1
#endif
#if MODE == 0
#define NBITS 100
#define MAXPKT 3640
#define UWLEN 16
#define ABITS 8
#define SBITS 0
static const int8_t SPEC_UW[UWLEN] = {0,0,1,0,0,1,0,0, 0,0,1,0,0,1,0,0};
#elif MODE == 89
#define NBITS 50
#define MAXPKT 1080
#define UWLEN 18
#define ABITS 7
#define SBITS 1
static const int8_t SPEC_UW[UWLEN] = {0,0,1,0,0,1,0,1,0, 0,0,1,0,0,1,0,1,0};
#elif MODE == 90
#define NBITS 50
#define MAXPKT 1200
#define UWLEN 20
#define ABITS 7
#define SBITS 2
static const int8_t SPEC_UW[UWLEN] = {0,0,1,0,0,1,0,1,1,0, 0,0,1,0,0,1,0,1,1,0};
#else
#define NBITS 50
#define MAXPKT 1320
#define UWLEN 22
#define ABITS 8
#define SBITS 2
static const int8_t SPEC_UW[UWLEN] = {0,0,1,0,0,1,0,0,1,1,0, 0,0,1,0,0,1,0,0,1,1,0};
#endif
#if defined(SMALL_NBITS) && !defined(VH_NATIVE)
#undef NBITS
#define NBITS SMALL_NBITS
#endif
#if defined(SMALL_PKT) && !defined(VH_NATIVE)
#undef MAXPKT
#define MAXPKT SMALL_PKT
#endif
#define RXLEN (MAXPKT + NBITS)
#define OUTLEN (MODE == 0 ? 257 : 121)

static struct FSK FSKS;
static struct MODEM_STATS MSTATS;
static uint8_t BITS[RXLEN];
static float SOFT[RXLEN];
static char OUT[OUTLEN];

/* ---- the modem ---- */
#ifndef HAVE_FSK_STUBS
struct FSK *fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, int tx_fs)
{
    FSKS.Nsym = Nsym; FSKS.Nbits = M == 2 ? Nsym : 2 * Nsym; FSKS.Fs = Fs; FSKS.Rs = Rs;
    FSKS.stats = &MSTATS;
    return &FSKS;
}
void fsk_destroy(struct FSK *f) {}
void fsk_set_freq_est_alg(struct FSK *f, int t) { f->freq_est_type = t; }
uint32_t fsk_nin(struct FSK *f) { return f->nin; }
void fsk_get_demod_stats(struct FSK *f, struct MODEM_STATS *s) {}
static uint8_t NEWBITS[NBITS];
void fsk_demod_core(struct FSK *f, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[])
{
    for (int i = 0; i < NBITS; i++) { rx_bits[i] = NEWBITS[i]; rx_sd[i] = 0; }
}
#endif

static unsigned spec_crc_step(unsigned crc, unsigned byte)
{
    crc ^= byte << 8;
    for (int i = 0; i < 8; i++) crc = (crc & 0x8000) ? ((crc << 1) ^ 0x1021) & 0xFFFF : (crc << 1) & 0xFFFF;
    return crc;
}
static unsigned spec_crc(const uint8_t *p, int n)
{
    unsigned c = 0xFFFF;
    for (int i = 0; i < n; i++) c = spec_crc_step(c, p[i]);
    return c;
}
static int spec_coded_bytes(int n) { return 2 + n + (((8 * n + 11) / 12) * 11 + 7) / 8; }

static struct horus *H;
static void open_modem(void)
{
    H = horus_open_advanced_sample_rate(MODE, 100, 270, 48000, 8);
}
#endif
