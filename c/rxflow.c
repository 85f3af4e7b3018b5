/* Contracts of opening a modem (J_OPEN), of the unique word search (J_FIND) and
 * of one reception step (J_RX): C08, C09 */
#define HAVE_FSK_STUBS
#include "rx.h"

static int CREATED[7], NCREATED, ESTALG, NINIT, NDEMOD;
static uint8_t NEWBITS[NBITS], OLDBITS[RXLEN];
static short SAMPLES[16];
static int QUAD, NIN;
struct FSK *fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, int tx_fs)
{
    int a[7] = {Fs, Rs, M, P, Nsym, tx_f1, tx_fs};
    for (int i = 0; i < 7; i++) CREATED[i] = a[i];
    NCREATED++;
    FSKS.Nsym = Nsym; FSKS.Nbits = M == 2 ? Nsym : 2 * Nsym; FSKS.Fs = Fs; FSKS.Rs = Rs; FSKS.stats = &MSTATS;
    return &FSKS;
}
static int DESTROYED;
void fsk_destroy(struct FSK *f) { VH_POST("close: destroys its own modem", f == &FSKS); DESTROYED++; }
void fsk_set_freq_est_alg(struct FSK *f, int t) { ESTALG = t; f->freq_est_type = t; }
uint32_t fsk_nin(struct FSK *f) { return f->nin; }
void fsk_get_demod_stats(struct FSK *f, struct MODEM_STATS *s) {}
void fsk_demod_core(struct FSK *f, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[])
{
    NDEMOD++;
#ifdef J_RX
    VH_POST("rx: new bits go to the end of the buffer", rx_bits == H->rx_bits + (RXLEN - NBITS));
    for (int i = 0; i < 3; i++) if (i < NIN)
        VH_POST("rx: the modem is given the samples", fsk_in[i].real == (float)SAMPLES[QUAD ? 2 * i : i] && fsk_in[i].imag == (QUAD ? (float)SAMPLES[2 * i + 1] : 0));
#endif
    for (int i = 0; i < NBITS; i++) { rx_bits[i] = NEWBITS[i]; rx_sd[i] = 0; }
}
#ifndef VH_NATIVE
void horus_l2_init(void) { NINIT++; }
int horus_l2_get_num_tx_data_bytes(int n) { return spec_coded_bytes(n); }
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n) {}
unsigned short horus_l2_gen_crc16(unsigned char *p, unsigned char length) { return 0; }
#endif

#if defined(J_OPEN)
void harness(void)
{
    NCREATED = ESTALG = NINIT = DESTROYED = 0;
    int how, Rs, sp, Fs, P;
#ifdef HOW
    how = HOW;
#else
    VH_INT_GEN("how", how, vh_rand() % 3);
#endif
    VH_INT_GEN("Rs", Rs, vh_rand() % 3 ? -1 : 1 + vh_rand() % 600); VH_INT_GEN("spacing", sp, vh_rand() % 2 ? -1 : (int)(vh_rand() % 2000));
    VH_INT_GEN("Fs", Fs, 8000 + vh_rand() % 90000); VH_INT_GEN("P", P, 4 + vh_rand() % 10);
    VH_PRE(Rs >= -1 && Rs < 100000000); VH_PRE(how >= 0 && how < 3);
    if (how == 0) { H = horus_open(MODE); Rs = -1; sp = -1; Fs = 48000; P = 8; }
    else if (how == 1) { H = horus_open_advanced(MODE, Rs, sp); Fs = 48000; P = 8; }
    else H = horus_open_advanced_sample_rate(MODE, Rs, sp, Fs, P);
    VH_REACH();
    int rs = Rs == -1 ? 100 : Rs, m = MODE == 0 ? 4 : 2;
    VH_POST("open: one modem with the parameters of the mode", NCREATED == 1 && CREATED[0] == Fs && CREATED[1] == rs && CREATED[2] == m && CREATED[3] == P && CREATED[4] == 50);
    VH_POST("open: the tone spacing that was asked for", CREATED[6] == (sp != -1 ? sp : MODE == 0 ? 270 : 2 * rs));
    VH_POST("open: the mask estimator only if the tone spacing is known", (ESTALG != 0) == (sp != -1));
    VH_POST("open: mode getters", horus_get_mode(H) == MODE && horus_get_Fs(H) == Fs && horus_get_mFSK(H) == m && H->Rs == rs);
    VH_POST("open: output size", horus_get_max_ascii_out_len(H) == OUTLEN);
    VH_POST("open: nothing received yet", horus_crc_ok(H) == 0 && horus_get_total_payload_bits(H) == 0 && H->uw_count == 0 && horus_packet_version(H) == 0 && H->verbose == 0);
    VH_POST("open: packet and buffer sizes", H->max_packet_len == MAXPKT && H->rx_bits_len == RXLEN && H->uw_len == UWLEN && H->uw_thresh == UWLEN - 2);
    for (int i = 0; i < UWLEN; i++) VH_POST("open: the unique word of the mode", H->uw[i] == 2 * SPEC_UW[i] - 1);
    bool zero = true;
    for (int i = 0; i < RXLEN; i++) zero = zero && H->rx_bits[i] == 0 && H->soft_bits[i] == 0;
    VH_POST("open: empty bit buffers", zero);
#ifndef VH_NATIVE
    VH_POST("open: error correction tables are set up", NINIT > 0 || MODE != 0);
#endif
    horus_close(H);
    VH_POST("close: destroys the modem once", DESTROYED == 1);
}
#elif defined(J_FIND)
static int GLOC[32], GCNT, OLDLOC[32];
void harness(void)
{
    int cnt0;
#ifdef VH_NATIVE
    NDEMOD = 0;
    open_modem();
#else
    static struct horus HS;
    H = &HS; H->mode = MODE; H->rx_bits_len = RXLEN; H->max_packet_len = MAXPKT; H->uw_len = UWLEN; H->uw_thresh = UWLEN - 2; H->fsk = &FSKS; FSKS.Nbits = NBITS;
    H->rx_bits = BITS; H->soft_bits = SOFT;
    for (int i = 0; i < UWLEN; i++) H->uw[i] = 2 * SPEC_UW[i] - 1;
#endif
    /* what is older than the window that is searched does not matter: it is outside of this object's tail */
    const int W0 = RXLEN - NBITS - UWLEN;
#ifdef VH_NATIVE
    for (int i = 0; i < W0; i++) BITS[i] = vh_rand() & 1;
    VH_BYTES_GEN("TAIL", BITS + W0, NBITS + UWLEN, {
        for (int i = W0; i < RXLEN; i++) BITS[i] = vh_rand() & 1;
        for (int k = vh_rand() % 9; k > 0; k--) { int p = W0 + vh_rand() % (NBITS + 2); for (int j = 0; j < UWLEN && p + j < RXLEN; j++) BITS[p + j] = SPEC_UW[j]; if (vh_rand() % 2 && p + 9 < RXLEN) BITS[p + vh_rand() % 9] ^= 1; }
        for (int i = W0; i < RXLEN; i++) BITS[i] &= 1; });
    free(H->rx_bits); H->rx_bits = malloc(RXLEN); memcpy(H->rx_bits, BITS, RXLEN);
#else
    vh_bytes("TAIL", BITS + W0, NBITS + UWLEN);
#ifdef WIN
    /* one step of the search: the bits outside this window do not match; the places tracked before are arbitrary */
    for (int i = 0; i < NBITS + UWLEN; i++) if (i < WIN || i >= WIN + WINLEN + UWLEN - 1) BITS[W0 + i] = 1;
#endif
#endif
    for (int i = W0; i < RXLEN; i++) VH_PRE(BITS[i] <= 1);
#ifdef CNT
    cnt0 = CNT;
#else
    VH_INT_GEN("count", cnt0, vh_rand() % 33);
#endif
    VH_PRE(cnt0 >= 0 && cnt0 <= 32);
    /* tracked so far: earlier positions, in order (established by one reception step, J_RX) */
    for (int i = 0; i < 32; i++) {
        int l; VH_INT_GEN("loc", l, i * 20);
        VH_PRE(i >= cnt0 || (l >= 0 && l < W0 && (i == 0 || l > H->uw_loc[i - 1])));
        H->uw_loc[i] = GLOC[i] = OLDLOC[i] = l;
    }
    H->uw_count = GCNT = cnt0;
    horus_find_uw(H);
    VH_REACH();
    /* every place of the new bits that differs from the unique word in at most one bit, in order, up to 32 */
    for (int p = W0; p < RXLEN - UWLEN; p++) {
        int bad = 0;
        for (int j = 0; j < UWLEN; j++) bad += BITS[p + j] != SPEC_UW[j];
        if (bad <= 1 && GCNT < 32) GLOC[GCNT++] = p;
    }
    VH_POST("find: tracks each new place that matches the unique word", H->uw_count == GCNT);
    for (int i = 0; i < 32; i++) VH_POST("find: the places, in order, after those already tracked", i >= GCNT || H->uw_loc[i] == GLOC[i]);
    for (int i = 0; i < 32; i++) VH_POST("find: in range and strictly increasing", i >= GCNT || (H->uw_loc[i] >= 0 && H->uw_loc[i] < RXLEN - UWLEN && (i == 0 || H->uw_loc[i] > H->uw_loc[i - 1])));
}
#elif defined(J_RX)
/* callees by contract:
 *  horus_find_uw  appends places in the new window (J_FIND)
 *  extract_*      accept or not; never an incomplete packet; on acceptance crc_ok (C06, C07) */
static int EXP[32], EXPN, INIT[32], INITN;
static int GIDX, GLOC, GSIZE, TRIED, DONE, DONELOC, DONEIDX, NEWCNT, NFIND;
/* the extraction's own condition for "not enough data yet"; in the scaled down buffer any such condition will do */
#define SIZE0 20
#ifdef SMALL_PKT
static int complete(int loc, int size) { return loc + size <= RXLEN; }
#else
static int complete(int loc, int size) { return MODE == 0 ? loc + 8 * spec_coded_bytes(size) <= RXLEN : loc + MAXPKT <= RXLEN; }
#endif
static int attempt(struct horus *h, char *out, int loc, int size)
{
    bool tracked = false;
    int idx = 0;
    for (int k = 0; k < 32; k++) if (k < EXPN && EXP[k] == loc) { tracked = true; idx = k; }
    VH_POST("rx: packets are only looked for at a tracked unique word", tracked && h == H && out == OUT);
    VH_POST("rx: nothing is looked for after a packet was found in this step", !DONE);
    if (loc == GLOC && size == GSIZE) TRIED = 1;
#ifndef VH_NATIVE
    uint8_t ok = nondet_u8(); __CPROVER_assume(ok <= 1);
#else
    uint8_t ok = vh_u8("ok") == 0;
#endif
    if (!complete(loc, size)) ok = 0;
    else H->crc_ok = ok;
    if (ok) { DONE = 1; DONELOC = loc; DONEIDX = idx; }
    return ok;
}
int extract_horus_rtty(struct horus *h, char out[], int loc, int ascii_bits, int stop_bits)
{
    VH_POST("rx: character format of the mode", ascii_bits == ABITS && stop_bits == SBITS);
    return attempt(h, out, loc, SIZE0);
}
int extract_horus_binary_v1(struct horus *h, char out[], int loc) { VH_POST("rx: binary extraction in a binary mode only", MODE == 0); return attempt(h, out, loc, 22); }
int extract_horus_binary_v2_256(struct horus *h, char out[], int loc, int size)
{
    VH_POST("rx: packet sizes of the mode", MODE == 0 && (size == 32 || size == 48 || size == 64 || size == 96 || size == 128));
    return attempt(h, out, loc, size);
}
void horus_find_uw(struct horus *h)
{
    NFIND++;
    VH_POST("rx: searches after demodulating", h == H && NDEMOD == 1);
    bool same = true;
    for (int i = 0; i < RXLEN - NBITS; i++) same = same & (h->rx_bits[i] == OLDBITS[i + NBITS]);
    VH_POST("rx: the received bits move up by one frame", same);
    same = true;
    for (int i = 0; i < NBITS; i++) same = same & (h->rx_bits[RXLEN - NBITS + i] == NEWBITS[i]);
    VH_POST("rx: the new bits follow", same);
    /* tracked places move with their bits */
    int n = 0;
    for (int i = 0; i < 32; i++) if (i < INITN && INIT[i] >= NBITS) EXP[n++] = INIT[i] - NBITS;
    VH_POST("rx: every place that is still in the buffer stays tracked", h->uw_count == n);
    for (int i = 0; i < 32; i++) VH_POST("rx: tracked places move with their bits", i >= n || h->uw_loc[i] == EXP[i]);
    for (int k = 0; k < 32; k++) {
        if (k < NEWCNT && n < 32) {
            int p;
#ifdef VH_NATIVE
            p = RXLEN - NBITS - UWLEN + k * 3;
#else
            p = nondet_i32();
            __CPROVER_assume(p >= RXLEN - NBITS - UWLEN && p < RXLEN - UWLEN);
#endif
            VH_PRE(n == 0 || p > EXP[n - 1]);
            h->uw_loc[n] = p; EXP[n] = p; n++;
        }
    }
    h->uw_count = n; EXPN = n;
    VH_PRE(GIDX < n);
    GLOC = EXP[GIDX];
}
void harness(void)
{
#ifdef VH_NATIVE
    NDEMOD = NFIND = TRIED = DONE = EXPN = 0; DONELOC = DONEIDX = 0;
    open_modem(); OUT[0] = 0;
#else
    static struct horus HS;
    H = &HS; H->mode = MODE; H->rx_bits_len = RXLEN; H->max_packet_len = MAXPKT; H->uw_len = UWLEN; H->uw_thresh = UWLEN - 2; H->fsk = &FSKS; FSKS.Nbits = NBITS;
    H->rx_bits = BITS; H->soft_bits = SOFT;
#endif
    vh_bytes("BITS", H->rx_bits, RXLEN);
    for (int i = 0; i < RXLEN; i++) OLDBITS[i] = H->rx_bits[i];
    vh_bytes("NEW", NEWBITS, NBITS);
#ifdef CNT
    INITN = CNT;
#else
    VH_INT_GEN("count", INITN, vh_rand() % 33);
#endif
    VH_PRE(INITN >= 0 && INITN <= 32);
#ifdef MAXTRACK
    VH_PRE(INITN <= MAXTRACK);
#endif
    int last = -1;
    for (int i = 0; i < 32; i++) {
        int l; VH_INT_GEN("loc", l, vh_rand() % 4 ? vh_rand() % 8 == 0 && last < NBITS - 1 ? NBITS - 1 + (int)(vh_rand() % 3) : vh_rand() % 12 == 0 && last < RXLEN - UWLEN - 1 - (RXLEN / 32) * (32 - i) && i > INITN - 3 ? RXLEN - NBITS - UWLEN - 1 : last + 1 + (int)(vh_rand() % (RXLEN / 32 - 2)) : -1);
        VH_PRE(i >= INITN || l == -1 || (l > last && l < RXLEN - UWLEN));
        if (l != -1) last = l;
        H->uw_loc[i] = INIT[i] = l;
    }
    H->uw_count = INITN;
    VH_INT_GEN("new", NEWCNT, vh_rand() % 10); VH_PRE(NEWCNT >= 0 && NEWCNT <= 32);
#ifdef MAXNEW
    VH_PRE(NEWCNT <= MAXNEW);
#endif

    VH_INT_GEN("nin", NIN, vh_rand() % 4); VH_PRE(NIN >= 0 && NIN <= 3);
    VH_INT_GEN("quad", QUAD, vh_rand() % 2); VH_PRE(QUAD == 0 || QUAD == 1);
    VH_INT_GEN("gidx", GIDX, vh_rand() % 4); VH_PRE(GIDX >= 0 && GIDX < 32);
    VH_INT_GEN("gsize", GSIZE, ((int[]){22, 32, 48, 64, 96, 128})[vh_rand() % 6]);
    if (MODE == 0) VH_PRE(GSIZE == 22 || GSIZE == 32 || GSIZE == 48 || GSIZE == 64 || GSIZE == 96 || GSIZE == 128);
    else GSIZE = SIZE0;
    vh_bytes("samples", SAMPLES, sizeof SAMPLES);
    FSKS.nin = NIN;
    short *demod_in = malloc(sizeof(short) * (QUAD ? 2 * NIN : NIN) + 1);
    VH_PRE(demod_in != 0);
    for (int i = 0; i < 6; i++) if (i < (QUAD ? 2 * NIN : NIN)) demod_in[i] = SAMPLES[i];
    int r = horus_rx(H, OUT, demod_in, QUAD);
    VH_REACH();
    VH_POST("rx: one search per step", NFIND == 1);
    VH_POST("rx: reports a packet exactly if one was accepted", (r != 0) == DONE);
    if (DONE) VH_POST("rx: with a good CRC", horus_crc_ok(H) == 1);
    if (complete(GLOC, GSIZE) && (!DONE || GIDX < DONEIDX))
        VH_POST("rx: every complete packet size is tried at every tracked unique word", TRIED);
    bool there = false, delivered = false, below = false, inv = true; int lastl = -1;
    VH_POST("rx: up to 32 tracked places", H->uw_count >= 0 && H->uw_count <= 32);
    for (int k = 0; k < 32; k++) if (k < H->uw_count) {
        if (H->uw_loc[k] == GLOC) there = true;
        if (DONE && H->uw_loc[k] == DONELOC) delivered = true;
        if (DONE && H->uw_loc[k] >= 0 && H->uw_loc[k] - DONELOC < 100) below = true;
        inv = inv && (H->uw_loc[k] == -1 || (H->uw_loc[k] > lastl && H->uw_loc[k] < RXLEN - UWLEN));
        if (H->uw_loc[k] != -1) lastl = H->uw_loc[k];
    }
    VH_POST("rx: a packet is reported once (its unique word is not tracked any more)", !delivered);
    if (MODE != 0) VH_POST("rx: no unique word inside the header of a reported sentence stays tracked", !below);
    if (!DONE || (MODE == 0 ? GLOC != DONELOC : GLOC - DONELOC >= 100))
        VH_POST("rx: other candidates stay tracked", there);
    VH_POST("rx: tracked places are in the buffer and in order", inv);
    VH_POST("rx: configuration unchanged", H->rx_bits_len == RXLEN && H->mode == MODE && H->max_packet_len == MAXPKT && H->uw_len == UWLEN && H->uw_thresh == UWLEN - 2);
    free(demod_in);
}
#endif
