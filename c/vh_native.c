/* Native driver: replay a recorded input, or search with a seeded generator. */
#define _GNU_SOURCE
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
void harness(void);
int vh_fuzzing = 0;
static uint64_t rng = 88172645463325252ull;
uint32_t vh_rand(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }

/* shared record of the inputs drawn in the current iteration */
#define RECMAX (1u << 20)
struct rec { volatile uint32_t len; volatile uint64_t iters; volatile uint64_t skips; char label[256]; char buf[RECMAX]; };
static struct rec *R;
void vh_record(const char *tag, const void *p, size_t n) {
    if (!R) return;
    char *b = R->buf; uint32_t l = R->len;
    if (l + strlen(tag) + 3 * n + 64 > RECMAX) return;
    l += sprintf(b + l, "%s %zu", tag, n);
    for (size_t i = 0; i < n; i++) l += sprintf(b + l, " %02x", ((const uint8_t *)p)[i]);
    b[l++] = '\n';
    R->len = l;
}
/* replay queues */
struct q { char tag[64]; uint8_t *d; size_t n, pos; };
static struct q Q[256]; static int nq;
static struct q *findq(const char *tag) { for (int i = 0; i < nq; i++) if (!strcmp(Q[i].tag, tag)) return &Q[i]; return NULL; }
static void load(const char *fn) {
    FILE *f = fopen(fn, "r"); if (!f) { perror(fn); exit(2); }
    char tag[64]; size_t n;
    while (fscanf(f, "%63s", tag) == 1) {
        if (tag[0] == '#') { int c; while ((c = fgetc(f)) != '\n' && c != EOF); continue; }
        if (fscanf(f, "%zu", &n) != 1) exit(2);
        struct q *q = findq(tag);
        if (!q) { q = &Q[nq++]; strcpy(q->tag, tag); q->d = NULL; q->n = q->pos = 0; }
        q->d = realloc(q->d, q->n + n + 1);
        for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%x", &v) != 1) exit(2); q->d[q->n++] = (uint8_t)v; }
    }
    fclose(f);
}
static int style, stylep;
static uint8_t gen8(void) {
    uint32_t r = vh_rand();
    switch (style) {
    case 0: return (uint8_t)r;
    case 1: return 0;
    case 2: return 0xff;
    case 3: return (uint8_t)(1u << (r & 7));
    case 4: return (r % 100 < (uint32_t)stylep) ? (uint8_t)(r >> 8) : 0;
    case 5: return (r % 100 < (uint32_t)stylep) ? (uint8_t)(r >> 8) : 0xff;
    case 6: return (uint8_t)(r & 1 ? 0x80 | (r >> 8) : r >> 8);
    default: { static uint8_t last; if (r % 4 == 0) last = (uint8_t)(r >> 8); return last; }
    }
}
void vh_bytes(const char *tag, void *p, size_t n) {
    uint8_t *b = p;
    if (vh_fuzzing) {
        style = vh_rand() % 3 ? 0 : vh_rand() % 8; stylep = 1 + vh_rand() % 30;
        for (size_t i = 0; i < n; i++) b[i] = gen8();
        vh_record(tag, p, n);
    } else {
        struct q *q = findq(tag);
        for (size_t i = 0; i < n; i++) b[i] = (q && q->pos < q->n) ? q->d[q->pos++] : 0;
    }
}
uint8_t vh_u8(const char *tag) { uint8_t v; vh_bytes(tag, &v, 1); return v; }
int32_t vh_i32(const char *tag) {
    int32_t v;
    if (vh_fuzzing) {
        uint32_t r = vh_rand();
        switch (r % 6) {
        case 0: v = (int32_t)(r >> 8) % 16; break;
        case 1: v = (int32_t)((1u << (vh_rand() & 31)) + (vh_rand() % 3) - 1); break;
        case 2: v = -(int32_t)(vh_rand() % 300); break;
        case 3: v = (int32_t)(vh_rand() % 70000); break;
        default: v = (int32_t)((vh_rand() << 16) ^ vh_rand());
        }
        vh_record(tag, &v, sizeof v);
    } else vh_bytes(tag, &v, sizeof v);
    return v;
}
void vh_fail(const char *label) {
    if (R) { strncpy(R->label, label, 255); }
    printf("VH_FAIL %s\n", label); fflush(stdout);
    _exit(101);
}

#include <setjmp.h>
static sigjmp_buf sj;
void vh_skip(void) { if (vh_fuzzing) { R->skips++; siglongjmp(sj, 1); } printf("VH_SKIP precondition not met\n"); fflush(stdout); _exit(77); }

int main(int argc, char **argv) {
    
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        load(argv[2]);
        alarm(60);
        harness();
        printf("VH_OK\n");
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "fuzz")) {
        uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); const char *out = argv[4];
        R = mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
        for (uint64_t k = 0;; k++) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            double el = t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9;
            if (el > secs) break;
            fflush(stdout);
            pid_t p = fork();
            if (!p) {
                vh_fuzzing = 1; rng = (seed + 1) * 0x9E3779B97F4A7C15ull ^ (k * 0xD1B54A32D192ED03ull + 12345); for (int i = 0; i < 8; i++) vh_rand();
                for (volatile int i = 0; i < 4000; i++) {
                    clock_gettime(CLOCK_MONOTONIC, &t);
                    if (t.tv_sec - t0.tv_sec > secs + 1) _exit(0);
                    if (sigsetjmp(sj, 1)) continue;
                    R->len = 0; R->label[0] = 0; alarm(20);
                    harness();
                    R->iters++;
                }
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            const char *why = R->label[0] ? R->label : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not terminate" : WTERMSIG(st) == SIGABRT ? "assertion failure (abort)" : "crash") : "sanitizer report";
            FILE *f = fopen(out, "w"); fprintf(f, "# %s\n", why); fwrite(R->buf, 1, R->len, f); fclose(f);
            printf("VH_FOUND %s after %llu runs\n", why, (unsigned long long)R->iters);
            return 1;
        }
        printf("VH_NONE runs=%llu skips=%llu\n", (unsigned long long)R->iters, (unsigned long long)R->skips);
        return 0;
    }
    fprintf(stderr, "usage: %s replay FILE | fuzz SEED SECS OUT\n", argv[0]);
    return 2;
}
