// Runs one harness of a compiled harness library natively, on values from a tape.
//   replay LIB HARNESS TAPE
// tape lines:  "u8 12"  ...   and   "opq SIZE ELSE off=val off=val ..."
// exit: 0 all checks passed   42 a check failed   43 an assumption failed / tape ran out
//       44 unmodelled stub     134-ish: abort (panic)   45 usage
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>

typedef struct { char kind[8]; uint64_t v; } ent;
static ent *tape; static size_t ntape, pos;
typedef struct { uint64_t size, els; size_t n; uint64_t *off, *val; } opq;
static opq *opqs; static size_t nopq, popq;
static int may_panic; static long nchecks, nfail; static char firstfail[512];

static uint64_t take(const char *k) {
    if (pos >= ntape) { pos++; return 0; }
    ent *e = &tape[pos++];
    if (strcmp(e->kind, k)) { printf("TAPE-MISMATCH want %s have %s at %zu\n", k, e->kind, pos - 1); fflush(stdout); _exit(43); }
    return e->v;
}
static void fin(int code) {
    printf("CHECKS %ld FAILED %ld\n", nchecks, nfail);
    if (nfail) printf("FAIL %s\n", firstfail);
    fflush(stdout);
    _exit(code);
}
uint8_t nd_u8(void) { return take("u8"); }
uint16_t nd_u16(void) { return take("u16"); }
uint32_t nd_u32(void) { return take("u32"); }
uint64_t nd_u64(void) { return take("u64"); }
_Bool nd_bool(void) { return take("bool") & 1; }
float nd_f32(void) { uint32_t b = take("f32"); float f; memcpy(&f, &b, 4); return f; }
float nd_unit(float lo, float hi) {
    float f = nd_f32();
    if (!(f >= lo && f <= hi)) { printf("ASSUME range\n"); fin(nfail ? 42 : 43); }
    return f;
}
void nd_assume(_Bool c) { if (!c) { printf("ASSUME\n"); fin(nfail ? 42 : 43); } }
void nd_check(_Bool c, const char *m, size_t n) {
    nchecks++;
    if (!c) { if (!nfail) snprintf(firstfail, sizeof firstfail, "%.*s", (int)n, m); nfail++; }
}
void nd_cover(const char *m, size_t n) { printf("COVER %.*s\n", (int)n, m); }
void nd_done(void) { fin(nfail ? 42 : 0); }
void nd_may_panic(_Bool c) { may_panic = c; }
uint64_t nd_fork(uint64_t v) { return v; }
_Bool nd_fork_bool(_Bool v) { return v; }
void nd_out_u64(uint64_t v) { printf("OUT %llx\n", (unsigned long long)v); }
void nd_fail_unmodelled(const char *m, size_t n) { printf("UNMODELLED %.*s\n", (int)n, m); fflush(stdout); _exit(44); }
void *nd_opaque(uint64_t size) {
    char *p = mmap(0, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { printf("OPAQUE-NOMEM\n"); fin(43); }
    if (popq < nopq) {
        opq *o = &opqs[popq];
        // the default word is only materialised around the accessed cells
        if (o->els && size < (64u << 20)) for (uint64_t i = 0; i + 4 <= size; i += 4) *(uint32_t *)(p + i) = o->els;
        for (size_t i = 0; i < o->n; i++) if (o->off[i] + 4 <= size) *(uint32_t *)(p + o->off[i]) = o->val[i];
    }
    popq++;
    return p;
}
static void onabrt(int s) {
    if (may_panic) { printf("PANIC allowed\n"); fin(nfail ? 42 : 0); }
    printf("PANIC\n"); fin(nfail ? 42 : 41);
}
int main(int c, char **v) {
    if (c < 4) return 45;
    FILE *f = fopen(v[3], "r");
    if (!f) { perror(v[3]); return 45; }
    char *line = 0; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "opq ", 4)) {
            opqs = realloc(opqs, (nopq + 1) * sizeof *opqs); opq *o = &opqs[nopq++]; memset(o, 0, sizeof *o);
            char *q = line + 4; o->size = strtoull(q, &q, 10); o->els = strtoull(q, &q, 10);
            for (;;) {
                while (*q == ' ') q++;
                if (*q < '0' || *q > '9') break;
                uint64_t off = strtoull(q, &q, 10); if (*q != '=') break; uint64_t val = strtoull(q + 1, &q, 10);
                o->off = realloc(o->off, (o->n + 1) * 8); o->val = realloc(o->val, (o->n + 1) * 8);
                o->off[o->n] = off; o->val[o->n++] = val;
            }
            continue;
        }
        tape = realloc(tape, (ntape + 1) * sizeof *tape);
        unsigned long long x;
        if (sscanf(line, "%7s %llu", tape[ntape].kind, &x) == 2) tape[ntape++].v = x;
    }
    fclose(f);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    void *h = dlopen(v[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 45; }
    void (*fn)(void) = (void (*)(void))dlsym(h, v[2]);
    if (!fn) { fprintf(stderr, "%s\n", dlerror()); return 45; }
    signal(SIGABRT, onabrt); signal(SIGILL, onabrt); signal(SIGTRAP, onabrt);
    alarm(60);
    fn();
    fin(nfail ? 42 : 0);
}
