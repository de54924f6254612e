// Replay implementation of the harness interface: inputs come from a file of lines
//   u NAME VALUE          b NAME LEN HEX
// in call order; every check, observation and reached label is printed.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

static FILE *in;
static int failed;

void vf_native_open(const char *path) {
    in = fopen(path, "r");
    if (!in) { perror(path); exit(70); }
    setvbuf(stdout, 0, _IOLBF, 0);
}
int vf_native_failed(void) { return failed; }

static void mismatch(const char *n, size_t nl) {
    printf("VF-MISMATCH %.*s\n", (int)nl, n);
    fflush(stdout);
    exit(71);
}
static uint64_t next_u(const char *n, size_t nl) {
    char k[8], name[256];
    unsigned long long v;
    if (fscanf(in, "%7s %255s %llu", k, name, &v) != 3 || k[0] != 'u' || strlen(name) != nl || memcmp(name, n, nl)) mismatch(n, nl);
    return v;
}
uint64_t vf_u64(const char *n, size_t nl, uint64_t lo, uint64_t hi) { uint64_t v = next_u(n, nl); if (v < lo || v > hi) mismatch(n, nl); return v; }
uint64_t vf_dec(const char *n, size_t nl, uint64_t nd) { return next_u(n, nl); }
uint64_t vf_choose(const char *n, size_t nl, uint64_t c) { uint64_t v = next_u(n, nl); if (v >= c) mismatch(n, nl); return v; }
void vf_bytes(const char *n, size_t nl, uint8_t *out, size_t len, uint64_t lo, uint64_t hi) {
    char k[8], name[256];
    size_t l;
    if (fscanf(in, "%7s %255s %zu", k, name, &l) != 3 || k[0] != 'b' || strlen(name) != nl || memcmp(name, n, nl) || l != len) mismatch(n, nl);
    for (size_t i = 0; i < len; i++) {
        unsigned x;
        if (fscanf(in, " %2x", &x) != 1) mismatch(n, nl);
        out[i] = x;
    }
}
void vf_assume(uint64_t c) {
    if (!c) { printf("VF-ASSUME-FAILED\n"); fflush(stdout); exit(72); }
}
void vf_check(uint64_t c, const char *id, size_t l) {
    if (!c) { failed = 1; printf("VF-FAIL %.*s\n", (int)l, id); fflush(stdout); }
}
void vf_reach(const char *id, size_t l) { printf("VF-REACH %.*s\n", (int)l, id); fflush(stdout); }
void vf_observe(const uint8_t *p, size_t l) {
    printf("VF-OBS ");
    for (size_t i = 0; i < l; i++) printf("%02x", p[i]);
    printf("\n");
    fflush(stdout);
}
void vf_allow_panic(uint64_t b) {}
uint64_t vf_concrete(uint64_t v) { return v; }
void vf_concrete_bytes(uint8_t *p, size_t l) {}
uint64_t vf_is_sym(const uint8_t *p, size_t l) { return 0; }
void vf_limit(uint64_t n) {}
uint64_t vf_tier(void) { const char *e = getenv("VF_TIER_N"); return e ? strtoull(e, 0, 10) : 0; }
uint64_t vf_eq(const uint8_t *a, size_t al, const uint8_t *b, size_t bl) { return al == bl && (al == 0 || memcmp(a, b, al) == 0); }
uint64_t vf_f64_parts(uint64_t bits, int64_t *m, uint32_t *k) { return 0; }
void vf_incomplete(const char *n, size_t nl) {}

// a file with this content; its path is written to out
static char dir[64];
static char *made[16];
static int nmade;
static void cleanup(void) {
    for (int i = 0; i < nmade; i++) unlink(made[i]);
    if (dir[0]) rmdir(dir);
}
uint64_t vf_file(const char *n, size_t nl, const uint8_t *p, size_t l, char *out) {
    if (!dir[0]) {
        strcpy(dir, "/tmp/vf-replay-XXXXXX");
        if (!mkdtemp(dir)) { perror("mkdtemp"); exit(70); }
        atexit(cleanup);
    }
    sprintf(out, "%s/%.*s", dir, (int)nl, n);
    FILE *f = fopen(out, "w");
    if (!f || fwrite(p, 1, l, f) != l || fclose(f)) { perror(out); exit(70); }
    if (nmade < 16) made[nmade++] = strdup(out);
    return strlen(out);
}
