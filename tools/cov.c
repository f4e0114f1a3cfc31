/* Receives the coverage and comparison callbacks of the instrumented library. */
#include <stdint.h>
#include <string.h>
#define MAP 65536
#define PCS 16384
#define BITS 14
#define KEEP 8

struct pair { uint64_t pc, want, got; uint32_t size, slot; };
static uint32_t guards;
static __thread uint8_t on;
static __thread uint8_t map[MAP];
static __thread uint8_t count[PCS];
static __thread struct pair pairs[PCS][KEEP];
static __thread uint16_t used[PCS];
static __thread uint32_t nused;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = guards < MAP - PCS - 1 ? ++guards : guards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    uint8_t *m = &map[*g];
    if (on && *m != 255) ++*m;
}
static inline void note(uint64_t pc, uint64_t want, uint64_t got, uint32_t size) {
    if (!on) return;
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> (64 - BITS)) & (PCS - 1);
    if (want == got) { map[MAP - PCS + h] = 1; return; }
    uint8_t n = count[h];
    if (n == 0) used[nused++] = h;
    struct pair *p = pairs[h];
    for (int i = 0; i < KEEP && i < n; i++)
        if (p[i].want == want && p[i].got == got) return;
    p += n < KEEP ? n : (want ^ got ^ n) % KEEP;
    p->slot = MAP - PCS + h; p->pc = pc; p->want = want; p->got = got; p->size = size;
    count[h] = n >= 200 ? KEEP : n + 1;
}
#define PC ((uint64_t)__builtin_return_address(0))
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { note(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { note(PC, a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { note(PC, a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { note(PC, a, b, 8); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { note(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { note(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { note(PC, a, b, 4); note(PC + 1, b, a, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { note(PC, a, b, 8); note(PC + 1, b, a, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    for (uint64_t i = 0; i < c[0] && i < 64; i++) note(PC + i, c[2 + i], v, (uint32_t)c[1] / 8);
}

#define BLOBS 64
struct blob { uint8_t a[72], b[72]; uint32_t n; };
static __thread struct blob blobs[BLOBS];
static __thread uint32_t nblobs;
static int order(const uint8_t *a, const uint8_t *b, size_t n) {
    size_t i = 0;
    while (i < n && a[i] == b[i]) i++;
    if (i == n) return 0;
    if (on && n >= 4 && n <= 72 && nblobs < BLOBS) {
        struct blob *x = &blobs[nblobs++];
        for (size_t k = 0; k < n; k++) { x->a[k] = a[k]; x->b[k] = b[k]; }
        x->n = (uint32_t)n;
    }
    return a[i] < b[i] ? -1 : 1;
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { return order(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return order(a, b, n); }

uint32_t vh_blobs(struct blob *out, uint32_t max) {
    uint32_t k = nblobs < max ? nblobs : max;
    memcpy(out, blobs, k * sizeof *out);
    return k;
}
uint32_t vh_guards(void) { return guards; }
uint32_t vh_map_size(void) { return MAP; }
void vh_begin(void) {
    memset(map, 0, guards + 1);
    memset(map + MAP - PCS, 0, PCS);
    nblobs = 0;
    while (nused) count[used[--nused]] = 0;
    on = 1;
}
void vh_end(void) { on = 0; }
const uint8_t *vh_map(void) { return map; }
uint32_t vh_pairs(struct pair *out, uint32_t max) {
    uint32_t k = 0;
    for (uint32_t i = 0; i < nused; i++)
        for (int j = 0; j < KEEP && j < count[used[i]]; j++)
            if (k < max) out[k++] = pairs[used[i]][j];
    return k;
}
