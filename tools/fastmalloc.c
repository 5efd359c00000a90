/* Allocator preloaded into the (single-threaded) verifier process only: size-class free
 * lists over a bump region.  Symbolic execution spends a third of its time in malloc. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#define SMALL 1024
static char *cur, *end;
static void *fl[SMALL / 16 + 1], *big[64];
typedef struct { uint32_t cls; uint32_t off; uint64_t size; } H; /* 16 bytes before the block */
static void *bump(size_t n) {
    if ((size_t)(end - cur) < n) {
        size_t m = n > (32u << 20) ? n : (32u << 20);
        char *p = mmap(0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) return 0;
        if (n > (32u << 20)) return p;
        cur = p; end = p + m;
    }
    void *r = cur; cur += n; return r;
}
void *malloc(size_t n) {
    if (n > ((size_t)1 << 46)) { errno = ENOMEM; return 0; }
    if (n <= SMALL) {
        size_t c = (n + 15) / 16; if (!c) c = 1;
        void **p = fl[c];
        if (p) { fl[c] = *p; return p; }
        H *h = bump(16 + 16 * c);
        if (!h) { errno = ENOMEM; return 0; }
        h->cls = c; h->off = 0; h->size = 16 * c; return h + 1;
    }
    int k = 64 - __builtin_clzll(n - 1);
    void **p = big[k];
    if (p) { big[k] = *p; return p; }
    H *h = bump(16 + ((size_t)1 << k));
    if (!h) { errno = ENOMEM; return 0; }
    h->cls = 1000 + k; h->off = 0; h->size = (size_t)1 << k; return h + 1;
}
void free(void *p) {
    if (!p) return;
    H *h = (H *)p - 1;
    if (h->off) { p = (char *)p - h->off; h = (H *)p - 1; }
    void **q = h->cls >= 1000 ? &big[h->cls - 1000] : &fl[h->cls];
    *(void **)p = *q; *q = p;
}
void *calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    void *p = malloc(n); if (p) memset(p, 0, n); return p;
}
size_t malloc_usable_size(void *p) { if (!p) return 0; H *h = (H *)p - 1; return h->size; }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return 0; }
    size_t o = malloc_usable_size(p);
    if (n <= o) return p;
    void *q = malloc(n); if (!q) return 0;
    memcpy(q, p, o); free(p); return q;
}
void *memalign(size_t a, size_t n) {
    if (a <= 16) return malloc(n);
    char *p = malloc(n + a + 16); if (!p) return 0;
    char *q = (char *)(((uintptr_t)p + 16 + a - 1) & ~(uintptr_t)(a - 1));
    H *h = (H *)q - 1; h->cls = 0; h->off = q - p; h->size = n; return q;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~(size_t)4095); }
