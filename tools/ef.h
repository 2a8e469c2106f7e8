/* allocation wrapper: every block ends at a page that may not be touched. link with --wrap flags */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <sys/mman.h>
static void *ef_get(size_t n) {
    size_t a = (n + 3) & ~(size_t)3, len = ((a + 64 + 4095) & ~(size_t)4095) + 4096;
    char *m = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return NULL;
    mprotect(m + len - 4096, 4096, PROT_NONE);
    char *p = m + len - 4096 - a;
    ((size_t *)m)[0] = n; *(char **)(m + 8) = p;
    memset(p + n, 0x5a, a - n);
    return p;
}
static char *ef_head(char *p) {
    char *m = (char *)((uintptr_t)p & ~(uintptr_t)4095);
    while (*(char **)(m + 8) != p) m -= 4096;
    return m;
}
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _Exit(1); } } while (0)
static void ef_ok(char *p) { char *m = ef_head(p); size_t n = ((size_t *)m)[0]; for (size_t i = n; i < ((n + 3) & ~(size_t)3); i++) CHECK(p[i] == 0x5a); }
void *__wrap_malloc(size_t n) { return ef_get(n); }
void *__wrap_calloc(size_t a, size_t b) { return ef_get(a * b); }
void __wrap_free(void *p) { if (p) ef_ok(p); }
void *__wrap_realloc(void *q, size_t n) { char *p = ef_get(n); if (q && p) { size_t o = *(size_t *)ef_head(q); ef_ok(q); memcpy(p, q, o < n ? o : n); } return p; }
char *__wrap_strdup(const char *s) { char *p = ef_get(strlen(s) + 1); return p ? strcpy(p, s) : p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = ef_get(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
