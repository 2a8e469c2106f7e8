/* allocation wrapper: counts live blocks, fails the g_fail-th allocation. link with WRAP flags */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <malloc.h>
static long g_live, g_n, g_fail = -1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int tick(void) { return g_fail >= 0 && g_n++ == g_fail; }
void *__wrap_malloc(size_t n) { void *p = tick() ? NULL : __real_malloc(n); if (p) g_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = tick() ? NULL : __real_calloc(a, b); if (p) g_live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = tick() ? NULL : __real_realloc(q, n); if (p && !q) g_live++; return p; }
void __wrap_free(void *p) { if (p) { g_live--; memset(p, 0xa5, malloc_usable_size(p)); } __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __wrap_malloc(strlen(s) + 1); return p ? strcpy(p, s) : p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = __wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _Exit(1); } } while (0)
