A="src/mem/allocator.c"; T="src/mem/allocation_tracker.c"
import_=r'''
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
/* does it abort? */
static int aborts(void (*f)(void *), void *a) {
    int st;
    fflush(NULL);
    pid_t c = fork();
    if (c < 0) exit(2);
    if (!c) {
        freopen("/dev/null", "w", stdout);
        freopen("/dev/null", "w", stderr);
        f(a);
        _exit(0);
    }
    waitpid(c, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
'''
#----
ID="p23-last-mark-byte-unchecked"; PROP="P23"
NEEDS="a write that changes only the last byte of one of the marks"
BREAKS="the overrun is not noticed when the block is released"
EDITS=[(T,"	for (size_t i = 0; i < canary_size; ++i)\n","	for (size_t i = 0; i + 1 < canary_size; ++i)\n")]
DEMO=import_+r'''
static void over(void *a) {
    int k = *(int *)a;
    char *p = lcu_malloc(40);
    if (k < 8) p[k - 8] ^= 1;
    else if (k < 16) p[40 + k - 8] ^= 1;
    lcu_free(p);
}
int main(void) {
    int bad = 0;
    allocation_tracker_init();
    for (int k = 0; k < 17; k++)
        if (aborts(over, &k) != (k < 16)) { printf("byte %d\n", k); bad = 1; }
    return bad;
}
'''
#----
ID="p23-old-block-lost-on-failed-realloc"; PROP="P23"
NEEDS="a realloc that runs out of memory"
BREAKS="the old block is gone although NULL was returned: the caller's data is lost and its release aborts"
EDITS=[(A,"	if (!new_ptr)\n	{\n		return NULL;\n	}\n	memcpy(new_ptr, ptr, cur_ptr_size);\n	lcu_free(ptr);\n","	if (new_ptr)\n	{\n		memcpy(new_ptr, ptr, cur_ptr_size);\n	}\n	lcu_free(ptr);\n")]
LDFLAGS="-Wl,--wrap=malloc"
DEMO=import_+r'''
static volatile int fail;
extern void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { return fail ? NULL : __real_malloc(n); }
static void use(void *a) {
    char *p = a;
    if (strcmp(p, "the data")) abort();
    lcu_free(p);
}
int main(void) {
    allocation_tracker_init();
    char *p = lcu_malloc(16);
    if (!p) return 2;
    strcpy(p, "the data");
    fail = 1;
    void *q = lcu_realloc(p, 100000);
    fail = 0;
    if (q) return 2;
    if (aborts(use, p)) { puts("gone"); return 1; }
    return 0;
}
'''
#----
ID="p23-foreign-block-accepted"; PROP="P23"
NEEDS="a block announced by one allocator and released through another"
BREAKS="the mix-up is not noticed"
EDITS=[(T,"	ASSERT_ABORT(allocation->allocator_id == allocator_id); // Must be from the same allocator\n	allocation->freed = true;","	ASSERT_ABORT(allocation->allocator_id >= allocator_id); // Must be from the same allocator\n	allocation->freed = true;")]
DEMO=import_+r'''
static void mix(void *a) {
    int *id = a;
    char *p = malloc(allocation_tracker_resize_for_canary(24));
    p = allocation_tracker_notify_alloc((allocator_id_t)id[0], p, 24, __FILE__, __func__, __LINE__);
    free(allocation_tracker_notify_free((allocator_id_t)id[1], p));
}
int main(void) {
    int bad = 0, ids[][2] = {{1, 1}, {1, 2}, {2, 1}, {255, 0}, {7, 7}};
    allocation_tracker_init();
    for (int k = 0; k < 5; k++)
        if (aborts(mix, ids[k]) != (ids[k][0] != ids[k][1])) { printf("%d %d\n", ids[k][0], ids[k][1]); bad = 1; }
    return bad;
}
'''
#----
ID="p23-calloc-tail-not-zeroed"; PROP="P23"
NEEDS="the tracker on and memory that was in use before"
BREAKS="the last bytes of the block, as many as the mark has, are not zeroed"
EDITS=[(A,"	void* ptr = calloc(1, real_size);\n	if (!ptr)\n	{\n		return NULL;\n	}\n","	void* ptr = malloc(real_size);\n	if (!ptr)\n	{\n		return NULL;\n	}\n	memset(ptr, 0, request_size);\n")]
DEMO=import_+r'''
int main(void) {
    int bad = 0;
    for (int on = 0; on < 2; on++) {
        if (on) allocation_tracker_init();
        for (size_t n = 1; n < 300 && !bad; n++) {
            char *p = lcu_malloc(n);
            if (!p) return 2;
            memset(p, 0x55, n);
            lcu_free(p);
            p = lcu_calloc(n, 1);
            if (!p) return 2;
            for (size_t i = 0; i < n; i++)
                if (p[i]) { printf("%d: byte %zu of %zu\n", on, i, n); bad = 1; break; }
            lcu_free(p);
        }
    }
    return bad;
}
'''
#----
ID="p23-leaks-counted-only-if-reported"; PROP="P23"
NEEDS="asking for the bytes in use without a report function"
BREAKS="blocks in use are listed in the log, but 0 is returned"
EDITS=[(T,"		checker_ctx->unfreed_memory_size += allocation->size; // Report back the unfreed byte count\n",""),
(T,"		if (checker_ctx->fn_report)\n		{\n","		if (checker_ctx->fn_report)\n		{\n			checker_ctx->unfreed_memory_size += allocation->size; // Report back the unfreed byte count\n")]
DEMO=import_+r'''
static void rep(void *p, size_t n, char *f, char *fn, int line, void *u) { *(size_t *)u += n; }
int main(void) {
    size_t seen = 0;
    allocation_tracker_init();
    char *a = lcu_malloc(100), *b = lcu_calloc(3, 7);
    size_t n = allocation_tracker_expect_no_allocations(rep, &seen);
    if (n != 121 || seen != 121) { printf("%zu %zu\n", n, seen); return 1; }
    fflush(stdout);
    n = allocation_tracker_expect_no_allocations(NULL, NULL);
    if (n != 121) { printf("%zu\n", n); return 1; }
    lcu_free(a);
    lcu_free(b);
    return allocation_tracker_expect_no_allocations(NULL, NULL) != 0;
}
'''
