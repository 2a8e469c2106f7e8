/* runs a operation one machine instruction at a time and lets another operation happen at a chosen point: a deterministic schedule */
#ifndef STEP_H
#define STEP_H
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
static volatile long st_count, st_at; static void (*volatile st_other)(void); static volatile int st_done;
static void st_trap(int s) { (void)s; if (st_count++ == st_at && !st_done) { st_done = 1; st_other(); } }
/* true when the other operation really happened in the middle */
static int interleave(void (*victim)(void), void (*other)(void), long at) {
    static int init;
    if (!init) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = st_trap; sigaction(SIGTRAP, &a, NULL); init = 1; }
    st_count = 0; st_at = at; st_other = other; st_done = 0;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    victim();
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
    return st_done;
}
#define CHECK(x) do { if (!(x)) { printf("%s:%d: %s\n", __FILE__, __LINE__, #x); return 1; } } while (0)
#endif
