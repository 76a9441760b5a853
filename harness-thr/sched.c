/* Native replay with the schedule of a counterexample: threads take turns, and the choices at every
   atomic access and blocking point come from the recorded list, as the symbolic executor made them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXT 64
static uint64_t params[64], vals[4096];
static int nparams, nvals, pos, max_preempt, preempts;
static struct {
    int done, woken, join;
    void *fut;
    void (*f)(uint8_t *);
    uint8_t *arg;
} th[MAXT];
static int nth = 1, cur;
static __thread int me;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;

static void out(int code, const char *m, size_t l) {
    fwrite(m, 1, l, stdout);
    fputc('\n', stdout);
    fflush(stdout);
    _exit(code);
}
static uint64_t next(void) {
    if (pos >= nvals) out(12, "input exhausted", 15);
    return vals[pos++];
}
uint8_t vz_nd_u8(void) { return next(); }
uint16_t vz_nd_u16(void) { return next(); }
uint32_t vz_nd_u32(void) { return next(); }
uint64_t vz_nd_u64(void) { return next(); }
void vz_assume(uint8_t c) { if (!c) out(11, "assumption not met", 18); }
void vz_fail(const char *p, size_t l) { printf("FAILED "); out(10, p, l); }
void vz_check(uint8_t c, const char *p, size_t l) { if (!c) vz_fail(p, l); }
void vz_cover(uint32_t k) { (void)k; }
uint64_t vz_concretize(uint64_t v) { return v; }
uint64_t vz_param(uint32_t i) { return i < (uint32_t)nparams ? params[i] : 0; }
void vz_end(void) { out(0, "HELD", 4); }

static int runnable(int t) { return !th[t].done && !th[t].fut && (th[t].join < 0 || th[th[t].join].done); }
static void wait_turn(int i) {
    pthread_mutex_lock(&mu);
    while (cur != i) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
}
static void switch_to(int t) {
    pthread_mutex_lock(&mu);
    cur = t;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
}
static void pick_other(void) {
    int c[MAXT], n = 0;
    for (int t = 0; t < nth; t++)
        if (t != me && runnable(t)) c[n++] = t;
    if (!n) vz_fail("no runnable thread", 18);
    switch_to(c[n == 1 ? 0 : next() % n]);
}
void vz_sched(void) {
    while (nth > 1 && preempts < max_preempt) {
        int c[MAXT], n = 1;
        c[0] = me;
        for (int t = 0; t < nth; t++)
            if (t != me && runnable(t)) c[n++] = t;
        if (n == 1) return;
        int k = next() % n;
        if (!k) return;
        preempts++;
        switch_to(c[k]);
        wait_turn(me);
    }
}
static void *start(void *p) {
    me = (int)(intptr_t)p;
    wait_turn(me);
    th[me].f(th[me].arg);
    th[me].done = 1;
    pick_other();
    return 0;
}
uint64_t vz_spawn(void (*f)(uint8_t *), uint8_t *a) {
    int t = nth;
    if (t >= MAXT) out(13, "threads", 7);
    th[t].f = f;
    th[t].arg = a;
    th[t].join = -1;
    pthread_t h;
    if (pthread_create(&h, 0, start, (void *)(intptr_t)t)) out(13, "pthread_create", 14);
    pthread_detach(h);
    nth++;
    return t;
}
void vz_join(uint64_t t) {
    while (!th[t].done) {
        th[me].join = t;
        pick_other();
        wait_turn(me);
    }
    th[me].join = -1;
}
long vz_syscall(long nr, ...) {
    va_list v;
    va_start(v, nr);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long);
    va_end(v);
    if (nr == 318) {
        memset((void *)a, 0x5a, b);
        return b;
    }
    if (nr == 186) return me + 1;
    if (nr != 202) out(13, "system call", 11);
    switch (b & 0x7f) {
    case 0:
    case 9:
        vz_sched();
        if (__atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) != (uint32_t)c) return 0;
        th[me].fut = (void *)a;
        pick_other();
        wait_turn(me);
        th[me].woken = 0;
        return 0;
    case 1: {
        int k = 0;
        for (int t = 0; t < nth && k < (int)c; t++)
            if (th[t].fut == (void *)a) {
                th[t].fut = 0;
                th[t].woken = 1;
                k++;
            }
        return k;
    }
    }
    out(13, "futex", 5);
    return 0;
}
int vz_pthread_key_create(unsigned *k, void *d) {
    (void)d;
    *k = 1;
    return 0;
}
int vz_pthread_key_delete(unsigned k) { (void)k; return 0; }
int vz_pthread_setspecific(unsigned k, const void *p) { (void)k; (void)p; return 0; }
void *vz_pthread_getspecific(unsigned k) { (void)k; return 0; }

static int list(char *s, uint64_t *o, int max) {
    int n = 0;
    for (char *p = strtok(s, ","); p; p = strtok(0, ",")) {
        if (n >= max) out(13, "list", 4);
        o[n++] = strtoull(p, 0, 10);
    }
    return n;
}
int main(int argc, char **argv) {
    if (argc < 5) return 13;
    nparams = list(argv[2], params, 64);
    nvals = list(argv[3], vals, 4096);
    max_preempt = atoi(argv[4]);
    th[0].join = -1;
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) out(13, "no such entry", 13);
    f();
    out(0, "HELD", 4);
}
