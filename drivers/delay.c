// Preloaded: stretches the windows around the pool's futex calls (before a wait, after a wake-up, after waking others).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
int vp_delay_level = 0;
long vp_waits = 0, vp_wakes = 0;
static __thread uint32_t st;
static long (*real)(long, ...);
static void pause_some(void)
{
    int lv = __atomic_load_n(&vp_delay_level, __ATOMIC_RELAXED);
    if (! lv)
        return;
    if (! st)
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        st = (uint32_t)(t.tv_nsec ^ (uintptr_t)&st) | 1;
    }
    st ^= st << 13;
    st ^= st >> 17;
    st ^= st << 5;
    uint32_t r = st & 15;
    if (r < 6)
        return;
    if (r < 13)
    {
        for (volatile uint32_t i = 0; i < (st >> 8) % (uint32_t)(400 * lv); i++)
            ;
        return;
    }
    struct timespec t = { 0, (long)((st >> 8) % (uint32_t)(30000 * lv)) };
    nanosleep(&t, 0);
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (! real)
        real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    if (n != SYS_futex)
        return real(n, a, b, c, d, e, f);
    int w = ((int)b & 127) == FUTEX_WAIT, k = ((int)b & 127) == FUTEX_WAKE;
    if (w)
    {
        __atomic_fetch_add(&vp_waits, 1, __ATOMIC_RELAXED);
        pause_some();
    }
    if (k)
        __atomic_fetch_add(&vp_wakes, 1, __ATOMIC_RELAXED);
    long r = real(n, a, b, c, d, e, f);
    if (w || k)
        pause_some();
    return r;
}
