// Helpers shared by the demonstrations: the C view of the function blocks, a clock the demonstration
// controls (it replaces the C library's), single-stepping, and checks.
#define _GNU_SOURCE
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>

typedef struct { bool in; int64_t pt; bool q; int64_t et; uint8_t priv[96]; } timer_fb;
typedef struct { bool cu, r; int16_t pv; bool q; int16_t cv; uint8_t priv[16]; } ctu_fb;
typedef struct { bool cd, ld; int16_t pv; bool q; int16_t cv; uint8_t priv[16]; } ctd_fb;
typedef struct { bool cu, cd, r, ld; int16_t pv; bool qu, qd; int16_t cv; uint8_t priv[16]; } ctud_fb;
typedef struct { bool clk, q; uint8_t priv[6]; } trig_fb;
typedef struct { bool a, b, q; } bi_fb; // SR: set1, reset; RS: set, reset1
void TON(void *), TOF(void *), TP(void *);
void CTU(void *), CTD(void *), CTUD(void *), R_TRIG(void *), F_TRIG(void *), SR(void *), RS(void *);
int64_t TIME(void);

#define NS INT64_C(1)
#define MS INT64_C(1000000)
#define SEC INT64_C(1000000000)
static int64_t mono = 5000 * SEC, wall = 1700000000 * SEC, tick = 0;
int clock_gettime(clockid_t id, struct timespec *ts) {
    int64_t *c = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? &wall : &mono;
    ts->tv_sec = *c / SEC;
    ts->tv_nsec = *c % SEC;
    mono += tick;
    wall += tick;
    return 0;
}
static inline void pass_time(int64_t d) { mono += d; wall += d; }

#define CHECK(c, ...) do { if (!(c)) { printf("FAILED %s:%d: ", __FILE__, __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(0); _exit(1); } } while (0)

// Runs f(arg) one machine instruction at a time, calling at() before each.
static void (*step_at)(void);
static void on_trap(int s) { if (step_at) step_at(); }
static inline void single_step(void (*f)(void *), void *arg, void (*at)(void)) {
    struct sigaction sa = {0};
    sa.sa_handler = on_trap;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGTRAP, &sa, 0);
    step_at = at;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    f(arg);
    step_at = 0;
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
}
// true if f(arg) in a child process ends normally within the given CPU seconds
static inline bool survives(void (*f)(void *), void *arg, int cpu_seconds) {
    fflush(0);
    pid_t p = fork();
    if (!p) { alarm(cpu_seconds); freopen("/dev/null", "w", stderr); f(arg); fflush(0); _exit(0); }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
