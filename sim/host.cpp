// The environment a host gives its threads and the process, and what of it a call has left different.
#include "sim.h"
#include <dirent.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>
extern char** environ;
static unsigned short x87() { unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w; }
static void set_x87(unsigned short w) { __asm__ volatile("fldcw %0" : : "m"(w)); }
static int count_dir(const char* d) { int n = 0; DIR* D = opendir(d); if (!D) return -1; while (readdir(D)) n++; closedir(D); return n; }
namespace {
struct Env {
    unsigned mx; unsigned short cw; sigset_t mask; struct sigaction act[32]; itimerval it[3]; mode_t um; char cwd[256], loc[256], name[20]; uint64_t env;
    rlimit lim[16]; int fds, tasks, nice, cancel, ctype; cpu_set_t cpu; stack_t alt;
};
}
static Env* before; static unsigned saved_mx; static unsigned short saved_cw; static long want_r; static long want_l; static bool deep_look;
static void look(Env& e, bool deep) {
    memset((void*)&e, 0, sizeof e);
    pthread_sigmask(SIG_SETMASK, nullptr, &e.mask);
    for (int s = 1; s < 32; s++) sigaction(s, nullptr, &e.act[s]);
    for (int i = 0; i < 3; i++) { getitimer((__itimer_which_t)i, &e.it[i]); memset(&e.it[i].it_value.tv_usec, 0, sizeof e.it[i].it_value.tv_usec); e.it[i].it_value.tv_sec = e.it[i].it_value.tv_sec > 0; }
    e.um = umask(0); umask(e.um);
    if (!getcwd(e.cwd, sizeof e.cwd)) e.cwd[0] = 0;
    const char* l = setlocale(LC_ALL, nullptr); strncpy(e.loc, l ? l : "", sizeof e.loc - 1);
    e.env = 1; for (char** p = environ; p && *p; p++) e.env = mix64(e.env, hash_bytes(*p, strlen(*p)));
    for (int i = 0; i < 16; i++) getrlimit((__rlimit_resource_t)i, &e.lim[i]);
    e.nice = getpriority(PRIO_PROCESS, 0); prctl(PR_GET_NAME, e.name); sched_getaffinity(0, sizeof e.cpu, &e.cpu); sigaltstack(nullptr, &e.alt);
    pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &e.cancel); { int x; pthread_setcancelstate(e.cancel, &x); } pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &e.ctype); { int x; pthread_setcanceltype(e.ctype, &x); }
    if (deep) { e.fds = count_dir("/proc/self/fd"); e.tasks = count_dir("/proc/self/task"); }
}
void host_enter(int host, int i) {
    if (!before) before = new Env;
    deep_look = true; look(*before, deep_look);
    unsigned s = 77u + (unsigned)i * 13u;
    srandom(s); want_r = random(); srandom(s); srand48((long)s); want_l = lrand48(); srand48((long)s);
    saved_mx = _mm_getcsr(); saved_cw = x87();
    unsigned mx = saved_mx & ~0x3fu; unsigned short cw = saved_cw;
    if (host & HOST_FTZ) mx |= 0x8040u;
    if (host & HOST_ROUND) { static const unsigned rc[4] = {0x2000u, 0x4000u, 0x6000u, 0x2000u}; unsigned r = rc[(host >> 8) & 3]; mx = (mx & ~0x6000u) | r; cw = (unsigned short)((cw & ~0x0c00u) | (r >> 3)); }
    if (host & HOST_X87) cw = (unsigned short)((cw & ~0x0300u) | 0x0200u);
    set_x87(cw); _mm_setcsr(mx); before->mx = mx & ~0x3fu; before->cw = cw;
}
const char* host_leave() {
    unsigned mx = _mm_getcsr() & ~0x3fu; unsigned short cw = x87();
    set_x87(saved_cw); _mm_setcsr(saved_mx);
    long r = random(), l = lrand48();
    static Env a; look(a, deep_look); const Env& b = *before;
    if ((mx ^ b.mx) & 0x8040u) return "denormal handling";
    if ((mx ^ b.mx) & 0x6000u || (cw ^ b.cw) & 0x0c00u) return "rounding mode";
    if (mx != b.mx || (cw ^ b.cw) & 0x3fu) return "floating-point exception masks";
    if (cw != b.cw) return "x87 precision";
    if (r != want_r || l != want_l) return "C library random sequence";
    if (memcmp(&a.mask, &b.mask, 8)) return "signal mask";
    for (int s = 1; s < 32; s++) if (a.act[s].sa_handler != b.act[s].sa_handler || a.act[s].sa_flags != b.act[s].sa_flags) return "signal disposition";
    if (memcmp(a.it, b.it, sizeof a.it)) return "timers";
    if (a.um != b.um) return "file creation mask"; if (strcmp(a.cwd, b.cwd)) return "working directory"; if (strcmp(a.loc, b.loc)) return "locale"; if (a.env != b.env) return "environment variables";
    if (memcmp(a.lim, b.lim, sizeof a.lim)) return "resource limits"; if (a.nice != b.nice || memcmp(&a.cpu, &b.cpu, sizeof a.cpu)) return "scheduling"; if (strcmp(a.name, b.name)) return "thread name";
    if (a.cancel != b.cancel || a.ctype != b.ctype) return "cancellation state"; if (a.alt.ss_sp != b.alt.ss_sp || a.alt.ss_flags != b.alt.ss_flags) return "signal stack";
    if (a.fds != b.fds) return "set of open files"; if (a.tasks > b.tasks) return "set of threads";
    return nullptr;
}
