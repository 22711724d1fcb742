// Seams between the library and its environment: allocator, clocks, randomness, environment, locks.
#include "sim.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
#include <threads.h>
#include <semaphore.h>
#include <algorithm>
#include <set>
#include <unordered_map>

thread_local int tl_tid = -1;
thread_local bool tl_inlib = false;
long long g_alloc_req = 0;

// The baton guarantees that one simulated thread runs at a time; the table needs no lock of its own.
struct Blk { size_t n; int tid; };
static std::unordered_map<void*, Blk>* g_tab;
static std::map<int, AllocStat>* g_as;
static std::set<int>* g_fail;
void sched_lock_taken();   // the executing thread has just taken a lock of the library's
static uint64_t g_fill = 0xA5;
static uint64_t g_env = 1;
static long long g_envcalls = 0;

void seam_reset() {
    if (!g_tab) { g_tab = new std::unordered_map<void*, Blk>; g_as = new std::map<int, AllocStat>; g_fail = new std::set<int>; }
    g_tab->clear(); g_as->clear(); g_fail->clear(); g_alloc_req = 0; g_envcalls = 0;
}
void seam_set_alloc_fail(const std::vector<int>& idx) { g_fail->clear(); g_fail->insert(idx.begin(), idx.end()); }
void seam_set_fill(uint64_t p) { g_fill = p; }
void seam_set_env(uint64_t s) { g_env = s; }
long long seam_env_calls() { return g_envcalls; }
AllocStat seam_alloc_stat(int tid) {
    if (!g_as) return AllocStat();
    if (tid >= 0) return (*g_as)[tid];
    AllocStat t;
    for (auto& i : *g_as) { t.req += i.second.req; t.failed += i.second.failed; t.freed += i.second.freed; t.live += i.second.live; t.live_bytes += i.second.live_bytes; t.bad_free += i.second.bad_free; }
    return t;
}
static bool admit(size_t n) {
    (void)n;
    if (!g_as) seam_reset();
    AllocStat& a = (*g_as)[tl_tid];
    a.req++;
    int idx = (int)g_alloc_req++;
    if (g_fail->count(idx)) { a.failed++; errno = ENOMEM; return false; }
    return true;
}
static void* book(void* p, size_t n, bool fill) {
    if (!p) return p;
    if (fill) { unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(g_fill >> (8 * (i & 7))); }
    (*g_tab)[p] = {n, tl_tid};
    AllocStat& a = (*g_as)[tl_tid]; a.live++; a.live_bytes += (long long)n;
    return p;
}
static bool unbook(void* p) {
    if (!g_tab) return false;
    auto i = g_tab->find(p);
    if (i == g_tab->end()) { (*g_as)[tl_tid].bad_free++; return false; }
    AllocStat& a = (*g_as)[i->second.tid]; a.live--; a.live_bytes -= (long long)i->second.n; a.freed++;
    g_tab->erase(i);
    return true;
}
bool seam_foreign_block(const void* a, int tid) {
    if (!g_tab) return false;
    for (auto& i : *g_tab) if (i.second.tid != tid && (const char*)a >= (const char*)i.first && (const char*)a < (const char*)i.first + i.second.n) return true;
    return false;
}
extern "C" {
void* simseam_malloc(size_t n) { return admit(n) ? book(malloc(n ? n : 1), n, true) : nullptr; }
void* simseam_calloc(size_t a, size_t b) { return admit(a * b) ? book(calloc(a ? a : 1, b ? b : 1), a * b, false) : nullptr; }
void* simseam_realloc(void* p, size_t n) {
    if (!admit(n)) return nullptr;
    if (p) unbook(p);
    return book(realloc(p, n), n, false);
}
void simseam_free(void* p) {
    if (!p) return;
    unbook(p);
    free(p);   // an unknown pointer reaches the real free, which sanitizers or glibc report
}
int simseam_posix_memalign(void** out, size_t al, size_t n) {
    if (!admit(n)) return ENOMEM;
    int r = posix_memalign(out, al, n);
    if (!r) book(*out, n, true);
    return r;
}
void* simseam_aligned_alloc(size_t al, size_t n) { return admit(n) ? book(aligned_alloc(al, n), n, true) : nullptr; }
void* simseam_memalign(size_t al, size_t n) { return admit(n) ? book(memalign(al, n), n, true) : nullptr; }
void* simseam_valloc(size_t n) { return admit(n) ? book(aligned_alloc(4096, (n + 4095) & ~(size_t)4095), n, true) : nullptr; }
char* simseam_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)simseam_malloc(n); if (p) memcpy(p, s, n); return p; }

static uint64_t envval(int k) { g_envcalls++; return mix64(g_env * 131 + (uint64_t)k, (uint64_t)g_envcalls); }
time_t simseam_time(time_t* t) { time_t v = (time_t)(1600000000 + envval(1) % 400000000); if (t) *t = v; return v; }
clock_t simseam_clock(void) { return (clock_t)(envval(2) % 1000000000); }
int simseam_clock_gettime(clockid_t, struct timespec* ts) { uint64_t v = envval(3); ts->tv_sec = (time_t)(v % 2000000000u); ts->tv_nsec = (long)(v >> 33) % 1000000000; return 0; }
int simseam_gettimeofday(struct timeval* tv, void*) { uint64_t v = envval(4); if (tv) { tv->tv_sec = (time_t)(v % 2000000000u); tv->tv_usec = (long)((v >> 33) % 1000000); } return 0; }
int simseam_rand(void) { return (int)(envval(5) & 0x7fffffff); }
void simseam_srand(unsigned) { envval(6); }
long simseam_random(void) { return (long)(envval(7) & 0x7fffffff); }
void simseam_srandom(unsigned) { envval(8); }
double simseam_drand48(void) { return (double)(envval(9) >> 11) / 9007199254740992.0; }
int simseam_rand_r(unsigned* s) { return (int)((*s = *s * 1103515245u + 12345u) >> 1); }
char* simseam_getenv(const char*) { static char v[8][24]; static int i; uint64_t x = envval(10); if (x & 1) return nullptr; i = (i + 1) & 7; snprintf(v[i], 24, "%d", (int)(x >> 40) % 3); return v[i]; }
char* simseam_secure_getenv(const char* n) { return simseam_getenv(n); }
pid_t simseam_getpid(void) { g_envcalls++; return (pid_t)(1000 + mix64(g_env, 77) % 30000); }
pid_t simseam_gettid(void) { g_envcalls++; return (pid_t)(1000 + mix64(g_env, 78 + tl_tid) % 30000); }
ssize_t simseam_getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)envval(11); return (ssize_t)n; }
int simseam_sched_getcpu(void) { return (int)(envval(12) % 64); }
pthread_t simseam_pthread_self(void) { return pthread_self(); }
int simseam_sched_yield(void) { sched_point_blocked(); return 0; }
int simseam_usleep(unsigned) { sched_point_blocked(); return 0; }
int simseam_nanosleep(const struct timespec*, struct timespec*) { sched_point_blocked(); return 0; }
// A lock held by a parked thread must not stop the simulation: try, and let the scheduler run someone else.
int simseam_pthread_mutex_trylock(pthread_mutex_t* m) { int r = pthread_mutex_trylock(m); if (!r) sched_lock_taken(); return r; }
int simseam_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sched_active()) return pthread_mutex_lock(m);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) sched_point_blocked();
    if (!r) sched_lock_taken();
    return r;
}
int simseam_pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_mutex_unlock(m); }
int simseam_pthread_spin_lock(pthread_spinlock_t* m) {
    if (!sched_active()) return pthread_spin_lock(m);
    int r;
    while ((r = pthread_spin_trylock(m)) == EBUSY) sched_point_blocked();
    if (!r) sched_lock_taken();
    return r;
}
int simseam_pthread_spin_trylock(pthread_spinlock_t* m) { return pthread_spin_trylock(m); }
int simseam_pthread_spin_unlock(pthread_spinlock_t* m) { return pthread_spin_unlock(m); }
int simseam_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!sched_active()) return pthread_rwlock_rdlock(m); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sched_point_blocked(); return r; }
int simseam_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!sched_active()) return pthread_rwlock_wrlock(m); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sched_point_blocked(); if (!r) sched_lock_taken(); return r; }
int simseam_pthread_rwlock_unlock(pthread_rwlock_t* m) { return pthread_rwlock_unlock(m); }
int simseam_mtx_lock(mtx_t* m) { if (!sched_active()) return mtx_lock(m); int r; while ((r = mtx_trylock(m)) == thrd_busy) sched_point_blocked(); if (r == thrd_success) sched_lock_taken(); return r; }
int simseam_mtx_unlock(mtx_t* m) { return mtx_unlock(m); }
int simseam_sem_wait(sem_t* m) { if (!sched_active()) return sem_wait(m); while (sem_trywait(m)) sched_point_blocked(); sched_lock_taken(); return 0; }
int simseam_sem_post(sem_t* m) { return sem_post(m); }
int simseam_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!sched_active()) return pthread_cond_wait(c, m); pthread_mutex_unlock(m); sched_point_blocked(); return simseam_pthread_mutex_lock(m); }
int simseam_pthread_once(pthread_once_t* o, void (*f)(void)) {
    static std::map<pthread_once_t*, int>* st;   // 1 running, 2 done
    if (!st) st = new std::map<pthread_once_t*, int>;
    for (;;) {
        int& s = (*st)[o];
        if (s == 2) return 0;
        if (s == 0) { s = 1; sched_lock_taken(); f(); (*st)[o] = 2; return 0; }
        sched_point_blocked();
    }
}
void simseam_call_once(once_flag* o, void (*f)(void)) { simseam_pthread_once((pthread_once_t*)o, f); }
}

// ------------------------------------------------------------------------------------------- input and output
const char* io_name[NIO] = {"ok", "dead", "full", "flaky", "short", "stall"};
static thread_local IoState t_io;
IoState& seam_io() { return t_io; }
// n characters are about to go out; the number that do, or -1
static long emit(const void* b, size_t n, bool err, bool partial) {
    IoState& s = t_io;
    long long c = s.calls++;
    if (!err) s.other++;
    bool fail = false;
    switch (s.mode) {
        case IO_DEAD: fail = true; errno = EBADF; break;
        case IO_FULL: fail = c >= s.k; if (fail) errno = ENOSPC; break;
        case IO_FLAKY: fail = mix64((uint64_t)s.k, (uint64_t)c) & 1; if (fail) errno = c & 1 ? EINTR : EAGAIN; break;
        case IO_SHORT: if (n > 1 && (mix64((uint64_t)s.k, (uint64_t)c) & 1)) { n = n / 2; if (!partial) { fail = true; errno = ENOSPC; } } break;
        case IO_STALL: if (s.stalls < 3 && (mix64((uint64_t)s.k, (uint64_t)c) & 7) == 0) { s.stalls++; sched_point_blocked(); } break;
    }
    if (fail) { if (++s.failed > 100000) _Exit(72); return -1; }   // a caller that tries for ever
    if (s.text.size() < (1u << 18)) s.text.append((const char*)b, n);
    return (long)n;
}
static int vout(bool err, const char* f, va_list ap) {
    char b[2048]; int n = vsnprintf(b, sizeof b, f, ap);
    if (n < 0) return n;
    long r = emit(b, std::min<size_t>((size_t)n, sizeof b - 1), err, false);
    return r < 0 ? -1 : n;
}
static long other() { t_io.calls++; t_io.other++; errno = ENOENT; return -1; }
extern "C" {
int simseam_vfprintf(FILE* f, const char* m, va_list ap) { return vout(f == stderr, m, ap); }
int simseam_fprintf(FILE* f, const char* m, ...) { va_list ap; va_start(ap, m); int r = vout(f == stderr, m, ap); va_end(ap); return r; }
int simseam_vprintf(const char* m, va_list ap) { return vout(false, m, ap); }
int simseam_printf(const char* m, ...) { va_list ap; va_start(ap, m); int r = vout(false, m, ap); va_end(ap); return r; }
int simseam_dprintf(int fd, const char* m, ...) { va_list ap; va_start(ap, m); int r = vout(fd == 2, m, ap); va_end(ap); return r; }
int simseam_fputs(const char* t, FILE* f) { return emit(t, strlen(t), f == stderr, false) < 0 ? EOF : 1; }
int simseam_fputc(int ch, FILE* f) { char c = (char)ch; return emit(&c, 1, f == stderr, false) < 0 ? EOF : (unsigned char)ch; }
int simseam_putc(int ch, FILE* f) { return simseam_fputc(ch, f); }
int simseam_puts(const char* t) { return emit(t, strlen(t), false, false) < 0 ? EOF : 1; }
int simseam_putchar(int ch) { return simseam_fputc(ch, stdout); }
size_t simseam_fwrite(const void* b, size_t sz, size_t n, FILE* f) { long r = emit(b, sz * n, f == stderr, true); return r < 0 || !sz ? 0 : (size_t)r / sz; }
int simseam_fflush(FILE* f) { return emit("", 0, f == stderr, false) < 0 ? EOF : 0; }
void simseam_perror(const char* m) { emit(m ? m : "", m ? strlen(m) : 0, true, false); }
ssize_t simseam_write(int fd, const void* b, size_t n) { return emit(b, n, fd == 2, true); }
int simseam_fsync(int fd) { return emit("", 0, fd == 2, false) < 0 ? -1 : 0; }
void simseam_flockfile(FILE*) {}
void simseam_funlockfile(FILE*) {}
ssize_t simseam_read(int, void*, size_t) { return other(); }
int simseam_open(const char*, int, ...) { return (int)other(); }
int simseam_openat(int, const char*, int, ...) { return (int)other(); }
int simseam_close(int) { return (int)other(); }
FILE* simseam_fopen(const char*, const char*) { other(); return nullptr; }
FILE* simseam_fdopen(int, const char*) { other(); return nullptr; }
FILE* simseam_freopen(const char*, const char*, FILE*) { other(); return nullptr; }
FILE* simseam_popen(const char*, const char*) { other(); return nullptr; }
int simseam_fclose(FILE*) { return (int)other(); }
size_t simseam_fread(void*, size_t, size_t, FILE*) { other(); return 0; }
char* simseam_fgets(char*, int, FILE*) { other(); return nullptr; }
int simseam_fgetc(FILE*) { return (int)other(); }
int simseam_getchar(void) { return (int)other(); }
void simseam_syslog(int, const char*, ...) { other(); }
void simseam_openlog(const char*, int, int) { other(); }
int simseam_setvbuf(FILE*, char*, int, size_t) { return (int)other(); }
void simseam_setbuf(FILE*, char*) { other(); }
int simseam_remove(const char*) { return (int)other(); }
int simseam_unlink(const char*) { return (int)other(); }
int simseam_rename(const char*, const char*) { return (int)other(); }
int simseam_system(const char*) { return (int)other(); }
int simseam_socket(int, int, int) { return (int)other(); }
ssize_t simseam_send(int, const void*, size_t, int) { return other(); }
ssize_t simseam_sendto(int, const void*, size_t, int, const void*, unsigned) { return other(); }
}
