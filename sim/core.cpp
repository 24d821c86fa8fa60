// Simulator core: scheduler, memory, clock, faults, interposition.
// Compiled WITHOUT instrumentation.  Uses no C++ library containers, so that it
// neither allocates from the simulated heap nor shares templates with the code
// under test.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

Shared* S = nullptr;

// ================================================================ utilities
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

[[noreturn]] static void die() { sys(SYS_exit_group, 0); __builtin_unreachable(); }

void Rng::seed(uint64_t x)
{
    for (int i = 0; i < 2; ++i) {
        x += 0x9E3779B97F4A7C15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        s[i] = z ^ (z >> 31);
    }
}
uint64_t Rng::next()
{
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
}
uint64_t Rng::logrange(uint64_t lo, uint64_t hi)
{
    if (lo < 1) lo = 1;
    if (hi <= lo) return lo;
    int bl = 63 - __builtin_clzll(lo), bh = 63 - __builtin_clzll(hi);
    int b = (int) range(bl, bh);
    uint64_t v = (1ull << b) + below(1ull << b);
    return v < lo ? lo : v > hi ? hi : v;
}

void Plan::set(const char* name, int64_t v)
{
    for (int i = 0; i < nparams; ++i)
        if (!strcmp(params[i].name, name)) { params[i].val = v; return; }
    if (nparams >= MAX_PARAMS) abort();
    strncpy(params[nparams].name, name, NAME_LEN - 1);
    params[nparams++].val = v;
}
int64_t Plan::get(const char* name, int64_t d) const
{
    for (int i = 0; i < nparams; ++i)
        if (!strcmp(params[i].name, name)) return params[i].val;
    return d;
}
void Plan::add(int th, int kind, int a, int b, int c, int64_t v)
{
    if (nops >= MAX_OPS) return;
    ops[nops++] = Op { th, kind, a, b, c, v };
}

void gen_schedule(Rng& r, Plan& p, int approx)
{
    int k = (int) r.below(100);
    if (k < 3) {
        p.set("sch", 0); // no preemption: threads switch only when blocked
    } else if (k < 50) {
        p.set("sch", 1); // random walk, 1/n switch probability per point
        p.set("sch_n", (int64_t) r.logrange(2, 1 + approx / 2));
    } else {
        p.set("sch", 2); // PCT
        p.set("sch_d", r.range(1, 6));
        p.set("sch_k", (int64_t) r.logrange(1 + approx / 16, 1 + approx * 3));
    }
    static const uint32_t masks[] = { 0x7f, 0x6f, 0x6f, 0x6f, 0x67, 0x63, 0x61 };
    p.set("sch_mask", masks[r.below(7)]);
    p.set("sch_seed", (int64_t) (r.next() >> 1));
}

// ================================================================ threads
enum TState { T_NEW, T_RUN, T_BLOCKED, T_SLEEP, T_EXITED };
enum { MAX_THR = 64, STACK_SZ = 1 << 20 };

struct Thr {
    int       id;
    int       go;       // futex
    int       off;      // >0: no points (runtime / harness bookkeeping)
    TState    state;
    uint8_t   own;      // shadow owner value
    uint64_t  points, blocks, accs, next_ev;
    void*     wait_obj;
    uint64_t  wake_at;
    bool      timed_out;
    bool      cancel_pending, cancel_disabled;
    bool      in_sig, in_malloc;
    int64_t   prio;
    uint64_t  run_len;
    pthread_t real;
    bool      joined;
    void* (*fn)(void*);
    void*     arg;
    void*     ret;
    int       nofault;  // >0: no faults for this thread
    uint64_t  nhard;    // injected faults that made a call fail for good
};

static Thr      thr[MAX_THR];
static int      nthr;
static Thr*     cur;
static bool     g_on;       // simulation active in this process
static bool     g_child;
static bool     g_replay;
static __thread Thr* me __attribute__((tls_model("initial-exec")));

static Rng      rs, rf;     // schedule, faults
static int      sch; static int64_t sch_n, sch_d, sch_k; static uint32_t sch_mask;
static int64_t  countdown = -1;
static uint64_t chg[16]; static int nchg; static uint64_t mpoints; // PCT change points over masked points
static int64_t  low_prio = -1;
static bool     need_resched;
static uint64_t g_clock = 1000000000ull, g_clock_off = 1700000000ull * 1000000000ull;
static uint64_t g_tick;
static uint64_t ns_per_point;
static uint64_t cap_points, cap_accs;
static uint64_t min_wake = ~0ull;
static bool     g_faults_off;
static uint64_t g_ninj;
static bool     g_sig_armed;
static uint64_t g_nsig;
static uint64_t sig_mean;
static bool     g_final;

int      tid() { return me ? me->id : 0; }
uint64_t now_ns() { return g_clock; }
uint64_t tick() { return ++g_tick; }
const Plan& plan() { return S->plan; }

static int mix_fd = -1; // for debugging: SIM_MIX=file records every scheduling point
static inline void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ull + (S->hash >> 29); }
void observe(uint64_t v) { mix(v); }
void observe(const char* s) { for (; *s; ++s) mix((unsigned char) *s); }

static Counter* counter(Counter* c, int& n, const char* name)
{
    for (int i = 0; i < n; ++i)
        if (!strcmp(c[i].name, name)) return &c[i];
    if (n >= MAX_NAMES) return &c[n - 1];
    strncpy(c[n].name, name, NAME_LEN - 1);
    return &c[n++];
}
void probe(const char* name, uint64_t n) { if (S) counter(S->probes, S->nprobes, name)->n += n; }

static void log_te(char k, int a, uint64_t idx, int64_t val)
{
    if (S->nte >= MAX_TE) { S->te_overflow = 1; return; }
    S->te[S->nte++] = TE { k, (int16_t) a, idx, val };
}

// ---------------------------------------------------------------- replay tables
struct RKey { char kind; int a; uint64_t idx; int64_t val; bool used; };
static RKey* rtab; static uint32_t rmask; // open addressing
static const TE* rte; static int nrte, rte_pos[MAX_THR];
static uint64_t rhash(char k, int a, uint64_t i) { uint64_t h = (uint64_t) k * 0x9E3779B97F4A7C15ull ^ ((uint64_t) (a + 7) << 40) ^ i; h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 31); }
static void r_insert(char k, int a, uint64_t i, int64_t v)
{
    uint64_t h = rhash(k, a, i);
    while (rtab[h & rmask].used) {
        RKey& e = rtab[h & rmask];
        if (e.kind == k && e.a == a && e.idx == i) { e.val = v; return; }
        ++h;
    }
    rtab[h & rmask] = RKey { k, a, i, v, true };
}
static bool r_find(char k, int a, uint64_t i, int64_t& v)
{
    uint64_t h = rhash(k, a, i);
    while (rtab[h & rmask].used) {
        RKey& e = rtab[h & rmask];
        if (e.kind == k && e.a == a && e.idx == i) { v = e.val; return true; }
        ++h;
    }
    return false;
}

// ---------------------------------------------------------------- endings
static bool g_done;
static void finish_stats()
{
    S->points   = 0; S->accs = 0;
    for (int i = 0; i < nthr; ++i) { S->points += thr[i].points; S->accs += thr[i].accs; }
    S->sim_ns   = g_clock - 1000000000ull;
    S->nthreads = nthr;
}
static void grab_bt()
{
    if (me) me->off++;
    S->nbt = backtrace(S->bt, 30);
    if (me) me->off--;
}
[[noreturn]] static void end_run(int st)
{
    if (!g_done) {
        g_done = true;
        finish_stats();
        mix(st);
        S->status = st;
    }
    die();
}
void fail(const char* fmt, ...)
{
    if (me) me->off += 1000;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    grab_bt();
    end_run(ST_VIOLATION);
}
void harness_error(const char* fmt, ...)
{
    if (me) me->off += 1000;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    grab_bt();
    end_run(ST_HARNESS);
}
static void final_oracle()
{
    if (me) me->off += 1000;
    g_final = true;
    S->stage = 3;
    if (the_prop.at_end) the_prop.at_end(S->plan);
    end_run(ST_OK);
}
void crash_now() { probe("sim.process_crash"); final_oracle(); die(); }

static void on_crash_signal(int sig, siginfo_t* si, void*)
{
    if (!S || g_done) die();
    if (me) me->off += 1000;
    snprintf(S->msg, sizeof(S->msg), "process died with signal %d (%s)%s%s%s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "fatal",
             S->stage == 2 ? " during process exit" : "", S->detail[0] ? ": " : "", S->detail);
    (void) si;
    grab_bt();
    end_run(S->stage == 3 ? ST_HARNESS : ST_CRASH);
}

// ---------------------------------------------------------------- choices and faults
uint64_t choice(const char* name, uint64_t n)
{
    if (!g_on || n < 2) return 0;
    Counter* c = counter(S->choices, S->nchoices, name);
    uint64_t i = c->occ++;
    int64_t v = 0;
    int ni = (int) (c - S->choices);
    if (g_replay) { if (!r_find('V', ni, i, v)) v = 0; }
    else v = (int64_t) rf.below(n);
    if (v) { c->n++; log_te('V', ni, i, v); mix(0x56000000ull + ni * 131 + v); }
    return (uint64_t) v % n;
}
bool fault(const char* name)
{
    if (!g_on || g_final || (me && me->nofault)) return false;
    char key[NAME_LEN];
    snprintf(key, sizeof key, "f_%s", name);
    Counter* c = counter(S->choices, S->nchoices, key);
    uint64_t i = c->occ++;
    int64_t v = 0;
    int ni = (int) (c - S->choices);
    if (g_replay) { if (!r_find('V', ni, i, v)) v = 0; }
    else {
        int64_t ppm = S->plan.get(key, 0);
        v = ppm > 0 && (int64_t) rf.below(1000000) < ppm && !g_faults_off;
    }
    if (v) {
        c->n++; g_ninj++;
        if (me && strstr("f_open_w f_open_r f_write_enospc f_write_eio f_close_eio f_mkdir f_read_eio f_fsync_eio", key)) me->nhard++;
        log_te('V', ni, i, v); mix(0x46000000ull + ni);
    }
    return v;
}
uint64_t faults_injected() { return g_ninj; }
void faults_off() { g_faults_off = true; }

// ================================================================ scheduler
static void fwait(int* f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
        sys(SYS_futex, (long) f, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fwake(int* f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    sys(SYS_futex, (long) f, FUTEX_WAKE_PRIVATE, 1);
}
static void deliver_cancel(Thr* t);

static void hand_over(Thr* n, bool wait)
{
    Thr* t = me;
    if (n == t) return;
    S->switches++;
    S->sched_hash = (S->sched_hash ^ (uint64_t) (t->id * 64 + n->id)) * 0x100000001b3ull;
    S->sched_hash = (S->sched_hash ^ t->points) * 0x100000001b3ull;
    mix(S->sched_hash);
    n->run_len = 0;
    cur = n;
    fwake(&n->go);
    if (wait) fwait(&t->go);
}

static void new_gap()
{
    // geometric gap with mean sch_n
    if (sch_n <= 1) { countdown = 1; return; }
    uint64_t u = rs.next() >> 11;
    double x = (double) u / 9007199254740992.0;
    // -ln(1-x)*n via series-free approximation: use repeated halving
    double g = 0; double y = 1 - x;
    while (y < 0.5) { g += 0.69314718056; y *= 2; }
    double z = 1 - y; // in [0,0.5]
    g += z + z * z / 2 + z * z * z / 3 + z * z * z * z / 4;
    countdown = 1 + (int64_t) (g * (double) sch_n);
}

static void wake_sleepers()
{
    min_wake = ~0ull;
    for (int i = 0; i < nthr; ++i) {
        Thr& t = thr[i];
        if (t.wake_at == ~0ull) continue;
        if (t.state != T_SLEEP && t.state != T_BLOCKED) continue;
        if (t.wake_at <= g_clock) {
            t.state = T_RUN; t.timed_out = true; t.wake_at = ~0ull;
            if (sch == 2 && me && t.prio > me->prio) need_resched = true;
        } else if (t.wake_at < min_wake) min_wake = t.wake_at;
    }
}
static void clock_add(uint64_t ns)
{
    g_clock += ns;
    if (g_clock >= min_wake) wake_sleepers();
}

static Thr* best_other(Thr* self)
{
    Thr* b = nullptr;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].state == T_RUN && &thr[i] != self && (!b || thr[i].prio > b->prio)) b = &thr[i];
    return b;
}
static Thr* rand_other(Thr* self)
{
    int n = 0; Thr* c[MAX_THR];
    for (int i = 0; i < nthr; ++i)
        if (thr[i].state == T_RUN && &thr[i] != self) c[n++] = &thr[i];
    return n ? c[rs.below(n)] : nullptr;
}

static const char* state_dump()
{
    static char buf[800]; int o = 0;
    for (int i = 0; i < nthr && o < 700; ++i)
        o += snprintf(buf + o, sizeof buf - o, " t%d:%s", i, thr[i].state == T_RUN ? "runnable" : thr[i].state == T_BLOCKED ? "blocked" : thr[i].state == T_SLEEP ? "sleeping" : thr[i].state == T_EXITED ? "exited" : "new");
    return buf;
}

// The current thread cannot continue (blocked, sleeping or exited): choose who runs.
static Thr* pick_forced(Thr* self)
{
    for (;;) {
        Thr* dflt = nullptr; int n = 0;
        for (int i = 0; i < nthr; ++i)
            if (thr[i].state == T_RUN) { if (!dflt) dflt = &thr[i]; ++n; }
        if (!n) {
            if (min_wake != ~0ull) { g_clock = min_wake > g_clock ? min_wake : g_clock; wake_sleepers(); continue; }
            fail("no progress: deadlock, every thread is blocked (%s )", state_dump());
        }
        uint64_t bi = self->blocks++;
        Thr* r = dflt;
        if (g_replay) {
            int64_t v;
            if (r_find('B', self->id, bi, v) && v < nthr && thr[v].state == T_RUN) r = &thr[v];
        } else if (n > 1) {
            r = sch == 1 ? rand_other(nullptr) : best_other(nullptr);
        }
        if (r != dflt) log_te('B', self->id, bi, r->id);
        return r;
    }
}

static void block_on(void* obj, uint64_t wake_at, TState st)
{
    Thr* t = me;
    t->off++;
    t->wait_obj = obj; t->wake_at = wake_at; t->state = st; t->timed_out = false;
    if (wake_at < min_wake) min_wake = wake_at;
    if (wake_at <= g_clock) { t->state = T_RUN; t->timed_out = true; t->wake_at = ~0ull; }
    else {
        Thr* n = pick_forced(t);
        if (n != t) hand_over(n, true);
    }
    t->wait_obj = nullptr; t->wake_at = ~0ull;
    t->off--;
}
static void wake_obj(void* obj, bool all)
{
    for (int i = 0; i < nthr; ++i)
        if (thr[i].state == T_BLOCKED && thr[i].wait_obj == obj) {
            thr[i].state = T_RUN; thr[i].wake_at = ~0ull;
            if (sch == 2 && me && thr[i].prio > me->prio) need_resched = true;
            if (!all) return;
        }
}

static void do_switch(Thr* t, Thr* n)
{
    log_te('S', t->id, t->points, n->id);
    t->off++;
    // the preempted thread may stay off the processor for a while
    if (fault("stall")) clock_add(1000 * (1 + choice("stall_us", 100000)));
    hand_over(n, true);
    t->off--;
}

static void point_slow(Thr* t, uint32_t kind)
{
    t->points++;
    if (ns_per_point) clock_add(ns_per_point);
    static uint64_t total;
    if (++total > cap_points) fail("no progress: %llu scheduling points without completing (%s )", (unsigned long long) total, state_dump());
    if (g_replay) {
        int64_t v;
        if (r_find('S', t->id, t->points, v) && v < nthr && v != t->id && thr[v].state == T_RUN) do_switch(t, &thr[v]);
        else if (++t->run_len > 40000) { t->run_len = 0; Thr* n = best_other(t); if (n) do_switch(t, n); }
        return;
    }
    ++t->run_len;
    if (t->run_len > 40000) { // fairness: a spinning thread must let the others run
        t->run_len = 0;
        t->prio = --low_prio;
        Thr* n = sch == 1 ? rand_other(t) : best_other(t);
        if (n) { do_switch(t, n); return; }
    }
    if (need_resched) {
        need_resched = false;
        if (sch == 2) { Thr* n = best_other(t); if (n && n->prio > t->prio) { do_switch(t, n); return; } }
    }
    if (!(kind & sch_mask)) return;
    if (sch == 1) {
        if (--countdown > 0) return;
        new_gap();
        Thr* n = rand_other(t);
        if (n) do_switch(t, n);
    } else if (sch == 2) {
        ++mpoints;
        for (int i = 0; i < nchg; ++i)
            if (chg[i] == mpoints) {
                t->prio = --low_prio;
                Thr* n = best_other(t);
                if (n && n->prio > t->prio) do_switch(t, n);
                break;
            }
    }
}

void point(uint32_t kind)
{
    Thr* t = me;
    if (!g_on || !t || t->off || t != cur) return;
    if (__builtin_expect(mix_fd >= 0, 0)) { uint64_t v[4] = { (uint64_t) t->id, t->accs, (uint64_t) __builtin_return_address(0), kind }; sys(SYS_write, mix_fd, (long) v, sizeof v); }
    point_slow(t, kind);
}
void yield() { point(PT_USER); }
void advance_ns(uint64_t ns)
{
    if (!g_on || !me) return;
    clock_add(ns);
    point(PT_USER);
}
void set_clock_offset(int64_t ns) { g_clock_off = (uint64_t) ns; }

NoPreempt::NoPreempt() { if (me) me->off++; }
NoFaults::NoFaults() { if (me) me->nofault++; }
NoFaults::~NoFaults() { if (me) me->nofault--; }
NoPreempt::~NoPreempt() { if (me) me->off--; }
int cur_tid_or(int d) { return me ? me->id : d; }

// ================================================================ heap
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t    ARENA_SZ = 4ull << 30;
static uint8_t*        shadow = (uint8_t*) 0x180000000000ull;
static uintptr_t       brk_ptr;
static uint64_t        live_bytes;
static const uint32_t  MAGIC = 0x51CA11BEu, FREED = 0xDEADF4EEu;
struct Hdr { uint64_t size; uint32_t magic, tid; };

enum : uint8_t { SH_RO = 62, SH_RW = 63, SH_BAD = 0x80 };

extern "C" char __data_start, _end;
static uint8_t*  gshadow; static uintptr_t g_dlo; static size_t g_dsz;

static void heap_init()
{
    void* p = (void*) sys(SYS_mmap, ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = (void*) sys(SYS_mmap, (long) shadow, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_dlo = (uintptr_t) &__data_start; g_dsz = (uintptr_t) &_end - g_dlo;
    gshadow = (uint8_t*) sys(SYS_mmap, 0, (g_dsz >> 3) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ((uintptr_t) p != ARENA || (uint8_t*) q != shadow) { static const char m[] = "sim: cannot map arena\n"; sys(SYS_write, 2, (long) m, sizeof m); sys(SYS_exit_group, 99); }
    brk_ptr = ARENA + 4096;
}
static inline bool in_arena(const void* p) { return (uintptr_t) p - ARENA < ARENA_SZ; }

static long sys_ret(long nr, long a, long b, long c, long d, long e, long f)
{
    long r = sys(nr, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}
static void* heap_alloc(size_t n, size_t al, bool zero)
{
    if (!brk_ptr) heap_init();
    if (al < 16) al = 16;
    Thr* t = me;
    // The allocator is modelled as non-reentrant: a signal handler that allocates
    // while the interrupted code is inside the allocator would deadlock.
    if (g_on && t && !t->off) {
        // The interrupted code could have been inside the allocator just as well: everything
        // else about this moment would be the same.
        if (t->in_sig && !t->in_malloc) fail("no progress: allocation inside a signal handler (self-deadlock if the allocator was interrupted)");
        if (t->in_malloc) fail("no progress: allocation inside a signal handler that interrupted the allocator (self-deadlock)");
    }
    if (g_on && !t) {
        // thread start-up or tear-down outside the simulation: separate region
        static uintptr_t side = ARENA + ARENA_SZ - (64u << 20);
        uintptr_t p = (__atomic_fetch_add(&side, sizeof(Hdr) + n + al + 16, __ATOMIC_RELAXED) + sizeof(Hdr) + al - 1) & ~(uintptr_t) (al - 1);
        Hdr* h = (Hdr*) (p - sizeof(Hdr));
        h->size = n; h->magic = MAGIC; h->tid = 1;
        return (void*) p;
    }
    uintptr_t p = (brk_ptr + sizeof(Hdr) + 16 + al - 1) & ~(uintptr_t) (al - 1);
    size_t rn = (n + 7) & ~(size_t) 7;
    if (rn == 0) rn = 8;
    if (n > (3ull << 30) || p + rn + 32 > ARENA + ARENA_SZ - (64u << 20)) { errno = ENOMEM; return nullptr; }
    brk_ptr = p + rn + 16;
    Hdr* h = (Hdr*) (p - sizeof(Hdr));
    h->size = n; h->magic = MAGIC; h->tid = 0;
    // shadow byte: 0x40 | owner means addressable (untouched = 0x40)
    memset(shadow + ((p - ARENA) >> 3), 0x40, rn >> 3);
    live_bytes += n;
    if (!zero) memset((void*) p, 0xA5, n > 4096 ? 4096 : n);
    return (void*) p;
}
static void heap_free(void* p)
{
    if (!p) return;
    if (!in_arena(p)) return;
    Hdr* h = (Hdr*) ((uintptr_t) p - sizeof(Hdr));
    if ((g_on && !me) || h->tid == 1) return; // see heap_alloc
    if (g_on && me && !me->off && me->in_malloc) fail("no progress: free inside a signal handler that interrupted the allocator (self-deadlock)");
    if (h->magic != MAGIC) {
        if (g_child && S && !g_done) fail("memory safety: %s", h->magic == FREED ? "double free" : "free of a corrupt or foreign block");
        return;
    }
    h->magic = FREED;
    live_bytes -= h->size;
    size_t rn = (h->size + 7) & ~(size_t) 7;
    if (rn == 0) rn = 8;
    memset(shadow + (((uintptr_t) p - ARENA) >> 3), 0, rn >> 3);
}
bool heap_addressable(const void* p, size_t n)
{
    uintptr_t a = (uintptr_t) p;
    if (!in_arena(p)) return true;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8)
        if (!shadow[(x - ARENA) >> 3]) return false;
    return true;
}
uint64_t heap_live_bytes() { return live_bytes; }

// ================================================================ signals
struct Tmr { bool used, armed; int owner; int signo; bool late; }; // late: deleted with a signal still pending
static Tmr tmr[256]; static int ntmr;
static struct sigaction sact[65];

static void signal_deliver(Thr* t);

static void sig_gap(Thr* t)
{
    if (g_replay) {
        // next recorded delivery for this thread
        t->next_ev = ~0ull;
        int& i = rte_pos[t->id]; // a thread's deliveries are recorded in order
        for (; i < nrte; ++i)
            if (rte[i].kind == 'G' && rte[i].a == t->id && rte[i].idx > t->accs) { t->next_ev = rte[i].idx; break; }
        return;
    }
    if (!sig_mean) { t->next_ev = ~0ull; return; }
    t->next_ev = t->accs + 1 + rf.below(2 * sig_mean);
}
void signals_arm(bool on)
{
    g_sig_armed = on;
    if (on) for (int i = 0; i < nthr; ++i) sig_gap(&thr[i]);
}
uint64_t signals_delivered() { return g_nsig; }
int timers_active() { int n = 0; for (int i = 0; i < ntmr; ++i) n += tmr[i].used; return n; }
bool timer_of(int t) { for (int i = 0; i < ntmr; ++i) if (tmr[i].used && tmr[i].owner == t) return true; return false; }

static void acc_event(Thr* t)
{
    uint64_t at = t->accs;
    if (at >= cap_accs) fail("no progress: %llu memory accesses by one thread without completing (%s )", (unsigned long long) at, state_dump());
    bool deliver = g_sig_armed && !t->in_sig && !g_final && !(g_faults_off && !g_replay);
    if (g_replay) { int64_t v; deliver = deliver && r_find('G', t->id, at, v); }
    sig_gap(t);
    if (t->next_ev > cap_accs) t->next_ev = cap_accs;
    if (!deliver) return;
    int sg = 0;
    for (int i = 0; i < ntmr; ++i) if (((tmr[i].used && tmr[i].armed) || tmr[i].late) && tmr[i].owner == t->id) { sg = tmr[i].signo; tmr[i].late = false; break; }
    if (!sg || !(sact[sg].sa_flags & SA_SIGINFO) || !sact[sg].sa_sigaction) return;
    log_te('G', t->id, at, 1);
    mix(0x47000000ull + at);
    g_nsig++; g_ninj++;
    counter(S->choices, S->nchoices, "f_signal")->n++;
    t->in_sig = true;
    static ucontext_t uc;
    uc.uc_mcontext.gregs[REG_RIP] = (long long) 0x400000;
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sg;
    int e = errno;
    sact[sg].sa_sigaction(sg, &si, &uc);
    errno = e;
    t->in_sig = false;
}

// ================================================================ access hooks
static void __attribute__((noinline)) bad_access(uintptr_t a, unsigned sz, bool w, void* pc)
{
    Thr* t = me;
    if (!g_on || g_final) return;
    t->off++;
    // classify
    const char* what = "out-of-bounds";
    for (uintptr_t x = a & ~15ull; x > a - (8u << 20) && x > ARENA; x -= 16) {
        Hdr* h = (Hdr*) (x - sizeof(Hdr));
        if (h->magic == MAGIC && h->size < (3ull << 30)) { break; }
        if (h->magic == FREED && h->size < (3ull << 30)) { if (a < x + h->size) what = "use-after-free"; break; }
    }
    S->bt[0] = pc;
    fail("memory safety: heap %s, %s of %u bytes", what, w ? "write" : "read", sz);
}

static inline __attribute__((always_inline)) void on_acc(uintptr_t a, unsigned sz, bool w, void* pc)
{
    Thr* t = me;
    if (!g_on || !t || t->off) return;
    if (__builtin_expect(++t->accs >= t->next_ev, 0)) acc_event(t);
    uint8_t* sp;
    uintptr_t o = a - ARENA;
    if (o < ARENA_SZ) {
        sp = shadow + (o >> 3);
        uint8_t s = *sp;
        if (__builtin_expect(!s, 0)) { bad_access(a, sz, w, pc); return; }
        s &= 0x3f;
        if (s == t->own) return;
        if (s == 0) { *sp = 0x40 | t->own; return; }
        if (s == SH_RW) { point_slow(t, w ? PT_W : PT_R); return; }
        if (w) { *sp = 0x40 | SH_RW; point_slow(t, PT_W); }
        else { if (s != SH_RO) *sp = 0x40 | SH_RO; point_slow(t, PT_RO); }
    } else if ((o = a - g_dlo) < g_dsz) {
        sp = gshadow + (o >> 3);
        uint8_t s = *sp;
        if (s == t->own) return;
        if (s == 0) { *sp = t->own; return; }
        if (s == SH_RW) { point_slow(t, w ? PT_W : PT_R); return; }
        if (w) { *sp = SH_RW; point_slow(t, PT_W); }
        else { if (s != SH_RO) *sp = SH_RO; point_slow(t, PT_RO); }
    }
}
static void on_range(uintptr_t a, size_t n, bool w, void* pc)
{
    Thr* t = me;
    if (!g_on || !t || t->off || !n) return;
    if (a - ARENA < ARENA_SZ) {
        uintptr_t e = a + n;
        for (uintptr_t x = a & ~7ull; x < e; x += 8)
            if (!shadow[(x - ARENA) >> 3]) { bad_access(a, (unsigned) n, w, pc); return; }
    }
    // sharing state: first, last and every 64 bytes
    for (size_t i = 0; i < n; i += 64) on_acc(a + i, 1, w, pc);
    on_acc(a + n - 1, 1, w, pc);
}

//   A copy is not one step: other threads and signal handlers can run after any word of
// it and see it half done.
static void copy_steps(char* d, const char* s, size_t n, void* pc)
{
    Thr* t = me;
    if (!g_on || !t || t->off || n < 16 || (d < s + n && s < d + n)) {
        on_range((uintptr_t) s, n, false, pc);
        on_range((uintptr_t) d, n, true, pc);
        memmove(d, s, n);
        return;
    }
    uintptr_t r[2] = { (uintptr_t) s, (uintptr_t) d };
    for (int k = 0; k < 2; ++k)
        if (r[k] - ARENA < ARENA_SZ)
            for (uintptr_t x = r[k] & ~7ull; x < r[k] + n; x += 8)
                if (!shadow[(x - ARENA) >> 3]) bad_access(r[k], (unsigned) n, k, pc);
    size_t step = n <= 64 ? 8 : (n / 8 + 7) & ~7ull;
    for (size_t i = 0; i < n; i += step) {
        size_t m = n - i < step ? n - i : step;
        on_acc((uintptr_t) s + i, 1, false, pc);
        on_acc((uintptr_t) d + i, 1, true, pc);
        memcpy(d + i, s + i, m);
    }
}
} // namespace sim

using namespace sim;

#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RWN(n) \
    void __tsan_read##n(void* a) { on_acc((uintptr_t) a, n, false, RA); } \
    void __tsan_write##n(void* a) { on_acc((uintptr_t) a, n, true, RA); } \
    void __tsan_unaligned_read##n(void* a) { on_acc((uintptr_t) a, n, false, RA); } \
    void __tsan_unaligned_write##n(void* a) { on_acc((uintptr_t) a, n, true, RA); } \
    void __tsan_read_write##n(void* a) { on_acc((uintptr_t) a, n, true, RA); } \
    void __tsan_unaligned_read_write##n(void* a) { on_acc((uintptr_t) a, n, true, RA); } \
    void __tsan_volatile_read##n(void* a) { on_acc((uintptr_t) a, n, false, RA); } \
    void __tsan_volatile_write##n(void* a) { on_acc((uintptr_t) a, n, true, RA); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_vptr_update(void** a, void*) { on_acc((uintptr_t) a, 8, true, RA); }
void __tsan_vptr_read(void** a) { on_acc((uintptr_t) a, 8, false, RA); }
void __tsan_read_range(void* a, unsigned long n) { on_range((uintptr_t) a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { on_range((uintptr_t) a, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { copy_steps((char*) d, (const char*) s, n, RA); return d; }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { copy_steps((char*) d, (const char*) s, n, RA); return d; }
void* __tsan_memset(void* d, int c, unsigned long n) { on_range((uintptr_t) d, n, true, RA); return memset(d, c, n); }

static inline __attribute__((always_inline)) void at_pt(const volatile void* a, bool w, unsigned n, void* pc)
{
    Thr* t = me;
    if (!g_on || !t || t->off) return;
    if (++t->accs >= t->next_ev) acc_event(t);
    uintptr_t o = (uintptr_t) a - ARENA;
    if (o < ARENA_SZ) {
        uint8_t* sp = shadow + (o >> 3);
        if (!*sp) { bad_access((uintptr_t) a, n, w, pc); return; }
        uint8_t s = *sp & 0x3f;
        if (s == 0) { *sp = 0x40 | t->own; return; }     // not yet shared: still private
        if (s == t->own) return;
        *sp = 0x40 | SH_RW;
    } else if ((o = (uintptr_t) a - g_dlo) < g_dsz) {
        uint8_t* sp = gshadow + (o >> 3);
        uint8_t s = *sp;
        if (s == 0) { *sp = t->own; return; }
        if (s == t->own) return;
        *sp = SH_RW;
    }
    point_slow(t, PT_ATOM);
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64; typedef unsigned __int128 a128;
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int) { at_pt(a, false, N / 8, RA); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) (o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) (o - v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) (o & v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) (o | v); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) (o ^ v); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { at_pt(a, true, N / 8, RA); T o = *a; *a = (T) ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at_pt(a, true, N / 8, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at_pt(a, true, N / 8, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at_pt(a, true, N / 8, RA); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64) ATOM(128, a128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ================================================================ malloc family
static void alloc_point()
{
    // a signal may arrive while the allocator is running
    Thr* t = me;
    if (!g_on || !t || t->off) return;
    if (g_sig_armed) {
        t->in_malloc = true;
        if (++t->accs >= t->next_ev) acc_event(t);
        t->in_malloc = false;
    }
}
// anonymous maps are served from the arena, so that accesses to them are checked and scheduled
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    if (g_on && me && !me->off && !a && (flags & MAP_ANONYMOUS)) {
        if (fault("mmap")) { errno = ENOMEM; return MAP_FAILED; }
        probe("sim.mmap"); me->off++; void* p = heap_alloc((n + 4095) & ~(size_t) 4095, 4096, true); me->off--;
        return p ? p : MAP_FAILED;
    }
    return (void*) sys_ret(SYS_mmap, (long) a, (long) n, prot, flags, fd, off);
}
int munmap(void* p, size_t n)
{
    if (in_arena(p)) { if (me) me->off++; heap_free(p); if (me) me->off--; return 0; }
    return (int) sys_ret(SYS_munmap, (long) p, (long) n, 0, 0, 0, 0);
}
void* malloc(size_t n) { void* p = heap_alloc(n, 16, false); alloc_point(); return p; }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = heap_alloc(n, 16, true); alloc_point(); return p; }
void free(void* p) { alloc_point(); heap_free(p); }
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    Hdr* h = (Hdr*) ((uintptr_t) p - sizeof(Hdr));
    void* q = heap_alloc(n, 16, false);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, false); }
int posix_memalign(void** r, size_t al, size_t n) { *r = heap_alloc(n, al, false); return *r ? 0 : ENOMEM; }
void* valloc(size_t n) { return heap_alloc(n, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*) ((uintptr_t) p - sizeof(Hdr)))->size : 0; }
} // extern C

// ================================================================ real functions
template <class F> static F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
static int (*r_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_pthread_join)(pthread_t, void**);
static void (*r_exit)(int) __attribute__((noreturn));
static int (*r_pthread_detach)(pthread_t);
static int (*r_sigaction)(int, const struct sigaction*, struct sigaction*);
static int (*r_open)(const char*, int, ...);
static FILE* (*r_fopen)(const char*, const char*);
static ssize_t (*r_write)(int, const void*, size_t);
static ssize_t (*r_writev)(int, const struct iovec*, int);
static ssize_t (*r_read)(int, void*, size_t);
static int (*r_close)(int);
static int (*r_fclose)(FILE*);
static int (*r_mkdir)(const char*, mode_t);
static int (*r_stat)(const char*, struct stat*);
static int (*r_access)(const char*, int);
static int (*r_unlink)(const char*);
static int (*r_rename)(const char*, const char*);
static int (*r_fsync)(int);

static void bind_real()
{
    if (r_pthread_create) return;
    r_pthread_create = real<decltype(r_pthread_create)>("pthread_create");
    r_pthread_join   = real<decltype(r_pthread_join)>("pthread_join");
    r_exit           = real<decltype(r_exit)>("exit");
    r_pthread_detach = real<decltype(r_pthread_detach)>("pthread_detach");
    r_sigaction      = real<decltype(r_sigaction)>("sigaction");
    r_open  = real<decltype(r_open)>("open");
    r_fopen = real<decltype(r_fopen)>("fopen64");
    r_write = real<decltype(r_write)>("write");
    r_writev = real<decltype(r_writev)>("writev");
    r_read  = real<decltype(r_read)>("read");
    r_close = real<decltype(r_close)>("close");
    r_fclose = real<decltype(r_fclose)>("fclose");
    r_mkdir = real<decltype(r_mkdir)>("mkdir");
    r_stat  = real<decltype(r_stat)>("stat");
    r_access = real<decltype(r_access)>("access");
    r_unlink = real<decltype(r_unlink)>("unlink");
    r_rename = real<decltype(r_rename)>("rename");
    r_fsync = real<decltype(r_fsync)>("fsync");
}

// ================================================================ mutexes
struct SMutex { int owner, count, o2; unsigned nusers; int kind; };
static inline bool simthr() { return g_on && me; }

static void check_sync_obj(void* p, size_t n)
{
    if (me && !me->off && !heap_addressable(p, n)) bad_access((uintptr_t) p, (unsigned) n, true, RA);
}
static int mtx_lock(pthread_mutex_t* pm, bool tr, uint64_t deadline = ~0ull)
{
    SMutex* m = (SMutex*) pm;
    if (!simthr()) { // before/after the simulation: single threaded
        if (m->owner && m->kind == 1) { m->count++; return 0; }
        m->owner = 1000; m->count = 1; return 0;
    }
    check_sync_obj(pm, sizeof(*m));
    point(PT_SYNC);
    int self = me->id + 1;
    for (;;) {
        if (!m->owner || m->owner == 1000) { m->owner = self; m->count = 1; return 0; }
        if (m->owner == self) {
            if ((m->kind & 3) == 1) { m->count++; return 0; }
            if (tr) return EBUSY;
            if ((m->kind & 3) == 2) return EDEADLK;
            fail("no progress: thread %d locks a mutex it already holds (self-deadlock)%s", me->id, me->in_sig ? " in a signal handler" : "");
        }
        if (tr) return EBUSY;
        probe("sim.lock_contended");
        block_on(m, deadline, T_BLOCKED);
        if (me->timed_out && deadline != ~0ull && m->owner) return ETIMEDOUT;
    }
}
static int mtx_unlock(pthread_mutex_t* pm)
{
    SMutex* m = (SMutex*) pm;
    if (simthr() && m->owner != me->id + 1 && m->owner != 1000) { if ((m->kind & 3) == 2) return EPERM; }
    if (--m->count > 0) return 0;
    m->owner = 0; m->count = 0;
    if (simthr()) { wake_obj(m, true); point(PT_SYNC); }
    return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return mtx_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mtx_lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mtx_unlock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{ uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec - g_clock_off; return mtx_lock(m, false, d); }

int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t* l)
{ if (!simthr()) { *l = 1; return 0; } point(PT_SYNC); while (*l) block_on((void*) l, ~0ull, T_BLOCKED); *l = 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { *l = 0; if (simthr()) { wake_obj((void*) l, true); point(PT_SYNC); } return 0; }

// rwlock: __readers used as reader count, __writers as writer owner
struct SRw { int readers, writer; };
static int rw_lock(pthread_rwlock_t* p, bool wr, bool tr)
{
    SRw* l = (SRw*) p;
    if (!simthr()) { if (wr) l->writer = 1000; else l->readers++; return 0; }
    check_sync_obj(p, sizeof *l);
    point(PT_SYNC);
    for (;;) {
        if (wr ? (!l->readers && !l->writer) : !l->writer) { if (wr) l->writer = me->id + 1; else l->readers++; return 0; }
        if (l->writer == me->id + 1) { if (tr) return EBUSY; fail("no progress: thread %d locks a rwlock it already holds", me->id); }
        if (tr) return EBUSY;
        block_on(l, ~0ull, T_BLOCKED);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { return rw_lock(p, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { return rw_lock(p, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { return rw_lock(p, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { return rw_lock(p, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
    SRw* l = (SRw*) p;
    if (l->writer) l->writer = 0; else if (l->readers) l->readers--;
    if (simthr()) { wake_obj(l, true); point(PT_SYNC); }
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (simthr()) { point(PT_SYNC); wake_obj(c, false); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (simthr()) { point(PT_SYNC); wake_obj(c, true); } return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    if (!simthr()) return 0;
    check_sync_obj(c, sizeof *c);
    if (fault("cond_spurious")) { mtx_unlock(m); mtx_lock(m, false); return 0; }
    me->off++; mtx_unlock(m); me->off--;
    block_on(c, deadline, T_BLOCKED);
    bool to = me->timed_out;
    mtx_lock(m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{ return cond_wait(c, m, (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec - g_clock_off); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{ return cond_wait(c, m, (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec - (k == CLOCK_REALTIME ? g_clock_off : 0)); }

int pthread_once(pthread_once_t* o, void (*fn)())
{
    volatile int* s = (volatile int*) o;
    point(PT_SYNC);
    while (*s != 2) {
        if (*s == 0) { *s = 1; fn(); *s = 2; if (simthr()) wake_obj(o, true); return 0; }
        if (!simthr()) return 0;
        block_on(o, ~0ull, T_BLOCKED);
    }
    return 0;
}

// static local initialisation
int __cxa_guard_acquire(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*) g;
    volatile uint16_t* owner = (volatile uint16_t*) g + 1;
    point(PT_SYNC);
    for (;;) {
        if (b[0]) return 0;
        int self = simthr() ? me->id + 1 : 1000;
        if (!b[1]) { b[1] = 1; *owner = (uint16_t) self; return 1; }
        if (!simthr() || *owner == self) { if (simthr()) fail("recursive initialisation of a static local%s", me->in_sig ? " (in a signal handler)" : ""); return 1; }
        block_on(g, ~0ull, T_BLOCKED);
    }
}
void __cxa_guard_release(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*) g;
    b[0] = 1; b[1] = 0;
    if (simthr()) { wake_obj(g, true); point(PT_SYNC); }
}
void __cxa_guard_abort(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*) g;
    b[1] = 0;
    if (simthr()) wake_obj(g, true);
}
} // extern C

// ================================================================ thread creation
namespace sim {
static void thread_exit_token()
{
    Thr* t = me;
    point(PT_SYNC);
    t->off += 100000;
    t->state = T_EXITED;
    wake_obj(t, true);
    // the wake-up of a joiner is ordinary; choose who runs next
    Thr* n = pick_forced(t);
    me = nullptr;
    S->switches++;
    S->sched_hash = (S->sched_hash ^ (uint64_t) (t->id * 64 + n->id + 7777)) * 0x100000001b3ull;
    mix(S->sched_hash);
    n->run_len = 0;
    cur = n;
    fwake(&n->go);
}
struct Exiter { bool armed = false; ~Exiter() { if (armed) thread_exit_token(); } };
static thread_local Exiter exiter;

static void* trampoline(void* p)
{
    Thr* t = (Thr*) p;
    me = t;
    fwait(&t->go);
    t->off++;
    exiter.armed = true;  // constructed first, destroyed last among thread_locals
    t->off--;
    return t->fn(t->arg);
}
static Thr* by_handle(pthread_t h)
{
    for (int i = nthr - 1; i >= 0; --i)
        if (thr[i].real == h) return &thr[i];
    return nullptr;
}
} // namespace sim

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    bind_real();
    if (!simthr()) { if (S) harness_error("thread created outside the simulation"); return EAGAIN; }
    if (fault("thread_create")) return EAGAIN;
    if (nthr >= MAX_THR - 2) harness_error("too many threads");
    me->off++;
    Thr* t = &thr[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr; t->own = (uint8_t) (nthr + 1 > 60 ? 60 : nthr + 1);
    t->fn = fn; t->arg = arg; t->wake_at = ~0ull; t->next_ev = cap_accs;
    t->prio = g_replay ? 0 : (int64_t) (rs.next() >> 2);
    t->state = T_RUN;
    void* stk = (void*) sys(SYS_mmap, 0x300000000000ll + (long) t->id * (STACK_SZ + 65536), STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((long) stk < 0) harness_error("cannot map thread stack");
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stk, STACK_SZ);
    nthr++;
    if (g_sig_armed) sig_gap(t);
    int rc = r_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (rc) harness_error("real pthread_create failed: %d", rc);
    *out = t->real;
    if (sch == 2 && t->prio > me->prio) need_resched = true;
    me->off--;
    point(PT_SYNC);
    return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    bind_real();
    if (!simthr()) return r_pthread_join(h, ret);
    Thr* t = by_handle(h);
    if (!t || t == me) return EINVAL;
    point(PT_SYNC);
    while (t->state != T_EXITED) block_on(t, ~0ull, T_BLOCKED);
    t->joined = true;
    me->off++;
    int rc = r_pthread_join(h, ret);
    me->off--;
    return rc;
}
//   A thread that calls exit() runs its thread-local destructors first, then the
// exit handlers: it does not end as a simulated thread.
void exit(int rc)
{
    bind_real();
    if (simthr()) exiter.armed = false;
    r_exit(rc);
}
int pthread_detach(pthread_t h) { bind_real(); return r_pthread_detach(h); }
int pthread_setcancelstate(int s, int* old)
{
    if (!simthr()) return 0;
    if (old) *old = me->cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    me->cancel_disabled = s == PTHREAD_CANCEL_DISABLE;
    return 0;
}
int pthread_setcanceltype(int, int*) { return 0; }
int pthread_cancel(pthread_t h)
{
    Thr* t = by_handle(h);
    if (!t) return ESRCH;
    point(PT_SYNC);
    t->cancel_pending = true;
    if (t->state == T_SLEEP && !t->cancel_disabled) { t->state = T_RUN; t->wake_at = ~0ull; }
    return 0;
}
} // extern C
namespace sim {
static void cancel_point() // may unwind
{
    if (me->cancel_pending && !me->cancel_disabled) { me->cancel_pending = false; probe("sim.thread_cancelled"); pthread_exit(PTHREAD_CANCELED); }
}
}
extern "C" {
void pthread_testcancel() { if (simthr()) cancel_point(); }
int sched_yield() { point(PT_USER); if (simthr() && !me->off && sch != 1 && !g_replay) { Thr* n = rand_other(me); if (n) { me->prio = --low_prio; do_switch(me, n); } } return 0; }

// ================================================================ clocks
static void fill(struct timespec* ts, uint64_t ns) { ts->tv_sec = (time_t) (ns / 1000000000ull); ts->tv_nsec = (long) (ns % 1000000000ull); }
int clock_gettime(clockid_t k, struct timespec* ts)
{
    if (!g_on) return (int) sys(SYS_clock_gettime, k, (long) ts);
    if (simthr()) point(PT_USER);
    if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) fill(ts, g_clock + g_clock_off);
    else fill(ts, g_clock);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(uint64_t until, struct timespec* rem)
{
    if (!simthr()) return 0;
    cancel_point();
    point(PT_SYNC);
    if (fault("sleep_eintr")) {
        uint64_t left = until > g_clock ? until - g_clock : 0;
        uint64_t part = left / 2;
        block_on(nullptr, g_clock + part, T_SLEEP);
        cancel_point();
        if (rem) fill(rem, left - part);
        errno = EINTR;
        return -1;
    }
    block_on(nullptr, until, T_SLEEP);
    cancel_point();
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (!simthr()) return 0;
    return do_sleep(g_clock + (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec, rem);
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* ts, struct timespec* rem)
{
    uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
    if (flags & TIMER_ABSTIME) d = d - (k == CLOCK_REALTIME ? g_clock_off : 0); else d += g_clock;
    return do_sleep(d, rem) ? errno : 0;
}
int usleep(useconds_t us) { return simthr() ? do_sleep(g_clock + (uint64_t) us * 1000, nullptr) : 0; }
unsigned sleep(unsigned s) { if (simthr()) do_sleep(g_clock + (uint64_t) s * 1000000000ull, nullptr); return 0; }
pid_t getpid() { return g_on ? 4242 : (pid_t) sys(SYS_getpid); }

// ================================================================ signals and timers
int sigaction(int s, const struct sigaction* a, struct sigaction* o)
{
    bind_real();
    if (!g_on) return r_sigaction(s, a, o);
    if (o) *o = sact[s];
    if (a) sact[s] = *a;
    return 0;
}
sighandler_t signal(int s, sighandler_t h)
{
    if (!g_on) { bind_real(); struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; r_sigaction(s, &a, &o); return o.sa_handler; }
    sighandler_t old = sact[s].sa_handler;
    memset(&sact[s], 0, sizeof sact[s]);
    sact[s].sa_handler = h == SIG_IGN || h == SIG_DFL ? nullptr : h;
    if (h == SIG_IGN) for (int i = 0; i < ntmr; ++i) if (tmr[i].signo == s) tmr[i].late = false;
    return old;
}
int sigprocmask(int, const sigset_t*, sigset_t*) { return 0; }
int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int timer_create(clockid_t, struct sigevent* sev, timer_t* t)
{
    if (!simthr()) { errno = EAGAIN; return -1; }
    point(PT_SYNC);
    if (fault("timer_create")) { errno = EAGAIN; return -1; }
    if (ntmr >= 256) { errno = EAGAIN; return -1; }
    int owner = sev && (sev->sigev_notify == SIGEV_THREAD_ID) ? sev->_sigev_un._tid - 4242 : me->id;
    tmr[ntmr] = Tmr { true, false, owner, sev ? sev->sigev_signo : SIGALRM, false };
    *t = (timer_t) (intptr_t) (ntmr + 1);
    ntmr++;
    return 0;
}
int timer_settime(timer_t t, int, const struct itimerspec* s, struct itimerspec*)
{
    int i = (int) (intptr_t) t - 1;
    if (i < 0 || i >= ntmr || !tmr[i].used) { errno = EINVAL; return -1; }
    if (fault("timer_settime")) { errno = EINVAL; return -1; }
    tmr[i].armed = s->it_value.tv_sec || s->it_value.tv_nsec;
    return 0;
}
int timer_delete(timer_t t)
{
    int i = (int) (intptr_t) t - 1;
    if (i < 0 || i >= ntmr || !tmr[i].used) { probe("sim.bad_timer_delete"); errno = EINVAL; return -1; }
    if (tmr[i].armed && g_sig_armed && sig_mean && fault("late_signal")) tmr[i].late = true;
    tmr[i].used = tmr[i].armed = false;
    return 0;
}
long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (g_on && n == SYS_gettid) return 4242 + (me ? me->id : 0);
    long r = sys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}
pid_t gettid() { return g_on ? 4242 + (me ? me->id : 0) : (pid_t) sys(SYS_gettid); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*)
{
    if (S) { const char* b = strrchr(f, '/'); snprintf(S->detail, sizeof S->detail, "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l); }
    abort();
}
} // extern C

// ================================================================ files
namespace sim {
enum { MAX_FILES = 64, MAX_FD = 512 };
struct File { char path[200]; int mem; size_t wcalls; bool dir, had_fault, gone; };
static File files[MAX_FILES]; static int nfiles;
static int fdmap[MAX_FD];      // fd -> file index + 1
static int logfd = -1;
static int fderr[MAX_FD];      // a failed device stays failed until the file is opened again
uint64_t my_hard_faults() { return me ? me->nhard : 0; }
int open_files() { int n = 0; for (int i = 0; i < MAX_FD; ++i) n += fdmap[i] != 0; return n; }

static bool is_sim(const char* p) { return g_on && p && !strncmp(p, "/sim", 4) && (!p[4] || p[4] == '/'); }
static File* find_file(const char* p)
{
    static File root = { "/sim", -1, 0, true, false, false };
    if (!strcmp(p, "/sim") || !strcmp(p, "/sim/")) return &root;
    for (int i = 0; i < nfiles; ++i) if (!files[i].gone && !strcmp(files[i].path, p)) return &files[i];
    return nullptr;
}
static File* make_file(const char* p, bool dir)
{
    int i = 0;
    for (; i < nfiles; ++i) {      // reuse the place of a removed file that nobody has open
        if (!files[i].gone) continue;
        int k = 0;
        while (k < MAX_FD && fdmap[k] != i + 1) ++k;
        if (k == MAX_FD) { if (files[i].mem >= 0) sys(SYS_close, files[i].mem); break; }
    }
    if (i == nfiles && nfiles++ >= MAX_FILES) harness_error("too many files");
    File* f = &files[i];
    memset(f, 0, sizeof *f);
    strncpy(f->path, p, sizeof f->path - 1);
    f->dir = dir;
    f->mem = dir ? -1 : (int) sys(SYS_memfd_create, (long) "simfile", 0);
    return f;
}
static bool parent_ok(const char* p)
{
    char b[200]; strncpy(b, p, sizeof b - 1); b[199] = 0;
    char* s = strrchr(b, '/');
    if (!s || s - b <= 4) return true; // directly in /sim
    *s = 0;
    File* d = find_file(b);
    return d && d->dir;
}
static File* of_fd(int fd) { return fd >= 0 && fd < MAX_FD && fdmap[fd] ? &files[fdmap[fd] - 1] : nullptr; }

static int sim_open(const char* p, int flags)
{
    S->io_calls++;
    point(PT_IO);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (fault(wr ? "open_w" : "open_r")) { static const int es[] = { EACCES, EMFILE, ENOSPC, EIO, EROFS }; errno = es[choice("open_errno", 5)]; return -1; }
    File* f = find_file(p);
    if (f && f->dir) { errno = EISDIR; return -1; }
    if (!f) {
        if (!(flags & O_CREAT) || !parent_ok(p)) { errno = ENOENT; return -1; }
        f = make_file(p, false);
    } else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
    char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", f->mem);
    int fd = (int) sys(SYS_open, (long) pp, flags & ~(O_CREAT | O_EXCL), 0);
    if (fd < 0) harness_error("reopen of memfd failed: %d", fd);
    if (fd >= MAX_FD) harness_error("fd too large");
    fdmap[fd] = (int) (f - files) + 1;
    fderr[fd] = 0;
    return fd;
}

static ssize_t sim_write(int fd, const void* b, size_t n)
{
    File* f = of_fd(fd);
    S->io_calls++;
    point(PT_IO);
    f->wcalls++;
    if (fderr[fd]) { errno = fderr[fd]; return -1; }
    if (n && fault("write_eintr")) { errno = EINTR; return -1; }
    if (fault("crash_write")) { // process dies inside write(): an arbitrary prefix reached the file
        size_t k = n ? choice("crash_keep", n + 1) : 0;
        sys(SYS_write, fd, (long) b, (long) k);
        f->had_fault = true;
        crash_now();
    }
    if (n && fault("write_enospc")) { f->had_fault = true; errno = ENOSPC; if (!plan().get("io_temp")) fderr[fd] = ENOSPC; return -1; }
    if (n && fault("write_eio")) { f->had_fault = true; errno = EIO; if (!plan().get("io_temp")) fderr[fd] = EIO; return -1; }
    if (n > 1 && fault("write_short")) n = 1 + choice("short_len", n - 1);
    const unsigned char* q = (const unsigned char*) b;
    uint64_t h = 0; for (size_t i = 0; i < n; ++i) h = h * 1099511628211ull + q[i];
    mix(h);
    long r = sys(SYS_write, fd, (long) b, (long) n);
    if (r < 0) { errno = (int) -r; return -1; }
    return r;
}
static ssize_t sim_read(int fd, void* b, size_t n)
{
    S->io_calls++;
    point(PT_IO);
    if (n && fault("read_eintr")) { errno = EINTR; return -1; }
    if (n && fault("read_eio")) { of_fd(fd)->had_fault = true; errno = EIO; return -1; }
    if (n > 1 && fault("read_short")) n = 1 + choice("rshort_len", n - 1 < 4096 ? n - 1 : 4096);
    long r = sys(SYS_read, fd, (long) b, (long) n);
    if (r < 0) { errno = (int) -r; return -1; }
    return r;
}

bool   file_exists(const char* p) { return find_file(p) != nullptr; }
size_t file_size(const char* p) { File* f = find_file(p); if (!f || f->dir) return 0; return (size_t) sys(SYS_lseek, f->mem, 0, SEEK_END); }
size_t file_read(const char* p, char* b, size_t cap)
{
    File* f = find_file(p);
    if (!f || f->dir) return 0;
    size_t o = 0;
    while (o < cap) { long r = sys(SYS_pread64, f->mem, (long) (b + o), (long) (cap - o), (long) o); if (r <= 0) break; o += (size_t) r; }
    return o;
}
void file_put(const char* p, const void* d, size_t n)
{
    File* f = find_file(p);
    if (!f) f = make_file(p, false);
    sys(SYS_ftruncate, f->mem, 0);
    size_t o = 0;
    while (o < n) { long r = sys(SYS_pwrite64, f->mem, (long) ((const char*) d + o), (long) (n - o), (long) o); if (r <= 0) harness_error("file_put"); o += (size_t) r; }
}
void file_remove(const char* p)
{
    if (File* f = find_file(p)) f->gone = true;
    char b[200]; strncpy(b, p, sizeof b - 1); b[199] = 0;
    for (char* s; (s = strrchr(b, '/')) && s - b > 4;) { *s = 0; if (File* d = find_file(b)) d->gone = true; }
}
size_t file_write_calls(const char* p) { File* f = find_file(p); return f ? f->wcalls : 0; }
bool   file_had_fault(const char* p) { File* f = find_file(p); return f && f->had_fault; }
void   file_at(int i, char* path, size_t cap) { path[0] = 0; if (i < nfiles && !files[i].gone) { strncpy(path, files[i].path, cap - 1); path[cap - 1] = 0; } }
size_t log_read(char* b, size_t cap)
{
    size_t o = 0;
    while (o < cap) { long r = sys(SYS_pread64, logfd, (long) (b + o), (long) (cap - o), (long) o); if (r <= 0) break; o += (size_t) r; }
    return o;
}
} // namespace sim

extern "C" {
int open(const char* p, int flags, ...)
{
    bind_real();
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (is_sim(p)) return sim_open(p, flags);
    return r_open(p, flags, m);
}
int open64(const char* p, int flags, ...)
{
    bind_real();
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (is_sim(p)) return sim_open(p, flags);
    return r_open(p, flags, m);
}
FILE* fopen64(const char* p, const char* mode)
{
    bind_real();
    if (!is_sim(p)) return r_fopen(p, mode);
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = sim_open(p, fl);
    if (fd < 0) return nullptr;
    return fdopen(fd, mode);
}
FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }
ssize_t write(int fd, const void* b, size_t n) { bind_real(); return g_on && of_fd(fd) ? sim_write(fd, b, n) : r_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k)
{
    bind_real();
    if (!(g_on && of_fd(fd))) return r_writev(fd, v, k);
    ssize_t tot = 0;
    for (int i = 0; i < k; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t) r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t read(int fd, void* b, size_t n) { bind_real(); return g_on && of_fd(fd) ? sim_read(fd, b, n) : r_read(fd, b, n); }
int close(int fd) { bind_real(); if (g_on && of_fd(fd)) { S->io_calls++; fdmap[fd] = 0; } return r_close(fd); }
int fclose(FILE* f)
{
    bind_real();
    auto r = r_fclose;
    if (g_on && f) {
        int fd = fileno(f);
        File* sf = of_fd(fd);
        if (sf) {
            S->io_calls++;
            point(PT_IO);
            fdmap[fd] = 0;
            bool ff = fault("close_eio");
            if (ff) sf->had_fault = true;
            int rc = r(f);
            if (ff) { errno = EIO; return EOF; }
            return rc;
        }
    }
    return r(f);
}
int fsync(int fd) { bind_real(); if (g_on && of_fd(fd)) { if (fault("fsync_eio")) { errno = EIO; return -1; } return 0; } return r_fsync(fd); }
int mkdir(const char* p, mode_t m)
{
    bind_real();
    if (!is_sim(p)) return r_mkdir(p, m);
    S->io_calls++;
    point(PT_IO);
    if (fault("mkdir")) { errno = EACCES; return -1; }
    if (find_file(p)) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    make_file(p, true);
    return 0;
}
int stat(const char* p, struct stat* st)
{
    bind_real();
    if (!is_sim(p)) return r_stat(p, st);
    S->io_calls++;
    File* f = find_file(p);
    if (!f) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    if (!f->dir) st->st_size = (off_t) file_size(p);
    return 0;
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*) st); }
int access(const char* p, int m) { bind_real(); if (!is_sim(p)) return r_access(p, m); if (find_file(p)) return 0; errno = ENOENT; return -1; }
int unlink(const char* p) { bind_real(); if (!is_sim(p)) return r_unlink(p); File* f = find_file(p); if (!f) { errno = ENOENT; return -1; } f->gone = true; return 0; }
int rename(const char* a, const char* b)
{
    bind_real();
    if (!is_sim(a)) return r_rename(a, b);
    File* f = find_file(a); File* g = find_file(b);
    if (!f) { errno = ENOENT; return -1; }
    if (g) g->gone = true;
    strncpy(f->path, b, sizeof f->path - 1);
    return 0;
}
} // extern C

// ================================================================ run entry
namespace sim {

static void at_exit_hook() { if (g_child && S && !g_done) final_oracle(); }
__attribute__((constructor(101))) static void early() { atexit(at_exit_hook); bind_real(); void* b[4]; backtrace(b, 4); }

extern void runner_stage(int);

void run_child(bool replay, const TE* te, int nte, const char (*names)[NAME_LEN], int nnames)
{
    g_child = true;
    // fatal signals
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    static const int sg[] = { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL };
    for (int s : sg) r_sigaction(s, &sa, nullptr);

    logfd = (int) sys(SYS_memfd_create, (long) "simlog", 0);
    sys(SYS_dup2, logfd, 1); sys(SYS_dup2, logfd, 2);

    const Plan& p = S->plan;
    g_replay = replay;
    uint32_t cap = 1024;
    while (cap < (uint32_t) nte * 4) cap *= 2;
    rtab = (RKey*) sys(SYS_mmap, 0, cap * sizeof(RKey), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rmask = cap - 1;
    S->nchoices = 0;
    if (replay) {
        for (int i = 0; i < nnames; ++i) counter(S->choices, S->nchoices, names[i]);
        rte = te; nrte = nte;
        for (int i = 0; i < nte; ++i) r_insert(te[i].kind, te[i].a, te[i].idx, te[i].val);
    }
    rs.seed((uint64_t) p.get("sch_seed", 1));
    rf.seed((uint64_t) p.get("sch_seed", 1) * 0x9E3779B97F4A7C15ull + 77);
    sch = (int) p.get("sch", 0); sch_n = p.get("sch_n", 50); sch_d = p.get("sch_d", 3); sch_k = p.get("sch_k", 1000);
    sch_mask = (uint32_t) p.get("sch_mask", 0x7f);
    ns_per_point = (uint64_t) p.get("ns_per_point", 0);
    sig_mean = (uint64_t) p.get("sig_mean", 0);
    cap_points = (uint64_t) p.get("cap_points", 3000000);
    cap_accs = (uint64_t) p.get("cap_accs", 200000000);
    if (sch == 1) new_gap();
    if (sch == 2) { nchg = sch_d > 16 ? 16 : (int) sch_d; for (int i = 0; i < nchg; ++i) chg[i] = 1 + rs.below((uint64_t) sch_k); }
    low_prio = -1;

    Thr* t = &thr[0];
    t->id = 0; t->own = 1; t->state = T_RUN; t->wake_at = ~0ull; t->next_ev = cap_accs;
    t->prio = replay ? 0 : (int64_t) (rs.next() >> 2);
    t->real = pthread_self();
    nthr = 1; cur = t; me = t;
    S->hash = 0xcbf29ce484222325ull; S->sched_hash = 0xcbf29ce484222325ull;
    if (const char* f = getenv("SIM_MIX")) mix_fd = (int) sys(SYS_dup2, sys(SYS_open, (long) f, O_WRONLY | O_CREAT | O_APPEND, 0644), 777);
    S->stage = 1;
    // The addresses of a run's allocations are the same whatever the parent has allocated: pointers
    // are hashed by the code under test.
    if (brk_ptr < ARENA + (512u << 20)) brk_ptr = ARENA + (512u << 20);
    g_on = true;
    the_prop.run(p);
    S->stage = 2;
    exit(0);
}
} // namespace sim
namespace sim {
void mpi_block(void* obj, uint64_t until)
{
    if (!simthr()) harness_error("MPI call blocks outside the simulation");
    block_on(obj, until, T_BLOCKED);
}
void mpi_wake(void* obj) { if (simthr()) wake_obj(obj, true); }
} // namespace sim
