// Runner: turns seeds into runs (one forked child per run), verifies that
// violations repeat, writes replay files and a summary.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static double wall()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void reset_shared()
{
    S->status = 0; S->stage = 0; S->msg[0] = 0; S->detail[0] = 0; S->nbt = 0;
    S->hash = S->sched_hash = 0;
    S->points = S->accs = S->switches = S->sim_ns = S->nthreads = S->heap_bytes = S->io_calls = 0;
    memset(S->choices, 0, sizeof(Counter) * (S->nchoices + 1)); S->nchoices = 0;
    memset(S->probes, 0, sizeof(Counter) * (S->nprobes + 1)); S->nprobes = 0;
    S->nte = 0; S->te_overflow = 0;
}

struct Replay { TE* te; int nte; char (*names)[NAME_LEN]; int nnames; bool regen; };

static int g_timeout_s = 30;

// runs S->plan in a child; returns status
static int run_one(const Replay* rp)
{
    reset_shared();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 5 * g_timeout_s;
        // the limit is on processor time; a waiting run gets more, as the machine may be busy
        struct rlimit rl = { (rlim_t) g_timeout_s, (rlim_t) g_timeout_s + 5 };
        setrlimit(RLIMIT_CPU, &rl);
        setitimer(ITIMER_REAL, &it, nullptr);
        run_child(rp != nullptr, rp ? rp->te : nullptr, rp ? rp->nte : 0, rp ? rp->names : nullptr, rp ? rp->nnames : 0);
        _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == ST_RUNNING && WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) {
        S->status = ST_VIOLATION; S->hash = S->sched_hash = 1;
        snprintf(S->msg, sizeof S->msg, "no progress: run exceeded the %s limit (%d s) outside simulated code, stage %d", WTERMSIG(st) == SIGXCPU ? "processor time" : "wall-clock", g_timeout_s * (WTERMSIG(st) == SIGXCPU ? 1 : 5), S->stage);
    } else if (S->status == ST_RUNNING && WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGBUS)) {
        S->status = ST_CRASH; S->hash = S->sched_hash = 1;
        snprintf(S->msg, sizeof S->msg, "process died with signal %d (unhandled), stage %d", WTERMSIG(st), S->stage);
    } else if (S->status == ST_RUNNING) {
        S->status = ST_HARNESS;
        snprintf(S->msg, sizeof S->msg, "run ended without a verdict (wait status 0x%x%s, stage %d) %s", st, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? ": wall-clock limit" : "", S->stage, S->detail);
    }
    return S->status;
}

static void gen(uint64_t seed)
{
    memset(&S->plan, 0, offsetof(Plan, ops));
    S->plan.seed = seed;
    Rng r;
    r.seed(seed * 0x2545F4914F6CDD1Dull + 12345);
    the_prop.gen(r, S->plan);
}

static void esc(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static const char* stname(int s) { return s == ST_OK ? "ok" : s == ST_VIOLATION ? "violation" : s == ST_CRASH ? "crash" : "harness"; }

static void dump(FILE* f)
{
    fprintf(f, "# Deterministic-simulation replay: plan (parameters and operations) and decision trace.\n");
    fprintf(f, "prop %s\nseed %llu\n", the_prop.id, (unsigned long long) S->plan.seed);
    fprintf(f, "expect %s %016llx %s\n", stname(S->status), (unsigned long long) S->hash, S->msg);
    for (int i = 0; i < S->plan.nparams; ++i) fprintf(f, "param %s %lld\n", S->plan.params[i].name, (long long) S->plan.params[i].val);
    for (int i = 0; i < S->plan.nops; ++i) {
        const Op& o = S->plan.ops[i];
        fprintf(f, "op %d %d %d %d %d %lld\n", o.th, o.kind, o.a, o.b, o.c, (long long) o.v);
    }
    if (S->te_overflow) { fprintf(f, "regen 1\n"); return; } // too long a trace: the decisions are drawn again from the seed
    for (int i = 0; i < S->nchoices; ++i) fprintf(f, "name %d %s\n", i, S->choices[i].name);
    for (int i = 0; i < S->nte; ++i) fprintf(f, "t %c %d %llu %lld\n", S->te[i].kind, S->te[i].a, (unsigned long long) S->te[i].idx, (long long) S->te[i].val);
}

static bool load(const char* path, Replay& rp)
{
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); return false; }
    memset(&S->plan, 0, offsetof(Plan, ops));
    rp.te = (TE*) calloc(MAX_TE, sizeof(TE)); rp.nte = 0; rp.regen = false;
    rp.names = (char (*)[NAME_LEN]) calloc(MAX_NAMES, NAME_LEN); rp.nnames = 0;
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
        unsigned long long u; long long v; char nm[64]; Op o; char k; int a;
        if (sscanf(line, "seed %llu", &u) == 1) S->plan.seed = u;
        else if (sscanf(line, "param %39s %lld", nm, &v) == 2) S->plan.set(nm, v);
        else if (sscanf(line, "op %d %d %d %d %d %lld", &o.th, &o.kind, &o.a, &o.b, &o.c, &v) == 6) { o.v = v; if (S->plan.nops < MAX_OPS) S->plan.ops[S->plan.nops++] = o; }
        else if (!strncmp(line, "regen", 5)) rp.regen = true;
        else if (sscanf(line, "name %d %39s", &a, nm) == 2) { if (a >= 0 && a < MAX_NAMES) { strncpy(rp.names[a], nm, NAME_LEN - 1); if (a >= rp.nnames) rp.nnames = a + 1; } }
        else if (sscanf(line, "t %c %d %llu %lld", &k, &a, &u, &v) == 4) { if (rp.nte < MAX_TE) { rp.te[rp.nte].kind = k; rp.te[rp.nte].a = (int16_t) a; rp.te[rp.nte].idx = u; rp.te[rp.nte].val = v; rp.nte++; } }
    }
    fclose(f);
    return true;
}

// small open-addressing set
struct Set64 {
    uint64_t* t; size_t cap, n;
    Set64() { cap = 1 << 16; n = 0; t = (uint64_t*) mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    bool add(uint64_t v)
    {
        if (!v) v = 1;
        if (n * 2 > cap) grow();
        size_t i = (v * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
        while (t[i]) { if (t[i] == v) return false; i = (i + 1) & (cap - 1); }
        t[i] = v; ++n; return true;
    }
    void grow()
    {
        uint64_t* o = t; size_t oc = cap;
        cap *= 4; n = 0;
        t = (uint64_t*) mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < oc; ++i) if (o[i]) add(o[i]);
        munmap(o, oc * 8);
    }
};

// messages with digits removed identify a kind of violation
static void norm(const char* m, char* o, size_t cap)
{
    size_t k = 0;
    for (; *m && k + 1 < cap && k < 90; ++m) { if (*m >= '0' && *m <= '9') continue; o[k++] = *m; }
    o[k] = 0;
}
struct Kind { char m[128]; int n; bool known; };
static Kind kinds[64]; static int nkinds;
static char known[64][256]; static int nknown;
struct Agg { char name[NAME_LEN]; uint64_t n, runs; };
static Agg aggc[MAX_NAMES], aggp[MAX_NAMES]; static int nac, nap;
static void agg(Agg* a, int& n, const char* name, uint64_t v)
{
    if (!v) { /* still register the name */ }
    for (int i = 0; i < n; ++i) if (!strcmp(a[i].name, name)) { a[i].n += v; a[i].runs += v > 0; return; }
    if (n < MAX_NAMES) { strncpy(a[n].name, name, NAME_LEN - 1); a[n].n = v; a[n].runs = v > 0; ++n; }
}
static void print_agg(const char* key, Agg* a, int n)
{
    printf(",\"%s\":{", key);
    for (int i = 0; i < n; ++i) { printf("%s", i ? "," : ""); esc(stdout, a[i].name); printf(":[%llu,%llu]", (unsigned long long) a[i].n, (unsigned long long) a[i].runs); }
    printf("}");
}
static void print_bt()
{
    printf(",\"bt\":[");
    for (int i = 0; i < S->nbt; ++i) printf("%s\"%p\"", i ? "," : "", S->bt[i]);
    printf("]");
}

int main(int argc, char** argv)
{
    // stable addresses (best effort; run hashes do not depend on addresses)
    if (!getenv("SIM_NOPERS")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOPERS", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const char* mode = argc > 1 ? argv[1] : "";
    uint64_t s0 = 1, s1 = 100, step = 1; double budget = 1e9; const char* vdir = "."; int cpu = -1, maxv = 12, dbl = 16;
    const char* file = nullptr; const char* out = nullptr;
    for (int i = 2; i < argc; ++i) {
        if (!strcmp(argv[i], "--seeds")) { s0 = strtoull(argv[++i], 0, 0); s1 = strtoull(argv[++i], 0, 0); }
        else if (!strcmp(argv[i], "--step")) step = strtoull(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--vdir")) vdir = argv[++i];
        else if (!strcmp(argv[i], "--cpu")) cpu = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--maxviol")) maxv = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--double")) dbl = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--timeout")) g_timeout_s = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--known")) { if (nknown < 64) strncpy(known[nknown++], argv[++i], 255); }
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else file = argv[i];
    }
    {
        // every run hands one token between its threads: one processor is fastest
        cpu_set_t av, one; CPU_ZERO(&av); sched_getaffinity(0, sizeof av, &av);
        int n = CPU_COUNT(&av);
        if (cpu >= 0 && n > 0) {
            int k = cpu % n;
            for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &av) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
    }
    if (!strcmp(mode, "replay")) {
        Replay rp; if (!file || !load(file, rp)) return 3;
        int st = run_one(rp.regen ? nullptr : &rp);
        printf("{\"status\":\"%s\",\"hash\":\"%016llx\",\"msg\":", stname(st), (unsigned long long) S->hash);
        esc(stdout, S->msg); printf(",\"detail\":"); esc(stdout, S->detail); print_bt(); printf("}\n");
        if (out) { FILE* f = fopen(out, "w"); dump(f); fclose(f); }
        return 0;
    }
    if (!strcmp(mode, "dump")) {
        gen(s0);
        int st = run_one(nullptr);
        FILE* f = out ? fopen(out, "w") : stdout;
        dump(f);
        if (f != stdout) fclose(f);
        fprintf(stderr, "%s %s\n", stname(st), S->msg);
        return 0;
    }
    if (strcmp(mode, "run")) { fprintf(stderr, "usage: run|replay|dump\n"); return 3; }

    double t0 = wall();
    uint64_t runs = 0, points = 0, accs = 0, switches = 0, simns = 0, io = 0, viol = 0, harness = 0, dchecked = 0, dmism = 0, nfaulty = 0, last = s0, over = 0, reruns = 0, maxpts = 0, nknownhits = 0;
    uint64_t schn[3] = { 0, 0, 0 };
    Set64 scheds, hashes;
    for (uint64_t s = s0; s < s1; s += step) {
        if (wall() - t0 > budget) break;
        gen(s);
        int st = run_one(nullptr);
        ++runs; last = s;
        points += S->points; accs += S->accs; switches += S->switches; simns += S->sim_ns; io += S->io_calls; over += S->te_overflow;
        if (S->points > maxpts) maxpts = S->points;
        scheds.add(S->sched_hash); hashes.add(S->hash);
        schn[S->plan.get("sch", 0) % 3]++;
        uint64_t inj = 0;
        for (int i = 0; i < S->nchoices; ++i) { agg(aggc, nac, S->choices[i].name, S->choices[i].n); if (S->choices[i].name[0] == 'f') inj += S->choices[i].n; }
        for (int i = 0; i < S->nprobes; ++i) agg(aggp, nap, S->probes[i].name, S->probes[i].n);
        nfaulty += inj > 0;
        bool bad = st != ST_OK;
        Kind* kd = nullptr;
        if (bad) {
            char nb[128]; norm(S->msg, nb, sizeof nb);
            for (int i = 0; i < nkinds; ++i) if (!strcmp(kinds[i].m, nb)) kd = &kinds[i];
            if (!kd) {
                kd = &kinds[nkinds < 63 ? nkinds++ : 63]; memset(kd, 0, sizeof *kd); strcpy(kd->m, nb);
                for (int i = 0; i < nknown; ++i) if (strstr(S->msg, known[i])) kd->known = true;
            }
            kd->n++;
            if (kd->n > (kd->known ? 1 : 3)) { if (kd->known) ++nknownhits; else ++viol; if (viol + harness >= (uint64_t) maxv) break; continue; }
            if (kd->known) ++nknownhits;
        }
        if (bad || (dbl && runs % dbl == 0)) {
            uint64_t h = S->hash; static char m[2048]; memcpy(m, S->msg, sizeof m);
            char path[512] = "";
            if (bad) { snprintf(path, sizeof path, "%s/%s-%llu.replay", vdir, the_prop.id, (unsigned long long) s); FILE* f = fopen(path, "w"); if (f) { dump(f); fclose(f); } }
            int st2 = run_one(nullptr);
            ++reruns; ++dchecked;
            bool same = st2 == st && S->hash == h && !strcmp(m, S->msg);
            if (!same) ++dmism;
            if (bad) {
                if (st == ST_HARNESS) ++harness; else if (!kd->known) ++viol;
                printf("{\"ev\":\"%s\",\"seed\":%llu,\"repeat\":%d,\"file\":", stname(st), (unsigned long long) s, (int) same);
                esc(stdout, path); printf(",\"msg\":"); esc(stdout, m);
                printf(",\"msg2\":"); esc(stdout, same ? "" : S->msg);
                print_bt(); printf("}\n"); fflush(stdout);
                if (viol + harness >= (uint64_t) maxv) break;
            } else if (!same) {
                printf("{\"ev\":\"nondet\",\"seed\":%llu,\"h1\":\"%016llx\",\"h2\":\"%016llx\"}\n", (unsigned long long) s, (unsigned long long) h, (unsigned long long) S->hash);
            }
        }
    }
    printf("{\"ev\":\"summary\",\"runs\":%llu,\"reruns\":%llu,\"last_seed\":%llu,\"wall\":%.3f,\"points\":%llu,\"max_points\":%llu,\"accs\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"io_calls\":%llu,\"known_hits\":%llu,\"violations\":%llu,\"harness\":%llu,\"double_checked\":%llu,\"double_mismatch\":%llu,\"faulty_runs\":%llu,\"te_overflow\":%llu,\"serial\":%llu,\"walk\":%llu,\"pct\":%llu",
        (unsigned long long) runs, (unsigned long long) reruns, (unsigned long long) last, wall() - t0, (unsigned long long) points, (unsigned long long) maxpts, (unsigned long long) accs, (unsigned long long) switches, (unsigned long long) simns, (unsigned long long) io,
        (unsigned long long) nknownhits, (unsigned long long) viol, (unsigned long long) harness, (unsigned long long) dchecked, (unsigned long long) dmism, (unsigned long long) nfaulty, (unsigned long long) over, (unsigned long long) schn[0], (unsigned long long) schn[1], (unsigned long long) schn[2]);
    print_agg("choices", aggc, nac);
    print_agg("probes", aggp, nap);
    printf(",\"sched\":[");
    bool first = true;
    for (size_t i = 0; i < scheds.cap; ++i) if (scheds.t[i]) { printf("%s\"%llx\"", first ? "" : ",", (unsigned long long) scheds.t[i]); first = false; }
    printf("],\"nhash\":%zu}\n", hashes.n);
    return 0;
}
