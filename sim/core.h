// Internal state of the simulator core (not for workloads).
#pragma once
#include "sim.h"
#include <pthread.h>

namespace sim {

enum : uint32_t { PT_SYNC = 1, PT_ATOM = 2, PT_W = 4, PT_R = 8, PT_RO = 16, PT_USER = 32, PT_IO = 64 };
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_CRASH = 3, ST_HARNESS = 4 };

struct TE { // decision trace entry
    char     kind;   // S switch at point, B choice when blocked, V named choice/fault, G signal
    int16_t  a;      // S,B,G: thread id; V: name index
    uint64_t idx;    // S: thread-local point index; B: thread-local block index; V: occurrence; G: access index
    int64_t  val;    // target thread / value
};

enum { MAX_NAMES = 128, MAX_TE = 200000 };

struct Counter { char name[NAME_LEN]; uint64_t n; uint64_t occ; };

struct Shared {
    volatile int status;
    volatile int stage;      // 0 gen, 1 running, 2 exit handlers, 3 final oracle
    char     msg[2048];
    char     detail[2048];
    int      nbt;
    void*    bt[32];
    uint64_t hash, sched_hash;
    uint64_t points, accs, switches, sim_ns, nthreads, heap_bytes, io_calls;
    int      nchoices;  Counter choices[MAX_NAMES];  // named choices / faults
    int      nprobes;   Counter probes[MAX_NAMES];
    int      nte;       TE te[MAX_TE];
    int      te_overflow;
    Plan     plan;
};

extern Shared* S;

// called by the runner in the forked child
void run_child(bool replay, const TE* te, int nte, const char (*names)[NAME_LEN], int nnames);

void point(uint32_t kind);
struct Thr;
int  cur_tid_or(int d);
} // namespace sim
