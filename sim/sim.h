// Deterministic simulator for Caliper: interface used by the property workloads.
// One process image = one run; a single token decides which thread executes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim {

// ---------------------------------------------------------------- plan
// A run is fully described by a Plan (parameters + operations, derived from the
// seed by the property's generator) and by the decision trace (scheduler switches
// and injected faults).  Both are written to the replay file.
struct Op {
    int32_t th;    // logical thread of the workload
    int32_t kind;  // property specific
    int32_t a, b, c;
    int64_t v;
};

enum { MAX_PARAMS = 96, MAX_OPS = 16384, NAME_LEN = 40 };

struct Param { char name[NAME_LEN]; int64_t val; };

struct Plan {
    uint64_t seed;
    int      nparams;
    int      nops;
    Param    params[MAX_PARAMS];
    Op       ops[MAX_OPS];

    void    set(const char* name, int64_t v);
    int64_t get(const char* name, int64_t dflt = 0) const;
    void    add(int th, int kind, int a = 0, int b = 0, int c = 0, int64_t v = 0);
};

struct Rng {
    uint64_t s[2];
    void     seed(uint64_t x);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t  range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    bool     chance(unsigned num, unsigned den) { return below(den) < num; }
    uint64_t logrange(uint64_t lo, uint64_t hi); // log-uniform
};

// Chooses the schedule strategy for a run and stores it as parameters.
void gen_schedule(Rng& r, Plan& p, int approx_points);

struct PropDef {
    const char* id;
    void (*gen)(Rng&, Plan&);      // seed -> plan
    void (*run)(const Plan&);      // runs as simulated thread 0
    void (*at_end)(const Plan&);   // after process exit handlers and destructors (may be null)
};
extern PropDef the_prop; // defined by the property's translation unit

// ---------------------------------------------------------------- services for workloads
const Plan& plan();
int      tid();                       // simulated thread id
uint64_t now_ns();                    // simulated monotonic clock
void     advance_ns(uint64_t ns);     // the calling thread "computes" for ns
uint64_t tick();                      // strictly increasing event stamp (no time passes)
void     yield();                     // explicit scheduling point
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void crash_now();        // simulated process crash: runs at_end() and stops
void     probe(const char* name, uint64_t n = 1);      // "this was reached" counter
void     observe(uint64_t v);         // folds an observation into the run hash
void     observe(const char* s);
// Fault decision: true with the probability configured by plan param "f_<name>"
// (parts per million); counted as injected.
bool     fault(const char* name);
uint64_t choice(const char* name, uint64_t n); // decided value in [0,n), recorded
uint64_t faults_injected();           // total so far in this run
void     faults_off();                // stop injecting (liveness phase)
void     set_clock_offset(int64_t ns);// realtime = monotonic + offset

struct NoFaults { NoFaults(); ~NoFaults(); };    // no I/O or other faults for this thread inside
uint64_t my_hard_faults();            // faults that make a call of this thread fail
int      open_files();                // descriptors of simulated files
struct NoPreempt { NoPreempt(); ~NoPreempt(); };  // harness bookkeeping: no points inside

// in-memory file system under /sim/
bool     file_exists(const char* path);
size_t   file_size(const char* path);
size_t   file_read(const char* path, char* buf, size_t cap);
void     file_put(const char* path, const void* data, size_t n);
void     file_remove(const char* path); // and the directories created for it
size_t   file_write_calls(const char* path);
bool     file_had_fault(const char* path);
// captured stdout+stderr of the run
size_t   log_read(char* buf, size_t cap);
void     file_at(int i, char* path, size_t cap); // enumerate: empty string when past the end

// heap inspection
bool     heap_addressable(const void* p, size_t n);
uint64_t heap_live_bytes();

// signals
void     signals_arm(bool on);        // allow delivery of simulated timer signals
int      timers_active();             // existing timers (armed or not)
bool     timer_of(int tid);           // some timer still signals this thread
uint64_t signals_delivered();
} // namespace sim
