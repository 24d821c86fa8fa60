// C08: threads may come and go.
#include "model.h"
#include "seqtrace.h"
using namespace sim;

enum { SPAWN, JOIN, FLUSH, CLEAR, PUSH, B, E, ST, WRITE, TOGGLE, NOPS };
enum { IDLE, USER, OPEN, LATE, EARLY, NESTED, LATEONLY, NKINDS };

static void gen(Rng& r, Plan& p)
{
    p.set("both", r.chance(1, 2)); p.set("event", r.chance(1, 3)); p.set("timer", r.chance(1, 3)); p.set("stat", r.chance(1, 5));
    p.set("second", r.chance(1, 3)); // a second, aggregating channel
    p.set("writer", r.chance(1, 3)); // one thread flushes while others end
    int nops = (int) r.range(4, 34), left = (int) r.range(1, 12);
    p.set("clearing", r.chance(1, 3));
    bool toggle = r.chance(1, 3);    // channels are inactive at times, also when threads start and end
    for (int i = 0; i < nops; ++i) {
        int k = (int) r.below(toggle ? 18 : 16);
        k = k < 6 ? SPAWN : k < 8 ? JOIN : k < 10 ? FLUSH : k == 10 ? CLEAR : k == 11 ? PUSH : k == 12 ? B : k == 13 ? E : k == 14 ? ST : k == 15 ? WRITE : TOGGLE;
        if (k == SPAWN && left-- <= 0) k = JOIN;
        if (k == CLEAR && !p.get("clearing")) k = FLUSH;
        p.add(0, k, (int) r.below(NKINDS), (int) r.below(64), (int) r.range(1, 9), (int64_t) r.below(1000));
    }
    gen_schedule(r, p, nops * 300);
}

static std::vector<AttrDef> defs;
static SeqTrace tr;
static Channel agg;
struct Life { int created = 0, released = 0; uint64_t after = 0; bool used = false, ended = false; };
static std::map<int, Life> life[2];
static uint64_t agg_taken, agg_may_drop; // snapshots during a flush may be dropped
static int agg_flushing; static uint64_t agg_epoch; static thread_local uint64_t my_epoch;
static bool agg_cleared;
static std::atomic<int> live;

static void watch(Channel ch, int i)
{
    ch.events().create_thread_evt.connect([i](Caliper*, Channel*) {
        NoPreempt np;
        Life& l = life[i][tid()];
        if (++l.created > 1) fail("thread start is notified twice for one thread");
        if (l.released) fail("thread start is notified after the thread's end");
    });
    ch.events().release_thread_evt.connect([i](Caliper*, Channel*) {
        NoPreempt np;
        Life& l = life[i][tid()];
        if (++l.released > 1) fail("thread end is notified twice for one thread");
        if (!l.created && tid() != 0) fail("thread end is notified for a thread whose start wasn't");
        if (!l.used) fail("thread end is notified on a thread that does not use the library");
        probe("released");
    });
    if (i == 1) ch.events().snapshot.connect([](Caliper*, SnapshotView, SnapshotBuilder&) { NoPreempt np; my_epoch = agg_flushing ? ~0ull : agg_epoch; });
    ch.events().process_snapshot.connect([i](Caliper*, SnapshotView, SnapshotView) {
        NoPreempt np;
        Life& l = life[i][tid()];
        if (l.released) fail("snapshot on a thread that has ended");
        if (tid() != 0 && !l.created) fail("snapshot on a thread whose start was not notified");
        if (i == 1) { ++agg_taken; if (my_epoch != agg_epoch) ++agg_may_drop; }
    });
}

static void use(int i) { NoPreempt np; life[0][tid()].used = life[1][tid()].used = true; (void) i; }

static void ended_calls(bool effect, int v)
{
    // calls from a thread-local object's destructor
    uint64_t n0, a0;
    { NoPreempt np; n0 = tr.observed; a0 = agg_taken; }
    (void) n0; (void) a0; (void) effect;
    Caliper c;
    c.begin(defs[v % defs.size()].attr, make_value(defs[v % defs.size()].type, v));
    cali_begin_region("late");
    Variant seqv(cali_make_variant_from_uint(~0ull));
    Entry e(defs[0].attr, make_value(defs[0].type, 3));
    c.push_snapshot(tr.chn.body(), SnapshotView(e));
    cali_end_region("late");
    c.end(defs[v % defs.size()].attr);
    c.set(defs[v % defs.size()].attr, make_value(defs[v % defs.size()].type, v));
    c.get(defs[0].attr);
    c.create_attribute("late.attr", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    c.make_tree_entry(defs[0].attr, make_value(defs[0].type, v));
    probe("tls_destructor_calls");
}
struct TlsUser {
    int mode = 0, v = 0;
    ~TlsUser()
    {
        if (mode == 1) ended_calls(false, v);
        if (mode == 2) ended_calls(true, v);
    }
};

static void short_thread(int kind, int sel, int n, int64_t v);

static std::mutex spawn_mutex;
static int nspawned;

static void work(Caliper& c, ThreadModel& m, int kind, int sel, int n, int64_t v)
{
    {
        FixedSizeSnapshotRecord<120> s;
        c.pull_snapshot(tr.chn.body(), SnapshotView(), s.builder());
        NoPreempt np;
        check_record(m, decode(c, s.view()), "new thread");
    }
    int me; { NoPreempt np; me = tid(); }
    for (int i = 0; i < n; ++i) {
        int d = (int) ((sel + i * 7) % (int) defs.size());
        switch ((sel + i * 3 + v) % 5) {
        case 0: case 1: c.begin(defs[d].attr, make_value(defs[d].type, v + i)); { NoPreempt np; m.begin(d, v + i); } break;
        case 2: { NoPreempt np; if (!m.can_end(d)) { if (m.region.empty()) d = -1; else d = m.region.back().first; } } if (d < 0) break; c.end(defs[d].attr); { NoPreempt np; m.end(d); } break;
        case 3: c.set(defs[d].attr, make_value(defs[d].type, v)); { NoPreempt np; m.set(d, v); } break;
        default: break;
        }
        tr.snap(c, me);
        if (agg) { c.push_snapshot(agg.body(), SnapshotView()); }
    }
    if (kind != OPEN) {
        for (;;) { int d; { NoPreempt np; if (m.region.empty()) break; d = m.region.back().first; } c.end(defs[d].attr); { NoPreempt np; m.end(d); } }
        for (;;) { int d; { NoPreempt np; if (m.unaligned.empty()) break; d = m.unaligned.back().first; } c.end(defs[d].attr); { NoPreempt np; m.end(d); } }
        for (;;) { int d; { NoPreempt np; if (m.imm.empty()) break; d = m.imm.begin()->first; } c.end(defs[d].attr); { NoPreempt np; m.end(d); } }
    } else probe("exit_with_open_regions");
    FixedSizeSnapshotRecord<120> s;
    c.pull_snapshot(tr.chn.body(), SnapshotView(), s.builder());
    NoPreempt np;
    check_record(m, decode(c, s.view()), "short-lived thread");
}

static void short_thread(int kind, int sel, int n, int64_t v)
{
    static thread_local TlsUser first;   // constructed before the library's thread data, destroyed after it
    static thread_local TlsUser second;  // the other way round
    switch (kind) {
    case IDLE: for (int i = 0; i < n; ++i) yield(); probe("idle_threads"); return;
    case LATE: first.mode = 1; first.v = (int) v; break;
    case LATEONLY: use(0); second.mode = 2; second.v = (int) v; probe("used_only_in_destructor"); return; // first use of the library is in a destructor
    default: break;
    }
    use(0);
    Caliper c;
    if (kind == EARLY) { second.mode = 2; second.v = (int) v; }
    ThreadModel m; m.defs = &defs;
    std::thread kid;
    if (kind == NESTED) kid = std::thread([=] { short_thread(USER, sel + 1, n, v + 1); });
    work(c, m, kind, sel, n, v);
    if (kid.joinable()) { kid.join(); FixedSizeSnapshotRecord<120> s; c.pull_snapshot(tr.chn.body(), SnapshotView(), s.builder()); NoPreempt np; check_record(m, decode(c, s.view()), "after nested thread"); }
    probe("threads");
}

static uint64_t agg_total(Caliper& c, const char* what)
{
    uint64_t n = 0;
    { NoPreempt np; ++agg_flushing; ++agg_epoch; }
    c.flush(agg.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { NoPreempt np; int64_t x = kv_int(decode(db, rec), "count", -1); if (x < 1) fail("%s: aggregated record without count", what); n += (uint64_t) x; });
    { NoPreempt np; --agg_flushing; }
    return n;
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper c;
    use(0);
    for (int i = 0; i < 6; ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 3 ? K_UNALIGNED : i == 5 ? K_VALUE : i == 4 ? K_PLAIN : K_NESTED; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        defs.push_back(d);
    }
    std::string s = "trace";
    if (p.get("both")) s += ",aggregate";
    if (p.get("event")) s += ",event";
    if (p.get("timer")) s += ",timer";
    if (p.get("stat")) s += ",statistics";
    Channel t = make_channel("t", { { "CALI_SERVICES_ENABLE", s }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
    tr.attach(c, t);
    watch(t, 0);
    if (p.get("second")) {
        agg = make_channel("a", { { "CALI_SERVICES_ENABLE", "aggregate,event" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
        watch(agg, 1);
    }
    bool both = p.get("both");
    auto flush = [&](const char* what) {
        SeqTrace::Output o;
        tr.out_begin(o);
        c.flush(tr.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) {
            if (both) { NoPreempt np; KVs kv = decode(db, rec); if (find_kv(kv, "aggregate.slot")) return; }
            tr.out_rec(o, db, rec, what);
        });
        tr.out_end(o, what);
        size_t own = o.got.size();
        return own + o.foreign;
    };
    ThreadModel m; m.defs = &defs;
    std::deque<std::thread> th;
    uint64_t heap0 = heap_live_bytes(); size_t nthreads = 0, nsnap0 = 0; (void) nsnap0;
    std::thread writer; std::mutex wm; std::condition_variable wcv; bool wstop = false;
    if (p.get("writer")) writer = std::thread([&] { for (int i = 0; i < 3; ++i) { { std::lock_guard<std::mutex> g(wm); if (wstop) break; } use(0); Caliper wc; SeqTrace::Output o; tr.out_begin(o);
            wc.flush(tr.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { if (both) { NoPreempt np; KVs kv = decode(db, rec); if (find_kv(kv, "aggregate.slot")) return; } tr.out_rec(o, db, rec, "concurrent output"); });
            tr.out_end(o, "concurrent output"); } });
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        int d = o.b % (int) defs.size();
        switch (o.kind) {
        case SPAWN: ++nthreads; if (o.a == NESTED) ++nthreads; th.emplace_back([o] { short_thread(o.a, o.b, o.c, o.v); }); break;
        case JOIN: if (!th.empty()) { size_t k = o.b % th.size(); th[k].join(); th.erase(th.begin() + k); } break;
        case FLUSH: flush("output"); break;
        case CLEAR: tr.clear(c); if (agg) { agg_cleared = true; c.clear(&agg); } break;
        case PUSH: tr.snap(c, 0); break;
        case B: c.begin(defs[d].attr, make_value(defs[d].type, o.v)); m.begin(d, o.v); break;
        case E: if (!m.can_end(d)) { if (m.region.empty()) break; d = m.region.back().first; } c.end(defs[d].attr); m.end(d); break;
        case ST: c.set(defs[d].attr, make_value(defs[d].type, o.v)); m.set(d, o.v); break;
        case TOGGLE: { Channel ch = agg && o.a % 2 ? agg : tr.chn; if (ch.is_active()) { c.deactivate_channel(ch); probe("deactivated"); } else c.activate_channel(ch); break; }
        case WRITE: if (agg) agg_total(c, "aggregation output"); break;
        }
    }
    for (auto& x : th) x.join();
    if (writer.joinable()) { { std::lock_guard<std::mutex> g(wm); wstop = true; } writer.join(); ++nthreads; }
    FixedSizeSnapshotRecord<120> sr;
    c.pull_snapshot(tr.chn.body(), SnapshotView(), sr.builder());
    { NoPreempt np; check_record(m, decode(c, sr.view()), "main thread after others ended"); }
    flush("output after all threads ended");
    for (int i = 0; i < (agg ? 2 : 1); ++i)
        for (auto& l : life[i]) {
            if (l.first == 0) { if (l.second.released) fail("thread end of the main thread is notified while it runs"); continue; }
            if (l.second.used && l.second.created != 1) fail("thread start was notified %d times", l.second.created);
            if (l.second.used && l.second.released != 1) fail("thread end was notified %d times", l.second.released);
        }
    if (agg) {
        uint64_t n = agg_total(c, "final aggregation output");
        if (agg_cleared ? n > agg_taken : n > agg_taken || n + agg_may_drop < agg_taken) fail("%" PRIu64 " snapshots were aggregated, but %" PRIu64 " are in the output after the threads ended", agg_taken, n);
    }
    // nothing of the ended threads remains
    tr.clear(c);
    if (agg) c.clear(&agg);
    if (flush("output after clear")) fail("records of ended threads remain after a clear");
    if (agg && agg_total(c, "output after clear")) fail("aggregated snapshots of ended threads remain after a clear");
    uint64_t grown = heap_live_bytes() > heap0 ? heap_live_bytes() - heap0 : 0;
    if (grown > 1500000 + nthreads * 400000) fail("%" PRIu64 " bytes are still allocated after %zu threads ended and the data was cleared", grown, nthreads);
}

PropDef sim::the_prop = { "C08", gen, run, nullptr };
