// C12: flushing and clearing while other threads take snapshots.
#include "model.h"
#include <sstream>
using namespace sim;

enum { SNAP_T, SNAP_A, BEGIN, END, FLUSH_T, FLUSH_A, CLEAR_T, CLEAR_A, SPAWN, REPORT, NOPS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, r.chance(1, 4) ? 4 : 2);
    p.set("nth", nth);
    p.set("clears", r.chance(1, 2));
    p.set("keys", r.range(1, 6));
    p.set("kills", r.range(0, 2)); // short-lived threads per SPAWN
    p.set("pol", r.chance(1, 4) ? 2 : 0);
    p.set("post", r.chance(1, 3));
    int nops = (int) r.range(3, r.chance(1, 4) ? 50 : 20);
    unsigned w[NOPS] = { 30, 30, 6, 5, 6, 6, 3, 3, (unsigned) (r.chance(1, 3) ? 3 : 0), (unsigned) (r.chance(1, 3) ? 4 : 0) };
    if (r.chance(1, 3)) { w[FLUSH_T] = w[FLUSH_A] = 14; }
    if (r.chance(1, 4)) { w[SNAP_A] = 0; w[FLUSH_A] = 0; w[CLEAR_A] = 0; w[REPORT] = 0; }
    else if (r.chance(1, 4)) { w[SNAP_T] = 0; w[FLUSH_T] = 0; w[CLEAR_T] = 0; }
    if (!p.get("clears")) w[CLEAR_T] = w[CLEAR_A] = 0;
    int flusher = r.chance(1, 2) ? -1 : 0; // only the main thread flushes, or everybody
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            if (flusher == 0 && t && ((k >= FLUSH_T && k <= CLEAR_A) || k == REPORT)) k = w[SNAP_T] ? SNAP_T : SNAP_A;
            if (k == SPAWN && t) k = BEGIN;
            p.add(t, k, (int) r.below(64), (int) r.below(r.chance(1, 8) ? 60 : 6), (int) r.below(64), (int64_t) (r.next() >> 1));
        }
    gen_schedule(r, p, nth * nops * 120);
}

typedef std::vector<Entry> Rec;
static bool same(const Rec& a, const Rec& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].node() != b[i].node()) return false;
        if (a[i].is_immediate() && !(a[i].value() == b[i].value())) return false;
    }
    return true;
}

// What is known about one snapshot in one channel
struct Snap {
    int th; uint64_t n; int key; Rec rec, early; bool seen = false;
    uint64_t t0 = 0, t1 = 0;          // push started / returned (0: not yet)
    bool overlap = false;             // a flush or clear ran at some moment of the push
    bool present = false;             // was in some output
    bool absent = false;              // was missing in an output that started after the push
    bool cleared = false;             // completed before a clear started
    bool maybe_cleared = false;       // overlaps a clear
};
struct Span { uint64_t t0, t1; };
struct Side {
    Channel chn; bool agg;
    std::deque<Snap> snaps;
    int flushing = 0;                 // flushes and clears in progress
    std::set<Snap*> open;             // pushes in progress
    std::vector<uint64_t> clear_ends; // end ticks of clears
};
static Side side[2];
static Attribute seq_attr, key_attr, val_attr, post_attr, pad[4];
static std::vector<AttrDef> refs;
static thread_local int my_id = -1;
static int uid = 0;

static void busy_begin(Side& s, bool clear)
{
    ++s.flushing;
    for (Snap* x : s.open) { x->overlap = true; if (clear) x->maybe_cleared = true; }
}

static void on_snapshot(Caliper* c, SnapshotView rec)
{
    NoPreempt np;
    Entry e = rec.get_immediate_entry(seq_attr);
    if (e.empty() || e.value().to_uint() >= side[0].snaps.size()) harness_error("sequence number");
    Snap& s = side[0].snaps[e.value().to_uint()];
    s.rec.assign(rec.begin(), rec.end());
    s.seen = true;
    if (!s.early.empty() && !same(s.rec, s.early)) fail("a flushed record differs from the snapshot taken %s", show(decode(*c, s.rec)).c_str());
}

// Post-processing adds an entry to each record: twice the sequence number or key
static void on_postprocess(Caliper*, Rec& rec, Attribute by)
{
    uint64_t v = 1;
    for (auto& e : rec) if (e.node() == by.node()) v = e.value().to_uint() * 2;
    Rec r(rec);                      // (a point at which other threads can run)
    r.push_back(Entry(post_attr, cali_make_variant_from_uint(v)));
    rec = r;
}

// Checks and removes the entry added by post-processing
static Rec without_post(CaliperMetadataAccessInterface& db, const Rec& rec, Attribute by, const char* what)
{
    if (!plan().get("post")) return rec;
    Rec r(rec); uint64_t v = 1;
    for (auto& e : r) if (e.node() == by.node()) v = e.value().to_uint() * 2;
    if (r.empty() || r.back().node() != post_attr.node() || r.back().value().to_uint() != v) fail("%s: record was not post-processed correctly: %s", what, show(decode(db, rec)).c_str());
    r.pop_back();
    return r;
}

static std::set<Snap*> clearing_now[2];
static int clears_active[2];

static void snap(Caliper& c, int ci, int n, int key, uint64_t v)
{
    Side& s = side[ci];
    Snap* me;
    FixedSizeSnapshotRecord<80> trg;
    {
        NoPreempt np;
        if (my_id < 0) my_id = uid++;
        static std::map<std::pair<int, int>, uint64_t> count;
        s.snaps.push_back(Snap());
        me = &s.snaps.back();
        me->th = my_id; me->n = ++count[{ ci, my_id }]; me->key = key; me->t0 = tick();
        me->overlap = s.flushing > 0;
        me->maybe_cleared = clears_active[ci] > 0;
        s.open.insert(me);
        if (ci == 0) {
            trg.builder().append(seq_attr, cali_make_variant_from_uint(s.snaps.size() - 1));
            for (int i = 0; i < n; ++i) trg.builder().append(pad[i & 3], cali_make_variant_from_uint(v >> (i & 63)));
        } else {
            trg.builder().append(key_attr, Variant(key));
            trg.builder().append(val_attr, Variant(key * 3 + 1));
        }
    }
    c.push_snapshot(s.chn.body(), trg.view());
    NoPreempt np;
    me->t1 = tick();
    s.open.erase(me);
}

// A flush of the trace channel
static void flush_trace(Caliper& c, const char* what)
{
    Side& s = side[0];
    uint64_t t0;
    std::set<Snap*> must, may;       // complete and not cleared when the flush starts
    { NoPreempt np; t0 = tick(); busy_begin(s, false); for (Snap& x : s.snaps) if (x.t1 && !x.cleared) (void) must.insert(&x); }
    std::set<Snap*> got; std::map<int, uint64_t> last;
    c.flush(s.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& full) {
        NoPreempt np;
        const Entry* e = nullptr;
        Rec rec = without_post(db, full, seq_attr, what);
        for (auto& x : rec) if (x.node() == seq_attr.node()) { e = &x; break; }
        if (!e || e->value().to_uint() >= s.snaps.size()) fail("%s: record that was never taken: %s", what, show(decode(db, rec)).c_str());
        Snap& x = s.snaps[e->value().to_uint()];
        if (x.seen) { if (!same(x.rec, rec)) fail("%s: record %s differs from the snapshot taken %s", what, show(decode(db, rec)).c_str(), show(decode(db, x.rec)).c_str()); }
        else x.early = rec;
        if (!got.insert(&x).second) fail("%s: snapshot %" PRIu64 " of thread %d is written twice", what, x.n, x.th);
        if (x.absent) fail("%s: snapshot %" PRIu64 " of thread %d was missing in an earlier flush", what, x.n, x.th);
        if (x.cleared && !must.count(&x)) fail("%s: snapshot %" PRIu64 " of thread %d was cleared before", what, x.n, x.th);
        auto l = last.find(x.th);
        if (l != last.end() && l->second >= x.n) fail("%s: snapshot %" PRIu64 " of thread %d comes after its snapshot %" PRIu64, what, x.n, x.th, l->second);
        last[x.th] = x.n;
    });
    NoPreempt np;
    --s.flushing;
    for (Snap* x : must) {
        if (got.count(x)) { x->present = true; continue; }
        if (x->cleared || x->maybe_cleared) continue; // cleared meanwhile
        if (clears_active[0] || (s.clear_ends.size() && s.clear_ends.back() > t0)) continue;
        if (x->present) fail("%s: snapshot %" PRIu64 " of thread %d, written by an earlier flush, is missing", what, x->n, x->th);
        if (!x->overlap) fail("%s: snapshot %" PRIu64 " of thread %d, completed before the flush, is missing", what, x->n, x->th);
        x->absent = true;
    }
    probe("flush_trace"); probe("flushed", got.size());
}

static void flush_agg(Caliper& c, const char* what)
{
    Side& s = side[1];
    uint64_t t0; size_t ncl;
    std::map<int, uint64_t> lo, hi, got;
    { NoPreempt np; t0 = tick(); busy_begin(s, false); ncl = s.clear_ends.size() + (size_t) clears_active[1] * 1000;
      for (Snap& x : s.snaps) if (x.t1 && !x.cleared && !x.overlap && !x.maybe_cleared) ++lo[x.key]; }
    std::vector<Rec> recs;
    c.flush(s.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) {
        NoPreempt np;
        KVs kv = decode(db, without_post(db, rec, key_attr, what));
        int64_t n = kv_int(kv, "count"), k = kv_int(kv, "key"), sum = kv_int(kv, "sum#val"), mn = kv_int(kv, "min#val"), mx = kv_int(kv, "max#val");
        if (n < 1 || k < 0 || k > 5) fail("%s: damaged record %s", what, show(kv).c_str());
        if (sum != n * (k * 3 + 1) || mn != k * 3 + 1 || mx != mn) fail("%s: record was written while being updated: %s", what, show(kv).c_str());
        got[(int) k] += (uint64_t) n;
    });
    NoPreempt np;
    --s.flushing;
    (void) t0;
    for (Snap& x : s.snaps) if (!x.cleared) ++hi[x.key];
    bool clr = ncl != s.clear_ends.size() + (size_t) clears_active[1] * 1000 || clears_active[1];
    for (int k = 0; k < 6; ++k) {
        if (!clr && got[k] < lo[k]) fail("%s: only %" PRIu64 " of at least %" PRIu64 " snapshots with key %d", what, got[k], lo[k], k);
        if (!clr && got[k] > hi[k]) fail("%s: %" PRIu64 " snapshots with key %d, but only %" PRIu64 " were taken", what, got[k], k, hi[k]);
    }
    probe("flush_agg");
}

static void clear(Caliper& c, int ci, bool api)
{
    Side& s = side[ci];
    std::vector<Snap*> done;
    { NoPreempt np; tick(); busy_begin(s, true); ++clears_active[ci];
      for (Snap& x : s.snaps) if (x.t1) done.push_back(&x); }
    if (api) cali_channel_flush(s.chn.id(), CALI_FLUSH_CLEAR_BUFFERS); else c.clear(&s.chn);
    NoPreempt np;
    --s.flushing; --clears_active[ci];
    for (Snap* x : done) x->cleared = true;
    s.clear_ends.push_back(tick());
    probe("clear");
}

// A report over the aggregation channel, with or without clearing it
static void report(Caliper&, bool clr)
{
    Side& s = side[1];
    size_t ncl; std::vector<Snap*> done;
    std::map<int, uint64_t> lo, hi, got;
    { NoPreempt np; tick(); busy_begin(s, clr); ncl = s.clear_ends.size() + (size_t) clears_active[1] * 1000;
      for (Snap& x : s.snaps) if (x.t1 && !x.cleared && !x.overlap && !x.maybe_cleared) ++lo[x.key];
      for (Snap& x : s.snaps) if (x.t1) done.push_back(&x);
      if (clr) ++clears_active[1]; }
    std::ostringstream os;
    cali::write_report_for_query(s.chn.id(), "select key,sum(count) as n group by key format expand", clr ? CALI_FLUSH_CLEAR_BUFFERS : 0, os);
    NoPreempt np;
    --s.flushing;
    if (clr) --clears_active[1];
    std::istringstream is(os.str());
    for (std::string l; std::getline(is, l); ) {
        int k = -1; unsigned long long n = 0;
        if (l.empty()) continue;
        size_t a = l.find("key="), b = l.find("n=");
        if (a == std::string::npos || b == std::string::npos) fail("report: line %s", l.c_str());
        k = atoi(l.c_str() + a + 4); n = strtoull(l.c_str() + b + 2, nullptr, 10);
        if (k < 0 || k > 5 || n < 1 || got.count(k)) fail("report: line %s", l.c_str());
        got[k] = n;
    }
    for (Snap& x : s.snaps) if (!x.cleared) ++hi[x.key];
    bool other = ncl != s.clear_ends.size() + (size_t) clears_active[1] * 1000;
    if (!other && !clears_active[1]) for (int k = 0; k < 6; ++k) {
        if (got[k] < lo[k]) fail("report: only %" PRIu64 " of at least %" PRIu64 " snapshots with key %d", got[k], lo[k], k);
        if (got[k] > hi[k]) fail("report: %" PRIu64 " snapshots with key %d, but only %" PRIu64 " were taken", got[k], k, hi[k]);
    }
    if (clr) { for (Snap* x : done) x->cleared = true; s.clear_ends.push_back(tick()); }
    probe("report");
}

static void body(int t);
static void spawned(int t, uint64_t v)
{
    Caliper c;
    for (int i = 0; i < 3; ++i) snap(c, (int) (v >> i) & 1, (int) (v >> 4) & 3, (int) ((v >> (8 + i)) % (uint64_t) plan().get("keys")), v);
    probe("short_lived");
}
static void body(int t)
{
    const Plan& p = plan();
    Caliper c;
    ThreadModel m; m.defs = &refs;
    std::vector<std::thread> kids;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        int d = o.a % (int) refs.size(), key = o.c % (int) p.get("keys");
        switch (o.kind) {
        case BEGIN: if (m.stack(d).size() < 10) { c.begin(refs[d].attr, make_value(refs[d].type, o.v % 7)); m.begin(d, o.v % 7); } break;
        case END: if (m.can_end(d)) { c.end(refs[d].attr); m.end(d); } break;
        case SNAP_T: snap(c, 0, o.b, key, (uint64_t) o.v); break;
        case SNAP_A: snap(c, 1, o.b, key, (uint64_t) o.v); break;
        case FLUSH_T: flush_trace(c, "flush"); break;
        case FLUSH_A: flush_agg(c, "flush"); break;
        case CLEAR_T: clear(c, 0, o.b & 1); break;
        case CLEAR_A: clear(c, 1, o.b & 1); break;
        case REPORT: report(c, p.get("clears") && (o.b & 1)); break;
        case SPAWN: for (int k = 0; k < p.get("kills") && kids.size() < 12; ++k) { uint64_t v = (uint64_t) o.v * (uint64_t) (k + 1); kids.emplace_back([t, v] { spawned(t, v); }); } break;
        }
    }
    while (!m.region.empty()) { int d = m.region.back().first; c.end(refs[d].attr); m.end(d); }
    while (!m.unaligned.empty()) { int d = m.unaligned.back().first; c.end(refs[d].attr); m.end(d); }
    for (auto& k : kids) k.join();
}

static void check_dropped(Caliper& c, int ci, const char* pattern)
{
    Side& s = side[ci];
    std::string before = sim_log();
    c.delete_channel(s.chn);
    std::string log = sim_log().substr(before.size());
    uint64_t rep = 0, missing = 0, unknown = 0;
    size_t pos = log.find(pattern);
    if (pos != std::string::npos) rep = strtoull(log.c_str() + pos + strlen(pattern), nullptr, 10);
    for (Snap& x : s.snaps) {
        if (x.present) continue;
        if (x.absent) ++missing; else if (x.overlap || x.maybe_cleared) ++unknown;
    }
    if (rep < missing || rep > missing + unknown) fail("%s: between %" PRIu64 " and %" PRIu64 " snapshots are missing, but %" PRIu64 " are reported as dropped", ci ? "aggregate" : "trace", missing, missing + unknown, rep);
    if (rep) probe("dropped", rep);
}

static void run(const Plan& p)
{
    clean_env();
    setenv("CALI_LOG_VERBOSITY", "1", 1);
    cali_init();
    Caliper c;
    seq_attr = c.create_attribute("seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    key_attr = c.create_attribute("key", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    val_attr = c.create_attribute("val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_AGGREGATABLE);
    post_attr = c.create_attribute("post", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < 4; ++i) pad[i] = c.create_attribute("p." + std::to_string(i), CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < 3; ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 1 ? K_UNALIGNED : K_NESTED; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        refs.push_back(d);
    }
    side[0].chn = make_channel("tr", { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
    side[1].chn = make_channel("ag", { { "CALI_SERVICES_ENABLE", "aggregate" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_AGGREGATE_KEY", "key" } });
    side[1].agg = true;
    { auto chn = side[0].chn; chn.events().process_snapshot.connect([](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(c, rec); }); }
    if (p.get("post")) {
        side[0].chn.events().postprocess_snapshot.connect([](Caliper* c, Rec& rec) { on_postprocess(c, rec, seq_attr); });
        side[1].chn.events().postprocess_snapshot.connect([](Caliper* c, Rec& rec) { on_postprocess(c, rec, key_attr); });
    }
    run_threads((int) p.get("nth"), true, body);
    flush_trace(c, "last flush");
    flush_agg(c, "last flush");
    // a flush does not change what is stored
    uint64_t total = 0, taken = 0; bool clr = !side[1].clear_ends.empty();
    c.flush(side[1].chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { total += (uint64_t) kv_int(decode(db, rec), "count"); });
    taken = side[1].snaps.size();
    std::string before = sim_log();
    check_dropped(c, 0, "Trace: dropped ");
    before = sim_log();
    c.delete_channel(side[1].chn);
    if (!clr) {
        std::string log = sim_log().substr(before.size());
        size_t pos = log.find("Aggregate: dropped ");
        uint64_t rep = pos == std::string::npos ? 0 : strtoull(log.c_str() + pos + 19, nullptr, 10);
        if (total + rep != taken) fail("aggregate: %" PRIu64 " snapshots taken, %" PRIu64 " in the output, %" PRIu64 " reported as dropped", taken, total, rep);
        if (rep) probe("dropped_agg", rep);
    }
}

PropDef sim::the_prop = { "C12", gen, run, nullptr };
