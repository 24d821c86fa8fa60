// C05: a trace holds every snapshot exactly once, in thread order.
#include "model.h"
using namespace sim;

enum { BEGIN, END, SNAP, BULK, FLUSHNOW, NOPS, PREFILL };
enum { GROW, STOP, FLUSH };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, r.chance(1, 4) ? 5 : 3);
    int nph = (int) r.range(1, 4);
    p.set("nth", nth); p.set("nph", nph); p.set("shortlived", r.chance(1, 3) ? r.range(1, 2) : 0);
    p.set("clear", r.range(0, 2));
    p.set("nchn", r.chance(1, 5) ? 2 : 1);
    bool big = r.chance(1, 5);
    p.set("policy", big ? r.range(GROW, FLUSH) : r.chance(1, 3) ? r.range(GROW, FLUSH) : GROW);
    p.set("bufsize", big ? 1 : r.range(1, 2));
    p.set("zero", big && r.chance(1, 4));   // CALI_TRACE_BUFFER_SIZE=0
    p.set("lateth", r.chance(1, 3));        // a thread starts after tracing began and exits early
    p.set("ownstat", r.chance(1, 2));
    if (big) p.set("cap_points", 60000000);
    if (r.chance(1, 4)) p.set("npb", 1 << r.range(4, 7));
    int nops = (int) r.range(2, big ? 7 : r.chance(1, 4) ? 60 : 25);
    unsigned w[NOPS] = { 14, 12, 45, big ? 12u : 0u, 3 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    if (big) // bring some buffers close to their end first
        for (int t = 0; t <= nth; ++t)
            if (r.chance(2, 3)) p.add(t, PREFILL, 0, (int) r.range(800, 1150), 4, (int64_t) (r.next() >> 1));
    for (int ph = 0; ph < nph; ++ph)
        for (int t = 0; t <= nth + (int) p.get("shortlived"); ++t)
            for (int i = 0; i < nops; ++i) {
                unsigned x = (unsigned) r.below(tot); int k = 0;
                while (x >= w[k]) x -= w[k++];
                if (k == FLUSHNOW && (t || r.chance(1, 2))) k = SNAP;
                p.add(t + 100 * ph, k, (int) r.below(64), (int) (k == BULK ? r.logrange(3, 60) : r.chance(1, 5) ? r.below(100) : r.below(8)), (int) r.below(8), (int64_t) (r.next() >> 1));
            }
    gen_schedule(r, p, nph * nth * nops * 60);
}

typedef std::vector<Entry> Rec;
struct Snap { int th; uint64_t n; Rec rec; Rec early; bool seen; };
struct Chn {
    Channel chn; int policy;
    std::vector<Snap> snaps;         // by sequence number
    std::set<uint64_t> in_buffer;    // taken and not yet cleared / written by an overflow flush
    uint64_t missing = 0, lost = 0;  // found missing at some output
    std::set<uint64_t> gone;         // known to be dropped
    uint64_t cleared_unknown = 0;    // cleared before any output could show whether they were recorded
    uint64_t overflow_flushes = 0;
};
static Chn chns[2];
static int nchn;
static Attribute seq_attr, pay[8];
static std::vector<AttrDef> refs;
static thread_local int my_id = -1;
static std::atomic<int> uid { 0 };

static bool same(const Rec& a, const std::vector<Entry>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].node() != b[i].node()) return false;
        if (a[i].is_immediate() && !(a[i].value() == b[i].value())) return false;
    }
    return true;
}

static void on_snapshot(int ci, Caliper* c, SnapshotView rec)
{
    NoPreempt np;
    Entry e = rec.get_immediate_entry(seq_attr);
    if (e.empty()) harness_error("snapshot without a sequence number");
    uint64_t q = e.value().to_uint();
    Chn& ch = chns[ci];
    if (q >= ch.snaps.size()) harness_error("sequence number");
    Snap& sn = ch.snaps[q];
    sn.rec.assign(rec.begin(), rec.end());
    sn.seen = true;
    if (!sn.early.empty() && !same(sn.rec, sn.early)) fail("a record written differs from the snapshot taken %s", show(decode(*c, sn.rec)).c_str());
}
struct Output { std::set<uint64_t> got; std::map<int, uint64_t> last; };

static void on_record(int ci, CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec, Output& o, const char* what)
{
    NoPreempt np;
    Chn& ch = chns[ci];
    const Entry* s = nullptr;
    for (auto& e : rec) if (e.node() == seq_attr.node()) { s = &e; break; }
    if (!s) fail("%s: record that is no snapshot: %s", what, show(decode(db, rec)).c_str());
    uint64_t q = s->value().to_uint();
    if (q >= ch.snaps.size()) fail("%s: record that was never taken: %s", what, show(decode(db, rec)).c_str());
    Snap& sn = ch.snaps[q];
    if (!sn.seen) sn.early = rec; // another thread's snapshot, still being processed
    else if (!same(sn.rec, rec)) fail("%s: record %s differs from the snapshot taken %s", what, show(decode(db, rec)).c_str(), show(decode(db, sn.rec)).c_str());
    if (!o.got.insert(q).second) fail("%s: snapshot %" PRIu64 " of thread %d is written twice", what, sn.n, sn.th);
    if (!ch.in_buffer.count(q)) fail("%s: snapshot %" PRIu64 " of thread %d was cleared or written before", what, sn.n, sn.th);
    if (ch.gone.count(q)) fail("%s: snapshot %" PRIu64 " of thread %d was missing in an earlier output", what, sn.n, sn.th);
    auto l = o.last.find(sn.th);
    if (l != o.last.end() && l->second >= sn.n) fail("%s: snapshot %" PRIu64 " of thread %d comes after its snapshot %" PRIu64, what, sn.n, sn.th, l->second);
    o.last[sn.th] = sn.n;
}

static void flush_check(Caliper& c, int ci, const char* what)
{
    Output o; Chn& ch = chns[ci];
    c.flush(ch.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { on_record(ci, db, rec, o, what); });
    NoPreempt np;
    std::map<int, uint64_t> stopped; // first missing per thread since ...
    for (uint64_t q : ch.in_buffer) {
        if (o.got.count(q) || ch.gone.count(q)) continue;
        if (ch.policy == GROW) fail("%s: snapshot %" PRIu64 " of thread %d is missing", what, ch.snaps[q].n, ch.snaps[q].th);
        ch.gone.insert(q); ++ch.missing;
    }
    // with 'stop', what is kept of each thread is a prefix of what it took since the last clear
    if (ch.policy == STOP) {
        std::map<int, std::map<uint64_t, bool>> per;
        for (uint64_t q : ch.in_buffer) per[ch.snaps[q].th][ch.snaps[q].n] = o.got.count(q) > 0;
        for (auto& t : per) {
            size_t kept = 0, bytes = 0; bool miss = false;
            for (auto& s : t.second) { if (s.second) ++kept; else miss = true; (void) bytes; }
            if (miss && kept == 0) fail("%s: buffer of thread %d stopped recording without holding anything", what, t.first);
        }
    }
    probe("records_flushed", o.got.size());
}

static void snap(Caliper& c, int ci, int n, uint64_t v, bool wide = false)
{
    FixedSizeSnapshotRecord<112> trg;
    {
        NoPreempt np;
        static std::map<std::pair<int, int>, uint64_t> count;
        if (my_id < 0) my_id = uid++;
        Chn& ch = chns[ci];
        uint64_t q = ch.snaps.size();
        ch.snaps.push_back(Snap { my_id, ++count[{ ci, my_id }], {}, {}, false });
        ch.in_buffer.insert(q);
        trg.builder().append(seq_attr, cali_make_variant_from_uint(q));
        for (int i = 0; i < n; ++i) {
            uint64_t x = v * (uint64_t) (i + 3) + (uint64_t) i * 0x9e3779b97f4a7c15ull;
            Attribute a = pay[(x >> 5) % 8];
            // all value widths, so that packed sizes vary
            uint64_t val = wide ? x | (1ull << 63) : x >> ((x & 15) * 4);
            switch (a.type()) {
            case CALI_TYPE_INT: trg.builder().append(a, Variant((int) val)); break;
            case CALI_TYPE_DOUBLE: trg.builder().append(a, Variant((double) (int64_t) val * 0.37)); break;
            case CALI_TYPE_BOOL: trg.builder().append(a, Variant((val & 1) != 0)); break;
            case CALI_TYPE_STRING: { const char* s = kStrings[val % N_STRINGS]; trg.builder().append(a, Variant(CALI_TYPE_STRING, s, strlen(s))); break; }
            case CALI_TYPE_ADDR: trg.builder().append(a, Variant(CALI_TYPE_ADDR, &val, sizeof val)); break;
            default: trg.builder().append(a, cali_make_variant_from_uint(val));
            }
        }
    }
    c.push_snapshot(chns[ci].chn.body(), trg.view());
}

static void body(int t, int ph)
{
    const Plan& p = plan();
    Caliper c;
    ThreadModel m; m.defs = &refs;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t + 100 * ph) continue;
        int d = o.a % (int) refs.size(), ci = nchn > 1 ? o.c & 1 : 0;
        switch (o.kind) {
        case BEGIN: if (m.stack(d).size() < 12) { int64_t v = o.v % 7; c.begin(refs[d].attr, make_value(refs[d].type, v)); m.begin(d, v); } break;
        case END: if (m.can_end(d)) { c.end(refs[d].attr); m.end(d); } break;
        case SNAP: snap(c, ci, o.b, (uint64_t) o.v); break;
        case BULK: for (int j = 0; j < o.b; ++j) snap(c, ci, 104, (uint64_t) o.v + (uint64_t) j, o.c & 4); probe("bulk"); break;
        case PREFILL: break;
        case FLUSHNOW: break; // only at quiescence, see run()
        }
    }
    while (!m.region.empty()) { int d = m.region.back().first; c.end(refs[d].attr); m.end(d); }
    while (!m.unaligned.empty()) { int d = m.unaligned.back().first; c.end(refs[d].attr); m.end(d); }
}

// fills the buffers, one thread after the other and without interleaving
static void prefill(int t)
{
    Caliper c;
    NoPreempt np;
    for (int i = 0; i < plan().nops; ++i) {
        const Op& o = plan().ops[i];
        if (o.th == t && o.kind == PREFILL) for (int j = 0; j < o.b; ++j) snap(c, 0, 104, (uint64_t) o.v + (uint64_t) j, o.c & 4);
    }
}

static void run(const Plan& p)
{
    clean_env();
    setenv("CALI_LOG_VERBOSITY", "1", 1);
    cali_init();
    Caliper c;
    nchn = (int) p.get("nchn");
    static const cali_attr_type pt[8] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_STRING, CALI_TYPE_UINT, CALI_TYPE_INT, CALI_TYPE_UINT };
    seq_attr = c.create_attribute("seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < 8; ++i) pay[i] = c.create_attribute("p." + std::to_string(i), pt[i], CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < 3; ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 1 ? K_UNALIGNED : K_NESTED; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        refs.push_back(d);
    }
    static const char* pol[] = { "grow", "stop", "flush" };
    for (int i = 0; i < nchn; ++i) {
        chns[i].policy = i == 0 ? (int) p.get("policy") : GROW;
        std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_POLICY", pol[chns[i].policy] }, { "CALI_TRACE_BUFFER_SIZE", std::to_string(p.get("zero") ? 0 : p.get("bufsize")) }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
        std::string name = "chn" + std::to_string(i);
        chns[i].chn = make_channel(name.c_str(), cfg);
        auto chn = chns[i].chn; // the workload's observer runs before or after the trace
        chn.events().process_snapshot.connect([i](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(i, c, rec); });
        chn.events().write_output_evt.connect([i](Caliper* c, ChannelBody* chB, SnapshotView info) {
            Output o;
            c->flush(chB, info, [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { on_record(i, db, rec, o, "flush of a full buffer"); });
            NoPreempt np;
            ++chns[i].overflow_flushes;
            for (uint64_t q : o.got) chns[i].in_buffer.erase(q);
            probe("overflow_flush");
        });
    }
    int nth = (int) p.get("nth"), nsl = (int) p.get("shortlived");
    Crew crew;
    static std::mutex pre_lock;
    auto step = [&](int t, int ph) {
        if (ph == 0) Caliper();
        else if (ph == 1) { std::lock_guard<std::mutex> g(pre_lock); prefill(t); }
        else body(t, ph - 2);
    };
    crew.start(nth, step);
    for (int i = 0; i < 2; ++i) { crew.launch(); step(0, i); crew.wait(); }
    for (int ph = 0; ph < p.get("nph"); ++ph) {
        crew.launch();
        std::vector<std::thread> sl;
        for (int k = 0; k < nsl; ++k) sl.emplace_back([&, k, ph] { body(nth + 1 + k, ph); });
        body(0, ph);
        crew.wait();
        for (auto& t : sl) t.join();
        for (int i = 0; i < nchn; ++i) {
            flush_check(c, i, "flush");
            if (p.get("clear") == 1 || (p.get("clear") == 2 && (ph & 1))) {
                c.clear(&chns[i].chn);
                chns[i].in_buffer.clear();
                flush_check(c, i, "flush after clear");
            } else if (ph & 1) flush_check(c, i, "second flush");
        }
    }
    crew.stop();
    for (int i = 0; i < nchn; ++i) {
        flush_check(c, i, "last flush");
        Chn& ch = chns[i];
        uint64_t miss = ch.missing;
        std::string name = "chn" + std::to_string(i), before = sim_log();
        c.delete_channel(ch.chn);
        std::string log = sim_log().substr(before.size());
        uint64_t rep = 0;
        size_t pos = log.find("Trace: dropped ");
        if (pos != std::string::npos) rep = strtoull(log.c_str() + pos + 15, nullptr, 10);
        if (rep != miss) fail("%" PRIu64 " of %zu snapshots are missing, but %" PRIu64 " are reported as dropped", miss, ch.snaps.size(), rep);
        if (miss) probe("dropped", miss);
        probe("snapshots", ch.snaps.size());
        ch.chn = Channel();
    }
}

PropDef sim::the_prop = { "C05", gen, run, nullptr };
