// C07: sampling signals at any instruction.
#include "model.h"
using namespace sim;

enum { B, E, ST, PUSH, PULL, NEWATTR, TREE, FLUSH, CLEAR, SPAWN, ACT, PREFILL, XCHG, PROC, CHNVAL, API, CHAN, NOPS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 2);
    p.set("nth", nth);
    // processing: 0 none, 1 trace, 2 aggregate, 3 both
    p.set("proc", r.range(0, 3));
    p.set("timer", r.chance(1, 2)); p.set("event", r.chance(1, 2)); p.set("alloc", r.chance(1, 4));
    p.set("order", r.below(3)); // sampler first, last, in the middle
    p.set("second", r.chance(1, 4)); // delete the channel, sample again with a new one
    p.set("sig_mean", r.logrange(15, r.chance(1, 3) ? 150 : 5000));
    p.set("linger", nth && r.chance(1, 3)); // threads compute on while the channel is deleted
    p.set("actuse", r.chance(1, 3));
    if (r.chance(1, 3)) { p.set("f_timer_create", r.range(1, 400000)); p.set("f_timer_settime", r.range(1, 400000)); }
    if (r.chance(1, 2)) p.set("f_late_signal", 500000);
    p.set("big", r.chance(1, 9)); // trace buffer close to its end, or a full aggregation table
    if (p.get("big")) { p.set("cap_points", 40000000); p.set("clr1", r.chance(1, 2)); p.set("policy", r.chance(1, 2) ? 0 : r.below(3)); if (r.chance(1, 4)) p.set("f_mmap", 500000); }
    int nops = (int) r.range(3, r.chance(1, 4) ? 50 : 22);
    unsigned w[NOPS] = { 22, 20, 8, 6, 8, 3, 4, 2, 4, (unsigned) (r.chance(1, 3) ? 4 : 0), 3, 0, 5, 6, 3, (unsigned) (r.chance(1, 4) ? 40 : 10), (unsigned) (r.chance(1, 5) ? 2 : 0) };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    if (p.get("big")) p.add(0, PREFILL, (int) r.range(4040, 4100), (int) r.range(0, 700));
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            if (t && (k == FLUSH || k == CLEAR || k == SPAWN || k == ACT)) k = B;
            p.add(t, k, (int) r.below(64), (int) r.below(8), (int) r.below(8), (int64_t) r.below(20));
        }
    gen_schedule(r, p, nth * nops * 120);
}

static std::vector<AttrDef> defs;
struct Ctx { ThreadModel cur, nxt; bool in_op = false; };
static thread_local Ctx* ctx;
static Channel chn;
static Attribute pc_attr, trig, proc_val, proc_ref, chn_val;
static std::atomic<int> nchan;
static thread_local uint64_t computed;
static uint64_t samples_seen, chn_samples, nspawn;
static bool active = true;
static bool may_be_inactive;

typedef std::vector<Entry> Rec;
struct Taken { Rec rec; int th; bool sample; bool cleared; };
static std::vector<Taken> taken;
static bool check_dropped;
static size_t packed; // bytes of the main thread's trace buffer during prefill

static bool matches(const ThreadModel& m, const KVs& rec)
{
    KVs er, eu, ev, gr, gu, gv, rest;
    m.parts(er, eu, ev);
    split_record(*m.defs, rec, gr, gu, gv, rest);
    return er == gr && eu == gu && ev == gv;
}

static void on_snapshot(Caliper* c, SnapshotView rec)
{
    NoPreempt np;
    KVs kv = decode(*c, rec);
    unsigned char buf[64];
    for (auto& e : rec) packed += e.pack(buf);
    ++packed;
    bool sample = find_kv(kv, "cali.sampler.pc") != nullptr;
    if (sample) {
        ++samples_seen; ++chn_samples;
        if (!active && !may_be_inactive) fail("sample recorded in an inactive channel");
        if (!ctx) { if (!matches(ThreadModel { &defs }, kv)) fail("sample on a thread without annotations has context %s", show(kv).c_str()); }
        else if (!matches(ctx->cur, kv) && !(ctx->in_op && matches(ctx->nxt, kv))) {
            KVs a, b, d; ctx->cur.parts(a, b, d);
            fail("sample context %s, open on the thread: %s %s %s", show(kv).c_str(), show(a).c_str(), show(b).c_str(), show(d).c_str());
        }
        probe("samples");
    }
    taken.push_back(Taken { Rec(rec.begin(), rec.end()), tid(), sample, false });
}

// applies an operation to the model first, so that samples during the call are accepted with either context
template <class M, class F> static void op(M model, F f)
{
    { NoPreempt np; ctx->nxt = ctx->cur; model(ctx->nxt); ctx->in_op = true; }
    f();
    { NoPreempt np; ctx->cur = ctx->nxt; ctx->in_op = false; }
}

static void check_now(Caliper& c, const char* what)
{
    FixedSizeSnapshotRecord<120> s;
    c.pull_snapshot(chn.body(), SnapshotView(), s.builder());
    NoPreempt np;
    check_record(ctx->cur, decode(c, s.view()), what);
}

static void spawned(int k)
{
    static thread_local Ctx my;
    { NoPreempt np; my.cur.defs = my.nxt.defs = &defs; ctx = &my; }
    Caliper c;
    int a = k % (int) defs.size();
    op([&](ThreadModel& m) { m.begin(a, k); }, [&] { c.begin(defs[a].attr, make_value(defs[a].type, k)); });
    if (k & 1) op([&](ThreadModel& m) { m.end(a); }, [&] { c.end(defs[a].attr); });
    check_now(c, "short-lived thread");
    { NoPreempt np; ++nspawn; }
}

static bool same(const Rec& a, const Rec& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].node() != b[i].node()) return false;
        if (a[i].is_immediate() && !(a[i].value() == b[i].value())) return false;
    }
    return true;
}

static void body(int t)
{
    const Plan& p = plan();
    static thread_local Ctx my;
    { NoPreempt np; my.cur.defs = my.nxt.defs = &defs; ctx = &my; }
    ThreadModel& m = my.cur;
    Caliper c;
    std::vector<std::thread> kids;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        int d = o.a % (int) defs.size();
        int64_t v = o.v % 7;
        switch (o.kind) {
        case B: if (!defs[d].ref() || m.stack(d).size() < 12) op([&](ThreadModel& m) { m.begin(d, v); }, [&] { c.begin(defs[d].attr, make_value(defs[d].type, v)); }); break;
        case E:
            if (!m.can_end(d)) { if (m.region.empty()) break; d = m.region.back().first; }
            op([&](ThreadModel& m) { m.end(d); }, [&] { c.end(defs[d].attr); });
            break;
        case ST: op([&](ThreadModel& m) { m.set(d, v); }, [&] { c.set(defs[d].attr, make_value(defs[d].type, v)); }); break;
        case PUSH: { Entry e(trig, Variant((int) o.v)); c.push_snapshot(chn.body(), SnapshotView(e)); break; }
        case PULL: check_now(c, "read-back"); break;
        case NEWATTR: {
            std::string n = "n." + std::to_string(o.v);
            Attribute a = c.create_attribute(n, CALI_TYPE_INT, CALI_ATTR_ASVALUE);
            if (!a || c.get_attribute(n) != a) fail("attribute created while sampling cannot be found");
            break;
        }
        case TREE: {
            Variant vals[2] = { make_value(defs[0].type, o.v), make_value(defs[0].type, o.v + 1) };
            Node* n = c.make_tree_entry(defs[0].attr, 2, vals);
            if (!n || !(n->data() == vals[1]) || !n->parent() || !(n->parent()->data() == vals[0])) fail("tree entry created while sampling is wrong");
            break;
        }
        case XCHG: {
            // by-value attributes: exchange is a set that returns the value replaced
            d = 5;
            int64_t old = 0; bool had; { NoPreempt np; had = m.get(d, old); }
            Variant x;
            op([&](ThreadModel& m) { m.set(d, v); }, [&] { x = c.exchange(defs[d].attr, make_value(defs[d].type, v)); });
            if (had ? !(x == make_value(defs[d].type, old)) : !x.empty()) fail("exchange returned %s", x.to_string().c_str());
            break;
        }
        case PROC: {
            // process-scope values; exact while there is a single thread
            bool alone = p.get("nth") == 0 && !p.get("second") && kids.empty();
            static int64_t pv = -1; static std::vector<int64_t> pr;
            switch (o.b) {
            case 0: case 1: { Variant x = c.exchange(proc_val, Variant((int) o.v)); if (alone && (pv < 0 ? !x.empty() : x.to_int() != pv)) fail("exchange returned %s instead of %" PRId64, x.to_string().c_str(), pv); pv = o.v; break; }
            case 2: case 3: c.set(proc_val, Variant((int) o.v)); pv = o.v; break;
            case 4: case 5: if (alone && pr.size() < 8) { c.begin(proc_ref, Variant((int) o.v)); pr.push_back(o.v); } break;
            case 6: if (alone && !pr.empty()) { c.end(proc_ref); pr.pop_back(); } break;
            case 7: if (alone) { Variant x = c.get(proc_val).value(), y = c.get(proc_ref).value();
                if (pv < 0 ? !x.empty() : x.to_int() != pv) fail("process value is %s instead of %" PRId64, x.to_string().c_str(), pv);
                if (pr.empty() ? !y.empty() : y.to_int() != pr.back()) fail("process region is %s", y.to_string().c_str()); } break;
            }
            break;
        }
        case CHNVAL:
            if (o.b & 1) c.set(chn.body(), chn_val, Variant((int) o.v));
            else { Variant x = c.get(chn.body(), chn_val).value(); if (p.get("nth") == 0 && !x.empty() && x.to_int() > 19) fail("channel value is %s", x.to_string().c_str()); }
            break;
        case API:
            switch (o.b + 8 * (o.c & 1)) {
            case 0: { auto g = c.get_globals(chn.body()); NoPreempt np; decode(c, g); break; }
            case 1: { cali_variant_t x = cali_get(defs[d].attr.id()); (void) x; break; }
            case 2: { unsigned char buf[2000]; size_t n = cali_channel_pull_snapshot(chn.id(), CALI_SCOPE_THREAD, sizeof buf, buf); if (n > 2000) fail("snapshot needs %zu bytes", n); break; }
            case 3: if (c.get_all_attributes().size() < 10) fail("attributes are missing"); break;
            case 4: { auto v = c.find_attributes_with_prop(CALI_ATTR_NESTED); if (v.empty()) fail("no nested attributes"); break; }
            case 5: { cali_id_t id = trig.id(); cali_variant_t x = cali_make_variant_from_int((int) o.v); cali_push_snapshot(0, 1, &id, &x); break; }
            case 6: { Attribute at[2] = { defs[0].attr, trig }; Variant va[2] = { make_value(defs[0].type, o.v), Variant((int) o.v) }; FixedSizeSnapshotRecord<8> r; c.make_record(2, at, va, r.builder()); if (r.view().size() != 2) fail("record has %zu entries", r.view().size()); break; }
            case 7: if (c.get_all_channels().empty()) fail("no channels"); break;
            case 8: case 9: {
                FixedSizeSnapshotRecord<120> s;
                c.pull_context(s.builder());
                NoPreempt np;
                check_record(ctx->cur, decode(c, s.view()), "context");
                break;
            }
            case 10: {
                static thread_local char mem[4][64];
                char* x = mem[o.v & 3];
                c.memory_region_begin(x, "blk", 1, 1, (const size_t[]) { 64 }); c.memory_region_end(x);
                break;
            }
            case 11: if (c.get_attribute(defs[d].name) != defs[d].attr) fail("attribute %s is not found by name", defs[d].name.c_str()); break;
            case 12: { Entry e = c.get(defs[d].attr); int64_t x = 0; NoPreempt np; bool h = ctx->cur.get(d, x);
                if (h ? !(e.value() == make_value(defs[d].type, x)) : !e.empty()) fail("%s is %s", defs[d].name.c_str(), e.value().to_string().c_str()); break; }
            case 13: c.get_globals(); break;
            case 14: { Variant x(CALI_TYPE_STRING, "a string that the tree has to copy", 34); Attribute a = c.get_attribute("sig.str");
                Node* n = c.make_tree_entry(a, x); if (!n || !(n->data() == x) || c.node(n->id()) != n) fail("tree entry created while sampling is wrong"); break; }
            case 15: { Entry e = c.get_path_node(); if (!e.empty() && !e.is_reference()) fail("path node is not a reference"); break; }
            }
            break;
        case CHAN: {
            // channels come and go while samples are being taken
            if (nchan > 3) break;
            int n = ++nchan;
            Channel x = make_channel(strf("tmp%d", n).c_str(), { { "CALI_SERVICES_ENABLE", o.b & 1 ? "trace" : "aggregate,event" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
            Entry e(trig, Variant((int) o.v));
            c.push_snapshot(x.body(), SnapshotView(e));
            size_t nrec = 0;
            c.flush(x.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { NoPreempt np; decode(db, rec); ++nrec; });
            if (!nrec) fail("snapshot in a new channel is lost");
            c.delete_channel(x);
            break;
        }
        case FLUSH: { size_t n = 0; c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { NoPreempt np; decode(db, rec); ++n; }); break; }
        case CLEAR: { size_t n; { NoPreempt np; n = taken.size(); } c.clear(&chn); { NoPreempt np; for (size_t k = 0; k < n; ++k) taken[k].cleared = true; check_dropped = false; } break; }
        case SPAWN: { int k = (int) o.v; kids.emplace_back([k] { spawned(k); }); break; }
        case ACT:
            if (!p.get("actuse")) break;
            { NoPreempt np; may_be_inactive = true; }
            if (active) c.deactivate_channel(chn); else c.activate_channel(chn);
            { NoPreempt np; active = !active; may_be_inactive = plan().get("nth") > 0 || !kids.empty(); }
            break;
        }
    }
    while (!m.region.empty()) { int d = m.region.back().first; op([&](ThreadModel& m) { m.end(d); }, [&] { c.end(defs[d].attr); }); }
    while (!m.unaligned.empty()) { int d = m.unaligned.back().first; op([&](ThreadModel& m) { m.end(d); }, [&] { c.end(defs[d].attr); }); }
    while (!m.imm.empty()) { int d = m.imm.begin()->first; op([&](ThreadModel& m) { m.end(d); }, [&] { c.end(defs[d].attr); }); }
    check_now(c, "end of thread");
    for (auto& k : kids) k.join();
    if (t == 0) { NoPreempt np; }
}

static void final_check(Caliper& c)
{
    const Plan& p = plan();
    signals_arm(false);
    if (p.get("linger")) { // samples are still being taken on other threads
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { NoPreempt np; decode(db, rec); });
        return;
    }
    if (p.get("proc") & 1) {
        // every record is one that was taken, with its exact contents; nothing twice
        std::vector<std::pair<size_t, bool>> used; // remaining
        std::multimap<std::string, size_t> idx;
        auto key = [&](const Rec& r) { std::string s; for (auto& e : r) { s += strf("%p:", (void*) e.node()); if (e.is_immediate()) s += e.value().to_string(); s += ";"; } return s; };
        { NoPreempt np; for (size_t i = 0; i < taken.size(); ++i) if (!taken[i].cleared) idx.insert({ key(taken[i].rec), i }); }
        size_t got = 0, avail = idx.size();
        bool both = p.get("proc") == 3;
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) {
            NoPreempt np;
            KVs kv = decode(db, rec);
            if (both && find_kv(kv, "aggregate.slot")) return;
            auto it = idx.find(key(rec));
            if (it == idx.end()) fail("trace record was never taken or is written twice: %s", show(kv).c_str());
            idx.erase(it); ++got;
        });
        if (check_dropped && got > avail) harness_error("count");
        probe("traced", got);
    }
    if (p.get("proc") & 2) {
        // no key has more snapshots than were taken with it
        auto key = [&](CaliperMetadataAccessInterface& db, const Rec& r) { Rec x; for (auto& e : r) if (e.is_reference()) x.push_back(e); return show(decode(db, x)); };
        std::map<std::string, uint64_t> avail;
        { NoPreempt np; for (auto& x : taken) if (!x.cleared) { ++avail[key(c, x.rec)]; ++avail["all"]; } }
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) {
            NoPreempt np;
            KVs kv = decode(db, rec);
            if (!find_kv(kv, "aggregate.slot")) return;
            int64_t n = kv_int(kv, "count");
            std::string k = find_kv(kv, "skipped.records") ? "all" : key(db, rec);
            if (k == "all") probe("skipped", (uint64_t) n);
            if (n < 1) fail("aggregated record without count %s", show(kv).c_str());
            if ((uint64_t) n > avail[k]) fail("%" PRId64 " snapshots aggregated, but only %" PRIu64 " taken, with %s", n, avail[k], k.c_str());
            avail[k] -= (uint64_t) n;
            if (k != "all") { if ((uint64_t) n > avail["all"]) fail("more snapshots aggregated than taken"); avail["all"] -= (uint64_t) n; }
        });
    }
}

static void one_channel(const Plan& p, int round)
{
    Caliper c;
    std::vector<std::string> sv;
    if (p.get("event")) sv.push_back("event");
    if (p.get("timer")) sv.push_back("timer");
    if (p.get("alloc")) sv.push_back("alloc");
    if (p.get("proc") & 1) sv.push_back("trace");
    if (p.get("proc") & 2) sv.push_back("aggregate");
    size_t at = p.get("order") == 0 ? 0 : p.get("order") == 1 ? sv.size() : sv.size() / 2;
    sv.insert(sv.begin() + at, "sampler");
    std::string s; for (auto& x : sv) s += (s.empty() ? "" : ",") + x;
    std::string name = "smp" + std::to_string(round);
    signals_arm(false);
    { NoPreempt np; taken.clear(); chn_samples = 0; check_dropped = true; active = true; may_be_inactive = false; }
    int before = timers_active();
    chn = make_channel(name.c_str(), { { "CALI_SERVICES_ENABLE", s }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_SAMPLER_FREQUENCY", "100" }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_TRACE_BUFFER_POLICY", p.get("policy") == 2 ? "stop" : p.get("policy") == 1 ? "flush" : "grow" } });
    pc_attr = c.get_attribute("cali.sampler.pc");
    c.create_attribute("sig.str", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
    { auto ch = chn; ch.events().process_snapshot.connect([](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(c, rec); }); }
    // bring the trace buffer close to its end and fill the aggregation table
    auto prefill = [&] {
        for (int i = 0; i < p.nops; ++i) {
            const Op& o = p.ops[i];
            if (o.kind != PREFILL || !p.get("big")) continue;
            NoPreempt np;
            if (p.get("proc") & 1) {
                std::vector<Attribute> at;
                for (int k = 0; k < 90; ++k) at.push_back(c.create_attribute("w." + std::to_string(k), CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS));
                packed = 0;
                for (int j = 0; packed < (1 << 20) - 500 - (size_t) o.b; ++j) {
                    FixedSizeSnapshotRecord<100> r;
                    for (int k = 0; k < (packed < (1 << 20) - 7000 ? 90 : 2); ++k) r.builder().append(at[k], cali_make_variant_from_uint(~0ull - (uint64_t) (j + k)));
                    c.push_snapshot(chn.body(), r.view());
                }
            } else if (p.get("proc") & 2)
                for (int j = 0; j < o.a; ++j) { Entry e(c.make_tree_entry(defs[0].attr, Variant(100 + j))); c.push_snapshot(chn.body(), SnapshotView(e)); }
        }
    };
    prefill();
    if (p.get("big") && (p.get("clr1"))) { c.clear(&chn); taken.clear(); prefill(); }
    signals_arm(true);
    int nth = (int) p.get("nth");
    static std::mutex m; static std::condition_variable cv; static int reached; static bool stop;
    reached = 0; stop = false;
    std::vector<std::thread> th;
    bool linger = p.get("linger");
    for (int t = 1; t <= nth; ++t)
        th.emplace_back([t, linger] {
            body(t);
            if (!linger) return;
            { std::lock_guard<std::mutex> g(m); ++reached; cv.notify_all(); }
            for (int i = 0; i < 400; ++i) { ++computed; if (i % 16 == 0) yield(); } // only interrupted by signals
            std::unique_lock<std::mutex> g(m); cv.wait(g, [] { return stop; });
        });
    body(0);
    if (linger) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return reached == nth; }); }
    else for (auto& t : th) t.join();
    int left = timers_active() - before;
    if (!linger && left > 1) fail("%d sampling timers exist after their threads have ended", left - 1);
    final_check(c);
    signals_arm(true);
    std::string b4 = sim_log();
    c.delete_channel(chn);
    if (linger) { uint64_t n = chn_samples; { std::lock_guard<std::mutex> g(m); stop = true; cv.notify_all(); } for (auto& t : th) t.join(); if (n != chn_samples) fail("sample taken after the channel was deleted"); }
    signals_arm(false);
    if (timers_active() != before) fail("%d sampling timers exist after the channel has been deleted", timers_active() - before);
    std::string log = sim_log().substr(b4.size());
    size_t pos = log.find("processed ");
    uint64_t rep = pos == std::string::npos ? ~0ull : strtoull(log.c_str() + pos + 10, nullptr, 10);
    // a sample that races with the deletion of its channel may be counted, but not taken
    if (rep < chn_samples || rep > chn_samples + (linger ? (uint64_t) nth : 0)) fail("%" PRIu64 " samples were taken, but %" PRIu64 " are reported", chn_samples, rep);
    chn = Channel();
}

static void run(const Plan& p)
{
    clean_env();
    setenv("CALI_LOG_VERBOSITY", "1", 1);
    cali_init();
    Caliper c;
    trig = c.create_attribute("trig", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    proc_val = c.create_attribute("proc.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_SKIP_EVENTS);
    proc_ref = c.create_attribute("proc.ref", CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS);
    chn_val = c.create_attribute("chn.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < 6; ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 3 ? K_UNALIGNED : i == 5 ? K_VALUE : i == 4 ? K_PLAIN : K_NESTED; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        defs.push_back(d);
    }
    one_channel(p, 0);
    if (p.get("second")) one_channel(p, 1);
    probe("threads", nspawn);
    if (signals_delivered()) probe("signals", signals_delivered());
}

PropDef sim::the_prop = { "C07", gen, run, nullptr };
