// C10: finishing the program writes each channel's data exactly once.
#include "model.h"
#include "seqtrace.h"
#include <caliper/ConfigManager.h>
using namespace sim;

enum { SNAP, REG, ATTR, SETV, GETV, PULL, CALLBACK_FLUSH, TREE, SPAWN, API, NOPS };
enum { END_RETURN, END_EXIT_MAIN, END_EXIT_WORKER, END_RELEASE_MAIN, END_RELEASE_WORKER, END_RELEASE_TWICE, NENDS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 2);
    p.set("nth", nth);
    p.set("nchn", r.range(1, 4));
    p.set("end", r.below(NENDS));
    p.set("mainuse", !r.chance(1, 5));     // the main thread uses the library
    p.set("join", r.chance(1, 3));         // threads are joined before the end
    p.set("statics", r.below(16));         // which objects annotate in their destructors
    p.set("atexit", r.chance(1, 3));
    p.set("mgr", r.below(4));              // a configuration manager object
    p.set("late", r.range(0, 30));         // annotations after an explicit finalize
    p.set("cfg", r.below(256)); p.set("cfg2", r.below(256));
    p.set("del", r.chance(1, 4));
    int nops = (int) r.range(2, r.chance(1, 4) ? 60 : 20);
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            int k = r.chance(1, 2) ? SNAP : (int) r.below(NOPS);
            if (k == SPAWN && !r.chance(1, 3)) k = REG;
            p.add(t, k, (int) r.below(64), (int) r.below(8), (int) r.below(8), (int64_t) r.below(20));
        }
    gen_schedule(r, p, (nth + 1) * nops * 150);
}

struct Out {
    SeqTrace tr; Channel ch; std::string file; bool flush_on_exit = true, active = true, deleted = false;
    int writes = 0, finishes = 0, pre_finishes = 0; bool finished = false; uint64_t explicit_writes = 0;
};
static Out* outs[8]; static int nout;
static std::vector<AttrDef>* defs;
static uint64_t end_tick;   // the end began
static bool end_done;       // explicit finalisation has returned
static std::atomic<int> nthreads_alive;

static void end_begins() { NoPreempt np; if (!end_tick) end_tick = tick(); }

static void make_out(int i, int cfg)
{
    NoPreempt* np = nullptr; (void) np;
    Out* o = new Out;
    o->file = strf("/sim/c%d.cali", i);
    o->flush_on_exit = cfg % 8 != 0;
    o->active = cfg % 5 != 0;
    std::string sv = "trace,recorder";
    if (cfg & 1) sv += ",event";
    if (cfg & 2) sv += ",timer";
    if (cfg & 4) sv += ",aggregate";
    if (cfg & 8) sv += ",statistics";
    o->ch = make_channel(strf("c%d", i).c_str(), { { "CALI_SERVICES_ENABLE", sv }, { "CALI_RECORDER_FILENAME", o->file }, { "CALI_CHANNEL_FLUSH_ON_EXIT", o->flush_on_exit ? "true" : "false" }, { "CALI_TRACE_BUFFER_SIZE", "1" } }, o->active);
    Caliper c;
    o->tr.attach(c, o->ch);
    auto ev = [o] { NoPreempt np; if (o->finished) fail("channel %s is used after it was finished", o->tr.name.c_str()); };
    o->ch.events().snapshot.connect([ev](Caliper*, SnapshotView, SnapshotBuilder&) { ev(); });
    o->ch.events().process_snapshot.connect([ev](Caliper*, SnapshotView, SnapshotView) { ev(); });
    o->ch.events().pre_begin_evt.connect([ev](Caliper*, ChannelBody*, const Attribute&, const Variant&) { ev(); });
    o->ch.events().pre_end_evt.connect([ev](Caliper*, ChannelBody*, const Attribute&, const Variant&) { ev(); });
    o->ch.events().create_attr_evt.connect([ev](Caliper*, const Attribute&) { ev(); });
    o->ch.events().create_thread_evt.connect([ev](Caliper*, Channel*) { ev(); });
    o->ch.events().release_thread_evt.connect([ev](Caliper*, Channel*) { ev(); });
    o->ch.events().write_output_evt.connect([o](Caliper*, ChannelBody*, SnapshotView) {
        NoPreempt np;
        if (o->finished) fail("channel %s is written after it was finished", o->tr.name.c_str());
        if (++o->writes > 1) fail("channel %s is written twice", o->tr.name.c_str());
        if (!end_tick) fail("channel %s is written before the end", o->tr.name.c_str());
    });
    o->ch.events().pre_finish_evt.connect([o](Caliper*, Channel*) { NoPreempt np; if (++o->pre_finishes > 1) fail("channel %s is finished twice", o->tr.name.c_str()); });
    o->ch.events().finish_evt.connect([o](Caliper*, Channel*) {
        NoPreempt np;
        if (++o->finishes > 1) fail("channel %s is finished twice", o->tr.name.c_str());
        if (!end_tick && !o->deleted) fail("channel %s is finished before the end", o->tr.name.c_str());
        o->finished = true;
    });
    NoPreempt n2;
    outs[nout++] = o;
}

static void annotate(int t, int n)
{
    // what a program does anywhere, including in destructors
    Caliper c;
    for (int i = 0; i < n; ++i) {
        cali_begin_region("late");
        if (nout) { Out* o = outs[(t + i) % nout]; c.push_snapshot(o->ch.body(), SnapshotView()); }
        cali_end_region("late");
        cali_set_int_byname("late.value", i);
        cali_get(cali_find_attribute("late.value"));
    }
    probe("destructor_annotations");
}
struct Static { int which; ~Static() { if (plan().get("statics") & which) annotate(which, 2); } };
static Static global_object { 1 };
static void at_exit_fn() { annotate(7, 2); }

static void body(int t)
{
    const Plan& p = plan();
    Caliper c;
    std::vector<std::thread> kids;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        Out* out = outs[o.a % nout];
        int d = o.b % (int) defs->size();
        switch (o.kind) {
        case SNAP:
            if (out->deleted) break;
            out->tr.snap(c, tid()); break;
        case REG: c.begin((*defs)[d].attr, make_value((*defs)[d].type, o.v)); cali_begin_region("r"); cali_end_region("r"); c.end((*defs)[d].attr); break;
        case ATTR: if (cali_create_attribute(strf("n.%d", (int) o.v).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE) == CALI_INV_ID) fail("attribute cannot be created"); break;
        case SETV: c.set((*defs)[d].attr, make_value((*defs)[d].type, o.v)); break;
        case GETV: c.get((*defs)[d].attr); break;
        case PULL: { FixedSizeSnapshotRecord<120> s; c.pull_snapshot(out->ch.body(), SnapshotView(), s.builder()); NoPreempt np; decode(c, s.view()); break; }
        case CALLBACK_FLUSH: { // a flush of a finished channel gives nothing
            SeqTrace::Output w; out->tr.out_begin(w);
            c.flush(out->ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { out->tr.out_rec(w, db, rec, "concurrent output"); });
            NoPreempt np;
            if (!end_tick && !out->deleted) out->tr.out_end(w, "concurrent output"); else --out->tr.flushing;
            break; }
        case TREE: { Node* n = c.make_tree_entry((*defs)[0].attr, make_value((*defs)[0].type, o.v)); if (!n) fail("tree entry cannot be created"); break; }
        case SPAWN: { int v = (int) o.v; kids.emplace_back([v] { cali_begin_region("kid"); Caliper c; if (outs[v % nout]->deleted == false) c.push_snapshot(outs[v % nout]->ch.body(), SnapshotView()); cali_end_region("kid"); }); break; }
        case API: switch (o.v % 4) {
            case 0: { auto v = c.get_all_channels(); NoPreempt np; for (auto& x : v) if (!x) fail("invalid channel in list"); break; }
            case 1: cali_push_snapshot(out->ch.id(), 0, nullptr, nullptr); break;
            case 2: c.get_globals(); break;
            case 3: cali_channel_is_active(out->ch.id()); break;
            }
            break;
        }
    }
    for (auto& k : kids) k.join();
}

static void at_end(const Plan&)
{
    NoPreempt np;
    std::string log = sim_log();
    size_t n = 0;
    for (size_t i = 0; (i = log.find("Finished", i)) != std::string::npos; ++i) ++n;
    if (n != 1) fail("the end of the program is processed %zu times", n);
    for (int i = 0; i < nout; ++i) {
        Out* o = outs[i];
        const char* nm = o->tr.name.c_str();
        if (o->finishes != 1) fail("channel %s was finished %d times", nm, o->finishes);
        if (o->deleted) { if (o->writes) fail("deleted channel %s is written", nm); continue; }
        int exp = o->flush_on_exit ? 1 : 0;
        if (o->writes != exp) fail("channel %s with%s flush on exit is written %d times", nm, exp ? "" : "out", o->writes);
        if (!exp) { if (file_exists(o->file.c_str())) fail("channel %s without flush on exit has output", nm); continue; }
        CaliFile f;
        f.parse(sim_file(o->file.c_str()));
        if (!f.errors.empty()) fail("output of %s: %s", nm, f.errors[0].c_str());
        std::set<uint64_t> got;
        for (auto& r : f.recs) {
            const std::string* s = find_kv(r, "seq." + o->tr.name);
            if (!s || find_kv(r, "count")) continue;
            uint64_t q = strtoull(s->c_str(), nullptr, 10);
            if (q >= o->tr.snaps.size()) fail("output of %s contains a snapshot that was never taken", nm);
            if (!got.insert(q).second) fail("output of %s contains a snapshot twice", nm);
        }
        for (size_t q = 0; q < o->tr.snaps.size(); ++q) {
            auto& s = o->tr.snaps[q];
            if (s.t1 && s.t1 < end_tick && !s.overlap && !got.count(q)) fail("output of %s lacks a snapshot taken before the end", nm);
        }
        probe("snapshots_at_exit", got.size());
    }
    probe("ends");
}

static void mgr_destroyed_late()
{
    static cali::ConfigManager* m; // never deleted; flushed in an exit handler
    static bool once = false; if (once) return; once = true;
    m = new cali::ConfigManager; m->add("event-trace(output=/sim/m.cali)"); m->start();
    atexit([] { m->flush(); m->stop(); });
}

static void run(const Plan& p)
{
    static thread_local Static tls_first { 2 };
    (void) tls_first.which;
    clean_env();
    setenv("CALI_LOG_VERBOSITY", "1", 1);
    auto setup = [&] {
        cali_init();
        Caliper c;
        defs = new std::vector<AttrDef>;
        for (int i = 0; i < 6; ++i) {
            AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 3 ? K_UNALIGNED : i == 5 ? K_VALUE : K_NESTED; d.type = type_of(i); d.extra = 0;
            d.attr = c.create_attribute(d.name, d.type, d.prop());
            defs->push_back(d);
        }
        for (int i = 0; i < p.get("nchn"); ++i) make_out(i, (int) ((p.get("cfg") + i * 37 + (i & 1 ? p.get("cfg2") : 0)) & 255));
        if (p.get("mgr") == 1) mgr_destroyed_late();
        if (p.get("mgr") == 2) { static cali::ConfigManager m; m.add("event-trace(output=/sim/m.cali)"); m.start(); }
        if (p.get("mgr") == 3) { auto* m = new cali::ConfigManager("event-trace(output=/sim/m.cali)"); m->start(); m->flush(); delete m; }
        if (p.get("del")) { outs[0]->deleted = true; c.delete_channel(outs[0]->ch); }
    };
    if (p.get("mainuse")) setup();
    else { std::thread t(setup); t.join(); } // the main thread does not use the library
    static thread_local Static tls_second { 4 };
    (void) tls_second.which;
    static Static fn_static { 8 };
    if (p.get("atexit")) atexit(at_exit_fn);
    int nth = (int) p.get("nth");
    std::vector<std::thread>* th = new std::vector<std::thread>; // may still be running at the end
    static std::mutex m; static std::condition_variable cv; static int finished;
    for (int t = 1; t <= nth; ++t) th->emplace_back([t] {
        body(t);
        std::lock_guard<std::mutex> g(m); ++finished; cv.notify_all();
    });
    if (p.get("mainuse")) body(0);
    if (p.get("join")) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return finished == nth; }); }
    int how = (int) p.get("end");
    static int late; late = (int) p.get("late");
    switch (how) {
    case END_RETURN: end_begins(); return;
    case END_EXIT_MAIN: end_begins(); exit(0);
    case END_EXIT_WORKER: { std::thread* x = new std::thread([] { if (plan().get("cfg") & 16) cali_begin_region("exiting"); end_begins(); exit(0); }); x->join(); break; }
    case END_RELEASE_MAIN: end_begins(); Caliper::release(); { NoPreempt np; end_done = true; } annotate(0, late % 4); end_begins(); return;
    case END_RELEASE_WORKER: { std::thread x([] { end_begins(); Caliper::release(); annotate(1, late % 4); }); if (p.get("mainuse")) annotate(0, late % 7); x.join(); return; }
    case END_RELEASE_TWICE: { std::thread x([] { end_begins(); Caliper::release(); }); end_begins(); Caliper::release(); x.join(); annotate(0, 1); return; }
    }
}

PropDef sim::the_prop = { "C10", gen, run, at_end };
