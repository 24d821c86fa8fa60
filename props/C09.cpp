// C09: concurrent first use initialises the library exactly once.
#include "common.h"
#include <caliper/ConfigManager.h>
#include <caliper/cali_datatracker.h>
using namespace sim;

enum { F_REGION, F_ATTR, F_CHANNEL, F_CONFIG, F_INIT, F_SETBYNAME, F_ANNOT, F_FUNC, F_FIND, F_ALLATTR, F_PUSH, F_LOOP, F_GLOBAL, F_TREE, F_MARK, F_CONFIGSET, F_DATA, F_GET, F_CHNGET, F_PULL, F_CURRENT, NFIRST };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(2, r.chance(1, 4) ? 5 : 3);
    p.set("nth", nth);
    p.set("main", r.below(4));      // 0: main uses the library first-phase too, 1: only at the end, 2: never, 3: before the others
    p.set("services", r.below(4));  // default channel: event,trace[,timer][,aggregate]
    p.set("cfgstr", r.chance(1, 4));// CALI_CONFIG builtin manager
    p.set("early", r.chance(1, 2)); // threads leave at different times
    p.set("leave", r.below(4));     // 0: return, 1: exit() in main, 2: exit() on a worker
    p.set("nodefault", r.chance(1, 8));
    int same = r.chance(1, 3) ? (int) r.below(NFIRST) : -1;
    for (int t = 0; t <= nth; ++t) p.add(t, same >= 0 ? same : (int) r.below(NFIRST), (int) r.range(0, 3), (int) r.below(6), (int) r.below(100));
    gen_schedule(r, p, nth * 6000);
}

struct Seen { cali_id_t shared = CALI_INV_ID; cali_id_t chn = CALI_INV_ID; int regions = 0; size_t events = 0; };
static Seen seen[8];
static std::vector<std::string> regions; // every region executed
static std::vector<std::string> own_files; // outputs of configurations started by threads
static std::map<int, uint64_t> own_begin; // events seen by thread's own channel
static bool dflt, builtin;
static int ninit;

static void region(int t, int i, int how)
{
    std::string n = strf("T%d.%d", t, i);
    static const char* const kind[] = { "region", "region", "region", "phase", "comm.region", "region", "region", "loop", "region" };
    how %= 9;
    { NoPreempt np; regions.push_back(std::string(kind[how]) + ":" + n); }
    switch (how) {
    case 0: cali_begin_region(n.c_str()); cali_end_region(n.c_str()); break;
    case 1: cali_begin_byname("my.annotation"); cali_end_byname("my.annotation"); cali_begin_region(n.c_str()); cali_end_region(n.c_str()); break;
    case 2: { cali::Annotation a("region", CALI_ATTR_NESTED); (void) a; cali_begin_region(n.c_str()); cali_end_region(n.c_str()); break; }
    case 3: cali_begin_phase(n.c_str()); cali_end_phase(n.c_str()); break;
    case 4: cali_begin_comm_region(n.c_str()); cali_end_comm_region(n.c_str()); break;
    case 5: cali_begin_string_byname("region", n.c_str()); cali_end_byname("region"); break;
    case 6: { cali::Function f(n.c_str()); break; }
    case 7: { cali::Loop l(n.c_str()); l.end(); break; }
    case 8: { cali::ScopeAnnotation a(n.c_str()); break; }
    }
}

static void check_default(Caliper& c)
{
    NoPreempt np;
    int n = 0, trig = 0;
    for (Channel& ch : [&] { return c.get_all_channels(); }()) {
        if (!ch) fail("list of channels contains an invalid channel");
        if (ch.name() == "default") { ++n; if (!ch.is_active()) fail("the default channel is not active"); }
        if (ch.name() == "builtin.configmgr") ++trig;
    }
    if (n != (dflt ? 1 : 0)) fail("%d default channels", n);
    if (trig != (builtin ? 1 : 0)) fail("%d builtin configuration channels", trig);
}

static cali::ConfigManager* mgrs[8];

static void first_call(int t, int kind, int v)
{
    switch (kind) {
    case F_REGION: region(t, 100, v); break;
    case F_ATTR: seen[t].shared = cali_create_attribute("shared.attr", CALI_TYPE_INT, CALI_ATTR_ASVALUE); break;
    case F_CHANNEL: seen[t].chn = cali::create_channel(strf("own%d", t).c_str(), 0, { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } }); if (seen[t].chn == CALI_INV_ID) fail("channel could not be created"); break;
    case F_CONFIG: {
        std::string f = strf("/sim/mgr%d.cali", t);
        auto* m = new cali::ConfigManager;
        mgrs[t] = m;
        m->add(("event-trace(output=" + f + ")").c_str());
        if (m->error()) fail("configuration rejected: %s", m->error_msg().c_str());
        m->start();
        { NoPreempt np; own_files.push_back(f); }
        break;
    }
    case F_INIT: cali_init(); break;
    case F_SETBYNAME: cali_set_int_byname("shared.byname", v); { cali_variant_t x = cali_get(cali_find_attribute("shared.byname")); if (cali_variant_to_int(x, nullptr) != v) fail("value set by the first call of a thread is lost"); } break;
    case F_ANNOT: { cali::Annotation a("shared.annotation"); a.begin(v); a.end(); if (cali_find_attribute("shared.annotation") == CALI_INV_ID) fail("annotation attribute does not exist"); break; }
    case F_FUNC: { cali::Function f("shared_function"); break; }
    case F_FIND: if (cali_find_attribute("cali.caliper.version") == CALI_INV_ID) fail("attribute made by initialisation is not found"); break;
    case F_ALLATTR: { size_t n = Caliper::instance().get_all_attributes().size(); if (n < 10) fail("attributes made by initialisation are missing (%zu found)", n); break; }
    case F_PUSH: cali_push_snapshot(0, 0, nullptr, nullptr); break;
    case F_LOOP: { cali_id_t a = cali_make_loop_iteration_attribute("shared.loop"); if (cali_attribute_type(a) != CALI_TYPE_INT) fail("loop attribute has the wrong type"); break; }
    case F_GLOBAL: cali_set_global_int_byname("shared.global", 5); break;
    case F_TREE: { Caliper c; Node* n = c.make_tree_entry(c.get_attribute("cali.attribute.name"), Variant("x")); if (!n) fail("no tree entry"); break; }
    case F_MARK: { CALI_MARK_BEGIN("shared mark"); CALI_MARK_END("shared mark"); break; }
    // signal-safe entry points do not initialise anything: an empty result or the right one, never a crash
    case F_GET: { cali_variant_t x = cali_get(v); (void) x; break; }
    case F_CHNGET: { cali_variant_t x = cali_channel_get(v % 3, 8); (void) x; break; }
    case F_PULL: { unsigned char buf[512]; size_t n = cali_channel_pull_snapshot(v % 3, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, sizeof buf, buf); if (n > sizeof buf) fail("snapshot of a fresh thread needs %zu bytes", n); break; }
    case F_CURRENT: { const char* x = cali_get_current_region_or("none"); if (strcmp(x, "none") != 0) fail("a fresh thread is in region %s", x); break; }
    case F_CONFIGSET: check_default(*new Caliper); break;
    case F_DATA: { static char buf[8][64]; cali_datatracker_track(buf[t], "label", 64); cali_datatracker_untrack(buf[t]); break; }
    }
}

static void body(int t)
{
    const Plan& p = plan();
    const Op* o = nullptr;
    for (int i = 0; i < p.nops; ++i) if (p.ops[i].th == t) o = &p.ops[i];
    if (!o) return;
    first_call(t, o->kind, o->c);
    Caliper c;
    if (!c) fail("the library is not usable after a thread's first call");
    check_default(c);
    if (!cali_is_initialized() && false) fail("not initialised");
    if (seen[t].shared == CALI_INV_ID) seen[t].shared = cali_create_attribute("shared.attr", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    for (int i = 0; i < o->a; ++i) region(t, i, o->b + i * 2);
    cali_set_int(seen[t].shared, t + 1);
    if (cali_variant_to_int(cali_get(seen[t].shared), nullptr) != t + 1) fail("a thread's value is lost");
    probe("threads");
}

static void at_end(const Plan& p)
{
    NoPreempt np;
    std::string log = sim_log();
    size_t n = 0;
    for (size_t i = 0; (i = log.find("Initialized", i)) != std::string::npos; ++i) ++n;
    if (n > 1) fail("the library is initialised %zu times", n);
    n = 0;
    for (size_t i = 0; (i = log.find("Finalizing", i)) != std::string::npos; ++i) ++n;
    if (n > 1) fail("the library is finalised %zu times", n);
    auto check = [&](const char* file, const char* what) {
        if (!file_exists(file)) fail("%s has not been written", what);
        CaliFile f;
        f.parse(sim_file(file));
        if (!f.errors.empty()) fail("%s: %s", what, f.errors[0].c_str());
        std::map<std::string, int> b, e;
        for (auto& r : f.recs) {
            for (auto& kv : r) {
                if (!kv.first.compare(0, 12, "event.begin#")) ++b[kv.first.substr(12) + ":" + kv.second];
                if (!kv.first.compare(0, 10, "event.end#")) ++e[kv.first.substr(10) + ":" + kv.second];
            }
        }
        return std::make_pair(b, e);
    };
    if (dflt) {
        auto be = check("/sim/default.cali", "the default channel's output");
        for (auto& s : regions) {
            if (be.first[s] != 1) fail("begin of region %s is recorded %d times in the default channel", s.c_str(), be.first[s]);
            if (be.second[s] != 1) fail("end of region %s is recorded %d times in the default channel", s.c_str(), be.second[s]);
        }
        probe("regions", regions.size());
    }
    if (builtin) {
        auto be = check("/sim/builtin.cali", "the output of CALI_CONFIG");
        for (auto& s : regions) {
            if (be.first[s] != 1) fail("begin of region %s is recorded %d times in the CALI_CONFIG output", s.c_str(), be.first[s]);
            if (be.second[s] != 1) fail("end of region %s is recorded %d times in the CALI_CONFIG output", s.c_str(), be.second[s]);
        }
        probe("builtin");
    }
}

static void run(const Plan& p)
{
    clean_env();
    setenv("CALI_LOG_VERBOSITY", "1", 1);
    static const char* sv[] = { "event,trace,recorder", "event,timer,trace,recorder", "event,trace,aggregate,recorder", "event,timer,trace,statistics,recorder" };
    dflt = !p.get("nodefault");
    if (dflt) { setenv("CALI_SERVICES_ENABLE", p.get("services") == 2 ? sv[1] : sv[p.get("services")], 1); setenv("CALI_RECORDER_FILENAME", "/sim/default.cali", 1); setenv("CALI_TRACE_BUFFER_SIZE", "1", 1); setenv("CALI_CHANNEL_CONFIG_CHECK", "false", 1); }
    builtin = p.get("cfgstr");
    if (builtin) setenv("CALI_CONFIG", "event-trace(output=/sim/builtin.cali)", 1);
    int nth = (int) p.get("nth"), mainuse = (int) p.get("main");
    if (mainuse == 3) body(0);
    {
        static std::mutex m; static std::condition_variable cv; static int ready, gate;
        std::vector<std::thread> th;
        th.reserve(nth);
        for (int t = 1; t <= nth; ++t)
            th.emplace_back([t, &p, nth] {
                { std::unique_lock<std::mutex> g(m); ++ready; cv.notify_all(); cv.wait(g, [] { return gate > 0; }); }
                body(t);
                if (p.get("early") && t % 2) return; // the others go on after this thread has ended
                { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return gate > 1; }); }
                region(t, 50, 0);
                Caliper c;
                check_default(c);
                for (int u = 0; u <= nth; ++u) if (seen[u].shared != CALI_INV_ID && seen[u].shared != seen[t].shared) fail("threads see different attributes with the same name");
            });
        { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return ready == nth; }); gate = 1; cv.notify_all(); }
        if (mainuse == 0) body(0);
        if (p.get("early")) for (int t = 1; t <= nth; t += 2) th[t - 1].join();
        { std::lock_guard<std::mutex> g(m); gate = 2; cv.notify_all(); }
        for (auto& t : th) if (t.joinable()) t.join();
    }
    for (int t = 0; t <= nth; ++t)
        if (seen[t].chn != CALI_INV_ID) for (int u = 0; u < t; ++u) if (seen[u].chn == seen[t].chn) fail("two channels have the same id");
    if (mainuse == 1) body(0);
    if (mainuse != 2) {
        Caliper c;
        check_default(c);
        for (int t = 0; t <= nth; ++t) {
            if (seen[t].chn != CALI_INV_ID) { Channel ch = c.get_channel(seen[t].chn); if (!ch || ch.name() != strf("own%d", t)) fail("channel created by a thread is missing"); probe("own_channels"); }
            if (mgrs[t]) { mgrs[t]->flush(); mgrs[t]->stop(); delete mgrs[t]; if (!file_exists(strf("/sim/mgr%d.cali", t).c_str())) fail("configuration started by a thread's first call has no output"); probe("own_configs"); }
        }
    }
    if (p.get("leave") == 1) exit(0);
    if (p.get("leave") == 2) { std::thread t([] { exit(0); }); t.join(); }
}

PropDef sim::the_prop = { "C09", gen, run, at_end };
