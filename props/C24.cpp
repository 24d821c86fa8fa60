// C24: what the Kokkos and OpenMP runtimes report through their tool interfaces is recorded exactly once.
// The workload plays both runtimes: it calls the Kokkos profiling hooks and the OMPT callbacks that
// Caliper registers with a simulated OpenMP runtime.
#include "common.h"
#include <omp-tools.h>
using namespace sim;

struct KSpace { char name[64]; };
extern "C" {
void kokkosp_parse_args(int, char**);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void*);
void kokkosp_finalize_library();
void kokkosp_begin_parallel_for(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_reduce(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_scan(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_fence(const char*, const uint32_t, uint64_t*);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_end_fence(const uint64_t);
void kokkosp_push_profile_region(char*);
void kokkosp_pop_profile_region();
void kokkosp_allocate_data(const KSpace, const char*, const void* const, const uint64_t);
void kokkosp_deallocate_data(const KSpace, const char*, const void* const, const uint64_t);
void kokkosp_begin_deep_copy(const KSpace, const char*, const void*, const KSpace, const char*, const void*, const uint64_t);
void kokkosp_end_deep_copy();
ompt_start_tool_result_t* ompt_start_tool(unsigned, const char*);
}

enum { KFOR, KREDUCE, KSCAN, KFENCE, KREGION, USER, PARALLEL, TASK, WORKSHARE, SYNC, INITTASK, NBEGIN };
enum { END = NBEGIN, ALLOC, FREE, COPY, THREAD_END, NOPS };
enum { CREATE = 100, TOGGLE, DELETE };
enum { MAXCH = 5, MAXTH = 5 };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, 4), nph = (int) r.range(1, 4), nops = (int) r.range(4, r.chance(1, 4) ? 80 : 30);
    p.set("nth", nth); p.set("nph", nph); p.set("bg", r.chance(1, 2)); p.set("two", r.chance(1, 3));
    p.set("pre", r.chance(1, 3));       // the first phase runs before any channel exists
    p.set("early", r.chance(1, 3));     // the OpenMP runtime starts (with CALI_USE_OMPT) before the channels
    p.set("omp", r.chance(4, 5)); p.set("broken", r.chance(1, 12)); p.set("conn", r.chance(1, 4));
    for (int i = 0; i < MAXCH; ++i) p.set(strf("cfg%d", i).c_str(), r.below(64));
    p.set("nch", r.range(1, MAXCH));
    static const unsigned w[NOPS] = { 6, 4, 4, 4, 5, 5, 5, 4, 5, 5, 1, 26, 6, 5, 4, 1 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 1; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(6), (int) r.below(1 << 16), 0, r.chance(1, 3) ? (int64_t) r.logrange(1, 1000000) : 0);
        }
    int nctl = (int) r.range(0, 14);
    for (int i = 0; i < nctl; ++i) { int x = (int) r.below(10); p.add(0, x < 4 ? CREATE : x < 8 ? TOGGLE : DELETE, (int) r.below(MAXCH), 0, 0, r.chance(1, 3) ? (int64_t) r.logrange(1, 1000000) : 0); }
    if (r.chance(1, 3)) p.set("f_stall", 20000);
    if (r.chance(1, 4)) { p.set("f_cond_spurious", 100000); p.set("f_write_short", 200000); p.set("f_write_eintr", 200000); }
    gen_schedule(r, p, nth * nops * 120);
}

// ---- what happened

struct Rec { std::map<std::string, std::vector<std::string>> kv; };
enum { R_EVENT, R_OMP, R_ALLOC, R_FREE, R_COPY };
struct Exp { int type; Rec r; uint64_t a, b; int seq; int alloc_seq = 0; };
struct Span { uint64_t a, b; int state; };
struct Chn { Channel ch; bool exists = false, on = false; bool event = false, ktime = false, klook = false, alloc = false, ompt = false; std::string name; std::vector<Span> act; };
static Chn* chns; static std::deque<Exp>* exps[MAXTH];
static bool ktime_ever, klook_ever;
static Attribute tid_attr, seq_attr;

static int held(const std::vector<Span>& v, uint64_t a, uint64_t b)
{
    int st = 0;
    for (auto& s : v) { if (s.b && s.b < a) { st = s.state; continue; } if (s.a > b) break; return -1; }
    return st;
}
static const Exp* find(int th, int seq) { for (auto& e : *exps[th]) if (e.seq == seq) return &e; return nullptr; }
static int recorded(const Chn& c, int th, const Exp& e)
{
    if (e.type == R_EVENT && !c.event) return 0;
    if (e.type == R_OMP && !(c.event && c.ompt)) return 0;
    if (e.type == R_COPY && !c.klook) return 0;
    if ((e.type == R_ALLOC || e.type == R_FREE) && !(c.klook && c.alloc)) return 0;
    int h = held(c.act, e.a, e.b ? e.b : UINT64_MAX);
    if (e.type == R_FREE && h) { const Exp* al = find(th, e.alloc_seq); int x = al ? recorded(c, th, *al) : 0; if (x == 0) return 0; if (x < 0) h = -1; }
    return h;
}
static std::string show(const Rec& r)
{
    std::string s = "[";
    for (auto& k : r.kv) { s += " " + k.first + "="; for (size_t i = 0; i < k.second.size(); ++i) s += (i ? "/" : "") + k.second[i]; }
    return s + " ]";
}
static const char* const watched[] = { "region", "kernel_type", "omp.parallel", "omp.sync", "omp.work", "omp.thread.id", "omp.num.threads", "omp.thread.type", "omp.proc.id", "kokkos.space", "kokkos.size", "kokkos.src.addr", "kokkos.dst.addr",
    "mem.alloc", "mem.free", "alloc.total_size", "alloc.address" };

static bool parse(const KVs& kvs, Rec& r, int& th, int& seq)
{
    th = seq = -1; bool event = false;
    for (auto& kv : kvs) {
        const std::string& n = kv.first;
        if (n == "tid") th = atoi(kv.second.c_str());
        else if (n == "seq") seq = atoi(kv.second.c_str());
        else if (n.compare(0, 6, "event.") == 0 && n.find('#') != std::string::npos) { r.kv[n].push_back(kv.second); event = true; }
        else for (const char* w : watched) if (n == w) { r.kv[n].push_back(kv.second); if (n.compare(0, 4, "mem.") == 0 || n == "kokkos.size") event = true; }
    }
    return event;
}
static void check_records(const Chn& c, std::map<int, std::vector<std::pair<int, Rec>>>& got)
{
    for (int t = 1; t < MAXTH; ++t) {
        if (!exps[t]) continue;
        auto& g = got[t];
        size_t i = 0;
        for (auto& e : *exps[t]) {
            int need = recorded(c, t, e);
            if (i < g.size() && g[i].first == e.seq) {
                if (need == 0) fail("%s: thread %d: operation %d is recorded, but it should not be: %s", c.name.c_str(), t, e.seq, show(g[i].second).c_str());
                if (g[i].second.kv != e.r.kv) fail("%s: thread %d: operation %d is recorded as %s instead of %s", c.name.c_str(), t, e.seq, show(g[i].second).c_str(), show(e.r).c_str());
                ++i; probe(need == 1 ? "records_certain" : "records_uncertain");
            } else if (need == 1) fail("%s: thread %d: operation %d (%s) is not in the trace%s", c.name.c_str(), t, e.seq, show(e.r).c_str(), i < g.size() ? strf("; next is operation %d", g[i].first).c_str() : "");
        }
        if (i < g.size()) fail("%s: thread %d: record of operation %d was not expected (or twice): %s", c.name.c_str(), t, g[i].first, show(g[i].second).c_str());
    }
    for (auto& g : got) if ((g.first < 1 || g.first >= MAXTH || !exps[g.first]) && !g.second.empty()) fail("%s: record of no known thread: %s", c.name.c_str(), show(g.second[0].second).c_str());
    probe("channels_checked");
}
static void check_channel(Caliper& k, Chn& c)
{
    std::map<int, std::vector<std::pair<int, Rec>>> got;
    k.flush(c.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        KVs kv = decode(db, rec);
        NoPreempt np;
        Rec r; int th, seq;
        if (parse(kv, r, th, seq)) got[th].push_back({ seq, r });
    });
    NoPreempt np;
    check_records(c, got);
}

// ---- simulated OpenMP runtime

static ompt_start_tool_result_t* tool; static ompt_callback_t cbs[64]; static bool omp_live; static int finalized; static int my_proc(int t) { return t % 3 - 1; }
static thread_local int omp_proc = -1;
static int f_set_callback(ompt_callbacks_t w, ompt_callback_t cb) { NoPreempt np; if ((int) w < 64) cbs[w] = cb; return ompt_set_always; }
static int f_get_state(ompt_wait_id_t*) { return 0; }
static int f_enum_states(int, int*, const char**) { return 0; }
static int f_get_proc_id(void) { return omp_proc; }
static int ompt_channels0; // that certainly exist
static void f_finalize_tool(void)
{
    {
        NoPreempt np;
        ++finalized; omp_live = false;
        if (!tool) fail("ompt_finalize_tool() is called without a tool");
        if (ompt_channels0 > 0) fail("OMPT is finalized while %d channels use it", ompt_channels0);
    }
    tool->finalize(&tool->tool_data);
    probe("ompt_finalized");
}
static ompt_interface_fn_t f_lookup(const char* n)
{
    std::string s(n);
    if (plan().get("broken") && s == "ompt_get_proc_id") return nullptr;
    if (s == "ompt_set_callback") return (ompt_interface_fn_t) f_set_callback;
    if (s == "ompt_get_state") return (ompt_interface_fn_t) f_get_state;
    if (s == "ompt_enumerate_states") return (ompt_interface_fn_t) f_enum_states;
    if (s == "ompt_get_proc_id") return (ompt_interface_fn_t) f_get_proc_id;
    if (s == "ompt_finalize_tool") return (ompt_interface_fn_t) f_finalize_tool;
    return nullptr;
}
static void start_omp()
{
    bool want;
    { NoPreempt np; want = ompt_channels0 > 0; }
    bool env = plan().get("early");
    if (env) setenv("CALI_USE_OMPT", "true", 1);
    tool = ompt_start_tool(202011, "simulated");
    if (!!tool != (want || env)) fail("ompt_start_tool() returns %s", tool ? "a tool although none is wanted" : "no tool");
    if (!tool) return;
    int r = tool->initialize(f_lookup, 0, &tool->tool_data);
    if (plan().get("broken")) { if (r) fail("OMPT initialisation succeeds without ompt_get_proc_id"); tool = nullptr; return; }
    if (!r) fail("OMPT initialisation fails");
    NoPreempt np; omp_live = true; probe("ompt_started");
}

// ---- channels

static void create(int i)
{
    Chn& c = chns[i];
    int f = (int) plan().get(strf("cfg%d", i).c_str());
    std::map<std::string, std::string> m;
    {
        NoPreempt np;
        c.name = strf("ch%d", i);
        c.event = f & 3; c.ktime = f & 4; c.klook = f & 8; c.alloc = c.klook && (f & 16); c.ompt = f & 32;
        m["CALI_SERVICES_ENABLE"] = std::string("trace") + (c.event ? ",event" : "") + (c.ktime ? ",kokkostime" : "") + (c.klook ? ",kokkoslookup" : "") + (c.alloc ? ",alloc" : "") + (c.ompt ? ",ompt" : "");
        m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
        c.act.clear();
        c.act.push_back({ tick(), 0, 1 });
    }
    c.ch = make_channel(c.name.c_str(), m);
    if (!c.ch) fail("channel cannot be created");
    NoPreempt np;
    c.act.back().b = tick(); c.exists = c.on = true;
    ktime_ever |= c.ktime; klook_ever |= c.klook;
    if (c.ompt) ++ompt_channels0;
}
static void toggle(Chn& c)
{
    Caliper k; uint64_t a = tick();
    { NoPreempt np; c.act.push_back({ a, 0, !c.on }); }
    if (c.on) k.deactivate_channel(c.ch); else k.activate_channel(c.ch);
    NoPreempt np; c.act.back().b = tick(); c.on = !c.on;
    probe("toggles");
}
static void destroy(int i, bool quiet)
{
    Chn& c = chns[i]; Caliper k;
    if (quiet) check_channel(k, c);
    { NoPreempt np; if (c.ompt) --ompt_channels0; c.exists = false; }
    k.delete_channel(c.ch);
    NoPreempt np; c.ch = Channel(); probe("channels_deleted");
}
static void ctl_op(const Op& o, bool quiet)
{
    Chn& c = chns[o.a];
    if (o.v) advance_ns((uint64_t) o.v); else yield();
    switch (o.kind) {
    case CREATE: {
        int f = (int) plan().get(strf("cfg%d", o.a).c_str());
        if (!quiet && (((f & 4) && !ktime_ever) || ((f & 8) && !klook_ever))) break;
        if (!c.exists) { create(o.a); probe("channels_created"); }
        break;
    }
    case TOGGLE: if (c.exists) toggle(c); break;
    case DELETE: if (c.exists) destroy(o.a, quiet); break;
    }
}

// ---- the program's threads

struct Item { int kind; std::string name; bool pushed; uint64_t id = 0; int arg = 0; };
struct Th {
    std::vector<Item> st; std::map<std::string, std::vector<std::string>> ctx; int seq = 0; bool omp_thread = false, omp_begun = false; std::string proc;
    struct Al { const void* p; std::string label, space; uint64_t size; int seq; };
    std::vector<Al> live; uint64_t next_kid = 1;
};
static Th* ths;

static Exp* note(int t, Th& s, int type, std::map<std::string, std::vector<std::string>> extra)
{
    Exp e; e.type = type; e.r.kv = s.ctx; e.a = tick(); e.b = 0; e.seq = s.seq;
    for (auto i = e.r.kv.begin(); i != e.r.kv.end();) if (i->second.empty()) i = e.r.kv.erase(i); else ++i;
    for (auto& x : extra) e.r.kv[x.first] = x.second;
    exps[t]->push_back(e);
    return &exps[t]->back();
}
static Exp* note_begin(int t, Th& s, const char* attr, const std::string& v, int type)
{
    return note(t, s, type, { { std::string("event.begin#") + attr, { v } } });
}
static Exp* note_end(int t, Th& s, const char* attr, int type)
{
    return note(t, s, type, { { std::string("event.end#") + attr, { s.ctx[attr].back() } } });
}
static void done(Exp* e) { NoPreempt np; if (e) e->b = tick(); }
template <class F> static F cb(ompt_callbacks_t w) { return (F) cbs[w]; }

static const char* const ktypes[] = { "kokkos.parallel_for", "kokkos.parallel_reduce", "kokkos.parallel_scan", "kokkos.fence", "kokkos.user_region" };
static const char* const works[] = { "UNKNOWN", "loop", "sections", "single_executor", "single_other", "workshare", "distribute", "taskloop", "scope" };
static const char* const syncs[] = { "UNKNOWN", "barrier", "barrier_implicit", "barrier_explicit", "barrier_implementation", "taskwait", "taskgroup", "reduction", "barrier_implicit_workshare", "barrier_implicit_parallel", "barrier_teams" };

static void omp_thread_begin(int t, Th& s)
{
    if (s.omp_thread) return;
    Exp* e = nullptr; bool live; ompt_thread_t type = t == 1 ? ompt_thread_initial : t == 2 ? ompt_thread_worker : t == 3 ? ompt_thread_other : ompt_thread_unknown;
    static const char* const names[] = { "", "initial", "worker", "other", "unknown" };
    {
        NoPreempt np; s.omp_thread = true; live = omp_live; omp_proc = my_proc(t);
        if (live) { s.omp_begun = true; ++s.seq; }
    }
    if (!live) return;
    Caliper().set(seq_attr, Variant(s.seq));
    { NoPreempt np; if (omp_proc >= 0) s.ctx["omp.proc.id"].push_back(std::to_string(omp_proc)); e = note_begin(t, s, "omp.thread.type", names[t], R_OMP); }
    cb<ompt_callback_thread_begin_t>(ompt_callback_thread_begin)(type, nullptr);
    done(e);
    NoPreempt np; s.ctx["omp.thread.type"].push_back(names[t]);
}
static void omp_thread_end(int t, Th& s)
{
    bool live; Exp* e = nullptr;
    { NoPreempt np; live = s.omp_begun; if (live) ++s.seq; s.omp_thread = s.omp_begun = false; if (!live) return; }
    Caliper().set(seq_attr, Variant(s.seq));
    { NoPreempt np; e = note_end(t, s, "omp.thread.type", R_OMP); }
    cb<ompt_callback_thread_end_t>(ompt_callback_thread_end)(nullptr);
    done(e);
    NoPreempt np; s.ctx["omp.thread.type"].clear(); s.ctx["omp.proc.id"].clear();
    probe("omp_thread_ends");
}

static void region_op(const Op& o, int t)
{
    Th& s = ths[t];
    if (o.v) advance_ns((uint64_t) o.v);
    Caliper k;
    bool omp = o.kind >= PARALLEL && o.kind <= INITTASK;
    if (omp && !plan().get("omp")) return;
    if (omp) omp_thread_begin(t, s);
    { NoPreempt np; ++s.seq; }
    k.set(seq_attr, Variant(s.seq));
    Exp* e = nullptr;
    std::string n; uint64_t kid = 0;
    if (o.kind < NBEGIN) {
        if (s.st.size() >= 8) return;
        Item it; 
        {
            NoPreempt np;
            it.kind = o.kind; it.arg = o.b; n = strf("n%d", o.a); it.name = n; it.id = s.next_kid++ * 8 + t;
            it.pushed = o.kind == USER ? true : omp ? omp_live : ktime_ever;
            if (it.pushed && o.kind <= KREGION) { s.ctx["kernel_type"].push_back(ktypes[o.kind]); e = note_begin(t, s, "region", n, R_EVENT); }
            else if (o.kind == USER) e = note_begin(t, s, "region", n, R_EVENT);
            else if (it.pushed && o.kind == PARALLEL) e = note_begin(t, s, "omp.parallel", std::to_string(o.a + 1), R_OMP);
            else if (it.pushed && o.kind == WORKSHARE) e = note_begin(t, s, "omp.work", works[o.b % 10 <= 8 ? o.b % 10 : 0], R_OMP);
            else if (it.pushed && o.kind == SYNC) e = note_begin(t, s, "omp.sync", syncs[o.b % 13 <= 10 ? o.b % 13 : 0], R_OMP);
        }
        kid = it.id;
        switch (o.kind) {
        case KFOR: kokkosp_begin_parallel_for(n.c_str(), 0, &kid); break;
        case KREDUCE: kokkosp_begin_parallel_reduce(n.c_str(), 0, &kid); break;
        case KSCAN: kokkosp_begin_parallel_scan(n.c_str(), 0, &kid); break;
        case KFENCE: kokkosp_begin_fence(n.c_str(), 0, &kid); break;
        case KREGION: kokkosp_push_profile_region(&n[0]); break;
        case USER: cali_begin_region(n.c_str()); break;
        case PARALLEL: if (it.pushed) cb<ompt_callback_parallel_begin_t>(ompt_callback_parallel_begin)(nullptr, nullptr, nullptr, o.a + 1, 0, nullptr); break;
        case TASK: if (it.pushed) cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_begin, nullptr, nullptr, o.a + 1, o.a, ompt_task_implicit); break;
        case INITTASK: if (it.pushed) cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_begin, nullptr, nullptr, 1, 0, ompt_task_initial); break;
        case WORKSHARE: if (it.pushed) cb<ompt_callback_work_t>(ompt_callback_work)((ompt_work_t) (o.b % 10), ompt_scope_begin, nullptr, nullptr, 1, nullptr); break;
        case SYNC: if (it.pushed) cb<ompt_callback_sync_region_t>(ompt_callback_sync_region)((ompt_sync_region_t) (o.b % 13), ompt_scope_begin, nullptr, nullptr, nullptr); break;
        }
        done(e);
        NoPreempt np;
        if (it.pushed) {
            if (o.kind <= USER) s.ctx["region"].push_back(n);
            else if (o.kind == PARALLEL) s.ctx["omp.parallel"].push_back(std::to_string(o.a + 1));
            else if (o.kind == WORKSHARE) s.ctx["omp.work"].push_back(works[o.b % 10 <= 8 ? o.b % 10 : 0]);
            else if (o.kind == SYNC) s.ctx["omp.sync"].push_back(syncs[o.b % 13 <= 10 ? o.b % 13 : 0]);
            else if (o.kind == TASK) { s.ctx["omp.num.threads"].push_back(std::to_string(o.a + 1)); s.ctx["omp.thread.id"].push_back(std::to_string(o.a)); }
        }
        s.st.push_back(it);
        return;
    }
    switch (o.kind) {
    case END: {
        if (s.st.empty()) return;
        Item it; bool call;
        {
            NoPreempt np;
            it = s.st.back();
            bool om = it.kind >= PARALLEL;
            call = om ? it.pushed : true; // what was begun ends, also after the tool has finished
            if (call && it.pushed) {
                if (it.kind <= USER) e = note_end(t, s, "region", R_EVENT);
                else if (it.kind == PARALLEL) e = note_end(t, s, "omp.parallel", R_OMP);
                else if (it.kind == WORKSHARE) e = note_end(t, s, "omp.work", R_OMP);
                else if (it.kind == SYNC) e = note_end(t, s, "omp.sync", R_OMP);
            }
        }
        if (call) switch (it.kind) {
            case KFOR: kokkosp_end_parallel_for(it.id); break;
            case KREDUCE: kokkosp_end_parallel_reduce(it.id); break;
            case KSCAN: kokkosp_end_parallel_scan(it.id); break;
            case KFENCE: kokkosp_end_fence(it.id); break;
            case KREGION: kokkosp_pop_profile_region(); break;
            case USER: cali_end_region(it.name.c_str()); break;
            case PARALLEL: cb<ompt_callback_parallel_end_t>(ompt_callback_parallel_end)(nullptr, nullptr, 0, nullptr); break;
            case TASK: cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_end, nullptr, nullptr, 0, 0, ompt_task_implicit); break;
            case INITTASK: cb<ompt_callback_implicit_task_t>(ompt_callback_implicit_task)(ompt_scope_end, nullptr, nullptr, 0, 0, ompt_task_initial); break;
            case WORKSHARE: cb<ompt_callback_work_t>(ompt_callback_work)((ompt_work_t) (it.arg % 10), ompt_scope_end, nullptr, nullptr, 1, nullptr); break;
            case SYNC: cb<ompt_callback_sync_region_t>(ompt_callback_sync_region)((ompt_sync_region_t) (it.arg % 13), ompt_scope_end, nullptr, nullptr, nullptr); break;
        }
        done(e);
        NoPreempt np;
        s.st.pop_back();
        if (call && it.pushed) {
            if (it.kind <= USER) s.ctx["region"].pop_back();
            if (it.kind <= KREGION) s.ctx["kernel_type"].pop_back();
            if (it.kind == PARALLEL) s.ctx["omp.parallel"].pop_back();
            if (it.kind == WORKSHARE) s.ctx["omp.work"].pop_back();
            if (it.kind == SYNC) s.ctx["omp.sync"].pop_back();
            if (it.kind == TASK) { s.ctx["omp.num.threads"].pop_back(); s.ctx["omp.thread.id"].pop_back(); }
        } else if (call) probe("ends_without_recorded_begin");
        return;
    }
    case ALLOC: {
        KSpace sp; Th::Al a;
        {
            NoPreempt np;
            memset(&sp, 0, sizeof sp); strcpy(sp.name, o.a & 1 ? "Host" : "Cuda");
            a = { (const void*) (((uint64_t) t << 40) + (uint64_t) s.seq * 4096 * 1024), strf("a%d.%d", t, s.seq), sp.name, (uint64_t) o.b, s.seq };
            if (o.a == 5) a.label = "view";
            e = note(t, s, R_ALLOC, { { "mem.alloc", { a.label } }, { "kokkos.space", { a.space } }, { "alloc.total_size", { std::to_string(a.size) } }, { "alloc.address", { strf("%llx", (unsigned long long) (uint64_t) a.p) } } });
        }
        kokkosp_allocate_data(sp, a.label.c_str(), a.p, a.size);
        done(e);
        NoPreempt np; s.live.push_back(a);
        return;
    }
    case FREE: {
        if (s.live.empty()) return;
        KSpace sp; Th::Al a;
        {
            NoPreempt np;
            size_t i = o.b % s.live.size(); a = s.live[i]; s.live.erase(s.live.begin() + i);
            memset(&sp, 0, sizeof sp); strcpy(sp.name, a.space.c_str());
            e = note(t, s, R_FREE, { { "mem.free", { a.label } }, { "kokkos.space", { a.space } }, { "alloc.total_size", { std::to_string(-(int64_t) a.size) } }, { "alloc.address", { strf("%llx", (unsigned long long) (uint64_t) a.p) } } });
            e->alloc_seq = a.seq;
        }
        kokkosp_deallocate_data(sp, a.label.c_str(), a.p, a.size);
        done(e);
        return;
    }
    case COPY: {
        KSpace sp; uint64_t d = 0x10000 + 64ull * o.a, sr = 0x900000 + 64ull * o.b;
        {
            NoPreempt np;
            memset(&sp, 0, sizeof sp); strcpy(sp.name, "Host");
            e = note(t, s, R_COPY, { { "kokkos.size", { std::to_string(o.b) } }, { "kokkos.dst.addr", { strf("%llx", (unsigned long long) d) } }, { "kokkos.src.addr", { strf("%llx", (unsigned long long) sr) } } });
        }
        kokkosp_begin_deep_copy(sp, "d", (const void*) d, sp, "s", (const void*) sr, (uint64_t) o.b);
        kokkosp_end_deep_copy();
        done(e);
        return;
    }
    case THREAD_END: if (plan().get("omp")) { for (auto& i : s.st) if (i.kind >= PARALLEL) return; omp_thread_end(t, s); } return;
    }
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper k;
    int nth = (int) p.get("nth"), nph = (int) p.get("nph");
    chns = new Chn[MAXCH]; ths = new Th[MAXTH];
    for (int t = 1; t <= nth; ++t) exps[t] = new std::deque<Exp>;
    tid_attr = k.create_attribute("tid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_SCOPE_THREAD);
    seq_attr = k.create_attribute("seq", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_SCOPE_THREAD);
    kokkosp_init_library(0, 20211015, 0, nullptr);
    std::vector<std::vector<Op>> ops(MAXTH);
    { NoPreempt np; for (int i = 0; i < p.nops; ++i) if (p.ops[i].th >= 0 && p.ops[i].th < MAXTH) ops[p.ops[i].th].push_back(p.ops[i]); }
    bool bg = p.get("bg"), two = p.get("two") && bg;
    std::vector<char> init(MAXTH);
    Crew crew;
    crew.start(nth + two, [&](int i, int ph) {
        if (i > nth) { // second control thread, for the channels with odd numbers
            for (size_t j = 0; j < ops[0].size(); ++j) if ((int) j % nph == ph && (ops[0][j].a & 1) && ph > 0) ctl_op(ops[0][j], false);
            return;
        }
        if (!init[i]) { Caliper c; c.set(tid_attr, Variant(i)); NoPreempt np; init[i] = 1; }
        size_t n = ops[i].size();
        for (size_t j = n * ph / nph; j < n * (ph + 1) / nph; ++j) region_op(ops[i][j], i);
    });
    Chn conn; conn.name = "connector";
    auto setup = [&] {
        if (p.get("omp") && p.get("early")) start_omp();
        for (int i = 0; i < p.get("nch"); ++i) create(i);
        if (p.get("conn")) {
            static char a0[] = "program", a1[] = "event-trace(output=/sim/kokkos.cali,trace.kokkos)"; static char* argv[] = { a0, a1, nullptr };
            { NoPreempt np; conn.event = conn.ktime = true; conn.act.push_back({ tick(), 0, 1 }); }
            kokkosp_parse_args(2, argv);
            NoPreempt np; conn.act.back().b = tick(); ktime_ever = true;
        }
        if (p.get("omp") && !p.get("early")) start_omp();
    };
    if (!p.get("pre")) setup();
    for (int ph = 0; ph < nph; ++ph) {
        if (ph == 1 && p.get("pre")) setup();
        if (bg && ph > 0) {
            crew.launch();
            for (size_t j = 0; j < ops[0].size(); ++j) if ((int) j % nph == ph && !(two && (ops[0][j].a & 1))) ctl_op(ops[0][j], false);
            crew.wait();
        } else {
            crew.launch(); crew.wait();
            for (size_t j = 0; j < ops[0].size(); ++j) if ((int) j % nph == ph && (ph > 0 || !p.get("pre"))) ctl_op(ops[0][j], true);
        }
    }
    for (int i = 0; i < MAXCH; ++i) if (chns[i].exists) { if (p.seed & (1 << i)) check_channel(k, chns[i]); else destroy(i, true); }
    if (p.get("conn") && !conn.act.empty()) {
        kokkosp_finalize_library();
        NoPreempt np;
        CaliFile f; f.parse(sim_file("/sim/kokkos.cali"));
        if (!f.errors.empty()) fail("connector output: %s", f.errors[0].c_str());
        std::map<int, std::vector<std::pair<int, Rec>>> got;
        for (auto& kv : f.recs) { Rec r; int th, seq; if (parse(kv, r, th, seq)) got[th].push_back({ seq, r }); }
        check_records(conn, got);
        probe("connector_outputs");
    }
    { NoPreempt np; ompt_channels0 = 0; } // the end of the program may finalize OMPT
    //   the runtimes go on calling
    crew.stop();
    uint64_t kid = 0;
    kokkosp_begin_parallel_for("late", 0, &kid); kokkosp_end_parallel_for(kid);
    KSpace sp; memset(&sp, 0, sizeof sp);
    kokkosp_allocate_data(sp, "late", &kid, 8); kokkosp_deallocate_data(sp, "late", &kid, 8);
}

PropDef sim::the_prop = { "C24", gen, run, nullptr };
