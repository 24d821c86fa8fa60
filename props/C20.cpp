// C20: loop, region and time-series monitors attribute every iteration and interval exactly once.
#include "common.h"
#include <cmath>
// not enabled in this build of the library, but part of the sources: used as an extra service
#include <services/monitor/ThreadMonitor.cpp>
namespace sv = cali::services;
using namespace sim;

enum { LOOP, ENDLOOP, ITER, ENDITER, REGION, ENDREGION, WORK, CLOSE, JUMP, TOGGLE, PULSE, NOPS };
enum { M_LOOPMON = 1, M_STATS = 2, M_REGION = 4, M_THREAD = 8, M_SERIES = 16 };

static void gen(Rng& r, Plan& p)
{
    int nth = r.chance(1, 2) ? 0 : (int) r.range(1, 3);
    p.set("nth", nth);
    int nch = (int) r.range(1, 3); p.set("nchn", nch);
    static const int kinds[] = { M_LOOPMON, M_LOOPMON, M_STATS, M_REGION, M_REGION, M_THREAD, M_SERIES, M_SERIES };
    for (int i = 0; i < nch; ++i) {
        p.set(strf("kind%d", i).c_str(), kinds[r.below(8)]);
        p.set(strf("ival%d", i).c_str(), r.chance(1, 4) ? 0 : r.range(1, r.chance(1, 2) ? 3 : 9));
        p.set(strf("tval%d", i).c_str(), r.chance(1, 2) ? 0 : r.range(1, 50));     // ms
        p.set(strf("tgt%d", i).c_str(), r.chance(1, 2) ? 0 : 1 + r.below(7));
        p.set(strf("late%d", i).c_str(), r.chance(1, 5) ? 1 + r.below(30) : 0);    // created after so many operations of thread 0
        p.set(strf("gone%d", i).c_str(), r.chance(1, 6) ? 10 + r.below(60) : 0);
    }
    p.set("secs", r.range(0, 12));
    p.set("ns_per_point", r.chance(1, 2) ? 0 : r.range(1, 2000));
    if (r.chance(1, 2)) p.set("f_sleep_eintr", r.range(10000, 300000));
    if (r.chance(1, 4)) p.set("f_stall", r.range(100, 2000));
    if (!nth && r.chance(1, 20)) p.set("f_thread_create", 300000);
    int jump = r.chance(1, 3);
    int nops = (int) r.range(5, r.chance(1, 3) ? 120 : 50);
    unsigned w[NOPS] = { 8, 5, 22, 20, 10, 9, 14, 3, (unsigned) jump, nth || r.chance(2, 3) ? 0u : 6u, 0u };
    for (int i = 0; i < nch; ++i) if (p.get(strf("kind%d", i).c_str()) == M_SERIES && r.chance(1, 3)) w[PULSE] = (unsigned) r.range(1, 4), p.set("cap_points", 12000000);
    bool regions = false; for (int i = 0; i < nch; ++i) regions = regions || p.get(strf("kind%d", i).c_str()) == M_REGION;
    if (regions && r.chance(1, 2)) w[REGION] = w[ENDREGION] = 25, w[WORK] = 25, w[LOOP] = 3, p.set("names", 1);
    if (r.chance(1, 3)) w[LOOP] = 3, w[ENDLOOP] = 1;
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(64), (int) r.below(64), 0, k == JUMP ? r.range(-100, 100) * 100000000ll : (int64_t) r.logrange(1000, 100000000));
        }
    gen_schedule(r, p, (nth + 1) * nops * 100);
}

struct Got { int chn; uint64_t n0; KVs kv; const void* path; };
struct Frame { int type; std::string name; int id; uint64_t t0, t1; int iters = 0; int64_t next = 0; bool inside[3] = { false, false, false }; // LOOP, ITER, REGION; start between t0 and t1
               int depth; };
struct Th {
    int t = 0; std::vector<Frame> st; uint64_t t0 = 0; bool armed = false; std::vector<Got> got; int serial = 0;
    // per channel: the loop being monitored
    struct Lm { int target = -1; int64_t iters = 0, total = 0, start = 0; uint64_t last_lo = 0, last_hi = 0; } lm[3];
    struct Rm { std::map<std::string, std::pair<double, double>> lo, hi; int measuring = -1; uint64_t m0 = 0, m1 = 0; std::set<std::string> maybe; } rm[3];
};
static std::deque<Th>* ths;
static thread_local Th* th;

struct Chn {
    Channel ch; int idx = 0, kind = 0; bool on = false, gone = false, active = true, lost = false; int64_t ival = 0, tval = 0; std::vector<std::string> targets; std::string name;
    int64_t created_loops = 0;
    // monitor thread
    std::vector<uint64_t> ev; uint64_t born = 0; bool failed = false; 
    // time series: what was executed and reported since the last record
    uint64_t series = 0; bool counted = false;
};
static Chn chns[3]; static int nch;
static std::map<std::string, uint64_t>* visits[3]; // region instances ended since the last time series record
static std::map<std::string, uint64_t>* seen[3];   // reported in the current flush
static std::map<std::string, uint64_t>* all_vis, *all_seen[3];
static Attribute loop_a, iter_a[8], reg_a;
static int n_lm, nthreads;

static std::string key_of(const KVs& kv)
{
    std::string s;
    for (auto& p : kv) if (p.first == "loop" || p.first == "region") s += "/" + p.second;
    return s;
}
static std::string path_of(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) if (th->st[i].type != ITER) s += "/" + th->st[i].name; return s; }

static void on_rec(int ci, Caliper* c, SnapshotView v)
{
    NoPreempt np;
    Chn& k = chns[ci];
    KVs kv = decode(*c, v);
    if (k.kind == M_THREAD) {
        if (!find_kv(kv, "monitor.event")) return;
        if (k.gone) fail("the monitor thread of a deleted channel takes measurements");
        int64_t n = kv_int(kv, "monitor.event");
        uint64_t now = now_ns();
        if (n != (int64_t) k.ev.size()) fail("monitoring event %lld reported after %zu events", (long long) n, k.ev.size());
        uint64_t prev = k.ev.empty() ? k.born : k.ev.back();
        if (now - prev < (uint64_t) k.ival * 1000000000ull) fail("monitoring event %lld comes %.3f s after the previous one, the interval is %lld s", (long long) n, 1e-9 * (now - prev), (long long) k.ival);
        k.ev.push_back(now); probe("monitor event");
        return;
    }
    if (th && th->armed) th->got.push_back({ ci, now_ns(), kv, nullptr });
}

static void op_begin() { NoPreempt np; th->t0 = now_ns(); th->got.clear(); th->armed = true; }

static bool is_target(const Chn& c, const std::string& n)
{
    if (c.targets.empty()) return true;
    for (auto& s : c.targets) if (s == n) return true;
    return false;
}

// ---------------------------------------------------------------- checks of the records of one operation
enum Ev { B, E };
static std::vector<Got> of(int c) { std::vector<Got> r; for (auto& g : th->got) if (g.chn == c) r.push_back(g); return r; }

static int depth_of_loops(size_t n) { int d = 0; for (size_t i = 0; i < n; ++i) if (th->st[i].type == LOOP) ++d; return d; }

static void check_series(Chn& c, Ev ev, const std::vector<Got>& g, uint64_t t1, size_t nown, bool pulse = false);

static void check_loopmon(Chn& c, Ev ev, const Frame& f, bool jumpy, uint64_t t1)
{
    auto& m = th->lm[c.idx]; auto all = of(c.idx); std::vector<Got> g;
    for (auto& x : all) if (find_kv(x.kv, c.kind == M_SERIES ? "timeseries.duration" : "loop.iterations")) g.push_back(x);
    if (c.kind == M_LOOPMON && g.size() != all.size()) fail("unexpected record on the loop monitor channel: %s", show(all[0].kv).c_str());
    int lv = depth_of_loops(th->st.size());      // the frame itself included (begin: already pushed, end: not yet popped)
    bool expect = false, maybe = false; int64_t want = m.iters; bool closes = false;
    if (f.type == LOOP && ev == B) {
        if (m.target < 0 && is_target(c, f.name)) { m.target = lv; expect = true; closes = true; }
    } else if (f.type == LOOP) {
        if (m.target == lv) { expect = true; closes = true; }
    } else if (f.type == ITER && m.target == lv) {
        if (ev == B) { if (m.iters++ == 0) m.start = f.id; ++m.total; want = m.iters; }
        else {
            if (c.ival > 0 && m.iters % c.ival == 0) expect = true;
            if (c.tval > 0) {
                int64_t lim = c.tval * 1000000;
                if ((int64_t) (th->t0 - m.last_hi) > lim + 1000) expect = true;
                else if ((int64_t) (t1 - m.last_lo) > lim - 1000) maybe = true;
            }
        }
    }
    if (c.lost) {
        // the channel was inactive during the outermost open region: it can't know which loop it is in
        if (!g.empty()) {
            std::string p = path_of(ev == B ? th->st.size() - 1 : th->st.size());
            if (key_of(g[0].kv) != p) fail("loop monitor: the record of %s has path %s", p.c_str(), key_of(g[0].kv).c_str());
        }
        if (c.kind == M_SERIES) check_series(c, ev, all, t1, g.size());
        return;
    }
    if (g.size() > 1) fail("loop monitor: %zu records for one operation", g.size());
    if (!expect && !maybe && !g.empty()) fail("loop monitor: unexpected record at the %s of %s: %s (%lld iterations since the last)", ev == B ? "begin" : "end", f.name.c_str(), show(g[0].kv).c_str(), (long long) m.iters);
    if (expect && g.empty()) fail("loop monitor: no record at the %s of %s after %lld iterations and %.3f ms (interval %lld iterations, %lld ms)", ev == B ? "begin" : "end", f.name.c_str(), (long long) m.iters, 1e-6 * (t1 - m.last_lo), (long long) c.ival, (long long) c.tval);
    if (!g.empty()) {
        const KVs& kv = g[0].kv;
        if (kv_int(kv, "loop.iterations") != want) fail("loop monitor: %lld iterations since the last record, reported: %s", (long long) want, show(kv).c_str());
        int64_t s = kv_int(kv, "loop.start_iteration", INT64_MIN);
        if (want > 0 ? s != m.start : s != INT64_MIN) fail("loop monitor: the record's iterations start at %lld: %s", (long long) m.start, show(kv).c_str());
        std::string p = path_of(ev == B ? th->st.size() - 1 : th->st.size());
        if (key_of(kv) != p) fail("loop monitor: the record of %s has path %s", p.c_str(), key_of(kv).c_str());
        m.iters = 0; m.last_lo = g[0].n0; m.last_hi = t1;
        probe("loop monitor record");
    }
    if (c.kind == M_SERIES) check_series(c, ev, all, t1, g.size());
    if (ev == E && f.type == LOOP && closes) { if (m.iters) harness_error("iterations left"); m.target = -1; }
}

static void check_series(Chn& c, Ev ev, const std::vector<Got>& g, uint64_t t1, size_t nown, bool pulse)
{
    std::map<std::string, uint64_t> got;
    int own = 0;
    for (auto& x : g) {
        const std::string* st = find_kv(x.kv, "timeseries.starttime"); 
        if (!st) fail("time series record without a start time: %s", show(x.kv).c_str());
        if (kv_int(x.kv, "timeseries.snapshot", -1) < 0) fail("time series record without a number: %s", show(x.kv).c_str());
        if (const std::string* d = find_kv(x.kv, "timeseries.duration")) {
            ++own; double v = atof(d->c_str());
            if (v < 0 || v > 1e-9 * now_ns() + 1) fail("time series interval of %g s after %g s of run time: %s", v, 1e-9 * now_ns(), show(x.kv).c_str());
            if (nthreads == 0) {
                if (kv_int(x.kv, "timeseries.snapshot") != (int64_t) c.series) fail("time series record %llu expected: %s", (unsigned long long) c.series, show(x.kv).c_str());
                ++c.series;
            }
            probe("time series interval");
        } else {
            uint64_t n = (uint64_t) std::max<int64_t>(kv_int(x.kv, "count"), 0);
            got[key_of(x.kv)] += n; (*all_seen[c.idx])[key_of(x.kv)] += n;
        }
    }
    if (pulse && own != 1) fail("time series: %d interval records for one snapshot", own);
    if (nthreads || !nown) return;
    // the snapshot of the present operation is in this interval or the next, as the channels are ordered
    std::string here = path_of(ev == B ? th->st.size() - 1 : th->st.size()); bool carry = false;
    auto& vis = *visits[c.idx];
    if (pulse) { } else if (got[here] == vis[here] + 1) ++vis[here]; else carry = true;
    for (auto& v : vis) if (v.second && got[v.first] != v.second) fail("time series: %s had %llu events in the interval, %llu are reported", v.first.c_str(), (unsigned long long) v.second, (unsigned long long) got[v.first]);
    for (auto& v : got) if (v.second != vis[v.first]) fail("time series: %s had %llu events in the interval, %llu are reported", v.first.c_str(), (unsigned long long) vis[v.first], (unsigned long long) v.second);
    c.counted = !carry;
    visits[c.idx]->clear();
    probe("time series exact");
}

static void check_stats(Chn& c, Ev ev, const Frame& f, uint64_t t1)
{
    auto g = of(c.idx);
    bool in_loop = depth_of_loops(th->st.size()) > 0;
    bool expect = ev == E && ((f.type == ITER && in_loop) || f.type == LOOP);
    if (c.lost) {
        if (g.size() > (expect ? 1 : 0)) fail("loop statistics: %zu records at the %s of %s", g.size(), ev == B ? "begin" : "end", f.name.c_str());
        if (!g.empty() && key_of(g[0].kv) != path_of(th->st.size())) fail("loop statistics: the record of %s has path %s", path_of(th->st.size()).c_str(), key_of(g[0].kv).c_str());
        return;
    }
    if (g.size() != (expect ? 1 : 0)) fail("loop statistics: %zu records at the %s of %s", g.size(), ev == B ? "begin" : "end", f.name.c_str());
    if (!expect) return;
    const KVs& kv = g[0].kv;
    if (key_of(kv) != path_of(th->st.size())) fail("loop statistics: the record of %s has path %s", path_of(th->st.size()).c_str(), key_of(kv).c_str());
    if (f.type == LOOP) { if (kv_int(kv, "iter.count") != f.iters) fail("loop statistics: loop %s had %d iterations: %s", f.name.c_str(), f.iters, show(kv).c_str()); }
    else {
        int64_t d = kv_int(kv, "iter.duration.ns");
        if (d < (int64_t) (th->t0 - f.t1) || d > (int64_t) (t1 - f.t0)) fail("loop statistics: an iteration took %llu to %llu ns: %s", (unsigned long long) (th->t0 - f.t1), (unsigned long long) (t1 - f.t0), show(kv).c_str());
    }
    probe("loop statistics record");
}

//   A region is measured if an earlier instance (in this thread) was longer than the limit and more than
//   twice as long as its measured children.  lo/hi: (last duration, children) as known to the harness.
static void check_region(Chn& c, Ev ev, const Frame& f, uint64_t t1)
{
    auto& m = th->rm[c.idx]; auto g = of(c.idx);
    if (f.type == ITER) { if (!g.empty()) fail("region monitor: unexpected record: %s", show(g[0].kv).c_str()); return; }
    std::string p = path_of(th->st.size());
    double lim = 1e-3 * c.tval;
    if (c.lost) {
        if (g.size() > (ev == E ? 1 : 0)) fail("region monitor: unexpected record: %s", show(g[0].kv).c_str());
        if (!g.empty() && key_of(g[0].kv) != p) fail("region monitor: the record of %s has path %s", p.c_str(), key_of(g[0].kv).c_str());
        if (ev == E) {           // the duration it determines is open
            m.hi[p].first = 1e9; m.maybe.insert(p);
            size_t up = th->st.size() - 1;
            while (up > 0 && th->st[up - 1].type == ITER) --up;
            m.hi[path_of(up)].second += 1e9;
        }
        return;
    }
    if (ev == B) {
        if (!g.empty()) fail("region monitor: record at a begin: %s", show(g[0].kv).c_str());
        if (m.measuring >= 0) return;
        auto l = m.lo.find(p), h = m.hi.find(p);
        if (nthreads) return;            // threads can create the nodes of a path twice: which ones are measured is open
        bool sure = l != m.lo.end() && l->second.first > 2 * h->second.second + 1e-5 && !m.maybe.count(p);
        bool poss = h != m.hi.end() && h->second.first > 2 * (l != m.lo.end() ? l->second.second : 0) - 1e-5 && h->second.first > 0;
        if (sure) { m.measuring = (int) th->st.size(); m.m0 = th->t0; m.m1 = t1; }
        else if (poss) { m.measuring = (int) th->st.size(); m.m0 = th->t0; m.m1 = 0; }
        return;
    }
    bool mine = m.measuring == (int) th->st.size();
    bool open = m.measuring >= 0 && !m.m1 && !mine;      // an outer region may be measured
    if (open && !g.empty()) { m.measuring = -1; open = false; mine = true; }
    if (g.size() > 1 || (!g.empty() && !mine && !nthreads)) fail("region monitor: unexpected record at the end of %s: %s", p.c_str(), show(g[0].kv).c_str());
    if (mine && m.m1 && g.empty()) fail("region monitor: no record for %s, which was longer than the interval before", p.c_str());
    if (!g.empty()) {
        const KVs& kv = g[0].kv;
        if (f.inside[c.idx]) fail("region monitor: a region inside of %s was also measured: %s", p.c_str(), show(kv).c_str());
        for (auto& x : th->st) x.inside[c.idx] = true;
        if (key_of(kv) != p) fail("region monitor: the record of %s has path %s", p.c_str(), key_of(kv).c_str());
        const std::string* d = find_kv(kv, "time.duration.ns");
        if (!d) fail("region monitor: record without time: %s", show(kv).c_str());
        int64_t v = (int64_t) atof(d->c_str());
        if (v < (int64_t) (th->t0 - f.t1) - 2 || v > (int64_t) (t1 - f.t0) + 2) fail("region monitor: %s took %llu to %llu ns: %s", p.c_str(), (unsigned long long) (th->t0 - f.t1), (unsigned long long) (t1 - f.t0), show(kv).c_str());
        probe("region monitor record");
    }
    if (mine) m.measuring = -1;
    if (m.measuring >= 0 && !open) return;
    double dlo = 1e-9 * (double) (th->t0 - f.t1), dhi = 1e-9 * (double) (t1 - f.t0);
    size_t up = th->st.size() - 1; std::string pp;
    while (up > 0 && th->st[up - 1].type == ITER) --up;
    pp = path_of(up);
    if (dhi > lim - 1e-6) {
        bool surely = dlo > lim + 1e-6 && !open;
        auto& h = m.hi[p]; h.first = surely ? dhi : std::max(h.first, dhi);
        if (surely) { auto& l = m.lo[p]; l.first = dlo; m.maybe.erase(p); } else m.maybe.insert(p);
        if (!pp.empty()) { m.hi[pp].second += dhi; if (surely) m.lo[pp].second += dlo; }
    }
}

static void op_end(Ev ev, const Frame& f)
{
    th->armed = false;
    uint64_t t1 = now_ns();
    for (int i = 0; i < nch; ++i) {
        Chn& c = chns[i];
        if (!c.on) continue;
        if (!c.active) { auto g = of(i); if (!g.empty() && c.kind != M_THREAD) fail("record on an inactive channel: %s", show(g[0].kv).c_str()); continue; }
        if (c.lost && ev == B && th->st.size() == 1) {
            c.lost = false; probe("back after inactivity");
            auto& m = th->lm[i]; m.target = -1; m.iters = 0;
            th->rm[i].measuring = -1;
        }
        if (c.kind == M_LOOPMON || c.kind == M_SERIES) check_loopmon(c, ev, f, false, t1);
        else if (c.kind == M_STATS) check_stats(c, ev, f, t1);
        else if (c.kind == M_REGION) check_region(c, ev, f, t1);
    }
    std::string here = path_of(ev == B ? th->st.size() - 1 : th->st.size());
    for (int i = 0; i < nch; ++i) { if (chns[i].on && chns[i].kind == M_SERIES && !chns[i].counted) ++(*visits[i])[here]; chns[i].counted = false; }
    ++(*all_vis)[here];
    for (auto& g : th->got) observe(show(g.kv).c_str());
}

// ---------------------------------------------------------------- operations
static const char* loop_names[] = { "la", "lab", "lb", "other" };

static void begin_frame(int type, const Op& o)
{
    Frame f; f.type = type; f.depth = (int) th->st.size();
    Attribute a; Variant v;
    {
        NoPreempt np;
        if (th->st.size() >= 9) return;
        if (type == LOOP) { if (depth_of_loops(th->st.size()) >= 3) return; f.name = loop_names[o.a % 4]; a = loop_a; }
        if (type == ITER) {
            if (th->st.empty() || th->st.back().type != LOOP) { return; }
            Frame& l = th->st.back();
            if (!l.iters) l.next = o.b % 5 == 0 ? -(int64_t) (o.a % 6) : o.a % 3;
            f.id = (int) l.next++; ++l.iters; f.name = strf("iteration %d", f.id);
            a = iter_a[depth_of_loops(th->st.size())]; 
        }
        if (type == REGION) { f.name = strf("r%d", o.a % (plan().get("names") ? 2 : 3)); a = reg_a; }
        th->st.push_back(f);
    }
    Frame& g = th->st.back();
    v = type == ITER ? Variant(f.id) : Variant(CALI_TYPE_STRING, g.name.c_str(), g.name.size());
    op_begin();
    Caliper().begin(a, v);
    NoPreempt np;
    g.t0 = th->t0; g.t1 = now_ns();
    op_end(B, g);
}
static void end_frame()
{
    Attribute a;
    { NoPreempt np; Frame& f = th->st.back(); a = f.type == LOOP ? loop_a : f.type == REGION ? reg_a : iter_a[depth_of_loops(th->st.size())]; }
    op_begin();
    Caliper().end(a);
    NoPreempt np;
    Frame f = th->st.back();
    op_end(E, f);
    th->st.pop_back();
}

static void make(int i)
{
    Chn& c = chns[i];
    const Plan& p = plan();
    std::map<std::string, std::string> cfg;
    std::string sv;
    c.idx = i; c.kind = (int) p.get(strf("kind%d", i).c_str(), 1); c.name = strf("c%d", i);
    c.ival = p.get(strf("ival%d", i).c_str()); c.tval = p.get(strf("tval%d", i).c_str());
    int tg = (int) p.get(strf("tgt%d", i).c_str());
    std::string tl;
    for (int k = 0; k < 3; ++k) if (tg >> k & 1) { c.targets.push_back(loop_names[k]); tl += (tl.empty() ? "" : ",") + std::string(loop_names[k]); }
    switch (c.kind) {
    case M_LOOPMON: case M_SERIES:
        sv = c.kind == M_SERIES ? "loop_monitor,timeseries" : "loop_monitor";
        cfg["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = std::to_string(c.ival);
        if (c.tval) cfg["CALI_LOOP_MONITOR_TIME_INTERVAL"] = strf("%g", 1e-3 * c.tval);
        if (!tl.empty()) cfg["CALI_LOOP_MONITOR_TARGET_LOOPS"] = tl;
        break;
    case M_STATS: sv = "loop_statistics"; break;
    case M_REGION: if (!c.tval) c.tval = 10; sv = "region_monitor,timer"; cfg["CALI_REGION_MONITOR_TIME_INTERVAL"] = strf("%g", 1e-3 * c.tval); cfg["CALI_TIMER_SNAPSHOT_DURATION"] = "true"; cfg["CALI_TIMER_UNIT"] = "nsec"; break;
    case M_THREAD: c.ival = 1 + c.ival % 3; sv = "thread_monitor"; cfg["CALI_MONITOR_INTERVAL"] = std::to_string(c.ival); break;
    }
    cfg["CALI_SERVICES_ENABLE"] = sv;
    { NoPreempt np; c.born = now_ns(); }
    c.ch = make_channel(c.name.c_str(), cfg, false);
    c.ch.events().process_snapshot.connect([i](Caliper* c, SnapshotView, SnapshotView v) { on_rec(i, c, v); });
    cali_activate_channel(c.ch.id());
    NoPreempt np;
    c.on = true;
}
static void drop(int i)
{
    Chn& c = chns[i];
    { NoPreempt np; c.on = false; }
    Caliper().delete_channel(c.ch);
    NoPreempt np;
    c.gone = true; probe("channel deleted");
}

static void exec(const Op& o)
{
    switch (o.kind) {
    case LOOP: begin_frame(LOOP, o); break;
    case ITER:
        if (!th->st.empty() && th->st.back().type == ITER && o.a % 4) end_frame();
        begin_frame(ITER, o); break;
    case REGION: begin_frame(REGION, o); break;
    case ENDLOOP: if (!th->st.empty() && th->st.back().type == LOOP) end_frame(); break;
    case ENDITER: if (!th->st.empty() && th->st.back().type == ITER) end_frame(); break;
    case ENDREGION: if (!th->st.empty() && th->st.back().type == REGION) end_frame(); break;
    case WORK: advance_ns((uint64_t) o.v); break;
    case CLOSE: for (int n = o.a % 4; n-- > 0 && !th->st.empty();) end_frame(); break;
    case JUMP: set_clock_offset(o.v); probe("clock jump"); break;
    case PULSE: {        // a snapshot from outside of the loop monitor ends an interval, too
        for (int i = 0; i < nch; ++i) {
            Chn& c = chns[i];
            if (!c.on || !c.active || c.kind != M_SERIES) continue;
            op_begin();
            Caliper().push_snapshot(c.ch.body(), SnapshotView());
            NoPreempt np;
            th->armed = false;
            uint64_t t1 = now_ns();
            check_series(c, E, of(i), t1, 1, true); c.counted = false;
            auto& m = th->lm[i]; (void) m;
            for (auto& g : th->got) observe(show(g.kv).c_str());
            probe("time series pulse");
        }
        break;
    }
    case TOGGLE: {
        Chn& c = chns[o.a % nch];
        if (!c.on || nthreads) break;
        if (c.active) cali_deactivate_channel(c.ch.id()); else cali_activate_channel(c.ch.id());
        NoPreempt np;
        c.active = !c.active;
        if (!th->st.empty()) c.lost = true;
        probe(c.active ? "channel activated" : "channel deactivated");
        break;
    }
    }
}

static void run(const Plan& p)
{
    clean_env();
    int nth = nthreads = (int) p.get("nth");
    nch = (int) p.get("nchn", 1);
    {
        NoPreempt np;
        ths = new std::deque<Th>(nth + 1);
        for (int i = 0; i < 3; ++i) { visits[i] = new std::map<std::string, uint64_t>; seen[i] = new std::map<std::string, uint64_t>; all_seen[i] = new std::map<std::string, uint64_t>; }
        all_vis = new std::map<std::string, uint64_t>;
    }
    static const cali::CaliperService extra[] = { cali::thread_monitor_service, { nullptr, nullptr } };
    Caliper c = Caliper::instance();
    sv::add_service_specs(extra);
    loop_a = c.get_attribute("loop"); reg_a = c.get_attribute("region");
    for (int i = 0; i < 8; ++i) iter_a[i] = c.get_attribute(cali_make_loop_iteration_attribute(strf("d%d", i).c_str()));
    for (int i = 0; i < nch; ++i) if (!p.get(strf("late%d", i).c_str()) || nth) make(i);
    auto body = [&](int t) {
        th = &(*ths)[t]; th->t = t;
        int n = 0;
        for (int i = 0; i < p.nops; ++i) if (p.ops[i].th == t) {
            exec(p.ops[i]);
            ++n;
            if (t == 0) for (int k = 0; k < nch; ++k) {
                if (!nth && p.get(strf("late%d", k).c_str()) == n) { while (!th->st.empty()) end_frame(); make(k); }
                if (!nth && p.get(strf("gone%d", k).c_str()) == n && chns[k].on) drop(k);
            }
        }
        while (!th->st.empty()) end_frame();
        th->armed = false;
    };
    run_threads(nth, true, body);
    // monitor threads: progress once the faults stop
    std::vector<size_t> before;
    for (int i = 0; i < nch; ++i) before.push_back(chns[i].ev.size());
    struct timespec s { (time_t) p.get("secs"), 5000000 };
    { NoFaults nf; nanosleep(&s, nullptr); }
    faults_off();
    uint64_t e0 = now_ns();
    s.tv_sec = 10; s.tv_nsec = 0;
    for (int i = 0; i < nch; ++i) before[i] = chns[i].ev.size();
    nanosleep(&s, nullptr);
    for (int i = 0; i < nch; ++i) {
        Chn& k = chns[i];
        if (!k.on || k.kind != M_THREAD) continue;
        size_t want = (size_t) (10 / k.ival) - 1;
        if (k.ev.size() - before[i] + (p.get("f_stall") ? 3 : 0) < want && !(p.get("f_thread_create") && k.ev.empty())) fail("monitor thread: %zu events in %.1f s with an interval of %lld s (%zu before)", k.ev.size() - before[i], 1e-9 * (now_ns() - e0), (long long) k.ival, before[i]);
        probe("monitor progress");
    }
    for (int i = 0; i < nch; ++i)
        if (chns[i].on && chns[i].kind == M_SERIES) for (auto& v : *all_seen[i]) if (v.second > (*all_vis)[v.first]) fail("time series: %llu visits of %s reported, %llu executed", (unsigned long long) v.second, v.first.c_str(), (unsigned long long) (*all_vis)[v.first]);
    for (int i = 0; i < nch; ++i) if (chns[i].on && i % 2) drop(i);
    Caliper::release();
    s.tv_sec = 10;
    nanosleep(&s, nullptr);
}

static void at_end(const Plan&) {}

namespace sim { PropDef the_prop = { "C20", gen, run, at_end }; }
