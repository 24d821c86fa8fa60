// C19: configured measurement runs start, stop and report as requested.
#include "model.h"
#include <caliper/ConfigManager.h>
#include <caliper/RegionProfile.h>
#include <caliper/ChannelController.h>
#include <cmath>
using namespace sim;

//   Control operations (threads 0 and 1), region operations (threads 2..)
enum { START, STOP, FLUSH, DELETE, CREATE, BADADD, COPY, BEHIND, QUERY, CLEAR, BEGIN, END, WORK, NOPS };
enum Kind { K_TRACE, K_HPROF, K_REPORT, K_REGPROF, K_CUSTOM, K_MULTI, NKINDS };

static void gen(Rng& r, Plan& p)
{
    int ncfg = (int) r.range(1, 4), nth = (int) r.range(1, 3);
    int two = r.chance(1, 3); // two control threads, each with its own configurations
    p.set("ncfg", ncfg); p.set("nth", nth); p.set("two", two);
    p.set("bg", r.chance(1, 2));     // regions run concurrently with control operations, or alternate with them
    for (int i = 0; i < 4; ++i) { p.set(strf("kind%d", i).c_str(), r.below(NKINDS)); p.set(strf("opt%d", i).c_str(), r.below(256)); }
    p.set("env", r.chance(1, 3)); p.set("defs", r.below(8));
    p.set("npb", r.chance(1, 3) ? r.range(16, 40) : 0);
    static const unsigned w[CLEAR + 1] = { 20, 16, 16, 3, 6, 3, 4, 2, 8, 3 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    int nctl = (int) r.range(3, 16), nreg = (int) r.range(4, r.chance(1, 4) ? 80 : 25);
    for (int t = 0; t <= two; ++t) {
        for (int i = 0; i < ncfg; ++i) if (r.chance(3, 4)) p.add(t, START, i);
        for (int i = 0; i < nctl; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(ncfg), (int) r.below(64), (int) r.below(6), r.chance(1, 3) ? (int64_t) r.logrange(1, 100000000) : 0);
        }
    }
    for (int t = 2; t < 2 + nth; ++t)
        for (int i = 0; i < nreg; ++i) {
            int x = (int) r.below(10);
            p.add(t, x < 4 ? BEGIN : x < 8 ? END : WORK, (int) r.below(5), (int) r.below(3), 0, (int64_t) r.logrange(1, 100000000));
        }
    gen_schedule(r, p, (nth + 1) * 8000);
}

static const char* custom_spec = R"json({ "name": "my-profile", "description": "custom", "categories": [ "metadata" ],
 "services": [ "aggregate", "event", "timer", "recorder" ],
 "config": { "CALI_CHANNEL_FLUSH_ON_EXIT": "false", "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false", "CALI_RECORDER_FILENAME": "/sim/unused.cali" },
 "options": [ { "name": "out", "type": "string", "description": "file", "config": { "CALI_RECORDER_FILENAME": "{}" } } ] })json";

//   What the region threads did
struct Ev { uint64_t a, b; uint64_t t0, t1; bool end; std::string path; int th; };
static std::deque<Ev>* evs[8];
static std::mutex ev_mx;

struct Iv { uint64_t a, b; }; // b == 0: not yet
struct Cfg { // one channel of a configuration
    Kind kind; std::string file, meta; bool append = false, inclusive = false, count = false;
    uint64_t c0 = 0, c0_ns = 0, c1_ns = 0; // channel created at (during the first start call)
    std::vector<Iv> on0, on1;  // maximal and minimal active intervals
    std::vector<Iv> flushes;
    uint64_t clear0 = 0, clear1 = 0;
};
struct Ctl {
    std::unique_ptr<cali::ConfigManager> mgr; std::unique_ptr<cali::RegionProfile> rp; std::vector<Cfg> ch; bool started = false, active = false; int gen = 0, id = 0, owner = 0;
};
static Ctl ctl[8];
static std::atomic<int> file_no;

static bool sure_in(const std::vector<Iv>& v, uint64_t a, uint64_t b) { for (auto& i : v) if (i.a < a && (!i.b || b < i.b)) return true; return false; }
static bool maybe_in(const std::vector<Iv>& v, uint64_t a, uint64_t b) { for (auto& i : v) if (i.a < b && (!i.b || a < i.b)) return true; return false; }

struct Bounds { int64_t n0 = 0, n1 = 0; double t0 = 0, t1 = 0; };

//   Bounds for visit counts and exclusive times per path, for everything recorded up to an operation [fa,fb]
static std::map<std::string, Bounds> bounds(const Cfg& c, uint64_t fa, uint64_t fb, int64_t& nev0, int64_t& nev1)
{
    std::map<std::string, Bounds> m; nev0 = nev1 = 0;
    for (int t = 2; t < 8; ++t) {
        if (!evs[t]) continue;
        uint64_t prev_end = 0, last_sure = c.c0_ns;
        bool have_prev = false;
        for (auto& e : *evs[t]) {
            if (e.a > fb) break;
            uint64_t eb = e.b ? e.b : UINT64_MAX; uint64_t t1 = e.b ? e.t1 : now_ns();
            bool maybe = maybe_in(c.on0, e.a, eb) && !(c.clear0 && eb < c.clear0);
            bool sure = maybe && sure_in(c.on1, e.a, eb) && eb < fa && !(c.clear1 && e.a < c.clear1);
            if (sure && c.kind != K_TRACE) for (auto& f : c.flushes) if (e.a < f.b && f.a < eb) sure = false; // may be dropped, and is counted then
            if (sure && c.kind == K_TRACE) for (auto& f : c.flushes) if (e.a < f.b && f.a < eb) sure = false;
            Bounds& b = m[e.path];
            if (maybe) {
                ++nev1; if (e.end) b.n1++;
                b.t1 += (double) (t1 - std::min(t1, last_sure));
            }
            if (sure) {
                ++nev0; if (e.end) b.n0++;
                uint64_t from = std::max(prev_end, c.c1_ns);
                if (have_prev && e.t0 > from) b.t0 += (double) (e.t0 - from);
                if (have_prev || true) last_sure = e.t0;
            }
            prev_end = t1; have_prev = true;
        }
    }
    return m;
}

static std::string key_of(const KVs& kv)
{
    std::string s;
    for (auto& p : kv) if (p.first == "region" || p.first == "path" || p.first == "phase") s += (s.empty() ? "" : "/") + p.second;
    return s;
}

static void check_counts(const Cfg& c, const char* what, const std::map<std::string, std::pair<int64_t, double>>& got, uint64_t fa, uint64_t fb, double eps, bool counts, bool times)
{
    const double rel = c.kind == K_HPROF ? 1e-5 : 0; // six digits are written
    int64_t n0, n1;
    auto m = bounds(c, fa, fb, n0, n1);
    for (auto& g : got) {
        if (g.first.empty()) continue;
        auto it = m.find(g.first);
        if (it == m.end() || (it->second.t1 == 0 && it->second.n1 == 0 && (g.second.first > 0 || g.second.second > eps))) { // never executed while active
            bool maybe = it != m.end() && false;
            if (!maybe) fail("%s reports region %s (%lld visits, %.0f ns), which was not executed while it was started", what, g.first.c_str(), (long long) g.second.first, g.second.second);
        }
    }
    for (auto& b : m) {
        if (c.kind == K_REPORT && b.first.empty()) continue; // the table has no row for the time outside of all regions
        auto it = got.find(b.first);
        int64_t n = it == got.end() ? 0 : it->second.first; double t = it == got.end() ? 0 : it->second.second;
        if (counts && (n < b.second.n0 || n > b.second.n1)) fail("%s reports %lld visits of %s, between %lld and %lld expected", what, (long long) n, b.first.c_str(), (long long) b.second.n0, (long long) b.second.n1);
        if (times && (t < b.second.t0 * (1 - rel) - eps || t > b.second.t1 * (1 + rel) + eps)) fail("%s reports %.0f ns in %s, between %.0f and %.0f ns expected", what, t, b.first.c_str(), b.second.t0, b.second.t1);
    }
    probe("outputs_checked");
    if (n0 > 0) probe("outputs_with_certain_events");
    probe("events_certain", n0); probe("events_uncertain", n1 - n0);
}

static void check_globals(const Cfg& c, const KVs& g, const char* name)
{
    const std::string* s = find_kv(g, "cali.channel");
    if (!s || *s != name) fail("%s: globals say channel %s instead of %s", c.file.c_str(), s ? s->c_str() : "(none)", name);
    if (!c.meta.empty()) { s = find_kv(g, "testid"); if (!s || *s != c.meta) fail("%s: metadata option is missing in the output (%s)", c.file.c_str(), show(g).c_str()); }
    if (!find_kv(g, "cali.caliper.version")) fail("%s: Caliper version is missing in the globals", c.file.c_str());
}

static void check_file(Cfg& c, uint64_t fa, uint64_t fb, const std::string& before)
{
    std::string text = sim_file(c.file.c_str());
    std::map<std::string, std::pair<int64_t, double>> got;
    if (c.kind == K_REPORT) {
        if (c.append) { if (text.compare(0, before.size(), before)) fail("%s: appending changed the earlier output", c.file.c_str()); text = text.substr(before.size()); }
        if (text.empty()) { int64_t n0, n1; bounds(c, fa, fb, n0, n1); if (n0) fail("%s: no output for %lld events", c.file.c_str(), (long long) n0); return; }
        if (text.back() != '\n') fail("%s: last line is not complete", c.file.c_str());
        //   table: path column (indentation is the depth), then the columns
        size_t pos = 0; int line = 0; static const char* const titles[] = { "Time (E)", "Time (I)", "Time % (E)", "Time % (I)", "Calls" }; std::vector<std::string> stack; std::string header;
        while (pos < text.size()) {
            size_t e = text.find('\n', pos); std::string l = text.substr(pos, e - pos); pos = e + 1;
            if (line++ == 0) { if (l.compare(0, 4, "Path")) fail("%s: unexpected header %s", c.file.c_str(), l.c_str()); header = l; continue; }
            if (l.empty()) continue;
            size_t ind = l.find_first_not_of(' '); size_t ne = l.find(' ', ind);
            std::string nm = l.substr(ind, ne == std::string::npos ? ne : ne - ind);
            size_t depth = ind / 2;
            if (depth > stack.size()) fail("%s: bad indentation: %s", c.file.c_str(), l.c_str());
            stack.resize(depth); stack.push_back(nm);
            std::string path; for (auto& x : stack) path += (path.empty() ? "" : "/") + x;
            //   cells start where their column title starts; a cell is blank if the row has no such value
            auto cell = [&](const char* title) -> std::string {
                size_t h = header.find(title);
                if (h == std::string::npos) return ""; // no row has such a value
                size_t h2 = std::string::npos;
                for (const char* x : titles) { size_t y = header.find(x); if (y != std::string::npos && y > h && y < h2) h2 = y; }
                if (h >= l.size()) return "";
                std::string v = l.substr(h, h2 == std::string::npos ? h2 : h2 - h);
                size_t i = v.find_first_not_of(' '); if (i == std::string::npos) return "";
                return v.substr(i, v.find_last_not_of(' ') + 1 - i);
            };
            std::string te = cell("Time (E)"), nc = c.count ? cell("Calls") : "";
            auto num = [&](const std::string& v) { char* end; double d = strtod(v.c_str(), &end); if (*end) fail("%s: cell '%s' in %s", c.file.c_str(), v.c_str(), l.c_str()); return d; };
            if (got.count(path)) fail("%s: region %s is listed twice", c.file.c_str(), path.c_str());
            got[path] = { (int64_t) num(nc), num(te) * 1e9 };
        }
        check_counts(c, c.file.c_str(), got, fa, fb, 1e3 + 500, c.count, true);
        return;
    }
    CaliFile f; f.parse(text);
    if (!f.errors.empty()) fail("%s: %s", c.file.c_str(), f.errors[0].c_str());
    const char* name = c.kind == K_TRACE ? "event-trace" : c.kind == K_CUSTOM ? "my-profile" : "hatchet-region-profile";
    if (c.kind == K_HPROF) { const std::string* s = find_kv(f.globals, "cali.channel"); if (s && *s == "runtime-profile") name = "runtime-profile"; }
    check_globals(c, f.globals, name);
    for (auto& r : f.recs) {
        if (c.kind == K_TRACE) {
            //   The context before the update plus event.begin / event.end
            std::string p, b, en; int ne = 0;
            for (auto& kv : r) {
                if (kv.first == "region") p += (p.empty() ? "" : "/") + kv.second;
                else if (kv.first == "event.begin#region") { ++ne; b = kv.second; } else if (kv.first == "event.end#region") { ++ne; en = kv.second; }
            }
            if (ne == 0) continue;
            if (ne > 1) fail("%s: two events in a record %s", c.file.c_str(), show(r).c_str());
            auto& g = got[p];
            if (!en.empty()) g.first++;
            g.second += (double) kv_int(r, "time.duration.ns", 0);
        } else {
            std::string p = key_of(r);
            if (got.count(p)) { if (c.kind == K_HPROF) fail("%s: region %s is listed twice", c.file.c_str(), p.c_str()); }
            auto& g = got[p];
            if (c.kind == K_CUSTOM) { const std::string* s = find_kv(r, "sum#region.count"); if (s) g.first += atoll(s->c_str()); s = find_kv(r, "sum#time.duration.ns"); if (s) g.second += atof(s->c_str()); }
            else { const std::string* s = find_kv(r, "sum#rc.count"); if (s) g.first += atoll(s->c_str()); s = find_kv(r, "sum#sum#time.duration"); if (s) g.second += atof(s->c_str()) * 1e9; }
        }
    }
    check_counts(c, c.file.c_str(), got, fa, fb, c.kind == K_HPROF ? 2e3 : 1, c.kind == K_CUSTOM || c.kind == K_TRACE || c.count, true);
}

// ---- control

static std::string spec_of(Cfg& c, int opt, int n)
{
    std::string s, o;
    // region.count: given, given as false, or the default parameter
    auto count = [&](std::string& o) {
        bool def = plan().get("defs") & 1;
        c.count = opt & 4;
        if (c.count != def || opt & 64) o += c.count ? (opt & 8 ? ",region.count" : ",region.count=true") : ",region.count=false";
    };
    c.meta = opt & 1 ? strf("id%d", n) : "";
    switch (c.kind) {
    case K_TRACE: c.file = strf("/sim/o%d.cali", n); s = "event-trace"; break;
    case K_HPROF: c.file = strf("/sim/o%d.cali", n); s = opt & 2 ? "runtime-profile" : "hatchet-region-profile"; o = "use.mpi=false,output.format=cali"; count(o); break;
    case K_REPORT: c.file = strf("/sim/o%d.txt", n); s = "runtime-report"; c.append = !(opt & 2); o = strf("aggregate_across_ranks=false%s", c.append ? "" : ",output.append=false"); count(o); c.meta.clear(); break;
    case K_CUSTOM: c.file = strf("/sim/o%d.cali", n); return "my-profile(out=" + c.file + (c.meta.empty() ? "" : ",metadata(testid=" + c.meta + ")") + ")";
    default: break;
    }
    if (!o.empty()) o = "," + o;
    if (!c.meta.empty()) o += ",metadata(testid=" + c.meta + ")";
    return s + "(output=" + c.file + o + ")";
}

static void create(Ctl& k)
{
    const Plan& p = plan();
    int kind = (int) p.get(strf("kind%d", (k.id + k.gen) % 4).c_str()), opt = (int) p.get(strf("opt%d", (k.id + 3 * k.gen) % 4).c_str());
    ++k.gen; k.ch.clear(); k.started = k.active = false;
    if (kind == K_REGPROF) { { NoPreempt np; Cfg c; c.kind = K_REGPROF; k.ch.push_back(c); } k.rp.reset(new cali::RegionProfile); return; }
    std::vector<std::string> specs;
    {
        NoPreempt np;
        for (int i = 0; i < (kind == K_MULTI ? 2 : 1); ++i) {
            Cfg c; c.kind = kind == K_MULTI ? (i == !(opt & 32) ? K_TRACE : (opt & 8 ? K_HPROF : K_REPORT)) : (Kind) kind;
            specs.push_back(spec_of(c, opt >> i, ++file_no));
            k.ch.push_back(c);
        }
    }
    std::unique_ptr<cali::ConfigManager> m(new cali::ConfigManager);
    int defs = (int) p.get("defs");
    if (defs & 1) { // for all configurations or for each one
        if (defs & 2) m->set_default_parameter("region.count", "true");
        else for (const char* n : { "runtime-profile", "hatchet-region-profile", "runtime-report" }) m->set_default_parameter_for_config(n, "region.count", "true");
    }
    bool custom = false; for (auto& c : k.ch) custom |= c.kind == K_CUSTOM;
    if (custom) m->add_config_spec(custom_spec);
    if (opt & 16) { std::string s = specs[0]; for (size_t i = 1; i < specs.size(); ++i) s += "," + specs[i]; m->add(s.c_str()); }
    else for (auto& s : specs) m->add(s.c_str());
    if (m->error()) fail("configuration %s is rejected: %s", specs[0].c_str(), m->error_msg().c_str());
    if (m->get_all_channels().size() != k.ch.size()) fail("%zu configurations instead of %zu", m->get_all_channels().size(), k.ch.size());
    k.mgr = std::move(m);
}

static void start(Ctl& k, bool through_copy)
{
    uint64_t a = tick(), t = now_ns();
    {
        NoPreempt np;
        for (auto& c : k.ch) {
            if (!k.started) { c.c0 = a; c.c0_ns = t; }
            if (!k.active) c.on0.push_back({ a, 0 });
        }
    }
    if (through_copy && k.rp) {
        cali::RegionProfile* cp = new cali::RegionProfile(*k.rp);
        cp->start();
        delete cp;
    } else if (k.rp) k.rp->start();
    else if (through_copy) { cali::ConfigManager cp(*k.mgr); cp.start(); }
    else k.mgr->start();
    uint64_t b = tick();
    {
        NoPreempt np;
        for (auto& c : k.ch) { if (!k.active) c.on1.push_back({ b, 0 }); if (!k.started) c.c1_ns = now_ns(); }
    }
    if (k.rp ? !k.rp->is_active() : false) fail("region profile is not active after start()");
    if (k.mgr) for (auto& p : k.mgr->get_all_channels()) if (!p->is_active()) fail("channel %s is not active after start()", p->name().c_str());
    k.started = k.active = true;
}

static void stop(Ctl& k)
{
    uint64_t a = tick();
    { NoPreempt np; for (auto& c : k.ch) if (k.active) c.on1.back().b = a; }
    if (k.rp) k.rp->stop(); else k.mgr->stop();
    uint64_t b = tick();
    { NoPreempt np; for (auto& c : k.ch) if (k.active) c.on0.back().b = b; }
    if (k.rp && k.rp->is_active()) fail("region profile is active after stop()");
    if (k.mgr) for (auto& p : k.mgr->get_all_channels()) if (p->is_active()) fail("channel %s is active after stop()", p->name().c_str());
    k.active = false;
}

static void flush(Ctl& k)
{
    if (!k.mgr) return;
    std::vector<std::string> before;
    { NoPreempt np; for (auto& c : k.ch) before.push_back(sim_file(c.file.c_str())); }
    uint64_t a = tick();
    { NoPreempt np; for (auto& c : k.ch) c.flushes.push_back({ a, UINT64_MAX }); }
    k.mgr->flush();
    uint64_t b = tick();
    NoPreempt np;
    for (size_t i = 0; i < k.ch.size(); ++i) {
        k.ch[i].flushes.back().b = b;
        if (!k.started) { if (file_exists(k.ch[i].file.c_str())) fail("%s was written before the first start", k.ch[i].file.c_str()); }
        else check_file(k.ch[i], a, b, before[i]);
    }
}

static void query(Ctl& k, int b)
{
    if (!k.rp) return;
    Cfg& c = k.ch[0];
    uint64_t a = tick();
    { NoPreempt np; c.flushes.push_back({ a, UINT64_MAX }); }
    bool incl = b & 1;
    //   all regions used here are of type "region": any other type has none
    const char* type = b & 2 ? "region" : b & 4 ? "phase" : "";
    auto res = incl ? k.rp->inclusive_region_times(type) : k.rp->exclusive_region_times(type);
    uint64_t e = tick();
    NoPreempt np;
    c.flushes.back().b = e;
    if (!k.started) { if (!std::get<0>(res).empty() || std::get<1>(res) != 0) fail("region profile has data before its first start"); return; }
    if (!strcmp(type, "phase")) {
        if (!std::get<0>(res).empty() || std::get<1>(res) != 0) fail("region profile has regions of a type that was not used");
        return;
    }
    double sum = 0; for (auto& x : std::get<0>(res)) sum += x.second;
    if (!incl && std::fabs(sum - std::get<1>(res)) > 1e-8 + 1e-6 * sum) fail("region profile: times of all regions add up to %.9f, but the total is %.9f", sum, std::get<1>(res));
    if (std::get<1>(res) > std::get<2>(res) * (1 + 1e-9) + 1e-8) fail("region profile: %.9f s in regions, but only %.9f s in total", std::get<1>(res), std::get<2>(res));
    //   flat profile: by innermost region
    int64_t n0, n1;
    auto m = bounds(c, a, e, n0, n1);
    std::map<std::string, Bounds> flat;
    for (auto& x : m) {
        std::set<std::string> names; std::string last;
        for (size_t pos = 0; pos < x.first.size();) { size_t q = x.first.find('/', pos); if (q == std::string::npos) q = x.first.size(); last = x.first.substr(pos, q - pos); names.insert(last); pos = q + 1; }
        if (names.empty()) continue;
        if (!incl) names = { last };
        for (auto& n : names) { flat[n].t0 += x.second.t0; flat[n].t1 += x.second.t1; }
    }
    for (auto& x : std::get<0>(res)) if (!flat.count(x.first) && x.second > 0) fail("region profile reports %s, which was not executed while it was started", x.first.c_str());
    for (auto& x : flat) {
        auto it = std::get<0>(res).find(x.first);
        double t = it == std::get<0>(res).end() ? 0 : it->second * 1e9;
        if (t < x.second.t0 - 10 || t > x.second.t1 + 10) fail("region profile reports %.0f ns %s in %s, between %.0f and %.0f ns expected", t, incl ? "inclusive" : "exclusive", x.first.c_str(), x.second.t0, x.second.t1);
    }
    probe("profiles_checked");
}

static void destroy(Ctl& k)
{
    uint64_t a = tick(); (void) a;
    std::vector<std::string> before;
    { NoPreempt np; for (auto& c : k.ch) before.push_back(c.file.empty() ? "" : sim_file(c.file.c_str())); }
    std::vector<cali_id_t> ids;
    if (k.rp && k.rp->channel()) { NoPreempt np; ids.push_back(k.rp->channel().id()); }
    if (k.mgr) for (auto& c : k.mgr->get_all_channels()) if (c->channel()) { NoPreempt np; ids.push_back(c->channel().id()); }
    k.rp.reset(); k.mgr.reset();
    for (cali_id_t id : ids) if (Caliper().get_channel(id)) fail("channel %d exists after its configuration was deleted", (int) id);
    NoPreempt np;
    for (size_t i = 0; i < k.ch.size(); ++i)
        if (!k.ch[i].file.empty() && sim_file(k.ch[i].file.c_str()) != before[i]) fail("%s changed when its configuration was deleted", k.ch[i].file.c_str());
    k.ch.clear(); k.started = k.active = false;
}

static void ctl_op(const Op& o, int t)
{
    const Plan& p = plan();
    Ctl& k = ctl[t * 4 + o.a % (int) p.get("ncfg")];
    if (o.v) advance_ns((uint64_t) o.v);
    bool exists = k.mgr || k.rp;
    switch (o.kind) {
    case START: if (!exists) create(k); start(k, false); probe("starts"); break;
    case STOP: if (exists) { stop(k); probe("stops"); } break;
    case FLUSH: if (exists) { flush(k); probe("flushes"); } break;
    case QUERY: if (exists) query(k, o.b); break;
    case DELETE: if (exists) { destroy(k); probe("deletes"); } break;
    case CREATE: if (exists) destroy(k); create(k); probe("replaces"); break;
    case COPY: if (exists) { start(k, true); probe("copies"); } break;
    case BADADD: {
        cali::ConfigManager m;
        static const char* bad[] = { "runtime-reportt(foo=)", "runtime-report(nosuchoption=1)", "event-trace(output=/sim/bad.cali", "hatchet-region-profile(output.format=nonsense)", "runtime-report(output=)", "load(/nonexistent.json)" };
        bool ok = m.add(bad[o.c % 6]);
        if (ok || !m.error() || m.error_msg().empty()) fail("invalid configuration %s is accepted", bad[o.c % 6]);
        m.start(); m.flush();
        break;
    }
    case BEHIND: //   the channel is deleted behind the controller's back: start makes a new one
        if (exists && k.started) {
            if (k.active) stop(k);
            if (k.rp) { Channel ch = k.rp->channel(); Caliper().delete_channel(ch); if (k.rp->is_instantiated()) fail("region profile still refers to the deleted channel"); }
            else for (auto& c : k.mgr->get_all_channels()) { Channel ch = c->channel(); Caliper().delete_channel(ch); if (c->is_instantiated()) fail("controller %s still refers to the deleted channel", c->name().c_str()); }
            NoPreempt np;
            k.started = false;
            for (auto& c : k.ch) { c.on0.clear(); c.on1.clear(); c.flushes.clear(); c.clear0 = c.clear1 = 0; }
            if (k.mgr) for (auto& c : k.ch) file_remove(c.file.c_str());
            probe("deleted_behind");
        }
        break;
    case CLEAR:
        if (k.rp && k.started) {
            Cfg& c = k.ch[0];
            uint64_t a = tick();
            { NoPreempt np; c.flushes.push_back({ a, UINT64_MAX }); c.clear0 = a; }
            k.rp->clear();
            NoPreempt np;
            c.clear1 = c.flushes.back().b = tick();
        }
        break;
    }
}

struct RegState { std::vector<std::string> st; };
static void region_op(const Op& o, int t, RegState& s)
{
    auto path = [&] { std::string r; for (auto& x : s.st) r += (r.empty() ? "" : "/") + x; return r; };
    if (o.kind == WORK) { advance_ns((uint64_t) o.v); return; }
    if (o.kind == BEGIN && s.st.size() < 6) {
        std::string n; Ev* e;
        { NoPreempt np; n = strf("t%d.r%d", t, o.a); evs[t]->push_back({ tick(), 0, now_ns(), 0, false, path(), t }); e = &evs[t]->back(); }
        cali_begin_region(n.c_str());
        NoPreempt np;
        e->b = tick(); e->t1 = now_ns(); s.st.push_back(n);
    } else if (!s.st.empty()) {
        std::string n; Ev* e;
        { NoPreempt np; n = s.st.back(); evs[t]->push_back({ tick(), 0, now_ns(), 0, true, path(), t }); e = &evs[t]->back(); }
        cali_end_region(n.c_str());
        NoPreempt np;
        e->b = tick(); e->t1 = now_ns(); s.st.pop_back();
    }
    if (o.b) advance_ns((uint64_t) o.v);
}

static void run(const Plan& p)
{
    clean_env();
    if (p.get("env")) { // none of this is meant for the configurations' channels
        setenv("CALI_AGGREGATE_KEY", "nosuchkey", 1); setenv("CALI_EVENT_TRIGGER", "nosuchregion", 1); setenv("CALI_RECORDER_FILENAME", "/sim/env.cali", 1);
        setenv("CALI_REPORT_FILENAME", "/sim/env.txt", 1); setenv("CALI_REPORT_CONFIG", "select nothing", 1); setenv("CALI_TIMER_UNIT", "usec", 1);
    }
    int nth = (int) p.get("nth"), two = (int) p.get("two");
    Caliper c;
    {
        NoPreempt np;
        for (int t = 2; t < 2 + nth; ++t) evs[t] = new std::deque<Ev>;
        for (int i = 0; i < 8; ++i) ctl[i].id = i;
    }
    bool bg = p.get("bg");
    // region threads do their operations in phases, one phase per control operation of thread 0 (unless in the background)
    std::vector<std::vector<Op>> ops(8);
    { NoPreempt np; for (int i = 0; i < p.nops; ++i) if (p.ops[i].th >= 0 && p.ops[i].th < 8) ops[p.ops[i].th].push_back(p.ops[i]); }
    int nphase = (int) std::max<size_t>(ops[0].size(), 1);
    std::vector<RegState> rs(8);
    Crew crew;
    crew.start(nth + (two ? 1 : 0), [&](int i, int ph) {
        if (i > nth) { // second control thread
            if (bg && ph > 0) return;
            for (size_t j = 0; j < ops[1].size(); ++j) if (bg || (int) j % nphase == ph) ctl_op(ops[1][j], 1);
            return;
        }
        int t = 1 + i;
        size_t n = ops[t].size();
        size_t lo = bg ? 0 : n * ph / nphase, hi = bg ? n : n * (ph + 1) / nphase;
        if (bg && ph > 0) return;
        for (size_t j = lo; j < hi; ++j) region_op(ops[t][j], t, rs[t]);
    });
    if (bg) {
        crew.launch();
        for (auto& o : ops[0]) ctl_op(o, 0);
        crew.wait();
    } else
        for (int ph = 0; ph < nphase; ++ph) {
            crew.launch(); crew.wait();
            if (ph < (int) ops[0].size()) ctl_op(ops[0][ph], 0);
        }
    //   everything is quiet now: all outputs must be complete
    for (int i = 0; i < 8; ++i) {
        if (ctl[i].rp) { query(ctl[i], 0); query(ctl[i], 1); query(ctl[i], 2); query(ctl[i], 3); }
        if (ctl[i].mgr) flush(ctl[i]);
    }
    //   close what is open
    crew.stop();
    for (int i = 0; i < 8; ++i) if (ctl[i].mgr || ctl[i].rp) { if (p.seed & (1 << i)) destroy(ctl[i]); }
}

PropDef sim::the_prop = { "C19", gen, run, nullptr };
