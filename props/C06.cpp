// C06: recorded times equal elapsed time, attributed to the region that was open.
#include "model.h"
using namespace sim;

enum { BEGIN, END, SET, SNAP, ADVANCE, JUMP, SPAWN, YIELD, NOPS };
enum { F_NONE, F_TRIGGER, F_LEVEL, F_INCLUDE, F_EXCLUDE, F_BOTH, F_BRANCH, NFILTERS };

static const char* const R[] = { "a", "main", "eight888", "e2", "nine99999", "mainly", "ab" };
enum { NR = 7 };

//   Region filters: any of the terms matches
struct Term { int kind; std::string w; }; // name, match(), startswith(), regex()
static std::vector<Term> filter_terms(Rng& r)
{
    static const char* const words[] = { "a", "main", "e2", "nine99999", "mai", "ab", "eight888", "e", "nosuch" };
    static const char* const regs[] = { "m.*n", "e.", ".*9", "a", "main|ab" };
    std::vector<Term> v; int n = (int) r.range(1, 3);
    for (int i = 0; i < n; ++i) { int k = (int) r.below(4); v.push_back({ k, k == 3 ? regs[r.below(5)] : words[r.below(9)] }); }
    return v;
}
static std::string filter_config(const std::vector<Term>& v)
{
    static const char* const f[] = { "", "match", "startswith", "regex" };
    std::string s;
    for (size_t i = 0; i < v.size();) {
        size_t j = i; std::string a;
        for (; j < v.size() && v[j].kind == v[i].kind; ++j) a += (a.empty() ? "" : ",") + v[j].w;
        s += (s.empty() ? "" : ",") + (v[i].kind ? std::string(f[v[i].kind]) + "(" + a + ")" : a);
        i = j;
    }
    return s;
}
static bool filter_match(const std::vector<Term>& v, const std::string& s)
{
    for (auto& t : v) {
        bool m = t.kind < 2 ? s == t.w : t.kind == 2 ? s.compare(0, t.w.size(), t.w) == 0
               : t.w == "m.*n" ? s.size() >= 2 && s[0] == 'm' && s.back() == 'n' : t.w == "e." ? s.size() == 2 && s[0] == 'e' : t.w == ".*9" ? !s.empty() && s.back() == '9' : t.w == "a" ? s == "a" : s == "main" || s == "ab";
        if (m) return true;
    }
    return false;
}

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 2);
    int nchn = (int) r.range(1, 3);
    p.set("nth", nth); p.set("nchn", nchn);
    bool filt = r.chance(1, 2);
    bool sets = r.chance(1, 2);
    p.set("sets", sets);
    for (int i = 0; i < nchn; ++i) {
        int f = (int) (filt ? r.below(NFILTERS) : r.below(F_INCLUDE));
        if (sets && f >= F_INCLUDE) f = F_BRANCH; // set may turn a region that passes into one that does not
        p.set(strf("filter%d", i).c_str(), f);
        p.set(strf("fcfg%d", i).c_str(), (int64_t) r.below(1 << 30));
        p.set(strf("incl%d", i).c_str(), r.chance(2, 3) && !(sets && f == F_BRANCH));
        p.set(strf("info%d", i).c_str(), !r.chance(1, 5));
        p.set(strf("aggr%d", i).c_str(), r.chance(1, 2));
        p.set(strf("order%d", i).c_str(), r.below(4));
    }
    p.set("late_attr", r.chance(1, 3)); // attributes are created after the channels
    p.set("late_chn", r.chance(1, 3)); // one channel is created while threads exist
    p.set("wide", r.chance(1, 8));     // times beyond 32 bit
    int nops = (int) r.range(3, r.chance(1, 4) ? 80 : 25);
    static const unsigned w[NOPS] = { 24, 20, 8, 16, 24, 4, 2, 2 };
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(100); int k = 0;
            while (x >= w[k]) x -= w[k++];
            int64_t v = k == ADVANCE ? (int64_t) r.logrange(1, p.get("wide") ? 20000000000000ull : 5000000) : k == JUMP ? r.range(-4000000000ll, 4000000000ll) : (int64_t) r.below(NR);
            p.add(t, k, (int) r.below(16), (int) r.below(8), 0, v);
        }
    gen_schedule(r, p, (nth + 1) * nops * 60);
    if (r.chance(1, 2)) p.set("ns_per_point", 0);
}

static std::vector<AttrDef>* defs;

struct Obs { KVs kv; uint64_t at; };
struct Expect { int evt; int attr; int64_t v; bool user; int64_t uv; }; // evt: 0 begin 1 set 2 end 3 none
struct Chn {
    Channel ch; std::string name; int idx = 0; int filter = 0; bool incl = false, info = true, aggr = false;
    std::vector<Term> in, ex;
    uint64_t c0 = 0, c1 = 0;      // created between
    std::map<std::string, uint64_t> sums; uint64_t total = 0, n = 0, incl_total = 0, incl_n = 0;
};
static std::deque<Chn>* chns;

struct TM {
    ThreadModel m; int id = 0;
    std::map<int, std::vector<Obs>> seen;                    // per channel, during the current operation
    struct PerChn { bool first = true; uint64_t off = 0; std::map<int, std::vector<uint64_t>> begins; };
    std::map<int, PerChn> pc;
};
static thread_local TM* tm;

static std::string vs(int a, int64_t v) { return (*defs)[a].type == CALI_TYPE_STRING ? R[v % NR] : value_str((*defs)[a].type, v); }
static Variant mk(int a, int64_t v) { return (*defs)[a].type == CALI_TYPE_STRING ? Variant(CALI_TYPE_STRING, R[v % NR], strlen(R[v % NR])) : make_value((*defs)[a].type, v); }

static KVs ctx(const ThreadModel::Stack& s) { KVs r; for (auto& p : s) r.push_back({ (*defs)[p.first].name, vs(p.first, p.second) }); return r; }

static bool sampled(const Chn& c, int a, int64_t v, int evt)
{
    const AttrDef& d = (*defs)[a];
    if (d.extra & CALI_ATTR_SKIP_EVENTS) return false;
    bool str = d.type == CALI_TYPE_STRING;
    std::string s = str ? vs(a, v) : "";
    switch (c.filter) {
    case F_TRIGGER: return d.name == "r.s" || d.name == "v.i";
    case F_LEVEL: return d.extra & CALI_ATTR_LEVEL_3;
    case F_INCLUDE: return !str || filter_match(c.in, s);
    case F_EXCLUDE: return !str || !filter_match(c.ex, s);
    case F_BOTH: return !str || (filter_match(c.in, s) && !filter_match(c.ex, s));
    case F_BRANCH: {
        if (evt <= 1 && str && filter_match(c.in, s)) return true;
        for (auto* st : { &tm->m.region, &tm->m.unaligned })
            for (auto& p : *st) if ((*defs)[p.first].type == CALI_TYPE_STRING && !((*defs)[p.first].extra & CALI_ATTR_SKIP_EVENTS) && filter_match(c.in, vs(p.first, p.second))) return true;
        return false; }
    }
    return true;
}

static void on_snapshot(int i, Caliper* c, SnapshotView rec)
{
    NoPreempt np;
    if (!tm) return;
    tm->seen[i].push_back({ decode(*c, rec), now_ns() });
}

static uint64_t num(const KVs& v, const char* k, bool& has)
{
    has = false; uint64_t r = 0;
    for (auto& p : v) if (p.first == k) { if (has) fail("%s occurs twice in a record", k); has = true; r = strtoull(p.second.c_str(), nullptr, 10); }
    return r;
}

// checks what one operation recorded in one channel
static void verify(Chn& c, bool want, int evt, int attr, int64_t val, uint64_t t0, uint64_t t1, const char* what)
{
    std::vector<Obs>& seen = tm->seen[c.idx];
    if (seen.size() != (want ? 1u : 0u)) fail("%s: %s took %zu snapshots, expected %d", c.name.c_str(), what, seen.size(), (int) want);
    TM::PerChn& pc = tm->pc[c.idx];
    if (!want) { seen.clear(); return; }
    const KVs& kv = seen[0].kv;
    const char* nm = c.name.c_str();
    // context
    KVs reg, una, val_, rest, er = ctx(tm->m.region), eu = ctx(tm->m.unaligned), ev;
    for (auto& p : tm->m.imm) ev.push_back({ (*defs)[p.first].name, vs(p.first, p.second) });
    std::sort(ev.begin(), ev.end());
    split_record(*defs, kv, reg, una, val_, rest);
    if (reg != er || una != eu || val_ != ev) fail("%s: %s: time is attributed to %s, but the context is %s %s %s", nm, what, show(kv).c_str(), show(er).c_str(), show(eu).c_str(), show(ev).c_str());
    static const char* const pre[] = { "event.begin#", "event.set#", "event.end#" };
    size_t known = 2;
    if (evt < 3 && c.info) {
        const std::string* s = find_kv(rest, pre[evt] + (*defs)[attr].name);
        if (!s || *s != vs(attr, val)) fail("%s: %s: record lacks its trigger: %s", nm, what, show(kv).c_str());
        ++known;
    }
    if (evt == 2) { const std::string* s = find_kv(rest, "region.count"); if (!s || *s != "1") fail("%s: %s: region not counted once: %s", nm, what, show(kv).c_str()); ++known; }
    // times
    bool ho, hd, hi;
    uint64_t off = num(rest, "time.offset.ns", ho), dur = num(rest, "time.duration.ns", hd), inc = num(rest, "time.inclusive.duration.ns", hi);
    if (!ho || !hd) fail("%s: %s: record without time: %s", nm, what, show(kv).c_str());
    if (off + c.c1 < t0 || off + c.c0 > t1) fail("%s: %s: time offset %" PRIu64 " is wrong: expected %" PRIu64 " to %" PRIu64, nm, what, off, t0 - c.c1, t1 - c.c0);
    if (!pc.first && off < pc.off) fail("%s: %s: time runs backwards", nm, what);
    if (!pc.first && dur != off - pc.off) fail("%s: %s: duration %" PRIu64 ", but %" PRIu64 " ns have passed since the last snapshot", nm, what, dur, off - pc.off);
    if (pc.first && dur > off) fail("%s: %s: first duration %" PRIu64 " at time %" PRIu64, nm, what, dur, off);
    pc.first = false; pc.off = off;
    bool want_inc = false; uint64_t exp_inc = 0;
    if (c.info && c.incl) {
        auto& b = pc.begins[attr];
        if (evt == 0) b.push_back(off);
        else if (evt == 2 && !b.empty()) { want_inc = true; exp_inc = off - b.back(); b.pop_back(); }
    }
    if (hi != want_inc) fail("%s: %s: record with%s inclusive time: %s", nm, what, hi ? "" : "out", show(kv).c_str());
    if (hi && inc != exp_inc) fail("%s: %s: inclusive time %" PRIu64 ", but the region took %" PRIu64, nm, what, inc, exp_inc);
    if (hi) { ++known; c.incl_total += inc; ++c.incl_n; probe("inclusive"); }
    if (find_kv(rest, "user")) ++known;
    if (find_kv(rest, "cali.caliper.version")) ++known;
    if (rest.size() != known) fail("%s: %s: unexpected entries: %s", nm, what, show(rest).c_str());
    // what aggregation must give
    std::string key;
    for (auto& p : kv) if (p.first[0] != 't' && p.first != "cali.caliper.version" && p.first != "v.i" && p.first.find("#v.i") == std::string::npos && p.first != "region.count" && p.first != "user") key += p.first + "=" + p.second + ";";
    c.sums[key] += dur; c.total += dur; c.n++;
    probe("durations");
    seen.clear();
}

static void make(int i)
{
    const Plan& p = plan();
    auto g = [&](const char* n) { return p.get(strf("%s%d", n, i).c_str()); };
    Chn* ch;
    { NoPreempt np; chns->emplace_back(); ch = &chns->back(); }
    ch->idx = i; ch->filter = (int) g("filter"); ch->incl = g("incl"); ch->info = g("info"); ch->aggr = g("aggr");
    static const char* const sv[] = { "event,timer", "timer,event", "event,timestamp", "timer,event,statistics" };
    std::map<std::string, std::string> cfg = { { "CALI_TIMER_INCLUSIVE_DURATION", ch->incl ? "true" : "false" }, { "CALI_EVENT_ENABLE_SNAPSHOT_INFO", ch->info ? "true" : "false" } };
    cfg["CALI_SERVICES_ENABLE"] = std::string(ch->aggr ? "aggregate," : "") + sv[g("order")];
    switch (ch->filter) {
    case F_TRIGGER: cfg["CALI_EVENT_TRIGGER"] = "r.s,v.i"; break;
    case F_LEVEL: cfg["CALI_EVENT_REGION_LEVEL"] = "3"; break;
    case F_INCLUDE: case F_EXCLUDE: case F_BOTH: case F_BRANCH: {
        NoPreempt np;
        Rng fr; fr.seed((uint64_t) g("fcfg")); ch->in = filter_terms(fr); ch->ex = filter_terms(fr);
        if (ch->filter == F_BRANCH) cfg["CALI_EVENT_INCLUDE_BRANCHES"] = filter_config(ch->in);
        else { if (ch->filter != F_EXCLUDE) cfg["CALI_EVENT_INCLUDE_REGIONS"] = filter_config(ch->in); if (ch->filter != F_INCLUDE) cfg["CALI_EVENT_EXCLUDE_REGIONS"] = filter_config(ch->ex); }
        break; }
    }
    ch->c0 = now_ns();
    ch->ch = make_channel(strf("t%d", i).c_str(), cfg);
    ch->c1 = now_ns(); ch->name = strf("t%d", i);
    ch->ch.events().process_snapshot.connect([i](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(i, c, rec); });
}

static Attribute user_attr;
static std::atomic<int> nthreads;
static void body(int t);

static void one(Caliper& c, const Op& o, std::vector<std::thread>& kids)
{
    int a = o.a % (int) defs->size();
    AttrDef& d = (*defs)[a];
    ThreadModel& m = tm->m;
    auto all = [&](int evt, int64_t v, const char* what, const std::function<void()>& call) {
        uint64_t t0 = now_ns();
        call();
        uint64_t t1 = now_ns();
        NoPreempt np;
        for (Chn& ch : *chns) verify(ch, sampled(ch, a, v, evt), evt, a, v, t0, t1, what);
    };
    switch (o.kind) {
    case BEGIN:
        if (!d.ref() && m.imm.count(a)) break;
        if (m.region.size() + m.unaligned.size() > 24) break;
        all(0, o.v, "begin", [&] { c.begin(d.attr, mk(a, o.v)); }); m.begin(a, o.v); break;
    case END: {
        if (!m.can_end(a)) {
            if (m.region.empty()) break;
            a = m.region.back().first;
        }
        int64_t v; m.get(a, v);
        all(2, v, "end", [&] { c.end((*defs)[a].attr); }); m.end(a); break; }
    case SET:
        if (d.ref() && !plan().get("sets")) break;
        if (m.region.size() + m.unaligned.size() > 24) break;
        all(1, o.v, "set", [&] { c.set(d.attr, mk(a, o.v)); }); m.set(a, o.v); break;
    case SNAP: {
        Chn& ch = (*chns)[o.b % chns->size()];
        Entry e(user_attr, Variant((int) o.v));
        uint64_t t0 = now_ns();
        c.push_snapshot(ch.ch.body(), o.b & 4 ? SnapshotView(e) : SnapshotView());
        uint64_t t1 = now_ns();
        NoPreempt np;
        for (Chn& x : *chns) verify(x, &x == &ch, 3, 0, 0, t0, t1, "snapshot");
        break; }
    case ADVANCE: advance_ns((uint64_t) o.v); break;
    case JUMP: set_clock_offset(1700000000000000000ll + o.v * 1000); break;
    case SPAWN: {
        int n = ++nthreads; if (n > 6) break;
        int base = (int) (o.v % (plan().get("nth") + 1));
        kids.emplace_back([base] { body(base + 1000); }); break; }
    case YIELD: sched_yield(); break;
    }
}

static void body(int t)
{
    const Plan& p = plan();
    Caliper c;
    TM* me;
    { NoPreempt np; me = new TM; me->m.defs = defs; me->id = t; tm = me; }
    std::vector<std::thread> kids;
    bool kid = t >= 1000;
    for (int i = 0, n = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t % 1000) continue;
        if (kid && (o.kind == SPAWN || ++n > 12)) continue;
        one(c, o, kids);
        if (me->m.broken) harness_error("model broken");
    }
    for (auto& k : kids) k.join();
    tm = nullptr;
}

static void check_aggregate(Caliper& c, Chn& ch)
{
    std::map<std::string, uint64_t> got; uint64_t total = 0, n = 0, incl = 0;
    c.flush(ch.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        NoPreempt np;
        KVs kv = decode(db, rec);
        std::string key; uint64_t s = 0;
        for (auto& p : kv) {
            if (p.first == "sum#time.duration.ns") s = strtoull(p.second.c_str(), nullptr, 10);
            else if (p.first == "sum#time.inclusive.duration.ns") incl += strtoull(p.second.c_str(), nullptr, 10);
            else if (p.first == "count") n += strtoull(p.second.c_str(), nullptr, 10);
            else if (p.first.find("event.") == 0 || p.first.find("r.") == 0 || p.first.find("p.") == 0 || p.first.find("u.") == 0 || p.first.find("k.") == 0 || p.first.find("l.") == 0) key += p.first + "=" + p.second + ";";
        }
        got[key] += s; total += s;
    });
    NoPreempt np;
    const char* nm = ch.name.c_str();
    if (total != ch.total) fail("%s: the profile contains %" PRIu64 " ns, but %" PRIu64 " ns were measured", nm, total, ch.total);
    if (n != ch.n) fail("%s: the profile contains %" PRIu64 " snapshots, but %" PRIu64 " were taken", nm, n, ch.n);
    if (incl != ch.incl_total) fail("%s: the profile contains %" PRIu64 " ns inclusive time, but %" PRIu64 " ns were measured", nm, incl, ch.incl_total);
    for (auto& p : ch.sums) if (got[p.first] != p.second) fail("%s: %" PRIu64 " ns are attributed to %s, but %" PRIu64 " were measured there", nm, got[p.first], p.first.c_str(), p.second);
    probe("profiles");
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper c;
    defs = new std::vector<AttrDef>; chns = new std::deque<Chn>;
    static const struct { const char* n; AttrKind k; cali_attr_type t; int extra; } D[] = {
        { "r.s", K_NESTED, CALI_TYPE_STRING, 0 }, { "r.i", K_NESTED, CALI_TYPE_INT, 0 }, { "p.s", K_PLAIN, CALI_TYPE_STRING, 0 },
        { "u.s", K_UNALIGNED, CALI_TYPE_STRING, 0 }, { "v.i", K_VALUE, CALI_TYPE_INT, 0 }, { "k.s", K_NESTED, CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS },
        { "l.s", K_NESTED, CALI_TYPE_STRING, CALI_ATTR_LEVEL_3 } };
    int nchn = (int) p.get("nchn"), nth = (int) p.get("nth");
    int early = nchn - (p.get("late_chn") ? 1 : 0);
    if (p.get("late_attr")) for (int i = 0; i < early; ++i) make(i);
    for (auto& x : D) {
        AttrDef d; d.name = x.n; d.kind = x.k; d.type = x.t; d.extra = x.extra;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        defs->push_back(d);
    }
    user_attr = c.create_attribute("user", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    if (!p.get("late_attr")) for (int i = 0; i < early; ++i) make(i);
    // threads that exist before the last channel does
    static std::mutex m; static std::condition_variable cv; static bool go;
    std::vector<std::thread> th;
    for (int t = 1; t <= nth; ++t) th.emplace_back([t] {
        { Caliper c; std::unique_lock<std::mutex> g(m); cv.wait(g, [] { return go; }); }
        body(t);
    });
    yield();
    for (int i = early; i < nchn; ++i) make(i);
    { std::lock_guard<std::mutex> g(m); go = true; cv.notify_all(); }
    body(0);
    for (auto& t : th) t.join();
    for (Chn& ch : *chns) if (ch.aggr) check_aggregate(c, ch);
    probe("ends");
}

PropDef sim::the_prop = { "C06", gen, run, nullptr };
