// C16: process-wide, global and channel values behave like shared atomic variables.
// The history of all operations must be linearizable with respect to a small model.
#include "model.h"
#include <unordered_set>
using namespace sim;

enum { BEGIN, END, ENDV, SET, EXCH, GET, SNAP, PULL, CTX, GLOB, CBEGIN, CEND, CSET, CGET, CGLOB, WRITE, SETNAME, NOPS };

struct Def { const char* n; AttrKind k; int extra; };
static const Def D[] = {
    { "pn.0", K_NESTED, CALI_ATTR_SCOPE_PROCESS }, { "pn.1", K_NESTED, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_SKIP_EVENTS },
    { "pp.2", K_PLAIN, CALI_ATTR_SCOPE_PROCESS }, { "pu.3", K_UNALIGNED, CALI_ATTR_SCOPE_PROCESS }, { "pu.4", K_UNALIGNED, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_SKIP_EVENTS },
    { "pv.5", K_VALUE, CALI_ATTR_SCOPE_PROCESS }, { "pv.6", K_VALUE, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_SKIP_EVENTS }, { "ph.7", K_HIDDEN, CALI_ATTR_SCOPE_PROCESS },
    { "gr.8", K_UNALIGNED, CALI_ATTR_GLOBAL }, { "gv.9", K_VALUE, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS },
};
enum { ND = sizeof D / sizeof *D };
static const Def CD[] = { { "cn.0", K_NESTED, CALI_ATTR_SKIP_EVENTS }, { "cv.1", K_VALUE, CALI_ATTR_SKIP_EVENTS }, { "cg.2", K_UNALIGNED, CALI_ATTR_GLOBAL }, { "cw.3", K_VALUE, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS } };
enum { NCD = sizeof CD / sizeof *CD };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, 4);
    p.set("nth", nth); p.set("event", r.chance(1, 2)); p.set("mask", r.chance(1, 2) ? r.range(1, (1 << ND) - 1) : (1 << ND) - 1);
    p.set("npb", r.chance(1, 3) ? r.range(16, 60) : 0);
    int nops = (int) r.range(2, r.chance(1, 4) ? 22 : 12);
    static const unsigned W[3][NOPS] = { { 14, 9, 4, 14, 10, 10, 10, 5, 5, 4, 4, 3, 4, 4, 3, 2, 2 },
                                         { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 20, 30, 10, 40, 10, 2, 1 },   // mostly channel data
                                         { 5, 10, 1, 10, 20, 40, 10, 5, 5, 10, 1, 1, 1, 1, 1, 1, 5 } }; // few writers, many readers
    const unsigned* w = W[r.chance(1, 2) ? 0 : r.range(1, 2)];
    unsigned tot = 0; for (int i = 0; i < NOPS; ++i) tot += w[i];
    unsigned focus = (unsigned) r.below(3);
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) (focus == 0 ? r.below(2) : r.below(32)), (int) r.below(8), 0, 0);
        }
    gen_schedule(r, p, (nth + 1) * nops * 60);
}

static std::vector<AttrDef>* defs;      // process scope
static std::vector<AttrDef>* cdefs;     // channel data
static std::vector<int>* use;
static Channel chn;
static std::atomic<int> uniq { 1 };

// ---------------------------------------------------------------- history
enum HK { H_BEGIN, H_END, H_ENDV, H_SET, H_EXCH, H_GET, H_SNAP, H_GLOB, H_FAILEND, H_CANEND, HC_BEGIN, HC_END, HC_SET, HC_GET, HC_SNAP, HC_GLOB };
struct Ev { HK k; int a = 0; int64_t v = 0; bool has = false; int64_t res = 0; KVs obs; uint64_t t0 = 0, t1 = 0; };
struct Hist { std::vector<Ev> ev; ThreadModel dummy; uint64_t t0 = 0; int cb = 0; int want_a = -1; int64_t cbval = 0; uint64_t mid = 0; std::vector<Ev> cbev; };
static std::vector<Hist>* hist;
static thread_local Hist* my;

struct State {
    ThreadModel p, c; uint32_t dead = 0;
    std::string key() const
    {
        std::string s; s.reserve(128);
        auto add = [&s](int64_t x) { s.append((const char*) &x, 4); };
        for (auto* m : { &p, &c }) {
            add(-1); for (auto& e : m->region) { add(e.first); add(e.second); }
            add(-2); for (auto& e : m->unaligned) { add(e.first); add(e.second); }
            add(-3); for (auto& e : m->imm) { add(e.first); add(e.second); }
        }
        add(dead);
        return s;
    }
};

static bool same_snapshot(const ThreadModel& m, const std::vector<AttrDef>& d, const KVs& obs)
{
    KVs er, eu, ev, gr, gu, gv, rest;
    m.parts(er, eu, ev);
    split_record(d, obs, gr, gu, gv, rest);
    return er == gr && eu == gu && ev == gv;
}
static bool same_globals(const ThreadModel& m, const std::vector<AttrDef>& d, const KVs& obs)
{
    KVs e, g;
    for (auto* s : { &m.region, &m.unaligned }) for (auto& x : *s) if (d[x.first].extra & CALI_ATTR_GLOBAL) e.push_back(m.kv(x.first, x.second));
    for (auto& x : m.imm) if (d[x.first].extra & CALI_ATTR_GLOBAL) e.push_back(m.kv(x.first, x.second));
    for (auto& o : obs) for (auto& x : d) if (x.name == o.first) g.push_back(o);
    std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end());
    return e == g;
}

// executes one operation on the model; false: it cannot have had this result here
static bool step(State& s, const Ev& e, int t)
{
    bool dead = s.dead >> t & 1;
    int64_t v;
    switch (e.k) {
    case H_BEGIN: if (!dead) s.p.begin(e.a, e.v); return true;
    case H_SET:   if (!dead || (*defs)[e.a].kind == K_HIDDEN) s.p.set(e.a, e.v); return true;
    case H_END:   if (!dead) { if (s.p.can_end(e.a)) s.p.end(e.a); else s.dead |= 1u << t; } return true;
    case H_ENDV:  if (!dead) { if (s.p.can_end(e.a) && s.p.get(e.a, v) && v == e.v) s.p.end(e.a); else s.dead |= 1u << t; } return true;
    case H_FAILEND: // no event: the thread had stopped tracking or stops now
        if (dead) return true;
        if (s.p.can_end(e.a) && (!e.has || (s.p.get(e.a, v) && v == e.v))) return false;
        s.dead |= 1u << t; return true;
    case H_CANEND: return !dead && s.p.can_end(e.a) && s.p.get(e.a, v) && v == e.v;
    case H_EXCH: { bool h = s.p.imm.count(e.a); v = h ? s.p.imm[e.a] : 0; s.p.imm[e.a] = e.v; return h == e.has && (!h || v == e.res); }
    case H_GET: { bool h = s.p.get(e.a, v); return h == e.has && (!h || v == e.res); }
    case H_SNAP: return same_snapshot(s.p, *defs, e.obs);
    case H_GLOB: return same_globals(s.p, *defs, e.obs);
    case HC_BEGIN: s.c.begin(e.a, e.v); return true;
    case HC_SET: s.c.set(e.a, e.v); return true;
    case HC_END: if (s.c.can_end(e.a)) s.c.end(e.a); else s.dead |= 1u << t; return true;
    case HC_GET: { bool h = s.c.get(e.a, v); return h == e.has && (!h || v == e.res); }
    case HC_SNAP: return same_snapshot(s.c, *cdefs, e.obs);
    case HC_GLOB: return same_globals(s.c, *cdefs, e.obs);
    }
    return false;
}

static std::string show(const Ev& e, int t)
{
    static const char* const N[] = { "begin", "end", "end_checked", "set", "exchange", "get", "snapshot", "globals", "end(no event)", "end sees", "chn begin", "chn end", "chn set", "chn get", "chn snapshot", "chn globals" };
    std::string s = strf("T%d %s", t, N[e.k]);
    bool c = e.k >= HC_BEGIN;
    if (e.k != H_SNAP && e.k != H_GLOB && e.k != HC_SNAP && e.k != HC_GLOB) s += strf("(%s", (c ? CD[e.a].n : D[e.a].n)) + (e.k == H_GET || e.k == HC_GET || e.k == H_END || e.k == HC_END ? ")" : strf(",%d)", (int) e.v));
    if (e.k == H_EXCH || e.k == H_GET || e.k == HC_GET) s += e.has ? strf("=%d", (int) e.res) : "=none";
    if (!e.obs.empty()) s += show(e.obs);
    return s + strf(" @%llu-%llu", (unsigned long long) e.t0, (unsigned long long) e.t1);
}

struct Search {
    std::vector<Hist>& h; std::unordered_set<std::string> seen; uint64_t steps = 0; size_t best = 0; std::vector<size_t> best_pos; bool gave_up = false;
    bool go(std::vector<size_t>& pos, const State& s, size_t done)
    {
        if (++steps > 300000) { gave_up = true; return true; }
        if (done >= best) { best = done; best_pos = pos; }
        uint64_t lim = ~0ull; bool all = true;
        for (size_t t = 0; t < h.size(); ++t) if (pos[t] < h[t].ev.size()) { all = false; lim = std::min(lim, h[t].ev[pos[t]].t1); }
        if (all) return true;
        std::string k = s.key();
        for (size_t x : pos) k.push_back((char) x);
        if (!seen.insert(k).second) return false;
        for (size_t t = 0; t < h.size(); ++t) {
            if (pos[t] >= h[t].ev.size() || h[t].ev[pos[t]].t0 > lim) continue;
            State n = s;
            if (!step(n, h[t].ev[pos[t]], (int) t)) continue;
            ++pos[t];
            bool ok = go(pos, n, done + 1);
            --pos[t];
            if (ok) return true;
        }
        return false;
    }
};

static void on_event(const Attribute& a, const Variant& v)
{
    NoPreempt np;
    if (!my || my->want_a < 0 || a != (*defs)[my->want_a].attr) return;
    my->cb++; my->cbval = v.to_int(); my->mid = tick();
}

static void on_snapshot(Caliper* c, SnapshotView v)
{
    NoPreempt np;
    if (!my) return;
    Ev e; e.k = H_SNAP; e.obs = decode(*c, v); e.t0 = my->t0; e.t1 = tick();
    // keep what belongs to the model
    KVs o; for (auto& x : e.obs) for (auto& d : *defs) if (d.name == x.first) o.push_back(x);
    e.obs = o;
    my->cbev.push_back(e);
}

static void body(int t)
{
    Caliper k;
    const Plan& p = plan();
    my = &(*hist)[t];
    bool ev = p.get("event");
    auto rec = [&](Ev e, uint64_t a) { NoPreempt np; e.t0 = a; e.t1 = tick(); my->ev.push_back(e); };
    auto start = [&](int a) { NoPreempt np; my->t0 = tick(); my->cb = 0; my->want_a = a; my->cbev.clear(); return my->t0; };
    // an update that takes event snapshots first
    auto finish = [&](Ev e, uint64_t a, bool is_end) {
        NoPreempt np;
        my->want_a = -1;
        const AttrDef& d = (*defs)[e.a];
        bool events = !(d.extra & CALI_ATTR_SKIP_EVENTS);
        if (events && is_end) {
            if (!my->cb) { e.has = e.k == H_ENDV; e.k = H_FAILEND; my->ev.push_back(e); my->ev.back().t0 = a; my->ev.back().t1 = tick(); probe("failed_ends"); return; }
            Ev c; c.k = H_CANEND; c.a = e.a; c.v = my->cbval; c.t0 = a; c.t1 = my->mid;
            my->ev.push_back(c);
        }
        //   Event snapshots precede the update, but without the entry that the
        // event service replaces: check what is left of them.
        for (auto& s : my->cbev) if (!ev || s.k != H_SNAP) my->ev.push_back(s);
        e.t0 = my->cb ? my->mid : a; e.t1 = tick();
        my->ev.push_back(e);
    };
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        int a = (*use)[o.a % use->size()], ca = o.a % NCD;
        Ev e; e.a = a;
        uint64_t t0 = 0;
        switch (o.kind) {
        case BEGIN: case SET: {
            { NoPreempt np; e.v = uniq++; e.k = o.kind == BEGIN ? H_BEGIN : H_SET; }
            t0 = start(a);
            if (o.kind == BEGIN) k.begin((*defs)[a].attr, Variant((int) e.v)); else k.set((*defs)[a].attr, Variant((int) e.v));
            finish(e, t0, false);
            break; }
        case END: case ENDV: {
            e.k = H_END;
            if (o.kind == ENDV) { // with the value it has now; it may change
                t0 = start(-1);
                Variant v = k.get((*defs)[a].attr).value();
                Ev g; g.k = H_GET; g.a = a; g.has = !v.empty(); g.res = v.to_int(); rec(g, t0);
                if (v.empty()) break;
                e.k = H_ENDV; e.v = v.to_int();
            }
            t0 = start(a);
            if (o.kind == END) k.end((*defs)[a].attr); else k.end_with_value_check((*defs)[a].attr, Variant((int) e.v));
            finish(e, t0, true);
            break; }
        case EXCH: {
            if ((*defs)[a].ref()) break;
            { NoPreempt np; e.v = uniq++; e.k = H_EXCH; }
            t0 = start(-1);
            Variant v = k.exchange((*defs)[a].attr, Variant((int) e.v));
            e.has = !v.empty(); e.res = v.to_int(); rec(e, t0);
            probe("exchanges"); break; }
        case GET: {
            t0 = start(-1);
            Variant v = o.b & 1 ? k.get_blackboard_entry((*defs)[a].attr).value((*defs)[a].attr) : k.get((*defs)[a].attr).value();
            e.k = H_GET; e.has = !v.empty(); e.res = v.to_int(); rec(e, t0);
            break; }
        case SNAP: {
            start(-1);
            k.push_snapshot(chn.body(), SnapshotView());
            NoPreempt np;
            if (my->cbev.size() != 1) fail("snapshot processed %d times", (int) my->cbev.size());
            my->ev.push_back(my->cbev[0]); probe("snapshots"); break; }
        case PULL: case CTX: {
            FixedSizeSnapshotRecord<120> r;
            t0 = start(-1);
            if (o.kind == PULL) k.pull_snapshot(chn.body(), SnapshotView(), r.builder()); else k.pull_context(r.builder());
            NoPreempt np;
            e.k = H_SNAP; KVs all = decode(k, r.view());
            for (auto& x : all) for (auto& d : *defs) if (d.name == x.first) e.obs.push_back(x);
            rec(e, t0); probe("snapshots"); break; }
        case GLOB: {
            t0 = start(-1);
            auto g = k.get_globals();
            NoPreempt np; e.k = H_GLOB; e.obs = decode(k, g); rec(e, t0);
            probe("globals"); break; }
        case CGLOB: {
            t0 = start(-1);
            auto g = k.get_globals(chn.body());
            NoPreempt np; e.k = H_GLOB; e.obs = decode(k, g); rec(e, t0); e.k = HC_GLOB; rec(e, t0);
            break; }
        case WRITE: {
            start(-1);
            k.flush_and_write(chn.body(), SnapshotView());
            NoPreempt np;
            for (auto& x : my->cbev) my->ev.push_back(x);
            if (my->cbev.size() != 2) fail("output written %d times", (int) my->cbev.size() / 2);
            probe("writes"); break; }
        case CBEGIN: case CSET:
            e.a = ca; { NoPreempt np; e.v = uniq++; }
            t0 = start(-1);
            if (o.kind == CBEGIN) k.begin(chn.body(), (*cdefs)[ca].attr, Variant((int) e.v)); else k.set(chn.body(), (*cdefs)[ca].attr, Variant((int) e.v));
            e.k = o.kind == CBEGIN ? HC_BEGIN : HC_SET; rec(e, t0);
            break;
        case CEND:
            e.a = ca; e.k = HC_END; t0 = start(-1);
            k.end(chn.body(), (*cdefs)[ca].attr);
            rec(e, t0); break;
        case CGET: {
            t0 = start(-1);
            Variant v = k.get(chn.body(), (*cdefs)[ca].attr).value();
            e.a = ca; e.k = HC_GET; e.has = !v.empty(); e.res = v.to_int(); rec(e, t0);
            break; }
        case SETNAME: {
            { NoPreempt np; e.v = uniq++; e.k = H_SET; e.a = 9; }
            t0 = start(-1);
            cali_set_global_int_byname("gv.9", (int) e.v);
            rec(e, t0); break; }
        }
    }
    my = nullptr;
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper k;
    defs = new std::vector<AttrDef>; cdefs = new std::vector<AttrDef>; use = new std::vector<int>;
    hist = new std::vector<Hist>((size_t) p.get("nth") + 1);
    for (int i = 0; i < ND; ++i) if (p.get("mask") >> i & 1) use->push_back(i);
    for (auto* l : { &D[0], &CD[0] })
        for (int i = 0; i < (l == D ? ND : NCD); ++i) {
            AttrDef d; d.name = l[i].n; d.kind = l[i].k; d.type = CALI_TYPE_INT; d.extra = l[i].extra;
            d.attr = k.create_attribute(d.name, d.type, d.prop());
            (l == D ? defs : cdefs)->push_back(d);
        }
    chn = make_channel("c", { { "CALI_SERVICES_ENABLE", p.get("event") ? "event,trace" : "trace" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, false);
    for (auto* e : { &chn.events().pre_begin_evt, &chn.events().pre_set_evt, &chn.events().pre_end_evt })
        e->connect([](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { on_event(a, v); });
    chn.events().process_snapshot.connect([](Caliper* c, SnapshotView, SnapshotView v) { on_snapshot(c, v); });
    chn.events().write_output_evt.connect([](Caliper* c, ChannelBody*, SnapshotView v) {
        on_snapshot(c, v);
        NoPreempt np;
        if (!my) return;
        Ev e; e.k = HC_SNAP; e.t0 = my->t0; e.t1 = tick();
        KVs all = decode(*c, v);
        for (auto& x : all) for (auto& d : *cdefs) if (d.name == x.first) e.obs.push_back(x);
        my->cbev.insert(my->cbev.begin(), e);
    });
    k.activate_channel(chn);

    run_threads((int) p.get("nth"), true, body);

    // what is left at the end, seen from a new thread and in the globals
    std::thread([] {
        Caliper c;
        my = &(*hist)[0];
        FixedSizeSnapshotRecord<120> r;
        uint64_t t0; { NoPreempt np; t0 = tick(); }
        c.pull_context(r.builder());
        auto g = c.get_globals(chn.body());
        NoPreempt np;
        Ev e; e.k = H_SNAP; e.t0 = t0; e.obs = decode(c, r.view()); e.t1 = tick(); my->ev.push_back(e);
        e.k = H_GLOB; e.obs = decode(c, g); e.t0 = tick(); e.t1 = tick(); my->ev.push_back(e); e.k = HC_GLOB; my->ev.push_back(e);
        my = nullptr;
    }).join();

    NoPreempt np;
    Search s { *hist, {}, 0, 0, {}, false };
    std::vector<size_t> pos(hist->size(), 0);
    State st; st.p.defs = defs; st.c.defs = cdefs;
    size_t total = 0; for (auto& h : *hist) total += h.ev.size();
    if (!s.go(pos, st, 0)) {
        std::string m;
        for (size_t t = 0; t < hist->size(); ++t) if (s.best_pos[t] < (*hist)[t].ev.size()) m += " | " + show((*hist)[t].ev[s.best_pos[t]], (int) t);
        std::string last; 
        fail("history is not linearizable: %d of %d operations explained, then none of%s", (int) s.best, (int) total, m.substr(0, 1500).c_str());
    }
    probe(s.gave_up ? "search_gave_up" : "ends"); probe("operations", total);
}

PropDef sim::the_prop = { "C16", gen, run, nullptr };
