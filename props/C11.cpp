// C11: channels are independent; only active channels record, and they record everything once.
#include "model.h"
using namespace sim;

enum { BEGIN, END, SET, CSNAP, ALLSNAP, TOGGLE, CREATE, DELETE, FLUSH, CLEAR, WRITE, CSET, CREF, CREFEND, CGET, ATTR, YIELD, CEVT, CEVTEND, CEVTSET, NOPS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 2);
    int nchn = (int) r.range(1, 4);
    p.set("nth", nth); p.set("nchn", nchn); p.set("maxchn", nchn + r.range(0, 2));
    for (int i = 0; i < 7; ++i) p.set(strf("cfg%d", i).c_str(), r.below(1024));
    int nops = (int) r.range(3, r.chance(1, 4) ? 70 : 25);
    static const unsigned w[NOPS] = { 20, 16, 10, 10, 6, 10, 2, 2, 3, 3, 2, 4, 3, 3, 4, 3, 2, 4, 3, 2 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(16), (int) r.below(16), (int) r.below(4), (int64_t) r.below(50));
        }
    gen_schedule(r, p, (nth + 1) * nops * 80);
}

static std::vector<AttrDef>* defs;
static Attribute cval, cref, cevt, user_attr;
static std::atomic<int64_t> uniq { 1 };
static std::atomic<int> nattr;

struct Span { uint64_t a, b; int state; };          // a state change: started, finished, new state
struct Rec { uint64_t a, b; bool unsure; int seen = 0; };
enum { PRE_BEGIN, POST_BEGIN, PRE_SET, PRE_END, NEVT };
struct Chn {
    int idx = 0; Channel ch; std::string name; std::mutex mx;
    bool event = false, timer = false, trace = false, aggr = false, trigger = false, exists = false, gone = false, early = false;
    std::vector<Span> life, act;                    // existence and activation over time
    std::vector<Span> busy;                         // flushes and clears (state 1: clear)
    std::map<std::string, Rec> recs;                // what must be in its buffers
    std::map<int, int64_t> data; std::vector<int64_t> refs, evs; // channel data
};
static std::deque<Chn>* chns;

//   The operation a thread is executing, and what the channels observe of it
struct Op1 {
    uint64_t t0 = 0;
    struct Seen { int evt[NEVT] = { 0, 0, 0, 0 }; int created = 0; std::vector<std::pair<KVs, std::string>> recs; };
    std::map<int, Seen> seen;
    int attr = -1; std::string val, new_attr;
};
struct TM { ThreadModel m; int id; Op1 op; bool active = false; };
static thread_local TM* tm;

// 1: in the state during the whole interval, 0: not, -1: unsure
static int held(const std::vector<Span>& v, uint64_t a, uint64_t b)
{
    int st = 0;
    for (auto& s : v) {
        if (s.b && s.b < a) { st = s.state; continue; }
        if (s.a > b) break;
        return -1;
    }
    return st;
}

static void on_evt(Chn* c, int e, const Attribute& a, const Variant& v)
{
    NoPreempt np;
    if (!tm || !tm->active) return;
    if (tm->op.attr >= 0 && a == (*defs)[tm->op.attr].attr) {
        if (v.to_string() != tm->op.val) fail("%s: event of %s with value %s, expected %s", c->name.c_str(), a.name().c_str(), v.to_string().c_str(), tm->op.val.c_str());
        tm->op.seen[c->idx].evt[e]++;
    } else if (a == cevt) {
        if (tm->op.attr != -2 - c->idx) fail("%s: sees an event of another channel's data", c->name.c_str());
        if (v.to_string() != tm->op.val) fail("%s: event of %s with value %s, expected %s", c->name.c_str(), a.name().c_str(), v.to_string().c_str(), tm->op.val.c_str());
        tm->op.seen[c->idx].evt[e]++;
    } else if (a == cref || a == cval) {
        if (tm->op.attr != -2 - c->idx) fail("%s: sees an event of another channel's data", c->name.c_str());
    } else if (!(a.properties() & CALI_ATTR_SKIP_EVENTS)) fail("%s: event of %s, which no one changed", c->name.c_str(), a.name().c_str());
}

static void on_rec(Chn* c, Caliper* cali, SnapshotView v)
{
    NoPreempt np;
    if (!tm || !tm->active) { fail("%s: snapshot outside of any call", c->name.c_str()); }
    KVs kv = decode(*cali, v);
    std::string key;
    for (auto& p : kv) if (p.first.compare(0, 5, "time.")) key += p.first + "=" + p.second + ";";
    tm->op.seen[c->idx].recs.push_back({ kv, key });
}

static void make(int i, bool early)
{
    const Plan& p = plan();
    int cfg = (int) p.get(strf("cfg%d", i % 7).c_str());
    Chn* c = &(*chns)[i];
    uint64_t a;
    { NoPreempt np; a = tick(); c->idx = i; c->name = strf("ch%d", i);
      c->event = cfg & 1; c->timer = cfg & 2; c->trace = !(cfg & 4); c->aggr = cfg & 8; c->trigger = cfg & 16;
      c->life.push_back({ a, 0, 1 }); c->act.push_back({ a, 0, 0 }); }
    std::string sv = c->trace ? "trace" : "";
    if (c->event) sv = cfg & 64 ? "event," + sv : sv + ",event";
    if (c->timer) sv = cfg & 128 ? "timer," + sv : sv + ",timer";
    if (c->aggr) sv += ",aggregate";
    std::map<std::string, std::string> m = { { "CALI_SERVICES_ENABLE", sv } };
    if (c->trigger) m["CALI_EVENT_TRIGGER"] = "r.0";
    bool active = cfg & 32;
    Channel ch = make_channel(c->name.c_str(), m, false);
    //   Connect while the channel is inactive: events that race with the connection are not seen
    ch.events().pre_begin_evt.connect([c](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { on_evt(c, PRE_BEGIN, a, v); });
    ch.events().post_begin_evt.connect([c](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { on_evt(c, POST_BEGIN, a, v); });
    ch.events().pre_set_evt.connect([c](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { on_evt(c, PRE_SET, a, v); });
    ch.events().pre_end_evt.connect([c](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { on_evt(c, PRE_END, a, v); });
    //   Attributes are announced to inactive channels, too: connect only before there are other threads
    c->early = early;
    if (early) ch.events().create_attr_evt.connect([c](Caliper*, const Attribute& a) { NoPreempt np; if (tm && tm->active && a.name() == tm->op.new_attr) tm->op.seen[c->idx].created++; });
    ch.events().process_snapshot.connect([c](Caliper* k, SnapshotView, SnapshotView v) { on_rec(c, k, v); });
    ch.events().write_output_evt.connect([c](Caliper* k, ChannelBody*, SnapshotView info) {
        NoPreempt np;
        KVs kv = decode(*k, info);
        const std::string* s = find_kv(kv, "chn.val");
        if (!c->data.count(0) ? s != nullptr : !s || *s != std::to_string(c->data[0])) fail("%s: flush information has wrong channel data: %s", c->name.c_str(), show(kv).c_str());
        std::vector<std::string> g, e; g = all_kv(kv, "chn.ref"); for (auto x : c->refs) e.push_back(std::to_string(x));
        if (g != e) fail("%s: flush information has wrong channel regions: %s", c->name.c_str(), show(kv).c_str());
        s = find_kv(kv, "cali.channel");
        if (!s || *s != c->name) fail("%s: flush information names another channel: %s", c->name.c_str(), show(kv).c_str());
        probe("writes");
    });
    { NoPreempt np; c->ch = ch; c->exists = true; c->life.back().b = tick(); c->act.back().b = tick(); }
    if (active) {
        Caliper k;
        { NoPreempt np; c->act.push_back({ tick(), 0, 1 }); }
        k.activate_channel(c->ch);
        NoPreempt np; c->act.back().b = tick();
    }
}

// expected numbers of events and snapshots of the operation just executed
static void verify(const char* what, int nevt[NEVT], int snap_chn /* -1: no explicit snapshot, -2: all */, int evt, uint64_t uv)
{
    NoPreempt np;
    uint64_t a = tm->op.t0, b = tick();
    tm->active = false;
    for (Chn& c : *chns) {
        Op1::Seen& s = tm->op.seen[c.idx];
        const char* nm = c.name.c_str();
        int on = held(c.act, a, b), lives = held(c.life, a, b);
        if (lives == 0) on = 0; else if (lives < 0 && on) on = -1;
        for (int e = 0; e < NEVT; ++e) {
            if (s.evt[e] > nevt[e]) fail("%s: sees %d events (kind %d) of one %s", nm, s.evt[e], e, what);
            if (on == 0 && s.evt[e]) fail("%s: inactive, but sees an event of %s", nm, what);
            if (on == 1 && s.evt[e] != nevt[e]) fail("%s: active, but sees no event (kind %d) of %s", nm, e, what);
        }
        if (s.created) {
            if (lives == 0) fail("%s: a deleted channel sees a new attribute", nm);
            if (s.created > 1) fail("%s: sees a new attribute %d times", nm, s.created);
        }
        if (lives == 1 && c.early && !s.created && !tm->op.new_attr.empty()) fail("%s: does not see a new attribute", nm);
        int want = 0;
        if (snap_chn == -2 || snap_chn == c.idx) want = 1;
        if (evt >= 0 && c.event && tm->op.attr >= 0 && !(((*defs)[tm->op.attr].extra) & CALI_ATTR_SKIP_EVENTS) && (!c.trigger || (*defs)[tm->op.attr].name == "r.0")) want = 1;
        int n = (int) s.recs.size();
        if (on == 0 && n) fail("%s: inactive, but records a snapshot of %s", nm, what);
        if (n > want) fail("%s: %d snapshots of %s, expected %d", nm, n, what, want);
        if (on == 1 && n != want) fail("%s: active, but has %d snapshots of %s, expected %d", nm, n, what, want);
        for (auto& r : s.recs) {
            KVs rest;
            check_record(tm->m, r.first, strf("%s: %s", nm, what).c_str(), &rest);
            static const char* const pre[] = { "event.begin#", "event.set#", "event.end#" };
            bool user = snap_chn == -2 || snap_chn == c.idx;
            for (auto& p : rest) {
                if (p.first == "cali.caliper.version") continue;
                if (p.first.compare(0, 5, "time.") == 0) { if (!c.timer) fail("%s: has no timer, but records %s", nm, show(rest).c_str()); continue; }
                if (p.first == "region.count" && evt == 2) continue;
                if (p.first == "user" && user && p.second == std::to_string(uv)) continue;
                if (!user && evt >= 0 && p.first == pre[evt] + (*defs)[tm->op.attr].name && p.second == tm->op.val) continue;
                fail("%s: %s: unexpected entry %s=%s", nm, what, p.first.c_str(), p.second.c_str());
            }
            if (c.timer && (!find_kv(rest, "time.offset.ns") || !find_kv(rest, "time.duration.ns"))) fail("%s: %s: timer data is missing: %s", nm, what, show(r.first).c_str());
            if (user && !find_kv(rest, "user")) fail("%s: %s: trigger data is missing: %s", nm, what, show(r.first).c_str());
            if (c.recs.count(r.second)) fail("%s: the same snapshot again: %s", nm, r.second.c_str());
            bool unsure = false;
            for (auto& s : c.busy) if (!s.b || s.b > a) unsure = true;
            c.recs[r.second] = Rec { a, b, unsure };
            probe("snapshots");
        }
    }
    tm->op.seen.clear(); tm->op.attr = -1;
}
static void start() { NoPreempt np; tm->op = Op1(); tm->op.t0 = tick(); tm->active = true; }

// the same for an operation on the data of one channel (whose lock is held)
static void verify_chn(Chn& me, const char* what, const int nevt[NEVT], const char* label)
{
    NoPreempt np;
    uint64_t a = tm->op.t0, b = tick();
    tm->active = false;
    bool on = me.act.back().state;
    for (Chn& c : *chns) {
        Op1::Seen& s = tm->op.seen[c.idx];
        const char* nm = c.name.c_str();
        for (int e = 0; e < NEVT; ++e) {
            int want = &c == &me && on ? nevt[e] : 0;
            if (s.evt[e] != want) fail("%s (%s): sees %d events (kind %d) of %s of channel %s, expected %d", nm, on ? "active" : "inactive", s.evt[e], e, what, me.name.c_str(), want);
        }
        size_t want = &c == &me && on && c.event && !c.trigger;
        if (s.recs.size() != want) fail("%s (%s): %zu snapshots of %s of channel %s, expected %zu", nm, on ? "active" : "inactive", s.recs.size(), what, me.name.c_str(), want);
        for (auto& r : s.recs) {
            KVs rest;
            check_record(tm->m, r.first, strf("%s: %s", nm, what).c_str(), &rest);
            bool found = false;
            for (auto& p : rest) {
                if (p.first == label && p.second == tm->op.val) { found = true; continue; }
                if (p.first == "cali.caliper.version" || p.first == "region.count") continue;
                if (c.timer && p.first.compare(0, 5, "time.") == 0) continue;
                fail("%s: %s: unexpected entry %s=%s", nm, what, p.first.c_str(), p.second.c_str());
            }
            if (!found) fail("%s: %s: trigger data is missing: %s", nm, what, show(r.first).c_str());
            if (c.recs.count(r.second)) fail("%s: the same snapshot again: %s", nm, r.second.c_str());
            bool unsure = false;
            for (auto& s : c.busy) if (!s.b || s.b > a) unsure = true;
            c.recs[r.second] = Rec { a, b, unsure };
            probe("channel_snapshots");
        }
    }
    tm->op.seen.clear(); tm->op.attr = -1;
    probe(on ? "channel_events_active" : "channel_events_inactive");
}

static void check_contents(Caliper& k, Chn& c, bool quiet, const char* what)
{
    uint64_t a; size_t bi;
    { NoPreempt np; a = tick(); bi = c.busy.size(); c.busy.push_back({ a, 0, 0 }); for (auto& r : c.recs) r.second.seen = 0; }
    std::map<std::string, int> got; uint64_t aggr = 0; bool gone = false;
    k.flush(c.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        NoPreempt np;
        KVs kv = decode(db, rec);
        if (const std::string* n = find_kv(kv, "count")) { aggr += strtoull(n->c_str(), nullptr, 10); return; }
        std::string key;
        for (auto& p : kv) if (p.first.compare(0, 5, "time.")) key += p.first + "=" + p.second + ";";
        got[key]++;
    });
    NoPreempt np;
    uint64_t b = tick(); c.busy[bi].b = b;
    if (held(c.life, a, b) != 1) gone = true;
    const char* nm = c.name.c_str();
    uint64_t sure = 0, maybe = 0;
    for (auto& r : c.recs) { bool u = r.second.unsure || r.second.b > a; (u ? maybe : sure)++; }
    if (gone) return;
    if (c.trace) {
        for (auto& g : got) {
            auto it = c.recs.find(g.first);
            if (it == c.recs.end()) { if (!quiet) continue; fail("%s: %s: contains a record that was not taken here, or was cleared: %s", nm, what, g.first.c_str()); }
            if (g.second > 1) fail("%s: %s: contains a record %d times: %s", nm, what, g.second, g.first.c_str());
            it->second.seen++;
        }
        for (auto& r : c.recs) if (!r.second.unsure && r.second.b < a && !r.second.seen) fail("%s: %s: lacks a record: %s", nm, what, r.first.c_str());
    } else if (!got.empty()) fail("%s: %s: has no trace, but records", nm, what);
    if (c.aggr) {
        if (aggr < sure) fail("%s: %s: profile counts %" PRIu64 " snapshots of %" PRIu64, nm, what, aggr, sure);
        if (quiet && aggr > sure + maybe) fail("%s: %s: profile counts %" PRIu64 " snapshots of %" PRIu64, nm, what, aggr, sure + maybe);
    } else if (aggr) fail("%s: %s: has no profile, but counts", nm, what);
    // snapshots that raced with this output: later ones decide
    for (auto& r : c.recs) if (r.second.b > a) r.second.unsure = true;
    probe("flushes");
}

static void body(int t)
{
    const Plan& p = plan();
    Caliper k;
    TM* me;
    { NoPreempt np; me = new TM; me->m.defs = defs; me->id = t; tm = me; }
    ThreadModel& m = me->m;
    int none[NEVT] = { 0, 0, 0, 0 };
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        int a = o.a % (int) defs->size();
        AttrDef* d = &(*defs)[a];
        size_t nc = chns->size();
        Chn& c = (*chns)[o.b % nc];
        bool ev = !(d->extra & CALI_ATTR_SKIP_EVENTS);
        switch (o.kind) {
        case BEGIN: {
            if (m.region.size() + m.unaligned.size() > 20) break;
            int64_t v = ++uniq; int n[NEVT] = { ev, ev, 0, 0 };
            start(); me->op.attr = a; me->op.val = std::to_string(v);
            k.begin(d->attr, Variant((int) v)); verify("begin", n, -1, 0, 0); m.begin(a, v); break; }
        case END: {
            if (!m.can_end(a)) { if (m.region.empty()) break; a = m.region.back().first; d = &(*defs)[a]; ev = !(d->extra & CALI_ATTR_SKIP_EVENTS); }
            int64_t v; m.get(a, v); int n[NEVT] = { 0, 0, 0, ev };
            start(); me->op.attr = a; me->op.val = std::to_string(v);
            k.end(d->attr); verify("end", n, -1, 2, 0); m.end(a); break; }
        case SET: {
            if (m.region.size() + m.unaligned.size() > 20) break;
            int64_t v = ++uniq; int n[NEVT] = { 0, 0, ev, 0 };
            start(); me->op.attr = a; me->op.val = std::to_string(v);
            k.set(d->attr, Variant((int) v)); verify("set", n, -1, 1, 0); m.set(a, v); break; }
        case CSNAP: {
            if (!c.exists) break;
            int64_t v = ++uniq; start();
            cali_id_t id = user_attr.id(); cali_variant_t x = cali_make_variant_from_int((int) v);
            cali_channel_push_snapshot(c.ch.id(), CALI_SCOPE_THREAD, 1, &id, &x);
            verify("channel snapshot", none, c.idx, -1, (uint64_t) v); break; }
        case ALLSNAP: {
            int64_t v = ++uniq; start();
            cali_id_t id = user_attr.id(); cali_variant_t x = cali_make_variant_from_int((int) v);
            cali_push_snapshot(CALI_SCOPE_THREAD, 1, &id, &x);
            verify("snapshot", none, -2, -1, (uint64_t) v); break; }
        case TOGGLE: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone) break;
            bool on = o.c & 1;
            size_t s; { NoPreempt np; s = c.act.size(); int cur = c.act.back().state; if (cur == on) { s = ~0ul; } else c.act.push_back({ tick(), 0, on }); }
            if (o.c & 2) { if (on) k.activate_channel(c.ch); else k.deactivate_channel(c.ch); }
            else { if (on) cali_activate_channel(c.ch.id()); else cali_deactivate_channel(c.ch.id()); }
            if ((cali_channel_is_active(c.ch.id()) != 0) != on) fail("%s: activation state is wrong", c.name.c_str());
            NoPreempt np; if (s != ~0ul) c.act[s].b = tick();
            probe("toggles"); break; }
        case CREATE: {
            static std::mutex cm; static int next = -1;
            std::lock_guard<std::mutex> g(cm);
            if (next < 0) next = (int) p.get("nchn");
            if (next >= p.get("maxchn")) break;
            int n = next++;
            std::lock_guard<std::mutex> g2((*chns)[n].mx);
            make(n, false); probe("late_channels"); break; }
        case DELETE: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone || (o.v & 1)) break;
            { NoPreempt np; c.gone = true; c.life.push_back({ tick(), 0, 0 }); c.act.push_back({ tick(), 0, 0 }); }
            if (o.c & 1) k.delete_channel(c.ch); else cali_delete_channel(c.ch.id());
            NoPreempt np; c.life.back().b = tick(); c.act.back().b = tick();
            probe("deletes"); break; }
        case FLUSH: {
            std::lock_guard<std::mutex> g(c.mx);
            if (c.exists && !c.gone) check_contents(k, c, false, "output");
            break; }
        case CLEAR: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone) break;
            size_t s; uint64_t a;
            { NoPreempt np; a = tick(); s = c.busy.size(); c.busy.push_back({ a, 0, 1 }); }
            k.clear(&c.ch);
            NoPreempt np; c.busy[s].b = tick();
            for (auto it = c.recs.begin(); it != c.recs.end();) if (it->second.b < a) it = c.recs.erase(it); else { it->second.unsure = true; ++it; }
            probe("clears"); break; }
        case WRITE: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone) break;
            { NoPreempt np; c.busy.push_back({ tick(), 0, 0 }); }
            k.flush_and_write(c.ch.body(), SnapshotView());
            NoPreempt np; c.busy.back().b = tick(); break; }
        case CSET: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone) break;
            start(); me->op.attr = -2 - c.idx;
            k.set(c.ch.body(), cval, Variant((int) o.v));
            NoPreempt np; tm->active = false; c.data[0] = o.v; break; }
        case CREF: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone || c.refs.size() > 10) break;
            start(); me->op.attr = -2 - c.idx;
            k.begin(c.ch.body(), cref, Variant((int) o.v));
            NoPreempt np; tm->active = false; c.refs.push_back(o.v); break; }
        case CREFEND: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone || c.refs.empty()) break;
            start(); me->op.attr = -2 - c.idx;
            k.end(c.ch.body(), cref);
            NoPreempt np; tm->active = false; c.refs.pop_back(); break; }
        case CGET: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone) break;
            Variant v = k.get(c.ch.body(), cval).value(), w = k.get(c.ch.body(), cref).value();
            if (c.data.count(0) ? v.to_int() != c.data[0] : !v.empty()) fail("%s: channel value is %s", c.name.c_str(), v.to_string().c_str());
            if (c.refs.empty() ? !w.empty() : w.to_int() != c.refs.back()) fail("%s: channel region is %s", c.name.c_str(), w.to_string().c_str());
            Variant x = k.get(c.ch.body(), cevt).value();
            if (c.evs.empty() ? !x.empty() : x.to_int() != c.evs.back()) fail("%s: channel region is %s", c.name.c_str(), x.to_string().c_str());
            if (!k.get(cval).empty() || !k.get(cref).empty()) fail("channel data is visible outside of its channel");
            auto gl = k.get_globals(c.ch.body());
            NoPreempt np;
            KVs kv = decode(k, gl);
            const std::string* s = find_kv(kv, "cali.channel");
            if (!s || *s != c.name || all_kv(kv, "cali.channel").size() != 1) fail("%s: wrong globals %s", c.name.c_str(), show(kv).c_str());
            if (!find_kv(kv, "starttime.sec") || !find_kv(kv, "cali.caliper.version")) fail("%s: globals lack an entry: %s", c.name.c_str(), show(kv).c_str());
            break; }
        case ATTR: {
            start(); { NoPreempt np; me->op.new_attr = strf("new.%d", ++nattr); }
            Attribute n = k.create_attribute(me->op.new_attr, CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
            if (!n) fail("attribute cannot be created");
            verify("attribute creation", none, -1, -1, 0); break; }
        case CEVT: case CEVTEND: case CEVTSET: {
            std::lock_guard<std::mutex> g(c.mx);
            if (!c.exists || c.gone || (o.kind == CEVTEND ? c.evs.empty() : c.evs.size() > 6)) break;
            int64_t v = o.kind == CEVTEND ? c.evs.back() : ++uniq;
            static const int n[3][NEVT] = { { 1, 1, 0, 0 }, { 0, 0, 0, 1 }, { 0, 0, 1, 0 } };
            start(); me->op.attr = -2 - c.idx; me->op.val = std::to_string(v);
            if (o.kind == CEVT) { k.begin(c.ch.body(), cevt, Variant((int) v)); verify_chn(c, "begin", n[0], "event.begin#chn.evt"); }
            else if (o.kind == CEVTEND) { k.end(c.ch.body(), cevt); verify_chn(c, "end", n[1], "event.end#chn.evt"); }
            else { k.set(c.ch.body(), cevt, Variant((int) v)); verify_chn(c, "set", n[2], "event.set#chn.evt"); }
            NoPreempt np;
            if (o.kind != CEVT && !c.evs.empty()) c.evs.pop_back();
            if (o.kind != CEVTEND) c.evs.push_back(v);
            break; }
        case YIELD: sched_yield(); break;
        }
        if (m.broken) harness_error("model broken");
    }
    NoPreempt np; tm = nullptr;
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper k;
    defs = new std::vector<AttrDef>; chns = new std::deque<Chn>((size_t) p.get("maxchn"));
    static const struct { const char* n; AttrKind kd; int extra; } D[] = { { "r.0", K_NESTED, 0 }, { "u.1", K_UNALIGNED, 0 }, { "v.2", K_VALUE, 0 }, { "p.3", K_PLAIN, 0 }, { "k.4", K_NESTED, CALI_ATTR_SKIP_EVENTS } };
    for (auto& x : D) {
        AttrDef d; d.name = x.n; d.kind = x.kd; d.type = CALI_TYPE_INT; d.extra = x.extra;
        d.attr = k.create_attribute(d.name, d.type, d.prop());
        defs->push_back(d);
    }
    for (size_t i = 0; i < chns->size(); ++i) { (*chns)[i].idx = (int) i; (*chns)[i].name = strf("ch%d", (int) i); }
    user_attr = k.create_attribute("user", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    cval = k.create_attribute("chn.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    cref = k.create_attribute("chn.ref", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
    cevt = k.create_attribute("chn.evt", CALI_TYPE_INT, CALI_ATTR_UNALIGNED);
    for (int i = 0; i < p.get("nchn"); ++i) { std::lock_guard<std::mutex> g((*chns)[i].mx); make(i, true); }
    run_threads((int) p.get("nth"), true, body);
    for (Chn& c : *chns) if (c.exists && !c.gone) check_contents(k, c, true, "final output");
    probe("ends");
}

PropDef sim::the_prop = { "C11", gen, run, nullptr };
