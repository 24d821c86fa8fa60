// C04: on-line aggregation conserves every snapshot.
#include "model.h"
#include <cmath>
using namespace sim;

enum { BEGIN, END, SETV, SNAP, CREATE, BULK, NOPS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, r.chance(1, 4) ? 5 : 3);
    int nph = (int) r.range(1, 4);
    p.set("nth", nth); p.set("nph", nph); p.set("shortlived", r.chance(1, 3) ? r.range(1, 2) : 0);
    p.set("thkey", r.chance(1, 2));
    p.set("nref", r.range(1, 4));
    p.set("nagg", r.chance(1, 6) ? r.range(5, 12) : r.range(0, 3));
    p.set("nkey", r.chance(1, 6) ? r.range(10, 25) : r.range(0, 3));
    p.set("late", r.chance(1, 3) ? r.range(1, 4) : 0);   // attributes created while running
    p.set("clear", r.range(0, 2));                         // 0 never, 1 after each flush, 2 sometimes
    p.set("nchn", r.chance(1, 5) ? 2 : 1);
    p.set("maxv", r.chance(1, 3) ? 2 : r.range(3, 60));
    p.set("wide", r.chance(1, 5));                         // values up to 2^31
    p.set("event", r.chance(1, 4));
    p.set("collide", r.chance(1, 3) ? r.chance(1, 3) ? 2 : 1 : 0);                      // by-value key values that share a bucket with the key lacking them
    bool big = r.chance(1, 30);
    if (big) p.set("cap_points", 60000000);
    if (r.chance(1, 4)) p.set("npb", 1 << r.range(4, 7));
    int nops = (int) r.range(2, big ? 12 : r.chance(1, 4) ? 60 : 25);
    unsigned w[NOPS] = { 18, 14, 12, 45, p.get("late") ? 5u : 0u, big ? 3u : 0u };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int ph = 0; ph < nph; ++ph)
        for (int t = 0; t <= nth + (int) p.get("shortlived"); ++t)
            for (int i = 0; i < nops; ++i) {
                unsigned x = (unsigned) r.below(tot); int k = 0;
                while (x >= w[k]) x -= w[k++];
                p.add(t + 100 * ph, k, (int) r.below(64), (int) (k == BULK ? r.logrange(50, 1500) : r.below(16)), (int) r.below(8), (int64_t) (r.next() >> 16));
            }
    gen_schedule(r, p, nph * nth * nops * 60);
}

struct Num { uint64_t k = 0; double mn = 0, mx = 0, sum = 0; };
struct Agg { uint64_t count = 0; std::set<int> threads; std::map<std::string, Num> num; };
struct Chn {
    Channel chn;
    std::string name;
    std::vector<std::string> key_names;   // configured aggregation key attributes
    std::map<KVs, Agg> want;              // since the last clear
    uint64_t delivered = 0;
};
static std::vector<Chn>      chns;
static std::vector<AttrDef>  refs;
static std::vector<Attribute> aggs, keys;          // known so far; index may be empty
static Attribute th_attr;
static int64_t maxv, wide;

static void add_record(Chn& ch, Caliper* c, SnapshotView rec)
{
    NoPreempt np;
    KVs key;
    std::map<std::string, double> vals;
    for (const Entry& e : rec) if (e.is_reference()) decode_node(*c, e.node(), key, "delivered snapshot");
    KVs imm;
    for (const Entry& e : rec)
        if (e.is_immediate()) {
            Attribute a = c->get_attribute(e.attribute());
            if (find_kv(imm, a.name())) continue; // the first one counts
            imm.push_back({ a.name(), e.value().to_string() });
            if (a.properties() & CALI_ATTR_AGGREGATABLE) vals[a.name()] = e.value().to_double();
        }
    KVs ik;
    for (auto& p : imm) if (std::find(ch.key_names.begin(), ch.key_names.end(), p.first) != ch.key_names.end()) ik.push_back(p);
    std::sort(ik.begin(), ik.end());
    key.insert(key.end(), ik.begin(), ik.end());
    Agg& a = ch.want[key];
    static thread_local int me = 0; static int threads = 0;
    if (!me) me = ++threads;
    ++a.count; ++ch.delivered; a.threads.insert(me);
    for (auto& v : vals) {
        Num& n = a.num[v.first];
        if (n.k == 0 || v.second < n.mn) n.mn = v.second;
        if (n.k == 0 || v.second > n.mx) n.mx = v.second;
        n.sum += v.second; ++n.k;
    }
}

static bool near(double a, double b) { double m = std::max(1.0, std::max(a < 0 ? -a : a, b < 0 ? -b : b)); double d = a - b; return (d < 0 ? -d : d) <= 1e-5 * m; }

static void check_flush(Caliper& c, Chn& ch, bool unique_keys)
{
    std::map<KVs, Agg> got;
    uint64_t nrec = 0;
    std::map<std::pair<KVs, std::vector<const void*>>, size_t> same; // records by key and context tree nodes
    std::map<KVs, std::map<std::string, double>> avgs; // where a key has a single record
    c.flush(ch.chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        NoPreempt np;
        KVs all = decode(db, rec), key, ik;
        std::map<std::string, std::map<std::string, double>> res; // attribute -> op -> value
        double count = 0; int ncount = 0;
        for (auto& p : all) {
            size_t h = p.first.find('#');
            if (p.first == "count") { count = strtod(p.second.c_str(), 0); ++ncount; }
            else if (p.first == "aggregate.slot") continue;
            else if (h != std::string::npos && h == 3 && p.first.substr(0, 5) != "event") {
                auto& m = res[p.first.substr(h + 1)];
                if (m.count(p.first.substr(0, 3))) fail("aggregated record has %s twice: %s", p.first.c_str(), show(all).c_str());
                m[p.first.substr(0, 3)] = strtod(p.second.c_str(), 0);
            }
            else if (std::find(ch.key_names.begin(), ch.key_names.end(), p.first) != ch.key_names.end()) ik.push_back(p);
            else key.push_back(p);
        }
        std::sort(ik.begin(), ik.end());
        key.insert(key.end(), ik.begin(), ik.end());
        if (ncount != 1 || count < 1) fail("aggregated record without a count: %s", show(all).c_str());
        auto w = ch.want.find(key);
        if (w == ch.want.end()) fail("aggregated record for a key that no snapshot had: %s", show(all).c_str());
        // several records for one key are fine (one per thread, or per duplicate context tree node): they add up
        std::vector<const void*> nodes;
        for (auto& e : rec) if (e.is_reference()) nodes.push_back(e.node());
        if (++same[{ key, nodes }] > w->second.threads.size()) fail("%d threads had snapshots with the key %s, but there are more aggregated records for it", (int) w->second.threads.size(), show(key).c_str());
        Agg& g = got[key];
        if (unique_keys && g.count) probe("records_with_equal_key");
        g.count += (uint64_t) count;
        for (auto& r : res) {
            auto& m = r.second;
            if (m.size() != 4) fail("incomplete result for %s: %s", r.first.c_str(), show(all).c_str());
            Num& n = g.num[r.first];
            if (n.k == 0 || m["min"] < n.mn) n.mn = m["min"];
            if (n.k == 0 || m["max"] > n.mx) n.mx = m["max"];
            n.sum += m["sum"]; ++n.k; avgs[key][r.first] = n.k == 1 ? m["avg"] : NAN;
            if (m["avg"] < m["min"] - 1 || m["avg"] > m["max"] + 1) fail("average of %s outside its range: %s", r.first.c_str(), show(all).c_str());
        }
        ++nrec;
    });
    NoPreempt np;
    for (auto& w : ch.want) {
        auto g = got.find(w.first);
        if (g == got.end()) fail("no aggregated record for %" PRIu64 " snapshots with %s", w.second.count, show(w.first).c_str());
        if (g->second.count != w.second.count) fail("%" PRIu64 " snapshots had the key %s, but %" PRIu64 " were aggregated", w.second.count, show(w.first).c_str(), g->second.count);
        for (auto& n : w.second.num) {
            auto gn = g->second.num.find(n.first);
            if (gn == g->second.num.end()) fail("no result for attribute %s in the record for %s", n.first.c_str(), show(w.first).c_str());
            if (!near(gn->second.sum, n.second.sum) || !near(gn->second.mn, n.second.mn) || !near(gn->second.mx, n.second.mx))
                fail("attribute %s in the record for %s: expected sum %.12g min %.12g max %.12g, got sum %.12g min %.12g max %.12g", n.first.c_str(), show(w.first).c_str(), n.second.sum, n.second.mn, n.second.mx, gn->second.sum, gn->second.mn, gn->second.mx);
        }
        for (auto& n : w.second.num) {
            double avg = n.second.sum / (double) n.second.k, have = avgs[w.first][n.first], d = avg - have;
            if (have == have && (d < -1 || d > 1)) fail("average of %s is %g, expected %g in the record for %s", n.first.c_str(), have, avg, show(w.first).c_str());
        }
        for (auto& gn : g->second.num) if (!w.second.num.count(gn.first)) fail("result for attribute %s that no snapshot with key %s had", gn.first.c_str(), show(w.first).c_str());
    }
    probe("aggregated_records", nrec);
}

static cali_attr_type num_type(int i) { static const cali_attr_type t[] = { CALI_TYPE_INT, CALI_TYPE_DOUBLE, CALI_TYPE_UINT }; return t[i % 3]; }
static cali_attr_type key_type(int i) { static const cali_attr_type t[] = { CALI_TYPE_INT, CALI_TYPE_STRING, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL }; return t[i % 5]; }

static Attribute make_agg(Caliper& c, int i)
{
    int p = CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_AGGREGATABLE;
    return c.create_attribute("v." + std::to_string(i), num_type(i), p);
}
static Attribute make_key(Caliper& c, int i)
{
    int p = CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS;
    if (i % 7 == 3) p |= CALI_ATTR_AGGREGATABLE; // both key and aggregated
    return c.create_attribute("k." + std::to_string(i), i % 7 == 3 ? num_type(i) : key_type(i), p);
}
static int collide;
static Variant val(const Attribute& a, int64_t v)
{
    if (collide && a.name()[0] == 'k' && (a.type() == CALI_TYPE_INT || a.type() == CALI_TYPE_UINT))
        return make_value(a.type(), 8192 * (1 + (int64_t) ((uint64_t) v % (uint64_t) (collide > 1 ? 50 : 3))) - (int64_t) (a.id() % 8192));
    if (wide && (a.properties() & CALI_ATTR_AGGREGATABLE)) v = (int64_t) ((uint64_t) v % 2147483647u) * ((v >> 20) & 1 && a.type() != CALI_TYPE_UINT ? -1 : 1);
    else { v = (int64_t) ((uint64_t) v % (uint64_t) maxv); if (a.type() == CALI_TYPE_INT || a.type() == CALI_TYPE_DOUBLE) v -= maxv / 2; }
    return make_value(a.type(), v);
}

static std::atomic<int> pushed[2];

static void body(int t, int ph, int phase_threads)
{
    const Plan& p = plan();
    Caliper c;
    static thread_local ThreadModel* mp = nullptr;
    static thread_local bool started = false;
    ThreadModel m0; m0.defs = &refs;
    (void) mp; (void) phase_threads;
    ThreadModel& m = m0; // every phase closes what it opened
    if (!started) {
        started = true;
        static std::atomic<int> uid { 0 };
        if (p.get("thkey")) c.begin(th_attr, Variant((int) ++uid));
    }
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t + 100 * ph) continue;
        int d = o.a % (int) refs.size();
        switch (o.kind) {
        case BEGIN: if (m.stack(d).size() < 12) { int64_t v = o.v % maxv; c.begin(refs[d].attr, make_value(refs[d].type, v)); m.begin(d, v); } break;
        case END: if (m.can_end(d)) { c.end(refs[d].attr); m.end(d); } break;
        case SETV: {
            std::vector<Attribute>& pool = (o.c & 1) && !keys.empty() ? keys : aggs;
            Attribute a; { NoPreempt np; if (!pool.empty()) a = pool[o.a % pool.size()]; }
            if (a) c.set(a, val(a, o.v));
            break;
        }
        case CREATE: {
            int n = o.a % (int) p.get("late", 1), ak = o.c & 1;
            Attribute a = ak ? make_agg(c, (int) p.get("nagg") + n) : make_key(c, (int) p.get("nkey") + n);
            // used by this thread only until the end of the phase: creation has completed here
            c.set(a, val(a, o.v));
            break;
        }
        case SNAP: case BULK: {
            int n = o.kind == BULK ? o.b : 1;
            for (int j = 0; j < n; ++j) {
                FixedSizeSnapshotRecord<60> trg;
                for (int e = 0; e < o.b % 8 + (o.kind == BULK); ++e) {
                    uint64_t x = (uint64_t) o.v * (e + 3) + (uint64_t) j * 977 + (uint64_t) (e * 31);
                    Attribute a; { NoPreempt np; auto& pool = !keys.empty() && (aggs.empty() || (x & 1)) ? keys : aggs; if (!pool.empty()) a = pool[(x >> 3) % pool.size()]; }
                    if (a) trg.builder().append(a, val(a, (int64_t) (x >> 7)));
                }
                if (o.kind == BULK) { c.set(refs[0].attr, make_value(refs[0].type, j % 40)); if (!keys.empty()) trg.builder().append(keys[0], val(keys[0], j / 40)); }
                int ci = chns.size() > 1 ? (o.c >> 1) & 1 : 0;
                ++pushed[ci];
                c.push_snapshot(chns[ci].chn.body(), trg.view());
            }
            if (o.kind == BULK) { probe("bulk"); if (m.stack(0).empty()) c.end(refs[0].attr); else { ThreadModel::Stack& st = m.stack(0); bool had = false; for (auto& x : st) had |= x.first == 0; if (!had) c.end(refs[0].attr); } }
            break;
        }
        }
    }
    while (!m.region.empty()) { int d = m.region.back().first; c.end(refs[d].attr); m.end(d); }
    while (!m.unaligned.empty()) { int d = m.unaligned.back().first; c.end(refs[d].attr); m.end(d); }
}

static void run(const Plan& p)
{
    clean_env();
    maxv = p.get("maxv"); wide = p.get("wide"); collide = (int) p.get("collide");
    cali_init();
    Caliper c;
    int nagg = (int) p.get("nagg"), nkey = (int) p.get("nkey"), late = (int) p.get("late");
    std::string keystr;
    std::vector<std::string> key_names;
    for (int i = 0; i < nkey + late; ++i) { key_names.push_back("k." + std::to_string(i)); keystr += (i ? "," : "") + key_names.back(); }
    for (int i = 0; i < nagg; ++i) if (i % 2) aggs.push_back(make_agg(c, i)); // some before the channel exists
    for (int i = 0; i < nkey; ++i) if (i % 2) keys.push_back(make_key(c, i));
    chns.resize((size_t) p.get("nchn"));
    for (size_t i = 0; i < chns.size(); ++i) {
        std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", p.get("event") && i == 0 ? "event,aggregate" : "aggregate" } };
        chns[i].name = "chn" + std::to_string(i);
        if (i == 0) { cfg["CALI_AGGREGATE_KEY"] = keystr; chns[i].key_names = key_names; }
        chns[i].chn = make_channel(chns[i].name.c_str(), cfg);
        Chn* ch = &chns[i];
        ch->chn.events().process_snapshot.connect([ch](Caliper* c, SnapshotView, SnapshotView rec) { add_record(*ch, c, rec); });
    }
    for (int i = 0; i < nagg; ++i) if (i % 2 == 0) aggs.push_back(make_agg(c, i));
    for (int i = 0; i < nkey; ++i) if (i % 2 == 0) keys.push_back(make_key(c, i));
    th_attr = c.create_attribute("th", CALI_TYPE_INT, CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < (int) p.get("nref"); ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = i == 1 ? K_UNALIGNED : i == 2 ? K_PLAIN : K_NESTED; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        refs.push_back(d);
    }
    int nth = (int) p.get("nth"), nsl = (int) p.get("shortlived");
    Crew crew;
    crew.start(nth, [&](int t, int ph) { body(t, ph, nth); });
    for (int ph = 0; ph < p.get("nph"); ++ph) {
        crew.launch();
        std::vector<std::thread> sl;
        for (int k = 0; k < nsl; ++k) sl.emplace_back([&, k, ph] { body(nth + 1 + k, ph, nth); });
        body(0, ph, nth);
        crew.wait();
        for (auto& t : sl) t.join();
        // attributes created during the phase are used by everybody from now on
        for (auto& a : c.get_all_attributes()) {
            bool ag = a.name().substr(0, 2) == "v.", ky = a.name().substr(0, 2) == "k.";
            if (ag && std::find(aggs.begin(), aggs.end(), a) == aggs.end()) aggs.push_back(a);
            if (ky && std::find(keys.begin(), keys.end(), a) == keys.end()) keys.push_back(a);
        }
        for (auto& ch : chns) {
            check_flush(c, ch, p.get("thkey"));
            if (p.get("clear") == 1 || (p.get("clear") == 2 && (ph & 1))) {
                c.clear(&ch.chn);
                ch.want.clear();
                check_flush(c, ch, false);
            }
        }
    }
    crew.stop();
    for (size_t i = 0; i < chns.size(); ++i) {
        check_flush(c, chns[i], p.get("thkey"));
        if (!(i == 0 && p.get("event")) && chns[i].delivered != (uint64_t) pushed[i].load()) fail("%d snapshots taken, %" PRIu64 " delivered", pushed[i].load(), chns[i].delivered);
        probe("snapshots", chns[i].delivered);
        chns[i].chn = Channel();
    }
}

PropDef sim::the_prop = { "C04", gen, run, nullptr };
