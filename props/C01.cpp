// C01: a snapshot shows exactly the annotations open on its thread.
#include "model.h"
#include <caliper/Annotation.h>
using namespace sim;

enum { B, E, EV, ST, PUSH, PULL, GET, CTX, PATH, BADEND, CPULL, CURREG, NOPS };

// attribute descriptors are parameters a<i> = kind + 8*type + 64*skip_events
static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, r.chance(1, 4) ? 5 : 3);
    int mode = (int) r.below(10); // 0-4 normal, 5-7 clustered/colliding ids, 8 many by-value attributes, 9 deep
    int na = mode == 8 ? (int) r.range(20, 70) : mode >= 5 && mode <= 7 ? (int) r.range(10, 26) : (int) r.range(2, 9);
    p.set("nth", nth);
    p.set("mode", mode);
    p.set("event", r.chance(1, 3));
    p.set("wmain", r.chance(1, 2));
    int vbias = (int) r.below(3);
    for (int i = 0; i < na; ++i) {
        int kind = mode == 8 || (mode >= 5 && mode <= 7) ? (r.chance(3, 4) ? (r.chance(1, 3) ? K_HIDDEN : K_VALUE) : (int) r.below(K_NKINDS)) : (int) r.below(K_NKINDS);
        p.set(("a" + std::to_string(i)).c_str(), kind + 8 * (vbias == 0 ? 0 : (int64_t) r.below(5)) + 64 * r.chance(1, 8));
    }
    if (mode >= 5 && mode <= 7) {
        // second half of the attributes sits at the same table positions as the first half
        p.set("split", r.range(2, na - 2));
        p.set("shift", r.range(-3, 3));
        p.set("base", r.chance(1, 2) ? 1021 - r.range(1, 6) : r.range(150, 900)); // table wrap-around
    }
    int nops = (int) r.range(4, mode == 9 ? 120 : 60);
    int maxv = r.chance(1, 2) ? 3 : 40;
    unsigned w[NOPS] = { 30, 22, 3, 12, 8, 8, 8, 3, 2, 0, 4, 1 };
    if (r.chance(1, 5)) w[BADEND] = 2;
    if (r.chance(1, 4)) w[B] = 60;
    if (r.chance(1, 4)) w[ST] = 40;
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(na), (int) r.below(8), 0, (int64_t) r.below(maxv));
        }
    gen_schedule(r, p, nth * nops * 60);
}

static std::vector<AttrDef>     defs;
static std::vector<ThreadModel> models;
static std::vector<cali::Annotation*> annots[64]; // each thread has copies
static std::vector<char> primed; // the annotation object has looked up its attribute
struct Seen { int n = 0; KVs rec; };
static Seen seen[64]; // by simulated thread: last processed snapshot
static Seen seen_ev[64];

static void body(int t, Channel chn, bool ev)
{
    const Plan&  p = plan();
    ThreadModel& m = models[t];
    Caliper      c;
    Attribute    trig = c.get_attribute("trig");
    Seen&        s = seen[tid()];
    Seen&        se = seen_ev[tid()];
    auto*        an = &annots[t];
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        int a = o.a;
        if (a < 0 || a >= (int) defs.size()) continue;
        AttrDef& d = defs[a];
        int     n0 = se.n, exp_ev = 0;
        KV      ekv;
        ThreadModel before = m;
        std::string what = "thread " + std::to_string(t) + " op " + std::to_string(i);
        switch (o.kind) {
        case B: case ST: {
            bool set = o.kind == ST;
            if (m.imm.size() > 100 && !d.ref()) break;
            if (d.ref() && m.stack(a).size() > 60) break;
            if ((set ? m.can_set(a) : !m.broken) && !(d.extra & CALI_ATTR_SKIP_EVENTS)) { exp_ev = 1; ekv = { (set ? "event.set#" : "event.begin#") + d.name, value_str(d.type, o.v) }; }
            char buf[64];
            Variant v = make_value(d.type, o.v);
            int api = o.b;
            if (d.type == CALI_TYPE_STRING && d.ref()) { // the caller's buffer is reused afterwards
                strncpy(buf, kStrings[o.v % N_STRINGS], sizeof buf - 1); buf[63] = 0;
                v = Variant(CALI_TYPE_STRING, buf, strlen(buf));
                if (api == 1) { if (set) cali_set_string(d.attr.id(), buf); else cali_begin_string(d.attr.id(), buf); }
                else if (api == 2) { if (set) (*an)[a]->set(v); else (*an)[a]->begin(v); primed[a] = 1; }
                else if (set) c.set(d.attr, v); else c.begin(d.attr, v);
                memset(buf, '#', sizeof buf);
            } else if (d.type == CALI_TYPE_INT && api == 1) { if (set) cali_set_int(d.attr.id(), (int) o.v); else cali_begin_int(d.attr.id(), (int) o.v); }
            else if (d.type == CALI_TYPE_DOUBLE && api == 1) { if (set) cali_set_double(d.attr.id(), o.v * 0.5); else cali_begin_double(d.attr.id(), o.v * 0.5); }
            else if (api == 2) { if (set) (*an)[a]->set(v); else (*an)[a]->begin(v); primed[a] = 1; }
            else if (set) c.set(d.attr, v);
            else c.begin(d.attr, v);
            if (set) m.set(a, o.v); else m.begin(a, o.v);
            break;
        }
        case E: {
            // end something that is open: prefer the innermost region
            int e = a;
            if (!m.can_end(e)) { if (m.region.empty()) break; e = m.region.back().first; }
            if (!m.can_end(e)) break;
            AttrDef& de = defs[e];
            int64_t v; m.get(e, v);
            if (!m.broken && !(de.extra & CALI_ATTR_SKIP_EVENTS)) { exp_ev = 1; ekv = { "event.end#" + de.name, value_str(de.type, v) }; }
            if (o.b == 1) cali_end(de.attr.id());
            else if (o.b >= 2 && o.b <= 4 && primed[e]) (*an)[e]->end();
            else c.end(de.attr);
            m.end(e);
            break;
        }
        case EV: {
            int e = a;
            if (!m.can_end(e)) { if (m.region.empty()) break; e = m.region.back().first; }
            int64_t v;
            if (!m.can_end(e) || !m.get(e, v)) break;
            AttrDef& de = defs[e];
            if (!m.broken && !(de.extra & CALI_ATTR_SKIP_EVENTS)) { exp_ev = 1; ekv = { "event.end#" + de.name, value_str(de.type, v) }; }
            c.end_with_value_check(de.attr, make_value(de.type, v));
            m.end_checked(e, v);
            break;
        }
        case BADEND: {
            // an end that does not match
            bool was = m.broken;
            if (m.can_end(a)) {
                int64_t v; m.get(a, v);
                if (value_str(d.type, v) == value_str(d.type, v + 1)) break;
                c.end_with_value_check(d.attr, make_value(d.type, v + 1)); m.end_checked(a, v + 1);
            } else { c.end(d.attr); m.end(a); }
            if (!m.broken) harness_error("mismatched end not recognised by the model");
            if (!was) {
                probe("mismatched_end");
                NoPreempt np;
                if (sim_log().find("mismatch") == std::string::npos) fail("%s: mismatched end was not reported", what.c_str());
            }
            break;
        }
        case PUSH: {
            int n = s.n; KVs rest;
            Entry e(trig, Variant((int) o.v));
            c.push_snapshot(chn.body(), SnapshotView(e));
            if (s.n != n + 1) fail("%s: pushing one snapshot was processed %d times", what.c_str(), s.n - n);
            check_record(m, s.rec, (what + " push_snapshot").c_str(), &rest);
            const std::string* tv = find_kv(rest, "trig");
            if (!tv || *tv != std::to_string((int) o.v)) fail("%s: snapshot lost its trigger entry: %s", what.c_str(), show(rest).c_str());
            probe("push");
            break;
        }
        case PULL: {
            FixedSizeSnapshotRecord<120> rec; KVs rest;
            Entry e(trig, Variant((int) o.v));
            c.pull_snapshot(chn.body(), SnapshotView(e), rec.builder());
            check_record(m, decode(c, rec.view()), (what + " pull_snapshot").c_str(), &rest);
            if (all_kv(rest, "trig").size() != 1) fail("%s: snapshot lost its trigger entry: %s", what.c_str(), show(rest).c_str());
            break;
        }
        case CTX: {
            FixedSizeSnapshotRecord<120> rec;
            c.pull_context(rec.builder());
            check_record(m, decode(c, rec.view()), (what + " pull_context").c_str());
            break;
        }
        case GET: {
            Entry e = c.get(d.attr);
            int64_t v;
            bool have = m.get(a, v);
            if (have != !e.empty()) fail("%s: get(%s) %s", what.c_str(), d.name.c_str(), have ? "found nothing although it is set" : "found a value although it is not set");
            if (have && e.value().to_string() != value_str(d.type, v)) fail("%s: get(%s) = %s, expected %s", what.c_str(), d.name.c_str(), e.value().to_string().c_str(), value_str(d.type, v).c_str());
            if (o.b == 1) {
                Variant cv(cali_get(d.attr.id()));
                if (have ? cv.to_string() != value_str(d.type, v) : !cv.empty()) fail("%s: cali_get(%s) = %s", what.c_str(), d.name.c_str(), cv.to_string().c_str());
            }
            break;
        }
        case PATH: {
            Entry e = c.get_path_node();
            KVs got, exp;
            if (e.is_reference()) decode_node(c, e.node(), got);
            size_t n = m.region.size();
            while (n > 0 && defs[m.region[n - 1].first].kind != K_NESTED) --n;
            if (n == 0) n = m.region.size();
            for (size_t k = 0; k < n; ++k) exp.push_back(m.kv(m.region[k].first, m.region[k].second));
            if (got != exp) fail("%s: path node %s, expected %s", what.c_str(), show(got).c_str(), show(exp).c_str());
            break;
        }
        case CURREG: {
            size_t n = m.region.size();
            while (n > 0 && defs[m.region[n - 1].first].kind != K_NESTED) --n;
            if (n == 0) n = m.region.size();
            std::string exp = "none";
            if (n > 0 && defs[m.region[n - 1].first].type == CALI_TYPE_STRING) exp = m.kv(m.region[n - 1].first, m.region[n - 1].second).second;
            const char* got = cali_get_current_region_or("none");
            if (exp != got) fail("%s: current region is '%s', expected '%s'", what.c_str(), got, exp.c_str());
            break;
        }
        case CPULL: {
            unsigned char buf[4096];
            size_t len = cali_channel_pull_snapshot(chn.id(), CALI_SCOPE_THREAD, sizeof buf, buf);
            if (len > sizeof buf) break;
            int64_t v; size_t rd = 0;
            bool have = m.get(a, v) && d.kind != K_HIDDEN;
            Variant x(cali_find_first_in_snapshot(buf, d.attr.id(), &rd));
            if (have ? x.to_string() != value_str(d.type, v) : !x.empty()) fail("%s: packed snapshot has %s=%s, expected %s", what.c_str(), d.name.c_str(), x.to_string().c_str(), have ? value_str(d.type, v).c_str() : "nothing");
            break;
        }
        }
        if (ev) {
            if (se.n != n0 + exp_ev) fail("%s: %d snapshots for %d region events", what.c_str(), se.n - n0, exp_ev);
            if (exp_ev) {
                KVs rest;
                check_record(before, se.rec, (what + " event snapshot").c_str(), &rest);
                std::vector<std::string> x = all_kv(rest, ekv.first);
                if (x.size() != 1 || x[0] != ekv.second) fail("%s: event snapshot does not show %s=%s: %s", what.c_str(), ekv.first.c_str(), ekv.second.c_str(), show(rest).c_str());
                probe("event_snapshot");
            }
        }
    }
    // whatever happened before, the final context must match
    FixedSizeSnapshotRecord<120> rec;
    c.pull_snapshot(chn.body(), SnapshotView(), rec.builder());
    check_record(m, decode(c, rec.view()), "final snapshot");
    for (auto* x : *an) delete x; // the last thread releases the shared object
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    int nth = (int) p.get("nth"), mode = (int) p.get("mode");
    bool ev = p.get("event");
    Caliper c;
    std::map<std::string, std::string> cfg;
    Channel chn = make_channel("snap", cfg), ech;
    if (ev) { cfg["CALI_SERVICES_ENABLE"] = "event"; ech = make_channel("ev", cfg); }
    c.create_attribute("trig", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    Attribute filler = c.create_attribute("filler", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    int split = (int) p.get("split", 1 << 20);
    // with colliding ids, attribute ids are spaced by event helper attributes only without the event service
    for (int i = 0;; ++i) {
        int64_t x = p.get(("a" + std::to_string(i)).c_str(), -1);
        if (x < 0) break;
        if (mode >= 5 && mode <= 7) {
            if (i == 0) {
                for (int k = 0; k < K_NKINDS; ++k) { // make the shared property nodes first so that ids are dense
                    AttrDef d; d.name = "pre" + std::to_string(k); d.kind = (AttrKind) k; d.extra = 0;
                    for (int t = 0; t < 5; ++t) c.create_attribute(d.name + std::to_string(t), type_of(t), d.prop());
                }
                advance_ids(c, filler, (cali_id_t) p.get("base"));
            }
            if (i == split) advance_ids(c, filler, defs[0].attr.id() + 1021 + p.get("shift"));
        }
        AttrDef d;
        d.kind = (AttrKind) (x & 7); d.type = type_of((int) (x >> 3 & 7)); d.extra = x & 64 ? CALI_ATTR_SKIP_EVENTS : 0;
        d.name = "a." + std::to_string(i);
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        if (d.attr.name() != d.name || d.attr.type() != d.type) fail("attribute %s came back wrong", d.name.c_str());
        defs.push_back(d);
        primed.push_back(0);
        annots[0].push_back(new cali::Annotation(d.name.c_str(), d.prop()));
    }
    for (size_t i = 0; i < defs.size(); ++i) for (size_t j = 0; j < i; ++j) if (defs[i].attr.id() % 1021 == defs[j].attr.id() % 1021) probe("colliding_ids");
    models.resize(nth + 1);
    for (auto& m : models) m.defs = &defs;
    auto rec_to = [](Seen* arr) {
        return [arr](Caliper* c, SnapshotView, SnapshotView v) { Seen& s = arr[tid()]; s.n++; s.rec = decode(*c, v); };
    };
    chn.events().process_snapshot.connect(rec_to(seen));
    if (ev) ech.events().process_snapshot.connect(rec_to(seen_ev));
    for (int t = 1; t <= nth; ++t) for (auto* x : annots[0]) annots[t].push_back(new cali::Annotation(*x));
    if (!p.get("wmain")) for (auto* x : annots[0]) delete x;
    run_threads(nth, p.get("wmain"), [&](int t) { body(t, chn, ev); });
}

PropDef sim::the_prop = { "C01", gen, run, nullptr };
