// C21: reaching a configured limit (context tree, memory pool, blackboard, snapshot record)
// never crashes the program, never changes what was recorded before or what other threads
// record, and is reported.
#include "model.h"
#include <caliper/AsyncEvent.h>
#include <caliper/cali_datatracker.h>
using namespace sim;

enum { BEGIN, END, SET, SNAP, MKATTR, SPAWN, ASYNC, TRACK, GLOB, FLUSH, RECORD, PATHN, GLOBAL, BYNAME, NOPS };

static void gen(Rng& r, Plan& p)
{
    int mode = r.chance(1, 6) ? 1 : r.chance(1, 4) ? 2 : r.chance(1, 12) ? 3 : 0; // 0: exhaust the tree, 1: fill the blackboard, 2: many threads, one after the other, 3: snapshots after a nesting error
    int nth = (int) r.range(0, mode == 2 ? 2 : 3);
    p.set("mode", mode); p.set("nth", nth);
    p.set("svc", (int64_t) r.below(6));
    p.set("nspawn", mode == 2 ? r.range(12, 40) : 0);
    if (mode == 0) {
        p.set("npb", r.chance(1, 6) ? r.range(1, 20) : r.range(16, 256));
        p.set("blocks", r.chance(1, 8) ? r.range(0, 3) : r.chance(1, 3) ? nth + r.range(0, 1) : r.range(2, 40)); // or: threads race for the last block as they start
        p.set("expand", r.chance(2, 3));
        p.set("bigval", r.chance(1, 3));
    } else if (mode == 3) {
        p.set("nerrpush", r.range(3, 60)); p.set("nerrpre", r.chance(1, 2) ? 0 : 2); p.set("main_err", r.chance(2, 3) ? 1 : r.range(0, 2));
    } else if (mode == 1)
        p.set("nfill", r.chance(1, 3) ? r.range(880, 1300) : r.range(60, 1000));
    int nops = (int) r.range(4, mode == 1 ? 8 : r.chance(1, 3) ? 60 : 25);
    static const unsigned w[NOPS] = { 22, 12, 12, 12, 10, 4, 3, 4, 2, 2, 4, 5, 3, 6 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            p.add(t, k, (int) r.below(8), (int) r.below(mode == 2 ? 3 : r.chance(1, 2) ? 5 : 1000), (int) r.below(40), (int64_t) (r.next() >> 30));
        }
    gen_schedule(r, p, (nth + 1) * nops * 80 + (int) p.get("nspawn") * 300);
}

static std::vector<AttrDef>* defs;
static std::vector<AttrDef>  base;
static Channel    chn, agg;
static Attribute  a_tid, a_seq, a_uid, a_glob;
static bool       limited, usable;
static std::atomic<int> next_uid { 1 }, next_tid { 100 };
static uint64_t   n_full, n_attr_fail;
struct Want { ThreadModel m; int pushes = 0, got = 0; std::string what; };
static std::map<std::pair<int, int>, Want>* wants; // (tid, seq) -> context of the records taken there
static uint64_t agg_pushed;
static bool concurrent_flush; // snapshots taken by other threads at this time are dropped
static char* filler;

static bool log_has(const char* s)
{
    NoPreempt np;
    static char b[1 << 16];
    size_t n = log_read(b, sizeof b - 1);
    b[n] = 0;
    return strstr(b, s) != nullptr;
}

struct Th {
    int  tid, seq = 0;
    ThreadModel m;
    bool frozen = false, unknown = false;
    std::vector<int> mine; // attributes created by this thread
};

static KVs context(Caliper& c)
{
    FixedSizeSnapshotRecord<120> rec;
    c.pull_context(rec.builder());
    return decode(c, rec.view());
}
static bool matches(const ThreadModel& m, const KVs& ctx)
{
    KVs er, eu, ev, gr, gu, gv, rest;
    m.parts(er, eu, ev);
    split_record(*m.defs, ctx, gr, gu, gv, rest);
    return er == gr && eu == gu && ev == gv;
}

static void mark(Caliper& c, Th& t, const char* what)
{
    if (t.frozen) return;
    ++t.seq;
    c.set(a_tid, Variant(t.tid));
    c.set(a_seq, Variant(t.seq));
    if (c.get(a_seq).value().to_int() != t.seq) { // stopped during startup or something without a model
        if (!limited || !log_has("Context tree is full")) fail("thread %d ignores updates, and this was not reported", t.tid);
        --t.seq;
        t.frozen = true; t.unknown = t.seq == 0; // its records don't tell who made them
        probe(t.unknown ? "thread.unknown" : "thread.frozen"); ++n_full;
        return;
    }
    NoPreempt np;
    Want& w = (*wants)[{ t.tid, t.seq }];
    w.m = t.m; w.what = what;
}

// after an operation that may have failed: either it took effect, or it didn't and was reported
static void settle(Caliper& c, Th& t, const ThreadModel& before, const char* what)
{
    KVs ctx = context(c);
    NoPreempt np;
    if (t.frozen) {
        t.m = before;
        if (!t.unknown) check_record(t.m, ctx, "context of a thread whose tracking had stopped");
        return;
    }
    if (matches(t.m, ctx)) return;
    if (!matches(before, ctx)) check_record(t.m, ctx, what);
    if (!limited) fail("%s had no effect although there is space left: context %s", what, show(ctx).c_str());
    if (!log_has("Context tree is full")) fail("%s had no effect, and this was not reported", what);
    t.m = before; t.frozen = true; ++n_full;
    probe("thread.frozen");
}

static Variant val(const Attribute& a, int64_t v, std::string& big)
{
    if (a.type() == CALI_TYPE_STRING && v >= 500) {
        if (plan().get("bigval")) big = std::string(20 + (size_t) (v * 37) % 30000, (char) ('a' + v % 26));
        return Variant(CALI_TYPE_STRING, kStrings[v % N_STRINGS], strlen(kStrings[v % N_STRINGS]));
    }
    return make_value(a.type(), v);
}

static void sub_thread(int n)
{
    Caliper c;
    Th t; t.tid = next_tid++; t.m.defs = defs;
    if (usable) mark(c, t, "new thread");
    for (int i = 0; i < n; ++i) {
        ThreadModel before = t.m;
        int a = (i * 3 + n) % 3;
        std::string s;
        c.begin(base[a].attr, val(base[a].attr, i % 3, s));
        if (usable) { t.m.begin(a, i % 3); settle(c, t, before, "begin on a new thread"); mark(c, t, "region of a new thread"); }
        if (chn) {
            int u = next_uid++;
            Entry e(a_uid, Variant(u));
            if (usable && !t.unknown) { NoPreempt np; ++(*wants)[{ t.tid, t.seq }].pushes; }
            c.push_snapshot(chn.body(), SnapshotView(e));
        }
    }
    for (int i = n; i-- > 0;) {
        ThreadModel before = t.m;
        int a = (i * 3 + n) % 3;
        if (usable) mark(c, t, "end on a new thread");
        c.end(base[a].attr);
        if (usable) { t.m.end(a); settle(c, t, before, "end on a new thread"); }
    }
    probe("thread.spawned");
}

static void check_flush(Caliper& c, bool final)
{
    if (!chn) return;
    c.flush(chn.body(), SnapshotView(), [final](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        KVs kv = decode(db, rec);
        NoPreempt np;
        if (!usable || !final) return;
        const std::string *ti = find_kv(kv, "c21.tid"), *se = find_kv(kv, "c21.seq");
        if (!ti || !se) return;
        auto it = wants->find({ atoi(ti->c_str()), atoi(se->c_str()) });
        if (it == wants->end()) fail("a record of thread %s, step %s, which does not exist: %s", ti->c_str(), se->c_str(), show(kv).c_str());
        check_record(it->second.m, kv, ("record taken during \"" + it->second.what + "\" " + (getenv("DBGREC") ? show(kv) : "")).c_str());
        if (find_kv(kv, "c21.uid")) ++it->second.got;
        probe("record.checked");
    });
    if (!final || !usable) return;
    for (auto& w : *wants)
        if (w.second.got > w.second.pushes || (!concurrent_flush && w.second.got != w.second.pushes))
            fail("%d of %d snapshots of thread %d, step %d (%s) were recorded", w.second.got, w.second.pushes, w.first.first, w.first.second, w.second.what.c_str());
}

static void body(int ti)
{
    Caliper c;
    Th t; t.tid = ti; t.m.defs = defs;
    const Plan& p = plan();
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != ti) continue;
        ThreadModel before = t.m;
        int a; std::string big;
        {
            NoPreempt np;
            a = o.a < (int) base.size() || t.mine.empty() ? o.a % (int) base.size() : t.mine[o.c % t.mine.size()];
        }
        AttrDef d; { NoPreempt np; d = (*defs)[a]; }
        static const char* const names[NOPS] = { "begin", "end", "set", "snapshot", "create_attribute", "spawn", "async event", "track", "get_globals", "flush", "make_record", "make_tree_entry", "set_global", "begin/end by name" };
        if (usable) mark(c, t, names[o.kind]);
        switch (o.kind) {
        case BEGIN: case SET: {
            Variant v = val(d.attr, o.b, big);
            if (o.kind == BEGIN && d.ref()) c.begin(d.attr, v); else c.set(d.attr, v);
            if (usable) { if (o.kind == BEGIN && d.ref()) t.m.begin(a, o.b); else t.m.set(a, o.b); settle(c, t, before, o.kind == BEGIN ? "begin" : "set"); }
            if (!big.empty()) { // a long string, possibly longer than the memory that is left: no model
                Node* n = c.make_tree_entry(base[1].attr, Variant(CALI_TYPE_STRING, big.data(), big.size()), nullptr);
                if (n && n->data().to_string() != big) fail("a node for a string of %zu bytes has a different value", big.size());
                if (!n && !limited) fail("no node for a string of %zu bytes", big.size());
                probe(n ? "bigstring.ok" : "bigstring.full");
            }
            break; }
        case END:
            if (usable && !t.m.can_end(a)) break;
            if (usable) { c.end(d.attr); t.m.end(a); settle(c, t, before, "end"); }
            break;
        case SNAP: {
            if (!chn) break;
            Entry e(a_uid, Variant((int) next_uid++));
            if (usable && !t.unknown) { NoPreempt np; ++(*wants)[{ t.tid, t.seq }].pushes; }
            c.push_snapshot(chn.body(), SnapshotView(e));
            if (agg) { Entry e2(a_uid, Variant(1)); { NoPreempt np; ++agg_pushed; } c.push_snapshot(agg.body(), SnapshotView(e2)); }
            break; }
        case MKATTR: {
            std::string name = strf("dyn.%d", o.b % 60);
            AttrDef nd { name, (AttrKind) (o.c % K_HIDDEN), type_of(o.b % 60), 0, Attribute() };
            nd.kind = (AttrKind) (o.b % 60 % K_HIDDEN);
            nd.attr = c.create_attribute(name, nd.type, nd.prop() | CALI_ATTR_SCOPE_THREAD);
            if (!nd.attr) {
                if (!limited) fail("attribute %s could not be created although there is space left", name.c_str());
                if (!log_has("Cannot create attribute")) fail("attribute %s could not be created, and this was not reported", name.c_str());
                ++n_attr_fail; probe("attribute.full");
                // using it has no effect
                c.begin(nd.attr, Variant(1)); c.set(nd.attr, Variant(1)); c.end(nd.attr); c.get(nd.attr);
                if (chn) { c.begin(chn.body(), nd.attr, Variant(1)); c.end(chn.body(), nd.attr); c.set(chn.body(), nd.attr, Variant(2)); }
                if (usable) settle(c, t, t.m, "use of an attribute that could not be created");
            } else {
                if (nd.attr.name() != name || nd.attr.type() != nd.type || c.get_attribute(name) != nd.attr) fail("attribute %s is %s", name.c_str(), nd.attr.name().c_str());
                NoPreempt np;
                int idx = -1;
                for (size_t k = 0; k < defs->size(); ++k) if ((*defs)[k].name == name) idx = (int) k;
                if (idx < 0 && defs->size() < defs->capacity()) { idx = (int) defs->size(); defs->push_back(nd); }
                if (idx >= 0) t.mine.push_back(idx);
            }
            break; }
        case SPAWN: if (p.get("mode") == 0) { int n = o.c % 4; std::thread([n] { sub_thread(n); }).join(); } break;
        case ASYNC: { auto e = cali::TimedAsyncEvent::begin(kStrings[o.b % N_STRINGS]); e.end(); break; }
        case TRACK: {
            char* q = filler + (o.b % 64) * 16;
            if (o.c % 2) cali_datatracker_track(q, kStrings[2 + o.b % 3], 16); else cali_datatracker_untrack(q);
            break; }
        case GLOB: {
            auto g = c.get_globals();
            for (auto& e : g) if (e.empty()) fail("an empty entry among the global values");
            decode(c, g);
            break; }
        case FLUSH: if (ti == 0) check_flush(c, false); break;
        case RECORD: {
            FixedSizeSnapshotRecord<20> rec;
            Attribute at[3] = { base[0].attr, a_uid, base[2].attr };
            Variant   v[3]  = { make_value(base[0].type, o.b), Variant(7), make_value(base[2].type, o.b + 1) };
            c.make_record(3, at, v, rec.builder(), nullptr);
            if (!usable) break;
            KVs kv = decode(c, rec.view());
            for (auto& e : kv)
                if (!(e.first == base[0].name && e.second == value_str(base[0].type, o.b)) && !(e.first == base[2].name && e.second == value_str(base[2].type, o.b + 1)) && !(e.first == "c21.uid" && e.second == "7"))
                    fail("make_record() built %s", show(kv).c_str());
            if (!find_kv(kv, "c21.uid")) fail("make_record() lost a by-value entry: %s", show(kv).c_str());
            if (kv.size() != 3 && !limited) fail("make_record() built %s although there is space left", show(kv).c_str());
            break; }
        case PATHN: {
            Variant v[40]; int n = o.c;
            for (int k = 0; k < n; ++k) v[k] = make_value(base[0].type, (o.b + k) % 50);
            Node* nd = c.make_tree_entry(base[0].attr, (size_t) n, v, nullptr);
            if (!nd) { if (!limited && n > 0) fail("no path of %d nodes although there is space left", n); break; }
            if (n > 0 && usable) {
                KVs kv; decode_node(c, nd, kv);
                bool ok = (int) kv.size() == n;
                for (int k = 0; ok && k < n; ++k) ok = kv[k].second == v[k].to_string();
                if (!ok) fail("a path of %d nodes is %s", n, show(kv).c_str());
            }
            break; }
        case GLOBAL: cali_set_global_string_byname(strf("glob.%d", o.b % 30).c_str(), kStrings[o.c % N_STRINGS]); break;
        case BYNAME: {
            // the C interface, with names that may or may not exist
            std::string nm = strf("byname.%d", o.b % 40);
            cali_begin_byname(nm.c_str()); cali_end_byname(nm.c_str());
            if (usable) {
                if (!t.frozen) { // begin may have failed: end is a mismatch then
                    KVs ctx = context(c);
                    NoPreempt np;
                    if (all_kv(ctx, nm).size()) {
                        if (!limited) fail("region %s is still open", nm.c_str());
                        t.frozen = true;
                        // frozen inside: no model for what follows
                        fail("region %s was opened but not closed", nm.c_str());
                    }
                    int probe_a = 4; // by-value attribute: a stopped thread ignores it
                    (void) probe_a;
                }
                if (!t.frozen) {
                    c.set(a_seq, Variant(t.seq + 1));
                    KVs ctx = context(c);
                    NoPreempt np;
                    if (kv_int(ctx, "c21.seq", 0) != t.seq + 1) {
                        if (!limited) fail("thread stopped tracking at cali_begin/end_byname(%s)", nm.c_str());
                        t.frozen = true; ++n_full; probe("thread.frozen");
                    } else { ++t.seq; Want& w = (*wants)[{ t.tid, t.seq }]; w.m = t.m; w.what = "after byname"; }
                }
            }
            break; }
        }
    }
}

// ---------------------------------------------------------------- blackboard
static std::vector<Attribute> fillers;
static void fill_body(int ti)
{
    Caliper c;
    const Plan& p = plan();
    int nf = (int) p.get("nfill");
    const int room = 900; // of 1021 slots, some are in use by other things
    for (int round = 0; round < 2; ++round) {
        int k0 = (int) ((p.seed >> 7) % nf);
        int missing = 0;
        for (int k = 0; k < nf; ++k) c.set(fillers[(k + k0) % nf], Variant(ti * 100000 + round * 10000 + k));
        std::vector<int> have(nf);
        for (int k = 0; k < nf; ++k) {
            Entry e = c.get(fillers[(k + k0) % nf]);
            have[(k + k0) % nf] = !e.empty();
            if (e.empty()) ++missing;
            else if (e.value().to_int() != ti * 100000 + round * 10000 + k) fail("attribute %d of %d has value %s instead of %d", k, nf, e.value().to_string().c_str(), ti * 100000 + round * 10000 + k);
        }
        if (missing > 0) probe("blackboard.full");
        if (missing > std::max(0, nf - room)) fail("%d of %d values are missing on the thread's blackboard", missing, nf);
        for (int cap : { 60, 120 }) {
            std::vector<Entry> buf(cap);
            SnapshotBuilder sb(cap, buf.data());
            c.pull_context(sb);
            KVs ctx = decode(c, sb.view());
            int n = 0;
            for (auto& e : ctx) {
                if (e.first.compare(0, 3, "bb.")) continue;
                int f = atoi(e.first.c_str() + 3);
                int k = (f - k0 + nf) % nf;
                if (e.second != std::to_string(ti * 100000 + round * 10000 + k)) fail("snapshot has %s=%s", e.first.c_str(), e.second.c_str());
                ++n;
            }
            if ((int) sb.size() > cap) fail("snapshot of %zu entries in a record for %d", sb.size(), cap);
            if (n < std::min(nf - missing, cap - 20)) fail("snapshot has only %d of %d values, in a record for %d", n, nf - missing, cap);
            if (n < nf - missing && sb.skipped() == 0) fail("snapshot has %d of %d values and reports no skipped ones", n, nf - missing);
            if (n < nf) probe("snapshot.full");
        }
        Entry e(a_uid, Variant(ti * 10 + round));
        c.push_snapshot(chn.body(), SnapshotView(e));
        for (int k = nf; k-- > 0;) if (have[k]) c.end(fillers[k]);
        for (auto& e : context(c)) if (e.first.compare(0, 3, "bb.") == 0) fail("%s=%s is still set", e.first.c_str(), e.second.c_str());
        c.begin(base[0].attr, make_value(base[0].type, 3));
        if (c.get(base[0].attr).empty()) fail("a region can not be opened after the blackboard was full");
        c.end(base[0].attr);
        if (!c.get(base[0].attr).empty()) fail("a region can not be closed after the blackboard was full");
    }
}

// ---------------------------------------------------------------- nesting error
//   A thread whose tracking stopped because of a nesting error still takes snapshots. They are all
// recorded, and cost no more memory than those of another thread.
static uint64_t n_err_pushed;
static void nesting_error(Caliper& c)
{
    c.begin(base[0].attr, make_value(base[0].type, 1));
    c.end(base[1].attr); // mismatch
    probe("thread.nesting_error");
}
static void err_body(int ti)
{
    Caliper c;
    const Plan& p = plan();
    int npush = (int) p.get("nerrpush"), pre = (int) p.get("nerrpre");
    auto push = [&] {
        { NoPreempt np; ++n_err_pushed; }
        Entry e(a_uid, Variant(ti));
        c.push_snapshot(chn.body(), SnapshotView(e));
        c.push_snapshot(agg.body(), SnapshotView(e));
    };
    for (int i = 0; i < pre; ++i) push();
    if (ti != 0 || p.get("main_err") == 2) nesting_error(c);
    push(); push();
    uint64_t heap0 = heap_live_bytes();
    for (int i = 0; i < npush; ++i) push();
    uint64_t heap1 = heap_live_bytes(), grown = heap1 > heap0 ? heap1 - heap0 : 0;
    if (plan().get("nth") == 0 && grown > (4u << 20)) fail("%d snapshots after a nesting error used %llu bytes of memory", npush, (unsigned long long) grown);
}

static void err_check(Caliper& c)
{
    uint64_t n = 0, sum = 0;
    c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        KVs kv = decode(db, rec);
        ++n;
    });
    c.flush(agg.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        KVs kv = decode(db, rec);
        if (const std::string* x = find_kv(kv, "count")) sum += strtoull(x->c_str(), nullptr, 10);
    });
    if (n != n_err_pushed || sum != n_err_pushed)
        fail("%llu trace records and %llu aggregated snapshots of %llu on threads with nesting errors", (unsigned long long) n, (unsigned long long) sum, (unsigned long long) n_err_pushed);
}

static void run(const Plan& p)
{
    clean_env();
    int mode = (int) p.get("mode"), nth = (int) p.get("nth");
    if (mode == 0) {
        setenv("CALI_CONTEXTTREE_NUM_BLOCKS", std::to_string(p.get("blocks")).c_str(), 1);
        if (!p.get("expand")) setenv("CALI_MEMORY_CAN_EXPAND", "false", 1);
    }
    if (mode == 2) // enough for the threads that live at the same time
        setenv("CALI_CONTEXTTREE_NUM_BLOCKS", std::to_string(nth + 7).c_str(), 1);
    limited = mode == 0;
    for (int i = 0; i < p.nops; ++i) if (nth > 0 && p.ops[i].kind == FLUSH && p.ops[i].th == 0) concurrent_flush = true;
    { NoPreempt np; defs = new std::vector<AttrDef>; defs->reserve(100); wants = new std::map<std::pair<int, int>, Want>; filler = (char*) malloc(2048); }
    Caliper c;
    static const char* const svc[] = { "trace", "event,trace", "event,trace,alloc", "trace,alloc,timer", "event,trace,loop_statistics,region_monitor", "" };
    a_tid = c.create_attribute("c21.tid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    a_seq = c.create_attribute("c21.seq", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    a_uid = c.create_attribute("c21.uid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    usable = a_tid && a_seq && a_uid;
    static const AttrKind kinds[] = { K_NESTED, K_NESTED, K_PLAIN, K_UNALIGNED, K_VALUE };
    for (int i = 0; i < 5; ++i) {
        AttrDef d { strf("base.%d", i), kinds[i], i == 1 ? CALI_TYPE_STRING : type_of(i), 0, Attribute() };
        if (mode == 1) d.extra = CALI_ATTR_SKIP_EVENTS;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        if (!d.attr) usable = false;
        base.push_back(d);
        defs->push_back(d);
    }
    if (!usable) { if (!limited) fail("the first attributes can not be created"); probe("unusable"); }
    const char* s = svc[p.get("svc") % 6];
    if (mode == 1) s = "trace";
    if (mode == 3) s = "trace,timer";
    if (mode == 3 && p.get("main_err") == 1) nesting_error(c);
    if (s[0]) chn = make_channel("c21", { { "CALI_SERVICES_ENABLE", s }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "true" }, { "CALI_ALLOC_RECORD_ACTIVE_MEM", "true" } });
    if (mode != 1) agg = make_channel("agg", { { "CALI_SERVICES_ENABLE", "aggregate" }, { "CALI_AGGREGATE_KEY", "c21.none" } });
    if (mode == 1) {
        for (int i = 0; i < (int) p.get("nfill"); ++i) fillers.push_back(c.create_attribute(strf("bb.%d", i), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS));
        run_threads(nth, true, fill_body);
        int n = 0;
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { decode(db, rec); ++n; });
        if (n != 2 * (nth + 1)) fail("%d records of %d snapshots", n, 2 * (nth + 1));
    } else if (mode == 3) {
        run_threads(nth, true, err_body);
        err_check(c);
    } else if (mode == 2) {
        std::vector<std::thread> th;
        for (int i = 1; i <= nth; ++i) th.emplace_back([i] { body(i); });
        for (int k = 0; k < (int) p.get("nspawn"); ++k) std::thread([k] { sub_thread(k % 4); }).join();
        body(0);
        for (auto& x : th) x.join();
    } else
        run_threads(nth, true, body);
    if (mode != 1 && mode != 3) {
        check_flush(c, s[0] != 0);
        uint64_t sum = 0;
        if (agg) c.flush(agg.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
            KVs kv = decode(db, rec);
            const std::string* n = find_kv(kv, "count");
            if (n) sum += strtoull(n->c_str(), nullptr, 10);
        });
        bool have_count = (bool) c.get_attribute("count");
        if (have_count && usable && sum < agg_pushed) fail("aggregation result has %llu of %llu snapshots", (unsigned long long) sum, (unsigned long long) agg_pushed);
    }
    observe(n_full); observe(n_attr_fail);
}

PropDef sim::the_prop = { "C21", gen, run, nullptr };
