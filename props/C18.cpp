// C18: tracked memory matches the live allocations: attribution, active bytes, high-water marks,
// per-region statistics, and one record per allocation and free.
#include "common.h"
#include <caliper/cali_datatracker.h>
using namespace sim;

enum { TRACK, FREE, LOSE, BADFREE, LOOKUP, SNAP, PULL, BEGIN, END, NEWATTR, REALLOC, FLUSH, NOPS };
enum { MAXSLOT = 24 };
static const uint64_t SLOT_SPAN = 1ull << 36, SLOT_BASE = 1ull << 40;

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 3);
    int nph = (int) r.range(1, 4);
    p.set("twice", r.chance(1, 4));
    p.set("nth", nth); p.set("nph", nph); p.set("nslot", r.chance(1, 3) ? r.range(1, 4) : r.range(4, MAXSLOT));
    p.set("nchn", r.range(1, 3));
    for (int i = 0; i < 3; ++i) { p.set(strf("cfg%d", i).c_str(), r.below(64)); p.set(strf("off%d", i).c_str(), r.chance(1, 3) ? r.below(16) : 0); }
    p.set("nattr", r.range(0, 3)); p.set("huge", r.chance(1, 3)); p.set("zero", r.chance(1, 4)); p.set("moved", r.chance(1, 3));
    if (r.chance(1, 3)) p.set("npb", 16);
    int nops = (int) r.range(2, r.chance(1, 4) ? 40 : 15);
    static const unsigned w[NOPS] = { 30, 16, 4, 3, 20, 8, 3, 8, 6, 1, 5, 3 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int ph = 0; ph < nph; ++ph)
        for (int t = 0; t <= nth; ++t)
            for (int i = 0; i < nops; ++i) {
                unsigned x = (unsigned) r.below(tot); int k = 0;
                while (x >= w[k]) x -= w[k++];
                p.add(t, k, (int) r.below(1 << 16), (int) r.below(1 << 16), ph, (int64_t) (p.get("huge") && r.chance(1, 2) ? r.logrange(1, 1ull << 34) : r.logrange(1, 4096)));
            }
    gen_schedule(r, p, (nth + 1) * nops * nph * 120);
}

struct Alloc { uint64_t start, size, elem; std::string label; int64_t uid; std::string region; uint64_t born; };
typedef std::vector<Alloc> Set;                         // what a channel tracks in a slot
struct Ver { uint64_t a, b; Set set; };                 // a change of it: started, finished, after
struct Level { uint64_t t; int64_t d, p; };             // bounds of the active bytes from t on
struct Hw { uint64_t a, b; uint64_t v; };
struct RegStat { uint64_t count = 0, total = 0, max = 0; int ops = 0; std::vector<Level> lv; };
struct Chn {
    Channel ch; std::string name; int idx = 0;
    bool alloc = false, stats = false, track = true, resolve = false, active = false, hwm = false, on = true;
    std::vector<Ver> slot[MAXSLOT];
    std::vector<Level> lv { { 0, 0, 0 } };
    std::vector<Hw> hw;
    std::map<std::string, RegStat> reg;
    std::set<int64_t> uids;
};
static std::vector<Chn>* chns;
static std::vector<std::string>* attr_names;            // memory address attributes
static std::vector<Attribute>* attrs;
static Attribute f_attr, x_attr; static std::vector<uint64_t>* attr_born; static uint64_t attrs_late;
struct Slot { bool busy = false; bool used = false; uint64_t addr = 0; };
static Slot slots[MAXSLOT]; static int nslot; static int nlabel;

struct Got { int chn; uint64_t t; KVs kv; bool twin = false; };
struct Th { uint64_t t0 = 0; std::vector<std::string> path; std::vector<Got> got; bool armed = false; };
static thread_local Th* th;

static void on_rec(int ci, Caliper* c, SnapshotView v)
{
    NoPreempt np;
    if (th && th->armed) th->got.push_back({ ci, tick(), decode(*c, v) });
}

static void level(std::vector<Level>& v, int64_t dd, int64_t dp) { v.push_back({ tick(), v.back().d + dd, v.back().p + dp }); }
static void bounds(const std::vector<Level>& v, uint64_t a, uint64_t b, int64_t& lo, int64_t& hi)
{
    lo = INT64_MAX; hi = INT64_MIN;
    for (size_t i = v.size(); i-- > 0;) {
        if (v[i].t > b) continue;
        lo = std::min(lo, v[i].d); hi = std::max(hi, v[i].p);
        if (v[i].t <= a) break;
    }
}
static uint64_t num(const KVs& k, const std::string& n) { auto s = find_kv(k, n); return s ? strtoull(s->c_str(), nullptr, 10) : UINT64_MAX; }
static int slot_of(uint64_t a) { return (int) ((a - SLOT_BASE) / SLOT_SPAN); }
static std::string path_str() { std::string s; for (auto& x : th->path) s += "/" + x; return s; }

static bool has(const Alloc& a, uint64_t x) { return x >= a.start && x - a.start < a.size; }
static bool overlaps(const Set& s)
{
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j)
        if (has(s[i], s[j].start) || has(s[j], s[i].start) ) return true;
    return false;
}

// the common part of every record: levels and high-water marks
static void check_levels(Chn& c, const Got& g)
{
    int64_t lo, hi;
    if (c.alloc && c.active) {
        uint64_t v = num(g.kv, "mem.active");
        bounds(c.lv, th->t0, g.t, lo, hi);
        if (v == UINT64_MAX) fail("record without mem.active: %s", show(g.kv).c_str());
        if ((int64_t) v < lo || (int64_t) v > hi) fail("channel %d reports %llu active bytes, the tracked allocations are between %lld and %lld: %s", c.idx, (unsigned long long) v, (long long) lo, (long long) hi, show(g.kv).c_str());
        probe("active");
    }
    if (c.hwm) {
        uint64_t v = num(g.kv, "alloc.region.highwatermark");
        if (v == UINT64_MAX) fail("record without high-water mark: %s", show(g.kv).c_str());
        int64_t x;
        bounds(c.lv, th->t0, g.t, lo, x);
        uint64_t from = 0; for (auto& h : c.hw) if (h.b < th->t0) from = std::max(from, h.a);  // the last reset that is certain
        bounds(c.lv, from, g.t, x, hi);
        if ((int64_t) v < lo || (int64_t) v > hi) fail("channel %d reports a high-water mark of %llu bytes, possible are %lld to %lld: %s", c.idx, (unsigned long long) v, (long long) lo, (long long) hi, show(g.kv).c_str());
        c.hw.push_back({ th->t0, g.t, v });
        probe("highwatermark");
    }
}

static void op_begin() { NoPreempt np;  th->t0 = tick(); th->got.clear(); th->armed = true; }
static void op_end()
{
    th->armed = false;
    for (auto& g : th->got) {
        check_levels((*chns)[g.chn], g);
        observe(show(g.kv).c_str());
    }
}

static bool claim(int s)
{
    NoPreempt np;
    if (slots[s].busy) return false;
    slots[s].busy = true;
    return true;
}

static void check_record(Chn& c, const char* key, const Alloc* a, const std::string& label, uint64_t addr, uint64_t size, int64_t sign, int64_t& uid, const std::vector<Got>* more = nullptr)
{
    int n = 0;
    std::vector<Got> all(th->got);
    if (more) all.insert(all.end(), more->begin(), more->end());
    for (auto& g : all) {
        if (g.chn != c.idx) continue;
        const std::string* l = find_kv(g.kv, key);
        if (!l) { if (find_kv(g.kv, "mem.alloc") || find_kv(g.kv, "mem.free")) fail("wrong memory record (%s): %s", key, show(g.kv).c_str()); continue; }
        ++n;
        uid = kv_int(g.kv, "alloc.uid");
        const std::string* ad = find_kv(g.kv, "alloc.address");
        if (!ad || strtoull(ad->c_str(), nullptr, 16) != addr) fail("memory record with a wrong address, 0x%llx expected: %s", (unsigned long long) addr, show(g.kv).c_str());
        if (*l != label) fail("memory record with a wrong label, %s expected: %s", label.c_str(), show(g.kv).c_str());
        if (kv_int(g.kv, "alloc.total_size") != sign * (int64_t) size) fail("memory record with a wrong size, %lld expected: %s", (long long) (sign * (int64_t) size), show(g.kv).c_str());
        if (a && a->uid >= 0 && a->uid != uid) fail("the free of allocation %lld carries another id: %s", (long long) a->uid, show(g.kv).c_str());
        // the region path of the thread is part of it
        std::vector<std::string> fs = all_kv(g.kv, "f18");
        if (g.twin ? !fs.empty() : fs != th->path) fail("memory record with a wrong region path, %s expected: %s", path_str().c_str(), show(g.kv).c_str());
    }
    int want = c.alloc && c.track && c.on && (a || sign > 0) ? 1 : 0;
    if (n != want) fail("%d %s records for one operation on channel %d, %d expected", n, key, c.idx, want);
    if (n) probe(key);
}

static void do_track(int s, const Op& o, bool claimed = false)
{
    if (!claimed && !claim(s)) return;
    static const uint64_t elems[] = { 1, 4, 8, 24, 1, 1, 1000, 3 };
    std::string label, reg; uint64_t addr, elem, dims[3]; size_t nd; uint64_t size; bool extra; int how;
    {
        NoPreempt np;
        if (slots[s].used) { slots[s].busy = false; return; }
        label = strf("L%d", o.b % 5 == 0 ? s : 100 + nlabel++);
        addr = SLOT_BASE + s * SLOT_SPAN + (plan().get("moved") ? (uint64_t) (o.b % 3) * 0x40 : 0);
        elem = elems[o.a % 8]; nd = 1; dims[0] = (uint64_t) o.v; dims[1] = dims[2] = 1;
        if (plan().get("zero") && o.a % 7 == 0) elem = 0;
        if (plan().get("zero") && o.a % 5 == 0) dims[0] = 0;
        how = o.b % 4; extra = how == 3;
        if (how == 1) { nd = 2; dims[1] = 1 + o.a % 5; }
        if (how == 2) { nd = 3; dims[1] = 1 + o.a % 3; dims[2] = 1 + o.a % 2; }
        size = elem; for (size_t i = 0; i < nd; ++i) size *= dims[i];
        if (how == 0) { elem = 1; size = dims[0]; }
        if (size > SLOT_SPAN / 2) { size = dims[0] = SLOT_SPAN / 2; elem = 1; nd = 1; how = 0; extra = false; }
        reg = path_str();
    }
    op_begin();
    { NoPreempt np;
    for (auto& c : *chns) {
        if (!c.on) continue;
        if (c.stats && !c.alloc && th->path.empty()) continue;          // outside of all regions: not tracked
        int64_t old = 0; const Alloc* repl = nullptr;
        for (auto& a : c.slot[s].back().set) if (a.start == addr) { old = (int64_t) a.size; repl = &a; }
        if (repl) probe("replaced");
        level(c.lv, -old, (int64_t) size);
        if (c.stats) {
            if (repl) { level(c.reg[repl->region].lv, -old, 0); ++c.reg[repl->region].ops; }
            auto& r = c.reg[reg]; ++r.ops; if (r.lv.empty()) r.lv.push_back({ 0, 0, 0 });
            level(r.lv, 0, (int64_t) size);
        }
        Set n;
        for (auto& a : c.slot[s].back().set) if (a.start != addr) n.push_back(a);
        n.push_back({ addr, size, elem, label, -1, reg, th->t0 });
        c.slot[s].push_back({ th->t0, 0, n });
    } }
    if (how == 0) cali_datatracker_track((void*) addr, label.c_str(), size);
    else if (!extra) cali_datatracker_track_dimensional((void*) addr, label.c_str(), elem, dims, nd);
    else { Variant v((int) o.a); Caliper().memory_region_begin((void*) addr, label.c_str(), elem, nd, dims, 1, &x_attr, &v); }
    NoPreempt np;
    uint64_t t1 = tick();
    for (auto& c : *chns) {
        int64_t uid = -1;
        check_record(c, "mem.alloc", nullptr, label, addr, size, 1, uid);
        if (extra && c.alloc && c.track && c.on) for (auto& g : th->got) if (g.chn == c.idx && find_kv(g.kv, "mem.alloc") && kv_int(g.kv, "x18") != o.a) fail("memory record without the extra information: %s", show(g.kv).c_str());
        if (!c.on || (c.stats && !c.alloc && th->path.empty())) continue;
        if (uid >= 0 && !c.uids.insert(uid).second) fail("two allocations on channel %d have id %lld", c.idx, (long long) uid);
        auto& v = c.slot[s];
        int64_t old = 0; const Alloc* repl = nullptr;
        for (auto& a : v[v.size() - 2].set) if (a.start == addr) { old = (int64_t) a.size; repl = &a; }
        level(c.lv, (int64_t) size, -old);
        if (c.stats) {
            if (repl) { level(c.reg[repl->region].lv, 0, -old); --c.reg[repl->region].ops; }
            auto& r = c.reg[reg]; --r.ops;
            level(r.lv, (int64_t) size, 0);
            ++r.count; r.total += size; r.max = std::max(r.max, size);
        }
        v.back().b = t1; v.back().set.back().uid = uid;
    }
    op_end();
    slots[s].used = true; slots[s].addr = addr; slots[s].busy = false;
}

// reports the end of the allocation at addr
static void do_free(int s, uint64_t addr, bool twice = false)
{
    // the same address may be given back by two threads at once: one of them ends the allocation
    Th other; std::thread twin;
    op_begin();
    std::vector<std::pair<int, Alloc>> was;
    { NoPreempt np;
    for (auto& c : *chns) {
        if (!c.on) continue;
        Set n; bool f = false;
        for (auto& a : c.slot[s].back().set) if (a.start == addr) { was.push_back({ c.idx, a }); f = true; } else n.push_back(a);
        if (!f) continue;
        level(c.lv, -(int64_t) was.back().second.size, 0);
        if (c.stats) { auto& r = c.reg[was.back().second.region]; level(r.lv, -(int64_t) was.back().second.size, 0); ++r.ops; }
        c.slot[s].push_back({ th->t0, 0, n });
    } }
    if (twice) twin = std::thread([&other, addr] {
        th = &other;
        op_begin(); cali_datatracker_untrack((void*) addr);
        NoPreempt np;
        op_end();
        for (auto& g : other.got) g.twin = true;
        th = nullptr;
    });
    cali_datatracker_untrack((void*) addr);
    if (twice) { twin.join(); probe("freed by two threads"); }
    NoPreempt np;
    uint64_t t1 = tick();
    for (auto& c : *chns) {
        const Alloc* a = nullptr;
        for (auto& w : was) if (w.first == c.idx) a = &w.second;
        int64_t uid = -1;
        check_record(c, "mem.free", a, a ? a->label : "", addr, a ? a->size : 0, -1, uid, &other.got);
        if (!a) { if (c.on) probe("free of untracked"); continue; }
        level(c.lv, 0, -(int64_t) a->size);
        if (c.stats) { auto& r = c.reg[a->region]; level(r.lv, 0, -(int64_t) a->size); --r.ops; }
        c.slot[s].back().b = t1;
    }
    op_end();
}

static void check_lookup(Chn& c, const Got& g, const std::vector<std::pair<int, uint64_t>>& q)
{
    if (!c.alloc || !c.resolve) return;
    for (size_t k = 0; k < q.size(); ++k) {
        const std::string& an = (*attr_names)[q[k].first];
        uint64_t x = q[k].second; int s = slot_of(x);
        int64_t uid = kv_int(g.kv, "alloc.uid#" + an, -1), ix = kv_int(g.kv, "alloc.index#" + an, -1);
        const std::string* lb = find_kv(g.kv, "alloc.label#" + an);
        auto& v = c.slot[s];
        bool ok = false; std::string cand;
        for (size_t i = v.size(); i-- > 0 && !ok;) {
            if (v[i].a > g.t) continue;
            bool last = v[i].b && v[i].b < th->t0;
            const Alloc* a = nullptr; 
            if (overlaps(v[i].set)) { ok = true; probe("overlap"); break; }
            for (auto& y : v[i].set) if (has(y, x)) a = &y;
            if (!a) { ok = uid < 0 && ix < 0 && !lb; cand += " none"; }
            else {
                cand += strf(" %s(uid %lld, index %lld)", a->label.c_str(), (long long) a->uid, (long long) ((x - a->start) / a->elem));
                bool late = (*attr_born)[q[k].first] >= a->born;           // no label for older allocations
                ok = uid >= 0 && (a->uid < 0 || a->uid == uid) && ix == (int64_t) ((x - a->start) / a->elem) && (lb ? *lb == a->label : late);
                if (ok) probe("resolved");
            }
            if (last) break;
        }
        if (!ok) fail("channel %d attributes address 0x%llx to uid %lld index %lld label %s, tracked there:%s", c.idx, (unsigned long long) x, (long long) uid, (long long) ix, lb ? lb->c_str() : "none", cand.c_str());
    }
}

static void do_lookup(const std::vector<std::pair<int, uint64_t>>& q, int how)
{
    Caliper c;
    std::vector<Entry> tr;
    for (auto& x : q) { uint64_t v = x.second; tr.push_back(Entry((*attrs)[x.first], Variant(CALI_TYPE_ADDR, &v, sizeof v))); }
    op_begin();
    if (how == 2) {
        for (auto& k : *chns) {
            FixedSizeSnapshotRecord<120> rec;
            c.pull_snapshot(k.ch.body(), SnapshotView(tr.size(), tr.data()), rec.builder());
            NoPreempt np;
            th->got.push_back({ k.idx, tick(), decode(c, rec.view()) });
        }
    } else
        for (auto& k : *chns) c.push_snapshot(k.ch.body(), SnapshotView(tr.size(), tr.data()));
    NoPreempt np;
    std::set<int> seen;
    for (auto& g : th->got) { if (!seen.insert(g.chn).second) fail("two records for one snapshot of channel %d", g.chn); check_lookup((*chns)[g.chn], g, q); }
    if (seen.size() != chns->size()) fail("a snapshot is missing");
    op_end();
}

static void do_flush(Chn& c)
{
    if (!c.stats) return;
    uint64_t t0 = tick();
    // nodes of a path can exist twice when threads create them at the same time
    struct St { uint64_t n = 0, tally = 0, count = 0, max = 0, sum = 0; };
    std::map<std::string, St> out;
    Caliper cal;
    cal.flush(c.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        NoPreempt np;
        KVs kv = decode(db, rec); std::string p;
        if (!find_kv(kv, "alloc.tally")) return;
        for (auto& x : kv) if (x.first == "f18") p += "/" + x.second;
        St& s = out[p]; uint64_t n = num(kv, "alloc.count");
        if (++s.n > 1 && plan().get("nth") == 0) fail("two statistics records for region %s", p.c_str());
        s.count += n; s.tally = std::max(s.tally, num(kv, "alloc.tally")); s.max = std::max(s.max, num(kv, "max#alloc.size")); s.sum += num(kv, "avg#alloc.size") * n;
    });
    NoPreempt np;
    uint64_t t1 = tick();
    for (auto& x : c.reg) {
        if (x.second.lv.empty()) continue;
        bool still = x.second.lv.back().t < t0 && !x.second.ops;     // nobody works on it
        auto it = out.find(x.first);
        if (it == out.end()) { if (x.second.count && still) fail("channel %d: no allocation statistics for region %s", c.idx, x.first.c_str()); continue; }
        const St& r = it->second; uint64_t tally = r.tally;
        int64_t lo = 0, hi = 0;
        for (auto& l : x.second.lv) { if (l.t > t1) break; lo = std::max(lo, l.t < t0 ? l.d : 0); hi = std::max(hi, l.p); }
        if (r.n == 1 && (int64_t) tally < lo || (int64_t) tally > hi) fail("channel %d: region %s reports a memory tally of %llu, possible are %lld to %lld", c.idx, x.first.c_str(), (unsigned long long) tally, (long long) lo, (long long) hi);
        if (still) {
            if (r.count != x.second.count || r.max != x.second.max || r.sum > x.second.total || r.sum + r.count < x.second.total + (r.count > 0))
                fail("channel %d: wrong allocation statistics for region %s: %llu allocations, %llu bytes, largest %llu, reported %llu, about %llu, %llu", c.idx, x.first.c_str(), (unsigned long long) x.second.count, (unsigned long long) x.second.total, (unsigned long long) x.second.max,
                     (unsigned long long) r.count, (unsigned long long) r.sum, (unsigned long long) r.max);
            probe("statistics exact");
        }
        out.erase(it);
    }
    for (auto& x : out) if (!c.reg.count(x.first)) fail("channel %d: allocation statistics for region %s without allocations", c.idx, x.first.c_str());
}

static void new_attr()
{
    Caliper c; int n; Variant yes(true); Attribute m = c.get_attribute("class.memoryaddress"), a;
    { NoPreempt np; if (attr_names->size() >= 4 || attrs_late) return; attrs_late = 1; n = (int) attr_names->size(); }
    a = c.create_attribute(strf("addr%d", n).c_str(), CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD, 1, &m, &yes);
    NoPreempt np;
    attrs->push_back(a); attr_born->push_back(tick()); attr_names->push_back(a.name()); attrs_late = 0; probe("new address attribute");
}

static void exec(const Op& o)
{
    int s = o.a / 8 % nslot;
    switch (o.kind) {
    case TRACK: do_track(s, o); break;
    case FREE: case LOSE:
        if (!claim(s)) return;
        if (slots[s].used) {
            if (o.kind == FREE) do_free(s, slots[s].addr, plan().get("twice") && o.b % 3 == 0); else probe("unreported free");
            slots[s].used = false;
        } else if (o.b % 4 == 0) do_free(s, SLOT_BASE + s * SLOT_SPAN);   // may be stale on some channels
        slots[s].busy = false;
        break;
    case REALLOC:
        if (!claim(s)) return;
        if (slots[s].used) { do_free(s, slots[s].addr); slots[s].used = false; }
        do_track(s, o, true);
        break;
    case BADFREE: {
        // nothing starts there; owners of the slot are not disturbed
        uint64_t x = SLOT_BASE + s * SLOT_SPAN + 1 + (uint64_t) o.b % 32;
        op_begin(); cali_datatracker_untrack((void*) x); 
        NoPreempt np;
        for (auto& g : th->got) if (find_kv(g.kv, "mem.free")) fail("the free of an untracked address was reported: %s", show(g.kv).c_str());
        op_end(); probe("bad free");
        break; }
    case LOOKUP: {
        std::vector<std::pair<int, uint64_t>> q;
        { NoPreempt np; for (int i = 0; i < (int) attr_names->size(); ++i) if (i == 0 || (o.b >> i & 1)) {
            int t = (s + i * (o.b % 5)) % nslot; uint64_t off = (uint64_t) o.v / (1 + (o.b / 16 % 4)) + (o.b % 7 == 0 ? 0x40 : 0);
            if (slots[t].used && o.b % 3 == 0) { auto& v = (*chns)[0].slot[t].back().set; if (!v.empty()) off = v.back().size - (o.b % 2); }
            q.push_back({ i, SLOT_BASE + t * SLOT_SPAN + std::min(off, SLOT_SPAN - 1) }); } }
        do_lookup(q, o.b % 8 == 0 ? 2 : 1);
        break; }
    case SNAP: do_lookup({}, 1); break;
    case PULL: do_lookup({}, 2); break;
    case BEGIN: if (th->path.size() < 4) { th->path.push_back(strf("r%d", o.a % 3)); op_begin(); Variant v(th->path.back().c_str()); Caliper().begin(f_attr, v); NoPreempt np; op_end(); } break;
    case END: if (!th->path.empty()) { th->path.pop_back(); op_begin(); Caliper().end(f_attr); NoPreempt np; op_end(); } break;
    case NEWATTR: new_attr(); break;
    case FLUSH: if (tid() == 0 || o.a % 4 == 0) do_flush((*chns)[o.b % chns->size()]); break;
    }
}

// everything stands still: exact checks
static void still_point()
{
    for (auto& c : *chns) {
        if (c.lv.back().d != c.lv.back().p) harness_error("levels disagree");
        do_flush(c);
    }
    do_lookup({}, 1);
    std::vector<std::pair<int, uint64_t>> q;
    int n = 0;
    for (int s = 0; s < nslot; ++s)
        for (auto& c : *chns) {
            if (!c.resolve || attr_names->empty()) continue;
            for (auto& a : c.slot[s].back().set) {
                q.clear();
                int na = (int) attr_names->size();
                q.push_back({ n++ % na, a.start });
                if (na > 1) q.push_back({ n++ % na, a.start + a.size }), q[1].first == q[0].first ? q.pop_back() : (void) 0;
                do_lookup(q, 1);
                q = { { n++ % na, a.start + (a.size ? a.size - 1 : 0) } };
                do_lookup(q, 1);
                if (++n > 60) return;
            }
        }
}

static void run(const Plan& p)
{
    clean_env();
    int nth = (int) p.get("nth"), nph = (int) p.get("nph");
    {
        NoPreempt np;
        chns = new std::vector<Chn>; attr_names = new std::vector<std::string>; attrs = new std::vector<Attribute>; attr_born = new std::vector<uint64_t>;
        nslot = (int) p.get("nslot", 1);
    }
    Caliper c = Caliper::instance();
    f_attr = c.create_attribute("f18", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD);
    x_attr = c.create_attribute("x18", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    int late = (int) p.get("cfg0") & 1, nattr = (int) p.get("nattr");
    if (!late) for (int i = 0; i < nattr; ++i) new_attr();
    chns->resize(p.get("nchn", 1));
    for (int i = 0; i < (int) chns->size(); ++i) {
        Chn& k = (*chns)[i]; int f = (int) p.get(strf("cfg%d", i).c_str());
        std::map<std::string, std::string> cfg;
        std::string sv;
        k.idx = i; k.name = strf("c%d", i);
        int kind = f % 4;
        k.alloc = kind != 3; k.stats = kind == 3;
        if (k.alloc) {
            k.track = f & 4 || !(f & 8); k.resolve = f & 8 || i == 0; k.active = f & 16; k.hwm = f & 32;
            sv = "alloc";
            cfg["CALI_ALLOC_TRACK_ALLOCATIONS"] = k.track ? "true" : "false"; cfg["CALI_ALLOC_RESOLVE_ADDRESSES"] = k.resolve ? "true" : "false";
            cfg["CALI_ALLOC_RECORD_ACTIVE_MEM"] = k.active ? "true" : "false"; cfg["CALI_ALLOC_RECORD_HIGHWATERMARK"] = k.hwm ? "true" : "false";
        } else { k.hwm = f & 32; sv = "allocstats"; cfg["CALI_ALLOCSTATS_RECORD_HIGHWATERMARK"] = k.hwm ? "true" : "false"; }
        if (f & 4) { sv += ",event"; cfg["CALI_EVENT_TRIGGER"] = "f18"; cfg["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"; }
        cfg["CALI_SERVICES_ENABLE"] = sv;
        k.ch = make_channel(k.name.c_str(), cfg);
        k.ch.events().process_snapshot.connect([i](Caliper* c, SnapshotView, SnapshotView v) { on_rec(i, c, v); });
        for (int s = 0; s < nslot; ++s) k.slot[s].push_back({ 0, tick(), {} });
    }
    if (late) for (int i = 0; i < nattr; ++i) new_attr();

    Crew crew;
    std::deque<Th> state(nth + 1);
    auto body = [&](int t, int ph) {
        th = &state[t];
        for (int i = 0; i < p.nops; ++i) if (p.ops[i].th == t && p.ops[i].c == ph) exec(p.ops[i]);
    };
    crew.start(nth, body);
    for (int ph = 0; ph < nph; ++ph) {
        for (auto& k : *chns) {
            bool on = !(p.get(strf("off%d", k.idx).c_str()) >> ph & 1);
            if (on != k.on) { if (on) cali_activate_channel(k.ch.id()); else cali_deactivate_channel(k.ch.id()); k.on = on; probe("toggle"); }
        }
        crew.launch();
        body(0, ph);
        crew.wait();
        still_point();
    }
    crew.stop();
    {
        NoPreempt np;
        // no peak is lost: some record that can be the first one after it reports it
        for (auto& k : *chns) {
            if (!k.hwm) continue;
            for (auto& l : k.lv) {
                uint64_t e = UINT64_MAX; int64_t best = -1;
                for (auto& h : k.hw) if (h.a > l.t) e = std::min(e, h.b);
                for (auto& h : k.hw) if (h.b >= l.t && h.a <= e) best = std::max(best, (int64_t) h.v);
                if (best < l.d) fail("channel %d: no record reports the peak of %lld active bytes (the next ones report %lld at most)", k.idx, (long long) l.d, (long long) best);
            }
        }
    }
    th = nullptr;
    Caliper::release();
}

namespace sim { PropDef the_prop = { "C18", gen, run, nullptr }; }
