// A tracing channel whose snapshots carry sequence numbers, with the history of
// snapshots, flushes and clears needed to judge every output.
#pragma once
#include "common.h"

typedef std::vector<Entry> Rec;

inline bool same_rec(const Rec& a, const Rec& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].node() != b[i].node()) return false;
        if (a[i].is_immediate() && !(a[i].value() == b[i].value())) return false;
    }
    return true;
}

struct SeqTrace {
    struct Snap {
        int th; uint64_t n; Rec rec, early; bool seen = false;
        uint64_t t0 = 0, t1 = 0;     // push started / returned
        bool overlap = false;        // a flush or clear ran during the push
        bool maybe_cleared = false;  // a clear ran during the push
        bool present = false, absent = false, cleared = false;
        bool inactive = false;       // must not be recorded
    };
    Channel chn;
    Attribute seq;
    std::string name;
    std::deque<Snap> snaps;
    std::set<Snap*> open;
    std::map<int, uint64_t> count;
    int flushing = 0, clearing = 0;
    uint64_t last_clear_end = 0;
    uint64_t observed = 0;

    void attach(Caliper& c, Channel ch)
    {
        chn = ch; name = ch.name();
        seq = c.create_attribute("seq." + name, CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
        ch.events().process_snapshot.connect([this](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(*c, rec); });
    }
    Snap* find(const Rec& rec)
    {
        for (auto& x : rec) if (x.node() == seq.node()) return x.value().to_uint() < snaps.size() ? &snaps[x.value().to_uint()] : nullptr;
        return nullptr;
    }
    void on_snapshot(Caliper& c, SnapshotView rec)
    {
        sim::NoPreempt np;
        ++observed;
        Rec r(rec.begin(), rec.end());
        Snap* s = find(r);
        if (!s) return; // not one of ours (event snapshots)
        if (s->seen) sim::fail("%s: a snapshot is processed twice", name.c_str());
        if (s->inactive) sim::fail("%s: a snapshot is processed by an inactive channel", name.c_str());
        s->rec = r; s->seen = true;
        if (!s->early.empty() && !same_rec(s->rec, s->early)) sim::fail("%s: a record written differs from the snapshot taken %s", name.c_str(), show(decode(c, r)).c_str());
    }
    void busy(bool clear)
    {
        ++flushing; if (clear) ++clearing;
        for (Snap* x : open) { x->overlap = true; if (clear) x->maybe_cleared = true; }
    }
    Snap* start(int th, bool inactive = false)
    {
        snaps.push_back(Snap());
        Snap* me = &snaps.back();
        me->th = th; me->n = ++count[th]; me->t0 = sim::tick(); me->overlap = flushing > 0; me->maybe_cleared = clearing > 0; me->inactive = inactive;
        open.insert(me);
        return me;
    }
    void done(Snap* s) { s->t1 = sim::tick(); open.erase(s); }

    template <class F> void snap(Caliper& c, int th, F extra)
    {
        FixedSizeSnapshotRecord<80> trg; Snap* me;
        {
            sim::NoPreempt np;
            me = start(th);
            trg.builder().append(seq, cali_make_variant_from_uint(snaps.size() - 1));
            extra(trg.builder());
        }
        c.push_snapshot(chn.body(), trg.view());
        sim::NoPreempt np;
        done(me);
    }
    void snap(Caliper& c, int th) { snap(c, th, [](SnapshotBuilder&) {}); }

    // checking of one output; call begin, then rec for each record, then end
    struct Output { std::set<Snap*> must, got; std::map<int, uint64_t> last; uint64_t t0 = 0; size_t foreign = 0; };
    void out_begin(Output& o) { sim::NoPreempt np; o.t0 = sim::tick(); busy(false); for (Snap& x : snaps) if (x.t1 && !x.cleared && !x.inactive) o.must.insert(&x); }
    void out_rec(Output& o, CaliperMetadataAccessInterface& db, const Rec& rec, const char* what)
    {
        sim::NoPreempt np;
        Snap* x = find(rec);
        if (!x) { ++o.foreign; for (auto& e : rec) if (e.node() == seq.node()) sim::fail("%s: %s: record that was never taken: %s", name.c_str(), what, show(decode(db, rec)).c_str()); return; }
        if (x->seen) { if (!same_rec(x->rec, rec)) sim::fail("%s: %s: record %s differs from the snapshot taken %s", name.c_str(), what, show(decode(db, rec)).c_str(), show(decode(db, x->rec)).c_str()); }
        else x->early = rec;
        if (x->inactive) sim::fail("%s: %s: contains a snapshot taken while the channel was inactive", name.c_str(), what);
        if (!o.got.insert(x).second) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d is written twice", name.c_str(), what, x->n, x->th);
        if (x->absent) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d was missing in an earlier output", name.c_str(), what, x->n, x->th);
        if (x->cleared && !o.must.count(x)) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d was cleared before", name.c_str(), what, x->n, x->th);
        auto l = o.last.find(x->th);
        if (l != o.last.end() && l->second >= x->n) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d comes after its snapshot %" PRIu64, name.c_str(), what, x->n, x->th, l->second);
        o.last[x->th] = x->n;
    }
    void out_end(Output& o, const char* what)
    {
        sim::NoPreempt np;
        --flushing;
        for (Snap* x : o.must) {
            if (o.got.count(x)) { x->present = true; continue; }
            if (x->cleared || x->maybe_cleared || clearing || last_clear_end > o.t0) continue;
            if (x->present) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d, written before, is missing", name.c_str(), what, x->n, x->th);
            if (!x->overlap) sim::fail("%s: %s: snapshot %" PRIu64 " of thread %d is missing", name.c_str(), what, x->n, x->th);
            x->absent = true;
        }
        sim::probe("flush"); sim::probe("records", o.got.size());
    }
    size_t flush(Caliper& c, const char* what)
    {
        Output o;
        out_begin(o);
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const Rec& rec) { out_rec(o, db, rec, what); });
        out_end(o, what);
        return o.got.size();
    }
    template <class F> void cleared_by(F f)
    {
        std::vector<Snap*> d;
        { sim::NoPreempt np; sim::tick(); busy(true); for (Snap& x : snaps) if (x.t1) d.push_back(&x); }
        f();
        sim::NoPreempt np;
        --flushing; --clearing;
        for (Snap* x : d) x->cleared = true;
        last_clear_end = sim::tick();
    }
    void clear(Caliper& c) { cleared_by([&] { c.clear(&chn); }); }
};
