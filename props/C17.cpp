// C17: MPI calls and messages are recorded exactly once, for any completion order.
// One process (any number of threads) runs the real MPI wrappers and the real message tracing; its
// peers are simulated (sim/mpi.cpp), which also logs what really happened as the reference.
#include "common.h"
#include "../sim/vmpi.h"
#include <mpi.h>
using namespace sim;

enum { SEND, ISEND, RECV, IRECV, SINIT, RINIT, START, STARTALL, WAIT, WAITALL, WAITANY, WAITSOME, TEST, TESTALL, TESTANY, TESTSOME, RFREE, CANCEL, SENDRECV, SENDRECVR, COLL, CDUP, CSPLIT, CFREE, RBEGIN, REND, CRBEGIN, CREND, HAND, TAKE, OTHER, NOPS };
enum { TOGGLE = 100, CREATE, DELETE };
enum { MAXCH = 4 };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(1, r.chance(1, 3) ? 4 : 2), nchn = (int) r.range(1, 2), nops = (int) r.range(4, r.chance(1, 4) ? 120 : 40);
    p.set("nth", nth); p.set("nchn", nchn); p.set("nranks", r.range(1, 6)); p.set("rank", r.below(6));
    for (int i = 0; i < MAXCH; ++i) p.set(strf("cfg%d", i).c_str(), r.below(256));
    static const unsigned w[NOPS] = { 6, 12, 6, 16, 3, 4, 8, 3, 8, 5, 6, 8, 5, 4, 5, 6, 2, 3, 3, 2, 8, 2, 2, 2, 5, 5, 4, 4, 2, 2, 2 };
    unsigned ww[NOPS], tot = 0;
    bool swarm = r.chance(1, 2);
    for (int i = 0; i < NOPS; ++i) { ww[i] = swarm && r.chance(1, 3) ? 0 : w[i]; tot += ww[i]; }
    for (int t = 1; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= ww[k]) x -= ww[k++];
            p.add(t, k, (int) r.below(64), (int) r.below(64), (int) r.below(64), (int64_t) r.below(1 << 20));
        }
    int nctl = r.chance(1, 3) ? 0 : (int) r.range(1, 12);
    for (int i = 0; i < nctl; ++i) { int x = (int) r.below(10); p.add(0, x < 6 ? TOGGLE : x < 8 ? CREATE : DELETE, (int) r.below(MAXCH), 0, 0, r.chance(1, 2) ? (int64_t) r.logrange(1000, 30000000) : 0); }
    p.set("f_msg_delay", r.chance(1, 4) ? 0 : r.range(50000, 700000)); p.set("f_msg_rendezvous", r.chance(1, 3) ? 0 : r.range(50000, 500000)); p.set("f_rank_slow", r.chance(1, 2) ? 0 : 100000);
    gen_schedule(r, p, nth * nops * 150);
}

struct Span { uint64_t a, b; int state; };
struct Fields { int type = 0; std::string fn, evfn, regions; int64_t peer = 0, tag = 0, size = -1; std::string comm; int ctype = 0; int64_t root = -1; int64_t cid = -1; int64_t tot[8] = { 0 }; };
enum { T_OTHER, T_BEGIN, T_END, T_SEND, T_RECV, T_COLL, T_TOTALS };
struct Exp { Fields f; uint64_t a, b; int th; std::string call; uint64_t pa = 0, pb = 0; std::string pcall; uint64_t comm = 0; uint64_t ra = 0, rb = 0; bool wrapped_call = true; };
struct PostInfo { uint64_t a, b; std::string call; std::string comm; };
struct Chn { Channel ch; bool exists = false, event, trace_msgs, pattern, async; std::set<std::string> only, except; bool all = true; std::vector<Span> act; std::string name; bool on = false; };
static Chn* chns; static std::deque<Exp>* exps[8]; static std::map<uint64_t, PostInfo>* posts;
static Attribute tid_attr;

//   1: in the state during all of [a,b], 0: at no time, -1: unsure
static int held(const std::vector<Span>& v, uint64_t a, uint64_t b)
{
    int st = 0;
    for (auto& s : v) { if (s.b && s.b < a) { st = s.state; continue; } if (s.a > b) break; return -1; }
    return st;
}
static bool enabled(const Chn& c, const std::string& f)
{
    if (c.all) return !c.except.count(f);
    return c.only.count(f) && !c.except.count(f);
}
//   Is the function wrapped during [a,b]: some existing channel enables it
static int wrapped(const std::string& f, uint64_t a, uint64_t b);
struct Life { int chn; std::vector<Span> life; std::string unused; };
static std::vector<Span> life[MAXCH];
static int wrapped(const std::string& f, uint64_t a, uint64_t b)
{
    int r = 0;
    for (int i = 0; i < MAXCH; ++i)
        if (enabled(chns[i], f)) { int h = held(life[i], a, b); if (h == 1) return 1; if (h == -1) r = -1; }
    return r;
}

static int recorded(const Chn& c, const Exp& e)
{
    int h = held(c.act, e.a, e.b);
    if (h == 0) return 0;
    if (e.f.type == T_BEGIN || e.f.type == T_END) { if (!c.event) return 0; int w = wrapped(e.call, e.a, e.b); return w == 0 ? 0 : w == 1 && h == 1 ? 1 : -1; }
    if (e.f.type == T_TOTALS) return c.pattern ? h : 0;
    if (!c.trace_msgs) return 0;
    if (!enabled(c, e.call)) return 0;
    if (e.pa) { if (!enabled(c, e.pcall)) return 0; int q = held(c.act, e.pa, e.pb); if (q == 0) return 0; if (q != 1) h = -1; }
    return h;
}
static int counted(const Chn& c, const Exp& e) // in the totals of the pattern analysis
{
    Chn d = c; d.trace_msgs = c.pattern;
    return recorded(d, e);
}

static std::string show(const Fields& f)
{
    static const char* n[] = { "other", "begin", "end", "send", "recv", "coll", "totals" };
    std::string s = strf("%s[in=%s evt=%s regions=%s peer=%lld tag=%lld size=%lld comm=%s coll=%d root=%lld", n[f.type], f.fn.c_str(), f.evfn.c_str(), f.regions.c_str(), (long long) f.peer, (long long) f.tag, (long long) f.size, f.comm.c_str(), f.ctype, (long long) f.root);
    if (f.type == T_TOTALS) for (auto x : f.tot) s += strf(" %lld", (long long) x);
    return s + "]";
}

static Fields parse_rec(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec, int& th)
{
    Fields f; th = -1;
    bool pat = false;
    auto one = [&](const Attribute& a, const Variant& v) {
        std::string n = a.name();
        if (n == "tid") th = v.to_int();
        else if (n == "mpi.function") f.fn += (f.fn.empty() ? "" : "/") + v.to_string();
        else if (n == "region" || n == "comm.region") f.regions += "/" + v.to_string();
        else if (n == "event.begin#mpi.function") { f.type = T_BEGIN; f.evfn = v.to_string(); }
        else if (n == "event.end#mpi.function") { f.type = T_END; f.evfn = v.to_string(); }
        else if (n == "mpi.msg.src") { f.peer = v.to_int(); }
        else if (n == "mpi.msg.dst") { f.peer = v.to_int(); }
        else if (n == "mpi.msg.tag") f.tag = v.to_int();
        else if (n == "mpi.msg.size") f.size = v.to_int();
        else if (n == "mpi.send.count") { f.type = T_SEND; if (v.to_int() != 1) fail("send count %d", v.to_int()); }
        else if (n == "mpi.recv.count") { f.type = T_RECV; if (v.to_int() != 1) fail("receive count %d", v.to_int()); }
        else if (n == "mpi.coll.count") { f.type = T_COLL; if (v.to_int() != 1) fail("collective count %d", v.to_int()); }
        else if (n == "mpi.coll.type") f.ctype = v.to_int();
        else if (n == "mpi.coll.root") f.root = v.to_int();
        else if (n == "mpi.comm") f.cid = v.to_int();
        else if (n == "mpi.comm.size") f.comm += v.to_string();
        else if (n == "mpi.comm.is_world") f.comm += ":world";
        else if (n == "mpi.comm.list") { f.comm += ":"; for (size_t i = 0; i < v.size() / sizeof(int); ++i) f.comm += std::to_string(((const int*) v.data())[i]) + ","; }
        else {
            static const char* t[8] = { "total.send.count", "total.recv.count", "total.coll.count", "total.dest.ranks", "total.src.ranks", "mpi.recv.size", "mpi.send.size", "mpi.coll.size" };
            for (int i = 0; i < 8; ++i) if (n == t[i]) { f.tot[i] = v.to_int(); pat = true; }
        }
    };
    for (auto& e : rec) {
        if (e.is_reference()) {
            std::vector<const Node*> path;
            for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) path.push_back(n);
            for (auto it = path.rbegin(); it != path.rend(); ++it) one(db.get_attribute((*it)->attribute()), (*it)->data());
        } else if (e.is_immediate()) one(db.get_attribute(e.attribute()), e.value());
    }
    if (pat) f.type = T_TOTALS;
    return f;
}

static bool in_range(int64_t x, int64_t lo, int64_t hi) { return x >= lo && x <= hi; }

static bool match(const Chn& c, const Exp& e, const Fields& r, std::string* why)
{
    const Fields& f = e.f;
    if (f.type != r.type) return false;
    if (f.regions != r.regions) return false;
    if (f.type == T_BEGIN || f.type == T_END) return f.evfn == r.evfn && r.fn == (f.type == T_END ? e.call : "");
    if (f.type == T_TOTALS) {
        //   bounds over everything of all threads between begin and end of the communication region
        int64_t lo[8] = { 0 }, hi[8] = { 0 }; std::set<int64_t> d0, d1, s0, s1;
        bool known = held(c.act, e.ra, e.rb) == 1;
        for (int t = 1; t < 8; ++t) if (exps[t]) for (auto& x : *exps[t]) {
            if (x.f.type != T_SEND && x.f.type != T_RECV && x.f.type != T_COLL) continue;
            int q = counted(c, x);
            bool may = q != 0 && (!known || (x.b > e.ra && x.a < e.b)), must = q == 1 && known && x.a > e.rb && x.b < e.a;
            int k = x.f.type == T_SEND ? 0 : x.f.type == T_RECV ? 1 : 2, z = x.f.type == T_SEND ? 6 : x.f.type == T_RECV ? 5 : 7; int64_t sz = std::max<int64_t>(x.f.size, 0);
            if (may) { hi[k]++; hi[z] += sz; if (k == 0) d1.insert(x.f.peer); if (k == 1) s1.insert(x.f.peer); }
            if (must) { lo[k]++; lo[z] += sz; if (k == 0) d0.insert(x.f.peer); if (k == 1) s0.insert(x.f.peer); }
        }
        lo[3] = (int64_t) d0.size(); hi[3] = (int64_t) d1.size(); lo[4] = (int64_t) s0.size(); hi[4] = (int64_t) s1.size();
        for (int i = 0; i < 8; ++i) if (!in_range(r.tot[i], lo[i], hi[i])) { if (why) *why = strf("total %d is %lld instead of %lld to %lld", i, (long long) r.tot[i], (long long) lo[i], (long long) hi[i]); return false; }
        probe("totals_checked");
        return true;
    }
    int w = wrapped(e.call, e.a, e.b);
    if (w == 1 ? r.fn != e.call : w == 0 ? !r.fn.empty() : !(r.fn.empty() || r.fn == e.call)) return false;
    if (f.comm != r.comm) return false;
    if (f.type == T_COLL) return f.ctype == r.ctype && f.root == r.root && f.size == r.size;
    return f.peer == r.peer && f.tag == r.tag && f.size == r.size;
}

//   Compares the complete trace of a channel with what happened
static void check_channel(Caliper& k, Chn& c)
{
    std::map<int, std::vector<Fields>> got;
    k.flush(c.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        int th; Fields f = parse_rec(db, rec, th);
        if (f.type == T_OTHER) return;
        NoPreempt np;
        if (th < 1) fail("%s: record of no known thread: %s", c.name.c_str(), show(f).c_str());
        got[th].push_back(f);
    });
    NoPreempt np;
    std::map<uint64_t, int64_t> ids; std::map<int64_t, uint64_t> rids;
    for (int t = 1; t < 8; ++t) {
        if (!exps[t]) continue;
        auto& g = got[t];
        std::vector<const Exp*> ex; std::vector<int> need; bool exact = true;
        for (auto& e : *exps[t]) { int r = recorded(c, e); if (!r) continue; ex.push_back(&e); need.push_back(r); exact &= r == 1; probe(r == 1 ? "records_certain" : "records_uncertain"); }
        //   reach[j]: the records so far can be explained by the first j expectations
        size_t n = ex.size(), far = 0; std::vector<char> reach(n + 1, 0);
        reach[0] = 1;
        for (size_t j = 0; j < n && need[j] != 1 ; ++j) reach[j + 1] = 1;
        for (size_t i = 0; i < g.size(); ++i) {
            std::vector<char> nx(n + 1, 0); std::string why; bool any = false;
            for (size_t j = 0; j < n; ++j) {
                if (nx[j] && need[j] != 1) nx[j + 1] = 1;
                if (reach[j] && match(c, *ex[j], g[i], &why)) { nx[j + 1] = 1; any = true; far = std::max(far, j + 1); }
            }
            if (!any) {
                size_t j = 0; while (j < n && !reach[j]) ++j;
                fail("%s: thread %d: record %zu (%s) was not expected there; %s%s%s", c.name.c_str(), t, i, show(g[i]).c_str(), why.c_str(), j < n ? " next: " : " nothing more was expected", j < n ? (show(ex[j]->f) + " in " + ex[j]->call).c_str() : "");
            }
            reach.swap(nx);
        }
        if (!reach[n]) {
            size_t j = n; while (j > 0 && !reach[j]) --j;
            while (j < n && need[j] != 1) ++j;
            fail("%s: thread %d: %s in %s is not in the trace", c.name.c_str(), t, j < n ? show(ex[j]->f).c_str() : "?", j < n ? ex[j]->call.c_str() : "?");
        }
        if (exact && g.size() == n)
            for (size_t i = 0; i < n; ++i) {
                if (!ex[i]->comm) continue;
                auto a = ids.insert({ ex[i]->comm, g[i].cid }); auto b = rids.insert({ g[i].cid, ex[i]->comm });
                if (a.first->second != g[i].cid || b.first->second != ex[i]->comm) fail("%s: communicator %llu has id %lld here: %s", c.name.c_str(), (unsigned long long) ex[i]->comm, (long long) g[i].cid, show(g[i]).c_str());
            }
        probe("records_checked", g.size());
    }
    probe("traces_checked");
}

// ---- channels

static void create(int i)
{
    Chn& c = chns[i];
    int f = (int) plan().get(strf("cfg%d", i).c_str());
    std::map<std::string, std::string> m;
    uint64_t a;
    {
        NoPreempt np;
        c.name = strf("ch%d", i);
        c.event = f & 1; c.pattern = (f & 6) == 6; c.trace_msgs = !c.pattern || (f & 8); c.async = c.pattern && (f & 16);
        c.all = true; c.only.clear(); c.except.clear();
        m["CALI_SERVICES_ENABLE"] = std::string("mpi,trace") + (c.event ? ",event" : "") + (c.async ? ",async_event" : "");
        m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
        if (c.event) m["CALI_EVENT_TRIGGER"] = "mpi.function";
        m["CALI_MPI_MSG_TRACING"] = c.trace_msgs ? "true" : "false"; m["CALI_MPI_MSG_PATTERN"] = c.pattern ? "true" : "false";
        switch (f >> 5) {
//   The functions on requests are instrumented either all or not at all: with only some of them,
        //   the end of a request may not be seen.
        case 0: c.all = false; c.only = { "MPI_Isend", "MPI_Issend", "MPI_Irsend", "MPI_Irecv", "MPI_Send_init", "MPI_Ssend_init", "MPI_Recv_init", "MPI_Start", "MPI_Startall", "MPI_Wait", "MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Test", "MPI_Testall", "MPI_Testany", "MPI_Testsome", "MPI_Request_free", "MPI_Comm_free", "MPI_Bcast", "MPI_Send" }; m["CALI_MPI_WHITELIST"] = "MPI_Isend,MPI_Issend,MPI_Irsend,MPI_Irecv,MPI_Send_init,MPI_Ssend_init,MPI_Recv_init,MPI_Start,MPI_Startall,MPI_Wait,MPI_Waitall,MPI_Waitany,MPI_Waitsome,MPI_Test,MPI_Testall,MPI_Testany,MPI_Testsome,MPI_Request_free,MPI_Comm_free,MPI_Bcast,MPI_Send"; break;
        case 1: c.except = { "MPI_Barrier", "MPI_Recv", "MPI_Ssend", "MPI_Gather", "MPI_Comm_rank" }; m["CALI_MPI_BLACKLIST"] = "MPI_Barrier,MPI_Recv,MPI_Ssend,MPI_Gather,MPI_Comm_rank"; break;
        case 2: c.all = false; c.only = { "MPI_Recv", "MPI_Barrier", "MPI_Scatterv", "MPI_Comm_dup", "MPI_Comm_free" }; m["CALI_MPI_WHITELIST"] = "MPI_Recv,MPI_Barrier,MPI_Scatterv,MPI_Comm_dup,MPI_Comm_free"; break;
        default: m["CALI_MPI_WHITELIST"] = "all"; break;
        }
        a = tick();
        c.act.clear(); // the earlier channel's trace has been checked
        life[i].push_back({ a, 0, 1 }); c.act.push_back({ a, 0, 1 });
    }
    c.ch = make_channel(c.name.c_str(), m);
    if (!c.ch) fail("channel cannot be created");
    NoPreempt np;
    life[i].back().b = c.act.back().b = tick(); c.exists = c.on = true;
}
static void toggle(Chn& c)
{
    Caliper k; uint64_t a = tick();
    { NoPreempt np; c.act.push_back({ a, 0, !c.on }); }
    if (c.on) k.deactivate_channel(c.ch); else k.activate_channel(c.ch);
    NoPreempt np; c.act.back().b = tick(); c.on = !c.on;
    probe("toggles");
}
static void destroy(int i)
{
    Chn& c = chns[i]; Caliper k; uint64_t a = tick();
    { NoPreempt np; c.act.push_back({ a, 0, 0 }); }
    k.deactivate_channel(c.ch);
    { NoPreempt np; c.act.back().b = tick(); }
    check_channel(k, c);
    a = tick();
    { NoPreempt np; life[i].push_back({ a, 0, 0 }); }
    k.delete_channel(c.ch);
    NoPreempt np; life[i].back().b = tick(); c.exists = false; c.ch = Channel();
}

// ---- the MPI program

struct Req { MPI_Request h = MPI_REQUEST_NULL; bool pers = false, active = false, recv = false; };
struct CommS { MPI_Comm h; uint64_t uid; std::string desc; };
static std::mutex pool_mx; static std::vector<Req>* pool;

static std::string comm_desc(MPI_Comm c)
{
    int r[64], w[64], n = vmpi_comm_ranks(c, r), nw = vmpi_comm_ranks(MPI_COMM_WORLD, w);
    std::string s = std::to_string(n);
    if (n == nw && std::equal(r, r + n, w)) return s + ":world";
    s += ":";
    for (int i = 0; i < n; ++i) s += std::to_string(r[i]) + ",";
    return s;
}

struct Prog {
    int t; std::vector<Req> rq; std::vector<CommS> comms; std::vector<std::string> regs; uint64_t cra = 0, crb = 0; bool cr = false;
    uint64_t a = 0; std::string call; size_t begin_at = 0;

    std::string regions() { std::string s; for (auto& x : regs) s += "/" + x; return s; }
    void start(const char* fn)
    {
        a = tick();
        NoPreempt np;
        call = fn;
        Exp e; e.a = a; e.b = UINT64_MAX; e.th = t; e.call = fn; e.f.type = T_BEGIN; e.f.evfn = fn; e.f.regions = regions();
        begin_at = exps[t]->size(); exps[t]->push_back(e);
    }
    //   coll: description of the collective
    void finish(const Fields* coll = nullptr, uint64_t coll_uid = 0, MPI_Status* st = nullptr)
    {
        uint64_t b = tick();
        NoPreempt np;
        VEv ev[512]; int n = vmpi_drain(ev);
        (*exps[t])[begin_at].b = b;
        Exp e0 = (*exps[t])[begin_at]; e0.f.evfn.clear(); e0.f.type = T_OTHER;
        for (int i = 0; i < n; ++i) {
            Exp e = e0;
            e.comm = ev[i].comm; e.f.comm = desc_of(ev[i].comm); e.f.peer = ev[i].peer; e.f.tag = ev[i].tag; e.f.size = ev[i].len;
            auto p = posts->find(ev[i].uid);
            switch (ev[i].what) {
            case V_INIT: (*posts)[ev[i].uid] = { a, b, call, e.f.comm }; break;
            case V_POSTED: if (p == posts->end()) (*posts)[ev[i].uid] = { a, b, call, e.f.comm }; break;
            case V_SENT: e.f.type = T_SEND; if (p != posts->end()) { e.pa = p->second.a; e.pb = p->second.b; e.pcall = p->second.call; } exps[t]->push_back(e); probe("sends"); break;
            case V_RECVD: if (st && (st->MPI_SOURCE != ev[i].peer || st->MPI_TAG != ev[i].tag)) fail("%s gave the status of another message: source %d tag %d instead of %d %d", call.c_str(), st->MPI_SOURCE, st->MPI_TAG, ev[i].peer, ev[i].tag);
                e.f.type = T_RECV; if (p != posts->end()) { e.pa = p->second.a; e.pb = p->second.b; e.pcall = p->second.call; e.f.comm = p->second.comm; } exps[t]->push_back(e); probe("receives"); break;
            case V_CANCELLED: probe("cancelled"); break;
            }
        }
        if (coll) { Exp e = e0; int ty = coll->ctype; e.f = *coll; e.f.regions = e0.f.regions; e.f.type = T_COLL; e.f.ctype = ty; e.comm = coll_uid; exps[t]->push_back(e); probe("collectives"); }
        Exp e = e0; e.f.type = T_END; e.f.evfn = call; exps[t]->push_back(e);
        call.clear();
    }
    static std::map<uint64_t, std::string>& descs() { static std::map<uint64_t, std::string>* m = new std::map<uint64_t, std::string>; return *m; }
    static std::string desc_of(uint64_t uid) { return descs()[uid]; }
    void add_comm(MPI_Comm h) { NoPreempt np; CommS c { h, vmpi_comm_uid(h), comm_desc(h) }; descs()[c.uid] = c.desc; comms.push_back(c); }

    std::vector<int> pick(int how, bool only_active, size_t maxn)
    {
        std::vector<int> v;
        for (size_t i = 0; i < rq.size() && v.size() < maxn; ++i)
            if ((!only_active || rq[i].active) && ((how >> (i % 6)) & 1)) v.push_back((int) i);
        return v;
    }
    void after(int i) { if (rq[i].h == MPI_REQUEST_NULL || rq[i].pers) rq[i].active = false; }
    void op(const Op& o);
    void drop_null() { NoPreempt np; rq.erase(std::remove_if(rq.begin(), rq.end(), [](const Req& r) { return r.h == MPI_REQUEST_NULL; }), rq.end()); }
};

static const MPI_Datatype kNull = MPI_DATATYPE_NULL;
static MPI_Datatype type_no(int i) { switch (i % 4) { case 0: return MPI_BYTE; case 1: return MPI_INT; case 2: return MPI_UINT64_T; default: return MPI_CHAR; } }
static int tsize(int i) { static const int s[] = { 1, 4, 8, 1 }; return s[i % 4]; }

void Prog::op(const Op& o)
{
    static char buf[65536]; char* b = buf;
    CommS& c = comms[(size_t) o.b % comms.size()];
    int n = 0; { int r[64]; n = vmpi_comm_ranks(c.h, r); }
    int cnt = (int) (o.v % 40), ty = (int) (o.v / 40), peer = (int) (o.v / 1000) % n, tag = o.c % 5;
    MPI_Datatype dt = type_no(ty);
    int src = o.c & 8 ? MPI_ANY_SOURCE : peer, rtag = o.c & 16 ? MPI_ANY_TAG : tag;
    MPI_Status one, many[64];
    { NoPreempt np; memset(&one, 0x55, sizeof one); memset(many, 0x55, sizeof many); }
    bool ign = o.a & 32;
    MPI_Status* s1 = ign ? MPI_STATUS_IGNORE : &one; MPI_Status* sn = ign ? MPI_STATUSES_IGNORE : many;
    std::vector<MPI_Request> h; std::vector<int> id;
    auto load = [&](bool act, size_t maxn) { NoPreempt np; id = pick(o.b, act, maxn); h.clear(); for (int i : id) h.push_back(rq[i].h); if (!act && (o.c & 3) == 3) { h.push_back(MPI_REQUEST_NULL); id.push_back(-1); } };
    auto store = [&] { NoPreempt np; for (size_t i = 0; i < id.size(); ++i) if (id[i] >= 0) rq[id[i]].h = h[i]; };
    auto done = [&](int i) { if (id[i] >= 0) after(id[i]); };
    switch (o.kind) {
    case SEND: switch (o.a & 3) {
        case 0: start("MPI_Ssend"); MPI_Ssend(b, cnt, dt, peer, tag, c.h); break;
        case 1: start("MPI_Bsend"); MPI_Bsend(b, cnt, dt, peer, tag, c.h); break;
        default: start("MPI_Send"); MPI_Send(b, cnt, dt, peer, tag, c.h); }
        finish(); break;
    case ISEND: { if (rq.size() > 10) break; Req r; r.active = true;
        switch (o.a & 3) {
        case 0: start("MPI_Issend"); MPI_Issend(b, cnt, dt, peer, tag, c.h, &r.h); break;
        case 1: start("MPI_Irsend"); MPI_Irsend(b, cnt, dt, peer, tag, c.h, &r.h); break;
        default: start("MPI_Isend"); MPI_Isend(b, cnt, dt, peer, tag, c.h, &r.h); }
        finish(); rq.push_back(r); break; }
    case RECV: start("MPI_Recv"); MPI_Recv(b, cnt, dt, src, rtag, c.h, s1); finish(nullptr, 0, ign ? nullptr : &one); break;
    case IRECV: { if (rq.size() > 10) break; Req r; r.active = r.recv = true; start("MPI_Irecv"); MPI_Irecv(b, cnt, dt, src, rtag, c.h, &r.h); finish(); rq.push_back(r); break; }
    case SINIT: { if (rq.size() > 10) break; Req r; r.pers = true;
        if (o.a & 1) { start("MPI_Send_init"); MPI_Send_init(b, cnt, dt, peer, tag, c.h, &r.h); } else { start("MPI_Ssend_init"); MPI_Ssend_init(b, cnt, dt, peer, tag, c.h, &r.h); }
        finish(); rq.push_back(r); break; }
    case RINIT: { if (rq.size() > 10) break; Req r; r.pers = r.recv = true; start("MPI_Recv_init"); MPI_Recv_init(b, cnt, dt, src, rtag, c.h, &r.h); finish(); rq.push_back(r); break; }
    case START: for (size_t i = 0; i < rq.size(); ++i) if (rq[i].pers && !rq[i].active) { start("MPI_Start"); MPI_Start(&rq[i].h); rq[i].active = true; finish(); break; } break;
    case STARTALL: {
        { NoPreempt np; for (size_t i = 0; i < rq.size(); ++i) if (rq[i].pers && !rq[i].active) { id.push_back((int) i); h.push_back(rq[i].h); } }
        start("MPI_Startall"); MPI_Startall((int) h.size(), h.data()); for (int i : id) rq[i].active = true; finish(); break; }
    case WAIT: if (!rq.empty()) { Req& r = rq[(size_t) o.b % rq.size()]; start("MPI_Wait"); MPI_Wait(&r.h, s1); finish(nullptr, 0, ign ? nullptr : &one); after((int) ((size_t) o.b % rq.size())); drop_null(); } break;
    case TEST: if (!rq.empty()) { int i = (int) ((size_t) o.b % rq.size()), f = 0; start("MPI_Test"); MPI_Test(&rq[i].h, &f, s1); finish(nullptr, 0, ign ? nullptr : &one); if (f) after(i); drop_null(); } break;
    case WAITALL: load(false, 12); start("MPI_Waitall"); MPI_Waitall((int) h.size(), h.data(), sn); finish(); store(); for (size_t i = 0; i < h.size(); ++i) done((int) i); drop_null(); break;
    case TESTALL: { int f = 0; load(false, 12); start("MPI_Testall"); MPI_Testall((int) h.size(), h.data(), &f, sn); finish(); store(); if (f) for (size_t i = 0; i < h.size(); ++i) done((int) i); drop_null(); break; }
    case WAITANY: { int x = -1; load(false, 12); start("MPI_Waitany"); MPI_Waitany((int) h.size(), h.data(), &x, s1); finish(nullptr, 0, ign ? nullptr : &one); store(); if (x >= 0) done(x); drop_null(); break; }
    case TESTANY: { int x = -1, f = 0; load(false, 12); start("MPI_Testany"); MPI_Testany((int) h.size(), h.data(), &x, &f, s1); finish(nullptr, 0, ign ? nullptr : &one); store(); if (f && x >= 0) done(x); drop_null(); break; }
    case WAITSOME: case TESTSOME: {
        int k = 0, idx[64]; load(false, 12);
        if (o.kind == WAITSOME) { start("MPI_Waitsome"); MPI_Waitsome((int) h.size(), h.data(), &k, idx, sn); } else { start("MPI_Testsome"); MPI_Testsome((int) h.size(), h.data(), &k, idx, sn); }
        finish(); store(); for (int i = 0; i < k; ++i) done(idx[i]); drop_null(); break; }
    case RFREE: for (size_t i = 0; i < rq.size(); ++i) if (!rq[i].active || (o.a & 3) == 0) { start("MPI_Request_free"); MPI_Request_free(&rq[i].h); finish(); drop_null(); break; } break;
    case CANCEL: for (size_t i = 0; i < rq.size(); ++i) if (rq[i].active && rq[i].recv) { start("MPI_Cancel"); MPI_Cancel(&rq[i].h); finish(); break; } break;
    case SENDRECV: start("MPI_Sendrecv"); MPI_Sendrecv(b, cnt, dt, peer, tag, b, cnt + 3, MPI_INT, src, rtag, c.h, s1); finish(nullptr, 0, ign ? nullptr : &one); break;
    case SENDRECVR: start("MPI_Sendrecv_replace"); MPI_Sendrecv_replace(b, cnt, dt, peer, tag, src, rtag, c.h, s1); finish(nullptr, 0, ign ? nullptr : &one); break;
    case COLL: {
        Fields f; f.comm = c.desc; int me = 0; { int r[64]; vmpi_comm_ranks(c.h, r); for (int i = 0; i < n; ++i) if (r[i] == plan().get("rank") % plan().get("nranks")) me = i; }
        int root = peer, cs[64]; { for (int i = 0; i < 64; ++i) cs[i] = (i * 7 + cnt) % 11; } int ds[64]; { for (int i = 0; i < 64; ++i) ds[i] = i * 13; }
        int sum = 0; for (int i = 0; i < n; ++i) sum += cs[i];
        bool ip = o.c & 32; // MPI_IN_PLACE
        int sz = tsize(ty);
        auto r1 = [&](const char* fn, int64_t v) { start(fn); f.ctype = 3; f.root = root; f.size = me == root ? v : 0; };
        auto rN = [&](const char* fn, int64_t v) { start(fn); f.ctype = 4; f.root = root; f.size = me != root ? v : 0; };
        auto nN = [&](const char* fn, int64_t v) { start(fn); f.ctype = 2; f.size = v; };
        switch (o.a % 14) {
        case 0: start("MPI_Barrier"); f.ctype = 1; MPI_Barrier(c.h); break;
        case 1: r1("MPI_Bcast", cnt * sz); MPI_Bcast(b, cnt, dt, root, c.h); break;
        case 2: r1("MPI_Scatter", cnt * sz); if (me == root) MPI_Scatter(b, cnt, dt, b, cnt, dt, root, c.h); else MPI_Scatter(nullptr, 0, kNull, b, cnt, dt, root, c.h); break;
        case 3: r1("MPI_Scatterv", sum * sz); if (me == root) MPI_Scatterv(b, cs, ds, dt, b, cnt, dt, root, c.h); else MPI_Scatterv(nullptr, nullptr, nullptr, kNull, b, cnt, dt, root, c.h); break;
        case 4: rN("MPI_Gather", cnt * sz); if (me == root && ip) MPI_Gather(MPI_IN_PLACE, 0, kNull, b, cnt, dt, root, c.h); else MPI_Gather(b, cnt, dt, b, cnt, dt, root, c.h); break;
        case 5: rN("MPI_Gatherv", cnt * sz); if (me == root && ip) MPI_Gatherv(MPI_IN_PLACE, 0, kNull, b, cs, ds, dt, root, c.h); else MPI_Gatherv(b, cnt, dt, b, cs, ds, dt, root, c.h); break;
        case 6: rN("MPI_Reduce", cnt * sz); MPI_Reduce(b, b, cnt, dt, MPI_SUM, root, c.h); break;
        case 7: nN("MPI_Scan", cnt * sz); MPI_Scan(b, b, cnt, dt, MPI_SUM, c.h); break;
        case 8: nN("MPI_Allreduce", cnt * sz); MPI_Allreduce(ip ? MPI_IN_PLACE : b, b, cnt, dt, MPI_SUM, c.h); break;
        case 9: nN("MPI_Allgather", cnt * sz); if (ip) MPI_Allgather(MPI_IN_PLACE, 0, kNull, b, cnt, dt, c.h); else MPI_Allgather(b, cnt, dt, b, cnt, dt, c.h); break;
        case 10: if (ip) { nN("MPI_Allgatherv", cs[me] * sz); MPI_Allgatherv(MPI_IN_PLACE, 0, kNull, b, cs, ds, dt, c.h); } else { nN("MPI_Allgatherv", cnt * sz); MPI_Allgatherv(b, cnt, dt, b, cs, ds, dt, c.h); } break;
        case 11: nN("MPI_Alltoall", n * cnt * sz); if (ip) MPI_Alltoall(MPI_IN_PLACE, 0, kNull, b, cnt, dt, c.h); else MPI_Alltoall(b, cnt, dt, b, cnt, dt, c.h); break;
        case 12: nN("MPI_Alltoallv", sum * sz); if (ip) MPI_Alltoallv(MPI_IN_PLACE, nullptr, nullptr, kNull, b, cs, ds, dt, c.h); else MPI_Alltoallv(b, cs, ds, dt, b, cs, ds, dt, c.h); break;
        case 13: nN("MPI_Reduce_scatter", cs[me] * sz); MPI_Reduce_scatter(b, b, cs, dt, MPI_SUM, c.h); break;
        }
        finish(&f, c.uid); break; }
    case CDUP: if (comms.size() < 4) { MPI_Comm x; start("MPI_Comm_dup"); MPI_Comm_dup(c.h, &x); add_comm(x); finish(); } break;
    case CSPLIT: if (comms.size() < 4) { MPI_Comm x; start("MPI_Comm_split"); MPI_Comm_split(c.h, 0, 0, &x); add_comm(x); finish(); } break;
    case CFREE: if (comms.size() > 2) {
        //   pending operations keep their communicator; this program completes them first
        bool busy = false; for (auto& r : rq) busy |= r.active || r.pers;
        if (busy) break;
        MPI_Comm x = comms.back().h; { NoPreempt np; comms.pop_back(); }
        start("MPI_Comm_free"); MPI_Comm_free(&x); finish(); } break;
    case RBEGIN: if (regs.size() < 5) { std::string nm = strf("r%d", o.a % 4); cali_begin_region(nm.c_str()); NoPreempt np; regs.push_back(nm); } break;
    case REND: if (!regs.empty() && regs.back()[0] == 'r') { cali_end_region(regs.back().c_str()); NoPreempt np; regs.pop_back(); } break;
    case CRBEGIN: if (t == 1 && !cr && regs.size() < 5) { std::string nm = strf("c%d", o.a % 3); uint64_t x = tick(); cali_begin_comm_region(nm.c_str()); NoPreempt np; regs.push_back(nm); cr = true; cra = x; crb = tick(); } break;
    case CREND: if (cr && regs.back()[0] == 'c') {
        {
            uint64_t x = tick(); NoPreempt np;
            Exp e; e.a = x; e.b = UINT64_MAX; e.th = t; e.f.type = T_TOTALS; e.f.regions = regions(); e.ra = cra; e.rb = crb; exps[t]->push_back(e);
        }
        size_t at = exps[t]->size() - 1;
        cali_end_comm_region(regs.back().c_str());
        NoPreempt np; (*exps[t])[at].b = tick(); regs.pop_back(); cr = false; } break;
    case HAND: if (!rq.empty() && comms.size() <= 2) { std::lock_guard<std::mutex> g(pool_mx); NoPreempt np; pool->push_back(rq.back()); rq.pop_back(); } break;
    case TAKE: if (rq.size() < 10) { std::lock_guard<std::mutex> g(pool_mx); NoPreempt np; if (!pool->empty()) { rq.push_back(pool->back()); pool->pop_back(); } } break;
    case OTHER: { int x; start("MPI_Comm_rank"); MPI_Comm_rank(c.h, &x); finish(); break; }
    }
}

static void body(int t)
{
    Caliper k;
    k.begin(tid_attr, Variant(t));
    Prog p; p.t = t;
    p.add_comm(MPI_COMM_WORLD); p.add_comm(MPI_COMM_SELF);
    for (int i = 0; i < plan().nops; ++i) {
        const Op& o = plan().ops[i];
        if (o.th != t) continue;
        vmpi_between_calls();
        p.op(o);
    }
    //   complete everything
    for (auto& r : p.rq) if (r.active) { vmpi_between_calls(); p.start("MPI_Wait"); MPI_Wait(&r.h, MPI_STATUS_IGNORE); p.finish(); r.active = false; }
    while (!p.regs.empty()) {
        bool cr = p.regs.back()[0] == 'c';
        p.op(Op { t, cr ? CREND : REND, 0, 0, 0, 0 });
    }
    vmpi_thread(-1);
}

static void run(const Plan& p)
{
    clean_env();
    int nr = (int) p.get("nranks");
    mpi_virtual(nr, (int) (p.get("rank") % nr));
    cali_init();
    Caliper k;
    chns = new Chn[MAXCH]; posts = new std::map<uint64_t, PostInfo>; pool = new std::vector<Req>;
    int nth = (int) p.get("nth");
    for (int t = 1; t <= nth; ++t) exps[t] = new std::deque<Exp>;
    tid_attr = k.create_attribute("tid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    for (int i = 0; i < p.get("nchn"); ++i) create(i);
    for (int t = 0; t < nth; ++t) vmpi_thread(1);
    run_threads(nth, true, [&](int t) {
        if (t) { body(t); return; }
        for (int i = 0; i < p.nops; ++i) {
            const Op& o = p.ops[i];
            if (o.th) continue;
            if (o.v) advance_ns((uint64_t) o.v); else yield();
            Chn& c = chns[o.a];
            switch (o.kind) {
            case TOGGLE: if (c.exists) toggle(c); break;
            case CREATE: if (!c.exists) { vmpi_gate(true); create(o.a); vmpi_gate(false); probe("channels_created"); } break;
            case DELETE: if (c.exists) { vmpi_gate(true); destroy(o.a); vmpi_gate(false); probe("channels_deleted"); } break;
            }
        }
    });
    for (int i = 0; i < MAXCH; ++i) if (chns[i].exists) check_channel(k, chns[i]);
    probe("ends");
}

PropDef sim::the_prop = { "C17", gen, run, nullptr };
