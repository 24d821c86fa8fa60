// C15: cross-process aggregation equals the aggregation of all processes' records.
// Every MPI rank is a simulated thread; messages are delayed, sends block until
// received, ranks are slow.
#include "qmodel.h"
#include <caliper/cali-mpi.h>
#include <caliper/ConfigManager.h>
#include <caliper/common/OutputStream.h>
#include <caliper/CollectiveOutputChannel.h>
#include <caliper/reader/FormatProcessor.h>
#include "/repo/src/caliper/OutputCommMpi.h"
using namespace sim;
namespace sim { void mpi_start(int); void mpi_rank(int); uint64_t mpi_messages(); }
extern "C" int PMPI_Barrier(MPI_Comm);

enum Level { L_AGG, L_CHANNEL, L_REPORT, L_LOOPS };
enum { REC };
enum { MAXRANKS = 16 };

static void gen(Rng& r, Plan& p)
{
    int lv = r.chance(2, 3) ? (int) L_AGG : (int) r.range(1, 3);
    p.set("level", lv);
    int nr = r.chance(1, 8) ? (int) r.range(9, MAXRANKS - 1) : (int) r.range(1, 8);
    p.set("ranks", nr);
    int nm = r.chance(1, 5) && lv == L_AGG ? (int) r.range(20, MAXMET) : (int) r.range(1, 5);
    p.set("nmet", nm);
    p.set("rounds", r.range(1, 3));
    p.set("ops", r.next() & ((1 << NAGG) - 1));
    if (r.chance(1, 3)) p.set("ops", 1 << r.below(NAGG) | r.below(8));
    p.set("group", r.below(7));
    p.set("shuffle", r.next() >> 8);
    p.set("viacomm", r.chance(1, 3));
    p.set("own_metrics", r.chance(1, 3));   // metrics that only some ranks know
    p.set("fmt", r.below(3));
    p.set("f_msg_delay", r.chance(1, 2) ? r.logrange(20000, 900000) : 0);
    p.set("f_msg_rendezvous", r.chance(1, 2) ? r.logrange(50000, 1000000) : 0);
    p.set("f_rank_slow", r.chance(1, 2) ? r.logrange(20000, 500000) : 0);
    int empty = r.chance(1, 3);             // some ranks have no data
    int per = (int) r.range(1, nm > 10 || lv != L_AGG ? 4 : r.chance(1, 6) ? 40 : 10);
    for (int t = 0; t < nr; ++t) {
        if (empty && r.chance(1, 2)) continue;
        int n = (int) r.range(0, per);
        for (int i = 0; i < n; ++i) p.add(t, REC, (int) r.below(40), (int) r.below(16), (int) r.below(1 << 16), (int64_t) r.next() >> 1);
    }
    p.set("npb", r.chance(1, 3) ? r.range(16, 40) : 0);
    gen_schedule(r, p, 4000 + nr * (per * 200 + 500));
}

static RecSet* recs; // [rank]
static void run_agg(int rank, int round)
{
    cali::QuerySpec spec = cali::CalQLParser(query_text(false).c_str()).spec();
    cali::CaliperMetadataDB ddb; DbMaker d(ddb); d.define(rank);
    cali::Aggregator agg(spec);
    for (auto& r : recs[rank].v) agg.add(ddb, d.record(r));
    std::string what = strf("round %d", round);
    if (plan().get("viacomm")) {
        cali::OutputCommMpi comm(MPI_COMM_WORLD);
        if (comm.rank() != rank) fail("rank %d sees itself as rank %d", rank, comm.rank());
        std::string s = strf("%s-%d", std::string(rank ? rank * 37 : round * 50, 'x').c_str(), rank);
        std::string b = comm.bcast_str(s);
        if (b != std::string(round * 50, 'x') + "-0") fail("rank %d receives the wrong string", rank);
        if (comm.bcast_int(rank + 10 + round) != 10 + round) fail("rank %d receives the wrong number", rank);
        comm.cross_aggregate(ddb, agg);
    } else
        cali::aggregate_over_mpi(ddb, agg, MPI_COMM_WORLD);
    if (rank == 0) {
        Result res = result_of(ddb, agg, what.c_str());
        NoPreempt np;
        std::map<int, double> total; std::vector<const RecSet*> all;
        for (int i = 0; i < nranks; ++i) all.push_back(&recs[i]);
        check(res, reference(all, total), total, what.c_str());
        probe("aggregations_checked");
        observe(res.size());
    }
}

// ---- Level 2: channels; the ranks take turns to record so that each has its own data
static std::mutex turn_mx;
static Attribute A_region, A_phase, A_k, A_m[8];

static void record_in_channel(Caliper& c, Channel& ch, const Rec& r)
{
    std::vector<Attribute> open;
    if (r.phase >= 0) { std::string s = strf("p%d", r.phase); c.begin(A_phase, Variant(s.c_str())); open.push_back(A_phase); }
    for (auto& p : r.path) { c.begin(A_region, Variant(p.c_str())); open.push_back(A_region); }
    std::vector<Attribute> at; std::vector<Variant> dv;
    for (auto& v : r.m) { at.push_back(A_m[v.first]); dv.push_back(mval(v.first, v.second)); }
    if (r.has_k) { at.push_back(A_k); dv.push_back(Variant(cali_make_variant_from_int(r.k))); }
    FixedSizeSnapshotRecord<16> rec;
    c.make_record(at.size(), at.data(), dv.data(), rec.builder());
    c.push_snapshot(ch.body(), rec.view());
    while (!open.empty()) { c.end(open.back()); open.pop_back(); }
}

static void run_channel(int rank, int rounds)
{
    Caliper c;
    bool agg = plan().get("shuffle") & 1, rep = plan().get("viacomm"), cross_only = plan().get("shuffle") & 2;
    int fmt = (int) plan().get("fmt");
    std::string q = query_text(false) + (fmt == 0 ? " format expand" : " format cali");
    std::string local = "aggregate count() group by path,stage,k"; // keeps the records apart, so that the second step does everything
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", std::string("trace") + (rep ? ",mpireport" : "") }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" },
        { "CALI_MPIREPORT_FILENAME", "/sim/out" }, { "CALI_MPIREPORT_CONFIG", q }, { "CALI_MPIREPORT_WRITE_ON_FINALIZE", "false" } };
    (void) agg; (void) local; (void) cross_only;
    Channel ch = make_channel(strf("rank%d", rank).c_str(), cfg);
    std::vector<const RecSet*> mine;
    for (int round = 0; round < rounds; ++round) {
        {
            std::lock_guard<std::mutex> g(turn_mx);
            for (auto& r : recs[rank].v) record_in_channel(c, ch, r);
        }
        if (rank == 0) file_remove("/sim/out");
        PMPI_Barrier(MPI_COMM_WORLD);
        std::string what = strf("flush %d", round);
        if (rep) c.flush_and_write(ch.body(), SnapshotView());
        else {
            cali::OutputStream os;
            if (rank == 0) os.set_filename("/sim/out");
            cali::QuerySpec cross = cali::CalQLParser(q.c_str()).spec();
            cali::QuerySpec loc = cross; // same query in both steps
            cali::collective_flush(os, c, ch.body(), SnapshotView(), loc, cross, MPI_COMM_WORLD);
        }
        if (rank == 0) {
            std::string text = sim_file("/sim/out");
            NoPreempt np;
            Result res = fmt == 0 ? parse_expand(text, what.c_str()) : parse_cali(text, what.c_str());
            std::map<int, double> total; std::vector<const RecSet*> all;
            for (int i = 0; i < nranks; ++i) for (int k = 0; k <= round; ++k) all.push_back(&recs[i]); // the trace is not cleared
            auto want = reference(all, total);
            // every record's trigger may be empty: then it is still counted
            for (auto& g : res) for (auto& v : g.second) v.second = v.second;
            check(res, want, total, what.c_str());
            probe("collective_flushes_checked");
        }
        PMPI_Barrier(MPI_COMM_WORLD);
    }
}

// ---- Level 3: configured reports
struct Times { std::map<std::string, std::pair<double, double>> t; }; // path -> inclusive time bounds, s
static Times* times; // [rank]
static std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }

struct Managed {
    std::unique_ptr<cali::ConfigManager> mgr { new cali::ConfigManager };
    ~Managed() { PMPI_Barrier(MPI_COMM_WORLD); std::lock_guard<std::mutex> g(turn_mx); mgr.reset(); }
};

static void run_report(int rank, int rounds)
{
    // (ranks are threads of one process here: creating and deleting channels takes turns)
    Managed mg; cali::ConfigManager& mgr = *mg.mgr; bool made = false;
    struct Coc : std::shared_ptr<cali::CollectiveOutputChannel> { ~Coc() { std::lock_guard<std::mutex> g(turn_mx); reset(); } void operator=(const std::shared_ptr<cali::CollectiveOutputChannel>& o) { std::shared_ptr<cali::CollectiveOutputChannel>::operator=(o); } } coc;
    bool viachn = plan().get("viacomm");
    if (viachn) {
        auto p = cali::make_collective_output_channel("runtime-report");
        if (!p.first) fail("make_collective_output_channel: %s", p.second.c_str());
        coc = p.first;
    } else {
        mgr.add("runtime-report(output=/sim/report,output.append=false)");
        if (mgr.error()) fail("runtime-report: %s", mgr.error_msg().c_str());
    }
    std::ostringstream os;
    for (int round = 0; round < rounds; ++round) {
        {
            std::lock_guard<std::mutex> g(turn_mx);
            if (coc) coc->start(); else mgr.start();
            made = true;
            struct Open { std::string p; uint64_t t0, t1; };
            for (auto& r : recs[rank].v) {
                std::vector<Open> open; std::string path;
                for (auto& p : r.path) { path += "/" + p; uint64_t a = now_ns(); cali_begin_region(p.c_str()); open.push_back({ path, a, now_ns() }); }
                for (auto& v : r.m) advance_ns((uint64_t) std::fabs(v.second) * 20000);
                while (!open.empty()) {
                    Open o = open.back(); open.pop_back();
                    uint64_t a = now_ns(); cali_end_region(o.p.substr(o.p.rfind('/') + 1).c_str()); uint64_t b = now_ns();
                    auto& t = times[rank].t[o.p]; t.first += (double) (a - std::min(a, o.t1)) * 1e-9; t.second += (double) (b - o.t0) * 1e-9;
                }
            }
            if (coc) coc->stop(); else mgr.stop();
        }
        PMPI_Barrier(MPI_COMM_WORLD);
        std::string text;
        if (coc) { os.str(""); coc->collective_flush(os, MPI_COMM_WORLD); text = os.str(); }
        else { mgr.flush(); if (rank == 0) text = sim_file("/sim/report"); }
        if (rank != 0 && !text.empty()) fail("rank %d writes output", rank);
        if (rank == 0) {
            NoPreempt np;
            struct Row { double mn0 = 1e30, mn1 = 1e30, mx0 = 0, mx1 = 0, s0 = 0, s1 = 0; int n = 0; };
            std::map<std::string, Row> want;
            for (int i = 0; i < nranks; ++i) for (auto& t : times[i].t) { Row& w = want[t.first]; w.mn0 = std::min(w.mn0, t.second.first); w.mn1 = std::min(w.mn1, t.second.second); w.mx0 = std::max(w.mx0, t.second.first); w.mx1 = std::max(w.mx1, t.second.second); w.s0 += t.second.first; w.s1 += t.second.second; ++w.n; }
            bool timed = false; for (auto& w : want) timed = timed || w.second.s0 > 0;
            std::map<std::string, bool> seen; std::vector<std::string> stack;
            auto ls = lines_of(text);
            if (ls.empty() && !want.empty()) fail("no output, %d regions were recorded", (int) want.size());
            std::vector<size_t> col; static const char* const titles[] = { "Min time/rank", "Avg time/rank", "Max time/rank", "Time %" };
            for (size_t i = 0; i < ls.size(); ++i) {
                if (i == 0) {
                    for (auto* t : titles) { size_t p = ls[0].find(t); if (p == std::string::npos) { if (want.empty() || (std::string(t) == "Time %" && !timed)) { if (!want.empty()) col.push_back(std::string::npos); continue; } fail("column %s is missing: %s", t, ls[0].c_str()); } col.push_back(p); }
                    continue;
                }
                if (ls[i].empty()) continue;
                size_t ind = ls[i].find_first_not_of(' '); size_t depth = ind / 2;
                if (depth > stack.size()) fail("row %d is indented too deep", (int) i);
                stack.resize(depth); std::string nm = ls[i].substr(ind, ls[i].find(' ', ind) - ind); stack.push_back(nm);
                std::string path; for (auto& s : stack) path += "/" + s;
                double v[4];
                for (int k = 0; k < 4; ++k) {
                    v[k] = 0; if (col[k] == std::string::npos) continue;
                    if (ls[i].size() <= col[k]) fail("%s: a cell is missing: %s", path.c_str(), ls[i].c_str());
                    v[k] = strtod(ls[i].c_str() + col[k], nullptr);
                }
                auto w = want.find(path);
                if (w == want.end()) fail("the report has a row for %s, which no rank executed:\n%s", path.c_str(), text.c_str());
                if (seen[path]) fail("the report has two rows for %s", path.c_str());
                seen[path] = true;
                const Row& r = w->second; double e = 2e-6;
                if (v[0] < r.mn0 - e || v[0] > r.mn1 + e) fail("%s: Min time/rank is %.6f, between %.6f and %.6f expected", path.c_str(), v[0], r.mn0, r.mn1);
                if (v[2] < r.mx0 - e || v[2] > r.mx1 + e) fail("%s: Max time/rank is %.6f, between %.6f and %.6f expected", path.c_str(), v[2], r.mx0, r.mx1);
                if (v[1] < r.s0 / r.n - e || v[1] > r.s1 / r.n + e) fail("%s: Avg time/rank is %.6f, between %.6f and %.6f expected", path.c_str(), v[1], r.s0 / r.n, r.s1 / r.n);
                double tot0 = 0, tot1 = 0; // total: all top-level regions
                for (auto& x : want) if (x.first.rfind('/') == 0) { tot0 += x.second.s0; tot1 += x.second.s1; }
                if (tot0 > 0 && (v[3] < 100 * r.s0 / tot1 - 1e-3 || v[3] > 100 * r.s1 / tot0 + 1e-3)) fail("%s: Time %% is %.6f, between %.6f and %.6f expected", path.c_str(), v[3], 100 * r.s0 / tot1, 100 * r.s1 / tot0);
                probe("report_rows_checked");
            }
            for (auto& w : want) if (!seen[w.first]) fail("the report has no row for %s (%d ranks executed it)", w.first.c_str(), w.second.n);
            probe("reports_checked");
        }
        PMPI_Barrier(MPI_COMM_WORLD);
    }
    (void) made;
}

// ---- Level 4: the loop report
static std::map<std::string, int64_t>* loop_iters; // [rank]
static std::map<std::string, std::map<int, int64_t>>* loop_blocks; // [rank]
static void run_loops(int rank, int rounds)
{
    Managed mg; cali::ConfigManager& mgr = *mg.mgr;
    mgr.add("loop-report(iteration_interval=2,timeseries.maxrows=0,output=/sim/loops)");
    if (mgr.error()) fail("loop-report: %s", mgr.error_msg().c_str());
    for (int round = 0; round < rounds; ++round) {
        {
            std::lock_guard<std::mutex> g(turn_mx);
            mgr.start();
            for (auto& r : recs[rank].v) {
                if (r.path.empty()) continue;
                std::string name = "loop_" + r.path[0];
                cali_id_t id = cali_make_loop_iteration_attribute(name.c_str());
                int n = 2 * (1 + (int) r.m.size());
                cali_begin_string(cali_loop_attr_id, name.c_str());
                for (int i = 0; i < n; ++i) { cali_begin_int(id, i); advance_ns(100000 * (i % 3)); cali_end(id); }
                cali_end(cali_loop_attr_id);
                loop_iters[rank][name] += n;
                for (int i = 0; i < n; i += 2) loop_blocks[rank][name][i] += 2;
            }
            mgr.stop();
        }
        if (rank == 0) file_remove("/sim/loops");
        PMPI_Barrier(MPI_COMM_WORLD);
        mgr.flush();
        if (rank == 0) {
            std::string text = sim_file("/sim/loops");
            NoPreempt np;
            std::map<std::string, int64_t> want; std::map<std::string, std::map<int, int64_t>> wantb;
            for (int i = 0; i < nranks; ++i) for (auto& x : loop_iters[i]) want[x.first] = std::max(want[x.first], x.second);
            for (int i = 0; i < nranks; ++i) for (auto& x : loop_blocks[i]) for (auto& b : x.second) { auto& w = wantb[x.first][b.first]; w = std::max(w, b.second); }
            std::map<std::string, int64_t> got; std::map<std::string, std::map<int, int64_t>> gotb; std::string cur; bool head = false;
            auto ls = lines_of(text);
            for (size_t i = 0; i < ls.size(); ++i) {
                const std::string& l = ls[i];
                if (l.compare(0, 13, "Loop summary:") == 0) { cur = " "; head = false; continue; }
                if (l.compare(0, 19, "Iteration summary (") == 0) { cur = l.substr(19, l.find(')') - 19); head = false; if (gotb.count(cur)) fail("the loop report has two iteration summaries for %s", cur.c_str()); gotb[cur]; continue; }
                if (l.empty() || l[0] == '-') continue;
                if (!head) { head = true; continue; }
                if (cur == " ") {
                    std::istringstream is(l); std::string nm; double it, tm, a, b, av; is >> nm >> it >> tm >> a >> b >> av;
                    if (!is) fail("cannot read a row of the loop summary: %s", l.c_str());
                    got[nm] = (int64_t) it;
                    if (a > av * 1.00001 + 1e-5 || av > b * 1.00001 + 1e-5) fail("loop summary: the average rate of %s is %.6f, outside of its range %.6f to %.6f", nm.c_str(), av, a, b);
                } else {
                    std::istringstream is(l); std::vector<std::string> f; std::string x; while (is >> x) f.push_back(x);
                    if (f.size() == 4) gotb[cur][atoi(f[0].c_str())] = strtoll(f[1].c_str(), nullptr, 10);
                }
            }
            for (auto& w : want) {
                auto it = got.find(w.first);
                if (it == got.end()) fail("the loop summary has no row for %s (%d rows)", w.first.c_str(), (int) got.size());
                if (it->second != w.second) fail("loop summary: %lld iterations of %s instead of %lld", (long long) it->second, w.first.c_str(), (long long) w.second);
                if (!gotb.count(w.first)) fail("the loop report has no iteration summary for %s", w.first.c_str());
                for (auto& b : wantb[w.first]) {
                    auto g = gotb[w.first].find(b.first);
                    if (g == gotb[w.first].end()) fail("the iteration summary of %s has no row for block %d", w.first.c_str(), b.first);
                    if (g->second != b.second) fail("the iteration summary of %s has %lld iterations in block %d instead of %lld", w.first.c_str(), (long long) g->second, b.first, (long long) b.second);
                }
                if (gotb[w.first].size() != wantb[w.first].size()) fail("the iteration summary of %s has %d rows instead of %d", w.first.c_str(), (int) gotb[w.first].size(), (int) wantb[w.first].size());
            }
            for (auto& g : got) if (!want.count(g.first)) fail("the loop summary has a row for %s, which no rank executed", g.first.c_str());
            probe("loop_reports_checked");
        }
        PMPI_Barrier(MPI_COMM_WORLD);
    }
}

static void run(const Plan& p)
{
    clean_env();
    nranks = (int) p.get("ranks"); nmet = (int) p.get("nmet"); group_by = (int) p.get("group");
    int lv = (int) p.get("level"), rounds = (int) p.get("rounds");
    q_tol = lv == L_AGG ? 1e-9 : 2e-5; // written values are rounded
    if (nranks > MAXRANKS || nmet > MAXMET) harness_error("bad plan");
    mpi_start(nranks);
    {
        NoPreempt np;
        if (lv != L_AGG) nmet = std::min(nmet, 5);
        recs = new RecSet[MAXRANKS]; times = new Times[MAXRANKS]; loop_iters = new std::map<std::string, int64_t>[MAXRANKS]; loop_blocks = new std::map<std::string, std::map<int, int64_t>>[MAXRANKS];
        for (int i = 0; i < p.nops; ++i) recs[p.ops[i].th].v.push_back(make_rec(p.ops[i]));
        int64_t m = p.get("ops") | (lv != L_AGG ? 1 << COUNT : 0); if (!m) m = 1; // in a text output, a group without results would be no line
        Rng r; r.seed(p.get("shuffle"));
        if (nmet > 5) { // many metrics: a few operators on each
            std::vector<int> on; for (int i = 0; i < NAGG; ++i) if ((m >> i & 1) && (i == SUM || i == MIN || i == MAX)) on.push_back(i);
            if (on.empty()) on.push_back(SUM);
            aops.push_back({ COUNT, 0, 0 });
            for (int k = 0; k < nmet; ++k) aops.push_back({ on[r.below(on.size())], k, 0 });
        } else
            for (int i = 0; i < NAGG; ++i) {
                if (!(m >> i & 1)) continue;
                int a = (int) r.below(nmet), b = (int) r.below(nmet);
                if ((i == RATIO || i == IRATIO) && a == b) { if (nmet < 2) continue; b = (a + 1) % nmet; }
                aops.push_back({ i, a, b });
                if ((i == SUM || i == RATIO) && nmet > 2 && r.chance(1, 2)) { int b2 = 0; while (b2 == a || b2 == b) ++b2; aops.push_back({ i, i == SUM ? b2 : a, b2 }); }
            }
        if (aops.empty()) aops.push_back({ COUNT, 0, 0 });
    }
    if (lv != L_AGG) {
        Caliper c;
        A_region = c.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        A_phase = c.create_attribute("stage", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        A_k = c.create_attribute("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        for (int i = 0; i < nmet; ++i) A_m[i] = c.create_attribute(met(i).c_str(), mtype(i), CALI_ATTR_ASVALUE);
    }
    run_threads(nranks - 1, true, [&](int r) {
        mpi_rank(r);
        if (lv == L_AGG) for (int i = 0; i < rounds; ++i) run_agg(r, i);
        else if (lv == L_CHANNEL) run_channel(r, rounds);
        else if (lv == L_REPORT) run_report(r, rounds);
        else run_loops(r, rounds);
    });
    probe("messages", mpi_messages());
    if (lv == L_AGG) probe("level_aggregate"); else if (lv == L_CHANNEL) probe("level_channel"); else if (lv == L_REPORT) probe("level_report"); else probe("level_loops");
}

PropDef sim::the_prop { "C15", gen, run, nullptr };
