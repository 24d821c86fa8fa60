// C13: failing output never harms the program or garbles earlier output.
#include "model.h"
#include <caliper/ConfigManager.h>
#include <iostream>
#include <sstream>
using namespace sim;

enum { SNAPS, WRITE_OK, WRITE_BAD, STREAM, STDOUT, CLEAR, REGION, NOPS };
static const char* const QUERIES[] = {
    nullptr, // recorder
    "select * format cali", "select * format json", "select * format json(object,pretty)", "select * format expand", "select * format table",
    "select * format tree", "select * format json-split", "select seq,txt format format(\"%[8]seq% <%txt%>\") order by seq", "select txt,count() group by txt format table order by txt",
    "select reg,txt,seq where seq format json(split)", "select * where txt format cali",
};
static const char* const MGRS[] = {
    "event-trace(output=%s)", "hatchet-region-profile(output=%s,output.format=cali)", "hatchet-region-profile(output=%s,output.format=json)",
    "hatchet-region-profile(output=%s,output.format=json-split)", "runtime-report(output=%s)",
};
enum { NQ = sizeof QUERIES / sizeof *QUERIES, NM = sizeof MGRS / sizeof *MGRS };

static void gen(Rng& r, Plan& p)
{
    int nchn = (int) r.range(1, 3);
    p.set("nth", r.chance(1, 3) ? r.range(1, 3) : 0); p.set("nchn", nchn); p.set("late", r.chance(1, 3));
    for (int i = 0; i < nchn; ++i) {
        p.set(strf("kind%d", i).c_str(), r.chance(1, 3) ? 0 : r.chance(1, 4) ? 100 + r.below(NM) : r.below(NQ));
        p.set(strf("opt%d", i).c_str(), r.below(16));
    }
    unsigned m = (unsigned) r.below(8);   // 0: no failing calls, only interruptions
    static const char* const hard[] = { "f_open_w", "f_write_enospc", "f_write_eio", "f_close_eio", "f_mkdir", "f_crash_write" };
    for (int i = 0; i < 6; ++i) if (m && r.chance(1, 3)) p.set(hard[i], i == 5 ? r.logrange(1000, 60000) : r.logrange(10000, 500000));
    if (r.chance(2, 3)) p.set("f_write_short", r.logrange(10000, 700000));
    if (r.chance(2, 3)) p.set("f_write_eintr", r.logrange(10000, 700000));
    if (r.chance(1, 3)) p.set("io_temp", 1);    // a failed write does not mean that the next one fails
    p.set("f_stream", r.chance(1, 2) ? 500000 : 0);
    int nops = (int) r.range(4, 25);
    static const unsigned w[NOPS] = { 8, 2, 10, 3, 3, 2, 3 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    bool two = p.get("nth") && r.chance(1, 2);     // two threads write
    for (int i = 0; i < nops; ++i) {
        unsigned x = (unsigned) r.below(tot); int k = 0;
        while (x >= w[k]) x -= w[k++];
        if (i == 0) k = SNAPS;
        p.add(two && r.chance(1, 3) ? 1 : 0, k, (int) r.below(nchn), (int) r.below(4), (int) r.below(1000), (int64_t) r.logrange(1, 20000));
    }
    gen_schedule(r, p, nops * 400);
}

struct Chn {
    int idx, kind; unsigned opt; Channel ch; std::string path; std::mutex mx; cali::ConfigManager* mgr = nullptr;
    std::vector<std::string> text;                  // "seq=txt" of the recorded snapshots
    bool dir = false, append = false;
    // the output being written
    bool writing = false; std::string before, want; uint64_t hard = 0; bool opened_before = false;
};
static std::deque<Chn>* chns;
static Attribute a_seq, a_txt, a_reg;
static std::mutex cout_mx;
static int next_seq = 1;

static std::string content(const Chn& c) { return file_exists(c.path.c_str()) ? sim_file(c.path.c_str()) : "<none>"; }

static std::string clip(const std::string& s) { return s.size() > 200 ? s.substr(0, 200) + strf("... (%d bytes)", (int) s.size()) : s; }

static size_t common(const std::string& a, const std::string& b) { size_t n = 0; while (n < a.size() && n < b.size() && a[n] == b[n]) ++n; return n; }

// what may be in the file after a write, possibly unfinished or failed
static void check_file(Chn& c, const std::string& got, bool failed, const char* what)
{
    std::string old = c.append ? (c.before == "<none>" ? "" : c.before) : "";
    std::string full = old + c.want;
    if (!failed) {
        if (got != full) { size_t n = common(got, full); fail("%s: %s, no call failed, but the output differs from the fault-free one (%d instead of %d bytes, equal up to %d): ...%s", c.path.c_str(), what, (int) got.size(), (int) full.size(), (int) n, clip(got.substr(n > 20 ? n - 20 : 0)).c_str()); }
        return;
    }
    if (got == c.before) return;                    // could not be opened
    if (c.append && (got == "<none>" ? "" : got).compare(0, old.size(), old)) fail("%s: %s destroyed the earlier output", c.path.c_str(), what);
    //   After a temporary error, closing the file can still write what is in the stream's buffer,
    // part of which may have been written before.
    if (plan().get("io_temp") && got.size() > common(got, full)) {
        size_t k = common(got, full); std::string rest = got.substr(k);
        for (size_t j = 0; j <= k && j + rest.size() <= full.size(); ++j) {
            // the repeated part starts anywhere up to the point where the written part ends
            if (full.compare(j, rest.size(), rest) == 0) { probe("failed_repeated"); return; }
        }
    }
    if (got.size() > full.size() || full.compare(0, got.size(), got)) { size_t n = common(got, full); fail("%s: %s left an output that is no prefix of the fault-free one (equal up to %d of %d, %d): ...%s", c.path.c_str(), what, (int) n, (int) got.size(), (int) full.size(), clip(got.substr(n > 20 ? n - 20 : 0)).c_str()); }
    probe(got.size() == full.size() ? "failed_complete" : got.size() > old.size() ? "failed_partial" : "failed_empty");
}

static void flush_it(Chn& c)
{
    if (c.mgr) c.mgr->flush();
    else { Caliper k; k.flush_and_write(c.ch.body(), SnapshotView()); }
}

//   The output of a fault-free run. Complete outputs of known formats are also
// compared with what was recorded.
static std::string reference(Chn& c)
{
    NoFaults nf;
    std::string keep = c.before;
    if (keep != "<none>") file_put(c.path.c_str(), "", 0);
    int open = open_files();
    flush_it(c);
    std::string s = content(c);
    if (s == "<none>") { char b[200]; std::string l; for (int i = 0; file_at(i, b, sizeof b), *b; ++i) l += b + std::string(" "); fail("%s: nothing is written (files: %s)", c.path.c_str(), l.c_str()); }
    if (plan().get("nth") == 0 && open_files() != open) fail("%s: %d files are left open", c.path.c_str(), open_files() - open);
    if (!c.mgr && (c.kind < 2 || c.kind == 11)) {
        CaliFile f; f.parse(s);
        if (!f.errors.empty()) fail("%s: fault-free output: %s", c.path.c_str(), f.errors[0].c_str());
        std::vector<std::string> got;
        for (auto& kv : f.recs) { auto q = find_kv(kv, "seq"), t = find_kv(kv, "txt"); got.push_back((q ? *q : "?") + "=" + (t ? *t : "?")); }
        auto want = c.text;
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got != want) fail("%s: output has %d records, %d were recorded (or their contents differ)", c.path.c_str(), (int) got.size(), (int) want.size());
        if (c.kind != 11 || c.text.size()) { auto n = find_kv(f.globals, "cali.channel"); if (!n || *n != strf("c%d", c.idx)) fail("%s: globals are missing", c.path.c_str()); }
        probe("cali_outputs");
    } else if (!c.mgr && c.kind != 6 && c.kind != 9) {
        size_t pos = 0;
        for (auto& t : c.text) { std::string key = t.substr(0, t.find('=')); if ((pos = s.find(key)) == std::string::npos) fail("%s: output lacks record %s", c.path.c_str(), key.c_str()); }
    }
    probe("references");
    return s;
}

static void write_output(Chn& c, bool faults)
{
    {
        NoPreempt np;
        c.before = content(c);
    }
    std::string want = reference(c);
    {
        NoPreempt np;
        if (c.before == "<none>") file_remove(c.path.c_str());      // and its new directory
        else file_put(c.path.c_str(), c.before.data(), c.before.size());
        c.want = want; c.writing = true; c.hard = my_hard_faults();
    }
    if (faults) flush_it(c); else { NoFaults nf; flush_it(c); }
    NoPreempt np;
    c.writing = false;
    std::string got = content(c);
    check_file(c, got, my_hard_faults() != c.hard, faults ? "write" : "fault-free write");
    probe(faults ? my_hard_faults() != c.hard ? "writes_failed" : "writes_interrupted" : "writes_clean");
    if (got.size() > 60000 && c.append) file_put(c.path.c_str(), "old\n", 4);
}

// a user's or standard output stream whose device fails after some bytes
struct BadBuf : std::streambuf {
    std::string got; size_t limit; int mode; char buf[64]; bool dead = false;
    BadBuf(size_t l, int m) : limit(l), mode(m) { if (mode & 1) setp(buf, buf + sizeof buf); }
    bool put(const char* s, size_t n)
    {
        if (dead && (mode & 4)) { got.append(s, n); return true; }  // works again
        if (dead || got.size() + n > limit) {
            if (!dead) { size_t k = limit - got.size(); got.append(s, k < n ? k : n); dead = true; }
            if (mode & 2) throw std::runtime_error("device failed");
            return false;
        }
        got.append(s, n); return true;
    }
    bool drain() { size_t n = (size_t) (pptr() - pbase()); if (!n) return true; bool r = put(pbase(), n); setp(buf, buf + sizeof buf); return r; }
    int overflow(int ch) override { if (!drain()) return EOF; if (ch != EOF) { char x = (char) ch; if (!put(&x, 1)) return EOF; } return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if (n <= 0) return 0; if (!drain()) return 0; return put(s, (size_t) n) ? n : 0; }
    int sync() override { return drain() ? 0 : -1; }
};

static void check_stream(Chn& c, BadBuf& b, std::ostream& os, const std::string& want, const char* what)
{
    NoPreempt np;
    if (b.dead) {
        if (b.got.size() > want.size() || want.compare(0, b.got.size(), b.got)) fail("channel %d: failing %s got output that is no prefix of the fault-free one: %s", c.idx, what, clip(b.got).c_str());
        if (os.good()) fail("channel %d: failure of %s is hidden", c.idx, what);
        probe("stream_failed");
    } else if (b.got != want) { size_t n = common(b.got, want); fail("channel %d: output to %s differs (%d instead of %d bytes, equal up to %d): %s", c.idx, what, (int) b.got.size(), (int) want.size(), (int) n, clip(b.got.substr(n)).c_str()); }
    else probe("stream_complete");
}

static void stream_output(Chn& c, const Op& o)
{
    static const char* const Q[] = { "select * format cali", "select * format json", "select * format expand", "select * format table", "select * format tree", "select * format json-split" };
    const char* q = Q[o.c % (plan().get("nth") ? 5 : 6)];   // json-split lists attributes that other threads may create
    std::ostringstream ref;
    cali::write_report_for_query(c.ch.id(), q, 0, ref);
    std::string want = ref.str();
    BadBuf b(plan().get("f_stream") && (o.v & 1) ? choice("stream_limit", want.size() + 2) : SIZE_MAX, o.b | (o.v & 2 ? 4 : 0));
    std::ostream os(&b);
    os.width(0);
    cali::write_report_for_query(c.ch.id(), q, 0, os);
    try { os.flush(); } catch (...) { }
    check_stream(c, b, os, want, "stream");
    std::ostringstream again;
    cali::write_report_for_query(c.ch.id(), q, 0, again);
    if (again.str() != want) fail("channel %d: output differs after a failed one", c.idx);
}

static void stdout_output(Chn& c, const Op& o)
{
    std::lock_guard<std::mutex> g(cout_mx);
    static const char* const Q[] = { "select * format cali", "select * format json", "select * format expand", "select * format table" };
    const char* q = Q[o.c % 4];
    std::ostringstream ref;
    cali::write_report_for_query(c.ch.id(), q, 0, ref);
    BadBuf b(plan().get("f_stream") && (o.v & 1) ? choice("stream_limit", ref.str().size() + 2) : SIZE_MAX, o.b | (o.v & 2 ? 4 : 0));
    auto old = std::cout.rdbuf(&b);
    auto fl = std::cout.flags(); auto pr = std::cout.precision(); auto fi = std::cout.fill();
    cali::write_report_for_query(c.ch.id(), q, 0, std::cout);
    try { std::cout.flush(); } catch (...) { }
    check_stream(c, b, std::cout, ref.str(), "stdout");
    if (std::cout.flags() != fl || std::cout.precision() != pr || std::cout.fill() != fi || std::cout.width()) fail("writing output changes the format of the program's stdout");
    std::cout.rdbuf(old); std::cout.clear();
}

static std::string text_of(int c, int seq)
{
    static const char* const S[] = { "plain", "with,comma", "a=b", "back\\slash", "two\nlines", "\"quoted\"", "", " x ", "%p,=\\" };
    std::string s = strf("%d.", seq) + S[c % 9];
    if (c % 7 == 3) s += std::string((size_t) (c * 13 % 9000), (char) ('a' + c % 26));
    return s;
}

static std::atomic<bool> stop_workers { false };

static void ops_of(int t)
{
    Caliper k;
    const Plan& p = plan();
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        Chn& c = (*chns)[o.a];
        std::lock_guard<std::mutex> g(c.mx);
        switch (o.kind) {
        case SNAPS: {
            int n = 1 + o.b * 3;
            if (c.mgr) {
                c.mgr->start();
                for (int j = 0; j < n; ++j) { cali_begin_region(strf("mgr.%d", (o.c + j) % 5).c_str()); advance_ns((uint64_t) o.v); cali_end_region(strf("mgr.%d", (o.c + j) % 5).c_str()); }
                c.mgr->stop();
                break;
            }
            for (int j = 0; j < n; ++j) {
                int q; { NoPreempt np; q = next_seq++; }
                std::string s = text_of(o.c + j, q);
                Entry e[2] = { Entry(a_seq, Variant(q)), Entry(k.make_tree_entry(a_txt, Variant(CALI_TYPE_STRING, s.data(), s.size()))) };
                k.push_snapshot(c.ch.body(), SnapshotView(2, e));
                c.text.push_back(strf("%d=", q) + s);
            }
            break; }
        case WRITE_OK: write_output(c, false); break;
        case WRITE_BAD: write_output(c, true); break;
        case STREAM: if (!c.mgr) stream_output(c, o); break;
        case STDOUT: if (!c.mgr) stdout_output(c, o); break;
        case CLEAR: if (!c.mgr) { k.clear(&c.ch); c.text.clear(); } break;
        case REGION: {
            k.begin(a_reg, Variant(o.c));
            if (k.get(a_reg).value().to_int() != o.c) fail("region is not set");
            k.end(a_reg);
            break; }
        }
    }
}

// the application's other threads
static void worker(int t)
{
    Caliper k;
    for (int n = 0; n < 300 && !stop_workers; ++n) {
        k.begin(a_reg, Variant(t * 1000 + n));
        if (k.get(a_reg).value().to_int() != t * 1000 + n) fail("thread %d: region is wrong", t);
        if (n % 3 == 0) sched_yield();
        k.end(a_reg);
        if (!k.get(a_reg).empty()) fail("thread %d: region is left", t);
    }
}

static void run(const Plan& p)
{
    clean_env();
    cali_init();
    Caliper k;
    chns = new std::deque<Chn>((size_t) p.get("nchn"));
    a_seq = k.create_attribute("seq", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    a_txt = k.create_attribute("txt", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
    a_reg = k.create_attribute("reg", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
    int i = 0;
    for (Chn& c : *chns) {
        c.idx = i; c.kind = (int) p.get(strf("kind%d", i).c_str()); c.opt = (unsigned) p.get(strf("opt%d", i).c_str());
        c.dir = c.opt & 1;
        std::string dir = c.dir ? strf("/sim/d%d/sub", i) : "/sim";
        std::string name = strf("out%d%s", i, c.kind == 102 || c.kind == 103 ? ".json" : ".cali");
        c.path = dir + "/" + name;
        if (c.kind >= 100) {
            c.mgr = new cali::ConfigManager;
            c.append = c.kind == 104;
            c.mgr->add(strf(MGRS[c.kind - 100], c.path.c_str()).c_str());
            if (c.mgr->error()) harness_error("%s", c.mgr->error_msg().c_str());
            c.mgr->start(); c.mgr->stop();
        } else {
            std::map<std::string, std::string> m = { { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
            if (c.kind == 0) {
                m["CALI_SERVICES_ENABLE"] = "trace,recorder"; m["CALI_RECORDER_FILENAME"] = c.opt & 2 ? name : c.path;
                if (c.opt & 2) m["CALI_RECORDER_DIRECTORY"] = dir;
            } else {
                c.append = c.opt & 4;
                m["CALI_SERVICES_ENABLE"] = "trace,report"; m["CALI_REPORT_FILENAME"] = c.path; m["CALI_REPORT_CONFIG"] = QUERIES[c.kind]; m["CALI_REPORT_APPEND"] = c.append ? "true" : "false";
            }
            c.ch = make_channel(strf("c%d", i).c_str(), m, false);
        }
        ++i;
    }
    std::vector<std::thread> th;
    for (int t = 1; t <= p.get("nth"); ++t) th.emplace_back([t] { if (t == 1) ops_of(1); worker(t); });
    ops_of(0);
    stop_workers = true;
    for (auto& t : th) t.join();
    for (Chn& c : *chns) { std::lock_guard<std::mutex> g(c.mx); write_output(c, true); write_output(c, false); }
    if (open_files()) fail("%d files are left open", open_files());
    probe("ends");
}

// after a crash: what had reached the files
static void at_end(const Plan&)
{
    if (!chns) return;
    for (Chn& c : *chns) if (c.writing) { check_file(c, content(c), true, "crash"); probe("crashes"); }
}

PropDef sim::the_prop = { "C13", gen, run, at_end };
