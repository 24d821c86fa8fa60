// C14: reading damaged profile data fails cleanly and keeps intact records; concurrent merging.
#include "common.h"
#include <caliper/reader/CaliReader.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <caliper/reader/CalQLParser.h>
#include <caliper/reader/QueryProcessor.h>
#include <caliper/reader/QuerySpec.h>
#include <caliper/common/OutputStream.h>
#include <sstream>
using namespace sim;

enum { FILE_SYN, FILE_APP, DMG, READ };                         // op kinds
enum { TRUNC, FLIP, ZERO, CUT, DUPBYTES, JUNK, DROP, DUPL, SWAP, TAIL, NDMG };
static const char* const QUERIES[] = {
    nullptr,                                                    // collector
    "select aS,sum(aI),count() group by aS format cali",        // checked
    "select * format expand", "select * format json", "select * format table", "select * format tree", "select * format json-split",
    "select * format json(object,pretty,separate-nested)", "select * format json(records,quote-all)", "select * format cali",
    "select *,inclusive_sum(aI),percent_total(aI),inclusive_percent_total(aI),inclusive_scale(aI,2.0) group by aN format tree",
    "let r=ratio(aI,aU,10),t=truncate(aI,5),f=first(aS,aT),x=scale(aD,2),s=sum(aI,aU),l=leaf() select *,avg(aI),min(aD),max(aD),any(aS),variance(aI) group by aN,r,t,f,l format table",
    "select aN,aT,ratio(aI,aU),scale(aI,3),scale_count(2),inclusive_ratio(aI,aU),inclusive_min(aI),inclusive_max(aD) group by path format expand",
    "select * where aS,aI>3,not aB=true format format(\"%[8]aN% <%aS%> %aI%\") order by aI desc",
    "select aN as region,count() as n unit cnt,min(aP),max(aA) group by aN,aB where aN format table order by n desc,region",
};
enum { NQ = sizeof QUERIES / sizeof *QUERIES };

static void gen(Rng& r, Plan& p)
{
    int nth = r.chance(1, 2) ? 1 : (int) r.range(2, 4);
    p.set("nth", nth); p.set("mem", r.chance(1, 3));
    int nf = (int) r.range(1, 4);
    bool big = r.chance(1, 6);
    for (int f = 0; f < nf; ++f) p.add(0, r.chance(1, 4) ? FILE_APP : FILE_SYN, f, (int) r.logrange(2, big ? 120 : 30), (int) r.below(8), (int64_t) (r.next() >> 1));
    if (r.chance(3, 4)) {
        int nd = (int) r.logrange(1, 6); unsigned set = (unsigned) r.next();
        for (int i = 0; i < nd; ++i) {
            int k; do k = (int) r.below(NDMG); while (!(set >> k & 1) && !r.chance(1, 4));
            p.add(0, DMG, (int) r.below(nf), k, (int) r.logrange(1, 600), (int64_t) (r.next() >> 1));
        }
    }
    int nr = (int) r.range(nf, nf + 4), q = (int) r.below(NQ);
    for (int i = 0; i < nr; ++i) p.add(nth == 1 ? 0 : (int) r.below(nth), READ, i < nf ? i : (int) r.below(nf), r.chance(1, 2) ? 0 : r.chance(1, 2) ? q : (int) r.below(NQ), r.chance(1, 4));
    if (r.chance(1, 3)) p.set("f_read_eintr", r.logrange(10000, 500000));
    if (r.chance(1, 3)) p.set("f_read_short", r.logrange(10000, 900000));
    if (r.chance(1, 6)) p.set("f_read_eio", r.logrange(5000, 300000));
    if (r.chance(1, 12)) p.set("f_open_r", r.logrange(10000, 500000));
    gen_schedule(r, p, 40000);
}

// ---------------------------------------------------------------- files and what they say
struct FNode { uint64_t id, attr, parent; std::string key; };   // parent 0: none;  key: attribute=value path, unique
struct FRec { KVs kv; std::vector<uint64_t> deps; };
struct Line { std::string text; int node = -1, rec = -1, glob = -1; };
struct File {
    std::string path;
    std::vector<FNode> nodes; std::vector<FRec> recs, globs;
    std::vector<Line> lines;
    std::string text;                       // as stored (damaged)
    bool damaged = false, bytes = false;
    // expectation
    int prefix = 0;                         // records before the first damage
    std::vector<int> sure;                  // records that must be delivered, in order
    std::vector<int> all;                   // whole-line damage only: the record of every delivered one
    std::vector<int> gsure;
};
struct Sys { std::vector<File> files; };

static const struct AttrDef { const char* name; int type, prop; } ATTRS[] = {      // type: id of the type node
    { "aN", 3, CALI_ATTR_NESTED }, { "aS", 3, CALI_ATTR_ASVALUE }, { "aI", 1, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE }, { "aU", 2, CALI_ATTR_ASVALUE },
    { "aD", 5, CALI_ATTR_ASVALUE }, { "aB", 6, CALI_ATTR_ASVALUE }, { "aT", 3, 0 }, { "aP", 1, CALI_ATTR_NESTED }, { "aA", 4, CALI_ATTR_ASVALUE }, { "aX", 5, 0 },
    { "gS", 3, CALI_ATTR_GLOBAL }, { "gV", 1, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE }, { "hid", 3, CALI_ATTR_HIDDEN },
};
enum { NA = sizeof ATTRS / sizeof *ATTRS };

static std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s) { if (strchr("\\,=\"\n", c)) o += '\\'; o += c == '\n' ? 'n' : c; }
    return o;
}
static std::string value(Rng& r, int type)
{
    static const char* const S[] = { "main", "foo", "a,b=c", "back\\slash", "two\nlines", "x", "", "trail\\", "\"q\"", "foo.bar", "mainloop" };
    switch (type) {
    case 1: return std::to_string((int64_t) r.logrange(1, 100000) * (r.chance(1, 4) ? -1 : 1));
    case 2: return std::to_string(r.chance(1, 8) ? UINT64_MAX - r.below(3) : r.logrange(1, 1000000));
    case 3: { std::string s = S[r.below(11)]; if (s.empty()) s = "n" + std::to_string(r.below(20)); if (r.chance(1, 30)) s += std::string(r.range(50, 400), 'y'); return s; }
    case 4: return strf("%" PRIx64, r.logrange(1, 1ull << 40));
    case 5: return Variant((double) r.range(-4000, 4000) / 8).to_string();
    case 6: return r.chance(1, 2) ? "true" : "false";
    default: return "0";
    }
}

// a valid stream, laid out as CaliWriter does it: nodes before their first use
static void synth(File& f, int nrec, int flavour, uint64_t seed)
{
    Rng r; r.seed(seed);
    uint64_t next = r.chance(1, 3) ? 12 : r.range(12, 400);
    std::map<std::string, uint64_t> ids; std::map<uint64_t, size_t> at;   // path -> id; id -> index
    std::vector<uint64_t> attr_id(NA, 0);
    auto put = [&](uint64_t attr, const std::string& data, uint64_t parent, const std::string& key) {
        auto it = ids.find(key);
        if (it != ids.end()) return it->second;
        uint64_t id = next; next += r.chance(1, 10) ? r.range(1, 20) : 1;
        ids[key] = id; at[id] = f.nodes.size();
        f.nodes.push_back({ id, attr, parent, key });
        Line l; l.node = (int) f.nodes.size() - 1;
        l.text = strf("__rec=node,id=%" PRIu64 ",attr=%" PRIu64 ",data=", id, attr) + esc(data) + (parent ? strf(",parent=%" PRIu64, parent) : "");
        f.lines.push_back(l);
        return id;
    };
    auto attr = [&](int a) {
        if (!attr_id[a]) {
            uint64_t parent = ATTRS[a].type;
            if (ATTRS[a].prop) parent = put(10, std::to_string(ATTRS[a].prop | CALI_ATTR_SCOPE_THREAD), parent, strf("t%d,p%d", ATTRS[a].type, ATTRS[a].prop));
            attr_id[a] = put(8, ATTRS[a].name, parent, strf("t%d,p%d,%s", ATTRS[a].type, ATTRS[a].prop, ATTRS[a].name));
        }
        return attr_id[a];
    };
    auto deps = [&](std::vector<uint64_t>& d, uint64_t id) {        // id and everything it is made of
        std::function<void(uint64_t)> go = [&](uint64_t x) {
            if (x < 12 || std::find(d.begin(), d.end(), x) != d.end()) return;
            d.push_back(x); FNode& n = f.nodes[at[x]]; go(n.attr); go(n.parent);
        };
        go(id);
    };
    // a pool of paths
    struct Path { uint64_t id = 0; KVs kv; };
    std::vector<Path> pool(1);
    auto new_path = [&](bool glob) {
        Path b = glob ? Path() : pool[r.below(pool.size())];
        int n = (int) r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            static const int REF[] = { 0, 0, 0, 6, 6, 7, 9 };
            int a = glob ? 10 : REF[r.below(7)];
            std::string v = value(r, ATTRS[a].type), key = std::to_string(b.id) + "/" + ATTRS[a].name + "=" + v;
            uint64_t aid = attr(a);
            b.id = put(aid, v, b.id, key); b.kv.push_back({ ATTRS[a].name, v });
        }
        return b;
    };
    for (int i = 0; i < nrec; ++i) {
        FRec rec; std::string ref, at_, da;
        int nref = (int) r.below(flavour & 1 ? 3 : 2);
        for (int k = 0; k < nref; ++k) {
            if (pool.size() < 2 || r.chance(1, 3)) pool.push_back(new_path(false));
            Path& b = pool[r.range(1, pool.size() - 1)];
            ref += "=" + std::to_string(b.id); rec.kv.insert(rec.kv.end(), b.kv.begin(), b.kv.end()); deps(rec.deps, b.id);
        }
        for (int a = 0; a < NA - 3; ++a) {
            if (!(ATTRS[a].prop & CALI_ATTR_ASVALUE) || !r.chance(flavour & 2 ? 2 : 1, 3)) continue;
            std::string v = value(r, ATTRS[a].type); uint64_t id = attr(a);
            at_ += "=" + std::to_string(id); da += "=" + esc(v); rec.kv.push_back({ ATTRS[a].name, v }); deps(rec.deps, id);
        }
        if (ref.empty() && at_.empty()) continue;
        if (r.chance(1, 20)) put(attr(12), value(r, 3), pool.back().id, strf("hid%d", i));
        f.recs.push_back(rec);
        Line l; l.rec = (int) f.recs.size() - 1;
        l.text = "__rec=ctx" + (ref.empty() ? "" : ",ref" + ref) + (at_.empty() ? "" : ",attr" + at_ + ",data" + da);
        f.lines.push_back(l);
    }
    if (flavour & 4) {
        FRec g; std::string v = value(r, 1); uint64_t id = attr(11); deps(g.deps, id); g.kv.push_back({ "gV", v });
        Path b = new_path(true); deps(g.deps, b.id); g.kv.insert(g.kv.end(), b.kv.begin(), b.kv.end());
        f.globs.push_back(g);
        Line l; l.glob = (int) f.globs.size() - 1; l.text = strf("__rec=globals,ref=%" PRIu64 ",attr=%" PRIu64 ",data=", b.id, id) + v;
        f.lines.push_back(l);
    }
}

// a stream written by the library itself; its contents according to the independent parser
static void from_app(File& f, int nrec, int flavour, uint64_t seed)
{
    Rng r; r.seed(seed);
    Channel ch = make_channel(f.path.c_str() + 5, { { "CALI_SERVICES_ENABLE", "trace,recorder" }, { "CALI_RECORDER_FILENAME", f.path }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
    std::vector<Attribute> at;
    Caliper c;
    for (int a = 0; a < 8; ++a) if (ATTRS[a].type != 4)
        at.push_back(c.create_attribute(ATTRS[a].name, ATTRS[a].type == 1 ? CALI_TYPE_INT : ATTRS[a].type == 2 ? CALI_TYPE_UINT : ATTRS[a].type == 3 ? CALI_TYPE_STRING : ATTRS[a].type == 5 ? CALI_TYPE_DOUBLE : CALI_TYPE_BOOL, ATTRS[a].prop));
    std::vector<Attribute> open;
    for (int i = 0; i < nrec; ++i) {
        Attribute a = at[r.below(at.size())];
        int ty = a.type() == CALI_TYPE_INT ? 1 : a.type() == CALI_TYPE_UINT ? 2 : a.type() == CALI_TYPE_STRING ? 3 : a.type() == CALI_TYPE_DOUBLE ? 5 : 6;
        std::string v = value(r, ty);
        static std::deque<std::string> keep; keep.push_back(v);    // by-value strings are not copied
        Variant vv = ty == 3 ? Variant(keep.back().c_str()) : Variant::from_string(a.type(), v.c_str());
        if (a.store_as_value()) c.set(a, vv);
        else if (open.size() < 6 && r.chance(2, 3)) { c.begin(a, vv); open.push_back(a); }
        else if (open.size()) { c.end(open.back()); open.pop_back(); }
        if (r.chance(2, 3)) c.push_snapshot(ch.body(), SnapshotView());
    }
    while (open.size()) { c.end(open.back()); open.pop_back(); }
    for (auto& a : at) if (a.store_as_value()) c.end(a);
    c.flush_and_write(ch.body(), SnapshotView());
    c.delete_channel(ch);
    NoPreempt np;
    std::string s = sim_file(f.path.c_str());
    CaliFile whole; std::map<std::string, size_t> seen; CaliFile cf;
    std::map<uint64_t, size_t> at_id;
    std::function<void(std::vector<uint64_t>&, uint64_t)> go = [&](std::vector<uint64_t>& d, uint64_t x) {
        if (x < 12 || std::find(d.begin(), d.end(), x) != d.end()) return;
        d.push_back(x); FNode& n = f.nodes[at_id[x]]; go(d, n.attr); go(d, n.parent);
    };
    for (size_t pos = 0, e; pos < s.size() && (e = s.find('\n', pos)) != std::string::npos; pos = e + 1) {
        Line l; l.text = s.substr(pos, e - pos);
        cf.line(l.text);
        auto num = [&](const char* k) { size_t q = l.text.find(k); return q == std::string::npos ? 0 : (uint64_t) strtoull(l.text.c_str() + q + strlen(k), nullptr, 10); };
        if (!l.text.compare(0, 10, "__rec=node")) {
            // the id and attribute come first, the parent last
            uint64_t id = num("id="), par = 0; size_t q = l.text.rfind(",parent=");
            if (q != std::string::npos) par = strtoull(l.text.c_str() + q + 8, nullptr, 10);
            at_id[id] = f.nodes.size(); l.node = (int) f.nodes.size();
            f.nodes.push_back({ id, num("attr="), par, "app" + std::to_string(id) });
        } else {
            bool ctx = !l.text.compare(0, 9, "__rec=ctx");
            FRec rec; rec.kv = ctx ? cf.recs.back() : KVs();
            for (auto& kv : rec.kv) if (kv.first == "aD") kv.second = Variant(strtod(kv.second.c_str(), nullptr)).to_string();
            // all ids in the reference and attribute lists
            for (const char* k : { ",ref=", ",attr=" }) {
                size_t q = l.text.find(k);
                if (q == std::string::npos) continue;
                const char* t = l.text.c_str() + q + strlen(k);
                for (char* e2; ; t = e2 + 1) { go(rec.deps, strtoull(t, &e2, 10)); if (*e2 != '=') break; }
            }
            (ctx ? l.rec : l.glob) = (int) (ctx ? f.recs : f.globs).size();
            (ctx ? f.recs : f.globs).push_back(rec);
        }
        f.lines.push_back(l);
    }
    if (!cf.errors.empty()) fail("the library wrote an invalid stream: %s", cf.errors[0].c_str());
    (void) flavour;
}

struct Doc { std::vector<Line> lines; };

static void damage(File& f, const std::vector<const Op*>& ops)
{
    // whole-line damage first, byte damage on the resulting text
    std::vector<Line> ls = f.lines;
    for (const Op* o : ops) {
        if (ls.empty()) break;
        uint64_t v = (uint64_t) o->v; size_t i = v % ls.size(), n = 1 + (size_t) o->c % 4;
        if (o->b == TAIL) i = ls.size() - 1 - std::min(ls.size() - 1, (size_t) (v % 3));
        switch (o->b) {
        case DROP: ls.erase(ls.begin() + i, ls.begin() + std::min(ls.size(), i + n)); f.damaged = true; probe("lines_lost"); break;
        case DUPL: { std::vector<Line> c(ls.begin() + i, ls.begin() + std::min(ls.size(), i + n)); size_t to = i + c.size() + (v >> 20) % (ls.size() - i - c.size() + 1); ls.insert(ls.begin() + to, c.begin(), c.end()); f.damaged = true; probe("lines_duplicated"); } break;
        case SWAP: { size_t j = (v >> 20) % 3 ? (v >> 22) % ls.size() : std::min(ls.size() - 1, i + 1); if (i != j) { std::swap(ls[i], ls[j]); f.damaged = true; probe("lines_reordered"); } } break;
        default: break;
        }
    }
    std::string s;
    for (auto& l : ls) s += l.text + "\n";
    for (const Op* o : ops) {
        if (s.empty() || (o->b >= DROP && o->b != TAIL)) continue;
        uint64_t v = (uint64_t) o->v; size_t i = v % s.size(), n = std::min((size_t) o->c, s.size() - i);
        f.damaged = f.bytes = true;
        switch (o->b) {
        case TRUNC: s.resize(i); probe("truncated"); break;
        case TAIL: s.resize(s.size() - std::min(s.size(), (size_t) o->c % 40 + 1)); probe("truncated"); break;
        case FLIP: s[i] ^= (char) (1u << ((v >> 40) % 8)); probe("bits_flipped"); break;
        case ZERO: memset(&s[i], 0, n); probe("blocks_zeroed"); break;
        case CUT: s.erase(i, n); probe("blocks_lost"); break;
        case DUPBYTES: s.insert(i, s.substr(i, n)); probe("blocks_duplicated"); break;
        case JUNK: { Rng r; r.seed(v); static const char al[] = "0123456789=,\\\n\0_recidatpn\xff-"; for (size_t k = 0; k < n; ++k) s[i + k] = al[r.below(sizeof al - 1)]; probe("blocks_garbled"); } break;
        }
    }
    f.text = s;
}

static void expect(File& f)
{
    std::map<std::string, std::vector<const Line*>> by;
    for (auto& l : f.lines) by[l.text].push_back(&l);
    std::set<uint64_t> have; bool unsure = false, first = true; size_t idx = 0;
    f.prefix = 0;
    for (size_t pos = 0; pos < f.text.size(); ++idx) {
        size_t e = f.text.find('\n', pos); bool term = e != std::string::npos;
        std::string t = f.text.substr(pos, term ? e - pos : std::string::npos);
        pos = term ? e + 1 : f.text.size();
        if (first && !(idx < f.lines.size() && term && f.lines[idx].text == t)) first = false;
        auto it = by.find(t);
        const Line* l = it == by.end() || (!term && !f.damaged) ? nullptr : it->second[0];
        if (!l) { if (t.find("node") != std::string::npos || t.find("id=") != std::string::npos) unsure = true; continue; }
        if (l->node >= 0) {
            FNode& n = f.nodes[l->node];
            if ((n.parent < 12 || have.count(n.parent)) && (n.attr < 12 || have.count(n.attr))) have.insert(n.id);
            else if (!have.count(n.id)) probe("orphan_nodes");
        }
        auto ok = [&](const FRec& r) { for (uint64_t d : r.deps) if (!have.count(d)) return false; return true; };
        if (l->rec >= 0) {
            f.all.push_back(l->rec);
            if (!unsure && ok(f.recs[l->rec])) f.sure.push_back(l->rec);
            if (first) ++f.prefix;
        }
        if (l->glob >= 0 && !unsure && ok(f.globs[l->glob])) f.gsure.push_back(l->glob);
    }
}

// ---------------------------------------------------------------- reading
static Sys* sys;
static cali::CaliperMetadataDB* db;
struct Sink { std::mutex mx; cali::QuerySpec spec; std::ostringstream out; cali::OutputStream os; cali::QueryProcessor* qp = nullptr; bool bad = false; std::map<std::string, std::pair<int64_t, uint64_t>> want; };
static std::map<int, Sink>* sinks;
static std::mutex sinks_mx;
struct Got { int file; bool error, io; std::vector<KVs> kv; std::vector<cali::EntryList> rec; std::string msg; };
static std::deque<Got>* gots;

static KVs decode_rec(cali::CaliperMetadataAccessInterface& d, const cali::EntryList& rec)
{
    KVs out;
    for (const Entry& e : rec) {
        if (e.is_reference()) decode_node(d, e.node(), out, "read record");
        else if (e.is_immediate()) { Attribute a = d.get_attribute(e.attribute()); if (!a) fail("a delivered record has an entry without attribute"); out.push_back({ a.name(), e.value().to_string() }); }
    }
    return out;
}

static bool sub_multiset(const KVs& a, const KVs& of)
{
    KVs x = of;
    for (auto& p : a) { auto it = std::find(x.begin(), x.end(), p); if (it == x.end()) return false; x.erase(it); }
    return true;
}

static void do_read(const Op& o)
{
    File& f = sys->files[o.a]; int q = o.b;
    cali::CaliReader rd; Got g; g.file = o.a;
    uint64_t hard = my_hard_faults();
    cali::SnapshotProcessFn proc; Sink* s = nullptr;
    if (q) {
        std::lock_guard<std::mutex> l(sinks_mx);
        s = &(*sinks)[q];
        if (!s->qp) {
            cali::CalQLParser p(QUERIES[q]);
            if (p.error()) harness_error("query %d: %s", q, p.error_msg().c_str());
            s->spec = p.spec(); s->os.set_stream(&s->out); s->qp = new cali::QueryProcessor(s->spec, s->os);
        }
    }
    proc = [&](cali::CaliperMetadataAccessInterface& d, const cali::EntryList& rec) {
        { NoPreempt np; (void) np; }
        if (s && q >= 2 && q < 10) { std::lock_guard<std::mutex> l(s->mx); (*s->qp)(d, rec); }   // formatters are not made for sharing
        else if (s) (*s->qp)(d, rec);
        else g.rec.push_back(rec), g.kv.push_back(decode_rec(d, rec));
    };
    // read into a database of its own, whose records are merged into the common one
    cali::CaliperMetadataDB* src = o.c ? new cali::CaliperMetadataDB : db;
    if (o.c) proc = [inner = proc](cali::CaliperMetadataAccessInterface& d, const cali::EntryList& rec) { inner(*db, db->merge_snapshot(d, rec)); };
    unsigned nodes = 0;
    cali::NodeProcessFn nproc = [&](cali::CaliperMetadataAccessInterface& d, const cali::Node* n) { ++nodes; if (d.node(n->id()) != n) fail("node %d cannot be found", (int) n->id()); };
    if (plan().get("mem")) { NoFaults nf; std::istringstream is(f.text); rd.read(is, *src, nproc, proc); }
    else rd.read(f.path, *src, nproc, proc);
    if (o.c) { db->import_globals(*src); delete src; probe("merged_databases"); }
    g.error = rd.error(); g.io = my_hard_faults() != hard; g.msg = rd.error_msg();
    if (g.io) { probe("reads_failed"); if (!g.error) fail("%s: a failing read was not reported (the data looks complete)", f.path.c_str()); }
    else if (!f.damaged && g.error) fail("%s: an intact file was reported as damaged: %s", f.path.c_str(), g.msg.c_str());
    NoPreempt np;
    probe(f.damaged ? "damaged_reads" : "intact_reads");
    if (s) {
        std::lock_guard<std::mutex> l(sinks_mx);
        if (f.damaged || g.io) s->bad = true;
        else if (q == 1) for (auto& r : f.recs) {
            auto k = find_kv(r.kv, "aS"), v = find_kv(r.kv, "aI");
            auto& w = s->want[k ? *k : "(none)"]; ++w.second; if (v) w.first += strtoll(v->c_str(), nullptr, 10);
        }
        return;
    }
    auto W = [&](int i) -> const KVs& { return f.recs[i].kv; };
    if (!f.damaged && !g.io) {
        if (g.kv.size() != f.recs.size()) fail("%s: %d of %d records of an intact file were delivered", f.path.c_str(), (int) g.kv.size(), (int) f.recs.size());
    }
    if (g.io) {         // a prefix, the last one may be incomplete
        for (size_t i = 0; i + 1 < g.kv.size() && (int) i < f.prefix; ++i) if (g.kv[i] != W((int) i)) fail("%s: record %d is %s instead of %s (read error later)", f.path.c_str(), (int) i, show(g.kv[i]).c_str(), show(W((int) i)).c_str());
    } else {
        for (int i = 0; i < f.prefix; ++i) {
            if (i >= (int) g.kv.size()) fail("%s: only %d of %d records before the damage were delivered", f.path.c_str(), (int) g.kv.size(), f.prefix);
            if (g.kv[i] != W(i)) fail("%s: record %d before the damage is %s instead of %s", f.path.c_str(), i, show(g.kv[i]).c_str(), show(W(i)).c_str());
        }
        size_t at = 0;
        for (int i : f.sure) {
            size_t k = at;
            while (k < g.kv.size() && g.kv[k] != W(i)) ++k;
            if (k == g.kv.size()) fail("%s: intact record %d (%s) after the damage was not delivered unchanged", f.path.c_str(), i, show(W(i)).c_str());
            at = k + 1; probe("intact_records");
        }
        if (!f.bytes && f.damaged) {
            if (g.kv.size() != f.all.size()) fail("%s: %d records delivered, the file has %d", f.path.c_str(), (int) g.kv.size(), (int) f.all.size());
            for (size_t i = 0; i < g.kv.size(); ++i)
                if (!sub_multiset(g.kv[i], W(f.all[i]))) fail("%s: record %s was delivered as %s, which has data that was never part of it", f.path.c_str(), show(W(f.all[i])).c_str(), show(g.kv[i]).c_str());
        }
    }
    gots->push_back(std::move(g));
}

static void run(const Plan& p)
{
    clean_env();
    sys = new Sys; sinks = new std::map<int, Sink>; gots = new std::deque<Got>;
    int nf = 0;
    for (int i = 0; i < p.nops; ++i) if (p.ops[i].kind <= FILE_APP) nf = std::max(nf, p.ops[i].a + 1);
    sys->files.resize(nf);
    for (int i = 0; i < nf; ++i) sys->files[i].path = strf("/sim/in%d.cali", i);
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.kind > FILE_APP) continue;
        NoFaults nofault;
        if (o.kind == FILE_SYN) { NoPreempt np; synth(sys->files[o.a], o.b, o.c, o.v); } else from_app(sys->files[o.a], std::min(o.b, 40), o.c, o.v);
    }
    {
        NoPreempt np;
        for (int fi = 0; fi < nf; ++fi) {
            std::vector<const Op*> ops;
            for (int i = 0; i < p.nops; ++i) if (p.ops[i].kind == DMG && p.ops[i].a == fi) ops.push_back(&p.ops[i]);
            damage(sys->files[fi], ops); expect(sys->files[fi]);
            file_put(sys->files[fi].path.c_str(), sys->files[fi].text.data(), sys->files[fi].text.size());
        }
    }
    db = new cali::CaliperMetadataDB;
    auto body = [&](int t) { for (int i = 0; i < p.nops; ++i) if (p.ops[i].kind == READ && p.ops[i].th == t && p.ops[i].a < nf) do_read(p.ops[i]); };
    int nth = (int) p.get("nth");
    if (nth == 1) body(0); else run_threads(nth - 1, true, body);
    faults_off();
    // nothing delivered earlier was changed by what was read later
    for (auto& g : *gots) for (size_t i = 0; i < g.rec.size(); ++i) {
        KVs now = decode_rec(*db, g.rec[i]);
        if (now != g.kv[i]) fail("a record read earlier changed from %s to %s", show(g.kv[i]).c_str(), show(now).c_str());
        observe(show(now).c_str());
    }
    // equal paths of intact files are merged
    bool all_intact = true;
    for (auto& f : sys->files) all_intact &= !f.damaged;
    std::map<std::string, const Node*> ref; std::map<std::string, cali_id_t> names;
    for (auto& g : *gots) for (auto& r : g.rec) for (auto& e : r) if (e.is_reference() && all_intact) {
        KVs kv; decode_node(*db, e.node(), kv);
        auto x = ref.insert({ show(kv), e.node() });
        bool app = false; for (int i = 0; i < p.nops; ++i) app |= p.ops[i].kind == FILE_APP;
        if (!app && show(kv).size() < 800 && x.first->second != e.node()) fail("path %s exists twice in the merged data", show(kv).c_str());
    }
    for (auto& a : db->get_all_attributes()) { if (!names.insert({ a.name(), a.id() }).second) fail("attribute %s is listed twice", a.name_c_str()); if (db->get_attribute(a.name()).id() != a.id() || db->get_attribute(a.id()).name() != a.name()) fail("attribute %s cannot be looked up", a.name_c_str()); }
    // globals
    std::vector<Entry> gl = db->get_globals();
    KVs gkv = decode_rec(*db, gl);
    if (all_intact && p.get("nth") == 1) {
        std::string last; std::set<std::string> refs;
        for (int i = 0; i < p.nops; ++i) if (p.ops[i].kind == READ && p.ops[i].a < nf) { if (p.ops[i].c) { last.clear(); refs.clear(); } for (auto& g : sys->files[p.ops[i].a].globs) for (auto& kv : g.kv) { if (kv.first == "gV") last = kv.second; else refs.insert(kv.second); } }   // (import_globals replaces the globals)
        bool io = false; for (auto& g : *gots) io |= g.io;
        if (!io && !faults_injected() && !last.empty()) {
            auto v = all_kv(gkv, "gV"); if (v.size() != 1 || v[0] != last) fail("global value is %s after the merge, %s was read last", show(gkv).c_str(), last.c_str());
            auto s = all_kv(gkv, "gS"); for (auto& x : refs) if (std::find(s.begin(), s.end(), x) == s.end()) fail("global gS=%s was lost in the merge: %s", x.c_str(), show(gkv).c_str());
        }
    }
    for (auto& kv : *sinks) {
        Sink& s = kv.second;
        s.qp->flush(*db);
        observe(s.out.str().c_str());
        // (bytes damaged in another file may have redefined an attribute under the same name)
        for (auto& f : sys->files) s.bad |= f.bytes;
        if (s.bad) { probe("queries_damaged"); continue; }
        probe("queries_intact");
        if (kv.first == 1) {
            NoPreempt np;
            CaliFile cf; cf.parse(s.out.str());
            for (auto& e : cf.errors) if (e.find("defined twice") == std::string::npos) fail("query output is damaged: %s", e.c_str());
            decltype(s.want) got;
            for (auto& r : cf.recs) { auto k = find_kv(r, "aS"); auto& w = got[k ? *k : "(none)"]; if (w.second) fail("key %s appears twice", k ? k->c_str() : "(none)"); w = { kv_int(r, "sum#aI", 0), (uint64_t) kv_int(r, "count", 0) }; }
            for (auto& w : s.want) {
                auto it = got.find(w.first);
                if (it == got.end()) fail("key %s is missing from the merged query result", w.first.c_str());
                if (it->second != w.second) fail("key %s: sum %" PRId64 ", count %" PRIu64 " in the merged result; the files have %" PRId64 ", %" PRIu64, w.first.c_str(), it->second.first, it->second.second, w.second.first, w.second.second);
            }
            if (got.size() != s.want.size()) fail("the merged query result has extra keys");
            probe("query_checked");
        }
    }
    for (auto& kv : *sinks) delete kv.second.qp;
    delete db;
}

sim::PropDef sim::the_prop = { "C14", gen, run, nullptr };
