// C22: the answer to a query depends on the records only - not on their order, on the threads
// that deliver them, or on the number of steps in which partial results are combined.
#include "qmodel.h"
#include <caliper/common/OutputStream.h>
#include <caliper/reader/Preprocessor.h>
#include <caliper/reader/QueryProcessor.h>
#include <caliper/reader/RecordSelector.h>
using namespace sim;

enum { REC };
enum Mode { M_AGG, M_STAGED, M_PLAIN };
enum Fmt { EXPAND, JSON, JSONSPLIT, TABLE, TREE, CALI, USER, NFMT };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 5 : 3);
    p.set("nth", nth);
    p.set("mode", r.below(3));
    p.set("fmt", r.below(NFMT));
    int nm = (int) r.range(1, 6);
    p.set("nmet", nm);
    p.set("ops", r.chance(1, 2) ? r.next() & ((1 << NAGG) - 1) : 1 << r.below(NAGG) | r.below(8));
    p.set("group", r.below(7));
    p.set("shuffle", r.next() >> 8);
    p.set("own_metrics", r.chance(1, 4)); p.set("two_keys", r.chance(1, 3)); p.set("entry_order", r.chance(1, 2));
    p.set("online", r.chance(1, 3));
    p.set("let", r.chance(1, 2) ? r.range(1, 9) : 0);
    p.set("letif", r.chance(1, 3) ? r.range(1, 10) : 0);
    p.set("where1", r.chance(1, 2) ? r.range(1, 10) : 0);
    p.set("where2", r.chance(1, 4) ? r.range(1, 10) : 0);
    p.set("thresh", r.range(0, 400));
    p.set("select", r.below(3));
    p.set("order", r.below(4));
    p.set("jopt", r.below(16));
    int per = (int) r.range(1, r.chance(1, 6) ? 30 : 10);
    for (int t = 0; t <= nth; ++t) {
        int n = r.chance(1, 8) ? 0 : (int) r.range(1, per);
        for (int i = 0; i < n; ++i) p.add(t, REC, (int) r.below(r.chance(1, 2) ? 5 : 40), (int) r.below(16), (int) r.below(1 << 16), (int64_t) r.next() >> 1);
    }
    gen_schedule(r, p, 1000 + (nth + 1) * per * 300);
}

// ---------------------------------------------------------------- the query
struct Cond { int kind = 0, m = 0; double v = 0; };
static Cond  where[2], letif;
static int   let_kind, let_a, let_b, let_x; // result is metric let_x
static double let_f;
static int   mode, fmt;
static std::vector<std::string> sel; // selected attributes, all if empty
static std::map<std::string, std::string> alias;
static std::string order_attr; static bool order_desc;

static std::string cond_text(const Cond& c)
{
    std::string m = met(c.m), v = strf("%g", c.v);
    switch (c.kind) {
    case 1: return "region";
    case 2: return "not stage";
    case 3: return "stage=p0";
    case 4: return "not stage=p1";
    case 5: return m + ">" + v;
    case 6: return m + "<" + v;
    case 7: return "region=aa";
    case 8: return "not k";
    case 9: return m;
    case 10: return "k=3";
    }
    return "";
}
static bool cond_holds(const Cond& c, const Rec& r)
{
    auto m = r.m.find(c.m);
    switch (c.kind) {
    case 1: return !r.path.empty();
    case 2: return r.phase < 0;
    case 3: return r.phase == 0;
    case 4: return r.phase != 1;
    case 5: return m != r.m.end() && m->second > c.v;
    case 6: return m != r.m.end() && m->second < c.v;
    case 7: return std::find(r.path.begin(), r.path.end(), "aa") != r.path.end();
    case 8: return !r.has_k;
    case 9: return m != r.m.end();
    case 10: return r.has_k && r.k == 3;
    }
    return true;
}
static std::string let_text()
{
    std::string a = met(let_a), b = met(let_b), q = "let " + met(let_x) + "=";
    switch (let_kind) {
    case 1: q += strf("scale(%s,%g)", a.c_str(), let_f); break;
    case 2: q += strf("ratio(%s,%s,%g)", a.c_str(), b.c_str(), let_f); break;
    case 3: q += strf("ratio(%s,%s)", a.c_str(), b.c_str()); break;
    case 4: q += strf("truncate(%s,%g)", a.c_str(), let_f); break;
    case 5: q += strf("truncate(%s)", a.c_str()); break;
    case 6: q += strf("first(%s,%s)", a.c_str(), b.c_str()); break;
    case 7: q += strf("sum(%s,%s)", a.c_str(), b.c_str()); break;
    case 8: q += strf("sum(%s)", a.c_str()); break;
    case 9: q += strf("first(nosuch,%s)", a.c_str()); break;
    }
    if (letif.kind) q += " if " + cond_text(letif);
    return q + " ";
}
static void let_apply(Rec& r)
{
    if (!let_kind || (letif.kind && !cond_holds(letif, r))) return;
    auto a = r.m.find(let_a), b = r.m.find(let_b), e = r.m.end();
    switch (let_kind) {
    case 1: if (a != e) r.m[let_x] = let_f * a->second; break;
    case 2: if (a != e && b != e && b->second != 0) r.m[let_x] = let_f * a->second / b->second; break;
    case 3: if (a != e && b != e && b->second != 0) r.m[let_x] = a->second / b->second; break;
    case 4: if (a != e) r.m[let_x] = a->second - std::fmod(a->second, let_f); break;
    case 5: if (a != e) r.m[let_x] = a->second - std::fmod(a->second, 1.0); break;
    case 6: if (a != e) r.m[let_x] = a->second; else if (b != e) r.m[let_x] = b->second; break;
    case 7: if (a != e || b != e) r.m[let_x] = (a != e ? a->second : 0) + (b != e ? b->second : 0); break;
    case 8: case 9: if (a != e) r.m[let_x] = a->second; break;
    }
}

static std::string format_text()
{
    static const char* const f[NFMT] = { "expand", "json", "json-split", "table", "tree", "cali", "" };
    std::string s = f[fmt];
    int o = (int) plan().get("jopt");
    if (fmt == JSON) s += o & 1 ? "(pretty)" : o & 2 ? "(object)" : o & 4 ? "(quote-all)" : o & 8 ? "(records,separate-nested)" : "";
    if (fmt == USER) {
        s = "format(\"region:%region%|stage:%[7]stage%|k:%k%";
        for (int i = 0; i < MAXMET && i <= std::max(nmet, let_kind ? let_x : 0); ++i) s += strf("|m%d:%%[%d]m%d%%", i, 4 + i, i);
        s += "\")";
    }
    return s;
}

static std::string full_query()
{
    std::string q;
    if (let_kind) q += let_text();
    if (!sel.empty()) {
        q += "select ";
        for (size_t i = 0; i < sel.size(); ++i) q += (i ? "," : "") + sel[i] + (alias.count(sel[i]) ? " as " + alias[sel[i]] : "");
        q += " ";
    }
    if (where[0].kind) q += "where " + cond_text(where[0]) + (where[1].kind ? "," + cond_text(where[1]) : "") + " ";
    if (mode != M_PLAIN) q += query_text(false) + " ";
    q += "format " + format_text();
    if (!order_attr.empty()) q += " order by " + order_attr + (order_desc ? " desc" : "");
    return q;
}

// ---------------------------------------------------------------- reading the output
struct Row {
    std::vector<std::string> path; int phase = -1, k = 0, j = -1; bool has_k = false; std::map<std::string, double> vals;
    bool empty() const { return path.empty() && phase < 0 && !has_k && vals.empty(); }
    std::string str() const
    {
        std::string s = key_of(path, phase, has_k, k);
        for (auto& v : vals) s += (let_kind == 2 || let_kind == 3) && v.first == met(let_x) ? " " + v.first : strf(" %s=%.7g", v.first.c_str(), v.second); // ratios are rounded
        return s;
    }
};
static std::vector<Row> rows;

static void put(Row& row, std::string n, const std::string& v)
{
    for (auto& a : alias) if (a.second == n) n = a.first; else if (a.first == n) fail("column %s has an alias but is shown under its own name", n.c_str());
    if (v.empty() || n.compare(0, 5, "cali.") == 0 || n.compare(0, 10, "attribute.") == 0) return; // internal attributes
    if (n == "region" || n == "path") { std::istringstream ps(v); std::string x; while (std::getline(ps, x, '/')) row.path.push_back(x); }
    else if (n == "stage") { row.phase = v == "p0" ? 0 : v == "p1" ? 1 : 99; }
    else if (n == "k") { row.has_k = true; row.k = atoi(v.c_str()); }
    else if (n == "j") { row.j = atoi(v.c_str()); }
    else {
        char* e; double d = strtod(v.c_str(), &e);
        if (*e) fail("the output has the value <%s> for %s", v.c_str(), n.c_str());
        if (row.vals.count(n)) fail("the output has two values for %s in one record", n.c_str());
        row.vals[n] = d;
    }
}
static std::string trim(const std::string& s)
{
    size_t a = s.find_first_not_of(' '); if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(' ') - a + 1);
}

// minimal JSON reader
struct JVal { char t = 0; std::string s; std::vector<JVal> a; std::vector<std::pair<std::string, JVal>> o; const JVal* get(const char* k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; } };
struct JReader {
    const std::string& s; size_t i = 0;
    JReader(const std::string& x) : s(x) {}
    void ws() { while (i < s.size() && isspace((unsigned char) s[i])) ++i; }
    char peek() { ws(); return i < s.size() ? s[i] : 0; }
    void bad() { fail("the JSON output is malformed at byte %zu: <%.60s>", i, s.substr(i > 20 ? i - 20 : 0, 60).c_str()); }
    void want(char c) { if (peek() != c) bad(); ++i; }
    std::string str()
    {
        want('"'); std::string r;
        while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; r += s[i++]; }
        want('"'); return r;
    }
    JVal val()
    {
        JVal v; char c = peek();
        if (c == '"') { v.t = 's'; v.s = str(); }
        else if (c == '[') {
            v.t = 'a'; ++i;
            if (peek() == ']') { ++i; return v; }
            for (;;) { v.a.push_back(val()); if (peek() == ',') { ++i; continue; } want(']'); break; }
        } else if (c == '{') {
            v.t = 'o'; ++i;
            if (peek() == '}') { ++i; return v; }
            for (;;) { std::string k = (ws(), str()); want(':'); v.o.push_back({ k, val() }); if (peek() == ',') { ++i; continue; } want('}'); break; }
        } else {
            v.t = 'n'; size_t b = i;
            while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '-' || s[i] == '+' || s[i] == '.')) ++i;
            if (i == b) bad();
            v.s = s.substr(b, i - b);
        }
        return v;
    }
    JVal all() { JVal v = val(); if (peek()) bad(); return v; }
};

static void read_output(const std::string& text)
{
    std::istringstream is(text); std::string line;
    if (fmt == EXPAND || fmt == USER) {
        while (std::getline(is, line)) {
            Row row; std::istringstream ls(line); std::string f;
            while (std::getline(ls, f, fmt == USER ? '|' : ',')) {
                size_t q = f.find(fmt == USER ? ':' : '='); if (q == std::string::npos) fail("cannot read output line <%s>", line.c_str());
                put(row, f.substr(0, q), trim(f.substr(q + 1)));
            }
            rows.push_back(row);
        }
    } else if (fmt == CALI) {
        CaliFile f; f.parse(text);
        for (auto& e : f.errors) if (e.size() < 13 || e.compare(e.size() - 13, 13, "defined twice") != 0) fail("%s", e.c_str()); // two writers may write a node twice
        for (auto& kv : f.recs) {
            Row row;
            for (auto& x : kv) if (x.first == "region") row.path.push_back(x.second); else put(row, x.first, x.second);
            rows.push_back(row);
        }
    } else if (fmt == JSON) {
        JVal v = JReader(text).all();
        if (v.t == 'o') { const JVal* r = v.get("records"); if (!r || !v.get("globals") || !v.get("attributes")) fail("a section is missing in the JSON output"); JVal x = *r; v = x; }
        if (v.t != 'a') fail("the JSON output is no list of records");
        for (auto& r : v.a) { Row row; for (auto& x : r.o) put(row, x.first, x.second.s); rows.push_back(row); }
    } else if (fmt == JSONSPLIT) {
        JVal v = JReader(text).all();
        const JVal *data = v.get("data"), *cols = v.get("columns"), *meta = v.get("column_metadata"), *nodes = v.get("nodes");
        if (!data || !cols || !meta || !nodes) fail("a section is missing in the JSON output");
        if (meta->a.size() != cols->a.size()) fail("%zu columns, but metadata for %zu", cols->a.size(), meta->a.size());
        for (auto& r : data->a) {
            if (r.a.size() != cols->a.size()) fail("a JSON row has %zu of %zu columns", r.a.size(), cols->a.size());
            Row row;
            for (size_t c = 0; c < r.a.size(); ++c) {
                std::string v = r.a[c].s; const std::string& col = cols->a[c].s;
                if (v == "null") continue;
                if (meta->a[c].get("is_value")->s == "false") { // node reference
                    std::string x; size_t id = strtoul(v.c_str(), nullptr, 10);
                    for (int n = 0;; ++n) {
                        if (id >= nodes->a.size() || n > 100) fail("node reference %zu of %zu in the JSON output", id, nodes->a.size());
                        const JVal& nd = nodes->a[id];
                        if (nd.get("column")->s != col) fail("node <%s> of column %s is used in column %s", nd.get("label")->s.c_str(), nd.get("column")->s.c_str(), col.c_str());
                        x = nd.get("label")->s + (x.empty() ? "" : "/") + x;
                        const JVal* par = nd.get("parent"); if (!par) break;
                        id = strtoul(par->s.c_str(), nullptr, 10);
                    }
                    v = x;
                }
                put(row, col, v);
            }
            rows.push_back(row);
        }
    } else { // tables: columns start where their titles start
        std::string h; std::getline(is, h);
        std::vector<std::pair<size_t, std::string>> col;
        for (size_t i = 0; i < h.size();) { if (h[i] == ' ') { ++i; continue; } size_t b = i; while (i < h.size() && h[i] != ' ') ++i; col.push_back({ b, h.substr(b, i - b) }); }
        std::vector<std::string> stack;
        while (std::getline(is, line)) {
            Row row; size_t c0 = 0;
            if (fmt == TREE) {
                std::string label = line.substr(0, col.size() > 1 ? col[1].first : std::string::npos);
                size_t in = label.find_first_not_of(' ');
                if (trim(label).compare(0, 2, "|-") != 0) {
                    if (in == std::string::npos || in % 2 || in / 2 > stack.size()) fail("cannot read the tree output line <%s>", line.c_str());
                    stack.resize(in / 2); stack.push_back(trim(label));
                }
                row.path = stack; c0 = 1;
            }
            for (size_t c = c0; c < col.size(); ++c) {
                if (col[c].first >= line.size()) break;
                std::string v = trim(line.substr(col[c].first, c + 1 < col.size() ? col[c + 1].first - col[c].first : std::string::npos));
                put(row, col[c].second, v);
            }
            if (fmt == TREE && row.phase < 0 && !row.has_k && row.vals.empty()) continue; // only a node
            rows.push_back(row);
        }
    }
}

// ---------------------------------------------------------------- feeding
struct OnlineMaker : RecMaker {
    Caliper c;
    cali::CaliperMetadataAccessInterface& db() override { return c; }
    Node* child(const Attribute& a, const Variant& v, Node* parent) override { return c.make_tree_entry(a, v, parent); }
};

static RecSet*                  recs;
static cali::CaliperMetadataDB* offline;
static cali::QuerySpec          spec;
static cali::QueryProcessor*    qp;
static cali::Aggregator*        shared;

static void body(int t)
{
    const Plan& p = plan();
    std::unique_ptr<RecMaker> mk;
    if (offline) mk.reset(new DbMaker(*offline)); else mk.reset(new OnlineMaker);
    mk->define(t);
    std::unique_ptr<cali::Aggregator> mine;
    std::unique_ptr<cali::Preprocessor> pre; std::unique_ptr<cali::RecordSelector> flt;
    if (mode == M_STAGED) { mine.reset(new cali::Aggregator(spec)); pre.reset(new cali::Preprocessor(spec)); flt.reset(new cali::RecordSelector(spec)); }
    for (auto& r : recs[t].v) {
        auto e = mk->record(r);
        if (mode == M_STAGED) {
            auto x = pre->process(mk->db(), e);
            if (flt->pass(mk->db(), x)) mine->add(mk->db(), x);
        } else
            qp->process_record(mk->db(), e);
    }
    if (mode == M_STAGED)
        mine->flush(mk->db(), [](cali::CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { shared->add(d, rec); });
}

static double column_value(const Row& r, const std::string& n, bool& have)
{
    have = true;
    if (n == "k") { have = r.has_k; return r.k; }
    if (n == "stage") { have = r.phase >= 0; return r.phase; }
    auto it = r.vals.find(n);
    have = it != r.vals.end();
    return have ? it->second : 0;
}

static void run(const Plan& p)
{
    clean_env();
    int nth = (int) p.get("nth");
    mode = (int) p.get("mode"); fmt = (int) p.get("fmt");
    nranks = nth + 1; nmet = (int) p.get("nmet"); group_by = (int) p.get("group");
    std::string q;
    {
        NoPreempt np;
        Rng r; r.seed(p.get("shuffle"));
        int64_t th = p.get("thresh");
        let_kind = (int) p.get("let");
        let_x = nmet; while (let_x % 3 != 1) ++let_x; // LET results are floating point numbers
        if (let_kind >= 4) { // of floating point inputs
            let_a = 1; let_b = nmet > 4 ? 4 : 1;
            if (nmet < 2) let_kind = 0;
        } else { let_a = (int) r.below(nmet); let_b = (int) r.below(nmet); }
        let_f = r.below(3) == 0 ? 0.5 : r.chance(1, 2) ? 2 : 4; // results print exactly
        letif.kind = (int) p.get("letif"); letif.m = (int) r.below(nmet); letif.v = th / 2;
        where[0].kind = (int) p.get("where1"); where[1].kind = where[0].kind ? (int) p.get("where2") : 0;
        for (auto& w : where) { w.m = let_kind && r.chance(1, 3) ? let_x : (int) r.below(nmet); w.v = th; }
        int nall = nmet;
        auto pick = [&] { return let_kind && r.chance(1, 4) ? let_x : (int) r.below(nall); };
        int64_t m = p.get("ops") | 1 << COUNT;
        for (int i = 0; i < NAGG; ++i) {
            if (!(m >> i & 1)) continue;
            int a = pick(), b = pick();
            if ((i == RATIO || i == IRATIO) && a == b) { if (nmet < 2) continue; a = 0; b = 1; }
            aops.push_back({ i, a, b });
        }
        if (mode == M_PLAIN) {
            if (p.get("select") == 1 && fmt != CALI && fmt != USER) {
                sel = { "region", "m0", "k" };
                if (nmet > 1 && r.chance(1, 2)) sel.push_back("m1");
                if (r.chance(1, 2)) sel.push_back("stage");
                if (r.chance(1, 2)) alias["m0"] = "Zed";
            }
        } else if (fmt == USER) fmt = EXPAND;
        if ((fmt == TABLE || fmt == TREE) && p.get("order")) {
            order_attr = mode != M_PLAIN ? (p.get("order") == 3 ? "k" : "count") : p.get("order") == 3 ? "k" : "m0";
            order_desc = p.get("order") == 2;
        }
        recs = new RecSet[8];
        for (int i = 0; i < p.nops; ++i) recs[p.ops[i].th].v.push_back(make_rec(p.ops[i]));
        q = full_query();
    }
    cali::CalQLParser parser(q.c_str());
    if (parser.error()) fail("the query is not understood: %s (%s)", q.c_str(), parser.error_msg().c_str());
    spec = parser.spec();
    std::ostringstream text; // the simulated program's own stream
    cali::OutputStream os; os.set_stream(&text);
    if (!p.get("online")) { offline = new cali::CaliperMetadataDB; offline->add_attribute_aliases(spec.aliases); }
    q_tol = mode == M_STAGED ? 1e-9 : 2e-5;
    if (mode == M_STAGED) shared = new cali::Aggregator(spec); else qp = new cali::QueryProcessor(spec, os);
    run_threads(nth, true, body);
    Caliper* c = offline ? nullptr : new Caliper;
    cali::CaliperMetadataAccessInterface& db = offline ? (cali::CaliperMetadataAccessInterface&) *offline : (cali::CaliperMetadataAccessInterface&) *c;
    if (mode != M_STAGED) qp->flush(db);

    // what passes the filter
    std::vector<RecSet> in(1); std::map<int, double> total;
    for (int t = 0; t <= nth; ++t) for (auto& r : recs[t].v) {
        Rec x = r; let_apply(x);
        if (cond_holds(where[0], x) && cond_holds(where[1], x)) in[0].v.push_back(x);
    }
    std::vector<const RecSet*> sets = { &in[0] };
    observe(in[0].v.size());
    if (mode == M_STAGED) {
        Result res = result_of(db, *shared, q.c_str());
        NoPreempt np;
        check(res, reference(sets, total), total, q.c_str());
        return;
    }
    NoPreempt np;
    if (getenv("DBGOUT")) fprintf(stderr, "%s\n%s", q.c_str(), text.str().c_str());
    read_output(text.str());
    for (auto& r : rows) if (r.j >= 0 && r.has_k && r.j != 2 * r.k + 1) fail("%s: an output record mixes the keys of two groups", q.c_str());
    if (mode == M_AGG) {
        // formats leave out what they cannot show
        Result res; auto want = reference(sets, total);
        for (auto& r : rows) {
            std::string key = key_of(r.path, r.phase, r.has_k, r.k);
            if (res.count(key)) fail("%s: the output has two records for <%s>", q.c_str(), key.c_str());
            res[key] = r.vals;
        }
        if (fmt == TREE) for (auto it = want.begin(); it != want.end();) { if (it->first.empty() || it->first[0] != '/') it = want.erase(it); else ++it; }
        // a group without any visible result is not shown by every format
        for (auto it = want.begin(); it != want.end();) {
            bool show = it->second.n > 0 || parent_visible(it->second, total);
            if (!show && !res.count(it->first)) it = want.erase(it); else ++it;
        }
        check(res, want, total, q.c_str());
    } else {
        std::multiset<std::string> want, got;
        for (auto& r : in[0].v) {
            Row row;
            auto on = [&](const char* n) { return sel.empty() || std::find(sel.begin(), sel.end(), n) != sel.end(); };
            if (on("region") || fmt == TREE) row.path = r.path;
            if (on("stage")) row.phase = r.phase;
            if (on("k") && r.has_k) { row.has_k = true; row.k = r.k; }
            for (auto& x : r.m) if (on(met(x.first).c_str())) row.vals[met(x.first)] = x.second;
            if (fmt == TREE && (row.path.empty() || (row.phase < 0 && !row.has_k && row.vals.empty()))) continue;
            if (!row.empty()) want.insert(row.str());
        }
        for (auto& r : rows) if (!r.empty()) got.insert(r.str());
        for (auto& w : want) if (got.count(w) != want.count(w)) fail("%s: the output has %zu records <%s>, %zu were delivered", q.c_str(), got.count(w), w.c_str(), want.count(w));
        for (auto& g : got) if (!want.count(g)) fail("%s: the output has a record <%s>, which was not delivered", q.c_str(), g.c_str());
        probe("rows_checked", want.size());
    }
    if (!order_attr.empty() && fmt == TABLE) {
        const Row* prev = nullptr;
        for (auto& r : rows) {
            bool h1, h2; double b = column_value(r, order_attr, h2);
            if (!h2) continue;
            if (prev) { double a = column_value(*prev, order_attr, h1); if (order_desc ? a < b : a > b) fail("%s: the rows are not in order: %g before %g", q.c_str(), a, b); }
            prev = &r;
        }
        probe("order_checked");
    }
}

PropDef sim::the_prop = { "C22", gen, run, nullptr };
