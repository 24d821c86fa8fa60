// Records, queries and a reference aggregation (C15, C22).
#pragma once
#include "model.h"
#include <caliper/reader/Aggregator.h>
#include <caliper/reader/CalQLParser.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <caliper/reader/QuerySpec.h>
#include <cmath>
#include <sstream>
using namespace sim;

enum AggOp { COUNT, SUM, MIN, MAX, AVG, PCT, IPCT, SCALE, RATIO, ANY, VAR, SCOUNT, ISUM, IMIN, IMAX, ISCALE, IRATIO, NAGG };
enum { MAXMET = 112 };

static double q_tol = 1e-9;

// ---- reference: records and their aggregation
struct Rec { std::vector<std::string> path; int phase = -1, k = 0; bool has_k = false; std::map<int, double> m; };
struct RecSet { std::vector<Rec> v; };
static int nranks, nmet;
static uint64_t hash64(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ (x >> 32); }
static const char* const REGIONS[] = { "main", "aa", "bbb" };
static std::string met(int i) { return strf("m%d", i); }
static cali_attr_type mtype(int i) { return i % 3 == 0 ? CALI_TYPE_INT : i % 3 == 1 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT; }
static Variant mval(int i, double v) { return i % 3 == 0 ? Variant(cali_make_variant_from_int64((int64_t) v)) : i % 3 == 1 ? Variant(v) : Variant(cali_make_variant_from_uint((uint64_t) v)); }

static Rec make_rec(const Op& o)
{
    Rec r;
    int x = o.a;
    while (x) { r.path.push_back(REGIONS[(x - 1) % 3]); x = (x - 1) / 3; } // depth 0..4
    if (o.b & 1) r.phase = (o.b >> 1) & 1;
    if (o.b & 4) { r.has_k = true; r.k = (o.b >> 3) & 1 ? 3 : 0; }
    bool own = plan().get("own_metrics"), neg = !(plan().get("ops") & (1 << PCT | 1 << IPCT)); // percentages of negative numbers mean nothing
    for (int i = 0; i < nmet; ++i) {
        uint64_t h = hash64((uint64_t) o.v + i * 77773ull);
        if (nmet <= 5 ? !(o.c >> i & 1) : h % 8 == 0) continue;
        if (own && hash64(i * 31 + o.th) % 3 != 0) continue;
        double v = (double) (int64_t) (h >> 8 & 1023);
        if (neg && i % 3 == 0) v -= 500; else if (i % 3 == 1) v = v / 4 - (neg ? 50 : 0);
        r.m[i] = v;
    }
    return r;
}

struct AOp { int op, a, b; };
static std::vector<AOp> aops;
static int group_by; // 0 default, 1 path, 2 path+phase, 3 region+k, 4 phase, 5 k, 6 path,stage,k

// a second key attribute, which is a function of the first one
static bool two_keys() { return plan().get("two_keys"); }

static std::string query_text(bool select_clause)
{
    std::string q = "aggregate ";
    int n = 0;
    for (auto& o : aops) {
        std::string a = met(o.a), b = met(o.b);
        if (n++) q += ",";
        switch (o.op) {
        case COUNT: q += "count()"; break;
        case SUM: q += "sum(" + a + ")"; break;
        case MIN: q += "min(" + a + ")"; break;
        case MAX: q += "max(" + a + ")"; break;
        case AVG: q += "avg(" + a + ")"; break;
        case PCT: q += "percent_total(" + a + ")"; break;
        case IPCT: q += "inclusive_percent_total(" + a + ")"; break;
        case SCALE: q += "scale(" + a + ",2)"; break;
        case RATIO: q += "ratio(" + a + "," + b + ")"; break;
        case ANY: q += "any(" + a + ")"; break;
        case VAR: q += "variance(" + a + ")"; break;
        case SCOUNT: q += "scale_count(0.5)"; break;
        case ISUM: q += "inclusive_sum(" + a + ")"; break;
        case IMIN: q += "inclusive_min(" + a + ")"; break;
        case IMAX: q += "inclusive_max(" + a + ")"; break;
        case ISCALE: q += "inclusive_scale(" + a + ",0.5)"; break;
        case IRATIO: q += "inclusive_ratio(" + a + "," + b + ",4)"; break;
        }
    }
    static const char* const g[] = { "", " group by path", " group by path,stage", " group by region,k", " group by stage", " group by k", " group by path,stage,k" };
    std::string t = g[group_by];
    if (two_keys() && t.size() > 1 && t.back() == 'k' && t.size() > 2 && (t[t.size() - 2] == ',' || t[t.size() - 2] == ' ')) t += ",j";
    return q + t;
}

struct Stat { double sum = 0, min = 0, max = 0, sq = 0; uint64_t n = 0; std::set<double> vals; void add(double v) { if (!n || v < min) min = v; if (!n || v > max) max = v; sum += v; sq += v * v; ++n; vals.insert(v); } };
struct Agg { uint64_t n = 0; std::map<int, Stat> x, inc; };
typedef std::string Key;

static Key key_of(const std::vector<std::string>& path, int phase, bool has_k, int k)
{
    Key s;
    for (auto& r : path) s += "/" + r;
    if (phase >= 0) s += strf(" stage=p%d", phase);
    if (has_k) s += strf(" k=%d", k);
    return s;
}
static std::map<Key, Agg> reference(const std::vector<const RecSet*>& sets, std::map<int, double>& total)
{
    bool upath = group_by == 0 || group_by == 1 || group_by == 2 || group_by == 3 || group_by == 6, uphase = group_by == 0 || group_by == 2 || group_by == 4 || group_by == 6, uk = group_by == 3 || group_by == 5 || group_by == 6;
    bool inclusive = false; std::set<int> incl;
    for (auto& o : aops) if (o.op == IPCT || o.op == ISUM || o.op == IMIN || o.op == IMAX || o.op == ISCALE || o.op == IRATIO) { inclusive = true; incl.insert(o.a); if (o.op == IRATIO) incl.insert(o.b); }
    std::map<Key, Agg> m;
    for (auto* s : sets) for (auto& r : s->v) {
        std::vector<std::string> path = upath ? r.path : std::vector<std::string>();
        int phase = uphase ? r.phase : -1; bool hk = uk && r.has_k;
        Agg& a = m[key_of(path, phase, hk, r.k)];
        ++a.n;
        for (auto& v : r.m) { a.x[v.first].add(v.second); total[v.first] += v.second; }
        if (inclusive)
            while (!path.empty()) {
                for (auto& v : r.m) if (incl.count(v.first)) m[key_of(path, phase, hk, r.k)].inc[v.first].add(v.second);
                path.pop_back();
            }
        if (!upath || r.path.empty()) for (auto& v : r.m) if (incl.count(v.first)) a.inc[v.first].add(v.second);
    }
    return m;
}

static bool near(double a, double b) { return std::fabs(a - b) <= q_tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

// does the entry of a group without records of its own have any result?
static bool parent_visible(const Agg& a, std::map<int, double>& total)
{
    for (auto& o : aops) {
        auto i = a.inc.find(o.a), j = a.inc.find(o.b);
        if (i == a.inc.end() || !i->second.n) continue;
        switch (o.op) {
        case ISUM: case IMIN: case IMAX: case ISCALE: return true;
        case IPCT: if (total[o.a] > 0 && i->second.sum > 0) return true; break;
        case IRATIO: if (j != a.inc.end() && j->second.n && j->second.sum != 0) return true; break;
        default: break;
        }
    }
    return false;
}

typedef std::map<Key, std::map<std::string, double>> Result;

static void check(const Result& got, const std::map<Key, Agg>& want, std::map<int, double>& total, const char* what)
{
    for (auto& g : got) if (!want.count(g.first)) fail("%s: the result has an entry for <%s>, which no rank recorded", what, g.first.c_str());
    for (auto& w : want) {
        const char* ks = w.first.c_str();
        auto it = got.find(w.first);
        if (it == got.end()) fail("%s: the result has no entry for <%s> (%llu records)", what, ks, (unsigned long long) w.second.n);
        auto val = [&](const std::string& n, bool present, double v) {
            auto x = it->second.find(n);
            if (!present) { if (x != it->second.end()) fail("%s: <%s> has %s=%g, no rank recorded any value", what, ks, n.c_str(), x->second); return; }
            if (x == it->second.end()) fail("%s: <%s> lacks %s, which should be %.12g (%d ranks)", what, ks, n.c_str(), v, nranks);
            if (!near(x->second, v)) fail("%s: <%s> has %s=%.12g instead of %.12g (%d ranks)", what, ks, n.c_str(), x->second, v, nranks);
        };
        const Agg& a = w.second;
        static const Stat none;
        for (auto& o : aops) {
            auto xi = a.x.find(o.a), bi = a.x.find(o.b), ii = a.inc.find(o.a), ib = a.inc.find(o.b);
            const Stat& s = xi == a.x.end() ? none : xi->second; const Stat& b = bi == a.x.end() ? none : bi->second;
            const Stat& i = ii == a.inc.end() ? none : ii->second; const Stat& j = ib == a.inc.end() ? none : ib->second;
            std::string n = met(o.a), r = n + "/" + met(o.b);
            bool flt = mtype(o.a) == CALI_TYPE_DOUBLE;
            switch (o.op) {
            case COUNT: val("count", a.n > 0, a.n); break;
            case SUM: val("sum#" + n, s.n, s.sum); break;
            case MIN: val("min#" + n, s.n, s.min); break;
            case MAX: val("max#" + n, s.n, s.max); break;
            case AVG: { double q = s.n ? s.sum / s.n : 0; val("avg#" + n, s.n, flt ? q : std::trunc(q)); break; }
            case PCT: if (total[o.a] > 0 && (s.sum > 0 || !s.n)) val("percent_total#" + n, s.n, 100 * s.sum / total[o.a]); break;
            case IPCT: if (total[o.a] > 0 && (i.sum > 0 || !i.n)) val("ipercent_total#" + n, i.n, 100 * i.sum / total[o.a]); break;
            case SCALE: val("scale#" + n, s.n, 2 * s.sum); break;
            case RATIO: if (b.sum != 0 || !b.n) val("ratio#" + r, s.n && b.n, s.sum / b.sum); break;
            case ANY: { auto x = it->second.find("any#" + n); if (s.n && x == it->second.end()) fail("%s: <%s> lacks any#%s", what, ks, n.c_str()); if (x != it->second.end() && std::none_of(s.vals.begin(), s.vals.end(), [&](double v) { return near(v, x->second); })) fail("%s: <%s> has any#%s=%g, which no rank recorded", what, ks, n.c_str(), x->second); break; }
            case VAR: val("variance#" + n, s.n, s.n ? s.sq / s.n - (s.sum / s.n) * (s.sum / s.n) : 0); break;
            case SCOUNT: val("scount", a.n > 0, 0.5 * a.n); break;
            case ISUM: val("inclusive#" + n, i.n, i.sum); break;
            case IMIN: val("imin#" + n, i.n, i.min); break;
            case IMAX: val("imax#" + n, i.n, i.max); break;
            case ISCALE: val("iscale#" + n, i.n, 0.5 * i.sum); break;
            case IRATIO: if (j.sum != 0 || !j.n) val("iratio#" + r, i.n && j.n, 4 * i.sum / j.sum); break;
            }
        }
        probe("groups_checked");
    }
}

// ---- Level 1: the aggregation itself
struct RecMaker {
    Attribute region, phase, k, j, m[MAXMET];
    uint64_t  nrec = 0;
    virtual ~RecMaker() {}
    virtual cali::CaliperMetadataAccessInterface& db() = 0;
    virtual Node* child(const Attribute& a, const Variant& v, Node* parent) = 0;
    void define(int rank)
    {
        Rng r; r.seed(plan().get("shuffle") + rank * 1000003);
        bool own = plan().get("own_metrics");
        std::vector<int> v; for (int i = 0; i < 3 + nmet; ++i) v.push_back(i);
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        for (int i : v) {
            if (i == 0) region = db().create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
            else if (i == 1) phase = db().create_attribute("stage", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
            else if (i == 2) { k = db().create_attribute("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE); if (two_keys()) j = db().create_attribute("j", CALI_TYPE_INT, CALI_ATTR_ASVALUE); }
            else if (!own || hash64((i - 3) * 31 + rank) % 3 == 0) m[i - 3] = db().create_attribute(met(i - 3), mtype(i - 3), CALI_ATTR_ASVALUE);
            if (r.chance(1, 4)) db().create_attribute(strf("other.%d.%d", rank, i), CALI_TYPE_STRING, CALI_ATTR_DEFAULT); // ids differ between ranks
        }
    }
    std::vector<Entry> record(const Rec& r)
    {
        std::vector<Entry> e;
        Node* node = nullptr;
        uint64_t h = hash64(++nrec * 7919 + plan().get("shuffle")); // entries come in any order
        bool vary = plan().get("entry_order");
        if (r.phase >= 0) {
            std::string s = strf("p%d", r.phase); Variant v(s.c_str()); node = child(phase, v, node);
            if (vary && h & 1) { e.push_back(Entry(node)); node = nullptr; }
        }
        for (auto& p : r.path) { Variant v(p.c_str()); node = child(region, v, node); }
        if (node) e.push_back(Entry(node));
        for (auto& v : r.m) e.push_back(Entry(m[v.first], mval(v.first, v.second)));
        if (r.has_k) e.push_back(Entry(k, Variant(cali_make_variant_from_int(r.k))));
        if (r.has_k && two_keys()) e.push_back(Entry(j, Variant(cali_make_variant_from_int(2 * r.k + 1))));
        if (vary) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[(h >> i) % i]);
        return e;
    }
};
struct DbMaker : RecMaker { // for an offline database
    cali::CaliperMetadataDB& d;
    DbMaker(cali::CaliperMetadataDB& x) : d(x) {}
    cali::CaliperMetadataAccessInterface& db() override { return d; }
    Node* child(const Attribute& a, const Variant& v, Node* parent) override { return d.make_tree_entry(1, &a, &v, parent); }
};

static Result result_of(cali::CaliperMetadataAccessInterface& db, cali::Aggregator& agg, const char* what)
{
    Result res;
    agg.flush(db, [&](cali::CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) {
        std::vector<std::string> path; int phase = -1; bool hk = false; int k = 0, j = -1; std::map<std::string, double> vals;
        for (const Entry& e : rec) {
            if (e.is_reference()) {
                KVs kv; decode_node(d, e.node(), kv, what);
                for (auto& x : kv) {
                    if (x.first == "region") path.push_back(x.second);
                    else if (x.first == "stage") phase = x.second == "p0" ? 0 : x.second == "p1" ? 1 : 99;
                    else fail("%s: result record has unexpected %s=%s", what, x.first.c_str(), x.second.c_str());
                }
            } else if (e.is_immediate()) {
                std::string n = d.get_attribute(e.attribute()).name();
                if (n == "k") { hk = true; k = e.value().to_int(); }
                else if (n == "j") j = e.value().to_int();
                else vals[n] = e.value().to_double();
            }
        }
        if (j >= 0 && (!hk || j != 2 * k + 1)) fail("%s: a result record mixes the keys of two groups", what);
        Key key = key_of(path, phase, hk, k);
        if (res.count(key)) fail("%s: the result has two records for <%s>", what, key.c_str());
        res[key] = vals;
    });
    return res;
}

static Result parse_expand(const std::string& text, const char* what)
{
    Result res; std::istringstream is(text); std::string line;
    while (std::getline(is, line)) {
        std::vector<std::string> path; int phase = -1; bool hk = false; int k = 0; std::map<std::string, double> vals;
        std::istringstream ls(line); std::string f;
        while (std::getline(ls, f, ',')) {
            size_t q = f.find('='); if (q == std::string::npos) fail("%s: cannot read output line <%s>", what, line.c_str());
            std::string n = f.substr(0, q), v = f.substr(q + 1);
            if (n == "region") { std::istringstream ps(v); std::string x; while (std::getline(ps, x, '/')) path.push_back(x); }
            else if (n == "stage") phase = v == "p0" ? 0 : v == "p1" ? 1 : 99;
            else if (n == "k") { hk = true; k = atoi(v.c_str()); }
            else vals[n] = strtod(v.c_str(), nullptr);
        }
        Key key = key_of(path, phase, hk, k);
        if (res.count(key)) fail("%s: the output has two records for <%s>", what, key.c_str());
        res[key] = vals;
    }
    return res;
}

static Result parse_cali(const std::string& text, const char* what)
{
    Result res; CaliFile f; f.parse(text);
    if (!f.errors.empty()) fail("%s: %s", what, f.errors[0].c_str());
    for (auto& kv : f.recs) {
        std::vector<std::string> path; int phase = -1; bool hk = false; int k = 0; std::map<std::string, double> vals;
        for (auto& x : kv) {
            if (x.first == "region") path.push_back(x.second);
            else if (x.first == "stage") phase = x.second == "p0" ? 0 : x.second == "p1" ? 1 : 99;
            else if (x.first == "k") { hk = true; k = atoi(x.second.c_str()); }
            else vals[x.first] = strtod(x.second.c_str(), nullptr);
        }
        Key key = key_of(path, phase, hk, k);
        if (res.count(key)) fail("%s: the output has two records for <%s>", what, key.c_str());
        res[key] = vals;
    }
    return res;
}

