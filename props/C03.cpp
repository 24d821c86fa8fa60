// C03: a context reference always resolves to the path it was made for.
#include "model.h"
using namespace sim;

enum { CHILD, PATHN, NODES, BYID, VERIFY, BEGIN, SETV, END, SNAP, NOPS };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(2, r.chance(1, 4) ? 6 : 4);
    p.set("nth", nth); p.set("wmain", r.chance(1, 2));
    p.set("nattr", r.range(1, 4));
    p.set("maxv", r.chance(1, 2) ? 2 : r.range(2, 30));
    p.set("big", r.chance(1, 6));
    p.set("huge", r.chance(1, 16));
    if (r.chance(1, 2)) p.set("npb", 1 << r.range(4, 7));
    int nops = (int) r.range(3, r.chance(1, 4) ? 80 : 25);
    static const unsigned w[NOPS] = { 30, 12, 10, 8, 8, 12, 8, 8, 5 };
    unsigned tot = 0; for (unsigned x : w) tot += x;
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            int n = k == PATHN || k == NODES ? (int) (r.chance(1, 8) ? r.range(10, 40) : r.range(1, 5)) : 0;
            p.add(t, k, (int) r.below(8), (int) r.below(r.chance(1, 2) ? 3 : 1000), n, (int64_t) (r.next() >> 20));
        }
    gen_schedule(r, p, nth * nops * 40);
}

struct Ref { Node* n; cali_id_t id; KVs path; };
static std::vector<Ref>      refs;            // everything ever returned
static std::map<Node*, KVs>  by_node;
static std::map<cali_id_t, Node*> by_id;
static std::vector<Attribute> attrs;
static std::vector<AttrDef>  defs;
static int64_t maxv;
static int n_huge_made;

static const int n_sizes = 8, n_huge = 3;
static const size_t sizes[n_sizes + n_huge] = { 0, 1, 7, 8, 15, 16, 100, 3000, 65535, 65600, 80000 };
static const size_t huge_buf = 90000;

// value number -> variant; strings and binary values live in the caller's buffer
static Variant value(const Attribute& a, int64_t v, char* buf, std::string& str, bool huge = false)
{
    v = (int64_t) ((uint64_t) v % (uint64_t) maxv);
    if (a.type() == CALI_TYPE_STRING || a.type() == CALI_TYPE_USR) {
        size_t n = huge ? sizes[n_sizes + v % n_huge] : sizes[v % (plan().get("big") ? n_sizes : n_sizes - 1)];
        for (size_t i = 0; i < n; ++i) buf[i] = (char) ('a' + (i * 7 + v) % 26);
        if (n > 1) snprintf(buf, n, "%d", (int) v), buf[strlen(buf)] = '.';
        Variant x(a.type(), buf, n);
        str = x.to_string();
        return x;
    }
    Variant x = make_value(a.type(), v);
    str = x.to_string();
    return x;
}

// strings are handed out as C strings, too (e.g. attribute and region names)
static void terminated(Node* n, const char* how)
{
    for (; n && n->attribute() != CALI_INV_ID; n = n->parent()) {
        Variant v = n->data();
        if (v.type() == CALI_TYPE_STRING && v.size() > 0 && static_cast<const char*>(v.data())[v.size()] != 0)
            fail("%s: the string of %zu bytes in a reference is not terminated: \"%.80s\"", how, v.size(), static_cast<const char*>(v.data()));
    }
}

static void record(Caliper& c, Node* n, const KVs& path, const char* how)
{
    if (!n) fail("%s: no context reference returned for %s", how, show(path).c_str());
    KVs got; decode_node(c, n, got, how);
    if (got != path) fail("%s: reference resolves to %s, expected %s", how, show(got).c_str(), show(path).c_str());
    terminated(n, how);
    cali_id_t id = n->id();
    if (c.node(id) != n) fail("%s: looking up the identifier of %s returns another reference", how, show(path).c_str());
    NoPreempt np;
    auto it = by_node.find(n);
    if (it == by_node.end()) by_node[n] = path;
    else if (it->second != path) fail("%s: one reference for two paths: %s and %s", how, show(path).c_str(), show(it->second).c_str());
    auto ii = by_id.find(id);
    if (ii == by_id.end()) by_id[id] = n;
    else if (ii->second != n) fail("%s: one identifier for two references (%s)", how, show(path).c_str());
    if (refs.size() < 4000) refs.push_back({ n, id, path });
}

static void verify(Caliper& c, const Ref r, const char* how)
{
    KVs got; decode_node(c, r.n, got, how);
    if (got != r.path) fail("%s: reference resolves to %s, it was made for %s", how, show(got).c_str(), show(r.path).c_str());
    terminated(r.n, how);
    Node* n = c.node(r.id);
    if (n != r.n) fail("%s: identifier of %s is not found any more", how, show(r.path).c_str());
}

static bool pick(uint64_t b, Ref& out)
{
    NoPreempt np;
    if (refs.empty()) return false;
    // small b: recent or shared references, large b: any
    out = refs[b < 3 ? (refs.size() - 1 - b % refs.size()) : b % refs.size()];
    return true;
}

static void body(int t)
{
    const Plan& p = plan();
    Caliper     c;
    ThreadModel m; m.defs = &defs;
    std::vector<char> mem(4096 * 45);
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        Attribute a = attrs[o.a % attrs.size()];
        char*     buf = mem.data();
        Ref       par { nullptr, 0, {} };
        std::string s;
        bool has_par = (o.v & 3) && pick((uint64_t) o.b, par) && par.path.size() < 60;
        if (!has_par) par = Ref { nullptr, 0, {} };
        switch (o.kind) {
        case CHILD: {
            std::vector<char> hb;
            bool huge = p.get("huge") && a.type() == CALI_TYPE_STRING && o.b % 3 == 0 && n_huge_made < 4;
            if (huge) ++n_huge_made;
            if (huge) { hb.resize(huge_buf); buf = hb.data(); }
            Variant v = value(a, o.v >> 3, buf, s, huge);
            KVs path = par.path; path.push_back({ a.name(), s });
            Node* n = c.make_tree_entry(a, v, par.n);
            memset(buf, '#', huge ? huge_buf : 4096);
            if (huge) probe("value.larger_than_pool_chunk");
            record(c, n, path, "child");
            break;
        }
        case PATHN: {
            std::vector<Variant> vs; KVs path = par.path;
            for (int k = 0; k < o.c; ++k) { vs.push_back(value(a, (o.v >> 3) + k * (o.v & 7), buf + 4096 * k, s)); path.push_back({ a.name(), s }); }
            if (vs.empty()) break;
            Node* n = c.make_tree_entry(a, vs.size(), vs.data(), par.n);
            std::fill(mem.begin(), mem.end(), '#');
            record(c, n, path, "path");
            break;
        }
        case NODES: {
            std::vector<const Node*> ns; KVs path = par.path; Ref x;
            for (int k = 0; k < o.c; ++k)
                if (pick((uint64_t) (o.v >> 3) * 31 + k * 7 + 3, x) && !x.path.empty()) { ns.push_back(x.n); path.push_back(x.path.back()); }
            if (ns.empty()) break;
            Node* n = c.make_tree_entry(ns.size(), ns.data(), par.n);
            record(c, n, path, "node list");
            break;
        }
        case BYID: case VERIFY: { Ref x; if (pick((uint64_t) (o.v >> 3), x)) verify(c, x, "later lookup"); break; }
        case BEGIN: case SETV: {
            int d = o.a % (int) defs.size(); int64_t v = (o.v >> 3) % maxv;
            if (m.stack(d).size() > 40) break;
            if (o.kind == BEGIN) { c.begin(defs[d].attr, make_value(defs[d].type, v)); m.begin(d, v); }
            else { c.set(defs[d].attr, make_value(defs[d].type, v)); m.set(d, v); }
            break;
        }
        case END: { int d = o.a % (int) defs.size(); if (!m.can_end(d)) break; c.end(defs[d].attr); m.end(d); break; }
        case SNAP: {
            FixedSizeSnapshotRecord<120> rec;
            c.pull_context(rec.builder());
            check_record(m, decode(c, rec.view()), "context");
            for (auto& e : rec.view()) if (e.is_reference()) { KVs path; decode_node(c, e.node(), path); record(c, e.node(), path, "snapshot reference"); }
            break;
        }
        }
    }
}

static void run(const Plan& p)
{
    clean_env();
    maxv = p.get("maxv");
    cali_init();
    Caliper c;
    static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_STRING, CALI_TYPE_USR, CALI_TYPE_DOUBLE };
    for (int i = 0; i < (int) p.get("nattr"); ++i) attrs.push_back(c.create_attribute("t." + std::to_string(i), ty[i], CALI_ATTR_SKIP_EVENTS));
    static const AttrKind kd[] = { K_NESTED, K_UNALIGNED, K_PLAIN };
    for (int i = 0; i < 3; ++i) {
        AttrDef d; d.name = "r." + std::to_string(i); d.kind = kd[i]; d.type = type_of(i); d.extra = 0;
        d.attr = c.create_attribute(d.name, d.type, d.prop());
        defs.push_back(d);
    }
    run_threads((int) p.get("nth"), p.get("wmain"), body);
    probe("references", refs.size());
    for (auto& r : refs) verify(c, r, "final check");
    // distinct references for one path only arise from races; identifiers are dense and consistent
    uint64_t dup = 0; std::set<KVs> paths;
    for (auto& kv : by_node) dup += !paths.insert(kv.second).second;
    probe("duplicate_paths", dup);
}

PropDef sim::the_prop = { "C03", gen, run, nullptr };
