// C02: one name is one attribute, for every thread and forever.
#include "model.h"
using namespace sim;

enum { CREATE, CREATE_C, CREATE_META, FIND, FIND_C, LIST, BYID, USE, NOPS };
static const int props_tab[] = {
    CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE, CALI_ATTR_NESTED, CALI_ATTR_UNALIGNED, CALI_ATTR_GLOBAL, CALI_ATTR_SKIP_EVENTS,
    CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_ASVALUE, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS,
    CALI_ATTR_NESTED | CALI_ATTR_LEVEL_3, CALI_ATTR_HIDDEN | CALI_ATTR_ASVALUE, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE,
    CALI_ATTR_GLOBAL | CALI_ATTR_SCOPE_THREAD, CALI_ATTR_GLOBAL | CALI_ATTR_SCOPE_TASK | CALI_ATTR_SKIP_EVENTS
};
enum { NPROPS = sizeof props_tab / sizeof props_tab[0] };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(2, r.chance(1, 4) ? 6 : 4);
    int nn  = (int) r.range(1, r.chance(1, 3) ? 12 : 4); // names
    int same = (int) r.below(3);                          // 0: every creator asks for the same thing
    p.set("nth", nth); p.set("nn", nn); p.set("wmain", r.chance(1, 2));
    p.set("event", r.chance(1, 4)); p.set("preset", r.chance(1, 4)); p.set("nchn", r.range(0, 2)); p.set("defscope", r.chance(1, 6)); p.set("long", r.chance(1, 6) ? r.range(20, 300) : 0);
    if (r.chance(1, 3)) p.set("npb", 1 << r.range(4, 7));
    int nops = (int) r.range(1, 14);
    static const unsigned w0[NOPS] = { 30, 8, 12, 20, 6, 5, 8, 6 }, w1[NOPS] = { 20, 6, 8, 6, 2, 40, 4, 4 };
    const unsigned* w = r.chance(1, 4) ? w1 : w0;
    unsigned tot = 0; for (int i = 0; i < NOPS; ++i) tot += w[i];
    bool early = r.chance(1, 2); // creations come first: everybody races on the same names
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(tot); int k = 0;
            while (x >= w[k]) x -= w[k++];
            if (early && i < nn && i < 3) k = r.chance(1, 5) ? CREATE_META : CREATE;
            int nm = early && i < 3 ? i % nn : (int) r.below(nn);
            int pr = same == 0 ? nm % NPROPS : (int) r.below(NPROPS), ty = same == 0 ? nm % 5 : (int) r.below(5);
            p.add(t, k, nm, pr, ty, (int64_t) r.below(256));
        }
    gen_schedule(r, p, nth * nops * 120);
}

struct Want { int prop; cali_attr_type type; std::string meta; };
struct Name {
    std::string       name;
    uint64_t          first_start = 0, first_done = 0; // stamps of creations
    std::vector<Want> wanted;
    cali_id_t         id = CALI_INV_ID;
    int               prop = 0; cali_attr_type type = CALI_TYPE_INV; std::string meta;
};
static std::vector<Name> names;
static std::vector<std::map<std::string, int>> evts;
static std::set<std::string> pre;
static Attribute meta_attr[4]; // the last one is class.aggregatable
static bool      preset, defscope;

static int expected_prop(const Name& n, const Want& w)
{
    int prop = w.prop;
    if (preset && n.name == "n.0") prop = CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN;
    if (prop & CALI_ATTR_GLOBAL) { prop &= ~CALI_ATTR_SCOPE_MASK; prop |= CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED; }
    if (!(prop & CALI_ATTR_SCOPE_MASK)) prop |= defscope ? CALI_ATTR_SCOPE_PROCESS : CALI_ATTR_SCOPE_THREAD;
    if (w.meta.size() > 5 && w.meta.substr(w.meta.size() - 5) == "true;") prop |= CALI_ATTR_AGGREGATABLE;
    return prop;
}

// one to four metadata entries chosen by v, in varying order
struct Meta { int n = 0, idx[4]; Variant val[4]; Attribute attr[4]; std::string str; };
static Meta make_meta(int64_t v)
{
    Meta m;
    std::string s[4];
    m.n = 1 + (int) (v & 3);
    for (int i = 0; i < m.n; ++i) {
        int k = (int) ((v >> 2) + i) & 3, x = (int) ((v >> 4) + 3 * i) & 7;
        m.attr[i] = meta_attr[k];
        m.val[i]  = k == 3 ? Variant((x & 1) != 0) : Variant(x);
        s[k] = m.val[i].to_string();
    }
    for (auto& x : s) m.str += x + ";";
    return m;
}
static std::string meta_of(const Attribute& a)
{
    std::string r;
    for (auto& m : meta_attr) { Variant v = a.get(m); r += (v.empty() ? std::string() : v.to_string()) + ";"; }
    return r;
}

// every way an attribute can be seen must agree with everything seen before
static void seen(Name& n, const Attribute& a, const char* how)
{
    if (!a) fail("%s: attribute %s is invalid", how, n.name.c_str());
    cali_id_t id = a.id(); cali_attr_type ty = a.type(); int prop = a.properties(); std::string nm = a.name(), me = meta_of(a);
    NoPreempt np;
    if (nm != n.name) fail("%s: asked for attribute %s, got %s", how, n.name.c_str(), nm.c_str());
    if (nm != a.name_c_str()) fail("%s: attribute %s as C string is %.100s", how, n.name.c_str(), a.name_c_str());
    if (n.id == CALI_INV_ID) {
        bool ok = false;
        for (auto& w : n.wanted) ok |= w.type == ty && expected_prop(n, w) == prop && me == w.meta;
        if (!ok) fail("%s: attribute %s has type %d, properties 0x%x, metadata '%s', which nobody asked for", how, nm.c_str(), (int) ty, prop, me.c_str());
        n.id = id; n.prop = prop; n.type = ty; n.meta = me;
    } else if (n.id != id) fail("%s: attribute %s has two identifiers", how, nm.c_str());
    else if (n.prop != prop || n.type != ty || n.meta != me) fail("%s: attribute %s changed its type, properties or metadata", how, nm.c_str());
    // nobody gets to see an attribute before the channels were told about it
    if (!pre.count(nm)) for (size_t i = 0; i < evts.size(); ++i)
        if (evts[i][nm] != 1) fail("%s: attribute %s is visible, but channel %d was told about it %d times", how, nm.c_str(), (int) i, evts[i][nm]);
    for (auto& o : names) if (&o != &n && o.id == id) fail("%s: attributes %s and %s share an identifier", how, nm.c_str(), o.name.c_str());
}

static void body(int t)
{
    const Plan& p = plan();
    Caliper     c;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t || o.a >= (int) names.size()) continue;
        Name& n = names[o.a];
        int   prop = props_tab[o.b % NPROPS];
        cali_attr_type ty = type_of(o.c);
        uint64_t start = tick();
        uint64_t done_before = n.first_done;
        switch (o.kind) {
        case CREATE: case CREATE_C: case CREATE_META: {
            Meta m;
            { NoPreempt np; m.str = ";;;;"; if (o.kind == CREATE_META) m = make_meta(o.v); n.wanted.push_back({ prop, ty, m.str }); if (!n.first_start) n.first_start = start; }
            Attribute a;
            char nm[512]; strcpy(nm, n.name.c_str());
            if (o.kind == CREATE) a = c.create_attribute(nm, ty, prop);
            else if (o.kind == CREATE_C) a = c.get_attribute(cali_create_attribute(nm, ty, prop));
            else a = c.create_attribute(nm, ty, prop, m.n, m.attr, m.val);
            memset(nm, '#', sizeof nm);
            if (!done_before && n.first_start < start) probe("racing_create");
            if (!n.first_done) n.first_done = tick();
            seen(n, a, "create");
            break;
        }
        case FIND: case FIND_C: {
            Attribute a = o.kind == FIND ? c.get_attribute(n.name) : c.get_attribute(cali_find_attribute(n.name.c_str()));
            if (!a && done_before) fail("find: attribute %s was created but is not found", n.name.c_str());
            if (a && !n.first_start) fail("find: attribute %s found before anybody created it", n.name.c_str());
            if (a) seen(n, a, "find");
            break;
        }
        case LIST: {
            std::vector<char> before;
            { NoPreempt np; for (auto& x : names) before.push_back(x.first_done != 0); }
            std::vector<Attribute> all = c.get_all_attributes();
            std::map<std::string, int> cnt;
            for (auto& a : all) {
                if (!a) fail("list: contains an invalid attribute");
                cnt[a.name()]++;
                for (auto& x : names) if (x.name == a.name()) seen(x, a, "list");
            }
            for (auto& kv : cnt) if (kv.second != 1) fail("list: %s is listed %d times", kv.first.c_str(), kv.second);
            for (size_t k = 0; k < names.size(); ++k) if (before[k] && !cnt.count(names[k].name)) fail("list: %s is missing", names[k].name.c_str());
            break;
        }
        case BYID:
            if (n.id != CALI_INV_ID) {
                seen(n, c.get_attribute(n.id), "lookup by id");
                if (n.name != cali_attribute_name(n.id)) fail("lookup by id: name of %s is %s", n.name.c_str(), cali_attribute_name(n.id));
                if (n.type != cali_attribute_type(n.id) || n.prop != cali_attribute_properties(n.id)) fail("lookup by id: type or properties of %s differ", n.name.c_str());
            }
            break;
        case USE: // using an attribute obtained elsewhere
            if (n.id != CALI_INV_ID && !(n.prop & CALI_ATTR_SCOPE_PROCESS)) {
                Attribute a = c.get_attribute(n.id);
                c.set(a, make_value(n.type, o.v));
                Entry e = c.get(a);
                if (e.value().to_string() != value_str(n.type, o.v)) fail("value of %s set to %s reads back as %s", n.name.c_str(), value_str(n.type, o.v).c_str(), e.value().to_string().c_str());
            }
            break;
        }
    }
}

static void run(const Plan& p)
{
    clean_env();
    preset = p.get("preset"); defscope = p.get("defscope");
    if (preset) setenv("CALI_CALIPER_ATTRIBUTE_PROPERTIES", "n.0=asvalue:hidden", 1);
    if (defscope) setenv("CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE", "process", 1);
    cali_init();
    Caliper c;
    for (int i = 0; i < 3; ++i) meta_attr[i] = c.create_attribute("meta" + std::to_string(i), CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    meta_attr[3] = c.get_attribute("class.aggregatable");
    int nchn = (int) p.get("nchn"), nth = (int) p.get("nth");
    bool ev = p.get("event");
    for (int i = 0; i < (int) p.get("nn"); ++i) { names.emplace_back(); names.back().name = "n." + std::to_string(i); if (i) names.back().name += std::string((size_t) p.get("long"), 'x'); }
    evts.resize(nchn + 1);
    std::vector<Channel> chn;
    for (int i = 0; i <= nchn; ++i) {
        std::map<std::string, std::string> cfg;
        if (ev && i == 0) cfg["CALI_SERVICES_ENABLE"] = "event";
        chn.push_back(make_channel(("c" + std::to_string(i)).c_str(), cfg, i < 2));
    }
    for (auto& a : c.get_all_attributes()) pre.insert(a.name());
    for (int i = 0; i <= nchn; ++i)
        chn[i].events().create_attr_evt.connect([i](Caliper*, const Attribute& a) { std::string n = a.name(); NoPreempt np; evts[i][n]++; });
    run_threads(nth, p.get("wmain"), body);
    // every channel heard about every new attribute exactly once
    for (auto& a : c.get_all_attributes()) {
        if (pre.count(a.name())) continue;
        for (int i = 0; i <= nchn; ++i)
            if (evts[i][a.name()] != 1) fail("channel %d was told %d times about attribute %s", i, evts[i][a.name()], a.name().c_str());
    }
    for (int i = 0; i <= nchn; ++i) for (auto& kv : evts[i]) if (!c.get_attribute(kv.first)) fail("channel %d was told about attribute %s, which does not exist", i, kv.first.c_str());
    for (auto& n : names) if (n.id != CALI_INV_ID) seen(n, c.get_attribute(n.name), "final find");
    if (ev) for (auto& n : names) if (n.id != CALI_INV_ID && !(n.prop & CALI_ATTR_SKIP_EVENTS)) {
        Attribute b = c.get_attribute("event.begin#" + n.name);
        if (!b || b.type() != n.type) fail("event attribute of %s is missing or has the wrong type", n.name.c_str());
    }
}

PropDef sim::the_prop = { "C02", gen, run, nullptr };
