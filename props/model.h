// Reference model of per-thread annotation context, shared by several properties.
#pragma once
#include "common.h"

enum AttrKind { K_NESTED, K_PLAIN, K_UNALIGNED, K_VALUE, K_HIDDEN, K_NKINDS };

struct AttrDef {
    std::string    name;
    AttrKind       kind;
    cali_attr_type type;
    int            extra; // extra property flags (e.g. CALI_ATTR_SKIP_EVENTS)
    Attribute      attr;

    bool ref() const { return kind == K_NESTED || kind == K_PLAIN || kind == K_UNALIGNED; }
    bool aligned() const { return kind == K_NESTED || kind == K_PLAIN; }
    int  prop() const
    {
        int p = extra;
        switch (kind) {
        case K_NESTED:    p |= CALI_ATTR_NESTED; break;
        case K_PLAIN:     p |= CALI_ATTR_DEFAULT; break;
        case K_UNALIGNED: p |= CALI_ATTR_UNALIGNED; break;
        case K_VALUE:     p |= CALI_ATTR_ASVALUE; break;
        case K_HIDDEN:    p |= CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN; break;
        default: break;
        }
        return p;
    }
};

static const char* const kStrings[] = { "", "a", "main", "seventy", "eight888", "nine99999", "a longer string value, with a comma", "fifteen15151515", "sixteen1616161616", "x=y\\z" };
enum { N_STRINGS = 10 };

// a value number -> Variant of the attribute's type; strings point to static storage
inline Variant make_value(cali_attr_type t, int64_t v)
{
    switch (t) {
    case CALI_TYPE_INT:    return Variant((int) v);
    case CALI_TYPE_UINT:   return Variant(cali_make_variant_from_uint((uint64_t) v));
    case CALI_TYPE_DOUBLE: return Variant((double) v * 0.5);
    case CALI_TYPE_BOOL:   return Variant((v & 1) != 0);
    case CALI_TYPE_STRING: { const char* s = kStrings[(uint64_t) v % N_STRINGS]; return Variant(CALI_TYPE_STRING, s, strlen(s)); }
    default:               return Variant((int) v);
    }
}
inline std::string value_str(cali_attr_type t, int64_t v)
{
    switch (t) {
    case CALI_TYPE_DOUBLE: return std::to_string((double) v * 0.5);
    case CALI_TYPE_BOOL:   return (v & 1) ? "true" : "false";
    case CALI_TYPE_STRING: return kStrings[(uint64_t) v % N_STRINGS];
    case CALI_TYPE_INT:    return std::to_string((int) v);
    default:               return std::to_string((uint64_t) v);
    }
}

struct ThreadModel {
    std::vector<AttrDef>* defs = nullptr;
    typedef std::vector<std::pair<int, int64_t>> Stack; // attribute index, value number
    Stack                  region, unaligned;
    std::map<int, int64_t> imm;
    bool                   broken = false;

    Stack& stack(int a) { return (*defs)[a].kind == K_UNALIGNED ? unaligned : region; }

    void begin(int a, int64_t v)
    {
        if (broken) return;
        if ((*defs)[a].ref()) stack(a).push_back({ a, v });
        else imm[a] = v;
    }
    bool can_end(int a)
    {
        const AttrDef& d = (*defs)[a];
        if (!d.ref()) return imm.count(a) > 0;
        Stack& s = stack(a);
        if (d.aligned()) return !s.empty() && s.back().first == a;
        for (auto& p : s) if (p.first == a) return true;
        return false;
    }
    void end(int a)
    {
        if (broken) return;
        if (!can_end(a)) { broken = true; return; }
        const AttrDef& d = (*defs)[a];
        if (!d.ref()) { imm.erase(a); return; }
        Stack& s = stack(a);
        for (size_t i = s.size(); i-- > 0;) if (s[i].first == a) { s.erase(s.begin() + i); break; }
    }
    // a value with the wrong content makes tracking cease
    void end_checked(int a, int64_t v)
    {
        if (broken) return;
        int64_t cur;
        if (!can_end(a) || !get(a, cur) || value_str((*defs)[a].type, cur) != value_str((*defs)[a].type, v)) { broken = true; return; }
        end(a);
    }
    // hidden attributes can be set even when tracking has ceased: services keep their thread's data there
    bool can_set(int a) const { return !broken || (*defs)[a].kind == K_HIDDEN; }
    void set(int a, int64_t v)
    {
        if (!can_set(a)) return;
        if (!(*defs)[a].ref()) { imm[a] = v; return; }
        Stack& s = stack(a);
        for (size_t i = s.size(); i-- > 0;) if (s[i].first == a) { s.erase(s.begin() + i); break; }
        s.push_back({ a, v });
    }
    bool get(int a, int64_t& v)
    {
        const AttrDef& d = (*defs)[a];
        if (!d.ref()) { auto it = imm.find(a); if (it == imm.end()) return false; v = it->second; return true; }
        Stack& s = stack(a);
        for (size_t i = s.size(); i-- > 0;) if (s[i].first == a) { v = s[i].second; return true; }
        return false;
    }
    KV kv(int a, int64_t v) const { return { (*defs)[a].name, value_str((*defs)[a].type, v) }; }

    // the three parts of a snapshot
    void parts(KVs& reg, KVs& una, KVs& val) const
    {
        for (auto& p : region) reg.push_back(kv(p.first, p.second));
        for (auto& p : unaligned) una.push_back(kv(p.first, p.second));
        for (auto& p : imm) if ((*defs)[p.first].kind != K_HIDDEN) val.push_back(kv(p.first, p.second));
        std::sort(val.begin(), val.end());
    }
};

// Splits an observed record along the model's three slots; attributes unknown to the model go to `rest`.
inline void split_record(const std::vector<AttrDef>& defs, const KVs& rec, KVs& reg, KVs& una, KVs& val, KVs& rest)
{
    for (auto& p : rec) {
        const AttrDef* d = nullptr;
        for (auto& x : defs) if (x.name == p.first) { d = &x; break; }
        if (!d) { rest.push_back(p); continue; }
        if (d->kind == K_UNALIGNED) una.push_back(p);
        else if (d->ref()) reg.push_back(p);
        else val.push_back(p);
    }
    std::sort(val.begin(), val.end());
}

inline void check_record(const ThreadModel& m, const KVs& rec, const char* what, KVs* rest_out = nullptr)
{
    KVs er, eu, ev, gr, gu, gv, rest;
    m.parts(er, eu, ev);
    split_record(*m.defs, rec, gr, gu, gv, rest);
    if (gr != er) sim::fail("%s: wrong region context: expected %s, got %s", what, show(er).c_str(), show(gr).c_str());
    if (gu != eu) sim::fail("%s: wrong unaligned context: expected %s, got %s", what, show(eu).c_str(), show(gu).c_str());
    if (gv != ev) sim::fail("%s: wrong by-value context: expected %s, got %s", what, show(ev).c_str(), show(gv).c_str());
    if (rest_out) *rest_out = rest;
}

// Advances the identifiers handed out to this thread until the next one is >= target
// (each context-tree node takes one identifier).
inline void advance_ids(Caliper& c, const Attribute& filler, cali_id_t target)
{
    std::vector<Node*> parents;
    for (int i = 0; i < 20000; ++i) {
        Node* p = parents.empty() ? nullptr : parents[parents.size() / 9];
        Node* n = c.make_tree_entry(filler, Variant((int) i), p);
        if (!n) return;
        parents.push_back(n);
        if (n->id() + 1 >= target) return;
    }
}

inline cali_attr_type type_of(int t)
{
    static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_STRING, CALI_TYPE_DOUBLE, CALI_TYPE_UINT, CALI_TYPE_BOOL };
    return ty[t % 5];
}
