// Helpers shared by the property workloads.
#pragma once
#include "../sim/sim.h"

#include <caliper/cali.h>
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/common/Node.h>
#include <caliper/common/Attribute.h>
#include <caliper/common/Variant.h>

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

using cali::Attribute;
using cali::Caliper;
using cali::CaliperMetadataAccessInterface;
using cali::Channel;
using cali::ChannelBody;
using cali::Entry;
using cali::FixedSizeSnapshotRecord;
using cali::Node;
using cali::SnapshotBuilder;
using cali::SnapshotView;
using cali::Variant;

typedef std::pair<std::string, std::string> KV;
typedef std::vector<KV>                     KVs;

inline std::string strf(const char* fmt, ...)
{
    char    b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}

inline std::string show(const KVs& v)
{
    std::string s = "[";
    for (auto& p : v) {
        if (s.size() > 900) { s += " ..."; break; }
        s += (s.size() > 1 ? " " : "") + p.first + "=" + p.second;
    }
    return s + "]";
}

// Decodes a record into (attribute name, value) pairs: tree paths root first.
inline void decode_node(CaliperMetadataAccessInterface& db, const Node* node, KVs& out, const char* where = "")
{
    std::vector<const Node*> path;
    for (const Node* n = node; n && n->attribute() != CALI_INV_ID; n = n->parent()) {
        if (path.size() > 400) sim::fail("context tree path does not end (%s)", where);
        path.push_back(n);
    }
    for (auto it = path.rbegin(); it != path.rend(); ++it) {
        Attribute a = db.get_attribute((*it)->attribute());
        if (!a) { sim::fail("context tree node refers to an unknown attribute (%s)", where); }
        out.push_back({ a.name(), (*it)->data().to_string() });
    }
}
inline KVs decode(CaliperMetadataAccessInterface& db, const Entry* b, const Entry* e)
{
    KVs out;
    for (; b != e; ++b) {
        if (b->is_reference()) decode_node(db, b->node(), out);
        else if (b->is_immediate()) {
            Attribute a = db.get_attribute(b->attribute());
            if (!a) sim::fail("record entry refers to an unknown attribute");
            out.push_back({ a.name(), b->value().to_string() });
        }
    }
    return out;
}
inline KVs decode(CaliperMetadataAccessInterface& db, SnapshotView v) { return decode(db, v.begin(), v.end()); }
inline KVs decode(CaliperMetadataAccessInterface& db, const std::vector<Entry>& v) { return decode(db, v.data(), v.data() + v.size()); }

inline const std::string* find_kv(const KVs& v, const std::string& k)
{
    for (auto& p : v) if (p.first == k) return &p.second;
    return nullptr;
}
inline std::vector<std::string> all_kv(const KVs& v, const std::string& k)
{
    std::vector<std::string> r;
    for (auto& p : v) if (p.first == k) r.push_back(p.second);
    return r;
}
inline int64_t kv_int(const KVs& v, const std::string& k, int64_t d = INT64_MIN)
{
    const std::string* s = find_kv(v, k);
    return s ? (int64_t) strtoll(s->c_str(), nullptr, 10) : d;
}

inline void clean_env()
{
    sim::NoPreempt np;
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    setenv("CALI_CONFIG_FILE", "/nonexistent", 1);
    // per-thread memory pools: small ones reach chunk boundaries (and are faster to clear)
    setenv("CALI_MEMORY_POOL_SIZE", sim::plan().get("bigpool") ? "1048576" : "65536", 1);
    if (int64_t npb = sim::plan().get("npb")) setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", std::to_string(npb).c_str(), 1);
}

inline Channel make_channel(const char* name, const std::map<std::string, std::string>& cfg, bool active = true)
{
    std::map<std::string, std::string> c(cfg);
    if (!c.count("CALI_CHANNEL_CONFIG_CHECK")) c["CALI_CHANNEL_CONFIG_CHECK"] = "false";
    cali_id_t id = cali::create_channel(name, active ? 0 : CALI_CHANNEL_LEAVE_INACTIVE, c);
    return Caliper().get_channel(id);
}

// Runs body(t) on n fresh threads (t = 1..n) plus, if with_main, body(0) here; joins.
inline void run_threads(int n, bool with_main, const std::function<void(int)>& body)
{
    std::vector<std::thread> th;
    th.reserve(n);
    for (int i = 1; i <= n; ++i) th.emplace_back([i, &body] { body(i); });
    if (with_main) body(0);
    for (auto& t : th) t.join();
}

// Persistent threads that execute body(t, phase) in lockstep phases (t = 1..n).
struct Crew {
    std::vector<std::thread> th;
    std::mutex               m;
    std::condition_variable  cv;
    int                      phase = 0, running = 0;
    bool                     quit = false;

    void start(int n, const std::function<void(int, int)>& body)
    {
        th.reserve(n);
        for (int i = 1; i <= n; ++i)
            th.emplace_back([this, i, body] {
                for (int seen = 0;;) {
                    {
                        std::unique_lock<std::mutex> g(m);
                        cv.wait(g, [&] { return quit || phase != seen; });
                        if (quit) return;
                        seen = phase;
                    }
                    body(i, seen - 1);
                    std::lock_guard<std::mutex> g(m);
                    if (--running == 0) cv.notify_all();
                }
            });
    }
    void launch() { std::lock_guard<std::mutex> g(m); ++phase; running = (int) th.size(); cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return running == 0; }); }
    void stop()
    {
        { std::lock_guard<std::mutex> g(m); quit = true; cv.notify_all(); }
        for (auto& t : th) t.join();
        th.clear();
    }
};

// ---------------------------------------------------------------- .cali text
// Independent reader for the documented .cali record format.  Used as an oracle.
struct CaliNode { std::string attr; std::string data; std::string parent; };
struct CaliFile {
    std::map<std::string, std::pair<std::string, std::string>> nodes; // id -> (attr id, data)
    std::map<std::string, std::string>                         parent;
    std::vector<KVs>                                           recs;
    KVs                                                        globals;
    std::vector<std::string>                                   errors;

    std::string name_of(const std::string& attr_id)
    {
        // an attribute node's data is its name (attr id 8 = cali.attribute.name)
        if (attr_id == "8") return "cali.attribute.name";
        if (attr_id == "9") return "cali.attribute.type";
        if (attr_id == "10") return "cali.attribute.prop";
        auto it = nodes.find(attr_id);
        if (it == nodes.end()) { errors.push_back("unknown attribute id " + attr_id); return "?" + attr_id; }
        return it->second.second;
    }
    void path(const std::string& id, KVs& out)
    {
        std::vector<std::string> p;
        std::string              n = id;
        while (!n.empty()) {
            if (p.size() > 500) { errors.push_back("node path loop at " + id); return; }
            if (!nodes.count(n)) { if (atoi(n.c_str()) > 11 || n.empty()) errors.push_back("unknown node id " + n); break; }
            p.push_back(n);
            n = parent[n];
        }
        for (auto it = p.rbegin(); it != p.rend(); ++it) out.push_back({ name_of(nodes[*it].first), nodes[*it].second });
    }
    void parse(const std::string& text)
    {
        size_t pos = 0;
        while (pos < text.size()) {
            size_t e = text.find('\n', pos);
            if (e == std::string::npos) { errors.push_back("last line not terminated"); break; }
            line(text.substr(pos, e - pos));
            pos = e + 1;
        }
    }
    void line(const std::string& l)
    {
        if (l.empty()) return;
        std::map<std::string, std::vector<std::string>> f;
        std::string key, cur; std::vector<std::string>* tgt = nullptr;
        bool in_key = true;
        auto flush = [&] {
            if (in_key) { key = cur; tgt = &f[key]; }
            else if (tgt) tgt->push_back(cur);
            cur.clear();
        };
        for (size_t i = 0; i < l.size(); ++i) {
            char c = l[i];
            if (c == '\\' && i + 1 < l.size()) { char d = l[++i]; cur += d == 'n' ? '\n' : d; continue; }
            if (c == ',') { flush(); in_key = true; continue; }
            if (c == '=' && in_key) { flush(); in_key = false; continue; }
            if (c == '=' && !in_key) { flush(); continue; }
            cur += c;
        }
        flush();
        if (!f.count("__rec") || f["__rec"].size() != 1) { errors.push_back("bad line: " + l.substr(0, 80)); return; }
        std::string rec = f["__rec"][0];
        if (rec == "node") {
            if (f["id"].size() != 1 || f["attr"].size() != 1 || f["data"].size() != 1) { errors.push_back("bad node line: " + l.substr(0, 80)); return; }
            std::string id = f["id"][0];
            if (nodes.count(id)) {
                if (nodes[id] != std::make_pair(f["attr"][0], f["data"][0]) || parent[id] != (f.count("parent") ? f["parent"][0] : "")) errors.push_back("node id " + id + " defined twice with different meaning");
                else errors.push_back("node id " + id + " defined twice");
            }
            if (f.count("parent") && f["parent"].size() == 1) {
                if (!nodes.count(f["parent"][0]) && atoi(f["parent"][0].c_str()) > 11) errors.push_back("node " + id + " written before its parent");
                parent[id] = f["parent"][0];
            }
            nodes[id] = { f["attr"][0], f["data"][0] };
        } else if (rec == "ctx" || rec == "globals") {
            KVs out;
            for (auto& r : f["ref"]) path(r, out);
            if (f["attr"].size() != f["data"].size()) { errors.push_back("attr/data mismatch: " + l.substr(0, 80)); return; }
            for (size_t i = 0; i < f["attr"].size(); ++i) {
                if (!nodes.count(f["attr"][i])) { errors.push_back("record uses attribute id " + f["attr"][i] + " before its definition"); continue; }
                out.push_back({ name_of(f["attr"][i]), f["data"][i] });
            }
            if (rec == "ctx") recs.push_back(out); else globals.insert(globals.end(), out.begin(), out.end());
        } else errors.push_back("unknown record type: " + l.substr(0, 80));
    }
};

inline std::string sim_file(const char* path)
{
    std::string s(sim::file_size(path), '\0');
    if (!s.empty()) s.resize(sim::file_read(path, &s[0], s.size()));
    return s;
}
inline std::string sim_log()
{
    std::string s(1 << 20, '\0');
    s.resize(sim::log_read(&s[0], s.size()));
    return s;
}
