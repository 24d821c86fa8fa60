// Simulated MPI: every rank is a simulated thread.  Stub of the MPI calls the code
// under test makes; message latency, eager/rendezvous sends and slow ranks are
// decided by the simulator.  Non-overtaking order per (sender, receiver,
// communicator) is kept, as MPI guarantees.
// Built without instrumentation; plain C data structures only.
#include "core.h"
#include <stdlib.h>
#include <string.h>

namespace sim {
void mpi_block(void* obj, uint64_t until);
void mpi_wake(void* obj);

struct Comm { int id; int nranks; int ranks[64]; Comm* next; uint64_t uid; Comm* parent; int dups[64]; Comm* kids[64]; int nkids; };
struct Msg { Comm* comm; int src, dst, tag; bool coll; size_t len; char* data; uint64_t at; bool sync; volatile bool taken; Msg* next; };
struct Stat { int src, tag, err, canc; size_t ucount; };

static int  g_nranks;
static bool g_mpi;
static __thread int t_rank = -1;
static Msg *g_head, *g_tail;
static char g_qobj;
static uint64_t g_nmsgs, g_bytes, g_finalized;
static bool g_fin[256];

static bool g_virtual; static int g_vrank; // one real process, all other ranks are simulated peers
static volatile bool g_gate; static volatile int g_parked, g_threads; static char g_pobj;
void mpi_start(int nranks) { g_nranks = nranks; g_mpi = true; }
void mpi_rank(int r) { t_rank = r; }
uint64_t mpi_messages() { return g_nmsgs; }
} // namespace sim
using namespace sim;

extern "C" {
char ompi_mpi_comm_world[1024], ompi_mpi_comm_self[1024], ompi_mpi_comm_null[1024], ompi_mpi_byte[1024], ompi_mpi_char[1024], ompi_mpi_int[1024], ompi_mpi_uint64_t[1024], ompi_mpi_unsigned[1024], ompi_mpi_group_null[1024], ompi_request_null[1024], ompi_mpi_datatype_null[1024], ompi_mpi_op_sum[1024];
void sim_mpi_unimplemented() { harness_error("call of an MPI function that the simulation does not provide"); }
}
static Comm* comm_of(void* c)
{
    if (c == ompi_mpi_comm_world) {
        Comm* w = *(Comm**) ompi_mpi_comm_world;
        if (!w) {
            w = (Comm*) calloc(1, sizeof(Comm)); *(Comm**) ompi_mpi_comm_world = w;
            if (g_virtual) { w->nranks = g_nranks; for (int i = 0; i < g_nranks; ++i) w->ranks[i] = i; w->uid = 1; }
        }
        return w;
    }
    if (g_virtual && c == ompi_mpi_comm_self) {
        Comm* w = *(Comm**) ompi_mpi_comm_self;
        if (!w) { w = (Comm*) calloc(1, sizeof(Comm)); *(Comm**) ompi_mpi_comm_self = w; w->nranks = 1; w->ranks[0] = g_vrank; w->uid = 2; }
        return w;
    }
    return (Comm*) c;
}
static size_t tsize(void* t)
{
    if (t == ompi_mpi_byte || t == ompi_mpi_char) return 1;
    if (t == ompi_mpi_int || t == ompi_mpi_unsigned) return 4;
    if (t == ompi_mpi_uint64_t) return 8;
    if (t == ompi_mpi_datatype_null) fail("use of MPI_DATATYPE_NULL, which ends an MPI program");
    harness_error("unknown MPI datatype");
}
static int rank_() { return t_rank < 0 ? 0 : t_rank; }

// ---- one process (any number of threads) whose peers are simulated: every receive gets a
// message of a decided source, tag and size after a decided delay; sends complete after one.
#include "vmpi.h"
struct Request { int kind; bool persistent, active, cancelled, is_recv; int peer, tag, cap; void* type; Comm* comm; uint64_t uid, at; int m_src, m_tag; size_t m_len; Request* next; };
enum { MAXEV = 512 };
static __thread VEv* t_ev; static __thread int t_nev;
static uint64_t g_uid = 2;
static Request* g_free_req; static Comm* g_free_comm;
namespace sim {
void mpi_virtual(int nranks, int rank) { g_nranks = nranks; g_vrank = rank; g_mpi = g_virtual = true; }
uint64_t vmpi_comm_uid(void* c) { return comm_of(c)->uid; }
int vmpi_comm_ranks(void* c, int* out) { Comm* m = comm_of(c); memcpy(out, m->ranks, m->nranks * sizeof(int)); return m->nranks; }
int vmpi_drain(VEv* out) { int n = t_nev; if (n) memcpy(out, t_ev, n * sizeof(VEv)); t_nev = 0; return n; }
//   While the gate is closed no call returns from the simulated MPI
//   and no thread gets beyond vmpi_between_calls(). Closing waits until all threads are held.
void vmpi_gate(bool closed)
{
    g_gate = closed;
    if (!closed) { mpi_wake(&g_qobj); return; }
    while (g_parked < g_threads) mpi_block(&g_pobj, ~0ull);
}
void vmpi_between_calls()
{
    if (!g_gate) return;
    ++g_parked; mpi_wake(&g_pobj);
    while (g_gate) mpi_block(&g_qobj, ~0ull);
    --g_parked;
}
void vmpi_thread(int d) { g_threads += d; if (d < 0) mpi_wake(&g_pobj); }
}
static void ev(int what, uint64_t uid, int peer, int tag, size_t len, Comm* c)
{
    if (!t_ev) t_ev = (VEv*) calloc(MAXEV, sizeof(VEv));
    if (t_nev >= MAXEV) harness_error("too many MPI events");
    t_ev[t_nev++] = VEv { what, uid, peer, tag, (int64_t) len, c ? c->uid : 0 };
    observe(uid * 31 + what + len * 131);
}
static void v_until(uint64_t at)
{
    //   the thread is inside of the MPI library: it may be held here by the gate
    ++g_parked;
    mpi_wake(&g_pobj);
    while (now_ns() < at) mpi_block(&g_qobj, at);
    while (g_gate) mpi_block(&g_qobj, ~0ull);
    --g_parked;
}
static uint64_t v_delay(const char* what) { return fault(what) ? now_ns() + 1000 * (1 + choice("msg_delay_us", 50000)) : now_ns() + choice("msg_latency", 3) * 700; }
static int v_rank(Comm* c) { for (int i = 0; i < c->nranks; ++i) if (c->ranks[i] == g_vrank) return i; return -1; }
static Comm* v_comm(int n, const int* r)
{
    Comm* c = g_free_comm;
    if (c) g_free_comm = c->next; else c = (Comm*) calloc(1, sizeof(Comm));
    c->nranks = n; memmove(c->ranks, r, n * sizeof(int)); c->uid = ++g_uid;
    return c;
}
static void v_comm_free(Comm* c) { c->uid = 0; c->next = g_free_comm; g_free_comm = c; }
static void v_message(Comm* c, int src, int tag, size_t cap, size_t ts, int* ms, int* mt, size_t* ml)
{
    *ms = src >= 0 ? src : (int) choice("msg_src", c->nranks);
    *mt = tag >= 0 ? tag : (int) choice("msg_tag", 4);
    *ml = ts * choice("msg_len", cap + 1);
}
static void status(Stat* s, int src, int tag, size_t len, bool canc) { if (s) { s->src = src; s->tag = tag; s->ucount = len; s->canc = canc; } }
static int v_send(int n, void* t, int dst, int tag, void* c)
{
    point(PT_SYNC);
    Comm* m = comm_of(c);
    ev(V_SENT, 0, dst, tag, n * tsize(t), m);
    v_until(v_delay("msg_rendezvous"));
    return 0;
}
static int v_recv(int n, void* t, int src, int tag, void* c, Stat* s)
{
    point(PT_SYNC);
    Comm* m = comm_of(c); int ms, mt; size_t ml;
    v_message(m, src, tag, n, tsize(t), &ms, &mt, &ml);
    v_until(v_delay("msg_delay"));
    ev(V_RECVD, 0, ms, mt, ml, m);
    status(s, ms, mt, ml, false);
    return 0;
}
static int v_coll() { point(PT_SYNC); v_until(v_delay("rank_slow")); return 0; }
static Request* v_request(bool recv, bool pers, int n, void* t, int peer, int tag, void* c)
{
    Request* r = g_free_req;
    if (r && choice("req_reuse", 4)) g_free_req = r->next; else r = (Request*) calloc(1, sizeof(Request));
    memset((void*) r, 0, sizeof *r);
    r->is_recv = recv; r->persistent = pers; r->peer = peer; r->tag = tag; r->cap = n; r->type = t; r->comm = comm_of(c); r->uid = ++g_uid;
    if (pers) ev(V_INIT, r->uid, peer, tag, 0, r->comm);
    return r;
}
static void v_activate(Request* r)
{
    r->active = true; r->cancelled = false;
    r->at = v_delay(r->is_recv ? "msg_delay" : "msg_rendezvous");
    if (r->is_recv) { v_message(r->comm, r->peer, r->tag, r->cap, tsize(r->type), &r->m_src, &r->m_tag, &r->m_len); ev(V_POSTED, r->uid, r->peer, r->tag, 0, r->comm); }
    else ev(V_SENT, r->uid, r->peer, r->tag, r->cap * tsize(r->type), r->comm);
}
static void v_release(Request* r) { r->next = g_free_req; g_free_req = r; r->uid = 0; }
//   Completes an active request: fills the status, deallocates the request unless it is persistent
static void v_complete(void** h, Stat* s)
{
    Request* r = (Request*) *h;
    if (r->is_recv && !r->cancelled) { ev(V_RECVD, r->uid, r->m_src, r->m_tag, r->m_len, r->comm); status(s, r->m_src, r->m_tag, r->m_len, false); }
    else if (r->is_recv) { ev(V_CANCELLED, r->uid, 0, 0, 0, r->comm); status(s, -77, -77, 77777, true); }
    else { ev(V_DONE, r->uid, 0, 0, 0, r->comm); status(s, -78, -78, 78787, false); } // undefined fields
    r->active = false;
    if (!r->persistent) { v_release(r); *h = ompi_request_null; }
}
static bool v_act(void* h) { return h != ompi_request_null && ((Request*) h)->active; }
static bool v_ready(void* h) { return v_act(h) && ((Request*) h)->at <= now_ns(); }
static void v_empty(Stat* s) { status(s, -1, -1, 0, false); }
extern "C" {
#define V_ISEND(f) int f(const void*, int n, void* t, int d, int tag, void* c, void** h) { point(PT_SYNC); Request* r = v_request(false, false, n, t, d, tag, c); v_activate(r); *h = r; return 0; }
V_ISEND(PMPI_Isend) V_ISEND(PMPI_Issend) V_ISEND(PMPI_Ibsend) V_ISEND(PMPI_Irsend)
#define V_SINIT(f) int f(const void*, int n, void* t, int d, int tag, void* c, void** h) { point(PT_SYNC); *h = v_request(false, true, n, t, d, tag, c); return 0; }
V_SINIT(PMPI_Send_init) V_SINIT(PMPI_Ssend_init) V_SINIT(PMPI_Bsend_init) V_SINIT(PMPI_Rsend_init)
int PMPI_Ssend(const void*, int n, void* t, int d, int tag, void* c) { return v_send(n, t, d, tag, c); }
int PMPI_Bsend(const void*, int n, void* t, int d, int tag, void* c) { return v_send(n, t, d, tag, c); }
int PMPI_Rsend(const void*, int n, void* t, int d, int tag, void* c) { return v_send(n, t, d, tag, c); }
int PMPI_Irecv(void*, int n, void* t, int s, int tag, void* c, void** h) { point(PT_SYNC); Request* r = v_request(true, false, n, t, s, tag, c); v_activate(r); *h = r; return 0; }
int PMPI_Recv_init(void*, int n, void* t, int s, int tag, void* c, void** h) { point(PT_SYNC); *h = v_request(true, true, n, t, s, tag, c); return 0; }
int PMPI_Start(void** h) { point(PT_SYNC); v_activate((Request*) *h); return 0; }
int PMPI_Startall(int n, void** h) { point(PT_SYNC); for (int i = 0; i < n; ++i) v_activate((Request*) h[i]); return 0; }
int PMPI_Cancel(void** h) { point(PT_SYNC); Request* r = (Request*) *h; if (r->is_recv && r->at > now_ns() && choice("cancel", 2)) { r->cancelled = true; r->at = now_ns(); } return 0; }
int PMPI_Test_cancelled(const Stat* s, int* f) { *f = s->canc; return 0; }
int PMPI_Request_free(void** h) { point(PT_SYNC); v_release((Request*) *h); *h = ompi_request_null; return 0; }
int PMPI_Wait(void** h, Stat* s)
{
    point(PT_SYNC);
    if (!v_act(*h)) { v_empty(s); return 0; }
    v_until(((Request*) *h)->at);
    v_complete(h, s);
    return 0;
}
int PMPI_Test(void** h, int* f, Stat* s)
{
    point(PT_SYNC); advance_ns(500);
    *f = !v_act(*h) || v_ready(*h);
    if (!v_act(*h)) v_empty(s); else if (*f) v_complete(h, s);
    return 0;
}
static uint64_t v_last(int n, void** h) { uint64_t t = 0; for (int i = 0; i < n; ++i) if (v_act(h[i]) && ((Request*) h[i])->at > t) t = ((Request*) h[i])->at; return t; }
static uint64_t v_first(int n, void** h) { uint64_t t = ~0ull; for (int i = 0; i < n; ++i) if (v_act(h[i]) && ((Request*) h[i])->at < t) t = ((Request*) h[i])->at; return t; }
static int v_nact(int n, void** h) { int k = 0; for (int i = 0; i < n; ++i) k += v_act(h[i]); return k; }
static int v_pick(int n, void** h) { int r[64], k = 0; for (int i = 0; i < n && k < 64; ++i) if (v_ready(h[i])) r[k++] = i; return k ? r[k > 1 ? choice("req_pick", k) : 0] : -1; }
static void v_all(int n, void** h, Stat* s) { for (int i = 0; i < n; ++i) { Stat* p = s ? s + i : nullptr; if (v_act(h[i])) v_complete(h + i, p); else v_empty(p); } }
int PMPI_Waitall(int n, void** h, Stat* s) { point(PT_SYNC); v_until(v_last(n, h)); v_all(n, h, s); return 0; }
int PMPI_Testall(int n, void** h, int* f, Stat* s)
{
    point(PT_SYNC); advance_ns(500);
    *f = v_last(n, h) <= now_ns();
    if (*f) v_all(n, h, s);
    return 0;
}
int PMPI_Waitany(int n, void** h, int* idx, Stat* s)
{
    point(PT_SYNC);
    if (!v_nact(n, h)) { *idx = -32766; v_empty(s); return 0; }
    v_until(v_first(n, h));
    *idx = v_pick(n, h);
    v_complete(h + *idx, s);
    return 0;
}
int PMPI_Testany(int n, void** h, int* idx, int* f, Stat* s)
{
    point(PT_SYNC); advance_ns(500);
    *idx = v_pick(n, h);
    if (*idx >= 0) { *f = 1; v_complete(h + *idx, s); return 0; }
    *f = !v_nact(n, h); *idx = -32766;
    if (*f) v_empty(s);
    return 0;
}
static void v_some(int n, void** h, int* out, int* idx, Stat* s)
{
    int k = 0, first = v_pick(n, h);
    for (int i = 0; i < n; ++i)
        if (v_ready(h[i]) && (i == first || choice("some", 4))) { idx[k] = i; v_complete(h + i, s ? s + k : nullptr); ++k; }
    *out = k;
}
int PMPI_Waitsome(int n, void** h, int* out, int* idx, Stat* s)
{
    point(PT_SYNC);
    if (!v_nact(n, h)) { *out = -32766; return 0; }
    v_until(v_first(n, h));
    v_some(n, h, out, idx, s);
    return 0;
}
int PMPI_Testsome(int n, void** h, int* out, int* idx, Stat* s)
{
    point(PT_SYNC); advance_ns(500);
    if (!v_nact(n, h)) { *out = -32766; return 0; }
    v_some(n, h, out, idx, s);
    return 0;
}
int PMPI_Sendrecv(const void*, int sn, void* st, int dst, int stag, void*, int rn, void* rt, int src, int rtag, void* c, Stat* s)
{
    point(PT_SYNC);
    ev(V_SENT, 0, dst, stag, sn * tsize(st), comm_of(c));
    return v_recv(rn, rt, src, rtag, c, s);
}
int PMPI_Sendrecv_replace(void*, int n, void* t, int dst, int stag, int src, int rtag, void* c, Stat* s)
{
    point(PT_SYNC);
    ev(V_SENT, 0, dst, stag, n * tsize(t), comm_of(c));
    return v_recv(n, t, src, rtag, c, s);
}
int PMPI_Comm_split(void* c, int, int, void** o)
{
    point(PT_SYNC);
    Comm* p = comm_of(c); int r[64], n = 0;
    for (int i = 0; i < p->nranks; ++i) if (p->ranks[i] == g_vrank || choice("split", 2)) r[n++] = p->ranks[i];
    int k = (int) choice("split_order", 3);
    for (int i = 0; k == 1 && i < n / 2; ++i) { int x = r[i]; r[i] = r[n - 1 - i]; r[n - 1 - i] = x; }
    if (k == 2 && n > 1) { int x = r[0]; memmove(r, r + 1, (n - 1) * sizeof(int)); r[n - 1] = x; }
    *o = v_comm(n, r);
    return 0;
}
int PMPI_Group_translate_ranks(void* a, int n, const int* in, void* b, int* out)
{
    Comm *x = (Comm*) a, *y = (Comm*) b;
    for (int i = 0; i < n; ++i) { out[i] = -32766; for (int j = 0; j < y->nranks; ++j) if (y->ranks[j] == x->ranks[in[i]]) out[i] = j; }
    return 0;
}
#define V_COLL(f, args) int f args { if (!g_virtual) sim_mpi_unimplemented(); return v_coll(); }
V_COLL(PMPI_Scatter, (const void*, int, void*, void*, int, void*, int, void*))
V_COLL(PMPI_Scatterv, (const void*, const int*, const int*, void*, void*, int, void*, int, void*))
V_COLL(PMPI_Gather, (const void*, int, void*, void*, int, void*, int, void*))
V_COLL(PMPI_Gatherv, (const void*, int, void*, void*, const int*, const int*, void*, int, void*))
V_COLL(PMPI_Reduce, (const void*, void*, int, void*, void*, int, void*))
V_COLL(PMPI_Scan, (const void*, void*, int, void*, void*, void*))
V_COLL(PMPI_Exscan, (const void*, void*, int, void*, void*, void*))
V_COLL(PMPI_Reduce_scatter, (const void*, void*, const int*, void*, void*, void*))
V_COLL(PMPI_Allreduce, (const void*, void*, int, void*, void*, void*))
V_COLL(PMPI_Allgatherv, (const void*, int, void*, void*, const int*, const int*, void*, void*))
V_COLL(PMPI_Alltoall, (const void*, int, void*, void*, int, void*, void*))
V_COLL(PMPI_Alltoallv, (const void*, const int*, const int*, void*, void*, const int*, const int*, void*, void*))
}

static void post(Comm* c, int dst, int tag, bool coll, const void* b, size_t n, bool may_sync)
{
    Msg* m = (Msg*) calloc(1, sizeof(Msg));
    m->comm = c; m->src = rank_(); m->dst = dst; m->tag = tag; m->coll = coll; m->len = n;
    m->data = (char*) malloc(n ? n : 1);
    if (n) memcpy(m->data, b, n);
    m->at = now_ns();
    if (fault("msg_delay")) m->at += 1000 * (1 + choice("msg_delay_us", 50000));
    m->sync = may_sync && fault("msg_rendezvous");
    // keep per-pair order: never deliverable before an earlier message of the pair
    for (Msg* x = g_head; x; x = x->next)
        if (x->src == m->src && x->dst == m->dst && x->at > m->at) m->at = x->at;
    if (g_tail) g_tail->next = m; else g_head = m;
    g_tail = m;
    g_nmsgs++; g_bytes += n;
    observe((uint64_t) (m->src * 1000 + dst) * 7919 + n);
    mpi_wake(&g_qobj);
    if (m->sync) { while (!m->taken) mpi_block(&g_qobj, ~0ull); }
}
static Msg* match(Comm* c, int src, int tag, bool coll, bool remove)
{
    for (;;) {
        point(PT_SYNC);
        // first message of each sender that matches; among senders the simulator decides
        Msg* cand[256]; int n = 0; uint64_t next = ~0ull;
        for (Msg* m = g_head; m; m = m->next) {
            if (m->comm != c || m->dst != rank_() || m->coll != coll) continue;
            if (src >= 0 && m->src != src) continue;
            if (tag >= 0 && m->tag != tag) continue;
            bool dup = false;
            for (int i = 0; i < n; ++i) dup = dup || cand[i]->src == m->src;
            if (dup) continue;
            if (m->at > now_ns()) { if (m->at < next) next = m->at; continue; }
            if (n < 256) cand[n++] = m;
        }
        if (n) {
            Msg* m = cand[n > 1 ? choice("msg_match", n) : 0];
            if (remove) {
                Msg** pp = &g_head; Msg* prev = nullptr;
                while (*pp != m) { prev = *pp; pp = &(*pp)->next; }
                *pp = m->next;
                if (g_tail == m) g_tail = prev;
                m->next = nullptr;
                m->taken = true;
                if (m->sync) mpi_wake(&g_qobj);
            }
            return m;
        }
        mpi_block(&g_qobj, next);
    }
}
extern "C" {
int PMPI_Init(int*, char***) { return 0; }
int PMPI_Init_thread(int*, char***, int r, int* p) { *p = r; return 0; }
int PMPI_Initialized(int* f) { *f = g_mpi; return 0; }
int PMPI_Finalized(int* f) { *f = g_mpi && g_fin[rank_()]; return 0; }
int PMPI_Finalize() { g_fin[rank_()] = true; return 0; }
int PMPI_Abort(void*, int code) { fail("MPI_Abort(%d)", code); }
int PMPI_Comm_rank(void* c, int* r) { if (g_virtual) { *r = v_rank(comm_of(c)); return 0; } *r = c == ompi_mpi_comm_self ? 0 : rank_(); return 0; }
int PMPI_Comm_size(void* c, int* n) { if (g_virtual) { *n = comm_of(c)->nranks; return 0; } *n = c == ompi_mpi_comm_self || !g_mpi ? 1 : g_nranks; return 0; }
int PMPI_Comm_dup(void* c, void** o)
{
    Comm* p = comm_of(c);
    if (g_virtual) { *o = v_comm(p->nranks, p->ranks); return 0; }
    int k = p->dups[rank_()]++;
    if (k >= 64) harness_error("too many communicator duplicates");
    if (!p->kids[k]) { p->kids[k] = (Comm*) calloc(1, sizeof(Comm)); p->kids[k]->parent = p; }
    // collective: everyone waits for everyone
    Comm* n = p->kids[k];
    n->id++;
    mpi_wake(&g_qobj);
    while (n->id < g_nranks) mpi_block(&g_qobj, ~0ull);
    *o = n;
    return 0;
}
int PMPI_Comm_free(void** c) { if (g_virtual) v_comm_free((Comm*) *c); *c = ompi_mpi_comm_null; return 0; }
int PMPI_Comm_group(void* c, void** g) { *g = comm_of(c); return 0; }
int PMPI_Group_rank(void*, int* r) { *r = rank_(); return 0; }
int PMPI_Comm_compare(void* a, void* b, int* r)
{
    *r = a == b ? 0 : 1;
    if (g_virtual && a != b) { Comm *x = comm_of(a), *y = comm_of(b); *r = 3;
        if (x->nranks == y->nranks) {
            int same = 0;
            for (int i = 0; i < x->nranks; ++i) for (int j = 0; j < y->nranks; ++j) same += x->ranks[i] == y->ranks[j];
            *r = !memcmp(x->ranks, y->ranks, x->nranks * sizeof(int)) ? 1 : same == x->nranks ? 2 : 3;
        } }
    return 0;
}
int PMPI_Type_size(void* t, int* n) { *n = (int) tsize(t); return 0; }
int PMPI_Get_count(const Stat* s, void* t, int* n) { *n = (int) (s->ucount / tsize(t)); return 0; }
int PMPI_Send(const void* b, int n, void* t, int dst, int tag, void* c)
{
    if (g_virtual) return v_send(n, t, dst, tag, c);
    point(PT_SYNC);
    if (fault("rank_slow")) advance_ns(1000 * (1 + choice("rank_slow_us", 100000)));
    post(comm_of(c), dst, tag, false, b, n * tsize(t), true);
    return 0;
}
int PMPI_Probe(int src, int tag, void* c, Stat* s)
{
    Msg* m = match(comm_of(c), src, tag, false, false);
    if (s) { s->src = m->src; s->tag = m->tag; s->err = 0; s->ucount = m->len; }
    return 0;
}
int PMPI_Recv(void* b, int n, void* t, int src, int tag, void* c, Stat* s)
{
    if (g_virtual) return v_recv(n, t, src, tag, c, s);
    Msg* m = match(comm_of(c), src, tag, false, true);
    size_t cap = n * tsize(t);
    if (m->len > cap) fail("message of %zu bytes received into a buffer of %zu bytes", m->len, cap);
    memcpy(b, m->data, m->len);
    if (s) { s->src = m->src; s->tag = m->tag; s->err = 0; s->ucount = m->len; }
    free(m->data);
    return 0;
}
int PMPI_Bcast(void* b, int n, void* t, int root, void* c)
{
    if (g_virtual) return v_coll();
    point(PT_SYNC);
    if (fault("rank_slow")) advance_ns(1000 * (1 + choice("rank_slow_us", 100000)));
    if (rank_() == root) {
        for (int i = 0; i < g_nranks; ++i) if (i != root) post(comm_of(c), i, 0, true, b, n * tsize(t), false);
    } else {
        Msg* m = match(comm_of(c), root, -1, true, true);
        if (m->len != n * tsize(t)) fail("MPI_Bcast size mismatch: root sent %zu bytes, receiver expects %zu", m->len, n * tsize(t));
        memcpy(b, m->data, m->len);
        free(m->data);
    }
    return 0;
}
int PMPI_Allgather(const void* sb, int sn, void* st, void* rb, int, void*, void* c)
{
    if (g_virtual) return v_coll();
    size_t k = sn * tsize(st);
    for (int i = 0; i < g_nranks; ++i) if (i != rank_()) post(comm_of(c), i, 0, true, sb, k, false);
    memcpy((char*) rb + k * rank_(), sb, k);
    for (int i = 0; i < g_nranks; ++i)
        if (i != rank_()) { Msg* m = match(comm_of(c), i, -1, true, true); memcpy((char*) rb + k * i, m->data, k); free(m->data); }
    return 0;
}
int PMPI_Barrier(void* c) { if (g_virtual) return v_coll(); char x = 0; char* r = (char*) calloc(1, 256); PMPI_Allgather(&x, 1, ompi_mpi_byte, r, 1, ompi_mpi_byte, c); free(r); return 0; }
}
