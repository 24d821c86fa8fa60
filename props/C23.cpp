// C23: the io service records the program's I/O exactly and does not change it.
// The program calls its I/O functions through a simulated GOTCHA: once the service has wrapped a
// function, calls go to the wrapper, whose original is the simulated operating system below.
#include "model.h"
#include "services/Services.h"
#include <gotcha/gotcha.h>
#include <sys/stat.h>
#include <cerrno>
using namespace sim;

enum Fn { READ, WRITE, OPEN, CLOSE, STAT, LSTAT, XSTAT, XSTAT64, LXSTAT, LXSTAT64, FSTAT, FXSTAT, FXSTAT64,
          FOPEN, FOPEN64, FDOPEN, FREOPEN, FCLOSE, PRINTF, FPRINTF, VPRINTF, VFPRINTF, FGETC, FGETS, GETCHAR, FREAD, FWRITE, NFN,
          BEGIN = NFN, END, SNAP, PIPE, START, STOP, TOGGLE, NOPS };
static const char* const names[] = { "read", "write", "open", "close", "stat", "lstat", "xstat", "xstat64", "lxstat", "lxstat64", "fstat", "fxstat", "fxstat64",
    "fopen", "fopen64", "fdopen", "freopen", "fclose", "printf", "fprintf", "vprintf", "vfprintf", "fgetc", "fgets", "getchar", "fread", "fwrite" };
enum Cat { C_READ, C_WRITE, C_META };
static Cat cat_of(int f) { return f == READ || (f >= FGETC && f <= FREAD) ? C_READ : f == WRITE || (f >= PRINTF && f <= VFPRINTF) || f == FWRITE ? C_WRITE : C_META; }
static const char* const cat_name[] = { "read", "write", "metadata" };

static void gen(Rng& r, Plan& p)
{
    int nth = (int) r.range(0, r.chance(1, 4) ? 4 : 2);
    p.set("nth", nth);
    p.set("nchn", r.range(1, 3));
    p.set("event", r.below(8));
    p.set("stdpipe", r.chance(1, 4));
    p.set("ctl", r.below(nth + 1));             // the thread that starts and stops channels
    static const int rates[] = { 0, 0, 60000, 200000, 400000 };
    p.set("f_io_err", rates[r.below(5)]);
    p.set("f_io_short", rates[r.below(5)]);
    p.set("f_io_block", rates[r.below(4)]);
    p.set("f_open_err", rates[r.below(5)]);
    p.set("f_no_mounts", r.chance(1, 12) ? 1000000 : 0);
    p.set("npaths", r.range(1, 30));
    p.set("toggles", r.chance(1, 2));
    int64_t mask = r.chance(1, 2) ? -1 : (int64_t) (r.next() | 1 << OPEN | 1 << FOPEN);
    int nops = (int) r.range(3, r.chance(1, 5) ? 80 : 25);
    for (int t = 0; t <= nth; ++t)
        for (int i = 0; i < nops; ++i) {
            unsigned x = (unsigned) r.below(100); int k;
            bool ctl = t == p.get("ctl");
            if (ctl && x < 14) k = (int) (x < 6 ? START : x < 11 ? STOP : TOGGLE);
            else if (x < 22) k = (int) (x < 18 ? BEGIN : END);
            else if (x < 25) k = SNAP;
            else if (x < 28) k = PIPE;
            else { k = x < 50 ? (int) (x < 38 ? OPEN : FOPEN) : (int) r.below(NFN); if (!(mask >> k & 1)) k = r.chance(1, 2) ? READ : FWRITE; }
            p.add(t, k, (int) r.below(64), (int) r.below(64), (int) r.below(5000));
        }
    gen_schedule(r, p, (nth + 1) * nops * 150);
}

// ---------------------------------------------------------------- the simulated operating system
static const char* const MOUNTS[][2] = { { "/", "ext4" }, { "/proc", "proc" }, { "/home", "nfs" }, { "/home/user/data", "lustre" }, { "/tmp", "tmpfs" }, { "/run/user/1000", "fuse" }, { "/tmp", "xfs" } };
static const char* const PATHS[] = { "/home/user/data/f1", "/home/user/f2", "/home/f3", "/tmp/f4", "/f5", "/tmp/a/b/c/d", "/home/user/data/sub/f7", "/homer/f8", "/run/user/0/f9", "/run/user/1000/f10",
    "/run/f11", "/home/user/data", "/tmp", "/home", "rel", "sub/rel2", "/tm", "/tmpx/f", "/home/user/database/f", "/proc/self/maps", "/", "/home//user/f", "/var/log/x", "/etc/passwd", "/tmp/f25", "/tmp/f26", "/home/f27", "/usr/lib/f28", "/home/user/data/f29", "/home/user/data/f30" };
static const char CWD[] = "/home/user/";
struct Fd { bool used = false; std::string path; uint64_t epoch = 0; }; // epoch: when the service certainly saw it opened
static const int NFD = 120;
static Fd* fds;
struct Wrapped { void* fn = nullptr; };
static Wrapped wrapped[NFN];

static std::pair<const char*, const char*> mount_of(const std::string& p) // mount point and file system
{
    std::pair<const char*, const char*> best { nullptr, nullptr }; size_t bl = 0;
    for (auto& m : MOUNTS) {
        size_t l = strlen(m[0]);
        bool in = l == 1 || (p.compare(0, l, m[0]) == 0 && (p.size() == l || p[l] == '/'));
        if (in && (l > bl || (l == bl && best.first))) { best = { m[0], m[1] }; bl = l; }
    }
    return best;
}

struct Call { // what the operating system saw of the current call
    int n = 0, fn = -1; uintptr_t a[4] = { 0, 0, 0, 0 }; long ret = 0; int err = 0; std::string text; std::string src; // path or source of the data
};
static thread_local Call* call;

static void enter(int fn, uintptr_t a = 0, uintptr_t b = 0, uintptr_t c = 0, uintptr_t d = 0)
{
    if (!call) fail("%s is called outside of the program's I/O calls", names[fn]);
    call->n++; call->fn = fn; call->a[0] = a; call->a[1] = b; call->a[2] = c; call->a[3] = d;
    if (fault("io_block")) advance_ns(1000 * (1 + choice("io_ns", 5000)));
    yield();
}
static long done(long v, int e = 0)
{
    call->ret = v; call->err = v < 0 || e ? e : 0;
    if (e) errno = e;
    return v;
}
static long transfer(size_t n)
{
    if (n && fault("io_err")) { static const int es[] = { EINTR, EIO, EAGAIN, ENOSPC }; return done(-1, es[choice("io_errno", 4)]); }
    if (n && fault("io_short")) n = choice("io_len", n);
    return done((long) n);
}
static int new_fd(const char* path)
{
    NoPreempt np;
    for (int i = 3; i < NFD; ++i) if (!fds[i].used) {
        fds[i].used = true;
        fds[i].path = path[0] == '/' ? path : std::string(CWD) + path;
        return i;
    }
    return -1;
}
struct FObj { FILE f; int fd; };
static FILE* new_file(int fd) { NoPreempt np; FObj* o = (FObj*) calloc(1, sizeof(FObj)); o->f._flags = (int) 0xFBAD2000; o->f._fileno = fd; o->fd = fd; return &o->f; }
static int fd_of(FILE* f) { return ((FObj*) f)->fd; }

static ssize_t os_read(int fd, void* b, size_t n) { enter(READ, fd, (uintptr_t) b, n); return transfer(n); }
static ssize_t os_write(int fd, const void* b, size_t n) { enter(WRITE, fd, (uintptr_t) b, n); return transfer(n); }
static int os_open(const char* p, int fl, mode_t m)
{
    enter(OPEN, (uintptr_t) p, fl, m);
    if (fault("open_err")) return (int) done(-1, ENOENT);
    int fd = new_fd(p);
    return (int) (fd < 0 ? done(-1, EMFILE) : done(fd));
}
static int os_close(int fd)
{
    enter(CLOSE, fd);
    { NoPreempt np; fds[fd] = Fd(); }
    return (int) (fault("io_err") ? done(-1, EIO) : done(0));
}
#define PSTAT(N, F) static int os_##N(const char* p, struct stat* b) { enter(F, (uintptr_t) p, (uintptr_t) b); return (int) (fault("open_err") ? done(-1, ENOENT) : done(0)); }
PSTAT(stat, STAT) PSTAT(lstat, LSTAT)
#define XST(N, F) static int os_##N(int v, const char* p, struct stat* b) { enter(F, v, (uintptr_t) p, (uintptr_t) b); return (int) (fault("open_err") ? done(-1, ENOENT) : done(0)); }
XST(xstat, XSTAT) XST(xstat64, XSTAT64) XST(lxstat, LXSTAT) XST(lxstat64, LXSTAT64)
static int os_fstat(int fd, struct stat* b) { enter(FSTAT, fd, (uintptr_t) b); return (int) done(0); }
static int os_fxstat(int v, int fd, struct stat* b) { enter(FXSTAT, v, fd, (uintptr_t) b); return (int) done(0); }
static int os_fxstat64(int v, int fd, struct stat* b) { enter(FXSTAT64, v, fd, (uintptr_t) b); return (int) done(0); }
static FILE* open_file(int fn, const char* p, const char* m)
{
    enter(fn, (uintptr_t) p, (uintptr_t) m);
    if (fault("open_err")) { done(0, ENOENT); return nullptr; }
    int fd = new_fd(p);
    if (fd < 0) { done(0, EMFILE); return nullptr; }
    FILE* f = new_file(fd); done((long) (uintptr_t) f); return f;
}
static FILE* os_fopen(const char* p, const char* m) { return open_file(FOPEN, p, m); }
static FILE* os_fopen64(const char* p, const char* m) { return open_file(FOPEN64, p, m); }
static FILE* os_fdopen(int fd, const char* m)
{
    enter(FDOPEN, fd, (uintptr_t) m);
    if (fault("open_err")) { done(0, EINVAL); return nullptr; }
    FILE* f = new_file(fd); done((long) (uintptr_t) f); return f;
}
static FILE* os_freopen(const char* p, const char* m, FILE* f)
{
    enter(FREOPEN, (uintptr_t) p, (uintptr_t) m, (uintptr_t) f);
    NoPreempt np;
    if (p) fds[fd_of(f)].path = p[0] == '/' ? p : std::string(CWD) + p; // (null: only the mode changes)
    done((long) (uintptr_t) f); return f;
}
static int os_fclose(FILE* f)
{
    enter(FCLOSE, (uintptr_t) f);
    NoPreempt np;
    fds[fd_of(f)] = Fd(); free(f);
    return (int) (fault("io_err") ? done(-1, EIO) : done(0));
}
static int print(const char* fmt, va_list ap)
{
    NoPreempt np;
    char b[600]; vsnprintf(b, sizeof b, fmt, ap); call->text = b;
    if (fault("io_err")) return (int) done(-1, EIO);
    return (int) done((long) strlen(b));
}
static int os_vprintf(const char* fmt, va_list ap) { enter(VPRINTF, (uintptr_t) fmt); return print(fmt, ap); }
static int os_vfprintf(FILE* f, const char* fmt, va_list ap) { enter(VFPRINTF, (uintptr_t) f, (uintptr_t) fmt); return print(fmt, ap); }
static int os_printf(const char* fmt, ...) { enter(PRINTF, (uintptr_t) fmt); va_list ap; va_start(ap, fmt); int r = print(fmt, ap); va_end(ap); return r; }
static int os_fprintf(FILE* f, const char* fmt, ...) { enter(FPRINTF, (uintptr_t) f, (uintptr_t) fmt); va_list ap; va_start(ap, fmt); int r = print(fmt, ap); va_end(ap); return r; }
static int get1() { return fault("io_short") ? (int) done(-1) : fault("io_err") ? (int) done(-1, EIO) : (int) done(65 + (int) choice("ch", 26)); }
static int os_fgetc(FILE* f) { enter(FGETC, (uintptr_t) f); return get1(); }
static int os_getchar() { enter(GETCHAR); return get1(); }
static char* os_fgets(char* s, int n, FILE* f)
{
    enter(FGETS, (uintptr_t) s, n, (uintptr_t) f);
    if (fault("io_short")) { done(0); return nullptr; }
    int l = (int) choice("line", n);
    memset(s, 'x', l); s[l] = 0;
    done((long) (uintptr_t) s); return s;
}
static size_t os_fread(void* b, size_t s, size_t n, FILE* f) { enter(FREAD, (uintptr_t) b, s, n, (uintptr_t) f); if (n && fault("io_short")) n = choice("io_len", n); return (size_t) done((long) n); }
static size_t os_fwrite(const void* b, size_t s, size_t n, FILE* f) { enter(FWRITE, (uintptr_t) b, s, n, (uintptr_t) f); if (n && fault("io_short")) n = choice("io_len", n); return (size_t) done((long) n); }

static void* const os_fn[NFN] = { (void*) os_read, (void*) os_write, (void*) os_open, (void*) os_close, (void*) os_stat, (void*) os_lstat, (void*) os_xstat, (void*) os_xstat64, (void*) os_lxstat,
    (void*) os_lxstat64, (void*) os_fstat, (void*) os_fxstat, (void*) os_fxstat64, (void*) os_fopen, (void*) os_fopen64, (void*) os_fdopen, (void*) os_freopen, (void*) os_fclose, (void*) os_printf,
    (void*) os_fprintf, (void*) os_vprintf, (void*) os_vfprintf, (void*) os_fgetc, (void*) os_fgets, (void*) os_getchar, (void*) os_fread, (void*) os_fwrite };

extern "C" {
enum gotcha_error_t gotcha_wrap(struct gotcha_binding_t* b, int n, const char*)
{
    NoPreempt np;
    for (int i = 0; i < n; ++i) {
        int k = 0;
        while (k < NFN && strcmp(names[k], b[i].name)) ++k;
        if (k < NFN) { // (GOTCHA sets handles when it finds the function)
            *b[i].function_handle = (gotcha_wrappee_handle_t) (uintptr_t) (k + 1);
            if (wrapped[k].fn) fail("%s is wrapped twice", names[k]); wrapped[k].fn = b[i].wrapper_pointer; }
    }
    return GOTCHA_SUCCESS;
}
void* gotcha_get_wrappee(gotcha_wrappee_handle_t h)
{
    uintptr_t k = (uintptr_t) h;
    if (!k) fail("the original of a function that is not wrapped is requested");
    if (k > NFN) fail("an unknown original is requested");
    return os_fn[k - 1];
}
// what the service itself asks the system
FILE* simos_fopen(const char* p, const char*)
{
    if (strcmp(p, "/proc/mounts") && strcmp(p, "/proc/self/mounts") && strcmp(p, "/etc/mtab")) fail("the service opens %s", p);
    if (fault("no_mounts")) { errno = EMFILE; return nullptr; }
    static std::string* text;
    NoPreempt np;
    if (!text) { text = new std::string; for (auto& m : MOUNTS) *text += std::string("dev ") + m[0] + " " + m[1] + " rw,relatime 0 0\n"; }
    return fmemopen(&(*text)[0], text->size(), "r");
}
ssize_t simos_readlink(const char* p, char* b, size_t n)
{
    NoPreempt np;
    int fd;
    if (sscanf(p, "/proc/self/fd/%d", &fd) != 1 || fd < 0 || fd >= NFD || !fds[fd].used) { errno = ENOENT; return -1; }
    size_t l = std::min(n, fds[fd].path.size());
    memcpy(b, fds[fd].path.data(), l);
    return (ssize_t) l;
}
char* simos_realpath(const char* p, char*)
{
    NoPreempt np;
    if (!p) { errno = EINVAL; return nullptr; }
    if (!*p || !strncmp(p, "pipe:", 5)) { errno = ENOENT; return nullptr; }
    return strdup(*p == '/' ? p : (std::string(CWD) + p).c_str());
}
}
namespace cali { extern CaliperService io_service; }

// ---------------------------------------------------------------- channels
struct Span { uint64_t a0, a1, b0, b1; }; // active: starts in a0..a1, ends in b0..b1
struct Chn { Channel ch; bool exists = false, active = false, event = false; std::vector<Span> act; };
static Chn* chns;
static int nexist;         // channels that certainly exist
static uint64_t epoch = 1; // counts the times without channels
static const uint64_t FOREVER = ~0ull;
struct Seen { int n = 0; uint64_t bytes = 0; KVs kv; int nbegin = 0, nend = 0; };
struct Op1 { std::map<int, Seen> seen; std::vector<std::string> regions; };
static thread_local Op1* op;
static Attribute a_region, a_io, a_fs, a_mp;

static void on_rec(int c, Caliper* k, SnapshotView v)
{
    NoPreempt np;
    KVs kv = decode(*k, v);
    bool io = find_kv(kv, "io.bytes.read") || find_kv(kv, "io.bytes.written");
    bool eb = find_kv(kv, "event.begin#io.region"), ee = find_kv(kv, "event.end#io.region");
    if (!op) { if (io || eb || ee) fail("channel %d has an I/O record %s, but the thread makes no I/O call", c, show(kv).c_str()); return; }
    Seen& s = op->seen[c];
    if (eb) s.nbegin++;
    if (ee) s.nend++;
    if (io) { s.n++; s.kv = kv; }
}

static void start_channel(int c)
{
    Chn& x = chns[c];
    if (x.exists) return;
    { NoPreempt np; x.event = plan().get("event") >> c & 1; x.act.push_back({ tick(), FOREVER, FOREVER, FOREVER }); }
    x.ch = make_channel(strf("io%d", c).c_str(), { { "CALI_SERVICES_ENABLE", x.event ? "event,io" : "io" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, false);
    x.ch.events().process_snapshot.connect([c](Caliper* k, SnapshotView, SnapshotView v) { on_rec(c, k, v); });
    cali_activate_channel(x.ch.id());
    NoPreempt np;
    x.exists = x.active = true; x.act.back().a1 = tick(); ++nexist;
    probe("channels_started");
}
static void stop_channel(int c)
{
    Chn& x = chns[c];
    if (!x.exists) return;
    { NoPreempt np; if (x.active) x.act.back().b0 = tick(); if (--nexist == 0) ++epoch; }
    cali_delete_channel(x.ch.id());
    NoPreempt np;
    if (x.active) x.act.back().b1 = tick();
    x.exists = x.active = false;
    probe("channels_stopped");
}
static void toggle_channel(int c)
{
    Chn& x = chns[c];
    if (!x.exists) return;
    if (x.active) {
        { NoPreempt np; x.act.back().b0 = tick(); }
        cali_deactivate_channel(x.ch.id());
        NoPreempt np; x.act.back().b1 = tick(); x.active = false;
    } else {
        { NoPreempt np; x.act.push_back({ tick(), FOREVER, FOREVER, FOREVER }); }
        cali_activate_channel(x.ch.id());
        NoPreempt np; x.act.back().a1 = tick(); x.active = true;
    }
}

// ---------------------------------------------------------------- the program
template <class F> static F fn_of(int f, F) { return (F) (wrapped[f].fn ? wrapped[f].fn : os_fn[f]); }
#define APP(N, F) fn_of(F, os_##N)

static int vpr(int f, FILE* file, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    int r = f == VPRINTF ? APP(vprintf, VPRINTF)(fmt, ap) : APP(vfprintf, VFPRINTF)(file, fmt, ap);
    va_end(ap);
    return r;
}

struct Src { const char* mp = nullptr; const char* fs = nullptr; bool known = false; std::string pipe; };
static Src source(const std::string& path)
{
    Src s; s.known = true;
    if (plan().get("f_no_mounts")) { s.known = false; return s; } // unknown file systems
    if (path.compare(0, 5, "pipe:") == 0) { s.pipe = path; return s; }
    auto m = mount_of(path[0] == '/' ? path : CWD + path);
    s.mp = m.first; s.fs = m.second;
    return s;
}

struct App { std::vector<int> fd; std::vector<FILE*> file; std::vector<std::string> regions; char buf[6000]; };

static void io_call(App& a, int f, const Op& o)
{
    Caliper c;
    NoPreempt* np = new NoPreempt;
    int np_ = (int) plan().get("npaths"), npath = std::min(np_, (int) (sizeof PATHS / sizeof PATHS[0]));
    const char* path = PATHS[o.a % npath];
    size_t n = (size_t) o.c;
    int fd = 0; FILE* file = nullptr; size_t fi = 0;
    bool needs_fd = f == READ || f == WRITE || f == CLOSE || (f >= FSTAT && f <= FXSTAT64) || f == FDOPEN;
    bool needs_file = f == FREOPEN || f == FCLOSE || f == FPRINTF || f == VFPRINTF || f == FGETC || f == FGETS || f == FREAD || f == FWRITE;
    if (needs_fd) {
        if (a.fd.empty()) { if (f == CLOSE || f == FDOPEN || f == READ) { delete np; return; } fd = 1; }
        else { fi = o.a % a.fd.size(); fd = a.fd[fi]; }
    }
    if (needs_file) {
        if (a.file.empty()) { delete np; return; }
        fi = o.a % a.file.size(); file = a.file[fi]; fd = fd_of(file);
    }
    if ((f == OPEN || f == FOPEN || f == FOPEN64) && a.fd.size() + a.file.size() > 12) { delete np; return; }
    if (f == PRINTF || f == VPRINTF) fd = 1;
    if (f == GETCHAR) fd = 0;
    if (f == FREOPEN && o.b % 3 == 0) path = nullptr;
    bool by_path = f == OPEN || (f >= STAT && f <= LXSTAT64) || f == FOPEN || f == FOPEN64;
    uint64_t fd_epoch = by_path ? 0 : fd < 3 ? epoch : fds[fd].epoch; std::string fd_path = by_path ? path : fds[fd].path;
    Src src = by_path ? source(path) : source(fds[fd].path);
    Call cl; Op1 o1; o1.regions = a.regions;
    uintptr_t want[4] = { 0, 0, 0, 0 }; int want_fn = f; std::string want_text;
    auto W = [&](uintptr_t x = 0, uintptr_t y = 0, uintptr_t z = 0, uintptr_t w = 0) { want[0] = x; want[1] = y; want[2] = z; want[3] = w; };
    struct stat* sb = (struct stat*) a.buf; char* buf = a.buf + (o.b & 7); const char* mode = o.b & 1 ? "r" : "w+";
    static const char fmt[] = "%d <%s> %.3f %c";
    std::string arg(o.c % 300, 'a' + o.b % 26); double fl = o.c / 8.0;
    bool prints = f >= PRINTF && f <= VFPRINTF;
    if (prints) want_text = strf(fmt, o.c, arg.c_str(), fl, 'q');
    long ret = 0;
    call = &cl; op = &o1;
    uint64_t t0 = tick(), ep0 = epoch; bool ex0 = nexist > 0;
    errno = 7777;
    delete np; np = nullptr;
    switch (f) {
    case READ: W(fd, (uintptr_t) buf, n); ret = APP(read, READ)(fd, buf, n); break;
    case WRITE: W(fd, (uintptr_t) buf, n); ret = APP(write, WRITE)(fd, buf, n); break;
    case OPEN: W((uintptr_t) path, o.b, 0640); ret = APP(open, OPEN)(path, o.b, 0640); break;
    case CLOSE: W(fd); ret = APP(close, CLOSE)(fd); break;
    case STAT: W((uintptr_t) path, (uintptr_t) sb); ret = APP(stat, STAT)(path, sb); break;
    case LSTAT: W((uintptr_t) path, (uintptr_t) sb); ret = APP(lstat, LSTAT)(path, sb); break;
    case XSTAT: W(1, (uintptr_t) path, (uintptr_t) sb); ret = APP(xstat, XSTAT)(1, path, sb); break;
    case XSTAT64: W(2, (uintptr_t) path, (uintptr_t) sb); ret = APP(xstat64, XSTAT64)(2, path, sb); break;
    case LXSTAT: W(3, (uintptr_t) path, (uintptr_t) sb); ret = APP(lxstat, LXSTAT)(3, path, sb); break;
    case LXSTAT64: W(1, (uintptr_t) path, (uintptr_t) sb); ret = APP(lxstat64, LXSTAT64)(1, path, sb); break;
    case FSTAT: W(fd, (uintptr_t) sb); ret = APP(fstat, FSTAT)(fd, sb); break;
    case FXSTAT: W(1, fd, (uintptr_t) sb); ret = APP(fxstat, FXSTAT)(1, fd, sb); break;
    case FXSTAT64: W(1, fd, (uintptr_t) sb); ret = APP(fxstat64, FXSTAT64)(1, fd, sb); break;
    case FOPEN: W((uintptr_t) path, (uintptr_t) mode); ret = (long) (uintptr_t) APP(fopen, FOPEN)(path, mode); break;
    case FOPEN64: W((uintptr_t) path, (uintptr_t) mode); ret = (long) (uintptr_t) APP(fopen64, FOPEN64)(path, mode); break;
    case FDOPEN: W(fd, (uintptr_t) mode); ret = (long) (uintptr_t) APP(fdopen, FDOPEN)(fd, mode); break;
    case FREOPEN: W((uintptr_t) path, (uintptr_t) mode, (uintptr_t) file); ret = (long) (uintptr_t) APP(freopen, FREOPEN)(path, mode, file); break;
    case FCLOSE: W((uintptr_t) file); ret = APP(fclose, FCLOSE)(file); break;
    case PRINTF: W((uintptr_t) fmt); ret = APP(printf, PRINTF)(fmt, o.c, arg.c_str(), fl, 'q'); break;
    case FPRINTF: W((uintptr_t) file, (uintptr_t) fmt); ret = APP(fprintf, FPRINTF)(file, fmt, o.c, arg.c_str(), fl, 'q'); break;
    case VPRINTF: W((uintptr_t) fmt); ret = vpr(f, nullptr, fmt, o.c, arg.c_str(), fl, 'q'); break;
    case VFPRINTF: W((uintptr_t) file, (uintptr_t) fmt); ret = vpr(f, file, fmt, o.c, arg.c_str(), fl, 'q'); break;
    case FGETC: W((uintptr_t) file); ret = APP(fgetc, FGETC)(file); break;
    case FGETS: W((uintptr_t) buf, 1 + n, (uintptr_t) file); ret = (long) (uintptr_t) APP(fgets, FGETS)(buf, (int) (1 + n), file); break;
    case GETCHAR: ret = APP(getchar, GETCHAR)(); break;
    case FREAD: W((uintptr_t) buf, 1 + o.b % 8, n / 8, (uintptr_t) file); ret = (long) APP(fread, FREAD)(buf, 1 + o.b % 8, n / 8, file); break;
    case FWRITE: W((uintptr_t) buf, 1 + o.b % 8, n / 8, (uintptr_t) file); ret = (long) APP(fwrite, FWRITE)(buf, 1 + o.b % 8, n / 8, file); break;
    }
    int err = errno;
    NoPreempt np2;
    uint64_t t1 = tick();
    call = nullptr; op = nullptr;
    const char* fname = names[f];
    // the call itself
    if (cl.n != 1) fail("%s: the operating system sees %d calls", fname, cl.n);
    bool same = cl.fn == want_fn || (f == PRINTF && cl.fn == VPRINTF) || (f == FPRINTF && cl.fn == VFPRINTF) || (f == FOPEN64 && cl.fn == FOPEN) || (f == FOPEN && cl.fn == FOPEN64);
    if (!same) fail("%s calls %s", fname, names[cl.fn]);
    for (int i = 0; i < 4; ++i) if (cl.a[i] != want[i] && !(f == OPEN && i == 2)) fail("%s: argument %d is %#lx instead of %#lx", fname, i, (long) cl.a[i], (long) want[i]);
    if (prints && cl.text != want_text) fail("%s prints <%s> instead of <%s>", fname, cl.text.c_str(), want_text.c_str());
    if (ret != cl.ret) fail("%s returns %ld, the operating system returned %ld", fname, ret, cl.ret);
    if (cl.err && err != cl.err) fail("%s fails with errno %d, the operating system's is %d", fname, err, cl.err);
    // results
    uint64_t bytes = 0;
    switch (f) {
    case READ: case WRITE: bytes = cl.ret > 0 ? cl.ret : 0; break;
    case PRINTF: case FPRINTF: case VPRINTF: case VFPRINTF: bytes = cl.ret > 0 ? cl.ret : 0; break;
    case FGETC: case GETCHAR: bytes = cl.ret >= 0; break;
    case FGETS: bytes = cl.ret ? strlen((char*) cl.ret) : 0; break;
    case FREAD: case FWRITE: bytes = cl.ret * (1 + o.b % 8); break;
    case OPEN: if (ret >= 0) a.fd.push_back((int) ret); break;
    case CLOSE: a.fd.erase(a.fd.begin() + fi); break;
    case FOPEN: case FOPEN64: if (ret) a.file.push_back((FILE*) ret); break;
    case FDOPEN: if (ret) { a.file.push_back((FILE*) ret); a.fd.erase(a.fd.begin() + fi); } break;
    case FCLOSE: a.file.erase(a.file.begin() + fi); break;
    }
    bool steady = ex0 && nexist > 0 && epoch == ep0; // the service was there during the whole call
    if (f == OPEN && ret >= 0) fds[ret].epoch = steady ? epoch : 0;
    if ((f == FOPEN || f == FOPEN64 || f == FREOPEN) && ret) fds[fd_of((FILE*) ret)].epoch = steady ? epoch : 0;
    bool sure = by_path || (steady && fd_epoch == epoch);
    // what the channels have
    for (int k = 0; k < (int) plan().get("nchn"); ++k) {
        Seen& s = o1.seen[k];
        int m = 0, on = 0; // 1: certainly on during the call, 0: certainly off, -1: unsure
        for (auto& sp : chns[k].act) {
            m += sp.a0 < t1 && sp.b1 > t0; // (the channel may have been stopped and started again)
            if (sp.a1 < t0 && sp.b0 > t1) on = 1;
            else if (sp.a0 < t1 && sp.b1 > t0) on = on ? on : -1;
        }
        if (s.n > std::max(m, 1)) fail("%s: channel %d has %d records of the call", fname, k, s.n);
        if (on == 1 && s.n != (bytes > 0)) fail("%s of %llu bytes: channel %d has %d records", fname, (unsigned long long) bytes, k, s.n);
        if (on == 0 && (s.n || s.nbegin || s.nend)) fail("%s: channel %d records it, which is not active", fname, k);
        if (s.nbegin != s.nend && on == 1) fail("%s: channel %d has %d begin and %d end events", fname, k, s.nbegin, s.nend);
        if (s.nbegin > std::max(m, 1) || s.nend > std::max(m, 1)) fail("%s: channel %d has %d begin and %d end events", fname, k, s.nbegin, s.nend);
        if (on == 1 && chns[k].event && !s.nbegin) fail("%s: channel %d has no event for the call", fname, k);
        if (!s.n) continue;
        probe("io_records_checked");
        if (!bytes) fail("%s returns %ld: channel %d records %s", fname, ret, k, show(s.kv).c_str());
        const char* bn = cat_of(f) == C_READ ? "io.bytes.read" : "io.bytes.written";
        if (kv_int(s.kv, bn, -1) != (int64_t) bytes || find_kv(s.kv, cat_of(f) == C_READ ? "io.bytes.written" : "io.bytes.read")) fail("%s of %llu bytes: channel %d records %s", fname, (unsigned long long) bytes, k, show(s.kv).c_str());
        if (cat_of(f) == C_META) fail("%s: channel %d records bytes", fname, k);
        auto check = [&](const char* attr, const char* val, bool sure = true) {
            auto v = all_kv(s.kv, attr);
            if (v.size() > 1) fail("%s: channel %d records %s %d times", fname, k, attr, (int) v.size());
            for (auto& x : v) if (x != val && (sure || x != "unknown")) fail("%s(%s): channel %d records %s=%s instead of %s", fname, fd_path.c_str(), k, attr, x.c_str(), val);
            if (v.empty()) fail("%s: channel %d records no %s", fname, k, attr);
        };
        check("io.region", cat_name[cat_of(f)]);
        if (src.known) {
            if (sure) probe("sources_checked");
            check("io.filesystem", src.fs ? src.fs : "unknown", sure);
            check("io.mount.point", src.mp ? src.mp : !src.pipe.empty() ? src.pipe.c_str() : "unknown", sure);
        }
        if (all_kv(s.kv, "fn") != a.regions) fail("%s: channel %d records it in %s", fname, k, show(s.kv).c_str());
    }
    // nothing of the call is left on the thread
    for (const Attribute& x : { a_io, a_fs, a_mp }) if (!c.get(x).empty()) fail("%s: %s=%s remains set on the thread", fname, x.name().c_str(), c.get(x).value().to_string().c_str());
    probe("io_calls_checked");
}

static void body(int t)
{
    const Plan& p = plan();
    App a;
    for (int i = 0; i < p.nops; ++i) {
        const Op& o = p.ops[i];
        if (o.th != t) continue;
        if (o.kind < NFN) { io_call(a, o.kind, o); continue; }
        Caliper c;
        switch (o.kind) {
        case BEGIN: { std::string v = strf("r%d", o.a % 4); c.begin(a_region, Variant(v.c_str())); a.regions.push_back(v); break; }
        case END: if (!a.regions.empty()) { c.end(a_region); a.regions.pop_back(); } break;
        case SNAP: {
            NoPreempt np;
            std::vector<std::string> v;
            for (int k = 0; k < (int) p.get("nchn"); ++k) if (chns[k].exists && t == p.get("ctl")) {
                FixedSizeSnapshotRecord<80> rec;
                c.pull_snapshot(chns[k].ch.body(), SnapshotView(), rec.builder());
                KVs kv = decode(c, rec.view());
                if (all_kv(kv, "fn") != a.regions) fail("a snapshot has the context %s", show(kv).c_str());
                if (find_kv(kv, "io.region")) fail("a snapshot outside of I/O calls has the context %s", show(kv).c_str());
            }
            break;
        }
        case PIPE: { // descriptors that the service does not see
            NoPreempt np;
            if (a.fd.size() + a.file.size() > 12) break;
            int fd = new_fd("/"); fds[fd].path = strf("pipe:[%d]", 1000 + o.a); fds[fd].epoch = 0;
            a.fd.push_back(fd);
            break;
        }
        case START: start_channel(o.a % (int) p.get("nchn")); break;
        case STOP: stop_channel(o.a % (int) p.get("nchn")); break;
        case TOGGLE: if (p.get("toggles")) toggle_channel(o.a % (int) p.get("nchn")); break;
        }
    }
}

static void run(const Plan& p)
{
    clean_env();
    {
        NoPreempt np;
        fds = new Fd[NFD]; chns = new Chn[4];
        for (int i = 0; i < 3; ++i) { fds[i].used = true; fds[i].path = p.get("stdpipe") ? strf("pipe:[%d]", 770 + i) : i ? "/home/user/log" : "/proc/tty"; }
    }
    static const cali::CaliperService sv[] = { cali::io_service, { nullptr, nullptr } };
    cali::services::add_service_specs(sv);
    Caliper c;
    a_region = c.create_attribute("fn", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
    start_channel(0);
    a_io = c.get_attribute("io.region"); a_fs = c.get_attribute("io.filesystem"); a_mp = c.get_attribute("io.mount.point");
    if (!a_io || !a_fs || !a_mp) fail("the I/O attributes do not exist");
    run_threads((int) p.get("nth"), true, body);
    for (int k = 0; k < (int) p.get("nchn"); ++k) stop_channel(k);
}

PropDef sim::the_prop = { "C23", gen, run, nullptr };
