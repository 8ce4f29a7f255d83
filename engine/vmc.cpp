// Core of the explorer and the virtual POSIX layer.  Compiled WITHOUT thread instrumentation.
#include "vmc.hpp"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_set>
#include <set>

// the engine's own copies must never go through the interposed functions (they would be scheduled)
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t); int __real_memcmp(const void*, const void*, size_t); }
static inline void* raw_copy(void* d, const void* s, size_t n) {
    if (n <= 16) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; unsigned char t[16]; for (size_t i = 0; i < n; ++i) t[i] = ((volatile const unsigned char*)b)[i]; for (size_t i = 0; i < n; ++i) ((volatile unsigned char*)a)[i] = t[i]; return d; }
    return __real_memcpy(d, s, n);
}
#define memcpy raw_copy
#define memset __real_memset
#define memmove __real_memmove
#define memcmp __real_memcmp

namespace vmc {

// ------------------------------------------------------------------ hashing
static inline u64 mix64(u64 x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct H128 {
    u64 a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
    void add(u64 v) {
        a = mix64(a ^ (v * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull));
        b = mix64((b + v) * 0xff51afd7ed558ccdull ^ 0xc4ceb9fe1a85ec53ull) + (a << 1 | a >> 63) * 0;
        b = b * 31 + v + 0x165667b19e3779f9ull;
    }
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
};
static inline u64 hstr(const char* s) {
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
// visited set: open addressing, 24 byte entries
struct Visited {
    struct E { u64 a, b; int32_t best; int32_t used; };
    std::vector<E> t; size_t n = 0, mask = 0;
    void init() { t.assign(1 << 12, E{0, 0, 0, 0}); mask = t.size() - 1; n = 0; }
    // true if this state still has to be explored
    bool visit(const H128& k, int rem) {
        if (n * 10 > t.size() * 6) grow();
        size_t i = k.a & mask;
        while (t[i].used) {
            if (t[i].a == k.a && t[i].b == k.b) {
                if (t[i].best >= rem) return false;
                t[i].best = rem; return true;
            }
            i = (i + 1) & mask;
        }
        t[i] = E{k.a, k.b, rem, 1}; ++n;
        return true;
    }
    void grow() {
        std::vector<E> o; o.swap(t);
        t.assign(o.size() * 2, E{0, 0, 0, 0}); mask = t.size() - 1;
        for (auto& e : o) if (e.used) {
            size_t i = e.a & mask;
            while (t[i].used) i = (i + 1) & mask;
            t[i] = e;
        }
    }
};

// ------------------------------------------------------------------ coroutines
extern "C" void vmc_switch(void** save_sp, void* new_sp);
__asm__(
".text\n.globl vmc_switch\n.type vmc_switch,@function\nvmc_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size vmc_switch,.-vmc_switch\n");

static const size_t STACK = 384 * 1024;
static const int MAXP = 12;

// ------------------------------------------------------------------ virtual OS objects
static const size_t SLOT = 256 * 1024;
static const int MAXOBJ = 256;
static unsigned char* ARENA = nullptr;
static const u64 ARENA_BASE = 0x100000000000ull;
static const size_t ARENA_SIZE = SLOT * MAXOBJ;

struct MutexSt { int owner = -1; bool locked = false; };
struct CondSt { std::vector<int> waiters; };

struct Obj {
    std::string name; long size = 0; size_t high = 0;
    std::map<size_t, MutexSt> mtx;
    std::map<size_t, CondSt> cnd;
};
struct Sem { std::string name; int value = 0; };

enum FdKind : uint8_t { FREE, SHMFD, APPFD };
struct Fd { FdKind kind = FREE; int obj = -1; bool ro = false; };

enum OpK : uint8_t { O_NONE, O_START, O_MEM, O_OS, O_SEMWAIT, O_SEMTIMED, O_MLOCK, O_MTIMED, O_CWAIT,
                     O_SLEEP, O_PRED, O_POINT };

struct Op {
    OpK k = O_NONE;
    bool mut = false;             // may change the shared state
    int sem = -1;
    int obj = -1; size_t off = 0; // mutex / condition location
    size_t off2 = 0; int obj2 = -1;
    u64 deadline = 0;             // virtual ns
    bool timed = false;
    bool faultable = false;
    bool eintr = false;
    bool signalled = false;       // condition wait
    bool expired = false;         // its time is over: only has to get the mutex back
    const std::function<bool()>* pred = nullptr;
    const char* what = "";
};
enum Variant : uint8_t { V_OK, V_TIMEOUT, V_EINTR, V_FAULT, V_SPUR, V_CRASH };

struct Dep { uint8_t k; u64 id; u64 val; uint8_t n; };

struct Proc {
    std::string name; std::function<void()> body;
    void* sp = nullptr; void* stack = nullptr;
    Status st = READY; bool started = false;
    Op op; Variant var = V_OK;
    H128 hist; u64 nsteps = 0;
    int err = 0; unsigned char eh[16] = {0};
    int atomic = 0;
    std::vector<Fd> fds;
    std::map<int, long> maps;      // object -> mapped length
    std::map<int, int> mapcnt;
    std::map<int, int> semref;
    std::map<int, std::vector<long>> dummy;
    int badclose = 0;
    u64 blocking = 0, oscalls = 0;
    // pending write
    u64 wa = 0; size_t wn = 0; unsigned char wold[256];
    std::vector<Dep> deps; bool clockdep = false; bool sleepfree = false;
    bool depover = false;
    u64 timeout_seq = 0, nalloc = 0, idle = 0;
    int grp = 0;                       // the process this thread belongs to (itself, unless a further thread)
    int eng = 0;                       // inside the engine: its own allocations do not count
};

struct SemH { int magic; int proc; int sem; int pad[5]; };  // fits in sem_t (32 bytes)

struct World {
    std::vector<Proc> procs;
    std::vector<Obj> objs;
    std::map<std::string, int> ns;
    std::vector<Sem> sems;
    std::map<std::string, int> semns;
    u64 nsgen = 0;
    u64 mem_h1 = 0, mem_h2 = 0;
    u64 clock_ns = 1000000000ull * 1000000ull;
    H128 evh; u64 nevents = 0;
    std::string lastfault;
    int nfault = 0, ncrash = 0, neintr = 0;
    u64 outcome = 0;
};
static World W;
static SemH semh[MAXP][64];

std::function<bool(const std::string&, const std::string&)> is_known;
// ------------------------------------------------------------------ exploration state
struct ChoicePt { int n, idx; };
static std::vector<ChoicePt> path;    // current execution
static size_t pos;
static bool exploring = false, no_branch = false, plain_mode = false;
static std::vector<int> prefix_choices;
static const Scenario* SC = nullptr;
static Bounds B;
static int rem_preempt, rem_crash, rem_eintr, rem_fault, rem_timeout, rem_spur;
static Visited visited;
static u64 n_trans, n_points, n_hits, n_exec;
static int cur = -1;
struct EngineCode { int p; EngineCode() : p(cur) { if (p >= 0 && p < (int)W.procs.size()) ++W.procs[p].eng; } ~EngineCode() { if (p >= 0 && p < (int)W.procs.size()) --W.procs[p].eng; } };
#define ENG EngineCode engine_code_
static void* main_sp;
static unsigned char main_eh[16]; static int main_err;
static bool in_co = false;
static bool failed; static std::string fail_msg;
static bool tracing = false; static std::string trace;
static u64 steps_total;
static std::vector<void*> stack_pool;
static sigjmp_buf main_jmp; static bool jmp_ok = false;
static volatile u64 exec_serial = 0;
static std::string diverged;

static void tracef(const char* fmt, ...) {
    if (!tracing) return;
    char buf[600]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (trace.size() < 400000) {
        if (in_co && cur >= 0) { trace += "  P"; trace += std::to_string(cur); trace += "("; trace += W.procs[cur].name; trace += ") "; }
        trace += buf; trace += "\n";
    }
}
#define TR(...) do { if (__builtin_expect(tracing, 0)) tracef(__VA_ARGS__); } while (0)

static void* eh_globals() { return (void*)abi::__cxa_get_globals(); }

static bool heap_on; static void heap_reset();
static void do_fail(const std::string& m) {
    heap_on = false;
    if (!failed) { failed = true; fail_msg = m; TR("VIOLATION: %s", m.c_str()); }
    if (in_co) { Proc& p = W.procs[cur]; memcpy(eh_globals(), main_eh, 16); in_co = false; vmc_switch(&p.sp, main_sp); abort(); }
    throw Violation{fail_msg};
}

void fail(const char* fmt, ...) {
    char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    do_fail(buf); abort();
}
void pfail(const char* fmt, ...) {
    char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    do_fail(buf); abort();
}

// ------------------------------------------------------------------ shared memory bookkeeping
static inline u64 zob(u64 addr, unsigned char v) { return v ? mix64(addr * 256 + v + 0x51ed27ull) : 0; }
static inline u64 zob2(u64 addr, unsigned char v) { return v ? mix64((addr * 256 + v) ^ 0xa0761d6478bd642full) : 0; }

static inline void mem_diff(u64 a, const unsigned char* old, size_t n) {
    const unsigned char* nw = (const unsigned char*)a;
    for (size_t i = 0; i < n; ++i) if (nw[i] != old[i]) {
        u64 o = a + i - ARENA_BASE;
        W.mem_h1 ^= zob(o, old[i]) ^ zob(o, nw[i]);
        W.mem_h2 ^= zob2(o, old[i]) ^ zob2(o, nw[i]);
    }
}
static inline void flush_write(Proc& p) {
    if (p.wn) {
        size_t n = p.wn; p.wn = 0;
        mem_diff(p.wa, p.wold, n);
        if (__builtin_expect(tracing, 0)) {
            u64 v = 0; memcpy(&v, (void*)p.wa, n < 8 ? n : 8);
            u64 off = p.wa - ARENA_BASE; int o = off / SLOT;
            TR("write %s+%zu (%zu bytes) := 0x%llx", W.objs[o].name.c_str(), (size_t)(off % SLOT), n, (unsigned long long)v);
        }
    }
}
static void set_bytes(u64 a, const unsigned char* data, size_t n) {
    unsigned char old[16];
    for (size_t i = 0; i < n; i += 16) {
        size_t m = n - i < 16 ? n - i : 16;
        memcpy(old, (void*)(a + i), m); memcpy((void*)(a + i), data + i, m); mem_diff(a + i, old, m);
    }
}

// ------------------------------------------------------------------ enabledness
static bool deps_changed(Proc& p) {
    for (auto& d : p.deps) {
        if (d.k == 0) { u64 v = 0; memcpy(&v, (void*)d.id, d.n); if (v != d.val) return true; }
        else if (d.k == 1) { if (W.nsgen != d.val) return true; }
        else if (d.k == 2) { if ((u64)W.sems[d.id].value != d.val) return true; }
    }
    return false;
}
static bool mtx_free(int obj, size_t off) { return !W.objs[obj].mtx[off].locked; }

static bool enabled_ok(Proc& p) {
    switch (p.op.k) {
    case O_SEMWAIT: return W.sems[p.op.sem].value > 0;
    case O_SEMTIMED: return W.sems[p.op.sem].value > 0 || p.op.deadline <= W.clock_ns;
    case O_MLOCK: case O_MTIMED: return mtx_free(p.op.obj, p.op.off);
    case O_CWAIT: return (p.op.signalled || p.op.expired) && mtx_free(p.op.obj2, p.op.off2);
    case O_SLEEP: return p.sleepfree || deps_changed(p);
    case O_PRED: return (*p.op.pred)();
    default: return true;
    }
}

struct Alt { int pid; Variant v; int cost_pre, cost_to; };

static bool sleeping_disabled(Proc& p) { return p.op.k == O_SLEEP; }

static void build_key(H128& k) {
    k.add(W.mem_h1); k.add(W.mem_h2); k.add(W.nsgen); 
    for (auto& s : W.sems) k.add(s.value + 7);
    for (auto& kv : W.ns) { k.add(hstr(kv.first.c_str())); k.add(kv.second); }
    for (auto& kv : W.semns) { k.add(hstr(kv.first.c_str())); k.add(kv.second + 1000); }
    for (auto& o : W.objs) {
        k.add(o.size);
        for (auto& m : o.mtx) if (m.second.locked) { k.add(m.first * 2 + 1); k.add(m.second.owner); }
        for (auto& c : o.cnd) { for (int w : c.second.waiters) k.add(w + c.first * 64 + 99); }
    }
    for (auto& p : W.procs) {
        k.add(p.hist.a); k.add(p.hist.b); k.add(p.st * 64 + p.op.k * 4 + p.op.expired * 2 + p.op.signalled);
        k.add((p.sleepfree ? 1 : 0) + p.atomic * 2);
    }
    k.add(W.evh.a); k.add(W.evh.b); k.add(W.clock_ns);
    if (B.preempt >= 0) k.add(cur + 100);
    k.add(rem_crash + 16 * (rem_eintr + 16 * (rem_fault + 16 * (rem_timeout + 16 * rem_spur))));
}

// registers a choice among n alternatives and returns the selected one
static int pick(int n) {
    if (n <= 0) do_fail("internal: empty choice");
    int c = 0;
    if (pos < path.size()) {
        if (path[pos].n != n) { diverged = "replay divergence: choice point " + std::to_string(pos) + " had " +
            std::to_string(path[pos].n) + " alternatives, now " + std::to_string(n); do_fail("internal: " + diverged); }
        c = path[pos].idx; ++pos;
        return c;
    }
    if (!prefix_choices.empty() || !exploring) {
        // replaying a recorded list (or plain run)
        if (pos < prefix_choices.size()) { c = prefix_choices[pos]; if (c >= n) { diverged = "replay: choice out of range"; do_fail("internal: " + diverged); } }
        path.push_back({n, c}); ++pos; return c;
    }
    if (no_branch) return 0;
    path.push_back({n, 0}); ++pos; ++n_points;
    return 0;
}

int choose(int n, const char* what) { ENG;
    if (n <= 1) return 0;
    flush_write(W.procs[cur]);
    if (exploring && pos >= path.size() && !no_branch && B.cache && prefix_choices.empty()) {
        H128 k; build_key(k); k.add(0xc0ffee + n);
        k.add(W.procs[cur].hist.a);
        if (!visited.visit(k, rem_preempt < 0 ? 1 << 20 : rem_preempt)) { no_branch = true; ++n_hits; }
    }
    int c = pick(n);
    W.procs[cur].hist.add(0x7700 + c);
    TR("choose %s -> %d/%d", what, c, n);
    return c;
}

static void crash_one(int pid) {
    Proc& p = W.procs[pid];
    p.st = CRASHED; p.fds.clear(); p.maps.clear(); p.mapcnt.clear(); p.semref.clear(); p.atomic = 0;
    for (auto& o : W.objs) for (auto& c : o.cnd) {
        auto& w = c.second.waiters;
        for (size_t i = 0; i < w.size();) if (w[i] == pid) w.erase(w.begin() + i); else ++i;
    }
    if (tracing) { trace += "  ** P" + std::to_string(pid) + "(" + p.name + ") killed before: " + p.op.what + "\n"; }
}
static void crash_proc(int pid) {      // with all its threads
    int g = W.procs[pid].grp; ++W.ncrash;
    for (size_t i = 0; i < W.procs.size(); ++i) if (W.procs[i].grp == g && W.procs[i].st == READY) crash_one(i);
}

// selects the next process to run; returns its pid or -1 (nothing left)
static std::vector<Alt> alts;
static int decide() {
    for (;;) {
        if (cur >= 0 && in_co) flush_write(W.procs[cur]);
        ++n_trans;
        if (++steps_total > (u64)B.max_steps) do_fail("no termination: more than " + std::to_string(B.max_steps) + " steps in one execution (livelock)");
        // a process inside an atomic section that can go on goes on
        alts.clear();
        bool anyalive = false, anyok = false;
        int np = W.procs.size();
        int atom = -1;
        bool cur_ok = false;
        bool okv[MAXP];
        for (int i = 0; i < np; ++i) {
            Proc& p = W.procs[i]; okv[i] = false;
            if (p.st != READY) continue;
            anyalive = true;
            okv[i] = enabled_ok(p);
            if (okv[i]) { anyok = true; if (p.atomic && (atom < 0 || i == cur)) atom = i; }
        }
        if (!anyalive) return -1;
        if (atom >= 0) { W.procs[atom].var = V_OK; return atom; }
        cur_ok = cur >= 0 && cur < np && W.procs[cur].st == READY && okv[cur];
        auto order = [&](int j) { return cur >= 0 ? (j == 0 ? cur : (j <= cur ? j - 1 : j)) : j; };
        for (int j = 0; j < np; ++j) {
            int i = order(j); if (i >= np) continue;
            Proc& p = W.procs[i]; if (p.st != READY) continue;
            int pc = (i != cur && cur_ok) ? 1 : 0;
            if (p.op.k == O_SLEEP && i == cur && 0) pc = 0;
            if (rem_preempt >= 0 && pc > rem_preempt) continue;
            if (okv[i]) alts.push_back({i, V_OK, pc, 0});
        }
        // a sleeping process that is enabled is not "running": switching away from it is free
        if (cur_ok && W.procs[cur].op.k == O_SLEEP && rem_preempt >= 0) {
            alts.clear();
            for (int j = 0; j < np; ++j) { int i = order(j); if (W.procs[i].st == READY && okv[i]) alts.push_back({i, V_OK, 0, 0}); }
        }
        // environment deviations
        for (int i = 0; i < np; ++i) {
            Proc& p = W.procs[i]; if (p.st != READY) continue;
            if (p.atomic) {           // only what the passing of time forces
                if (!anyok && (((p.op.k == O_SEMTIMED || p.op.k == O_MTIMED)) || (p.op.k == O_CWAIT && p.op.timed && !p.op.signalled && !p.op.expired)))
                    alts.push_back({i, V_TIMEOUT, 0, 0});
                continue;
            }
            int pc = (i != cur && cur_ok) ? 1 : 0;
            bool pre_ok = rem_preempt < 0 || pc <= rem_preempt;
            if (pre_ok) {
                if (p.op.k == O_CWAIT && p.op.timed && !p.op.signalled && !p.op.expired) {
                    if (rem_timeout > 0) alts.push_back({i, V_TIMEOUT, 0, 1});
                    else if (!anyok) alts.push_back({i, V_TIMEOUT, 0, 0});
                }
                if (p.op.k == O_CWAIT && !p.op.signalled && !p.op.expired && rem_spur > 0 && mtx_free(p.op.obj2, p.op.off2)) alts.push_back({i, V_SPUR, pc, 0});
                if ((p.op.k == O_SEMTIMED || p.op.k == O_MTIMED) && !okv[i]) {
                    if (rem_timeout > 0) alts.push_back({i, V_TIMEOUT, pc, 1});
                    else if (!anyok) alts.push_back({i, V_TIMEOUT, pc, 0});
                }
                if (p.op.k == O_SLEEP && !okv[i] && !anyok && p.clockdep) alts.push_back({i, V_TIMEOUT, pc, 0});
                if (p.op.eintr && rem_eintr > 0 && !okv[i] && (B.eintr_mask >> i & 1)) alts.push_back({i, V_EINTR, pc, 0});
                if (p.op.faultable && rem_fault > 0 && okv[i] && (B.fault_mask >> i & 1)) alts.push_back({i, V_FAULT, pc, 0});
            }
            if (rem_crash > 0 && (B.crash_mask >> i & 1) && p.started && (p.op.mut || p.op.k == O_CWAIT || p.op.k == O_PRED))
                alts.push_back({i, V_CRASH, 0, 0});
        }
        if (alts.empty() || (!anyok && [&]{ for (auto& a : alts) if (a.v != V_CRASH && a.v != V_EINTR && a.v != V_SPUR) return false; return true; }())) {
            // nothing can move without a deviation
            if (alts.empty()) {
                std::string m = SC && SC->stuck ? SC->stuck() : std::string("-");
                if (m.empty()) return -2;
                std::string who;
                for (int i = 0; i < np; ++i) if (W.procs[i].st == READY) { who += (who.empty() ? "" : ", "); who += W.procs[i].name + " in " + W.procs[i].op.what; }
                do_fail((m == "-" ? std::string("deadlock") : m) + ": blocked forever: " + who);
            }
            // deviations exist but doing nothing is also possible: that branch ends here
            Alt none{-2, V_OK, 0, 0};
            alts.insert(alts.begin(), none);
        }
        int c = 0;
        if (alts.size() > 1) {
            if (exploring && pos >= path.size() && !no_branch && B.cache && prefix_choices.empty()) {
                H128 k; build_key(k);
                if (!visited.visit(k, rem_preempt < 0 ? 1 << 20 : rem_preempt)) { no_branch = true; ++n_hits; }
            }
            c = pick(alts.size());
            if (tracing && getenv("VMC_ALTS")) { std::string x = "  choice"; for (auto& q : alts) x += " " + std::to_string(q.pid) + "/" + std::to_string(q.v); trace += x + " -> " + std::to_string(c) + "\n"; }
        }
        Alt a = alts[c];
        if (a.pid == -2) {
            std::string m = SC && SC->stuck ? SC->stuck() : std::string("-");
            if (m.empty()) return -2;
            std::string who;
            for (int i = 0; i < np; ++i) if (W.procs[i].st == READY) { who += (who.empty() ? "" : ", "); who += W.procs[i].name + " in " + W.procs[i].op.what; }
            do_fail((m == "-" ? std::string("deadlock") : m) + ": blocked forever: " + who);
        }
        if (a.v == V_TIMEOUT && W.procs[a.pid].op.k == O_CWAIT) {    // the wait expires; the mutex is taken back in a later step
            Proc& p = W.procs[a.pid]; rem_timeout -= a.cost_to; p.op.expired = true; p.timeout_seq = W.nevents;
            if (W.clock_ns < p.op.deadline) W.clock_ns = p.op.deadline;
            auto& w = W.objs[p.op.obj].cnd[p.op.off].waiters;
            for (size_t i = 0; i < w.size(); ++i) if (w[i] == a.pid) { w.erase(w.begin() + i); break; }
            if (tracing) trace += "  P" + std::to_string(a.pid) + "(" + p.name + ") timed condition wait expires\n";
            continue;
        }
        if (a.v == V_CRASH) { --rem_crash; crash_proc(a.pid); if (a.pid == cur) {} continue; }
        if (rem_preempt >= 0) rem_preempt -= a.cost_pre;
        rem_timeout -= a.cost_to;
        if (a.v == V_EINTR) { --rem_eintr; ++W.neintr; }
        if (a.v == V_FAULT) { --rem_fault; ++W.nfault; }
        if (a.v == V_SPUR) --rem_spur;
        W.procs[a.pid].var = a.v;
        return a.pid;
    }
}

static void co_entry();
static void resume_from(int from, int to) {
    // from a coroutine (or main: from == -1) to a coroutine
    Proc& q = W.procs[to];
    void** save;
    if (from >= 0) { Proc& p = W.procs[from]; memcpy(p.eh, eh_globals(), 16); p.err = errno; save = &p.sp; }
    else { memcpy(main_eh, eh_globals(), 16); main_err = errno; save = &main_sp; in_co = true; }
    cur = to;
    memcpy(eh_globals(), q.eh, 16); errno = q.err;
    vmc_switch(save, q.sp);
    // we are back in `from`; the resumer already restored our exception state
}

// scheduling point: returns the variant selected for the caller's operation
static Variant sched(const Op& o) {
    int me = cur;
    {
        Proc& p = W.procs[me]; bool run = p.op.k == O_MEM && o.k == O_MEM;
        p.op = o;
        ++p.nsteps;
        if (B.coarse && run) {                 // the accesses of one copy are one step
            flush_write(p); ++n_trans;
            if (++steps_total > (u64)B.max_steps) do_fail("no termination: more than " + std::to_string(B.max_steps) + " steps in one execution (livelock)");
            p.var = V_OK; return V_OK;
        }
    }
    int nx = decide();
    if (nx == me) { return W.procs[me].var; }
    if (nx < 0) { // stuck state accepted, or everything dead
        Proc& p = W.procs[me];
        memcpy(p.eh, eh_globals(), 16); p.err = errno;
        memcpy(eh_globals(), main_eh, 16); errno = main_err; in_co = false;
        vmc_switch(&p.sp, main_sp);
        abort();
    }
    resume_from(me, nx);
    return W.procs[me].var;
}

static void co_entry() {
    // first instruction of a coroutine; `cur` is already set
    {
        Proc& p = W.procs[cur]; p.started = true;
        std::string err;
        try { p.body(); }
        catch (Violation& v) { err = v.msg; }
        catch (std::exception& e) { err = std::string("unexpected exception: ") + e.what(); }
        catch (...) { err = "unexpected exception"; }
        if (!err.empty()) do_fail(W.procs[cur].name + ": " + err);
    }
    Proc& p = W.procs[cur];
    flush_write(p);
    p.st = DONE; p.hist.add(0xdead);
    p.fds.clear(); p.maps.clear(); p.mapcnt.clear();
    int nx = decide();
    if (nx < 0) { in_co = false; memcpy(eh_globals(), main_eh, 16); vmc_switch(&W.procs[cur].sp, main_sp); abort(); }
    resume_from(cur, nx);
    abort();
}

int spawn(const std::string& name, std::function<void()> body) {
    int id = W.procs.size();
    if (id >= MAXP) { fprintf(stderr, "too many processes\n"); abort(); }
    W.procs.emplace_back();
    Proc& p = W.procs.back();
    p.name = name; p.body = std::move(body); p.grp = id;
    if ((int)stack_pool.size() <= id) {
        void* s = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        stack_pool.push_back(s);
    }
    p.stack = stack_pool[id];
    u64* top = (u64*)((char*)p.stack + STACK - 64);
    top = (u64*)((u64)top & ~15ull);
    *--top = 0;                    // fake return address of co_entry
    *--top = (u64)(void*)co_entry; // ret target
    for (int i = 0; i < 6; ++i) *--top = 0;
    p.sp = top;
    p.op.k = O_START; p.op.what = "start";
    for (int i = 0; i < 3; ++i) { Fd f; f.kind = APPFD; p.fds.push_back(f); }
    p.hist.add(id);
    if (in_co) { W.procs[cur].hist.add(0x5a5a + id); }
    return id;
}

int spawn_thread(const std::string& name, int of, std::function<void()> body) { int id = spawn(name, std::move(body)); W.procs[id].grp = of; W.procs[id].fds.clear(); return id; }

void reset_world() {
    for (auto& o : W.objs) { int i = &o - &W.objs[0]; if (o.high) memset(ARENA + (size_t)i * SLOT, 0, o.high); }
    World fresh; std::swap(W, fresh);
    W.procs.reserve(MAXP);
    heap_reset();
    memset(semh, 0, sizeof semh);
    cur = -1; in_co = false; failed = false; fail_msg.clear(); steps_total = 0;
    rem_preempt = B.preempt; rem_crash = B.crash; rem_eintr = B.eintr; rem_fault = B.fault; rem_timeout = B.timeout; rem_spur = B.spurious;
    no_branch = false; pos = 0; ++exec_serial; watch(nullptr, 0);
}

// ------------------------------------------------------------------ signals
static void on_signal(int sig) {
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
    if (!jmp_ok) { signal(sig, SIG_DFL); raise(sig); return; }
    failed = true;
    fail_msg = std::string(in_co && cur >= 0 ? W.procs[cur].name : "main") + " dies with " + n;
    in_co = false;
    siglongjmp(main_jmp, 1);
}
static u64 wd_serial; static int wd_ticks;
static void on_tick(int) {
    if (!jmp_ok) return;
    if (wd_serial == exec_serial) {
        if (++wd_ticks >= 20) { failed = true; fail_msg = std::string(in_co && cur >= 0 ? W.procs[cur].name : "main") + " computes forever without making a visible step"; in_co = false; siglongjmp(main_jmp, 2); }
    } else { wd_serial = exec_serial; wd_ticks = 0; }
}
static void on_terminate() {
    std::string m = "std::terminate";
    if (std::current_exception()) {
        try { throw; } catch (std::exception& e) { m += std::string(": ") + e.what(); } catch (...) {}
    }
    if (in_co) { std::string who = W.procs[cur].name; failed = true; fail_msg = who + " dies with " + m; siglongjmp(main_jmp, 3); }
    fprintf(stderr, "terminate outside: %s\n", m.c_str()); _exit(9);
}
static void init_once() {
    static bool done = false; if (done) return; done = true;
    ARENA = (unsigned char*)mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if ((u64)ARENA != ARENA_BASE) { fprintf(stderr, "cannot map arena\n"); _exit(3); }
    stack_t ss; ss.ss_sp = malloc(128 * 1024); ss.ss_size = 128 * 1024; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction st; memset(&st, 0, sizeof st); st.sa_handler = on_tick; st.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &st, nullptr);
    struct itimerval it; it.it_interval = {1, 0}; it.it_value = {1, 0}; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
}

// one execution along `path` (extended as it goes)
static void run_one(const Scenario& s) {
    reset_world();
    if (tracing) trace.clear();
    jmp_ok = true;
    if (sigsetjmp(main_jmp, 1) == 0) {
        try {
            s.build();
            int nx = decide();
            if (nx >= 0) resume_from(-1, nx);
            in_co = false;
            if (!failed && s.finish) s.finish();
        } catch (Violation& v) { failed = true; if (fail_msg.empty()) fail_msg = v.msg; }
    } else {
        TR("VIOLATION: %s", fail_msg.c_str());
    }
    jmp_ok = false;
}

static double nowd() { struct timespec t; syscall(SYS_clock_gettime, 1, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Result replay(const Scenario& s, const std::vector<int>& ch) {
    init_once();
    Result r; r.scenario = s.name;
    SC = &s; B = s.bounds; exploring = false; no_branch = false;
    path.clear(); prefix_choices = ch; pos = 0; tracing = true; diverged.clear();
    run_one(s);
    tracing = false; prefix_choices.clear();
    r.violated = failed; r.msg = fail_msg; r.trace = trace; r.execs = 1;
    return r;
}

Result explore(const Scenario& s, double tl, bool collect) {
    init_once();
    Result r; r.scenario = s.name;
    SC = &s; B = s.bounds; exploring = true; tracing = false; diverged.clear();
    visited.init(); path.clear(); prefix_choices.clear();
    n_trans = n_points = n_hits = n_exec = 0;
    std::unordered_set<u64> outs;
    double t0 = nowd();
    bool first = true;
    for (;;) {
        run_one(s);
        ++n_exec; r.execs = n_exec;
        if (path.size() > r.maxdepth) r.maxdepth = path.size();
        r.crashes += W.ncrash > 0; r.faults += W.nfault > 0;
        if (failed && is_known && is_known(s.name, fail_msg)) { ++r.known[fail_msg]; failed = false; }
        else if (failed) {
            std::vector<int> ch; for (auto& c : path) ch.push_back(c.idx);
            std::string msg = fail_msg;
            bool div = msg.rfind("internal:", 0) == 0;
            if (div) { r.violated = true; r.msg = msg; r.choices = ch; break; }
            Result r1 = replay(s, ch), r2 = replay(s, ch);
            r.violated = true; r.msg = msg; r.choices = ch; r.trace = r1.trace;
            if (r1.msg != msg || r2.msg != msg) r.msg = "internal: violation not reproducible: first '" + msg + "' then '" + r1.msg + "' / '" + r2.msg + "'";
            break;
        }
        outs.insert(W.outcome); r.digest = r.digest * 6364136223846793005ull + W.outcome + 1;
        if (const char* d = getenv("VMC_DUMP")) { FILE* f = fopen(d, "a"); for (auto& c : path) fprintf(f, "%d ", c.idx); fprintf(f, ": %016lx\n", (unsigned long)W.outcome); fclose(f); }
        if (collect) { H128 k; build_key(k); r.finals.insert(k.a ^ W.outcome); }
        if (first || (n_exec & (n_exec - 1)) == 0) {
            if (r.samples.size() < 3 && n_exec > 1) {
                std::string d = s.name + ": schedule";
                size_t k = 0; for (auto& c : path) { if (k++ > 40) { d += " ..."; break; } d += " " + std::to_string(c.idx) + "/" + std::to_string(c.n); }
                r.samples.push_back(d);
            }
            first = false;
        }
        // determinism: every 4096 executions (and the second one) re-run the same path and compare the final state
        if ((n_exec & 4095) == 2) {
            H128 k1; build_key(k1);
            std::vector<ChoicePt> keep = path; u64 st = n_trans, pt = n_points, hits = n_hits; bool nb = no_branch;
            if (!nb) {
                std::vector<int> ch; for (auto& c : path) ch.push_back(c.idx);
                path.clear(); prefix_choices = ch; exploring = false; run_one(s);
                H128 k2; build_key(k2); exploring = true; prefix_choices.clear();
                if (!(k1 == k2)) { r.violated = true; r.msg = "internal: nondeterminism: same schedule, different final state"; r.choices = ch; break; }
                path = keep; 
            }
            n_trans = st; n_points = pt; n_hits = hits;
        }
        // backtrack
        while (!path.empty() && path.back().idx + 1 >= path.back().n) path.pop_back();
        if (path.empty()) break;
        ++path.back().idx;
        if (B.max_execs && n_exec >= B.max_execs) { r.exhaustive = false; r.cap = "execution cap " + std::to_string(B.max_execs); break; }
        if ((n_exec & 63) == 0 && tl > 0 && nowd() - t0 > tl) { r.exhaustive = false; r.cap = "time cap " + std::to_string((int)tl) + " s"; break; }
    }
    r.states = B.cache ? visited.n : n_exec; r.transitions = n_trans; r.points = n_points; r.hits = n_hits;
    r.outcomes = outs.size(); r.wall = nowd() - t0;
    return r;
}

std::string run_plain(std::function<void()> body) {
    init_once();
    static Scenario ps; ps.name = "plain"; ps.bounds = Bounds(); ps.bounds.max_steps = 50000000; ps.finish = nullptr; ps.stuck = nullptr;
    ps.build = [&body] { spawn("p", [&body] { Atomic a; body(); }); };
    SC = &ps; B = ps.bounds; exploring = false; no_branch = false; path.clear(); prefix_choices.clear(); tracing = false;
    plain_mode = true; run_one(ps); plain_mode = false;
    return failed ? (fail_msg.empty() ? std::string("failed") : fail_msg) : std::string();
}

// ------------------------------------------------------------------ harness API
int self() { return cur; }
void event(u64 v) { ENG; if (in_co) flush_write(W.procs[cur]); W.evh.add(v); ++W.nevents; TR("event %llx", (unsigned long long)v); }
u64 now_seq() { return W.nevents; }
void observe(u64 v) { W.procs[cur].hist.add(v); }
void outcome(u64 v) { W.outcome = mix64(W.outcome ^ (v + 0x1234567)); }
void note(const char* fmt, ...) {
    if (!tracing) return;
    char buf[500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (in_co) flush_write(W.procs[cur]);
    tracef("-- %s", buf);
}
void block_until(std::function<bool()> pred, const char* what) { ENG;
    Op o; o.k = O_PRED; o.pred = &pred; o.what = what; sched(o); W.procs[cur].hist.add(0xb10c); TR("passed: %s", what);
}
void point(const char* what) { ENG; Op o; o.k = O_POINT; o.what = what; sched(o); W.procs[cur].hist.add(0x9017); }
static u64 watch_lo, watch_len;
void watch(const void* p, size_t n) { watch_lo = (u64)p; watch_len = n; }
Atomic::Atomic() { ++W.procs[cur].atomic; }
Atomic::~Atomic() { if (cur >= 0 && in_co) --W.procs[cur].atomic; }
Status status(int pid) { return W.procs[pid].st; }
bool is_blocked(int pid) { return W.procs[pid].st == READY && !enabled_ok(W.procs[pid]); }
u64 steps(int pid) { return W.procs[pid].nsteps; }
static void sync() { if (in_co) flush_write(W.procs[cur]); }
bool shm_exists(const std::string& n) { return W.ns.count(n); }
long shm_size(const std::string& n) { auto it = W.ns.find(n); return it == W.ns.end() ? -1 : W.objs[it->second].size; }
const unsigned char* shm_data(const std::string& n) { sync(); auto it = W.ns.find(n); return it == W.ns.end() ? nullptr : ARENA + (size_t)it->second * SLOT; }
extern "C" void* __real_memcpy(void*, const void*, size_t);
int shm_bytes_of(const std::string& n, size_t off, void* out, size_t k) {
    sync(); auto it = W.ns.find(n); if (it == W.ns.end()) return -1;
    if ((long)(off + k) > W.objs[it->second].size) return -1;
    __real_memcpy(out, ARENA + (size_t)it->second * SLOT + off, k); return 0;
}
bool sem_exists(const std::string& n) { return W.semns.count(n); }
int sem_value(const std::string& n) { auto it = W.semns.find(n); return it == W.semns.end() ? -1 : W.sems[it->second].value; }
std::vector<std::string> list_names() {
    std::vector<std::string> v;
    for (auto& k : W.ns) v.push_back("shm:" + k.first);
    for (auto& k : W.semns) v.push_back("sem:" + k.first);
    return v;
}
int open_fds(int pid) { int n = 0; for (auto& f : W.procs[pid].fds) n += f.kind == SHMFD; return n; }
int open_sems(int pid) { int n = 0; for (auto& k : W.procs[pid].semref) n += k.second > 0; return n; }
int open_maps(int pid) { int n = 0; for (auto& k : W.procs[pid].mapcnt) n += k.second; return n; }
static int alloc_fd(Proc& p, FdKind k, int obj, bool ro) {
    for (size_t i = 0; i < p.fds.size(); ++i) if (p.fds[i].kind == FREE) { p.fds[i] = Fd{k, obj, ro}; return i; }
    p.fds.push_back(Fd{k, obj, ro}); return p.fds.size() - 1;
}
int app_open(int pid) { return alloc_fd(W.procs[pid], APPFD, -1, false); }
bool app_intact(int pid, int fd) { auto& f = W.procs[pid].fds; return fd < (int)f.size() && f[fd].kind == APPFD; }
int bad_closes(int pid) { return W.procs[pid].badclose; }
u64 blocking_calls(int pid) { return W.procs[pid].blocking; }
void idle(u64 n) { W.procs[cur].idle = n; }
u64 idle_left(int pid) { return W.procs[pid].idle; }
u64 timeout_seq(int pid) { return W.procs[pid].timeout_seq; }
u64 clock_ns() { return W.clock_ns; }
void pass_time(u64 ns) { W.clock_ns += ns; }
u64 os_calls(int pid) { return W.procs[pid].oscalls; }
void remove_all() { W.ns.clear(); W.semns.clear(); ++W.nsgen; }
static int new_obj(const std::string& name) {
    if ((int)W.objs.size() >= MAXOBJ) do_fail("internal: too many shared objects");
    W.objs.emplace_back(); W.objs.back().name = name; return W.objs.size() - 1;
}
bool shm_create(const std::string& n, const void* data, size_t k) {
    int o = new_obj(n); W.ns[n] = o; ++W.nsgen; W.objs[o].size = k; W.objs[o].high = k;
    set_bytes(ARENA_BASE + (u64)o * SLOT, (const unsigned char*)data, k); return true;
}
bool sem_create(const std::string& n, int v) { W.sems.push_back(Sem{n, v}); W.semns[n] = W.sems.size() - 1; ++W.nsgen; return true; }
const char* last_fault() { return W.lastfault.c_str(); }
int faults_injected() { return W.nfault; }
int crashes_injected() { return W.ncrash; }
int eintrs_injected() { return W.neintr; }

// ------------------------------------------------------------------ memory accesses (from vmc_tsan.cpp and mem* wrappers)
static inline bool in_arena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }

// ---- fenced heap (plain executions) and allocation counting
static const u64 HEAP_BASE = 0x200000000000ull;
static const size_t HEAP_SIZE = 512ull << 20, FENCE = 64;
static unsigned char* heap_shadow = nullptr;      // one byte per heap byte: 1 usable, 2 freed
static size_t heap_top = 0;
static std::map<u64, size_t>* heap_blocks;
static inline bool in_heap(u64 a) { return a - HEAP_BASE < HEAP_SIZE; }
static void check_heap(u64 a, size_t n, bool wr) {
    for (size_t i = 0; i < n; ++i) {
        unsigned char s = in_heap(a + i) ? heap_shadow[a + i - HEAP_BASE] : 0;
        if (s != 1) do_fail(std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes " + (s == 2 ? "in memory already freed" : "outside any allocated block"));
    }
}
static void* heap_alloc(size_t n, size_t align = 16) {
    size_t p = (heap_top + FENCE + align - 1) & ~(align - 1);
    if (p + n + FENCE > HEAP_SIZE) { heap_on = false; do_fail("internal: fenced heap exhausted"); }
    bool keep = heap_on; heap_on = false; (*heap_blocks)[HEAP_BASE + p] = n; heap_on = keep;
    __builtin_memset(heap_shadow + p, 1, n); heap_top = p + n;
    return (void*)(HEAP_BASE + p);
}
static void heap_free(void* q) {
    auto it = heap_blocks->find((u64)q);
    if (it == heap_blocks->end()) { heap_on = false; do_fail("free() of an address that is not an allocated block"); }
    size_t n = it->second; bool keep = heap_on; heap_on = false; heap_blocks->erase(it); heap_on = keep;
    __builtin_memset(heap_shadow + ((u64)q - HEAP_BASE), 2, n);
}
HeapGuard::HeapGuard() {
    if (!heap_shadow) {
        void* h = mmap((void*)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if ((u64)h != HEAP_BASE) { fprintf(stderr, "cannot map heap\n"); _exit(3); }
        heap_shadow = (unsigned char*)mmap(nullptr, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        heap_blocks = new std::map<u64, size_t>;
    }
    heap_on = true;
}
HeapGuard::~HeapGuard() { heap_on = false; }
static void heap_reset() {
    heap_on = false;
    if (heap_top) {
        if (heap_top > (4u << 20)) { madvise(heap_shadow, HEAP_SIZE, MADV_DONTNEED); madvise((void*)HEAP_BASE, HEAP_SIZE, MADV_DONTNEED); }
        else { memset(heap_shadow, 0, heap_top + FENCE); }
        heap_top = 0; heap_blocks->clear();
    }
}
static inline bool fenced() { return heap_on && !(in_co && cur >= 0 && W.procs[cur].eng); }   // the engine's own memory is not fenced: it outlives the guard
static inline void count_alloc() { if (in_co && cur >= 0 && !W.procs[cur].eng) ++W.procs[cur].nalloc; }
u64 allocations(int pid) { return W.procs[pid].nalloc; }

static void check_access(Proc& p, u64 a, size_t n, bool wr) {
    u64 off = a - ARENA_BASE; int o = off / SLOT; size_t in = off % SLOT;
    auto& maps = W.procs[p.grp].maps; auto it = maps.find(o);
    if (it == maps.end()) do_fail(p.name + (wr ? " writes" : " reads") + " shared memory that is not mapped (object " + (o < (int)W.objs.size() ? W.objs[o].name : std::string("?")) + ")");
    if ((long)(in + n) > it->second) do_fail(p.name + (wr ? " writes" : " reads") + " past the mapped length of " + W.objs[o].name + " (offset " + std::to_string(in) + ", " + std::to_string(n) + " bytes, mapped " + std::to_string(it->second) + ")");
    if ((long)(in + n) > W.objs[o].size) do_fail(p.name + (wr ? " writes" : " reads") + " past the end of " + W.objs[o].name + " (offset " + std::to_string(in) + ", " + std::to_string(n) + " bytes, size " + std::to_string(W.objs[o].size) + ")");
}
static void access1(u64 a, size_t n, bool wr) { ENG;
    Op o; o.k = O_MEM; o.mut = wr; o.what = wr ? "memory write" : "memory read";
    sched(o);
    Proc& p = W.procs[cur];
    check_access(p, a, n, wr);
    if (wr) {
        p.wa = a; p.wn = n; memcpy(p.wold, (void*)a, n);
        p.hist.add(0x3000 + n); p.hist.add(a);
    } else {
        u64 v = 0, v2 = 0; memcpy(&v, (void*)a, n < 8 ? n : 8); if (n > 8) memcpy(&v2, (void*)(a + 8), n - 8);
        p.hist.add(a * 16 + n); p.hist.add(v); if (n > 8) p.hist.add(v2);
        if (p.deps.size() < 256) p.deps.push_back(Dep{0, a, v, (uint8_t)(n < 8 ? n : 8)}); else p.depover = true;
        TR("read  %s+%zu (%zu bytes) = 0x%llx", W.objs[(a - ARENA_BASE) / SLOT].name.c_str(), (size_t)((a - ARENA_BASE) % SLOT), n, (unsigned long long)v);
    }
}
extern "C" void vmc_access(u64 a, size_t n, int wr) {
    if (__builtin_expect(a - watch_lo < watch_len, 0) && in_co && !plain_mode && !W.procs[cur].eng && !W.procs[cur].atomic) { point(wr ? "write of a shared object's member" : "read of a shared object's member"); return; }
    if (__builtin_expect(!in_arena(a), 1)) { if (__builtin_expect(heap_on && in_heap(a), 0) && in_co) check_heap(a, n, wr); return; }
    if (!in_co) return;
    if (plain_mode) { Proc& p = W.procs[cur]; check_access(p, a, n, wr); return; }
    if (wr) { if (n > sizeof(W.procs[cur].wold)) do_fail("internal: store too wide"); access1(a, n, true); return; }
    while (n) {
        size_t m = n;
        if (m > 8) m = 8 - (a & 7);
        access1(a, m, false); a += m; n -= m;
    }
}
// atomic read-modify-write: one step
extern "C" void vmc_access_rmw(u64 a, size_t n) { ENG;
    if (!in_arena(a) || !in_co) return;
    if (plain_mode) { check_access(W.procs[cur], a, n, true); return; }
    Op o; o.k = O_MEM; o.mut = true; o.what = "atomic update"; sched(o);
    Proc& p = W.procs[cur]; check_access(p, a, n, true);
    u64 v = 0; memcpy(&v, (void*)a, n < 8 ? n : 8);
    p.hist.add(a * 16 + n + 0x77); p.hist.add(v);
    if (p.deps.size() < 256) p.deps.push_back(Dep{0, a, v, (uint8_t)(n < 8 ? n : 8)});
    p.wa = a; p.wn = n; memcpy(p.wold, (void*)a, n);
}
static void bulk_read(u64 a, size_t n) { while (n) { size_t m = 8 - (a & 7); if (m > n) m = n; access1(a, m, false); a += m; n -= m; } }

} // namespace vmc
using namespace vmc;

// ================================================================== interposed C functions
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);

static void heap_span(void* d, const void* s, size_t n) {
    if (in_heap((u64)d)) check_heap((u64)d, n, true);
    if (in_heap((u64)s)) check_heap((u64)s, n, false);
}
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
void* __wrap_malloc(size_t n) { count_alloc(); void* p = fenced() ? heap_alloc(n) : __real_malloc(n); if (in_co && p) __builtin_memset(p, 0xA5, n); return p; }
void __wrap_free(void* p) { if (p && in_heap((u64)p)) heap_free(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { count_alloc(); if (!fenced()) return __real_calloc(a, b); void* p = heap_alloc(a * b); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    count_alloc(); if (!(p && in_heap((u64)p)) && !fenced()) return __real_realloc(p, n);
    void* q = fenced() ? heap_alloc(n) : __real_malloc(n);
    if (p) { size_t o = in_heap((u64)p) ? (*heap_blocks)[(u64)p] : n; __real_memcpy(q, p, o < n ? o : n); __wrap_free(p); }
    return q;
}
// copies touching shared memory are performed in 8-byte pieces, each a scheduling point
static void* slow_copy(void* d, const void* s, size_t n, bool backwards) {
    u64 da = (u64)d, sa = (u64)s;
    bool dm = in_arena(da), sm = in_arena(sa);
    if (plain_mode) {
        if (dm && n) check_access(W.procs[cur], da, n, true);
        if (sm && n) check_access(W.procs[cur], sa, n, false);
        return __real_memmove(d, s, n);
    }
    (void)backwards;
    unsigned char* tmp = (unsigned char*)malloc(n ? n : 1);
    size_t i = 0;
    while (i < n) {
        size_t m = n - i; if (m > 8) m = 8;
        if (sm) { size_t q = 8 - ((sa + i) & 7); if (q < m) m = q; }
        if (dm) { size_t q = 8 - ((da + i) & 7); if (q < m) m = q; }
        if (sm) access1(sa + i, m, false);
        __real_memcpy(tmp, (const char*)s + i, m);
        if (dm) access1(da + i, m, true);
        __real_memcpy((char*)d + i, tmp, m);
        i += m;
    }
    free(tmp);
    return d;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { ENG;
    if (__builtin_expect(heap_on && n, 0)) heap_span(d, s, n);
    if (__builtin_expect(in_co && (in_arena((u64)d) || in_arena((u64)s)), 0)) return slow_copy(d, s, n, false);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) { ENG;
    if (__builtin_expect(heap_on && n, 0)) heap_span(d, s, n);
    if (__builtin_expect(in_co && (in_arena((u64)d) || in_arena((u64)s)), 0)) return slow_copy(d, s, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) { ENG;
    if (__builtin_expect(heap_on && n, 0)) heap_span(d, d, n);
    if (__builtin_expect(in_co && in_arena((u64)d), 0)) {
        if (plain_mode) { if (n) check_access(W.procs[cur], (u64)d, n, true); return __real_memset(d, c, n); }
        u64 a = (u64)d; size_t i = 0;
        while (i < n) { size_t m = 8 - ((a + i) & 7); if (m > n - i) m = n - i; access1(a + i, m, true); __real_memset((char*)d + i, c, m); i += m; }
        return d;
    }
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* x, const void* y, size_t n) { ENG;
    if (__builtin_expect(in_co && !plain_mode, 0)) {
        if (in_arena((u64)x)) bulk_read((u64)x, n);
        if (in_arena((u64)y)) bulk_read((u64)y, n);
    }
    return __real_memcmp(x, y, n);
}

// ---- generic OS step
static Variant os_step(const char* what, bool mut, bool faultable) {
    Op o; o.k = O_OS; o.mut = mut; o.what = what; o.faultable = faultable;
    Variant v = plain_mode ? (sched(o), V_OK) : sched(o);
    ++W.procs[cur].oscalls;
    return v;
}
static Proc& RP() { return W.procs[W.procs[cur].grp]; }   // who owns the descriptors, mappings and semaphores
static void nsdep() { Proc& p = W.procs[cur]; p.deps.push_back(Dep{1, 0, W.nsgen, 0}); }
static int ret_err(int e) { errno = e; W.procs[cur].hist.add(0xee00 + e); return -1; }
static void ok_hist(u64 v) { W.procs[cur].hist.add(v); }
static bool bad_name(const char* n) { return !n || n[0] != '/' || strchr(n + 1, '/') || strlen(n) > 254 || !n[1]; }

int __wrap_shm_open(const char* name, int oflag, mode_t) { ENG;
    Variant v = os_step("shm_open", (oflag & (O_CREAT | O_TRUNC)) != 0, true);
    Proc& p = W.procs[cur];
    if (v == V_FAULT) { W.lastfault = std::string("shm_open(") + name + "): EMFILE"; TR("shm_open(%s) -> EMFILE (injected)", name); return ret_err(EMFILE); }
    std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
    if (bad_name(n.c_str())) return ret_err(EINVAL);
    auto it = W.ns.find(n);
    int o;
    if (it == W.ns.end()) {
        if (!(oflag & O_CREAT)) { nsdep(); TR("shm_open(%s) -> ENOENT", name); return ret_err(ENOENT); }
        o = new_obj(n); W.ns[n] = o; ++W.nsgen;
        ok_hist(0x51);
    } else {
        o = it->second;
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) { nsdep(); TR("shm_open(%s) -> EEXIST", name); return ret_err(EEXIST); }
        ok_hist(0x52);
        if (oflag & O_TRUNC) { Obj& ob = W.objs[o]; if (ob.high) { std::vector<unsigned char> z(ob.high, 0); set_bytes(ARENA_BASE + (u64)o * SLOT, z.data(), ob.high); } ob.size = 0; }
    }
    int fd = alloc_fd(RP(), SHMFD, o, (oflag & O_ACCMODE) == O_RDONLY);
    ok_hist(o);
    TR("shm_open(%s, %s) -> fd %d (object #%d)", name, (oflag & O_CREAT) ? "create" : "open", fd, o);
    return fd;
}
int __wrap_shm_unlink(const char* name) { ENG;
    os_step("shm_unlink", true, false);
    std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
    auto it = W.ns.find(n);
    if (it == W.ns.end()) { nsdep(); TR("shm_unlink(%s) -> ENOENT", name); return ret_err(ENOENT); }
    W.ns.erase(it); ++W.nsgen; ok_hist(0x53);
    TR("shm_unlink(%s)", name);
    return 0;
}
static int shm_trunc(int fd, long len, const char* what, bool grow_only) {
    Variant v = os_step(what, true, true);
    Proc& p = W.procs[cur];
    if (len < 0) return ret_err(EINVAL);
    if (fd < 0 || fd >= (int)RP().fds.size() || RP().fds[fd].kind == FREE) { TR("%s(%d) -> EBADF", what, fd); return ret_err(EBADF); }
    if (RP().fds[fd].kind == APPFD) do_fail(p.name + " resizes a descriptor that belongs to the application");
    Obj& o = W.objs[RP().fds[fd].obj];
    if (v == V_FAULT) { W.lastfault = std::string(what) + "(" + o.name + "): ENOSPC"; TR("%s(%s) -> ENOSPC (injected)", what, o.name.c_str()); return ret_err(ENOSPC); }
    if (len > (long)SLOT) return ret_err(EFBIG);
    if (grow_only && len <= o.size) { ok_hist(0x55); return 0; }
    if (len < o.size) {
        std::vector<unsigned char> z(o.size - len, 0);
        set_bytes(ARENA_BASE + (u64)RP().fds[fd].obj * SLOT + len, z.data(), z.size());
    }
    o.size = len; if ((size_t)len > o.high) o.high = len;
    ok_hist(0x54); ok_hist(len);
    TR("%s(%s, %ld)", what, o.name.c_str(), len);
    return 0;
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t len) { ENG; if (!in_co) return __real_ftruncate(fd, len); return shm_trunc(fd, len, "ftruncate", false); }
int __wrap_ftruncate64(int fd, off_t len) { ENG; return shm_trunc(fd, len, "ftruncate", false); }
int __wrap_posix_fallocate(int fd, off_t off, off_t len) { ENG; int r = shm_trunc(fd, off + len, "posix_fallocate", true); return r ? errno : 0; }

int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st) { ENG;
    if (!in_co) return __real_fstat(fd, st);
    os_step("fstat", false, false);
    Proc& p = W.procs[cur];
    if (fd < 0 || fd >= (int)RP().fds.size() || RP().fds[fd].kind == FREE) return ret_err(EBADF);
    __real_memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0600; st->st_nlink = 1;
    if (RP().fds[fd].kind == SHMFD) { st->st_size = W.objs[RP().fds[fd].obj].size; st->st_ino = RP().fds[fd].obj + 10; st->st_nlink = W.ns.count(W.objs[RP().fds[fd].obj].name) && W.ns[W.objs[RP().fds[fd].obj].name] == RP().fds[fd].obj; }
    ok_hist(0x58); ok_hist(st->st_size); ok_hist(st->st_nlink); p.deps.push_back(Dep{1, 0, W.nsgen, 0});
    return 0;
}
int __wrap_fchmod(int, mode_t) { ENG; return 0; }
int __real_fcntl(int, int, ...);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) { ENG;
    if (!in_co || (flags & MAP_ANONYMOUS)) return __real_mmap(addr, len, prot, flags, fd, off);
    Variant v = os_step("mmap", false, true);
    Proc& p = W.procs[cur];
    if (fd < 0 || fd >= (int)RP().fds.size() || RP().fds[fd].kind == FREE) { TR("mmap(fd %d) -> EBADF", fd); ret_err(EBADF); return MAP_FAILED; }
    if (RP().fds[fd].kind != SHMFD) do_fail(p.name + " maps a descriptor that is not shared memory");
    int o = RP().fds[fd].obj;
    if (v == V_FAULT) { W.lastfault = "mmap(" + W.objs[o].name + "): ENOMEM"; TR("mmap(%s) -> ENOMEM (injected)", W.objs[o].name.c_str()); ret_err(ENOMEM); return MAP_FAILED; }
    if (len == 0 || off != 0) { ret_err(EINVAL); return MAP_FAILED; }
    if (len > SLOT) { ret_err(ENOMEM); return MAP_FAILED; }
    if (!(flags & MAP_SHARED)) do_fail(p.name + " maps shared memory privately");
    long& l = RP().maps[o]; if ((long)len > l) l = len;
    ++RP().mapcnt[o];
    ok_hist(0x56); ok_hist(o * 4096 + len);
    TR("mmap(%s, %zu)", W.objs[o].name.c_str(), len);
    return (void*)(ARENA_BASE + (u64)o * SLOT);
}
void* __wrap_mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { ENG; return __wrap_mmap(a, l, p, f, fd, o); }
int __real_munmap(void*, size_t);
int __wrap_munmap(void* a, size_t len) { ENG;
    if (!in_co || !in_arena((u64)a)) return __real_munmap(a, len);
    os_step("munmap", false, false);
    Proc& p = W.procs[cur]; int o = ((u64)a - ARENA_BASE) / SLOT;
    if (--RP().mapcnt[o] <= 0) { RP().maps.erase(o); RP().mapcnt.erase(o); }
    ok_hist(0x57); TR("munmap(%s)", W.objs[o].name.c_str());
    return 0;
}
int __wrap_msync(void*, size_t, int) { ENG; return 0; }
int __wrap_mlock(const void*, size_t) { ENG; return 0; }
int __real_close(int);
int __wrap_close(int fd) { ENG;
    if (!in_co) return __real_close(fd);
    os_step("close", false, false);
    Proc& p = W.procs[cur];
    if (fd < 0 || fd >= (int)RP().fds.size() || RP().fds[fd].kind == FREE) { ++RP().badclose; TR("close(%d) -> EBADF", fd); return ret_err(EBADF); }
    if (RP().fds[fd].kind == APPFD) TR("close(%d) closes a descriptor of the application", fd);
    RP().fds[fd] = Fd(); ok_hist(0x59); TR("close(%d)", fd);
    return 0;
}
int __real_dup(int);
int __wrap_dup(int fd) { ENG;
    if (!in_co) return __real_dup(fd);
    os_step("dup", false, true); Proc& p = W.procs[cur];
    if (fd < 0 || fd >= (int)RP().fds.size() || RP().fds[fd].kind == FREE) return ret_err(EBADF);
    return alloc_fd(RP(), RP().fds[fd].kind, RP().fds[fd].obj, RP().fds[fd].ro);
}
int __wrap_getpid() { ENG; return in_co ? 1000 + W.procs[cur].grp : 999; }

// ---- named semaphores
static SemH* sem_handle(sem_t* s) {
    SemH* h = (SemH*)s;
    if (h < &semh[0][0] || h >= &semh[MAXP][0]) return nullptr;
    return h->magic == 0x5e3a ? h : nullptr;
}
static SemH* need_sem(sem_t* s, const char* fn) {
    SemH* h = sem_handle(s);
    if (!h) do_fail(W.procs[cur].name + " calls " + fn + " on an invalid semaphore");
    if (h->proc != W.procs[cur].grp) do_fail(W.procs[cur].name + " calls " + fn + " on a semaphore handle of another process");
    if (RP().semref[h->sem] <= 0) do_fail(W.procs[cur].name + " calls " + fn + " on a closed semaphore");
    return h;
}
sem_t* __wrap_sem_open(const char* name, int oflag, ...) { ENG;
    int value = 0; mode_t mode = 0;
    if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); mode = va_arg(ap, mode_t); value = va_arg(ap, unsigned); va_end(ap); (void)mode; }
    Variant v = os_step("sem_open", (oflag & O_CREAT) != 0, true);
    Proc& p = W.procs[cur];
    if (v == V_FAULT) { W.lastfault = std::string("sem_open(") + name + "): EMFILE"; TR("sem_open(%s) -> EMFILE (injected)", name); ret_err(EMFILE); return SEM_FAILED; }
    std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
    if (bad_name(n.c_str()) || n.size() > 250) { ret_err(EINVAL); return SEM_FAILED; }
    auto it = W.semns.find(n);
    int s;
    if (it == W.semns.end()) {
        if (!(oflag & O_CREAT)) { nsdep(); TR("sem_open(%s) -> ENOENT", name); ret_err(ENOENT); return SEM_FAILED; }
        if (W.sems.size() >= 64) do_fail("internal: too many semaphores");
        W.sems.push_back(Sem{n, value}); s = W.sems.size() - 1; W.semns[n] = s; ++W.nsgen; ok_hist(0x61);
    } else {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) { nsdep(); TR("sem_open(%s) -> EEXIST", name); ret_err(EEXIST); return SEM_FAILED; }
        s = it->second; ok_hist(0x62);
    }
    ok_hist(s);
    SemH& h = semh[W.procs[cur].grp][s]; h.magic = 0x5e3a; h.proc = W.procs[cur].grp; h.sem = s; ++RP().semref[s];
    TR("sem_open(%s) -> semaphore #%d (value %d)", name, s, W.sems[s].value);
    return (sem_t*)&h;
}
int __wrap_sem_close(sem_t* sm) { ENG;
    os_step("sem_close", false, false);
    SemH* h = sem_handle(sm);
    if (!h || h->proc != W.procs[cur].grp || RP().semref[h->sem] <= 0) { TR("sem_close -> EINVAL"); ++RP().badclose; return ret_err(EINVAL); }
    --RP().semref[h->sem]; ok_hist(0x63); TR("sem_close(%s #%d)", W.sems[h->sem].name.c_str(), h->sem);
    return 0;
}
int __wrap_sem_unlink(const char* name) { ENG;
    os_step("sem_unlink", true, false);
    std::string n = name; if (!n.empty() && n[0] != '/') n = "/" + n;
    auto it = W.semns.find(n);
    if (it == W.semns.end()) { nsdep(); TR("sem_unlink(%s) -> ENOENT", name); return ret_err(ENOENT); }
    W.semns.erase(it); ++W.nsgen; ok_hist(0x64); TR("sem_unlink(%s)", name);
    return 0;
}
int __wrap_sem_post(sem_t* sm) { ENG;
    SemH* h = need_sem(sm, "sem_post");
    os_step("sem_post", true, false);
    ++W.sems[h->sem].value; ok_hist(0x65); TR("sem_post(%s) -> %d", W.sems[h->sem].name.c_str(), W.sems[h->sem].value);
    return 0;
}
int __wrap_sem_trywait(sem_t* sm) { ENG;
    SemH* h = need_sem(sm, "sem_trywait");
    os_step("sem_trywait", true, false);
    Sem& s = W.sems[h->sem];
    if (s.value > 0) { --s.value; ok_hist(0x66); TR("sem_trywait(%s) ok -> %d", s.name.c_str(), s.value); return 0; }
    W.procs[cur].deps.push_back(Dep{2, (u64)h->sem, 0, 0});
    TR("sem_trywait(%s) -> EAGAIN", s.name.c_str());
    return ret_err(EAGAIN);
}
int __wrap_sem_wait(sem_t* sm) { ENG;
    SemH* h = need_sem(sm, "sem_wait");
    Op o; o.k = O_SEMWAIT; o.sem = h->sem; o.mut = true; o.eintr = true;
    static char nm[8][160]; static int ni; char* b = nm[ni++ & 7]; snprintf(b, 160, "sem_wait(%s)", W.sems[h->sem].name.c_str()); o.what = b;
    ++W.procs[cur].blocking; ++W.procs[cur].oscalls;
    Variant v = sched(o);
    if (v == V_EINTR) { TR("sem_wait(%s) -> EINTR (injected)", W.sems[h->sem].name.c_str()); return ret_err(EINTR); }
    --W.sems[h->sem].value; ok_hist(0x67); TR("sem_wait(%s) ok -> %d", W.sems[h->sem].name.c_str(), W.sems[h->sem].value);
    return 0;
}
static u64 ts_ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
static int sem_timed(sem_t* sm, const struct timespec* ts) {
    SemH* h = need_sem(sm, "sem_timedwait");
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return ret_err(EINVAL);
    Op o; o.k = O_SEMTIMED; o.sem = h->sem; o.mut = true; o.deadline = ts_ns(ts); o.timed = true; o.eintr = true; o.what = "sem_timedwait";
    ++W.procs[cur].blocking; ++W.procs[cur].oscalls;
    Variant v = sched(o);
    Sem& s = W.sems[h->sem];
    if (v == V_EINTR) { TR("sem_timedwait(%s) -> EINTR", s.name.c_str()); return ret_err(EINTR); }
    if (v == V_TIMEOUT && s.value <= 0) { if (W.clock_ns < o.deadline) W.clock_ns = o.deadline; TR("sem_timedwait(%s) -> timeout", s.name.c_str()); return ret_err(ETIMEDOUT); }
    if (s.value > 0) { --s.value; ok_hist(0x68); TR("sem_timedwait(%s) ok -> %d", s.name.c_str(), s.value); return 0; }
    TR("sem_timedwait(%s) -> ETIMEDOUT", s.name.c_str());
    return ret_err(ETIMEDOUT);
}
int __wrap_sem_timedwait(sem_t* sm, const struct timespec* ts) { ENG; return sem_timed(sm, ts); }
int __wrap_sem_clockwait(sem_t* sm, clockid_t, const struct timespec* ts) { ENG; return sem_timed(sm, ts); }
int __wrap_sem_getvalue(sem_t* sm, int* v) { ENG;
    SemH* h = need_sem(sm, "sem_getvalue");
    os_step("sem_getvalue", false, false);
    *v = W.sems[h->sem].value; ok_hist(0x6900 + *v); W.procs[cur].deps.push_back(Dep{2, (u64)h->sem, (u64)*v, 0});
    return 0;
}

// ---- process-shared mutexes and conditions living in shared memory
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
}
struct Loc { int obj; size_t off; };
static Loc loc_of(void* a, size_t n, const char* fn) {
    u64 x = (u64)a - ARENA_BASE; Loc l{(int)(x / SLOT), x % SLOT};
    Proc& p = W.procs[cur];
    auto it = RP().maps.find(l.obj);
    if (it == RP().maps.end() || (long)(l.off + n) > it->second || (long)(l.off + n) > W.objs[l.obj].size) do_fail(p.name + " calls " + fn + " outside mapped shared memory");
    return l;
}
#define VIRT(a) (in_co && in_arena((u64)(a)))
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_init(m, at);
    os_step("mutex init", true, false); Loc l = loc_of(m, sizeof *m, "mutex_init"); W.objs[l.obj].mtx[l.off] = MutexSt(); ok_hist(0x70); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_destroy(m);
    os_step("mutex destroy", true, false); return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_lock(m);
    Loc l = loc_of(m, sizeof *m, "mutex_lock");
    Op o; o.k = O_MLOCK; o.mut = true; o.obj = l.obj; o.off = l.off; o.what = "shared mutex lock"; sched(o);
    MutexSt& s = W.objs[l.obj].mtx[l.off]; s.locked = true; s.owner = cur; ok_hist(0x71); TR("mutex lock %s+%zu", W.objs[l.obj].name.c_str(), l.off); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_trylock(m);
    os_step("shared mutex trylock", true, false); Loc l = loc_of(m, sizeof *m, "mutex_trylock");
    MutexSt& s = W.objs[l.obj].mtx[l.off]; if (s.locked) { ok_hist(0x72); return EBUSY; } s.locked = true; s.owner = cur; ok_hist(0x73); return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_timedlock(m, ts);
    Loc l = loc_of(m, sizeof *m, "mutex_timedlock");
    Op o; o.k = O_MTIMED; o.mut = true; o.obj = l.obj; o.off = l.off; o.timed = true; o.deadline = ts_ns(ts); o.what = "shared mutex timedlock"; Variant v = sched(o);
    MutexSt& s = W.objs[l.obj].mtx[l.off];
    if (v == V_TIMEOUT || s.locked) { if (W.clock_ns < o.deadline) W.clock_ns = o.deadline; ok_hist(0x74); return ETIMEDOUT; }
    s.locked = true; s.owner = cur; ok_hist(0x75); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { ENG;
    if (!VIRT(m)) return __real_pthread_mutex_unlock(m);
    os_step("shared mutex unlock", true, false); Loc l = loc_of(m, sizeof *m, "mutex_unlock");
    MutexSt& s = W.objs[l.obj].mtx[l.off];
    if (!s.locked || s.owner != cur) do_fail(W.procs[cur].name + " unlocks a shared mutex it does not hold");
    s.locked = false; s.owner = -1; ok_hist(0x76); TR("mutex unlock %s+%zu", W.objs[l.obj].name.c_str(), l.off); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) { ENG;
    if (!VIRT(c)) return __real_pthread_cond_init(c, at);
    os_step("condition init", true, false); Loc l = loc_of(c, sizeof *c, "cond_init"); W.objs[l.obj].cnd[l.off] = CondSt(); ok_hist(0x77); return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { ENG;
    if (!VIRT(c)) return __real_pthread_cond_destroy(c);
    os_step("condition destroy", true, false); return 0;
}
static int cond_block(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    os_step("condition wait", true, false);
    Loc lc = loc_of(c, sizeof *c, "cond_wait"), lm = loc_of(m, sizeof *m, "cond_wait");
    MutexSt& s = W.objs[lm.obj].mtx[lm.off];
    if (!s.locked || s.owner != cur) do_fail(W.procs[cur].name + " waits on a condition without holding its mutex");
    s.locked = false; s.owner = -1;
    W.objs[lc.obj].cnd[lc.off].waiters.push_back(cur);
    TR("condition wait (blocks)%s", ts ? " with timeout" : "");
    Op o; o.k = O_CWAIT; o.obj = lc.obj; o.off = lc.off; o.obj2 = lm.obj; o.off2 = lm.off; o.timed = ts != nullptr; o.deadline = ts ? ts_ns(ts) : 0; o.what = "condition wait";
    ++W.procs[cur].blocking;
    Variant v = sched(o);
    auto& w = W.objs[lc.obj].cnd[lc.off].waiters;
    for (size_t i = 0; i < w.size(); ++i) if (w[i] == cur) { w.erase(w.begin() + i); break; }
    MutexSt& s2 = W.objs[lm.obj].mtx[lm.off]; s2.locked = true; s2.owner = cur;
    if (W.procs[cur].op.expired) { ok_hist(0x78); TR("condition wait timed out"); return ETIMEDOUT; }
    ok_hist(0x79); TR("condition wait returned%s", v == V_SPUR ? " (spurious)" : "");
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { ENG; if (!VIRT(c)) return __real_pthread_cond_wait(c, m); return cond_block(c, m, nullptr); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { ENG; if (!VIRT(c)) return __real_pthread_cond_timedwait(c, m, ts); return cond_block(c, m, ts); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { ENG; return cond_block(c, m, ts); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { ENG;
    if (!VIRT(c)) return __real_pthread_cond_signal(c);
    os_step("condition signal", true, false); Loc l = loc_of(c, sizeof *c, "cond_signal");
    std::vector<int> un; for (int w : W.objs[l.obj].cnd[l.off].waiters) if (!W.procs[w].op.signalled) un.push_back(w);
    ok_hist(0x7a);
    if (un.empty()) { TR("condition signal (nobody waits)"); return 0; }
    int k = un.size() > 1 && !plain_mode ? choose(un.size(), "which waiter is signalled") : 0;
    W.procs[un[k]].op.signalled = true; TR("condition signal -> P%d", un[k]);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { ENG;
    if (!VIRT(c)) return __real_pthread_cond_broadcast(c);
    os_step("condition broadcast", true, false); Loc l = loc_of(c, sizeof *c, "cond_broadcast");
    for (int w : W.objs[l.obj].cnd[l.off].waiters) W.procs[w].op.signalled = true;
    ok_hist(0x7b); TR("condition broadcast"); return 0;
}

// ---- time
static int do_sleep(u64 ns) {
    Proc& p = W.procs[cur];
    if (p.idle) { --p.idle; W.clock_ns += ns ? ns : 1000; p.deps.clear(); p.clockdep = false; p.depover = false; p.hist.add(0x1d1e); p.hist.add(p.idle); return 0; }
    p.sleepfree = (p.deps.empty() && !p.clockdep) || p.depover;
    Op o; o.k = O_SLEEP; o.what = "sleep/poll"; o.timed = true; ++p.blocking;
    Variant v = sched(o);
    Proc& q = W.procs[cur];
    if (v == V_TIMEOUT || q.clockdep) W.clock_ns += ns ? ns : 1000;
    q.deps.clear(); q.clockdep = false; q.sleepfree = false; q.depover = false; q.hist.add(0x51ee);
    TR("wakes up from sleep");
    return 0;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* r, struct timespec* m) { ENG; if (!in_co) return __real_nanosleep(r, m); return do_sleep(ts_ns(r)); }
int __wrap_clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*) { ENG;
    u64 n = ts_ns(r); if (flags) n = n > W.clock_ns ? n - W.clock_ns : 0; do_sleep(n); return 0; }
int __wrap_usleep(useconds_t u) { ENG; return do_sleep((u64)u * 1000); }
unsigned __wrap_sleep(unsigned s) { ENG; do_sleep((u64)s * 1000000000ull); return 0; }
int __real_sched_yield();
int __wrap_sched_yield() { ENG; if (!in_co) return __real_sched_yield(); return do_sleep(1000); }
static u64 clk() { Proc& p = W.procs[cur]; p.clockdep = true; p.hist.add(W.clock_ns); return W.clock_ns; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { ENG;
    if (!in_co) return __real_clock_gettime(c, t);
    u64 n = clk(); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* t, void* z) { ENG;
    if (!in_co) return __real_gettimeofday(t, z);
    u64 n = clk(); t->tv_sec = n / 1000000000ull; t->tv_usec = n % 1000000000ull / 1000; return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) { ENG; if (!in_co) return __real_time(t); time_t s = clk() / 1000000000ull; if (t) *t = s; return s; }
// std::chrono::{system,steady}_clock::now()
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { ENG; if (!in_co) { struct timespec t; __real_clock_gettime(0, &t); return ts_ns(&t); } return clk(); }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { ENG; if (!in_co) { struct timespec t; __real_clock_gettime(1, &t); return ts_ns(&t); } return clk(); }
} // extern "C"
// ---- operator new/delete of the whole program
#include <new>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); }
static void* onew(size_t n) { count_alloc(); void* p = fenced() ? heap_alloc(n ? n : 1) : __real_malloc(n ? n : 1); if (!p) abort(); if (in_co) __builtin_memset(p, 0xA5, n); return p; }   // what is never initialised is at least the same in every run
static void odel(void* p) { if (!p) return; if (in_heap((u64)p)) heap_free(p); else __real_free(p); }
void* operator new(size_t n) { return onew(n); }
void* operator new[](size_t n) { return onew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return onew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return onew(n); }
void operator delete(void* p) noexcept { odel(p); }
void operator delete[](void* p) noexcept { odel(p); }
void operator delete(void* p, size_t) noexcept { odel(p); }
void operator delete[](void* p, size_t) noexcept { odel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { odel(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { odel(p); }
