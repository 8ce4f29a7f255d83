// The harness API on the real kernel: runs the histories (scenarios with one caller) and the input
// enumerations of a harness natively, against the real shm_open, semaphores, mmap, descriptors and
// process-shared mutexes.  Used by `check.py --conformance` to validate the virtual POSIX layer: every
// history that the explorer judged there is executed here too, judged by the same oracle, and what each
// execution reported must be the same.  Names are prefixed (link option --wrap), so that nothing else is touched.
#include "vmc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <cstdarg>
#include <string>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vmc;
namespace vmc { std::function<bool(const std::string&, const std::string&)> is_known; }
static std::string PFX;                       // "/vmcn<pid>_"
static std::string real_name(const char* n) { return PFX + (n[0] == '/' ? n + 1 : n); }
static bool plain_ok(const char* n) { return n && !strchr(n + (n[0] == '/'), '/') && n[n[0] == '/']; }
static std::map<sem_t*, int> sems; static int bad, nspawn; static std::vector<int> appfds; static int base_fds;
struct Skip {}; struct Fail { std::string m; };
static std::vector<std::pair<int, int>> path; static size_t depth_; static u64 out_, trans;
static std::vector<std::function<void()>> bodies;

extern "C" {
int __real_shm_open(const char*, int, mode_t); int __real_shm_unlink(const char*);
sem_t* __real_sem_open(const char*, int, ...); int __real_sem_close(sem_t*); int __real_sem_unlink(const char*); int __real_close(int);
int __wrap_shm_open(const char* n, int f, mode_t m) { ++trans; return __real_shm_open(plain_ok(n) ? real_name(n).c_str() : n, f, m); }
int __wrap_shm_unlink(const char* n) { ++trans; return __real_shm_unlink(plain_ok(n) ? real_name(n).c_str() : n); }
sem_t* __wrap_sem_open(const char* n, int f, ...) {
    int v = 0; mode_t m = 0;
    if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); v = va_arg(ap, unsigned); va_end(ap); }
    ++trans; sem_t* s = __real_sem_open(plain_ok(n) ? real_name(n).c_str() : n, f, m, v);
    if (s != SEM_FAILED) ++sems[s];
    return s;
}
int __wrap_sem_close(sem_t* s) {
    ++trans; auto it = sems.find(s);
    if (it == sems.end()) { ++bad; errno = EINVAL; return -1; }   // glibc would search (and may crash)
    if (!--it->second) sems.erase(it);
    return __real_sem_close(s);
}
int __wrap_sem_unlink(const char* n) { ++trans; return __real_sem_unlink(plain_ok(n) ? real_name(n).c_str() : n); }
int __wrap_close(int fd) { ++trans; int r = __real_close(fd); if (r && errno == EBADF) ++bad; return r; }
}

namespace vmc {
static std::vector<std::string> dev() {
    std::vector<std::string> v; DIR* d = opendir("/dev/shm"); if (!d) return v;
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.rfind(PFX.substr(1), 0) == 0 || n.rfind("sem." + PFX.substr(1), 0) == 0) v.push_back(n); }
    closedir(d); std::sort(v.begin(), v.end()); return v;
}
static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int spawn_thread(const std::string&, int, std::function<void()> b) { bodies.push_back(b); return bodies.size() - 1; }
int spawn(const std::string&, std::function<void()> b) { bodies.push_back(b); return bodies.size() - 1; }
int self() { return 0; }
void fail(const char* fmt, ...) { char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Fail{b}; }
void pfail(const char* fmt, ...) { char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Fail{b}; }
static u64 nev;
void event(u64) { ++nev; }
u64 now_seq() { return nev; }
int choose(int n, const char*) {
    if (n < 1) fail("choose(%d)", n);
    if (depth_ == path.size()) path.push_back({0, n});
    if (path[depth_].second != n) fail("internal: the enumeration is not deterministic");
    return path[depth_++].first;
}
void block_until(std::function<bool()> p, const char*) { if (!p()) throw Skip(); }
void point(const char*) {}
void watch(const void*, size_t) {}
static u64 mixo(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); }
void outcome(u64 v) { out_ = mixo(out_ ^ (v + 0x1234567)); }
void observe(u64) {}
void note(const char*, ...) {}
Atomic::Atomic() {} Atomic::~Atomic() {}
Status status(int) { return READY; }
bool is_blocked(int) { return false; }
u64 steps(int) { return 0; }
static int look(const std::string& n, long* size) {
    int fd = __real_shm_open(real_name(n.c_str()).c_str(), O_RDWR, 0); if (fd < 0) return -1;
    struct stat st; fstat(fd, &st); if (size) *size = st.st_size; return fd;
}
bool shm_exists(const std::string& n) { int f = look(n, nullptr); if (f >= 0) __real_close(f); return f >= 0; }
long shm_size(const std::string& n) { long s = -1; int f = look(n, &s); if (f >= 0) __real_close(f); return s; }
static int looked;                            // mappings of the harness itself
const unsigned char* shm_data(const std::string& n) {
    static std::map<std::pair<ino_t, long>, const unsigned char*> m;
    int f = look(n, nullptr); if (f < 0) return nullptr;
    struct stat st; fstat(f, &st);
    auto& p = m[{st.st_ino, (long)st.st_size}];
    if (!p) { ++looked; p = (const unsigned char*)mmap(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0); }
    __real_close(f); return p;
}
int shm_bytes_of(const std::string& n, size_t off, void* out, size_t len) { int f = look(n, nullptr); if (f < 0) return -1; int r = pread(f, out, len, off); __real_close(f); return r; }
bool sem_exists(const std::string& n) { return sem_value(n) != -1; }
int sem_value(const std::string& n) { sem_t* s = __real_sem_open(real_name(n.c_str()).c_str(), 0); if (s == SEM_FAILED) return -1; int v; sem_getvalue(s, &v); __real_sem_close(s); return v; }
std::vector<std::string> list_names() {
    std::vector<std::string> v; size_t k = PFX.size() - 1;
    for (auto& n : dev()) v.push_back(n.rfind("sem.", 0) == 0 ? "sem:/" + n.substr(4 + k) : "shm:/" + n.substr(k));
    std::sort(v.begin(), v.end()); return v;
}
int open_fds(int) { int a = 0; for (int f : appfds) if (fcntl(f, F_GETFD) != -1) ++a; return count_fds() - base_fds - a; }
int open_sems(int) { int n = 0; for (auto& s : sems) n += s.second; return n; }
int open_maps(int) { int n = -looked; FILE* f = fopen("/proc/self/maps", "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) n += strstr(b, ("/dev/shm" + PFX).c_str()) != nullptr; if (f) fclose(f); return n; }
int app_open(int) { int f = open("/dev/null", O_RDONLY); appfds.push_back(f); return f; }
bool app_intact(int, int f) { struct stat st; return fstat(f, &st) == 0 && S_ISCHR(st.st_mode); }
int bad_closes(int) { return bad; }
u64 blocking_calls(int) { return 0; }
void idle(u64) {}
u64 idle_left(int) { return 0; }
u64 timeout_seq(int) { return 0; }
u64 clock_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
void pass_time(u64) {}
u64 os_calls(int) { return 0; }
u64 allocations(int) { return 0; }
void remove_all() { for (auto& n : dev()) unlink(("/dev/shm/" + n).c_str()); }
bool shm_create(const std::string& n, const void* d, size_t len) { int f = __real_shm_open(real_name(n.c_str()).c_str(), O_CREAT | O_RDWR, 0600); bool ok = f >= 0 && ftruncate(f, len) == 0 && pwrite(f, d, len, 0) == (long)len; __real_close(f); return ok; }
bool sem_create(const std::string& n, int v) { sem_t* s = __real_sem_open(real_name(n.c_str()).c_str(), O_CREAT, 0600, v); if (s == SEM_FAILED) return false; __real_sem_close(s); return true; }
const char* last_fault() { return ""; }
int faults_injected() { return 0; } int crashes_injected() { return 0; } int eintrs_injected() { return 0; }
HeapGuard::HeapGuard() {} HeapGuard::~HeapGuard() {}
static void fresh() {
    for (int f : appfds) __real_close(f);
    appfds.clear(); sems.clear(); bad = 0; out_ = 0; nev = 0; remove_all();
    int n = count_fds(); static bool first = true; if (first) { base_fds = n; first = false; }
    if (n != base_fds) { for (int f = 0; f < 1024; ++f) { char p[64], b[256]; snprintf(p, 64, "/proc/self/fd/%d", f); ssize_t k = readlink(p, b, 255); if (k > 0) { b[k] = 0; if (strstr(b, PFX.c_str())) __real_close(f); } } base_fds = count_fds(); }
}
std::string run_plain(std::function<void()> body) {
    fresh();
    try { body(); } catch (Fail& f) { return f.m; } catch (std::exception& e) { return std::string("exception: ") + e.what(); }
    return "";
}
void reset_world() { fresh(); }
} // namespace vmc

// ---- driver: --list; --run NAME --cap N: executes the histories in batches, each in a child of its own
static bool next_path() { while (!path.empty()) { if (path.back().first + 1 < path.back().second) { ++path.back().first; return true; } path.pop_back(); } return false; }
static void put(int fd, const void* p, size_t n) { if (write(fd, p, n) != (long)n) _exit(9); }
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c == '\n' ? ' ' : c; } return "\"" + o + "\""; }
int main(int argc, char** argv) {
    std::string mode, name; bool th = false; u64 cap = ~0ull; const char* dump = getenv("VMC_DUMP");
    for (int i = 1; i < argc; ++i) { std::string a = argv[i];
        if (a == "--list") mode = "list"; else if (a == "--run") { mode = "run"; name = argv[++i]; }
        else if (a == "--thorough") th = true; else if (a == "--cap") cap = atoll(argv[++i]); }
    PFX = "/vmcn" + std::to_string(getpid()) + "_";
    FILE* OUT = fdopen(dup(1), "w"); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); __real_close(nul);
    Registry R = registry(); std::vector<Scenario> sc; std::vector<PlainJob> jobs;
    if (R.scenarios) R.scenarios(th, sc);
    if (R.jobs) R.jobs(th, jobs);
    if (mode == "list") {
        for (auto& s : sc) if (!s.bounds.crash && !s.bounds.eintr && !s.bounds.fault && !s.bounds.timeout && !s.bounds.spurious) {
            bodies.clear(); s.build(); if (bodies.size() == 1) fprintf(OUT, "S %s\n", s.name.c_str()); }
        for (auto& j : jobs) fprintf(OUT, "J %s\n", j.name.c_str());
        fflush(OUT); return 0;
    }
    alarm(3000);
    u64 execs = 0, digest = 0, calls = 0; bool violated = false, skipped = false, capped = false; std::string msg;
    for (auto& j : jobs) if (j.name == name) {
        pid_t c = fork(); int st;
        if (!c) {
            PlainResult r; j.run(r);
            fprintf(OUT, "{\"scenario\":%s,\"execs\":%lu,\"digest\":0,\"calls\":%lu,\"violated\":%s,\"skipped\":false,\"capped\":false,\"msg\":%s}\n", esc(name).c_str(), r.evaluations, trans, r.violated ? "true" : "false", esc(r.msg).c_str());
            fflush(OUT); _exit(0);
        }
        waitpid(c, &st, 0); remove_all();
        if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(OUT, "{\"scenario\":%s,\"execs\":0,\"digest\":0,\"calls\":0,\"violated\":true,\"skipped\":false,\"capped\":false,\"msg\":\"ended with status %d\"}\n", esc(name).c_str(), st);
        fflush(OUT); return 0;
    }
    for (auto& s : sc) if (s.name == name) {
        bool more = true;
        while (more && !violated && !skipped && !capped) {
            int pp[2]; if (pipe(pp)) return 3;
            pid_t c = fork();
            if (!c) {
                __real_close(pp[0]); alarm(600); { int f; while ((f = open("/dev/null", O_RDONLY)) < 40); }   // no holes among the descriptors
                u64 n = 0; bool m = true; u64 dg = digest; std::string mm; unsigned char fl = 0; trans = 0;
                while (n < 1500 && m && execs + n < cap) {
                    fresh(); bodies.clear(); depth_ = 0; s.build(); ++n;
                    try { bodies[0](); if (s.finish) s.finish(); }
                    catch (Fail& f) { fl = 1; mm = f.m; break; } catch (Skip&) { fl = 2; break; }
                    catch (std::exception& e) { fl = 1; mm = std::string("exception: ") + e.what(); break; }
                    path.resize(depth_); dg = dg * 6364136223846793005ull + out_ + 1;
                    if (dump) { std::string l; for (auto& x : path) l += std::to_string(x.first) + " "; FILE* f = fopen(dump, "a"); fprintf(f, "%s: %016lx\n", l.c_str(), (unsigned long)out_); fclose(f); }
                    m = next_path();
                }
                fresh();
                u64 np = path.size(), ml = mm.size();
                put(pp[1], &fl, 1); put(pp[1], &m, 1); put(pp[1], &n, 8); put(pp[1], &dg, 8); put(pp[1], &trans, 8); put(pp[1], &ml, 8); put(pp[1], mm.data(), ml);
                put(pp[1], &np, 8); if (np) put(pp[1], path.data(), np * sizeof path[0]);
                _exit(0);
            }
            __real_close(pp[1]); std::string b; char buf[65536]; ssize_t k;
            while ((k = read(pp[0], buf, sizeof buf)) > 0) b.append(buf, k);
            __real_close(pp[0]); int st; waitpid(c, &st, 0); remove_all();
            if (b.size() < 42) { violated = true; msg = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "a history blocks" : "the batch ended with status " + std::to_string(st); break; }
            const char* q = b.data(); unsigned char fl = q[0]; more = q[1]; u64 n, t, ml, np; memcpy(&n, q + 2, 8); memcpy(&digest, q + 10, 8); memcpy(&t, q + 18, 8); memcpy(&ml, q + 26, 8);
            if (fl == 1) { violated = true; msg = std::string(q + 34, ml); }
            if (fl == 2) skipped = true;
            memcpy(&np, q + 34 + ml, 8); path.resize(np); if (np) memcpy(path.data(), q + 42 + ml, np * sizeof path[0]);
            execs += n; calls += t; if (more && execs >= cap) capped = true;
        }
        remove_all();
        fprintf(OUT, "{\"scenario\":%s,\"execs\":%lu,\"digest\":%lu,\"calls\":%lu,\"violated\":%s,\"skipped\":%s,\"capped\":%s,\"msg\":%s}\n", esc(name).c_str(), execs, digest, calls,
            violated ? "true" : "false", skipped ? "true" : "false", capped ? "true" : "false", esc(msg).c_str());
        fflush(OUT); return 0;
    }
    return 2;
}
