// Not a property: conformance of the virtual POSIX layer.  All sequences of calls up to a depth over a few
// names, descriptors, semaphore handles, mutexes and conditions; what each call returns (result, errno, data)
// goes to the outcome of the execution.  Run by the explorer (virtual layer) and by engine/native.cpp (real
// kernel): the outcomes of all sequences must be the same.
#include "vmc.hpp"
#include <cerrno>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace vmc;
namespace {
struct Log { void add(long v) { outcome((u64)v * 31 + 7); } void ret(long r) { add(r); if (r == -1) add(errno); } };
timespec past() { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (t.tv_sec) --t.tv_sec; return t; }

// ---- shared memory objects, descriptors, mappings
void shm_world(int depth, bool second) {
    Log L; std::vector<int> fd(3, -1); std::vector<std::pair<unsigned char*, long>> map;
    int base = shm_open("/probe", O_CREAT | O_RDWR, 0600); close(base); shm_unlink("/probe");   // lowest free descriptor
    const char* N[] = {"/a", "/b"};
    struct Op { int k, x, y; };
    std::vector<Op> ops;
    for (int n = 0; n < (second ? 2 : 1); ++n) { for (int m = 0; m < 4; ++m) ops.push_back({0, n, m}); ops.push_back({1, n, 0}); }
    for (int f = 0; f < 2; ++f) {
        for (int z = 0; z < (second ? 2 : 4); ++z) ops.push_back({2, f, z});
        ops.push_back({3, f, 0}); ops.push_back({4, f, 0}); ops.push_back({5, f, 0});
        if (!second) { ops.push_back({4, f, 1}); ops.push_back({10, f, 0}); }
    }
    ops.push_back({6, 0, 0}); ops.push_back({7, 0, 0}); ops.push_back({8, 0, 0});
    if (!second) ops.push_back({9, 0, 0});
    auto look = [&](unsigned char* p, long n) { unsigned long h = 0; for (long i = 0; i < n; ++i) h = h * 257 + p[i]; L.add(h); };
    int stamp = 0;
    for (int d = 0; d < depth; ++d) {
        Op o = ops[choose(ops.size(), "call")]; L.add(o.k * 100 + o.x * 10 + o.y); ++stamp;
        switch (o.k) {
        case 0: {
            int f = shm_open(N[o.x], o.y == 0 ? O_RDWR : o.y == 1 ? O_CREAT | O_RDWR : o.y == 2 ? O_CREAT | O_EXCL | O_RDWR : O_CREAT | O_TRUNC | O_RDWR, 0600);
            L.ret(f < 0 ? f : f - base);
            if (f >= 0) { int k = 0; while (k < 3 && fd[k] >= 0) ++k; if (k < 3) fd[k] = f; else close(f); }
            break; }
        case 1: L.ret(shm_unlink(N[o.x])); break;
        case 2: { const long Z[] = {8, 24, 0, -1}; L.ret(ftruncate(fd[o.x], Z[o.y])); break; }
        case 3: { struct stat st; st.st_size = -7; st.st_nlink = 7; int r = fstat(fd[o.x], &st); L.ret(r); if (!r) { L.add(st.st_size); L.add(st.st_nlink); } break; }
        case 4: {
            struct stat st; st.st_size = 0; long n = fstat(fd[o.x], &st) ? 8 : st.st_size; if (o.y) n = 0;
            void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd[o.x], 0);
            L.add(p != MAP_FAILED); if (p == MAP_FAILED) L.add(errno); else map.push_back({(unsigned char*)p, n});
            break; }
        case 5: L.ret(close(fd[o.x])); fd[o.x] = -1; break;
        case 6: case 7: case 8: {   // through mappings: but never beyond what the object holds now
            if (o.k == 6) { if (!map.empty()) { auto& m = map.back(); bool live = true; (void)live; look(m.first, 0); for (int f : fd) if (f >= 0) { struct stat st; if (!fstat(f, &st)) L.add(st.st_size); } } }
            if (o.k == 7) for (int f : fd) if (f >= 0) {      // write a stamp through a descriptor's own mapping
                struct stat st; if (fstat(f, &st) || st.st_size < 8) continue;
                auto* p = (unsigned char*)mmap(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
                if (p == MAP_FAILED) { L.add(errno); continue; }
                p[stamp % 8] = stamp; p[st.st_size - 1] = 100 + stamp; munmap(p, st.st_size); break;
            }
            if (o.k == 8) for (int f : fd) if (f >= 0) {
                struct stat st; if (fstat(f, &st) || st.st_size < 1) { L.add(-3); continue; }
                auto* p = (unsigned char*)mmap(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
                if (p == MAP_FAILED) { L.add(errno); continue; }
                look(p, st.st_size); munmap(p, st.st_size);
            }
            break; }
        case 9: L.add(map.size()); if (!map.empty()) { L.ret(munmap(map.back().first, map.back().second)); map.pop_back(); } break;
        case 10: { int f = dup(fd[o.x]); L.ret(f < 0 ? f : f - base); if (f >= 0) { int k = 0; while (k < 3 && fd[k] >= 0) ++k; if (k < 3) fd[k] = f; else close(f); } break; }
        }
    }
    for (int f : fd) if (f >= 0) close(f);
    for (auto& m : map) munmap(m.first, m.second);
    for (auto* n : N) shm_unlink(n);
    L.add(list_names().size());
}

// ---- named semaphores
void sem_world(int depth) {
    Log L; std::vector<sem_t*> h(3, nullptr); const char* N[] = {"/a", "/b"};
    struct Op { int k, x, y; }; std::vector<Op> ops;
    for (int n = 0; n < 2; ++n) { for (int m = 0; m < 3; ++m) ops.push_back({0, n, m}); ops.push_back({1, n, 0}); }
    for (int s = 0; s < 2; ++s) for (int k = 2; k < 8; ++k) ops.push_back({k, s, 0});
    auto idx = [&](sem_t* s) { for (int k = 0; k < 3; ++k) if (h[k] == s) return k; return 9; };
    for (int d = 0; d < depth; ++d) {
        Op o = ops[choose(ops.size(), "call")]; L.add(o.k * 100 + o.x * 10 + o.y);
        if (o.k >= 2 && !h[o.x]) { L.add(-9); continue; }
        switch (o.k) {
        case 0: {
            sem_t* s = o.y == 0 ? sem_open(N[o.x], 0) : sem_open(N[o.x], o.y == 1 ? O_CREAT : O_CREAT | O_EXCL, 0600, o.y);
            L.add(s != SEM_FAILED); if (s == SEM_FAILED) { L.add(errno); break; }
            L.add(idx(s)); int v; sem_getvalue(s, &v); L.add(v);   // the same name gives the same handle
            int k = 0; while (k < 3 && h[k]) ++k; if (k < 3) h[k] = s; else sem_close(s);
            break; }
        case 1: L.ret(sem_unlink(N[o.x])); break;
        case 2: L.ret(sem_trywait(h[o.x])); break;
        case 3: L.ret(sem_post(h[o.x])); break;
        case 4: { int v = -1; L.ret(sem_getvalue(h[o.x], &v)); L.add(v); break; }
        case 5: { timespec t = past(); L.ret(sem_timedwait(h[o.x], &t)); break; }
        case 6: { int v = 0; sem_getvalue(h[o.x], &v); if (v > 0) L.ret(sem_wait(h[o.x])); else L.add(-8); break; }
        case 7: { L.ret(sem_close(h[o.x])); h[o.x] = nullptr; break; }
        }
    }
    for (auto& s : h) if (s) sem_close(s);
    for (auto* n : N) sem_unlink(n);
    L.add(list_names().size());
}

// ---- process-shared mutexes and conditions in shared memory
void mtx_world(int depth) {
    Log L; int fd = shm_open("/m", O_CREAT | O_RDWR, 0600); if (ftruncate(fd, 256)) fail("ftruncate");
    auto* p = (unsigned char*)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    auto* m = (pthread_mutex_t*)p; auto* c = (pthread_cond_t*)(p + 128);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_NORMAL);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
    L.add(pthread_mutex_init(m, &ma)); L.add(pthread_cond_init(c, &ca));
    bool held = false;
    for (int d = 0; d < depth; ++d) {
        int o = choose(7, "call"); L.add(o); timespec t = past(); int r;
        switch (o) {
        case 0: if (!held) { L.add(pthread_mutex_lock(m)); held = true; } break;
        case 1: r = pthread_mutex_trylock(m); L.add(r); if (!r) held = true; break;
        case 2: r = pthread_mutex_timedlock(m, &t); L.add(r); if (!r) held = true; break;
        case 3: if (held) { L.add(pthread_mutex_unlock(m)); held = false; } break;
        case 4: if (held) { L.add(pthread_cond_timedwait(c, m, &t)); r = pthread_mutex_trylock(m); L.add(r); } break;   // times out, holds the mutex again
        case 5: L.add(pthread_cond_signal(c)); break;
        case 6: L.add(pthread_cond_broadcast(c)); break;
        }
    }
    if (held) pthread_mutex_unlock(m);
    munmap(p, 256); shm_unlink("/m");
}
Scenario one(const char* name, std::function<void()> f) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 100000;
    s.build = [f] { spawn("caller", [f] { Atomic a; f(); }); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        v.push_back(one("shared memory, one name", [th] { shm_world(th ? 5 : 4, false); }));
        v.push_back(one("shared memory, two names", [th] { shm_world(th ? 5 : 4, true); }));
        v.push_back(one("semaphores", [th] { sem_world(th ? 5 : 4); }));
        v.push_back(one("mutex and condition", [th] { mtx_world(th ? 6 : 5); }));
    };
    return R;
}
