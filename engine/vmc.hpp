// vmc: explicit exploration of every schedule / crash point / injected fault of small programs that
// run the REAL library code.  Logical processes are coroutines; shared memory, semaphores, process
// shared mutexes/conditions, descriptors and clocks are a virtual POSIX layer (see vmc_os.cpp), and
// every access to shared memory is a scheduling point (see vmc_tsan.cpp).
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace vmc {

using u64 = uint64_t;

struct Bounds {
    int preempt = -1;   // max preemptions (-1: unbounded, every interleaving)
    int crash = 0;      // max processes killed
    int eintr = 0;      // max interrupted blocking calls
    int fault = 0;      // max injected OS failures
    int timeout = 0;    // max early timeouts of timed waits (forced ones are free)
    int spurious = 0;   // max spurious condition wake-ups
    u64 crash_mask = ~0ull;   // processes that may be killed
    u64 eintr_mask = ~0ull;
    u64 fault_mask = ~0ull;
    int max_steps = 20000;
    u64 max_execs = 0;        // 0: none (a cap makes the run non exhaustive and is reported)
    bool cache = true;        // exact state caching
    bool coarse = false;      // switch only at system calls and before the first access after one
};

struct Scenario {
    std::string name;
    Bounds bounds;
    std::function<void()> build;      // spawns the processes; called once per execution
    std::function<void()> finish;     // oracle after every complete execution
    // called when nothing is enabled: return empty if this is an acceptable end state
    std::function<std::string()> stuck;
};

struct Result {
    std::string scenario;
    u64 execs = 0, states = 0, transitions = 0, points = 0, hits = 0;
    u64 digest = 0;                       // of the outcomes of all executions, in order
    u64 outcomes = 0, maxdepth = 0, crashes = 0, faults = 0, deadlocks_ok = 0;
    bool exhaustive = true;
    std::string cap;
    bool violated = false;
    std::string msg;
    std::vector<int> choices;
    std::string trace;
    double wall = 0;
    std::vector<std::string> samples;
    std::map<std::string, u64> known;     // known findings met (message -> executions)
    std::set<u64> finals;                 // complete outcomes of all executions (self test only)
};

// ---- exploration
extern std::function<bool(const std::string& scenario, const std::string& msg)> is_known;
Result explore(const Scenario& s, double time_limit_s, bool collect_finals = false);
// replays one recorded choice list; fills msg/trace
Result replay(const Scenario& s, const std::vector<int>& choices);

// ---- harness API (valid inside build()/process bodies/finish())
int  spawn(const std::string& name, std::function<void()> body);
int  spawn_thread(const std::string& name, int of, std::function<void()> body);   // another thread of process `of` (no state cache: threads share private memory)
int  self();
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void event(u64 v);                      // global, ordered event: part of the state
u64  now_seq();                         // number of events so far in this execution
int  choose(int n, const char* what);   // nondeterministic choice, explored exhaustively
void block_until(std::function<bool()> pred, const char* what);
void point(const char* what);           // explicit scheduling point
void watch(const void* p, size_t n);    // from now on accesses to this private memory are scheduling points too (n = 0: no more)
void outcome(u64 v);                    // classify this execution (counts distinct outcomes)
void observe(u64 v);                    // mixes harness-provided data in the local state of the caller
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only

struct Atomic {                         // no preemption / faults inside (unless blocked)
    Atomic(); ~Atomic();
};

enum Status { READY, DONE, CRASHED };
Status status(int pid);
bool is_blocked(int pid);               // alive but its pending operation is not enabled
u64 steps(int pid);

// ---- inspection of the virtual OS (no scheduling point)
bool shm_exists(const std::string& name);
long shm_size(const std::string& name);
const unsigned char* shm_data(const std::string& name);
bool sem_exists(const std::string& name);
int  sem_value(const std::string& name);          // -1 if missing
std::vector<std::string> list_names();            // "shm:/x" and "sem:/y"
int  open_fds(int pid);                            // descriptors opened by the library still open
int  open_sems(int pid);
int  open_maps(int pid);           // shared memory still mapped
int  app_open(int pid);                            // a descriptor owned by the application
bool app_intact(int pid, int fd);
int  bad_closes(int pid);                          // close() of a descriptor that was not open
int  shm_bytes_of(const std::string& name, size_t off, void* out, size_t n);
u64  blocking_calls(int pid);                      // potentially blocking OS calls issued so far
void idle(u64 n);                                  // the next n sleeps of the calling process end although nothing it read changed
u64  idle_left(int pid);
u64  timeout_seq(int pid);                         // now_seq() when its last timed condition wait expired
u64  clock_ns();                                    // virtual time
void pass_time(u64 ns);                            // time goes by while nobody does anything
u64  os_calls(int pid);
u64  allocations(int pid);                         // dynamic memory allocations so far
void remove_all();                                 // forget every name
bool shm_create(const std::string& name, const void* data, size_t n); // as if by another program
bool sem_create(const std::string& name, int value);
const char* last_fault();                          // description of last injected fault or ""
int  faults_injected();
int  crashes_injected();
int  eintrs_injected();

// inside a plain body: heap blocks are fenced and every access of instrumented code to them is checked.
// Containers that outlive the guard must not grow inside it.
struct HeapGuard { HeapGuard(); ~HeapGuard(); };

// plain (single process, no exploration) execution of a body in the virtual OS; used for
// exhaustive input enumeration. Returns empty or a violation message.
std::string run_plain(std::function<void()> body);
void reset_world();

// driver shared by every harness (driver.cpp)
struct PlainResult {
    u64 evaluations = 0, distinct = 0, states = 0, transitions = 0;
    bool violated = false; std::string msg, input;
    std::vector<std::string> samples;
};
// an exhaustive enumeration job: calls body for every case; input describes the case in progress
struct PlainJob { std::string name; std::function<void(PlainResult&)> run; };

struct Registry {
    std::function<void(bool thorough, std::vector<Scenario>&)> scenarios;
    std::function<void(bool thorough, std::vector<PlainJob>&)> jobs;
};
Registry registry();   // defined by each harness

struct Violation { std::string msg; };  // thrown by plain jobs through vmc::pfail
void pfail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

} // namespace vmc
