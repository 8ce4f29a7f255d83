"""Which harness decides which property."""
ASSUMPTIONS = [
    "sequentially consistent memory: weaker hardware orderings are not explored",
    "the virtual POSIX layer (named semaphores, shared memory, process-shared mutexes/conditions, descriptors, clocks) behaves as POSIX specifies",
    "the library's sources are compiled from /repo with scalar (non vectorised) Eigen so that each element access is visible",
]
PY_ASSUMPTIONS = [
    "the Python bindings are built from /repo's sources without vectorisation settings and run on the kernel's own shared memory and semaphores; every process is single threaded except where threads are scheduled explicitly",
    "accesses refused because a peer holds the lock are injected at the calls of the bindings",
]
SCHED = "stateless exploration of the real library code under a controlled scheduler over a virtual POSIX layer (all interleavings within the bounds, exact state caching)"
CRASH = "exhaustive crash-point and schedule exploration of the real library code over a virtual POSIX layer"
HIST = "exhaustive enumeration of operation histories of the real library code against a reference state machine"
INP = "exhaustive enumeration of small inputs on the real library code against a reference model"


def cpp(h, technique, note, bounds="", **kw):
    return {"parts": [dict({"kind": "cpp", "harness": h}, **kw)], "technique": technique, "note": note, "bounds": bounds}


def py(technique, note, bounds="", **kw):
    return {"parts": [dict({"kind": "py"}, **kw)], "technique": technique, "note": note, "bounds": bounds, "assume": PY_ASSUMPTIONS}


CHECKS = {
    "C01": cpp("C01", SCHED + "; linearizability check of every execution's history",
               "all interleavings at single-access granularity of 2 to 3 participants with 1 to 3 operations each over a 2x2 tensor; sequentially consistent memory",
               "all interleavings (unbounded preemptions) of the listed programs"),
    "C18": cpp("C18", HIST, "all sequences of up to 6 (quick) / 7 (thorough) life cycle, data and query calls on a server and a client, from scratch and from a running pair, and of up to 4-6 calls (9-12 along successive objects) on string lists with clients and on producers with consumers; every call checked against a reference state machine",
               "histories: all call sequences up to the depth; single caller"),
    "C02": cpp("C02", SCHED + "; exhaustive call histories against a reference lock model",
               "all interleavings of two lock users and preemption-bounded ones of three, plus all call histories up to depth 5 (quick) / 7 (thorough)",
               "two participants: unbounded preemptions; three: 2-4 preemptions; histories: depth 3-7"),
    "C15": cpp("C15", SCHED + " with an interruption of every blocked wait",
               "all interleavings of two lock users with up to two interruptions, preemption-bounded ones of three",
               "up to 2 (3 thorough) EINTR; two participants unbounded preemptions, three participants 2-4"),
    "C03": cpp("C03", SCHED, "all interleavings of construction and start (also pause and restart, and earlier servers of other dimensions) of a server with the attachment of one client, preemption-bounded with two and three",
               "1 client: unbounded preemptions; 2 or 3 clients: 2-4 preemptions"),
    "C04": cpp("C04", HIST + "; " + SCHED, "all 64 pairs of (type, layout): every sequence of calls among working peers up to depth 4 (quick) / 5 (thorough), and preemption-bounded interleavings of the refused attach with working peers and with start-up",
               "histories: depth 4-5; schedules: 1-3 preemptions, 3 participants"),
    "C05": cpp("C05", HIST + "; " + SCHED, "every sequence of life cycle calls up to depth 6 (quick) / 7 (thorough) with one and two clients, up to 40 clients and 150 rounds of arrivals, and interleavings of arrivals, departures and queries of up to three clients",
               "histories: depth 6-7; 1-2 clients: unbounded to 3 preemptions; 3 clients: 2-4 preemptions"),
    "C06": cpp("C06", SCHED + "; " + HIST, "every interleaving of two servers (running, pausing, resuming, closing, starting from scratch) of one name, with and without clients, plus every sequence of calls on two servers and a client up to depth 4-5 (quick) / 6-7 (thorough)",
               "2 participants: unbounded to 5 preemptions; 3 participants: 2-5 preemptions; histories: depth 3-7"),
    "C07": cpp("C07", CRASH, "one participant (two in sequence) killed before every externally visible step of every listed life-cycle, data and lock operation, followed by a forced recovery that is checked to be fresh and functional, also against survivors and clients arriving meanwhile",
               "1-2 crashes at every step; 1-3 participants; 0-4 preemptions or unbounded"),
    "C08": cpp("C08", INP, "every read and write of every block size (up to one beyond the tensor) at every position (two around the tensor and the extremes) of every tensor up to 3x3 (4x4 thorough), all types, layouts, call forms and strides, by server and client; selected blocks of tensors up to 120x70 (5000x3 thorough); surrounding memory compared and every access bounds checked; every view of every tensor up to 4x4",
               "tensors up to 3x3 / 4x4; 8 call forms; 3 value patterns"),
    "C09": cpp("C09", INP, "every byte value at every position modulo 4 and around both ends, every string up to length 5 (7 thorough) over five delicate bytes, every pair of successive lengths around all boundaries in every place of the list, every index and sequence length in and around lists of 1 to 4 strings and selected ones of lists up to 100 (250), every history of 2 (3 thorough) writes of three participants; whole list and surrounding memory compared",
               "strings up to 5000 bytes at boundary lengths; lists up to 4; 3 participants; histories of depth 2-3"),
    "C10": cpp("C10", SCHED + "; linearizability check of every execution's history", "all interleavings at single-access granularity of 2 to 3 participants with 1 to 2 reads and writes of one or two strings each, including strings of maximal length, followed by checks that later operations are unaffected",
               "2 participants: unbounded (one operation each) or 2 (thorough: unbounded) preemptions; 3 participants: 2-3 preemptions"),
    "C11": cpp("C11", SCHED + ", with early timeouts and spurious wake-ups", "all interleavings of triggers and waits (blocking, timed, with acknowledgement) of one producer and one consumer, preemption-bounded ones of two to four consumers, up to two early timeouts and spurious wake-ups, also with both sides starting up; durations of timed calls on a virtual clock",
               "1 consumer: unbounded preemptions, up to 5 triggers, 700 rounds without preemption, 70000 triggers in a row; 2-3 consumers: 3 to unbounded preemptions"),
    "C12": cpp("C12", SCHED + ", with early timeouts and spurious wake-ups", "all interleavings of acknowledgements of one and two consumers with the collections of the producer (fewer, as many and more than wanted; blocking and timed), preemption-bounded ones of three and four",
               "1 consumer: unbounded preemptions, 700 rounds without preemption, 70000 rounds in a row; 2-4 consumers: 3 to unbounded preemptions"),
    "C13": cpp("C13", CRASH, "the producer or a consumer (also both, also the first replacement) killed before every externally visible step of its life, followed by a forced producer which must complete rounds with fresh counts with new consumers, also ones arriving while it starts and with survivors leaving meanwhile",
               "1-2 crashes at every step; 1-4 participants; 0-4 preemptions"),
    "C14": cpp("C14", "exhaustive fault injection and schedule exploration of the real library code over a virtual POSIX layer", "every single failure and every pair (triple in thorough) of failures of shm_open, ftruncate, mmap and sem_open during creation, start, attach and join of servers, clients, string lists, producers and consumers, with retries on the same and on new objects; single failures interleaved with working peers",
               "2 (3) failures without preemption; 1 failure with 1-4 preemptions or unbounded"),
    "C16": cpp("C16", HIST + "; " + SCHED, "every sequence of life cycle calls up to depth 5-7 (quick) / 6-8 (thorough) on a server and clients, on contenders and refused clients, on string lists and on producers and consumers, with a descriptor of the application opened between any two calls; interleavings of closing servers with clients that come and go",
               "histories: depth 5-9; schedules: 1-5 preemptions or unbounded, 2-4 participants"),
    "C17": cpp("C17", SCHED, "all interleavings of the calls of two groups (tensor, string list, producer; every combination) under every pair of 30 ordinary and adversarial names, each group's results compared with those of a group which is alone; thorough also interleaves at single accesses",
               "unbounded preemptions between calls; 2 preemptions inside calls (thorough)"),
    "C23": cpp("C23", INP + "; breadth-first exploration of accumulated codes against sets of conditions", "all single codes and pairs; all sets of up to 4 (5 thorough) conditions and their complements, with every single addition and subtraction; all pairs of sets of up to 2 (3) and 2 conditions; all sequences of 3 (4) operations including RESET and NONE; descriptions parsed and compared",
               "30 conditions; sets up to 4-5 and complements; sequences up to 3-4"),
    "C24": cpp("C24", CRASH + "; " + INP, "every interleaving of reads and writes with peers which hold the lock for ever, stop, restart, close, attach, detach, are replaced or are killed at any step: the potentially blocking calls, own steps and allocations of each operation are counted; allocations also for every type, layout, call form, block shape and state of lock and participants",
               "2 participants: 1-3 preemptions (thorough up to unbounded), 3: 0-3; 1 crash; tensors up to 150x120 and 3000x1"),
    "C25": cpp("C25", SCHED + ", with early timeouts, spurious wake-ups and crashes; " + HIST, "all interleavings of participants which lock, wait (plainly, timed, for a predicate) and notify one or all (with and without the lock), preemption-bounded ones of three and four; every sequence of creating, forcing, opening, closing and destroying up to depth 5 (quick) / 7 (thorough); a participant killed at every step, then a forced one",
               "2 participants: unbounded preemptions; 3-4: 2-6 preemptions; 1 crash; histories: depth 5-7"),
    "C27": cpp("C27", SCHED + ", with early timeouts and spurious wake-ups", "all interleavings, at single accesses, of rounds in which a producer writes commands (tensors, strings, without locks), triggers, collects acknowledgements and reads results, and one to three consumers wait, read, write their results and acknowledge, in every call form, also while starting up",
               "1 consumer: unbounded preemptions (2 rounds), 100 rounds without; 2-3 consumers: 0-3 preemptions (thorough 1-6)"),
    "C19": py("exhaustive enumeration of small inputs on the real Python bindings against NumPy as reference",
              "every shape up to one beyond the tensor, at every position, of every stride pattern (contiguous, transposed, sliced, reversed, broadcast, misaligned, byte swapped, read-only), type and layout, read and write, by factories and typed classes; all option combinations; string lists",
              "tensors up to 3x3; two participants"),
    "C20": py("exhaustive exploration of operations on the real wrapper, from every mirror/shared state, against a reference state machine",
              "every operation from every state of a 2x2 tensor with two values per element on both sides (4096 states), all histories of operations to a depth, refused accesses and closed wrappers",
              "2x2, 1x2, 2x1 and 1x1 tensors; histories of depth 3-5"),
    "C21": py("stateless exploration of the real Python code under a controlled scheduler (all interleavings of the accesses to shared memory within the bounds); exhaustive enumeration of small inputs",
              "all interleavings of the start-up steps of a server and up to three clients with up to two refused accesses; all dictionaries of up to three keys of up to three rows and three columns, every shape written through every key; names",
              "1 client: unbounded; 2-3 clients: 1-3 preemptions; 2 refusals"),
    "C22": py("stateless exploration of the real Python code under a controlled scheduler with a stand-in for ROS (every sequence of deliveries and calls to a depth; line-level interleavings of callback threads); exhaustive enumeration of small inputs",
              "every sequence of up to 8 (9) deliveries, publications, run() and update() calls; line-level interleavings of ROS 1 callback threads with the receiver; all types, shapes up to 3x3 (4x4) and special values at every place; string lists; malformed and repeated messages; two tensors at once; each side closed at each stage",
              "sequences of depth 8-9; 2-3 preemptions"),
    "C26": py("exhaustive enumeration of histories of calls on the real Python bindings against a ledger; every waiting call against threads of the same process",
              "every sequence of up to 4-5 (quick) / 5-6 (thorough) calls of a producer and one or two consumers in every call form, from scratch and from a running state; for every call that may wait (attach, detach, close, lock, count, wait, acknowledgements, timed or not): a thread waits, other threads of the process go on and end the wait",
              "histories of depth 4-6; 13 waiting calls, 0-3 other threads"),
}
