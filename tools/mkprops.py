#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit)."""
import json, os
S="EigenIPC/src/"; H="EigenIPC/include/EigenIPC/"; B="EigenIPC/bindings/PyEigenIPC/"
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(obs),"hook_needed":hook}})
CL=S+"Client.cpp"; SV=S+"Server.cpp"; MU=S+"MemUtils.hpp"; ST=S+"StringTensor.cpp"
p("C01","Safe reads and writes of a shared tensor are atomic",
 "With safe access on, every successful read or write by the server or by any client, in whole or in part of the tensor, takes effect as one indivisible step: the values each read returns are those of one single order of the successful writes that agrees with real time. An operation may be refused only while another one overlaps it, and a refused operation changes neither the shared tensor nor the caller's buffer.",
 ["schedules","programs"],"every interleaving, at the granularity of single shared memory accesses and system calls, of programs of reads and writes of overlapping blocks by one server and up to two clients, for every element type, layout and call form",
 "a torn access needs a switch between two particular element copies or between lock and copy; the tests run server and client in a fixed hand-shake",
 [SV,CL,MU],[("one-shot lock around the copy",SV+" Server::read/write, "+CL+" Client::read/write"),("block copy",MU+" write/read"),("one-shot acquisition",MU+" SemTryWait")],
 [("data semaphore","1 free, 0 held",MU+" semInit"),("shared tensor","the mapped matrix",MU+" initMem")],["return value and buffer of each read/write"])
p("C02","The data lock is exclusive and is never lost or duplicated",
 "At any moment at most one participant is inside the data lock, whether it holds it through the manual acquire/release calls or inside a safe read, write, attach, detach or client-count query. Manual acquisition waits while another participant holds the lock and succeeds once it is released, and safe reads and writes of the others are refused meanwhile, also when the participants are threads which share one object. After any history of start, stop, restart, attach, detach, read, write, manual acquire and release, the lock of a server that has been started is free exactly when nobody holds it.",
 ["schedules","histories"],"all histories of lifecycle and lock operations up to the explored depth, and all interleavings of lock users",
 "lost or doubled tokens appear only after particular histories (stop and start again, an error path) and are invisible until two participants collide",
 [SV,CL,MU],[("lock held from construction until first start",SV+" Server::Server/run"),("manual lock",SV+" dataSemAcquire/dataSemRelease, "+CL),("release",MU+" releaseSem")],
 [("data semaphore value","1 free, 0 held, anything else is a defect",MU)],["semaphore value, mutual exclusion of critical sections"])
p("C03","A client joins its server whichever starts first",
 "A client asked to attach before, during or after the construction and start of a server with the same name comes back only when that server is running, and always comes back once it is. It then reports the server's dimensions and shares its storage: whatever either side writes is what the other reads. Waiting clients never alter what the server publishes, even when earlier servers of that name with other dimensions came and went before the start. A client whose server goes away while it is joining either joins that server or its successor completely or gets an error and can attach again.",
 ["schedules","histories"],"all interleavings of client attachment with construction, start, stop, close and re-creation of servers",
 "start-up races depend on where in its construction the server is when the client opens each of the shared objects; the tests start the two sides seconds apart",
 [CL,SV,MU],[("wait for the running flag",CL+" _waitForServer"),("mapping of the shared description",CL+" _initMetaMem/_initDataMem"),("publication",SV+" _initMetaMem/run")],
 [("running flag","true while a server runs",SV+" run/stop"),("rows/cols/dtype/layout cells","description of the tensor",SV+" _initMetaMem")],["attach() returning, getNRows/getNCols, read after write"])
p("C04","A client with another element type or layout is refused and harms nobody",
 "Attaching succeeds exactly when the client's element type and memory layout are those of the running server; otherwise it raises an error. After a refusal the server and every other client go on unaffected: the lock is free, the shared values and the client count are as before, and a matching client can attach.",
 ["configurations","schedules"],"all pairs of (element type, layout) of server and client, alone and interleaved with working peers",
 "there are 64 pairs and the harm of a refusal shows up in the other participants, not in the refused one",
 [CL,SV],[("type check",CL+" _checkDType"),("layout check",CL+" _checkMemLayout"),("published type",SV+" _initMetaMem")],
 [("dtype cell","element type of the server",SV)],["exception or success of attach(), peers' reads and writes, lock, client count"])
p("C05","The client count is exact after every history of arrivals and departures",
 "Whenever no attach or detach is in progress, the number of clients reported by a running server equals the number of clients currently attached to it. This holds after any history of attach, detach, repeated attach or detach, close, use after close and destruction by any number of clients in any interleaving.",
 ["histories","schedules"],"all histories of client lifecycle calls up to the explored depth on up to three clients, and all interleavings of concurrent arrivals and departures",
 "lost updates need two clients inside the update at once; drifts need particular call sequences such as attaching twice or destroying after re-attaching",
 [CL,SV],[("increment",CL+" attach"),("decrement",CL+" detach/close/destructor"),("query",SV+" getNClients")],
 [("clients counter","number of attached clients",SV+" _initMetaMem")],["getNClients()"])
p("C06","Only one server runs per name and a contender cannot disturb it",
 "For one name at most one server is in the running state at any time. While a server is running, a second server for that name created without forcing fails with an error at creation or at the latest when started, in every interleaving, and the running server, its attached clients, its data and its lock are unaffected, and clients arriving later still join the running server.",
 ["schedules","histories"],"all interleavings of creation and start of contenders with a running server, and with each other",
 "the contender's initialisation overlaps the winner's only in particular schedules, and the damage shows up later in clients",
 [SV,MU],[("server semaphore",SV+" run/stop"),("construction",SV+" Server::Server, _initMetaMem")],
 [("server semaphore","0 while a server runs",SV)],["run()/constructor errors, peers' data, counts, lock"])
p("C07","A server can always be brought back after a crash by forcing reconnection",
 "If a server or any client is killed at any point of any operation, a new server created with forced reconnection starts without blocking or failing, begins with zeroed data, the requested dimensions, a free lock and no attached clients, and serves new clients correctly. Nothing the dead participants left behind shows through.",
 ["crash_points","histories"],"a kill before every system call and every shared memory access of every participant, followed by recovery, including a second crash during recovery",
 "tests cannot kill a process at each individual step",
 [SV,MU,CL],[("forced acquisition",MU+" acquireSemTimeout"),("clean-up of old memory",MU+" checkMem"),("re-initialisation",SV+" _initMetaMem")],
 [("leftover semaphores and memory","state of the dead participants",MU)],["constructor/run/attach/read/write of the recovered system"])
p("C08","Reading or writing a block touches exactly that block or is refused",
 "A read or write at a given position succeeds exactly when the block of the caller's dimensions lies inside the tensor; it then transfers each element to or from the matching position and touches nothing else, neither in the tensor nor around the caller's data, for every type, layout, stride and call form. Otherwise it reports failure and changes nothing. A view taken from a local tensor denotes exactly the requested block, or an error is raised if it does not lie inside.",
 ["inputs"],"all tensor shapes, block shapes, positions (negative ones included), strides, element types and layouts within small bounds, compared with a reference matrix",
 "the input space is a product of many small dimensions of which tests pick a few",
 [MU,H+"Helpers.hpp",SV,CL],[("bounds check",H+"Helpers.hpp canFitTensor"),("copy",MU+" read/write"),("view",H+"Helpers.hpp createViewFrom")],[],["return values, tensor contents, caller buffers"])
p("C09","Strings survive the round trip and never spill",
 "A string of up to 1024 bytes without null bytes written at an index of a shared string list is read back byte for byte by every participant, whatever was stored there before, and leaves all other entries unchanged; the same holds for sequences of strings written or read at any starting index. Strings that do not fit, and indices or sequences outside the list, are refused, with no effect on the list or on other memory.",
 ["inputs"],"all strings over an alphabet of boundary bytes up to the explored length, all lengths up to and beyond the capacity, all list lengths, indices and sequence sizes within bounds, and all pairs of successive values",
 "encoding errors depend on length modulo 4, on sign bits of bytes and on leftovers of earlier values",
 [ST,H+"StringTensor.hpp"],[("encoding",ST+" _encode_str/_decode_str"),("bounds",ST+" _fits")],[("encoding buffer","local copy of the encoded list",H+"StringTensor.hpp")],["read/write results of string tensors"])
p("C10","Shared strings are read whole under concurrency",
 "With safe access on, a read of one or several strings that overlaps writes returns values some single order of the successful writes explains: never a mixture of two strings and never part of a multi-string write. A refused read or write changes nothing shared, and later operations are not affected by the refusal.",
 ["schedules"],"all interleavings of reads and writes of strings by a server and clients",
 "mixing needs a switch in the middle of a copy of a column",
 [ST,SV,CL],[("read/write through the tensor",ST+" read/write")],[("encoding buffer","reused by refused operations",ST)],["strings returned by reads"])
p("C11","Every trigger reaches every waiting consumer exactly once",
 "Each trigger of a producer makes each consumer registered before its first trigger return from exactly one wait successfully, whether the consumer was already waiting or starts to wait later, with no lost wake-up, no spurious success and no success without a new trigger, provided no further trigger is issued before every consumer took the previous one; a consumer which missed more than one trigger gets an error instead of a success. A timed wait returns failure only when the given time is over and no new trigger had been issued by then, and a trigger issued later is delivered to the next wait.",
 ["schedules"],"all interleavings of trigger/wait/acknowledge rounds of one producer and up to three consumers, with early timeouts and spurious wake-ups",
 "lost wake-ups need the trigger to fall between the check and the sleep",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],[("trigger",S+"Producer.cpp trigger"),("wait",S+"Consumer.cpp wait"),("condition variable",S+"CondVar.cpp")],
 [("trigger counter","number of triggers issued",S+"Producer.cpp")],["return of wait()/trigger()"])
p("C12","Acknowledgements are counted exactly",
 "Waiting for acknowledgements from a number of consumers returns success exactly when at least that many were given since the last successful collection, never earlier, and always once they have been given, whatever the order and overlap of the acknowledgements. A timed wait reports failure only when the given time is over and fewer had been given by then, and loses no acknowledgement. A combined wait-and-acknowledge gives one acknowledgement for the trigger it received and reports success only if the caller's function did.",
 ["schedules"],"all interleavings of acknowledgements of up to three consumers with the producer's wait, with early timeouts and spurious wake-ups",
 "a lost increment or wake-up needs two acknowledgements, or an acknowledgement and the producer's check, to collide",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],[("collect",S+"Producer.cpp wait_ack_from"),("acknowledge",S+"Consumer.cpp ack")],
 [("ack counter","number of acknowledgements",S+"Consumer.cpp")],["return of wait_ack_from()/ack()"])
p("C13","A producer can always be brought back after a crash by forcing reconnection",
 "If a producer or consumer is killed at any point, a new producer created with forced reconnection starts without blocking or failing, and new consumers connect to it and exchange triggers and acknowledgements with fresh counts.",
 ["crash_points"],"a kill before every step of producer and consumers followed by recovery and a complete round",
 "tests cannot kill a process while it owns the mutex or sits half way through creating the named objects",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],[("removal of leftovers",S+"CondVar.cpp ConditionVariable"),("start",S+"Producer.cpp run")],[],["run/trigger/wait/ack of the recovered system"])
p("C14","Failures of operating system resources are reported and leave nobody locked out",
 "If creating, sizing or mapping shared memory or opening a semaphore fails while a server is created or a client attaches, the call reports an error instead of appearing to succeed. After the failure the lock is not left held and the client count is not changed, so that other participants continue and a later attempt succeeds once the resource is available.",
 ["fault_sequences"],"a failure of every single resource acquisition (and pairs of them) of server creation, start, client attach, producer and consumer start",
 "no test makes the operating system refuse a resource",
 [MU,SV,CL],[("memory creation",MU+" initMem"),("semaphore creation",MU+" semInit"),("error check",SV+" _initDataMem/_initMetaMem/_initSems, "+CL)],[("return code","accumulated failure bits",H+"ReturnCodes.hpp")],["exceptions, peers' operations"])
p("C15","Interrupted waits never break mutual exclusion",
 "When a signal interrupts a participant waiting for the data lock, the waiting call either still acquires the lock or raises an error; it never proceeds as if it held the lock, never releases a lock it does not hold, and never kills the process. Afterwards the lock is free exactly when nobody holds it and every participant can go on.",
 ["schedules","fault_sequences"],"an interruption of every blocking wait, in every interleaving of lock users",
 "signals cannot be made to land inside a particular wait by a test",
 [MU,SV,CL],[("blocking wait",MU+" semBlockingWait"),("error conversion",SV+" _acquireSemBlocking, "+CL)],[("data semaphore","lock state",MU)],["critical sections, exceptions, lock value"])
p("C16","Descriptors and names are given back",
 "After any history of lifecycle calls that ends with the closing or destruction of an object (server, client, string list, producer or consumer), every descriptor, semaphore handle and memory mapping it opened has been given back, descriptors exactly once, and no descriptor that belongs to someone else has been closed. The same holds after a start that fails because the operating system refuses a resource. Once the last server of a name is closed, the names of its tensor, its description (apart from the running flag that waiting clients rely on) and its semaphores are gone.",
 ["histories","schedules"],"all histories of lifecycle calls of server and client objects up to the explored depth, including errors, with unrelated descriptors opened in between",
 "a double close only does harm if another thread opens a file in between; leaks show only after thousands of cycles",
 [MU,SV,CL],[("clean-up",MU+" cleanUpMem/checkMem"),("close",SV+" _cleanMems, "+CL+" _cleanMems")],[("file descriptors","one per shared object",H+"Server.hpp")],["open descriptors before and after"])
p("C17","Different names never interfere",
 "Servers, clients, string lists, producers and consumers that use different (name space, name) pairs share nothing: no operation of one group changes the data, lock, counts, state or existence of another, and groups with the same pair always meet.",
 ["configurations","histories"],"all pairs of names from a set of small and adversarial names, all operation histories up to a depth on two groups",
 "collisions depend on how names and internal suffixes concatenate",
 [H+"SharedMemConfig.hpp","EigenIPC/include/EigenIPC/MemDefs.hpp",S+"Producer.cpp"],[("path construction",H+"SharedMemConfig.hpp")],[],["reads, counts, locks of each group"])
p("C18","Operations outside the running or attached state are refused without effect",
 "For any history of start, stop, close, attach, detach, read, write and queries on a server and a client, reads and writes succeed only while the server is running respectively the client is attached, and otherwise report failure without effect. State queries always report the state that history implies and the dimensions, element type, layout and name the object was created with, data written stays available across stop and restart, and repeating start, stop, attach, detach or close is harmless. The same holds for string lists and their clients, and for producers and consumers, whose calls raise an error unless they are running.",
 ["histories"],"all sequences of lifecycle and data calls up to the explored depth, compared step by step with a reference state machine",
 "the number of call sequences is exponential and tests use the one intended order",
 [SV,CL],[("state flags",SV+" run/stop/close/isRunning, "+CL+" attach/detach/close/isAttached")],[("running/attached flags","life cycle state",H+"Server.hpp")],["return values, isRunning/isAttached, contents"])
p("C19","NumPy arrays are exchanged exactly or refused",
 "Through the Python bindings, writing a two-dimensional array and reading it back yields the same values for every supported element type, layout and memory arrangement of the array (contiguous, transposed, sliced, reversed), at every valid position; only the addressed block changes. Anything that does not match in type, arrangement or extent is refused or raises without changing the tensor or the array, and no read alters memory outside the target array. Strings exchanged through the Python string tensors arrive unchanged, and the server and client classes honour the type, layout, safety and reconnection options they are given.",
 ["inputs"],"all combinations of element type, layout, array shape, stride pattern, offset and operation within small bounds, against NumPy as reference; all small string lists; all combinations of options",
 "array arrangements are a product of strides, orders, types and offsets, of which the tests use the contiguous one",
 [B+"src/PyServer.cpp",B+"src/PyClient.cpp",B+"src/PyEigenIPCUtils.hpp"],[("array to reference conversion",B+"src/PyEigenIPCUtils.hpp"),("dispatch",B+"src/PyServer.cpp")],[],["arrays before and after"])
p("C20","The Python tensor wrapper's mirror and the shared tensor move as documented",
 "For any sequence of local edits, fills, full or partial synchronisations, single reads and writes by the server-side and client-side wrappers, the local mirror and the shared tensor are always those of a plain reference: synchronising copies exactly the requested block in the requested direction, single element accesses affect exactly that element, and anything out of range is refused without effect. An operation that finds the tensor locked is repeated where it was asked to retry and otherwise reports failure without effect, and an operation that can never succeed returns.",
 ["histories","inputs"],"all sequences of wrapper operations up to the explored depth on small tensors of every element type and layout",
 "sequences of mixed operations on two mirrors grow exponentially",
 [B+"wrappers/shared_data_view.py"],[("synchronisation",B+"wrappers/shared_data_view.py synch_all/synch_retry"),("element access",B+"wrappers/shared_data_view.py write/read/write_retry/read_retry")],[("mirror","local copy of the tensor",B+"wrappers/shared_data_view.py")],["mirror and shared contents"])
p("C21","A shared tensor dictionary reconstructs on the client exactly as published",
 "A client that joins a shared tensor dictionary, whenever it starts relative to the server, ends up with the same keys, in the same order, with the same shapes and the same values as the server. A write through one key changes that key's values on both sides and never those of another key; a write that does not fit its key, or comes after close, is not reported as done.",
 ["schedules","inputs"],"all relative orders of the server's and the client's start-up steps, all dictionaries up to a number of keys and shapes, all writes per key",
 "start-up order of the several shared objects behind one dictionary is fixed in practice and in the tests",
 [B+"wrappers/shared_tensor_dict.py"],[("publication order",B+"wrappers/shared_tensor_dict.py run"),("packing",B+"wrappers/shared_tensor_dict.py")],[],["keys, shapes and values on both sides"])
p("C22","The ROS bridge reproduces the shared tensor",
 "A tensor or list of strings sent through the ROS bridge is recreated on the other side with the dimensions and element type that were described and the values of the newest delivered data message, for every order and delay in which the messages of its description and its data arrive and are handled. The receiving tensor never mixes values of different messages; messages that do not fit the description, and repeated ones, have no effect; nothing runs before the whole description has arrived. Closing either side, at any point, gives back what that side holds and leaves the other one alone.",
 ["schedules","inputs"],"all delivery orders of bridge messages and all line-level interleavings of callbacks with the receiver within bounds, all element types and small shapes, with a stand-in for ROS",
 "message delivery order and timing cannot be controlled with a real ROS master, and ROS is absent from the test environment",
 [B+"extensions/ros_bridge/to_ros.py",B+"extensions/ros_bridge/from_ros.py",B+"extensions/ros_bridge/abstractions.py"],[("publisher",B+"extensions/ros_bridge/to_ros.py"),("subscriber",B+"extensions/ros_bridge/from_ros.py")],[],["tensor on the receiving side"])
p("C23","Return codes compose, subtract, test and describe faithfully",
 "Every result code denotes one distinct condition; adding codes gives exactly the union of their conditions, subtracting removes exactly the named ones, adding the reset code clears everything, and membership tests hold exactly for the conditions present. The description of a combined code names each condition present once and no other.",
 ["inputs"],"all single codes, all pairs and all short sequences of additions and subtractions",
 "2^n combinations; the test prints a few of them",
 [H+"ReturnCodes.hpp"],[("algebra",H+"ReturnCodes.hpp operator+/-/isin"),("description",H+"ReturnCodes.hpp getDescriptions")],[],["codes and description strings"])
p("C24","Reads and writes never wait and never allocate",
 "A read or write of a running server or attached client returns after a bounded number of its own steps whatever the other participants are doing, including one that holds the lock for ever, was killed while holding it, or is stopped: it never blocks, sleeps or retries without bound. A read or write of a tensor performs no dynamic memory allocation either, whether it succeeds or is refused, unless messages are switched on.",
 ["schedules","crash_points","inputs"],"every state of the other participants at every step of a read or write, and all call forms, types, layouts and block shapes for allocation",
 "the absence of waiting in every state of the peers cannot be sampled",
 [SV,CL,MU],[("one-shot acquisition",MU+" acquireSemOneShot"),("copy without temporaries",MU+" read/write")],[],["system calls issued, allocations counted"])
p("C25","Named condition variables wake who waits and exclude everybody else",
 "Whoever holds the lock of a shared condition variable is alone; waiting gives it up and every wait returns holding it again. A notification of one wakes at least one, a notification of all wakes every participant that was waiting, none is lost however the calls interleave; a wait for a condition returns only when it holds, and a timed one lasts as long as it was told unless it is notified, and tells truthfully whether it was notified or expired. All this also holds for threads of one process which share an object. A condition variable is created once per name, given back when its owner closes it, and a forced one works whatever its killed predecessor was doing.",
 ["schedules","crash_points"],"all interleavings of lock, wait, timed wait and notify calls of 2 to 4 participants within bounds, early timeouts, spurious wake-ups, a kill at every step, and every sequence of life cycle calls to a depth",
 "a lost wake-up needs a notification between a waiter's check and its going to sleep; no test exercises the class on its own",
 ["EigenIPC/include/EigenIPC/CondVar.hpp","EigenIPC/src/CondVar.cpp"],[("wait and notify","EigenIPC/src/CondVar.cpp"),("creation and removal","EigenIPC/src/CondVar.cpp constructor and close()")],[],["returns of waits, lock ownership, names"])
p("C26","Python producers, consumers and waits behave as their C++ counterparts",
 "Through the Python bindings every trigger ends a consumer's wait exactly once, acknowledgements are counted exactly, timed calls last as long as they were told and report truthfully, and calls on a participant that is not running raise, for every sequence of calls. A call that has to wait (for a server, for the lock, for a trigger, for acknowledgements) holds up only the thread that made it: the other threads of its process, also the one it is waiting for, go on.",
 ["inputs","schedules"],"every sequence of calls of a producer and up to two consumers to a depth in every call form; every waiting call with 0 to 3 other threads",
 "tests run one producer against one consumer in separate processes",
 [B+"src/PyProducer.cpp",B+"src/PyConsumer.cpp",B+"src/PyClient.cpp",B+"src/PyServer.cpp",B+"src/PyStringTensor.cpp"],[("waits",B+"src/PyConsumer.cpp"),("acknowledgements",B+"src/PyProducer.cpp")],[],["return values, progress of threads"])
PR,CO=S+"Producer.cpp",S+"Consumer.cpp"
p("C27","Triggered rounds hand data over whole in both directions",
 "What a producer wrote before it triggered is what every consumer reads between its wait and its acknowledgement, and what the consumers wrote before acknowledging is what the producer reads once it has collected them: whole, of that round, never refused for lack of a lock, for tensors and strings, with and without safe access, for every interleaving, number of consumers and call form. No consumer is still working when its acknowledgement has been collected, and none works twice in a round.",
 ["schedules"],"all interleavings at single accesses of up to three rounds (100 without preemption) of one to three consumers, with early timeouts, spurious wake-ups and start-up in any order",
 "an acknowledgement given or a wait that ends a moment too early exposes a half written tensor only if the peer writes in that moment",
 [PR,CO,SV,CL],[("round",PR+" trigger/wait_ack_from, "+CO+" wait/ack/wait_and_ack")],[],["tensors and strings read in each round"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
