"""The properties (single source of properties.jsonl and of MANIFEST.json, see gen.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, na=None, note=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe or [], na=na, note=note, state=state or []))


SIMNOTE = ("Seeded search, not exhaustive: what is shown is the absence of a violation in the executions explored. Trusts the "
           "simulator's model of the pthread, futex and clock interfaces (sequentially consistent interleavings; weaker memory "
           "orders are not simulated), g++'s thread-sanitizer instrumentation as the source of preemption points, and glibc/libstdc++. ")

P("C01", "Countdown latch releases every waiter exactly when the count reaches zero",
  "A thread waiting on a countdown latch returns only after the count has reached zero, and once the count has reached zero every "
  "current and later waiter returns after a bounded number of steps, however the threads are scheduled. Every count-down is counted "
  "exactly once, a try-wait answers immediately and correctly, and counting down past zero or creating a latch with a count of zero or "
  "less is refused with an exception that leaves the latch usable.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of waiting, try-waiting and counting-down threads, including spurious wake-ups, stalled threads and waiters that come late.",
  "LatchTest is not even built here, and a unit test sees one or two schedules; a lost or missing wake-up needs a particular interleaving of a waiter and the last count-down.",
  ["src/common/concurrent/Latch.h", "src/common/concurrent/Latch.cpp"],
  [dict(name="counter under a mutex with a condition variable, notify on zero", where="concurrent/Latch.cpp")],
  note="Latch.cpp real; mutexes, condition variables, threads and clocks simulated.")

P("C02", "Barrier lets threads through only in full rounds, and the action runs once",
  "A thread that waits on a barrier returns only after the configured number of threads of its round have arrived; every thread of a full "
  "round returns after a bounded number of steps, and the barrier is at once reusable for the next round without mixing threads of two "
  "rounds. The completion action runs exactly once per round, after the last arrival and before any thread of that round returns, and a "
  "barrier for zero threads is refused with an exception.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of arriving threads over several rounds, with more threads than places, spurious wake-ups and stalled threads, and early re-entry by fast threads.",
  "BarrierTest is not built here; mixing of generations and lost wake-ups show only when a released thread re-enters before the others woke up, or under a spurious wake-up.",
  ["src/common/concurrent/Barrier.h", "src/common/concurrent/Barrier.cpp"],
  [dict(name="generation number checked in the wait predicate", where="concurrent/Barrier.cpp"), dict(name="completion run by the last arrival under the lock", where="concurrent/Barrier.cpp")],
  note="Barrier.cpp real; mutexes, condition variables, threads and clocks simulated.")

P("C03", "Named threads run their function once, under their name",
  "A named thread runs the function it was given exactly once with exactly the arguments it was given, and from the moment that function "
  "starts the operating system shows the thread under the given name (cut to the length the system allows), while no other thread's name "
  "changes. A renaming guard gives a thread a new name for its scope and then restores the previous one; a refused thread creation is "
  "reported by an exception and runs nothing.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of creators, created threads, renaming guards and observers of the names, with refused thread creation and stalled threads.",
  "ThreadTest starts one thread and lets it run alone; a name that is set after the function started, on the wrong thread, or not restored shows only under particular schedules and nestings.",
  ["src/common/thread/NamedThread.h", "src/common/thread/NamedThread.cpp"],
  [dict(name="hook run in the new thread before the function", where="thread/NamedThread.h"), dict(name="Nominator saves and restores the name", where="thread/NamedThread.h")],
  note="NamedThread real, thread names are the kernel's; scheduling simulated.")

P("C04", "Temporary files are private while they live and gone afterwards",
  "Every temporary file object names a file of its own that it created itself, that exists until the object ends, and that no other "
  "temporary file object in the process or outside shares. When the object ends the file is gone and nothing else was removed, no file "
  "descriptor stays open, and a failure to create the file is reported by an exception and leaves nothing behind.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of several creators and destroyers with colliding names, and all failures of the system calls they make.",
  "TempFileTest creates one file with every system call succeeding; leaks and foreign removals need a failing call or a name collision.",
  ["src/common/fs/TempFile.h", "src/common/fs/TempFile.cpp"],
  [dict(name="exclusive creation through mkstemp, removal in the destructor", where="fs/TempFile.cpp")],
  note="TempFile.cpp real, on a real tmpfs scratch directory behind interposed calls; names and failures chosen by the simulator.")

P("C05", "Wall clocks are accurate, and the fast ones ignore clock steps",
  "The fast (counter based) wall clocks stay within a few milliseconds plus a few parts per million of the real time since the process "
  "started, in every unit, for every processor frequency, however long the process runs and from any thread, as long as the wall clock is "
  "not stepped; when it is stepped they go on counting undisturbed. The slow wall clocks always report exactly the system's wall clock, in "
  "whole units.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "All counter frequencies and start values, up-times from milliseconds to weeks, first use from several threads at once, stalls, time skips and wall clock steps.",
  "WallClockTest is not built here, and a test on the host sees one frequency and one second of up-time: it cannot see drift, a race of first uses, or a stepped clock.",
  ["src/common/time/WallClock.h", "src/common/time/WallClock.cpp", "src/common/time/detail/TscHelper.h", "src/common/time/detail/TscHelper.cpp"],
  [dict(name="start readings plus calibrated tick rate, recalibrated by a background thread", where="time/detail/TscHelper.cpp")],
  note="The time-stamp counter is trapped and simulated, so frequency and up-time are inputs; tolerances grow with the time the simulator stole from running threads.")

P("C06", "A stop watch shows exactly the time it was running",
  "A stop watch shows the sum of the intervals in which it was running since it was last reset, within the rounding of the unit asked for "
  "and the accuracy of the clock, for every sequence of resetting, pausing, resuming and reading and every length of interval. Pausing a "
  "paused watch, resuming a running one and reading change nothing, and its state always says whether it is running.",
  ["histories", "schedules", "configurations"],
  "All sequences of operations and intervals from nanoseconds to hours, all counter frequencies, several watches in several threads, stalls and time skips.",
  "DurationTest is not built here and measures a few fixed short sleeps; accumulation over several pauses, long intervals and other frequencies are never sampled.",
  ["src/common/time/Duration.h", "src/common/time/Duration.cpp", "src/common/time/detail/TscHelper.cpp"],
  [dict(name="accumulated ticks plus ticks since the last resume", where="time/Duration.cpp")],
  note="Time-stamp counter, clocks and sleep simulated; tolerances grow with the time the simulator stole from running threads.")

P("C07", "An operation is reported slow exactly when it exceeded the threshold",
  "A slow-operation tracker says an operation is slow exactly when the time since the tracker was made exceeds the given threshold, or the "
  "configured default when the given threshold is zero or negative; asking again later judges the total time again. The report carries the "
  "same duration, the caller's prefix and message, and a clock that went backwards counts as no time passed.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "All durations around the threshold, all thresholds and defaults, repeated questions, several trackers in several threads, stalls, time skips and a counter that goes backwards.",
  "SlowOpTracker's test is not built here and uses two sleeps; the edges around the threshold, the default and backward clocks need a controlled clock.",
  ["src/common/base/SlowOpTracker.h", "src/common/base/SlowOpTracker.cpp"],
  [dict(name="difference of two fast-clock readings, clamped at zero", where="base/SlowOpTracker.h")],
  note="Time-stamp counter, clocks and sleep simulated; glog real.")

P("C08", "A cord yields exactly the bytes written to it, in order",
  "Whatever sequence of values, strings and other cords is written to a cord, and whatever its block size, its size, its string form, what it "
  "appends to a string and what it shows to a visitor are exactly the bytes written since it was last cleared, in order, and a visitor that "
  "declines is not called again. Appending a cord leaves the appended one unchanged, clearing makes it empty and usable again, all memory is "
  "given back at the end, and failing to get memory stops the process rather than losing or corrupting bytes.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of writes, appends, clears and reads over cords of different block sizes, with lengths at and around block borders, and allocation failure at any point.",
  "CordTest is not built here and samples a few writes; block borders combined with appends, clears and failing allocations are not covered.",
  ["src/common/base/Cord.h", "src/common/base/Cord.cpp"],
  [dict(name="linked blocks with a write position in the last one", where="base/Cord.cpp")],
  note="Sequential code: the simulator contributes the generated histories, injected allocation failures and the checked heap.")

P("C09", "An inline cord yields exactly the bytes written to it, in order",
  "Whatever sequence of values, strings and other inline cords is written to an inline cord, its size, its string form, what it appends to a "
  "string and what it shows to a visitor are exactly the bytes written since it was last cleared, in order, and a visitor that declines is "
  "not called again. Appending leaves the appended one unchanged, clearing makes it empty and usable again, all memory is given back at the "
  "end, and failing to get memory stops the process rather than losing or corrupting bytes.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of writes, appends, clears and reads over inline cords of block sizes 1 to 1024, with lengths at and around block borders, and allocation failure at any point.",
  "ICordTest is not built here; it never writes after a clear, never visits or appends a cord whose last block is exactly full, and never fails an allocation.",
  ["src/common/base/ICord.h"],
  [dict(name="inline first block, linked further blocks, length modulo block size", where="base/ICord.h")],
  note="Sequential code: the simulator contributes the generated histories, injected allocation failures and the checked heap.")

P("C10", "A two-way result holds exactly the value last put into it",
  "A two-way result (either-or, error-or) always holds exactly nothing, a left or a right value, namely the one given by its last construction or "
  "assignment by copy, move or conversion, including assignment from the value it holds itself; taking the value out or moving from the "
  "result leaves it holding nothing. Every value is built once and destroyed once, never used after its end, copying leaves the source "
  "unchanged, and an error-or result says it is good exactly when it holds no error and gives back exactly the code or value stored.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of construction, assignment, conversion, moving out and self-assignment over several results, and allocation failure at any point.",
  "The tests check each operation once from a fresh object with benign payloads; use after destruction, double destruction and aliasing need sequences and payloads that notice.",
  ["src/common/base/EitherOr.h", "src/common/base/ErrorOr.h"],
  [dict(name="tagged union with explicit construction and destruction", where="base/EitherOr.h")],
  note="Sequential code: the simulator contributes the generated histories, injected allocation failures and the checked heap.")

P("C11", "A worker runs each task once, in order, and settles its future",
  "A worker that was started runs every task added to it before it was told to stop exactly once, one at a time, on its own thread and in the "
  "order in which each producer added them, whoever adds them and even when a task adds another. The future of a task receives exactly the "
  "value the task returned or the exception it threw, or a broken promise when the task is never run, and is always settled when the worker is "
  "gone. Starting a running worker or stopping or waiting for a worker that is not running is refused, after waiting nothing runs any more, the "
  "worker can be started again, and a failed start or the worker's end leaves no descriptor open.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of producers, the worker, stopping and destroying, with tasks of every kind (value, no value, throwing, adding tasks), refused descriptors and threads, and interrupted waits.",
  "GenericWorkerTest is not built here and adds tasks from one thread; lost wake-ups, tasks dropped at the stop, and lost exceptions need particular interleavings.",
  ["src/common/thread/GenericWorker.h", "src/common/thread/GenericWorker.cpp"],
  [dict(name="pending lists under a mutex, woken through an eventfd", where="thread/GenericWorker.cpp"), dict(name="promise per task", where="thread/GenericWorker.h")],
  note="GenericWorker and libevent's event loop real, eventfd and epoll objects the kernel's; waiting, clocks and threads simulated; folly's futures are a stand-in.")

P("C12", "Timers fire when due, as often as due, and never after they were purged",
  "A delayed task of a worker runs exactly once, not before its delay has passed since it was added and, unless the worker is busy, soon "
  "afterwards. A repeated task first runs after one period and then goes on once per period, never ahead of its schedule, until it is purged "
  "from the outside or by itself; after the purge took effect it never runs again, and no other timer is affected. Every repeated task has an "
  "id of its own, and the future of a delayed task receives its value or exception, or a broken promise when the worker ended first.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of adding, firing and purging timers of all lengths from several threads with long running tasks on the worker, interrupted waits and stalled threads.",
  "The timer tests are not built here and check one idle worker; early firing behind a long task or a purge that overtakes its timer need a particular interleaving.",
  ["src/common/thread/GenericWorker.h", "src/common/thread/GenericWorker.cpp"],
  [dict(name="libevent timer events, activated on the worker thread", where="thread/GenericWorker.cpp")],
  note="GenericWorker and libevent real on simulated time (with the coarse clock's granularity); tolerances grow with the time the simulator stole.")

P("C13", "A thread pool spreads tasks over its threads and settles every one",
  "A pool started with n threads runs every task exactly once on one of at most n threads, gives back its value or exception through its future, "
  "and n tasks added one after the other can all be in progress at the same time. Timer ids are unique within the pool and purging one stops "
  "exactly that timer; starting a running pool is refused, a stopped and waited-for pool can be started again, and nothing stays open at its end.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of several producers, one to four threads, timers and purges, restarts, refused descriptors and threads, and interrupted waits.",
  "GenericThreadPoolTest is not built here and uses one thread for nearly everything; the distribution and the mapping of ids to threads need several threads.",
  ["src/common/thread/GenericThreadPool.h", "src/common/thread/GenericThreadPool.cpp"],
  [dict(name="round robin over the workers, thread index in the upper id bits", where="thread/GenericThreadPool.h")],
  note="GenericThreadPool, GenericWorker and libevent real; waiting, clocks and threads simulated; folly's futures are a stand-in.")

P("C14", "The shared LRU cache acts as one LRU cache per bucket",
  "Whatever threads insert, look up, put if absent, test and evict in a shared LRU cache, their answers are those of some one-after-the-other order of "
  "the operations on plain least-recently-used caches, one per bucket (chosen by the hint, else by the key), which share the capacity evenly with the "
  "remainder in the last. Looking up and overwriting make an entry the most recently used, testing does not, only the least recently used entry of a full "
  "bucket is pushed out, and look-ups, hits and evictions since the last clear are counted exactly. An operation that runs out of memory leaves a cache "
  "that still keeps its capacity.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of short concurrent histories and long sequential ones, over capacities, bucket counts and key sets, with failing allocations and stalled threads.",
  "ConcurrentLRUCacheTest is not built here; its threads use disjoint keys and a cache that is never full, so no two operations ever compete.",
  ["src/common/base/ConcurrentLRUCache.h"],
  [dict(name="map plus recency list under one mutex per bucket", where="base/ConcurrentLRUCache.h")],
  note="ConcurrentLRUCache and StatusOr real; histories of at most 64 operations are checked for linearizability; the statement on counters holds when no operation is in progress.")

P("C15", "An object pool destroys each of its objects exactly once",
  "Every object handed to or made by an object pool stays alive until the pool is next cleared or ends, and is then destroyed exactly once, as the type it "
  "was added with, whatever threads add and clear at the same time. The pool returns the very object added, says it is empty exactly when it holds none, and an "
  "object whose constructor fails or that cannot be taken for lack of memory is neither kept nor leaked.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of adding, making and clearing by several threads, with throwing constructors, failing allocations and stalled threads.",
  "ObjectPoolTest is not built here and adds from one thread; losses and double destructions need concurrent adding and clearing, leaks a failing allocation.",
  ["src/common/base/ObjectPool.h"],
  [dict(name="list of type-erased owners under a spin lock", where="base/ObjectPool.h")],
  note="ObjectPool real; spin lock is a stand-in with folly's interface.")

P("C16", "Collecting n successes ends exactly when n succeeded or all finished",
  "The future that collects n successes out of several futures of one executor is fulfilled exactly when the evaluator accepted n of their values or when all have "
  "finished, whatever the order in which they finish, and at once when n is zero or more than there are futures (with an error). Its result holds every accepted value "
  "with its own position, once; values are judged once each, exceptions and broken promises count as failures, and nothing is judged after the end.",
  ["schedules", "histories", "fault_sequences"],
  "All orders of completion from several threads, with values, rejected values, exceptions and dropped promises, before and after the collection starts.",
  "There is no test for it in the tree; the end condition depends on the order of completion and on the mix of failures.",
  ["src/common/base/CollectNSucceeded.h", "src/common/base/CollectNSucceeded.inl"],
  [dict(name="shared context, promise fulfilled by the deciding completion", where="base/CollectNSucceeded.inl")],
  note="collectNSucceeded real; folly's futures are a stand-in; all futures on one executor, as its documentation requires.")

P("C17", "A reservoir sample is a uniform sample of what was offered",
  "A reservoir of size k that was offered n values holds min(k, n) of them, none of them twice, and every value offered is in it with the same probability min(1, k/n), "
  "whatever n turns out to be.",
  ["inputs", "histories"],
  "All sizes up to 11 and streams up to 12 with simulated randomness; the share of samples in which each value appears is measured over 1500 samples per run.",
  "The test checks the size of one sample; a biased choice shows only in the distribution over many samples.",
  ["src/common/algorithm/ReservoirSampling.h"],
  [dict(name="replace a random slot with probability k/n", where="algorithm/ReservoirSampling.h")],
  note="Statistical, with simulated randomness: a bias is reported beyond 7 standard deviations. Sequential code: the simulator contributes only the seam for randomness.")

P("C18", "File utilities do exactly what they report, on the tree they are given",
  "An operation on files and directories that reports success has had its effect, one that reports failure without a fault had a reason in the tree, and none reaches "
  "outside the path it was given or follows a symbolic link out of it when removing. Making a directory and its parents, or removing a tree, succeeds when "
  "others make or remove the same entries at the same time, and no call leaks a descriptor, reports a stale error or brings the process down. "
  "Iterating and listing show every matching entry exactly once, whatever the directory order and however the file system reports entry types.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "Random trees of files, directories and symbolic links, all interleavings of several threads working on the same tree, with any system call failing and short reads.",
  "FileUtilsTest is not built here; it uses one small tree, one thread and a file system on which nothing fails.",
  ["src/common/fs/FileUtils.cpp", "src/common/fs/FileUtils.h"],
  [dict(name="stat/mkdir/unlink/rmdir recursion", where="fs/FileUtils.cpp"), dict(name="line and directory iterators", where="fs/FileUtils.h")],
  note="FileUtils real, over a scratch tree on tmpfs behind the simulated file system; free and available bytes (statfs) are not covered.")

P("C19", "A persisted cluster id is neither lost nor mixed up, whatever fails",
  "Once persisting a cluster id has been reported as done, every later read gives that id or one persisted after it, also after a crash at any moment. "
  "A failure or crash in the middle of persisting leaves the old id or the new one, never another value and no leftover, and a reader at any moment sees one of the "
  "two; persisting and reading never report success for something that failed.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "A crash after any disk operation, with any loss the file system allows of what was not synced; any failing system call; concurrent writers and readers.",
  "FileBasedClusterIdManTest is not built here and writes and reads one id on a healthy disk; no test can crash.",
  ["src/common/clients/meta/FileBasedClusterIdMan.cpp"],
  [dict(name="write aside, sync, rename, sync the directory", where="clients/meta/FileBasedClusterIdMan.cpp")],
  note="FileBasedClusterIdMan and FileUtils real; the disk's behaviour in a crash is a model: names in order, any un-synced suffix lost, un-synced data lost, cut or zero.")

P("C20", "Pid files and commands: what is reported is what is so",
  "A pid file reported as made holds exactly the pid asked for, and one that could not be written completely is reported. A pid, or the pid in a file, is reported as free "
  "only when no such process is alive or the file names none, as taken only when it is alive or nothing is known about it, and asking never harms or signals anybody nor "
  "brings the caller down, whatever the file holds. A command's output is returned exactly when the command succeeded, and then whole, otherwise an error is; every command started is waited for. "
  "A process reported as a daemon leads a session of its own, reads /dev/null as its standard input, holds no other new descriptor and is named by the pid file, while the one that started it "
  "ends with status 0 having changed nothing; what cannot be done on the way is reported. The executable, directory and name of a process are told whole, or an error is.",
  ["inputs", "fault_sequences", "schedules"],
  "Any content of the pid file, any state of the process table, any size of output, any standard input including none, with any system call failing, short reads and writes, and several threads at once.",
  "ProcessTest is not built here; it uses its own pid and a healthy disk, so a file that cannot be read, a full disk or a broken pipe is never seen.",
  ["src/common/process/ProcessUtils.cpp"],
  [dict(name="kill(pid, 0) and the pid file", where="process/ProcessUtils.cpp"), dict(name="popen, read blocks, pclose", where="process/ProcessUtils.cpp"), dict(name="fork, setsid, standard input, pid file", where="process/ProcessUtils.cpp: daemonize")],
  note="ProcessUtils, FileUtils and Cord real; kill, fork, exit, setsid and popen are stand-ins that send no signal, start no process and run no command; /proc is a scratch directory.")

P("C21", "A signal reaches its handler exactly once, from the moment it is installed",
  "Every signal that arrives after its handler was installed, or while it is being installed or replaced, is given exactly once to a handler installed for it, with its own number and sender, "
  "in whichever thread and at whichever step it arrives. After the handler of a fatal signal the process ends by that signal; SIGPIPE and SIGHUP end nothing unless "
  "a handler says so. An installation the system refuses is reported and changes nothing.",
  ["schedules", "histories", "fault_sequences"],
  "Signals arriving between any two steps of any thread, during installation, replacement and other handlers, with installations refused by the system.",
  "SignalHandlerTest is not built here; it raises signals at itself at quiet moments and does not count what a handler is called.",
  ["src/common/base/SignalHandler.cpp", "src/common/base/SignalHandler.h"],
  [dict(name="table of handlers behind one hook", where="base/SignalHandler.cpp")],
  note="SignalHandler real; delivery, masks and dispositions of signals are simulated.")

P("C22", "A Thrift client is reused while its connection works, and replaced after",
  "Asking the client manager for a host on an event base gives the client this thread was given before for as long as its connection works, never one whose connection is already "
  "known to be broken or closed by the peer, and never one connected to another host or living on another event base. Connections are opened and closed only on their event base's thread "
  "and stay open while they work. A name that cannot be resolved raises nothing and is tried again at the next call.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of look-ups, requests and replies with servers crashing, restarting and being cut off, connections refused, lost and reset, and names failing to resolve or moving.",
  "There is no test of the client manager; the tests that use it talk to one healthy local server and never look at which connection they were given.",
  ["src/common/thrift/ThriftClientManager.h", "src/common/thrift/ThriftClientManager.inl"],
  [dict(name="per-thread map of clients", where="thrift/ThriftClientManager.inl")],
  note="ThriftClientManager real; event bases, sockets, the Thrift channel, network and name service are simulated.")

P("C23", "A metad request is answered once, truly, and within its allowed attempts",
  "A request is reported as done only if the metad leader executed that very request, and with the answer it gave; a refusal is reported as one, each reason told from the others, and never as success. "
  "It is sent at most once more than the retries allowed, no sooner than the retry interval after the attempt before, never again once answered, and given up only when its attempts are used up. "
  "A refused attempt is followed by one to the leader metad named, and once the leader is up and known again requests soon succeed, even with another server gone for good.",
  ["schedules", "fault_sequences", "histories"],
  "Any kind of request, from several threads, under every sequence of elections, stale hints, crashes, partitions and lost, late or reset messages.",
  "MetaClientTest is not built here; it talks to one local metad that leads and answers, so retries, hints and lost replies are hardly ever seen.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="retry and leader redirection (getResponse)", where="clients/meta/MetaClient.cpp"), dict(name="reasons of refusals (handleResponse)", where="clients/meta/MetaClient.cpp")],
  note="MetaClient and ThriftClientManager real; metad, event bases, sockets, the Thrift channel and network are simulated. Requests are not deduplicated by metad, and a lost reply may mean an executed request.")

P("C24", "The meta cache answers with what metad had, never older than it answered before",
  "Every answer of the meta client's cache about spaces, parts, schemas, indexes, listeners, users, roles, full-text services and hosts is the one of a version metad's catalogue really had, "
  "complete and not mixed from several, and not older than an answer to the same question before. After a successful refresh nothing is older than its start, a load that fails loses nothing, "
  "and once metad can be reached again all of it is what metad has within a bounded time.",
  ["schedules", "histories", "fault_sequences"],
  "Every interleaving of look-ups with loads and catalogue changes, and every sequence of elections, crashes, partitions and lost or failed calls during the loads.",
  "MetaClientTest is not built here; it changes the catalogue, sleeps two heartbeats and then looks, never during a load or after one that failed.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="load into new maps, swap under one lock (loadData, loadUsersAndRoles, loadFulltext*)", where="clients/meta/MetaClient.cpp"), dict(name="reload when metad's last update time moves", where="clients/meta/MetaClient.cpp")],
  note="MetaClient, schema provider and ThriftClientManager real; metad (a versioned catalogue), event bases, sockets and network are simulated. The cache is judged question by question: two answers may come from different versions.")

P("C25", "The meta listener is told every change once, in order, and nothing after",
  "What a meta client tells its listener (spaces, parts and listeners added, updated, removed) adds up, after every load, to what the cache has for its host: each change once, in an order that can be followed "
  "(a space before its parts, removal of parts before their space, removal before a changed listener is added again), and always something metad had. "
  "Once unregisterListener returned no callback runs or starts, whichever thread would have made it.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of catalogue changes between loads, every load that fails, and every moment of unregistering against the background thread and the heartbeat.",
  "MetaClientTest's listener counts a few calls of one load without faults, and is never unregistered while the client runs.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="diff, listenerDiff, loadRemoteListeners", where="clients/meta/MetaClient.cpp"), dict(name="listenerLock_", where="clients/meta/MetaClient.cpp registerListener, unRegisterListener, heartbeat, updateNestedGflags")],
  note="MetaClient real; metad, event bases, sockets and network are simulated.")

P("C26", "A storage leader is the one last told or reported, else the part's hosts in turn",
  "The calls that ask for, update and invalidate the leader of a part are linearizable: an answer is the leader last told or reported by metad, and when there is none the next of the part's hosts in turn, which then stays the leader for all who ask. "
  "After a load the leaders are exactly those metad reports; a part that does not exist has none.",
  ["schedules", "histories"],
  "Every interleaving of concurrent askers, updates and invalidations, among themselves and with loads.",
  "No test calls these functions from more than one thread.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="getStorageLeaderFromCache, updateStorageLeader, invalidStorageLeader", where="clients/meta/MetaClient.cpp"), dict(name="loadLeader", where="clients/meta/MetaClient.cpp")],
  note="Judged with a search for a linearization per part; loads are kept out of those histories and checked after they end.")

P("C27", "The heartbeat keeps a server known to metad, and waiting for metad ends",
  "Every heartbeat states the server's own address, role and version and the parts it leads, as its listener gives them just then; the next is sent an interval after the last, none after stop(), and the cluster id is the one in the file or else the first metad gave, which is then kept in the file and never changed. "
  "Waiting for metad succeeds only when metad has answered and the cache is loaded; otherwise it ends when its attempts are used up or the client is stopped, from whichever thread, and a client that found no metad becomes ready by itself once there is one.",
  ["schedules", "fault_sequences", "crash_points"],
  "Every schedule of the heartbeat, the waiting caller and stop(), with metad servers and network failing and the id file present, missing or wrong.",
  "Tests run one client against a mock that answers at once.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp", "src/common/clients/meta/FileBasedClusterIdMan.cpp"],
  [dict(name="heartbeat, isMetadReady", where="clients/meta/MetaClient.cpp"), dict(name="waitForMetadReady, stop", where="clients/meta/MetaClient.cpp")],
  note="The id file lives in the simulated file system.")

P("C28", "Flags follow the configuration in metad, and only the flags metad may change",
  "The process registers exactly its mutable flags, with module and current value; each of them takes only values metad had for it, never an older one after a newer, and equals metad's once metad can be reached and nothing changes; immutable flags, other modules' and unknown ones stay as they are. "
  "A changed nested option is passed to every local space once per change, and setting a flag through the client reaches metad and comes back.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of configuration changes in metad, with failing servers and network, and every schedule of loads.",
  "No test changes a configuration while a client loads it.",
  ["src/common/clients/meta/MetaClient.cpp", "src/common/meta/GflagsManager.cpp", "src/common/conf/Configuration.cpp"],
  [dict(name="loadCfg, registerCfg, updateGflagsValue, updateNestedGflags", where="clients/meta/MetaClient.cpp"), dict(name="GflagsManager::declareGflags, ValueToGflagString", where="meta/GflagsManager.cpp")],
  note="gflags itself is the real library.")

P("C29", "A storage request reaches each item's partition once, and the result says so",
  "Every item a caller gives to a storage client is sent exactly once, unchanged and in the caller's order, to the partition its id belongs to, one request per host; requests for all partitions name each partition once; the caller's own data stays as it was and an unknown space is refused before anything is sent. "
  "The result comes once all hosts have answered or failed, in bounded time: each answer and each latency is one the named host gave for this call, the failed partitions are those a host refused and those of hosts that did not answer, and success and completeness say how many requests did not fail.",
  ["schedules", "fault_sequences", "histories"],
  "Every schedule of answers from several hosts on several IO threads, with any of them failing, late, lost or refused.",
  "The tests use one mock server that always answers.",
  ["src/common/clients/storage/StorageClientBase.h", "src/common/clients/storage/StorageClientBase.inl", "src/common/clients/storage/GraphStorageClient.cpp", "src/common/clients/storage/GeneralStorageClient.cpp"],
  [dict(name="collectResponse, getResponse, clusterIdsToHosts, getHostParts", where="clients/storage/StorageClientBase.inl"), dict(name="GraphStorageClient, GeneralStorageClient", where="clients/storage")],
  note="The order of hostLatency() against responses() is not claimed: each latency is matched to its answer by value.")

P("C30", "Storage clients learn who leads a partition from every answer and failure",
  "A partition is asked for at the leader known for it; when the caller has the result, the leader known is the one a refusing host named, none if it named none, does not have the partition or the request failed, and unchanged for everything else, in this and in other spaces. "
  "Once the real leaders stay where they are and nothing fails, callers that just ask again find each of them in a bounded number of attempts, and then requests for whole spaces succeed.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of leader moves, right, stale and missing hints and failed requests, with many callers at once.",
  "No test has a leader move while clients use it.",
  ["src/common/clients/storage/StorageClientBase.inl", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="updateLeader, invalidLeader, getLeader", where="clients/storage/StorageClientBase.inl"), dict(name="getStorageLeaderFromCache", where="clients/meta/MetaClient.cpp")])

P("C31", "The internal storage client follows the leader until one takes the request",
  "A forwarded transaction or value request goes, with the same content each time, to the internal port of the known leader of the partition (of a key: the one its id belongs to); it is sent again only after a host answered that it does not lead, at least half a second later, to the leader that host named. "
  "The caller gets the last host's answer, success only if that host took it, or an error when it did not answer or there is no such space or partition; once the leader stays where it is, a call ends after at most one more attempt.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of leader moves and failures during the retries, and every schedule of several calls at once.",
  "No test uses this client.",
  ["src/common/clients/storage/InternalStorageClient.cpp", "src/common/clients/storage/InternalStorageClient.h"],
  [dict(name="forwardTransactionImpl, getValueImpl", where="clients/storage/InternalStorageClient.cpp")])

P("C32", "The web service answers every request once and truthfully, whatever it holds",
  "Every HTTP request gets exactly one complete answer or its connection is lost, and its handler is released: flags and statistics are listed as asked for with a value they had meanwhile, PUT /flags sets exactly the named flags whose values are acceptable and lists all others as failed, a body that is no JSON object is refused with 400, and a path or method without a route with 404; no content of a request ends the process. "
  "start() succeeds exactly if both ports are open, gives back the ports chosen for 0, and may be tried again when it failed; destroying the service at any time, started or not, ends everything it began.",
  ["inputs", "schedules", "fault_sequences"],
  "Every request, in every interleaving of clients, server threads, flag changes and shutdown, with connections lost anywhere and ports taken.",
  "The tests send a few well-formed requests one after another.",
  ["src/common/webservice/WebService.cpp", "src/common/webservice/Router.cpp", "src/common/webservice/GetFlagsHandler.cpp", "src/common/webservice/SetFlagsHandler.cpp", "src/common/webservice/GetStatsHandler.cpp", "src/common/webservice/StatusHandler.cpp", "src/common/webservice/NotFoundHandler.cpp"],
  [dict(name="WebService::start, ~WebService", where="webservice/WebService.cpp"), dict(name="Router::dispatch", where="webservice/Router.cpp"), dict(name="request handlers", where="webservice")],
  note="Pattern routes are searched for inside the path, not matched against all of it; which of the two is meant is not claimed.")

P("C33", "Every value counts once in each statistics window, for as long as it reaches",
  "A value added to a counter or histogram from any thread counts exactly once in the sum, count, average, rate and percentiles of each of the 5, 60, 600 and 3600 second windows until the clock has moved it out of that window, and in no other counter. "
  "Each registered metric is read under its name, id and in readAllValue alike, and a name, method, window or percentile that does not exist gives an error.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of adding and reading, over every history of the clock, forward steps included.",
  "The tests add values in a loop and read back within a second or so.",
  ["src/common/stats/StatsManager.cpp", "src/common/stats/StatsManager.inl", "src/common/stats/StatsManager.h"],
  [dict(name="addValue, readStats, readHisto, readAllValue, readValue", where="stats/StatsManager.cpp")],
  note="Windows have the resolution of their buckets (a sixtieth, at least a second); all counters are registered before they are used, as documented; a wall clock that steps back is outside of the property. The time series themselves are folly's and replaced by a stand-in.")

P("C34", "A configuration file is loaded as it is, or refused and the old one kept",
  "parseFromFile() and parseFromString() take over exactly the JSON object given, less comments, which are none within a string; otherwise, whatever the disk does, whoever replaces the file meanwhile and whatever it holds, they report an error and what was loaded before stays. "
  "An item is answered with exactly its value when it is there and of the type asked for, with an error otherwise, and nothing the file holds ends the process.",
  ["inputs", "fault_sequences", "schedules"],
  "Every content of the file, every failing or short read, every moment at which another process replaces the file.",
  "The tests parse a handful of well-formed texts; no read ever fails.",
  ["src/common/conf/Configuration.cpp", "src/common/conf/Configuration.h"],
  [dict(name="parseFromFile, parseFromString", where="conf/Configuration.cpp"), dict(name="fetchAs*", where="conf/Configuration.cpp")])

P("C35", "Full-text values reach Elasticsearch unchanged, or a failure is reported",
  "A put or bulk reported as done left exactly the documents given in Elasticsearch, each distinct value of a column and partition as one of its own (values over 256 bytes cut to that, less a character cut in two); a search returns exactly the values of the hits; an index is reported as created, dropped or present only if it was. "
  "Whatever values, users, passwords and index names contain, the shell runs the one curl command meant with exactly them, and any failure of the shell, curl or Elasticsearch is reported.",
  ["inputs", "fault_sequences", "schedules"],
  "Every value, name and credential, with commands that fail, die or answer something else at any point, from several threads.",
  "The tests compare a few command strings and need a live Elasticsearch for the rest.",
  ["src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp", "src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp", "src/common/plugin/fulltext/FTUtils.h"],
  [dict(name="ESStorageAdapter::put, bulk", where="plugin/fulltext/elasticsearch/ESStorageAdapter.cpp"), dict(name="ESGraphAdapter::prefix, wildcard, regexp, fuzzy, createIndex, dropIndex, indexExists", where="plugin/fulltext/elasticsearch/ESGraphAdapter.cpp")],
  note="A search that Elasticsearch answered only in part (timed out, failed shards) is taken as an answer; whether it should be is not claimed.")

P("C36", "HTTP and HDFS commands run as given; download and ingest end as metad says",
  "An HTTP or HDFS request runs one command with exactly the URL, options, data or paths given, whatever characters they hold, and its output is returned whole exactly if it succeeded, an error otherwise. "
  "download() and ingest() ask the HTTP service of the metad known as leader once, and report success exactly if it said that it was done.",
  ["inputs", "fault_sequences", "schedules"],
  "Every URL, path and JSON value, any output and ending of the command, and leader changes at any moment.",
  "HttpClientTest sends three requests to a local server; the HDFS helper, download and ingest have no test.",
  ["src/common/http/HttpClient.cpp", "src/common/hdfs/HdfsCommandHelper.cpp", "src/common/process/ProcessUtils.cpp", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="HttpClient::get, post, put", where="http/HttpClient.cpp"), dict(name="HdfsCommandHelper::ls, copyToLocal", where="hdfs/HdfsCommandHelper.cpp"), dict(name="MetaClient::download, ingest", where="clients/meta/MetaClient.cpp")],
  note="URLs are given to curl as they are: percent-encoding them is the caller's part.")

P("C37", "NetworkUtils answers for the host as it is at the moment, or says it failed",
  "Every device with an IPv4 address is listed with the addresses it has, listIPv4s lists all of the host's IPv4 addresses, a name resolves to exactly its IPv4 addresses in order, and what cannot be found out is an error, never a crash or a made-up answer. "
  "The dynamic port range is the system's, or the documented default where the system does not tell; a port answered as available is unprivileged, below that range where there is room, and neither it nor the next one had a socket; lists are given back and commands waited for.",
  ["inputs", "fault_sequences"],
  "Every configuration of devices, names, ports in use and port range, with any of the system's answers failing.",
  "The tests ask the one machine they run on.",
  ["src/common/network/NetworkUtils.cpp"],
  [dict(name="listDeviceAndIPv4s, listIPv4s, getIPv4FromDevice", where="network/NetworkUtils.cpp"), dict(name="getDynamicPortRange, getPortsInUse, getAvailablePort", where="network/NetworkUtils.cpp"), dict(name="resolveHost", where="network/NetworkUtils.cpp")])

P("C38", "A temporary directory is new, private, and removed with all it holds",
  "The path of a TempDir comes from its template, is its own among all live and kept ones, and is at first an empty directory only its owner may enter; the caller's template stays as it was, and where no directory can be made there is no path. "
  "Destroying the object removes the directory with everything in it, hidden entries included, and nothing that symbolic links in it point to; a directory made to be kept stays whole.",
  ["inputs", "schedules", "fault_sequences"],
  "Every template and every content, with several threads making and removing directories and any system call failing.",
  "The tests make one directory and remove it empty or with a few plain files.",
  ["src/common/fs/TempDir.cpp", "src/common/fs/TempDir.h", "src/common/fs/FileUtils.cpp"],
  [dict(name="TempDir::TempDir, ~TempDir", where="fs/TempDir.cpp")])

P("C39", "Schema and index managers answer what metad has, not some mixture",
  "Each answer of the schema and index managers (ids, names, schemas of a given or the latest version, versions, indexes, full-text clients and indexes) is that of one version of the catalogue metad had, never older than one already seen, and that of the current one once metad can be reached and nothing changes. "
  "A negative version means the latest; a name is looked up among the edges first and then among the tags; what does not exist is an error or null, as is an empty list of full-text clients.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of catalogue changes, with failing metad servers and network, and every schedule of readers and loads.",
  "The tests use a fixed schema of their own instead.",
  ["src/common/meta/ServerBasedSchemaManager.cpp", "src/common/meta/ServerBasedIndexManager.cpp", "src/common/meta/SchemaManager.cpp"],
  [dict(name="ServerBasedSchemaManager", where="meta/ServerBasedSchemaManager.cpp"), dict(name="ServerBasedIndexManager", where="meta/ServerBasedIndexManager.cpp"), dict(name="SchemaManager::getSchemaIDByName", where="meta/SchemaManager.cpp")])

P("C40", "Status and StatusOr hold exactly what was put in, until it is taken out",
  "A Status keeps its code and message (a text up to 65535 bytes whole and a longer one its beginning, a formatted one up to 255) through any sequence of copies, moves and assignments, says so in toString() and its is...() functions, and equals exactly those of the same code. "
  "A StatusOr holds nothing, a status or a value, the one last put in, even when that is its own; moving or taking out leaves nothing; every value is destroyed exactly once, also when memory runs out on the way and the caller goes on.",
  ["inputs", "histories", "fault_sequences"],
  "Every sequence of operations on any number of objects and any message, with any allocation failing.",
  "The tests do each operation once, with short messages and no failure.",
  ["src/common/base/Status.h", "src/common/base/Status.cpp", "src/common/base/StatusOr.h"],
  [dict(name="Status", where="base/Status.h"), dict(name="StatusOr", where="base/StatusOr.h")],
  note="Where an assignment is declared noexcept and copies the value, running out of memory ends the process; no failures are injected there.")

P("C41", "The current date and time are those of the moment, in UTC and in the zone",
  "The UTC and local date, time and date-time asked for are those of a moment during the call, local being UTC plus the offset of the configured time zone, whatever the clock does and across days, months, leap years and years; converting to local and back gives the same. "
  "The zone comes from the flag, the zone file or TZ, and a missing or malformed one is refused. "
  "Over all years a date can hold, seconds, days, differences and sums of dates follow the proleptic Gregorian calendar and invert each other, and texts and maps are accepted exactly if they are a date or time.",
  ["inputs", "fault_sequences", "schedules"],
  "Every moment, offset, zone file, date and number of days, with stalled threads, clock steps and failing reads of the zone file.",
  "The tests use a few fixed dates and only print the present; the days the calendar and the zone disagree are never reached by them.",
  ["src/common/time/TimeUtils.h", "src/common/time/TimeUtils.cpp", "src/common/time/TimezoneInfo.h", "src/common/time/TimeConversion.h", "src/common/time/TimeConversion.cpp", "src/common/datatypes/Date.cpp"],
  [dict(name="TimeUtils", where="time/TimeUtils.h"), dict(name="Timezone", where="time/TimezoneInfo.h"), dict(name="TimeConversion", where="time/TimeConversion.h"), dict(name="Date::toInt, fromInt, operator+, operator-", where="datatypes/Date.cpp")],
  note="Day 11968512 is 0000/1/1, as the existing tests want it. Daylight saving is not considered by the code. Offsets are those the time-zone library accepts.")
P("C42", "What nodes send each other arrives as it was sent, or is refused",
  "Every value, graph element and response a node writes is what a peer reads that knows only the interface files, in any of the wire protocols, and what peers write, older and newer ones among them, is read as they meant it: fields in any order, unknown ones skipped, omitted ones at their defaults, required ones demanded. "
  "A message cut short is refused, a damaged one is refused or is a value that can be sent on, and neither these nor a failing allocation crash the node, leak or leave an object that cannot be used or cleared. "
  "Responses compare equal exactly if all their fields do, a cleared object is a new one, and the error codes have the names and numbers of the interface.",
  ["inputs", "fault_sequences", "histories"],
  "Every message of every type over compact, binary and name-carrying protocols, with peers of other versions, truncation at every byte, damage, and failing allocations.",
  "The tests write and read a few fixed objects with the same code on both sides, so a codec that disagrees with the interface, or with a peer of another version, agrees with itself.",
  ["src/common/datatypes/ValueOps.inl", "src/common/datatypes/EdgeOps.inl", "src/common/datatypes/VertexOps.inl", "src/common/datatypes/PathOps.inl", "src/common/datatypes/SetOps.inl", "src/common/datatypes/DataSetOps.inl", "src/common/datatypes/Value.cpp", "src/common/graph/ExecutionResponseOps.inl", "src/common/graph/AuthResponseOps.inl", "src/common/graph/PlanNodeDescriptionOps.inl", "src/common/graph/Response.h", "src/common/graph/Response.cpp"],
  [dict(name="Cpp2Ops<T>::read, write", where="datatypes/*Ops.inl, graph/*Ops.inl"), dict(name="Value::set*, clear, hash", where="datatypes/Value.cpp"), dict(name="operator==, __clear, errorCode", where="graph/Response.h, graph/Response.cpp")],
  note="The type of an edge or a step is sent as its sign only, which the code says is intended. Date and date-time fields that are left out mean the first month and day, as in the constructors. The hashes of vertices, edges and paths allocate and must not throw, so sets of those are read without failing allocations.")

P("C43", "An expression means the same on every node, in every copy, at every row",
  "An expression that is encoded and decoded, cloned, or kept for later evaluates to what the one it was made from does, on every node it was shipped to, however often and after whichever rows, beside other copies in other threads, and after an evaluation that failed to allocate. "
  "Its stored form is the one described, stays the same over decoding and encoding again, and two expressions that differ anywhere are not equal. "
  "Aggregates over groups whose rows come interleaved give each group what its rows alone would give.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "All expressions up to a depth over rows of any types, in copies of copies over several nodes and threads, with nodes that restart and decode again, deliveries that are repeated, and failing allocations.",
  "The tests evaluate a fresh expression once, over one row; a result kept from the row before, a copy that shares a part with the original or a field that is not encoded does not show there.",
  ["src/common/expression/Expression.cpp", "src/common/expression/ColumnExpression.cpp", "src/common/expression/CaseExpression.cpp", "src/common/expression/ListComprehensionExpression.cpp", "src/common/expression/PredicateExpression.cpp", "src/common/expression/ReduceExpression.cpp", "src/common/expression/SubscriptExpression.cpp", "src/common/expression/AttributeExpression.cpp", "src/common/expression/PropertyExpression.cpp", "src/common/expression/AggregateExpression.cpp", "src/common/function/FunctionManager.cpp", "src/common/function/AggFunctionManager.cpp"],
  [dict(name="Expression::encode, decode, clone, ==", where="expression/*"), dict(name="eval and the result_ it keeps", where="expression/*"), dict(name="AggData and the aggregate functions", where="expression/AggregateExpression.h, function/AggFunctionManager.cpp")],
  note="What a single operator or function answers is taken from a fresh expression, except that it may not crash or hang. Expressions that name an unknown function or come from damaged bytes are out of scope. Doubles are compared by their bits.")

P("C44", "Built-in functions: pure ones depend on their arguments only, others keep bounds",
  "A function that is called pure answers the same for the same arguments at any time, in any thread, beside any other call and whatever the random numbers are, and no function changes its arguments or crashes or hangs on any of them, or when an allocation fails. "
  "Random numbers lie in the range asked for, and the functions of time give the present time in UTC; hashes of strings and integers are those of every other node. "
  "A function is found under its name in any case exactly with the numbers of arguments it takes, and its answer has the type announced for it.",
  ["inputs", "schedules", "fault_sequences"],
  "All functions with arguments of any types, at any time of the clock, with any random numbers, from several threads, with failing allocations.",
  "The tests call each function once, at one time, in one thread, so an answer that depends on the clock, on chance, on another thread or on an unusual argument is not seen.",
  ["src/common/function/FunctionManager.cpp", "src/common/function/FunctionManager.h", "src/common/time/TimeUtils.h", "src/common/time/WallClock.cpp", "src/common/base/MurmurHash2.h"],
  [dict(name="FunctionManager::get, find, getIsPure, getReturnType", where="function/FunctionManager.cpp"), dict(name="the function bodies", where="function/FunctionManager.cpp")],
  note="Parsing of dates is decided in C41. Sizes of padding and ranges stay within memory. The type announced for strcasecmp is a listed finding. Null and empty arguments may give null whatever type is announced.")

P("C45", "A value holds exactly what was last put in, also when that was a part of itself",
  "A value of any type holds what it was last given, whichever constructor, assignment, set, move or swap gave it, even where that is the value itself or a part of what it held; what was moved or taken out leaves it empty, and no other value changes. "
  "Copies are equal and have equal hashes, equality does not depend on the order asked in and no two values are each before the other. When memory runs out on the way, the target holds what it held, what it was to hold, or nothing, the source is unchanged, and nothing leaks or is destroyed twice; threads may copy from the same value. "
  "A path is prolonged exactly by one that starts where it ends, reversing visits it backwards, and duplicates are reported exactly if there are any.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "Every sequence of operations on values of any type and nesting, with any allocation failing, several threads reading the same values, and paths of any form.",
  "The tests do each operation once, on small values and with memory to spare, and never give a value a part of itself.",
  ["src/common/datatypes/Value.h", "src/common/datatypes/Value.cpp", "src/common/datatypes/List.h", "src/common/datatypes/Map.h", "src/common/datatypes/Set.h", "src/common/datatypes/DataSet.h", "src/common/datatypes/Vertex.h", "src/common/datatypes/Vertex.cpp", "src/common/datatypes/Edge.h", "src/common/datatypes/Edge.cpp", "src/common/datatypes/Path.h", "src/common/datatypes/Path.cpp"],
  [dict(name="Value: union of 15 types", where="datatypes/Value.cpp"), dict(name="Path::reverse, append, hasDuplicate...", where="datatypes/Path.cpp")],
  note="Assigning a path or a step, which is declared noexcept, is not done while allocations fail. Order and equality of values that hold nulls are not judged.")

P("C46", "Encodings and character sets are translated exactly",
  "Decoding what encodeBase64 made gives the bytes back; the MD5 of a password is the standard one in hexadecimal; a collation is accepted for a character set exactly if the table lists it, and the default collation is one of them.",
  ["inputs"],
  "All byte strings and names.",
  "The tests encode a handful of strings.",
  ["src/common/encryption/Base64.cpp", "src/common/encryption/MD5Utils.cpp", "src/common/charset/Charset.cpp"],
  [dict(name="encryption::Base64, MD5Utils", where="encryption/*.cpp"), dict(name="CharsetInfo", where="charset/Charset.h")],
  na="Pure functions of their arguments and of constant tables (the encodings are one-line calls into proxygen, boost and openssl): no schedule, clock, I/O, chance or second party for a simulation to vary.")

P("C47", "Arithmetic, comparison and logic over values follow the language",
  "The operators over values follow the three-valued logic of the query language: bad operands give a bad-type null, null operands give null, AND, OR and XOR obey their truth tables, and integers never overflow silently.",
  ["inputs"],
  "All pairs of values of all types.",
  "The tests take a few pairs of a few types.",
  ["src/common/datatypes/Value.cpp", "src/common/expression/ArithmeticExpression.cpp", "src/common/expression/LogicalExpression.cpp", "src/common/expression/RelationalExpression.cpp"],
  [dict(name="operator+ - * / % && || ! == <", where="datatypes/Value.cpp")],
  na="Pure functions of two operands: no schedule, clock, I/O, chance or second party. What does depend on those (evaluation shared between threads, encoding for another node, failing memory, ownership) is decided in C43 and C45.")

P("C48", "A schema is what metad defined, whole, for as long as it is held",
  "A schema got from the meta cache has exactly the fields, in order, with the types, lengths, nullability and default values, and the time to live of one version metad defined, "
  "and stays so while it is held, also after the cache was replaced and the client is gone. "
  "Its fields lie one after another without gaps or overlap, each as large as its type, the nullable ones have consecutive null flags, and each is found under its name, its index and by the iterator.",
  ["schedules", "histories", "fault_sequences"],
  "Every schema definition, every interleaving of look-ups with reloads and changes, every time a schema is held on to, and every sequence of elections, crashes, partitions and lost calls.",
  "No test holds a schema while the cache it came from is replaced; those of MetaClient are not built here and look at one schema once.",
  ["src/common/meta/NebulaSchemaProvider.h", "src/common/meta/NebulaSchemaProvider.cpp", "src/common/meta/SchemaProviderIf.h", "src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [dict(name="NebulaSchemaProvider::addField, field, getTTLInfo", where="meta/NebulaSchemaProvider.cpp"), dict(name="MetaClient::loadSchemas", where="clients/meta/MetaClient.cpp")],
  note="Field names within a schema are distinct and fixed strings are at least one byte long, as metad sees to. Versions of a schema are listed newest first, as metad does.")
