"""What each check builds and runs.  scenarios: (name, quick runs, thorough runs)."""

CLOCK_SRC = ["time/WallClock.cpp", "time/Duration.cpp", "time/detail/TscHelper.cpp", "thread/NamedThread.cpp", "base/SlowOpTracker.cpp"]
WORKER_SRC = ["thread/GenericWorker.cpp", "thread/GenericThreadPool.cpp", "thread/NamedThread.cpp"]
WORKER_LIBS = ["-l:libevent_core.a"]
FOLLY_STUB = ["folly futures, executors and utilities (interface-compatible stand-in)"]

DATA = ["datatypes/%s.cpp" % x for x in ("Value", "Date", "Edge", "HostAddr", "List", "Map", "Path", "Set", "Vertex")] + ["time/TimeConversion.cpp", "time/WallClock.cpp", "time/detail/TscHelper.cpp"]

META_SRC = ["clients/meta/MetaClient.cpp", "clients/meta/FileBasedClusterIdMan.cpp", "base/Status.cpp", "base/Cord.cpp", "meta/NebulaSchemaProvider.cpp", "meta/GflagsManager.cpp", "conf/Configuration.cpp", "http/HttpClient.cpp", "process/ProcessUtils.cpp", "fs/FileUtils.cpp", "network/NetworkUtils.cpp", "stats/StatsManager.cpp", "thread/NamedThread.cpp", "thread/GenericWorker.cpp", "webservice/Common.cpp", "thrift/ThriftClientManager.cpp"] + DATA

WEB_SRC = ["webservice/%s.cpp" % x for x in ("WebService", "Router", "GetFlagsHandler", "SetFlagsHandler", "GetStatsHandler", "StatusHandler", "NotFoundHandler", "Common")] + ["stats/StatsManager.cpp", "thread/NamedThread.cpp", "base/Status.cpp"] + DATA
STORAGE_SRC = ["clients/storage/StorageClientBase.cpp", "clients/storage/GraphStorageClient.cpp", "clients/storage/GeneralStorageClient.cpp", "clients/storage/InternalStorageClient.cpp"]
META_REAL = ["clients/meta/MetaClient", "thrift/ThriftClientManager", "thread/GenericWorker", "meta schema provider", "datatypes", "base/Status, StatusOr"]
META_STUB = ["metad (simulated cluster)", "generated Thrift code (stand-in)", "sockets and network (simulator)"] + FOLLY_STUB + ["thread scheduling and clocks (simulator)"]

EXPR_SRC = ["expression/%s.cpp" % x for x in ("AggregateExpression", "ArithmeticExpression", "AttributeExpression", "BinaryExpression", "CaseExpression", "ColumnExpression", "ConstantExpression", "ContainerExpression", "EdgeExpression", "Expression", "FunctionCallExpression", "LabelAttributeExpression", "LabelExpression", "ListComprehensionExpression", "LogicalExpression", "PathBuildExpression", "PredicateExpression", "PropertyExpression", "ReduceExpression", "RelationalExpression", "SubscriptExpression", "TextSearchExpression", "TypeCastingExpression", "UUIDExpression", "UnaryExpression", "VariableExpression", "VertexExpression")] + ["function/FunctionManager.cpp", "function/AggFunctionManager.cpp", "time/TimeUtils.cpp", "time/TimezoneInfo.cpp", "base/Base.cpp"]
STORAGE_REAL = ["clients/storage"] + META_REAL
STORAGE_STUB = ["storage servers (simulated)"] + META_STUB

CHECKS = {
    "C01": dict(
        harness=["sync.cpp"], repo=["concurrent/Latch.cpp", "concurrent/Barrier.cpp"],
        scenarios=[("latch", 40000, 1500000)],
        require_faults=["spurious_wakeup", "thread_stall"],
        real=["concurrent/Latch"], stub=["pthread mutex/condvar/thread scheduling and clocks (simulator)"],
    ),
    "C02": dict(
        harness=["sync.cpp"], repo=["concurrent/Latch.cpp", "concurrent/Barrier.cpp"],
        scenarios=[("barrier_rounds", 30000, 800000), ("barrier_crowd", 20000, 500000)],
        require_faults=["spurious_wakeup", "thread_stall"],
        real=["concurrent/Barrier"], stub=["pthread mutex/condvar/thread scheduling and clocks (simulator)"],
    ),
    "C03": dict(
        harness=["threads.cpp"], repo=["thread/NamedThread.cpp"],
        scenarios=[("named_threads", 25000, 600000)],
        require_faults=["thread_create_fail", "thread_stall"],
        real=["thread/NamedThread", "kernel thread ids and names"], stub=["thread scheduling (simulator)"],
    ),
    "C04": dict(
        harness=["tempfile.cpp"], repo=["fs/TempFile.cpp"],
        scenarios=[("tempfile", 25000, 600000), ("tempfile_available", 4000, 50000)],
        require_faults=["mkstemp_fail", "close_fail", "unlink_fail", "name_taken"],
        real=["fs/TempFile", "tmpfs file creation and removal"], stub=["mkstemp name choice", "failing system calls", "thread scheduling (simulator)"],
    ),
    "C05": dict(
        harness=["clock.cpp"], repo=CLOCK_SRC,
        scenarios=[("clock_accuracy", 12000, 300000), ("clock_steps", 6000, 100000)],
        require_faults=["thread_stall", "time_skip", "wall_clock_step"],
        real=["time/WallClock", "time/detail/TscHelper", "thread/NamedThread"], stub=["time-stamp counter (trapped rdtsc)", "CLOCK_MONOTONIC and CLOCK_REALTIME", "sleep", "thread scheduling"],
    ),
    "C06": dict(
        harness=["clock.cpp"], repo=CLOCK_SRC,
        scenarios=[("duration", 15000, 300000)],
        require_faults=["thread_stall", "time_skip"],
        real=["time/Duration", "time/detail/TscHelper"], stub=["time-stamp counter (trapped rdtsc)", "clocks", "sleep", "thread scheduling"],
    ),
    "C07": dict(
        harness=["clock.cpp"], repo=CLOCK_SRC,
        scenarios=[("slow_op", 12000, 300000)],
        require_faults=["thread_stall", "time_skip"],
        real=["base/SlowOpTracker", "time/WallClock", "time/detail/TscHelper", "glog"], stub=["time-stamp counter (trapped rdtsc)", "clocks", "sleep", "thread scheduling"],
    ),
    "C08": dict(
        harness=["containers.cpp"], repo=["base/Cord.cpp"],
        scenarios=[("cord", 40000, 1000000), ("cord_memory", 10000, 200000)],
        require_faults=["alloc_fail"],
        real=["base/Cord"], stub=["allocator (checked arena, injected failures)"],
    ),
    "C09": dict(
        harness=["containers.cpp"], repo=["base/Cord.cpp"],
        scenarios=[("icord", 40000, 1000000)],
        require_faults=["alloc_fail"],
        real=["base/ICord"], stub=["allocator (checked arena, injected failures)"],
    ),
    "C10": dict(
        harness=["either.cpp"], repo=[],
        scenarios=[("either_or", 40000, 1000000), ("error_or", 20000, 400000)],
        require_faults=["alloc_fail"],
        real=["base/EitherOr", "base/ErrorOr"], stub=["allocator (checked arena, injected failures)"],
    ),
    "C11": dict(
        folly=True, harness=["worker.cpp"], repo=WORKER_SRC, libs=WORKER_LIBS,
        scenarios=[("worker_tasks", 15000, 400000)],
        require_faults=["thread_create_fail", "eventfd_fail", "epoll_create_fail", "wait_eintr", "thread_stall"],
        real=["thread/GenericWorker", "thread/NamedThread", "libevent 2.1 event loop", "kernel eventfd and epoll objects"], stub=FOLLY_STUB + ["epoll waiting, clocks, thread scheduling (simulator)"],
    ),
    "C12": dict(
        folly=True, harness=["worker.cpp"], repo=WORKER_SRC, libs=WORKER_LIBS,
        scenarios=[("worker_timers", 12000, 300000)],
        require_faults=["wait_eintr", "thread_stall"],
        real=["thread/GenericWorker", "libevent 2.1 event loop and timers"], stub=FOLLY_STUB + ["epoll waiting, clocks, thread scheduling (simulator)"],
    ),
    "C13": dict(
        folly=True, harness=["worker.cpp"], repo=WORKER_SRC, libs=WORKER_LIBS,
        scenarios=[("pool_tasks", 6000, 150000)],
        require_faults=["thread_create_fail", "eventfd_fail", "wait_eintr", "thread_stall"],
        real=["thread/GenericThreadPool", "thread/GenericWorker", "libevent 2.1 event loop"], stub=FOLLY_STUB + ["epoll waiting, clocks, thread scheduling (simulator)"],
    ),
    "C14": dict(
        folly=True, harness=["cache.cpp"], repo=["base/Status.cpp"],
        scenarios=[("lru_shared", 20000, 600000), ("lru_history", 3000, 80000)],
        require_faults=["alloc_fail", "thread_stall"],
        real=["base/ConcurrentLRUCache", "base/StatusOr", "base/Status"], stub=["allocator (checked arena, injected failures)", "thread scheduling (simulator)"],
    ),
    "C15": dict(
        folly=True, harness=["cache.cpp"], repo=["base/Status.cpp"],
        scenarios=[("object_pool", 20000, 600000)],
        require_faults=["alloc_fail", "thread_stall"],
        real=["base/ObjectPool"], stub=FOLLY_STUB + ["allocator (checked arena, injected failures)", "thread scheduling (simulator)"],
    ),
    "C16": dict(
        folly=True, harness=["cache.cpp"], repo=["base/Status.cpp"],
        scenarios=[("collect_n", 25000, 600000)],
        require_faults=["thread_stall"],
        real=["base/CollectNSucceeded"], stub=FOLLY_STUB + ["thread scheduling (simulator)"],
    ),
    "C17": dict(
        folly=True, harness=["cache.cpp"], repo=["base/Status.cpp"],
        scenarios=[("reservoir", 1500, 40000)],
        require_faults=[],
        real=["algorithm/ReservoirSampling"], stub=["folly::Random (seeded by the simulator)"],
    ),
    "C18": dict(
        folly=True, harness=["files.cpp"], repo=["base/Status.cpp", "fs/FileUtils.cpp"],
        scenarios=[("files_tree", 12000, 300000), ("files_race", 8000, 200000)],
        require_faults=["unlink_fail", "rmdir_fail", "mkdir_fail", "stat_fail", "opendir_fail", "readdir_fail", "rename_fail", "dtype_unknown", "short_read"],
        real=["fs/FileUtils", "kernel file system (tmpfs)"], stub=["failing system calls", "directory order", "thread scheduling (simulator)"],
    ),
    "C19": dict(
        folly=True, harness=["clusterid.cpp"], repo=["base/Status.cpp", "fs/FileUtils.cpp", "clients/meta/FileBasedClusterIdMan.cpp"],
        scenarios=[("cluster_id", 15000, 400000)],
        require_faults=["crash", "crash_lost_names", "open_fail", "write_fail", "short_write", "fsync_fail", "close_fail", "rename_fail", "read_fail"],
        real=["clients/meta/FileBasedClusterIdMan", "fs/FileUtils", "kernel file system (tmpfs)"], stub=["what survives a crash (model of a journalled file system)", "failing system calls", "thread scheduling (simulator)"],
    ),
    "C20": dict(
        folly=True, harness=["process.cpp"], sim=["proc.cpp"],
        repo=["base/Status.cpp", "base/Cord.cpp", "fs/FileUtils.cpp", "process/ProcessUtils.cpp"],
        scenarios=[("pid_file", 15000, 400000), ("run_command", 8000, 200000), ("daemonize", 8000, 200000), ("proc_queries", 6000, 150000)],
        require_faults=["open_fail", "write_fail", "short_write", "close_fail", "read_fail", "access_fail", "popen_fail", "short_read", "fork_fail", "null_open_fail", "dup2_fail", "readlink_fail"],
        real=["process/ProcessUtils", "fs/FileUtils", "base/Cord", "glibc streams"], stub=["process table, kill() and fork()", "/proc files of processes", "commands behind popen()", "failing system calls", "thread scheduling (simulator)"],
    ),
    "C21": dict(
        folly=True, harness=["signals.cpp"], sim=["proc.cpp"], repo=["base/Status.cpp", "base/SignalHandler.cpp"],
        scenarios=[("signals", 20000, 500000)],
        require_faults=["sigaction_fail"],
        real=["base/SignalHandler"], stub=["signal delivery, masks and dispositions", "thread scheduling (simulator)"],
    ),
    "C22": dict(
        folly=True, thrift=True, harness=["thriftcli.cpp"], shim_src=["simnet.cpp"], repo=["base/Status.cpp", "thrift/ThriftClientManager.cpp"] + DATA,
        scenarios=[("thrift_clients", 20000, 600000)],
        require_faults=["net_connect_refused", "net_connect_lost", "net_reset_before", "net_reset_after", "net_reply_lost", "net_request_lost", "dns_fail", "server_crash", "net_partition", "dns_change"],
        real=["thrift/ThriftClientManager"], stub=["folly event bases, futures and sockets", "thrift channel", "network, servers and name service (simulator)", "thread scheduling (simulator)"],
    ),
    "C23": dict(
        folly=True, thrift=True, harness=["metarpc.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_rpc", 14000, 300000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "stale_leader_hint", "net_request_lost", "net_reply_lost", "net_reset_before", "net_reset_after", "net_connect_refused"],
        real=META_REAL, stub=META_STUB,
    ),
    "C24": dict(
        folly=True, thrift=True, harness=["meta.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_cache", 1000, 30000), ("meta_storm", 2500, 60000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "stale_leader_hint", "net_request_lost", "net_reply_lost"],
        real=META_REAL, stub=META_STUB,
    ),
    "C25": dict(
        folly=True, thrift=True, harness=["metalisten.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_listener", 1500, 40000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "net_request_lost", "net_reply_lost"],
        real=META_REAL, stub=META_STUB,
    ),
    "C26": dict(
        folly=True, thrift=True, harness=["metaleader.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_leader", 1500, 60000)],
        require_faults=["thread_stall", "time_skip"],
        real=META_REAL, stub=META_STUB,
    ),
    "C27": dict(
        folly=True, thrift=True, harness=["metaheart.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_heartbeat", 2000, 80000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "net_request_lost", "net_reply_lost", "thread_stall", "time_skip"],
        real=META_REAL + ["clients/meta/FileBasedClusterIdMan"], stub=META_STUB,
    ),
    "C28": dict(
        folly=True, thrift=True, harness=["metaconf.cpp"], shim_src=["simnet.cpp"], repo=META_SRC, libs=WORKER_LIBS,
        scenarios=[("meta_config", 1500, 60000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "net_request_lost", "net_reply_lost"],
        real=META_REAL + ["meta/GflagsManager", "conf/Configuration", "gflags"], stub=META_STUB,
    ),
    "C29": dict(
        folly=True, thrift=True, harness=["storagecli.cpp"], shim_src=["simnet.cpp"], repo=META_SRC + STORAGE_SRC, libs=WORKER_LIBS,
        scenarios=[("storage_fanout", 3000, 100000)],
        require_faults=["storage_crash", "storage_partition", "storage_bounce", "storage_error", "stale_hint", "net_request_lost", "net_reply_lost", "net_connect_refused"],
        real=STORAGE_REAL, stub=STORAGE_STUB,
    ),
    "C30": dict(
        folly=True, thrift=True, harness=["storagelead.cpp"], shim_src=["simnet.cpp"], repo=META_SRC + STORAGE_SRC, libs=WORKER_LIBS,
        scenarios=[("storage_leader", 1500, 60000)],
        require_faults=["storage_crash", "storage_partition", "storage_bounce", "storage_error", "stale_hint", "no_hint", "net_request_lost", "net_reply_lost", "net_connect_refused"],
        real=STORAGE_REAL, stub=STORAGE_STUB,
    ),
    "C31": dict(
        folly=True, thrift=True, harness=["storageint.cpp"], shim_src=["simnet.cpp"], repo=META_SRC + STORAGE_SRC, libs=WORKER_LIBS,
        scenarios=[("storage_internal", 2000, 80000)],
        require_faults=["storage_crash", "storage_partition", "storage_bounce", "storage_error", "stale_hint", "no_hint", "net_request_lost", "net_reply_lost", "net_connect_refused"],
        real=STORAGE_REAL, stub=STORAGE_STUB,
    ),
    "C32": dict(
        folly=True, thrift=True, harness=["web.cpp"], shim_src=["simnet.cpp"], repo=WEB_SRC, libs=WORKER_LIBS,
        scenarios=[("web_service", 6000, 200000)],
        require_faults=["bind_fail", "connection_lost", "spurious_wakeup", "thread_stall"],
        real=["webservice (service, router and handlers)", "stats/StatsManager", "gflags"], stub=["proxygen server and clients (simulated)"] + FOLLY_STUB + ["thread scheduling and clocks (simulator)"],
    ),
    "C33": dict(
        folly=True, thrift=True, harness=["stats.cpp"], shim_src=["simnet.cpp"], repo=["stats/StatsManager.cpp", "thread/NamedThread.cpp", "base/Status.cpp"] + DATA, libs=WORKER_LIBS,
        scenarios=[("stats_windows", 6000, 200000)],
        require_faults=["wall_clock_step", "thread_stall", "time_skip"],
        real=["stats/StatsManager", "time/WallClock, TscHelper"], stub=["folly time series and histograms"] + FOLLY_STUB + ["thread scheduling and clocks (simulator)"],
    ),
    "C34": dict(
        folly=True, harness=["conf.cpp"], repo=["conf/Configuration.cpp", "base/Status.cpp"],
        scenarios=[("configuration", 8000, 300000)],
        require_faults=["open_fail", "read_fail", "short_read"],
        real=["conf/Configuration", "base/Status"], stub=["file system (simulator)", "folly dynamic and JSON (interface-compatible stand-in)", "thread scheduling (simulator)"],
    ),
    "C35": dict(
        folly=True, harness=["fulltext.cpp"], sim=["proc.cpp"],
        repo=["plugin/fulltext/elasticsearch/ESGraphAdapter.cpp", "plugin/fulltext/elasticsearch/ESStorageAdapter.cpp", "encryption/MD5Utils.cpp", "encryption/Base64.cpp", "base/Status.cpp", "base/Cord.cpp", "fs/FileUtils.cpp", "process/ProcessUtils.cpp", "datatypes/HostAddr.cpp"],
        scenarios=[("fulltext", 6000, 200000)],
        require_faults=["popen_fail", "pclose_fail", "read_fail", "short_read", "curl_before", "curl_after", "es_busy", "es_item_error"],
        real=["plugin/fulltext", "encryption", "process/ProcessUtils", "base/Cord"], stub=["the shell's reading of a command line", "curl", "Elasticsearch (simulated)", "folly JSON"] + FOLLY_STUB + ["thread scheduling (simulator)"],
    ),
    "C36": dict(
        folly=True, thrift=True, harness=["commands.cpp"], sim=["proc.cpp"], shim_src=["simnet.cpp"], repo=META_SRC + ["hdfs/HdfsCommandHelper.cpp"], libs=WORKER_LIBS,
        scenarios=[("commands", 4000, 150000), ("dispatch", 2500, 90000)],
        require_faults=["popen_fail", "pclose_fail", "read_fail", "short_read", "command_fails", "curl_before", "curl_after", "job_refused", "leader_change"],
        real=["http/HttpClient", "hdfs/HdfsCommandHelper", "process/ProcessUtils"] + META_REAL, stub=["the shell's reading of a command line", "curl, hdfs and metad's HTTP service (simulated)", "folly JSON"] + META_STUB,
    ),
    "C37": dict(
        folly=True, harness=["network.cpp"], sim=["proc.cpp"],
        repo=["network/NetworkUtils.cpp", "fs/FileUtils.cpp", "base/Status.cpp", "datatypes/HostAddr.cpp"],
        scenarios=[("network_utils", 2500, 100000)],
        require_faults=["getifaddrs_fail", "gethostname_fail", "dns_fail", "popen_fail", "pclose_fail", "read_fail", "short_read", "open_fail", "stat_fail", "command_fails"],
        real=["network/NetworkUtils", "fs/FileUtils", "glibc and libstdc++ streams"], stub=["devices, resolver, host name, socket tables and commands (simulated)", "failing system calls", "thread scheduling (simulator)"] + FOLLY_STUB,
    ),
    "C38": dict(
        folly=True, harness=["tempdir.cpp"], repo=["fs/TempDir.cpp", "fs/FileUtils.cpp", "base/Status.cpp"],
        scenarios=[("tempdir", 8000, 300000)],
        require_faults=["mkstemp_fail", "unlink_fail", "rmdir_fail", "stat_fail", "opendir_fail", "readdir_fail"],
        real=["fs/TempDir", "fs/FileUtils", "kernel file system in a scratch directory"], stub=["choice of names", "failing system calls", "thread scheduling (simulator)"],
    ),
    "C39": dict(
        folly=True, thrift=True, harness=["managers.cpp"], shim_src=["simnet.cpp"], repo=META_SRC + ["meta/ServerBasedSchemaManager.cpp", "meta/ServerBasedIndexManager.cpp", "meta/SchemaManager.cpp", "meta/IndexManager.cpp"], libs=WORKER_LIBS,
        scenarios=[("meta_managers", 500, 20000)],
        require_faults=["server_crash", "net_partition", "leader_change", "no_leader", "net_request_lost", "net_reply_lost"],
        real=META_REAL + ["meta/ServerBasedSchemaManager", "meta/ServerBasedIndexManager", "meta/SchemaManager"], stub=META_STUB,
    ),
    "C40": dict(
        folly=True, harness=["statusor.cpp"], repo=["base/Status.cpp"],
        scenarios=[("status", 15000, 300000), ("status_or", 30000, 800000)],
        require_faults=["alloc_fail"],
        real=["base/Status", "base/StatusOr"], stub=["allocator (checked arena, injected failures)"],
    ),
    "C41": dict(
        folly=True, thrift=True, harness=["timeutils.cpp"], repo=["time/TimeUtils.cpp", "time/TimezoneInfo.cpp", "base/Status.cpp"] + DATA,
        scenarios=[("present", 12000, 300000), ("calendar", 8000, 300000)],
        require_faults=["open_fail", "read_fail", "thread_stall", "time_skip"],
        real=["time/TimeUtils", "time/TimezoneInfo", "time/TimeConversion", "time/WallClock", "datatypes/Date", "boost date_time"], stub=["clocks and time-stamp counter", "file system", "thread scheduling (simulator)"],
    ),
    "C42": dict(
        folly=True, thrift=True, harness=["wire.cpp"], repo=["graph/Response.cpp", "base/Status.cpp"] + DATA,
        scenarios=[("wire", 8000, 300000)],
        require_faults=["message_cut", "message_damaged", "older_peer", "newer_peer", "alloc_fail"],
        real=["datatypes/*Ops.inl", "graph/*Ops.inl", "datatypes", "graph/Response"], stub=["Thrift's compact, binary and named protocols (stand-in)", "peers that speak by the interface files (simulated)", "the link between the nodes (simulated)", "allocator (checked arena, injected failures)"],
    ),
    "C43": dict(
        folly=True, thrift=True, harness=["express.cpp"], repo=["expression/%s.cpp" % x for x in ("AggregateExpression", "ArithmeticExpression", "AttributeExpression", "BinaryExpression", "CaseExpression", "ColumnExpression", "ConstantExpression", "ContainerExpression", "EdgeExpression", "Expression", "FunctionCallExpression", "LabelAttributeExpression", "LabelExpression", "ListComprehensionExpression", "LogicalExpression", "PathBuildExpression", "PredicateExpression", "PropertyExpression", "ReduceExpression", "RelationalExpression", "SubscriptExpression", "TextSearchExpression", "TypeCastingExpression", "UUIDExpression", "UnaryExpression", "VariableExpression", "VertexExpression")] + ["function/FunctionManager.cpp", "function/AggFunctionManager.cpp", "time/TimeUtils.cpp", "time/TimezoneInfo.cpp", "base/Base.cpp", "base/Status.cpp"] + DATA,
        scenarios=[("ship", 12000, 400000), ("groups", 6000, 150000)],
        require_faults=["node_restart", "delivered_again", "alloc_fail"],
        real=["expression/*", "function/FunctionManager, AggFunctionManager", "datatypes", "base/ObjectPool"], stub=["Thrift's compact protocol (stand-in)", "expression context over simulated rows", "storage nodes and deliveries (simulated)", "allocator (checked arena, injected failures)"],
    ),
    "C44": dict(
        folly=True, thrift=True, harness=["functions.cpp"], repo=["function/FunctionManager.cpp", "time/TimeUtils.cpp", "time/TimezoneInfo.cpp", "base/Base.cpp", "base/Status.cpp"] + DATA,
        scenarios=[("functions", 50000, 1500000)],
        require_faults=["alloc_fail", "time_skip"],
        real=["function/FunctionManager", "time/*", "datatypes"], stub=["clocks, time stamp counter and random numbers (simulator)", "thread scheduling (simulator)"],
    ),
    "C45": dict(
        folly=True, thrift=True, harness=["values.cpp"], repo=["base/Base.cpp", "base/Status.cpp"] + DATA,
        scenarios=[("values", 30000, 1000000), ("paths", 8000, 200000), ("pieces", 9000, 300000)],
        require_faults=["alloc_fail"],
        real=["datatypes/*"], stub=["memory allocation (failures)", "thread scheduling (simulator)"],
    ),
    "C48": dict(
        folly=True, thrift=True, harness=["metaschema.cpp"], shim_src=["simnet.cpp"], repo=sorted(set(META_SRC + EXPR_SRC)), libs=WORKER_LIBS,
        scenarios=[("meta_schemas", 3000, 80000)],
        require_faults=["server_crash", "net_partition", "leader_change", "net_request_lost", "net_reply_lost"],
        real=META_REAL + ["expression/*"], stub=META_STUB,
    ),
}
