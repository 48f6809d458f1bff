"""The properties, as data (see gen.py)."""

B = "mplang/backends/"
W = B + "simp_worker/"
D = B + "simp_driver/"


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


PROPS = [
    P("C01", "Party-to-party messages arrive exactly once, unmixed and intact",
      "A value sent from one party to another under a key is returned by exactly one receive "
      "for that sender and key, equal in value and type to what was sent, whatever other keys, "
      "senders, payload kinds, concurrent threads or network faults are around, and never "
      "before it was sent. A send reported successful is never lost; a send that fails, or is "
      "repeated by the network, leads to at most one delivery of that same message; a second "
      "message under a key whose first is still unread is refused, never silently replacing it, "
      "on the in-memory and the HTTP transport alike.",
      ["schedules", "fault_sequences", "inputs", "histories"],
      "For every set of parties, keys (also prefix-related, odd or reused after consumption), "
      "payloads, sender and receiver threads, delivery order, delay, refused connection, lost "
      "response, proxy error and retransmission of an unread message.",
      "Unit tests send a few messages in one order on one thread with a healthy network; the "
      "property quantifies over interleavings of mailbox access and over network faults.",
      [W + "base.py", W + "mem.py", W + "http.py", "mplang/edsl/serde.py"],
      [("mailbox with per-key delivery", W + "mem.py:ThreadCommunicator"),
       ("HTTP communicator and /comm route", W + "http.py:HttpCommunicator, register_routes")],
      ["communicator send/recv return values", "POST /comm/{key}"]),
    P("C02", "Receive and send time limits fire exactly when they should",
      "A receive with an effective time limit (its own, or the configured default) raises a "
      "timeout error naming sender, key and limit if and only if no message arrived within that "
      "limit, close to the moment the limit expires, and returns promptly once a message is "
      "there; with no limit it waits for ever. A message that arrives after a receive timed out "
      "is kept and handed to the next receive exactly once, and statistics count each timeout "
      "once. A synchronous send over HTTP returns once delivered, or raises a send timeout after "
      "its limit; wall-clock jumps change none of this.",
      ["schedules", "fault_sequences", "configurations"],
      "For every explicit, default or absent limit, arrival time before, around and after the "
      "deadline, link latency, partition, wall-clock jump and number of concurrent receivers.",
      "Tests wait a few hundred real milliseconds for one expired and one satisfied receive; "
      "races of arrival against expiry and clock jumps need a controlled clock.",
      [W + "http.py", W + "base.py"],
      [("condition wait with monotonic deadline", W + "http.py:HttpCommunicator.recv"),
       ("send_sync timeout mapping", W + "http.py:HttpCommunicator.send_sync")],
      ["exceptions and return times of recv/send_sync", "communicator statistics"]),
    P("C03", "Request handles, batch waits and statistics tell the truth",
      "A handle for a non-blocking operation reports completion, result, error or cancellation "
      "if and only if that is what happened to the operation: a wait returns its result or "
      "raises its error and never earlier than its end, a wait limit expires exactly when "
      "the operation did not finish in time, a terminal status never changes, and a cancellation "
      "that reports success means the operation never takes effect. Waiting for all, waiting for "
      "any and testing batches agree with the individual handles, in order, and message "
      "statistics equal what was really sent, received and failed, in every interleaving.",
      ["schedules", "histories", "fault_sequences"],
      "For every set of operations that complete, fail or are cancelled at any time, every set "
      "of concurrent observers, every limit, and real HTTP sends with queueing and faults.",
      "Tests observe already-finished or never-finishing futures from one thread.",
      [W + "base.py", W + "http.py"],
      [("Request/SendRequest state", W + "base.py:Request"),
       ("batch operations", W + "base.py:wait_all, wait_any, testall, testany"),
       ("send statistics", W + "http.py:CommStats")],
      ["Request.status/done/wait/test/cancel", "communicator statistics"]),
    P("C04", "Shutdown wakes every waiter and drains accepted work",
      "After a mesh, communicator or worker is shut down, every receive still waiting for a "
      "message that will not come ends with an error instead of hanging, a message delivered "
      "before is either received intact or reported as shut down, and sends and jobs accepted "
      "before the shutdown complete rather than being dropped. Waiting for pending sends returns "
      "only after every send accepted before the call has finished, and shutdown itself always "
      "terminates.",
      ["schedules", "fault_sequences", "crash_points"],
      "For every instant at which shutdown is called relative to blocked receives, in-flight "
      "deliveries, queued sends and running jobs, with slow and failing links.",
      "Tests shut down idle objects; the guarantee is about shutdown racing work in progress.",
      [W + "mem.py", W + "http.py"],
      [("mailbox shutdown flag and notify", W + "mem.py:ThreadCommunicator.shutdown"),
       ("pending send drain", W + "http.py:HttpCommunicator.wait_pending_sends, shutdown"),
       ("worker lifespan", W + "http.py:create_worker_app")],
      ["recv/send outcomes", "worker process exit"]),
    P("C05", "Collectives give every participant the mathematically right result",
      "Barrier, all-gather, broadcast, and/or/xor reduction and uniformity agreement over any "
      "subgroup give every participant the result defined by the participants' inputs (gathered "
      "values in rank order), independent of timing and of the order or repetition in which "
      "members are listed. No participant leaves a barrier, or obtains a result that depends on "
      "every input, before all participants entered; a value agreement over differing "
      "inputs fails on every participant; and a non-member's call is refused.",
      ["schedules", "programs", "inputs"],
      "For every sequence of collectives and point-to-point exchanges over every subgroup of up "
      "to five parties, member listing, values, and arrival order.",
      "Tests run each collective once or twice on two or three threads; overlapping sequences "
      "over differing subgroups with adversarial arrival order are never exercised.",
      [W + "collectives.py", W + "comm_context.py", W + "base.py"],
      [("collective algorithms", W), ("per-conversation message numbering",
                                      W + "comm_context.py")],
      ["collective return values on each party"]),
    P("C06", "Conversations on shared connections never receive each other's messages",
      "Conversations with different names, and children derived from a conversation, can be used "
      "at the same time by several threads over the same connections, and every receive returns "
      "the message the peer sent at the same place of the same conversation - never one from "
      "another conversation, child, peer or position. Two children derived one after the other "
      "are distinct even if given the same label, and a party addresses the same child as its "
      "peer as long as both derive them in the same order.",
      ["schedules", "programs", "configurations"],
      "For every tree of derived conversations, look-alike names (other than a child's), number of threads, mixture of "
      "asynchronous, synchronous and raw sends, and delivery order.",
      "Tests check the produced key strings of a few contexts, not concurrent traffic.",
      [W + "comm_context.py", W + "mem.py", W + "http.py"],
      [("namespaced per-peer sequence numbers", W + "comm_context.py:CommContext"),
       ("spawned child identities", W + "comm_context.py:CommContext.spawn")],
      ["recv return values"]),
    P("C07", "In-process multi-party programs compute what the language says",
      "A multi-party program - local computation on a subset of parties, data moved between "
      "parties, values converged from disjoint parties, conditionals and loops driven by a "
      "uniform or dynamic predicate - run on an in-process cluster gives, on each party, exactly "
      "the value the language semantics assigns, and no value on parties outside the result's "
      "party set. It always terminates, every local computation runs exactly once per party and "
      "loop iteration, and no party sees a value it does not hold, under every thread schedule; "
      "running eagerly, operation by operation or as one whole program makes no difference.",
      ["programs", "schedules", "inputs"],
      "For every program over these constructs (nested, up to four parties, including cyclic "
      "data movement and missing dynamic inputs) and every thread interleaving.",
      "Tests run a few dozen fixed programs under whatever schedule the machine happens to give.",
      [W + "ops.py", W + "mem.py", D + "mem.py", D + "ops.py", D + "values.py",
       "mplang/dialects/simp.py", "mplang/edsl/tracer.py", "mplang/runtime/interpreter.py"],
      [("worker-side primitive handlers", W + "ops.py"),
       ("driver dispatch and collect", D + "ops.py, " + D + "mem.py"),
       ("graph evaluation", "mplang/runtime/interpreter.py:Interpreter.evaluate_graph")],
      ["fetched values per party", "local computations executed per party"]),
    P("C08", "The same program gives the same result over HTTP, whatever the timing",
      "A multi-party program evaluated by a driver on worker processes reached over HTTP gives "
      "the same values on the same parties as the language semantics assigns (and hence as the "
      "in-process cluster), whether evaluated eagerly, per operation or shipped as one whole "
      "program, and whether results are fetched one by one or gathered. As long as no message "
      "is lost for good, delays, slow computations longer than a request time limit of the "
      "transport, and scheduling change neither the values nor the fact that it terminates.",
      ["programs", "schedules", "configurations"],
      "For every program over the multi-party constructs, one to four workers, network delays "
      "and slow computations, and any start order of the parties' jobs.",
      "HTTP tests run a few programs on localhost with near-zero latency.",
      [D + "http.py", D + "ops.py", W + "http.py", W + "ops.py", W + "request.py",
       W + "comm_context.py"],
      [("driver submission", D + "http.py:SimpHttpDriver"),
       ("job execution", W + "request.py, " + W + "http.py:register_routes")],
      ["fetched values per party"]),
    P("C09", "A failure surfaces as an error, never as a wrong result, hang or lost cluster",
      "If a computation raises on some party, parties disagree on a predicate that must be "
      "uniform, messages are lost, duplicated or time out, or a worker crashes and restarts "
      "while a program runs, the client gets either the right result or an error in bounded "
      "time - never a wrong value and never success although a computation it depends on "
      "failed. A failing computation always makes the client's call fail; nothing is executed "
      "a second time because an answer was lost; and once faults stop the same cluster runs "
      "further programs correctly.",
      ["fault_sequences", "crash_points", "schedules", "programs"],
      "For every program, failing computation and party, network fault sequence and worker crash "
      "point, followed by a fault-free program on the same cluster.",
      "Tests have no fault injection: one test checks that an exception propagates.",
      [D + "mem.py", D + "http.py", D + "ops.py", W + "http.py", W + "mem.py", W + "ops.py"],
      [("collect cancels and shuts down", D + "mem.py:collect"),
       ("per-dispatch job identity", D + "ops.py"),
       ("predicate agreement", W + "ops.py:uniform_cond"),
       ("HTTP error mapping", W + "http.py, " + D + "http.py")],
      ["client-visible result or error", "a following program's result"]),
    P("C10", "Jobs running at the same time on one cluster do not affect each other",
      "Several programs evaluated at the same time on one in-process or HTTP cluster - by "
      "several client threads or drivers, from the same or different program graphs, per "
      "operation or whole - each give the result they give alone, and all of them terminate. "
      "The same holds for programs on several clusters that live in one process, also after "
      "one of the clusters is closed. A failure of one job does not make an unrelated job on an HTTP cluster fail, hang or "
      "return something else.",
      ["schedules", "programs", "fault_sequences"],
      "For up to five simultaneous jobs of every kind, every interleaving of their operations "
      "and messages, and a failing neighbour.",
      "Tests run one job at a time.",
      [D + "mem.py", D + "http.py", D + "ops.py", W + "http.py", W + "mem.py",
       W + "comm_context.py", "mplang/runtime/interpreter.py", "mplang/runtime/object_store.py"],
      [("job namespaces", D + "ops.py, " + W + "comm_context.py"),
       ("job thread pools", W + "base.py:MAX_CONCURRENT_JOBS")],
      ["fetched values of each job"]),
    P("C11", "Asynchronous jobs run exactly once and report their true, complete state",
      "A job a worker accepts for asynchronous execution runs exactly once, and its polled status "
      "only moves forward - pending, running, then success or failed - with a success always "
      "accompanied by the job's result and a failure by its error, and stays available and "
      "answerable while other jobs run. A submission under the id of a job that is still pending "
      "or running, one without an id, or a malformed one is refused without any effect on that "
      "job or any other; an unknown id is reported as unknown. However jobs end, an idle worker "
      "accepts and completes new ones.",
      ["schedules", "fault_sequences", "histories"],
      "For every set of submissions (valid, repeated, resubmitted, malformed, failing, slow), "
      "every number of concurrent clients and pollers, and every network delay or lost response.",
      "No test drives the asynchronous execution routes concurrently; the guarantee is about what "
      "a poller can observe between two writes of another thread.",
      [W + "http.py", W + "base.py", W + "request.py"],
      [("asynchronous job table", W + "http.py:AsyncTaskState, _do_execute_async"),
       ("routes", W + "http.py:register_routes")],
      ["POST /exec/async, GET /exec/{id}/status", "side effects of the job"]),
    P("C12", "A value leaves its party only by a movement the program asks for",
      "Everything one worker sends another is accounted for by the program: a value the program "
      "explicitly moves from that party to that party, or the truth value of a predicate the "
      "parties must agree on - no other intermediate value is ever put on the wire, to any party. "
      "Between client and workers only programs, constants written in the program and handles "
      "travel: the value of a computation reaches the client only when the client fetches it.",
      ["programs", "schedules", "fault_sequences"],
      "For every program over the multi-party constructs on one to four HTTP workers, executed "
      "eagerly, per operation or whole, under every schedule and network delay.",
      "Tests look at results, never at what crossed the network on the way.",
      [W + "ops.py", W + "http.py", W + "request.py", D + "ops.py", D + "http.py"],
      [("handles instead of values", D + "values.py, " + W + "request.py"),
       ("data movement", W + "ops.py:shuffle, converge")],
      ["all bytes on the simulated wire"]),
    P("C13", "A program's result does not depend on how its operations are scheduled",
      "Evaluating an operation graph gives the same results whether operations run one after "
      "another or in the background on a thread pool of any size, alone or together with other "
      "evaluations on the same interpreter, with execution tracing on or off: every operation "
      "runs exactly once, after all of its inputs exist and on exactly those values, and the "
      "evaluation ends; so too when several parties evaluate the same graph and background "
      "operations exchange messages, whatever order each party finishes operations in. If an operation fails, the caller gets that operation's error, nothing "
      "that needs its result runs, and a later evaluation is unaffected.",
      ["schedules", "programs", "histories"],
      "For every graph shape (shared and repeated inputs, several or no results, unused values, "
      "nested regions, branches, loops), every choice of background operations and their "
      "durations, every pool size, and every set of simultaneous or failing evaluations.",
      "Completion order of background operations is up to the thread scheduler; tests see a few "
      "small graphs and whatever order the machine happens to produce.",
      ["mplang/runtime/interpreter.py", "mplang/edsl/graph.py"],
      [("dataflow scheduling", "mplang/runtime/interpreter.py:_evaluate_graph_async"),
       ("sequential evaluation", "mplang/runtime/interpreter.py:_evaluate_graph_sync"),
       ("tracing", "mplang/runtime/interpreter.py:ExecutionTracer")],
      ["results of evaluate_graph", "executions of each operation"]),
    P("C14", "Checkpoints survive crashes whole, and stay inside their party's storage",
      "A value saved under a name on a party is, once the save has returned, what every later "
      "load of that name on that party gives until the name is saved again or deleted - also "
      "after workers crash and restart, or the machine loses power. A crash, disk error or "
      "unstorable value during a save leaves the previous or the new value, never a torn one, "
      "and a load running at the same time sees one of the two. Listings agree with what can be "
      "loaded. Saving or loading a multi-party value acts on exactly the parties holding it; "
      "parties and clusters never see each other's objects; and a name leading outside the "
      "party's storage is refused without effect.",
      ["crash_points", "fault_sequences", "histories", "schedules"],
      "For every history of saves, loads, deletions and listings by concurrent programs on "
      "several parties, every system call at which a worker crashes or the disk fails, every "
      "subset of unsynced writes lost at a power failure, and every hostile name.",
      "Tests save and load on a healthy disk; none crashes between two system calls of a save.",
      ["mplang/runtime/object_store.py", "mplang/backends/store_impl.py", D + "ops.py",
       W + "http.py", W + "mem.py"],
      [("file-backed objects", "mplang/runtime/object_store.py:FileSystemBackend"),
       ("store.save / store.load", "mplang/backends/store_impl.py"),
       ("program-level save and load", D + "ops.py")],
      ["loaded values", "listings", "files on the simulated disk"]),
    P("C15", "Table files: every party reads its own, and writes all of a table or nothing",
      "Reading a table file on a party gives the rows of that party's file - the declared columns "
      "in the declared order and types, by a read or a query alike - also when other "
      "parties or jobs use the same names at the same time, share the process and working "
      "directory, and when the rows are read lazily, later. Writing a table, or several of "
      "equally many rows side by side, gives a complete "
      "file with exactly those rows, or fails leaving existing files as they were; an existing "
      "file of the party's storage with other content is refused, never overwritten - not even by two writers at the "
      "same time - and rewriting the same rows is fine. After a crash or disk error during a "
      "write the file is absent or complete. Tables of different lengths are refused. A relative path leading outside the party's storage "
      "is refused without effect.",
      ["schedules", "crash_points", "fault_sequences", "programs"],
      "For every set of table programs on up to three parties sharing names, formats and process, "
      "every interleaving of their file operations, and every crash or failing system call.",
      "Tests read and write one table at a time in one party's directory.",
      ["mplang/backends/table_impl.py", "mplang/runtime/object_store.py"],
      [("table read/write", "mplang/backends/table_impl.py:read_impl, write_impl"),
       ("file staging", "mplang/runtime/object_store.py:FileSystemBackend.download, upload")],
      ["rows read", "files on the simulated disk"]),
    P("C16", "Keeping compiled programs never changes or prevents a computation",
      "The result of a JAX computation is the one its own program and inputs define, whether its "
      "compiled form is built afresh, found in memory, or loaded from a party's data directory - "
      "also when several jobs, parties or processes compile at once or share that directory, when "
      "earlier runs with other programs left files there, and after crashes and power failures "
      "while such a file is written. A kept file that is lost, cut short or foreign, and a disk "
      "that is full or failing, cost time at most: the computation still succeeds.",
      ["programs", "crash_points", "fault_sequences", "schedules"],
      "For every set of look-alike programs, every interleaving of processes and jobs sharing a "
      "data directory, and every disk operation at which a process crashes or the disk fails.",
      "Tests compile each program in a fresh directory on a healthy disk.",
      ["mplang/backends/tensor_impl.py"],
      [("compiled-program cache", "mplang/backends/tensor_impl.py:_run_jax_with_xla")],
      ["computed values", "errors raised"]),
    P("C17", "Device programs give the plain result; values cross in the clear only if asked",
      "A program written against devices (plain devices, secure groups of two or more parties, "
      "enclaves) gives for every value what the same computation on plain arrays gives, held by "
      "the device it was placed on - for explicit, inferred and automatic placement and transfer, "
      "secure groups of the same size, sharing parties or listing members in any order, programs run "
      "eagerly or compiled, several at once on the same parties, on both transports and with slow or "
      "stalled threads and network. A placement that cannot be inferred is refused. The content of "
      "a value reaches a party as plain data only by a move from one plain device to another or to a "
      "device of that party; to and from enclaves it travels encrypted, to and from secure groups as "
      "shares. (Excluded: workers restarted under a live driver context, native SPU links, tracing "
      "from several threads at once.)",
      ["programs", "schedules", "fault_sequences"],
      "For every device program and cluster layout, and every interleaving of concurrent programs.",
      "Tests run single programs on one layout, and none that need the SPU package without it.",
      ["mplang/libs/device/api.py", "mplang/libs/device/cluster.py", "mplang/backends/spu_state.py",
       "mplang/backends/spu_impl.py", "mplang/backends/channel.py", "mplang/backends/tee_impl.py",
       "mplang/backends/crypto_impl.py", W + "infra.py", W + "request.py"],
      [("device API", "mplang/libs/device/api.py:put, device, _transfer*"),
       ("secure group set-up", "mplang/backends/spu_state.py"),
       ("enclave sessions", "mplang/libs/device/api.py:_ensure_tee_session")],
      ["fetched values", "placement attributes", "messages between parties"]),
    P("C18", "Two-party protocols give exactly their result and hide the inputs",
      "Oblivious transfer and its extension, secure switch and permutation, private set intersection "
      "(both protocols), oblivious group-by sums, oblivious pseudo-random functions and vector OLE "
      "give the party entitled to the result exactly what their function defines, and nothing to "
      "any other party - for every input the types allow, every size, any parties of the cluster "
      "in the roles, several at once, run eagerly or compiled, on both transports and under every "
      "schedule. Only the parties named exchange messages; a party's private inputs never travel in "
      "the clear, and what a party is sent, draws and computes neither contains nor combines into one it is "
      "not entitled to; random points, masks and keys are fresh for every element and execution; "
      "and the receiver of a transfer can open only the messages it chose. (Semi-honest "
      "parties; probabilistic failures of negligible probability and documented leakage excluded.)",
      ["inputs", "programs", "schedules"],
      "For every input, every assignment of roles, every draw of the parties' randomness and schedule.",
      "Tests run single local steps of the protocols on a fixed input in one interpreter.",
      ["mplang/libs/mpc/ot/base.py", "mplang/libs/mpc/ot/extension.py", "mplang/libs/mpc/ot/silent.py",
       "mplang/libs/mpc/analytics/permutation.py", "mplang/libs/mpc/analytics/groupby.py",
       "mplang/libs/mpc/analytics/aggregation.py", "mplang/libs/mpc/psi/rr22.py",
       "mplang/libs/mpc/psi/unbalanced.py", "mplang/libs/mpc/psi/oprf.py",
       "mplang/libs/mpc/vole/gilboa.py", "mplang/backends/crypto_impl.py",
       "mplang/backends/field_impl.py", "mplang/backends/bfv_impl.py", "mplang/kernels/py_kernels.py",
       "mplang/backends/tensor_impl.py"],
      [("oblivious transfer", "mplang/libs/mpc/ot/base.py:transfer"),
       ("set intersection", "mplang/libs/mpc/psi/unbalanced.py, rr22.py"),
       ("element-wise execution", "mplang/backends/tensor_impl.py:elementwise_impl")],
      ["fetched values", "messages between parties", "random numbers drawn"]),
    P("C19", "Compiled and packed programs stand for their source",
      "A multi-party program cut into functions gives, whichever of them are called directly, "
      "compiled first or packed and unpacked, the values of the program run as written - also when "
      "a compiled function is called again with other inputs of the same types in other places "
      "(positional, keyword, nested, captured), and on both transports under every schedule. "
      "Arguments of another structure, or with other constants than it was compiled for, are "
      "refused, as is a cluster with too few parties. A packed program unpacks to one with the same "
      "meaning, digest, signature and parties. A program file written through crashes, power "
      "failures and disk errors, with other processes reading, loads as the old or the new program "
      "or is refused, never as another one; so with an artifact altered by accident. (Excluded: "
      "artifacts forged on purpose, tracing from several threads.)",
      ["programs", "inputs", "crash_points", "fault_sequences"],
      "For every program, way of cutting it and arrangement of inputs; every crash point and damage.",
      "Tests pack and unpack a few fixed programs in memory and compare some of their fields.",
      ["mplang/edsl/tracer.py", "mplang/edsl/program.py", "mplang/tool/program.py",
       "mplang/edsl/serde.py", "mplang/edsl/graph.py", "mplang/__init__.py"],
      [("arguments to graph inputs", "mplang/edsl/tracer.py:TracedFunction.prepare_inputs"),
       ("artifacts", "mplang/tool/program.py:pack, unpack"),
       ("evaluation", "mplang/__init__.py:evaluate")],
      ["fetched values", "errors raised", "digests and signatures"]),
    P("C20", "The command-line tools drive and report the cluster truthfully",
      "Workers started with up or worker from a generated or written config, an endpoint list or "
      "port options listen where it says and reach each other (HTTP and SPU links) with the right "
      "ranks. run calls the entry once with its arguments on exactly those workers, gives the result "
      "sim gives, and exits non-zero when the job or entry fails. status says a worker is OK iff it "
      "answered well within its limit; objects lists what each worker holds; both in time "
      "whatever the workers do. up, told to stop at any moment, ends and leaves no worker behind, "
      "and a new up can take its place. trace merge keeps every event of the readable files with "
      "parties apart and names unreadable ones. (Excluded: several jobs over real SPU links at once, "
      "stopping up while jobs wait for each other.)",
      ["schedules", "fault_sequences", "inputs", "histories"],
      "For every cluster description, job, instant of a signal or crash, and state of the workers.",
      "There are no tests of the command line: it needs processes, signals, ports and clusters.",
      ["mplang/cli.py", "mplang/libs/device/cluster.py", "mplang/backends/simp_worker/http.py",
       "mplang/backends/spu_impl.py", "mplang/runtime/interpreter.py"],
      [("cluster description to addresses", "mplang/cli.py:build_endpoints"),
       ("workers' life", "mplang/cli.py:cmd_up, run_worker"),
       ("jobs and reports", "mplang/cli.py:cmd_run, cmd_status, cmd_objects, cmd_trace_merge")],
      ["printed lines", "exit codes", "listening workers", "files written"]),
]

NOT_APPLICABLE = {}
