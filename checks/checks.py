CHECKS = {
    "C01": {
        "technique": 'differential monitoring against a shadow matrix, under ASan/UBSan',
        "note": "Every block of small tensors and random histories on larger ones, across processes, are compared bit for bit with a shadow; assumes the compiler's sanitizers and the harness's shadow.",
        "runs": [{"harness": "c01", "flavor": "asan", "parts": "exhaustive,history"}, {"harness": "c01", "flavor": "plain", "parts": "huge,far,bigviews"},
                 {"harness": "c01", "flavor": "dbg", "parts": "exhaustive,history", "thorough_only": True}],
        "level": "exploration",
        "rule": "random histories and all blocks of all small tensors; a case is a distinct (type, layout, tensor shape, block, position, argument form, direction, endpoint kind) whose effect was compared bit for bit with a shadow matrix",
    },
    "C02": {
        "technique": 'controlled schedules and stress with a linearizability monitor',
        "note": 'Thread switches are forced at every OS call and inside copies of the real library; the monitor checks every read against the writes possible at that moment. Sampled schedules, not all.',
        "runs": [{"harness": "c02", "flavor": "plain"}],
        "level": "exploration",
        "rule": "controlled schedules of the real library (switches at every OS call and in the middle of copies), operations stopped mid-copy, and free-running stress; a case is a distinct schedule with at least one preemption, or a distinct value read under stress",
    },
    "C04": {
        "technique": 'lock-probe monitoring over histories and controlled schedules',
        "note": 'After each call of a random history over several processes the lock is probed; controlled schedules and counted increments check exclusion.',
        "runs": [{"harness": "c04", "flavor": "plain"}],
        "level": "exploration",
        "rule": "histories of lock-taking calls over several processes with a lock probe after each, controlled schedules with explicit holds, and counted increments under the lock; a case is a distinct history prefix or a distinct schedule with a preemption",
    },
    "C03": {
        "technique": 'sanitizers, guard pages and snapshots around refused operations',
        "note": 'Out-of-range and not-ready operations run with ASan/UBSan, with guard pages around the mappings the library makes, and snapshots of tensor, metadata, lock and destination.',
        "runs": [{"harness": "c03", "flavor": "asan"}, {"harness": "c03", "flavor": "dbg", "thorough_only": True}],
        "level": "exploration",
        "rule": "operations at boundary and extreme positions and extents, and on endpoints in every not-ready state, under address and undefined-behaviour sanitizers with guard pages around the library's mappings; a case is a distinct refused (shape, position, extent, form, direction, endpoint, state)",
    },
    "C05": {
        "technique": 'incumbent monitor over histories, controlled schedules and races of servers',
        "note": 'A reference client watches the incumbent during every challenge; schedules of competing servers are forced at OS-call granularity and races of processes run freely.',
        "runs": [{"harness": "c05", "flavor": "plain"}],
        "level": "exploration",
        "rule": "histories of challengers against a running server over three processes, controlled schedules of competing servers, and free races of processes; a case is a distinct history prefix, a distinct schedule with a preemption, or a race with winners and losers",
    },
    "C06": {
        "technique": 'controlled schedules and histories with a served-by monitor',
        "note": 'Every attach is checked against the set of servers that were running between its call and its return; sampled schedules.',
        "runs": [{"harness": "c06", "flavor": "plain"}],
        "level": "exploration",
        "rule": "controlled schedules of clients attaching while servers are constructed, closed and run, sequences of servers with waiting clients in other processes, and every pair of types and layouts; a case is a distinct schedule with a preemption, a distinct sequence prefix, or a pair",
    },
    "C07": {
        "technique": 'count monitor with exact and interval bounds',
        "note": 'Exact expected counts over histories in several processes; bounds under schedules and churn.',
        "runs": [{"harness": "c07", "flavor": "plain"}],
        "level": "exploration",
        "rule": "histories of attaches and detaches over several processes with an exact expected count, controlled schedules and free churn with interval bounds; a case is a distinct history prefix, a distinct schedule with a preemption, or a distinct (count, bounds) under churn",
    },
    "C08": {
        "technique": 'resource ledger over interposed OS calls, under ASan',
        "note": 'Every descriptor, mapping and semaphore is attributed to the object that acquired it; heap memory is not claimed.',
        "runs": [{"harness": "c08", "flavor": "asan"}],
        "level": "exploration",
        "rule": "random lifecycles of several objects of all kinds with every descriptor, mapping and semaphore attributed to the object that acquired it, bystanders' descriptors and mappings in between, and repeated cycles; a case is a distinct history prefix",
    },
    "C09": {
        "technique": "fault enumeration: a kill at every OS call and inside copies, then a monitored recovery",
        "note": "A victim process is killed before and after each OS call of its script, in the middle of copies and at single accesses to shared memory (mappings kept inaccessible, one instruction executed at a time); a forced restart in other processes is then monitored. The accesses are sampled; those to mutexes and condition variables are left out.",
        "runs": [{"harness": "c09", "flavor": "plain"}],
        "level": "fault_enumeration",
        "rule": "every OS call (semaphores, shared memory, mappings, mutexes, condition variables) of scripted lives of servers, clients, challengers, string tensors, producers and consumers, before and after it, plus sampled single accesses to shared memory, pages of copies, chains of crashes and waiting clients; a case is a distinct (script, point, element type, layout, names left behind)",
    },
    "C10": {
        "technique": "fault injection at every OS request, with leak ledger, incumbent monitor and retry",
        "note": "Every request for a shared-memory object, its size, its mapping or a semaphore made by each call is refused, once, from there on, and twice in a row, under ASan; exhaustive over the requests the current code makes in the scripted situations.",
        "runs": [{"harness": "c10", "flavor": "asan"}],
        "level": "fault_enumeration",
        "rule": "every OS request of constructing and starting servers, string servers and producers and of attaching clients, string clients and consumers, in each situation of the name; a case is a distinct (call, situation, request, refusal mode, element type, layout) in which a refusal happened",
    },
    "C11": {
        "technique": "differential monitoring against a model list, under ASan/UBSan with guard pages",
        "note": "Random histories over one server and three clients in two processes, every length and byte value, and whole-list stress; refused operations are checked with snapshots of all shared memory of the name.",
        "runs": [{"harness": "c11", "flavor": "asan", "parts": "history,exhaustive"}, {"harness": "c11", "flavor": "plain", "parts": "together"},
                 {"harness": "c11", "flavor": "dbg", "parts": "history"}],
        "level": "exploration",
        "rule": "random histories of writes, reads and refusals on string tensors, every length 0..1024 and byte value, and concurrent whole lists; a case is a distinct (operation, strings, position, endpoint)",
    },
    "C12": {
        "technique": "counting monitors over histories, controlled schedules and multi-process stress",
        "note": "Every wait and acknowledgement is judged against counts of triggers and acknowledgements begun and completed; condition variables are emulated in controlled schedules (lost wake-ups show as deadlocks, time-outs and spurious wake-ups are injected). Sampled schedules.",
        "runs": [{"harness": "c12", "flavor": "plain"}],
        "level": "exploration",
        "rule": "histories of a producer and consumers over three processes against counts, controlled schedules with injected time-outs and spurious wake-ups, free multi-process stress with delays, and a long life; a case is a distinct history prefix, a distinct schedule with a preemption, or a stress configuration",
    },
    "C13": {
        "technique": "exclusion and wake-up monitors over lives, controlled schedules, multi-process stress and measured time-outs",
        "note": "The holder, waiters and notifications are tracked under the lock; lost wake-ups show as deadlocks in controlled schedules (where the OS condition variable is emulated) or as hangs in free ones; lateness is judged on the least of several waits. Forced creation is exercised after the creator has died, not while it lives.",
        "runs": [{"harness": "c13", "flavor": "plain"}],
        "level": "exploration",
        "rule": "histories of creating, opening, closing and notifying over three processes, controlled schedules of waiters and notifiers with injected time-outs and spurious wake-ups, free stress, measured time-outs and crashes; a case is a distinct history prefix, a distinct schedule with a preemption, or a configuration",
    },
    "C14": {
        "technique": "runtime monitoring of the Python bindings with a NumPy reference model, memory canaries/guard pages and C++ peer endpoints",
        "note": "Every array lives in memory the harness owns, so all bytes around the addressed elements are compared; the tensor is compared through C++ endpoints after every call. The bindings themselves are not sanitizer-instrumented (the interpreter is not); strings are valid text only.",
        "runs": [{"py": "c14"}],
        "level": "exploration",
        "rule": "random histories over all element types and layouts; array kinds: contiguous, blocks, steps, reversed, planes, fields, packed fields, unaligned, broadcast, read-only, wrong types and shapes; a case is a distinct (type, layout, kind, operation, outcome, endpoint, lock state)",
    },
    "C15": {
        "technique": "runtime monitoring of the Python wrappers with a model of every local copy and of the shared tensor, observed through C++ peer endpoints",
        "note": "Local copies and the shared tensor are compared byte for byte after every call; retries run against a process which keeps taking the lock. torch is replaced by a stand-in (it is not installed), so the GPU code is exercised but no real device is.",
        "runs": [{"py": "c15"}],
        "level": "exploration",
        "rule": "random histories of a server and clients with a mirror each (all types, shapes), retrying calls under lock contention, versions across processes, dictionaries with clients in other processes started before or after the server, clients which come back on servers of other sizes and structure; a case is a distinct (type, shape, operation, block, side, lock state, outcome)",
    },
    "C16": {
        "technique": "allocation and wait monitors around every operation (interposed heap and OS calls, system-call filter, times)",
        "note": "Every heap call of the process, every OS call that can wait and, in a child, every system call that waits or allocates is observed while an operation runs; the library is compiled with -O2 by the check. Numeric tensors only.",
        "runs": [{"harness": "c16", "flavor": "plain", "more": []}],
        "level": "exploration",
        "rule": "every element type, layout, argument form, direction, endpoint and outcome (successful, refused for range, refused for the lock, not ready) over several tensor and block sizes, and operations under contention; a case is a distinct combination observed",
    },
    "C17": {
        "technique": "footprint monitor of the OS object names used, and models of many neighbouring names compared while others act, close and crash",
        "note": "Names are drawn from clusters which differ in little. Seven overlaps of the naming scheme are recorded as known findings; names related in exactly those ways (same concatenation, or one being another plus a reserved suffix) are only tried in the recorded form.",
        "runs": [{"harness": "c17", "flavor": "plain"}],
        "level": "exploration",
        "rule": "clusters of similar (namespace, basename) pairs over tensors, string tensors, producers with consumers and condition variables: the objects each uses, the states of all others while one acts, closes, is recreated by force or crashes, and odd or long names reached from another process; a case is a distinct (name, kind), activity in a distinct world, or shared name",
    },
    "C18": {
        "technique": "set model of return codes, captured output of the journal and of whole lives of endpoints under injected refusals",
        "note": "Standard output and error are captured at the descriptor level; with verbosity off nothing may arrive at any level, in lives with failures, refusals of the system and crashes of others. Helper functions which have no verbosity are not included.",
        "runs": [{"harness": "c18", "flavor": "plain"}],
        "level": "exploration",
        "rule": "all codes and pairs and random sequences of additions, removals and resets against sets; hostile texts through the journal; scripted lives of every class, quiet with refused requests at random places, and loud at every level; a case is a distinct sequence, message, or (life, level, place of the refusal)",
    },
    "C19": {
        "technique": "runtime monitoring of the ROS bridge over a stand-in middleware with an end-to-end value and metadata oracle",
        "note": "ROS is not installed: message types, serialisation, latching and bounded queues are modelled by a stand-in for both versions, so faults of a real middleware are out of reach. The receiving namespace is remapped, as both sides live on one machine.",
        "runs": [{"py": "c19"}],
        "level": "exploration",
        "rule": "random sequences of source changes, publishing and receiving updates, partial deliveries in any order over topics, restarts, locks held during an update, for both ROS versions, all element types and string tensors; a case is a distinct (version, type, shape, queue, operation, start order)",
    },
    "C20": {
        "technique": "happens-before race detection (ThreadSanitizer) with all mappings of one shared object folded onto one address",
        "note": "The detector judges whole executions by their synchronisation, not by lucky timing; the running flag is mapped unfolded because the property excludes it, and the detector is probed with a true race in every run. Races inside the C library or the kernel are not visible to it.",
        "runs": [{"harness": "c20", "flavor": "tsan", "wrap": "fold"}],
        "level": "exploration",
        "rule": "random operations of several threads with an endpoint each on one tensor, string tensor, producer with consumers or condition variable, and on names of their own (also verbose); a case is a distinct configuration of threads and objects",
    },
}
