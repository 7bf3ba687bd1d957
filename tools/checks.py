check("C02", [H("cache-ts", "cache", 200000, share=0.6), H("cachec-ts", "cache", 200000, share=0.3), H("cachec-ts", "cache", 10000, race=True, share=0.1)],
  SCHED + "non-trivial: at least one update or delete was accepted or refused on an existing leaf",
  CACHEREAL, CACHESTUB,
  "seeded feeds, clock jumps and interleavings of several writers per target; every result compared with a reference model of timestamp discipline, concurrent histories by linearizability",
  "sampled feeds and schedules; the model judges every operation of every run",
  faults=["process_stall_clock_jump"])
check("C03", [H("cache-feed", "cache", 180000, share=0.6), H("cachec-feed", "cache", 180000, share=0.3), H("cachec-feed", "cache", 10000, race=True, share=0.1)],
  SCHED + "non-trivial: the replayed feed was compared with a non-empty cache",
  CACHEREAL, CACHESTUB,
  "seeded feeds with life-cycle operations and concurrent targets; the recorded change feed is replayed and must equal the cache after every operation",
  "sampled; the replay is compared after every operation of single-writer runs and at quiescence of concurrent ones",
  faults=["process_stall_clock_jump"])
check("C04", [H("sub-stream", "sub", 200000)], SUBRULE, SUBREAL, SUBSTUB,
  "streams opened at seeded moments of concurrent update feeds; replayed responses must equal the cache at quiescence, the snapshot precedes one sync",
  "sampled schedules; convergence judged at every quiescent point", faults=SUBFAULTS,
  probes=["stream_judged", "snapshot_checked", "coalesced", "accounted_announcements"])
check("C05", [H("sub-once", "sub", 200000)], SUBRULE, SUBREAL, SUBSTUB,
  "ONCE/POLL calls raced against writers; results judged against the history of every leaf",
  "sampled schedules", faults=SUBFAULTS, probes=["snapshot_checked", "poll_rounds"])
check("C06", [H("sub-filter", "sub", 180000, share=0.8), H("sub-filter", "sub", 15000, race=True, share=0.2)], SUBRULE, SUBREAL, SUBSTUB,
  "registrations added and removed while notifications are announced; deliveries plus duplicate counts must equal the announcements that agree with a subscribed path, once per notification",
  "sampled schedules and paths", faults=SUBFAULTS, probes=["accounted_announcements", "registration_checked"])
check("C07", [H("sub-acl", "sub", 200000)], SUBRULE, SUBREAL, SUBSTUB,
  "callers with seeded authorisations against all targets while feeds, resets and disconnects race; every Send and every status judged",
  "sampled schedules and authorisations", faults=SUBFAULTS, probes=["authorised_response", "rejected_call"])
check("C08", [H("sub-stall", "sub", 200000)], SUBRULE, SUBREAL, SUBSTUB,
  "subscribers stalled below and beyond the send timeout on the simulated clock; feed latency, backlog, duplicate counts and stream ends judged",
  "sampled schedules and stalls", faults=SUBFAULTS + ["stalled_client"], probes=["timed_out", "backlog_checked", "accounted_announcements"])
check("C10", [H("tree", "tree", 900000, share=0.7), H("tree", "tree", 100000, race=True, share=0.3)],
  SCHED + "non-trivial: operations of two goroutines overlapped",
  ["ctree"], ["glog: recording stub"],
  "seeded preemption inside every tree operation; linearizability of the recorded history against a map model (porcupine), race detector on the same schedules",
  "sampled schedules; every history judged, in two builds")
check("C11", [H("queue", "queue", 2000000, share=0.8), H("queue", "queue", 50000, race=True, share=0.2)],
  SCHED + "non-trivial: operations of two goroutines overlapped",
  ["coalesce"], ["glog: recording stub"],
  "seeded schedule and cancellation search; linearizability against a coalescing-FIFO model (porcupine)",
  "sampled schedules; the model judges every history, deadlocks are detected exactly",
  faults=["context_cancel", "queue_close", "process_stall_clock_jump"])
check("C14", [H("cache-iso", "cache", 80000), H("cachec-iso", "cache", 80000), H("sub-life", "sub", 80000)], SUBRULE, SUBREAL, SUBSTUB,
  "Reset/Remove/Add raced against updates of every target and against streams; other targets' content and feed, announcements and stream ends judged",
  "sampled schedules", faults=SUBFAULTS, probes=["stream_ended_by_removal"])
check("C15", [H("cache-meta", "cache", 60000, share=0.4), H("cachec-meta", "cache", 60000, share=0.2), H("cache-meta", "cache", 10000, race=True, share=0.2), H("cachec-meta", "cache", 10000, race=True, share=0.2)],
  SCHED + "non-trivial: counters were compared after at least one accepted operation",
  CACHEREAL, CACHESTUB,
  "metadata refreshes and resets raced against the update stream on a simulated clock; counters and latency statistics compared with a reference, race detector on the same schedules",
  "sampled feeds and schedules", faults=["process_stall_clock_jump"])
check("C16", [H("conn", "conn", 200000, share=0.8), H("conn", "conn", 20000, race=True, share=0.2)],
  SCHED + "non-trivial: two holders shared a connection, or a request shared the error of a dial in flight",
  ["connection", "grpc.ClientConn (never connected)"], ["Dial function: scripted outcomes and delays", "glog: recording stub"],
  "many requesters over a few addresses with scripted dials (slow, refused, cancelled); holder counts, dial counts and connectivity judged at every event",
  "sampled schedules; a second Close of the same ClientConn cannot be observed from outside and is not judged",
  faults=["dial_refused", "dial_cancelled", "process_stall_clock_jump"], probes=["shared", "concurrent_requests", "released_twice", "release_after_failure", "last_release_checked"])
MGRFAULTS = ["dial_refused", "slow_dial", "credentials_error", "open_error", "send_error", "stream_error", "end_of_stream", "silence_beyond_timeout", "message_after_cancel", "forced_reconnect", "slow_callback", "process_stall_clock_jump"]
MGRREAL = ["manager", "connection", "backoff/v4", "grpc.ClientConn (never connected)"]
MGRSTUB = ["device streams: scripted grpc.ClientStream installed by a stream interceptor", "Dial function: scripted", "credentials client: scripted", "glog: recording stub"]
check("C13", [H("mgr", "mgr", 40000), H("mgr-stall", "mgr", 40000)],
  SCHED + "non-trivial: at least one session was connected",
  MGRREAL, MGRSTUB,
  "scripted session outcomes (refusals, stream errors, silence, late messages, slow callbacks) with Add/Remove/Reconnect at seeded moments; the callback trace is judged online against the session automaton, recovery within bounded simulated time once faults stop",
  "sampled fault sequences and schedules; time bounds are judged on runs without process stalls and after faults stop",
  faults=MGRFAULTS, probes=["removed", "removed_after_session", "session_closed", "retries", "recovered"])
P["C16"]["h"].append(H("mgr-conn", "mgr", 30000, share=0.3))
P["C16"]["faults"] += [f for f in MGRFAULTS if f not in P["C16"]["faults"]]
P["C16"]["real"].append("manager as the user of the connections (mgr-conn)")

check("C17", [H("target", "target", 300000, share=0.8), H("target", "target", 50000, race=True, share=0.2)],
  SCHED + "non-trivial: an accepted load changed a non-empty configuration",
  ["target"], ["glog: recording stub"],
  "seeded histories of edited, renamed, invalid and stale configurations loaded by several goroutines with slow handlers and readers; the handler trace must be the concatenation of the accepted loads' exact diffs, Current explained by it at every read",
  "sampled histories and schedules; every call and read judged, race detector on the same schedules",
  faults=["invalid_configuration", "stale_revision", "slow_callback", "caller_edits_message", "caller_edits_copy", "process_stall_clock_jump"], probes=["current_judged"])

CLFAULTS = ["connect_refused", "slow_connect", "open_error", "send_error", "stream_error", "end_of_stream", "stream_end", "message_after_cancel", "context_cancel", "context_deadline", "slow_callback", "handler_error", "process_stall_clock_jump"]
check("C18", [H("client", "client", 400000), H("client-stall", "client", 200000)],
  SCHED + "non-trivial: the client was closed by the plan or reconnected at least once",
  ["client (BaseClient, CacheClient, ReconnectClient, registry)", "client/gnmi (from an existing connection)", "client/fake", "backoff/v4", "grpc.ClientConn (never connected)"],
  ["device streams: scripted grpc.ClientStream installed by a stream interceptor", "connecting: scripted delays and refusals", "glog: recording stub"],
  "scripted connects and stream outcomes with Close aimed at every step of the client (connecting, opening, receiving, delivering, disconnecting, backing off, retrying) and cancelled contexts; callbacks judged against the automaton, deliveries against the script, returns against the backoff interval on the simulated clock",
  "sampled fault sequences and schedules; time bounds are judged on runs without process stalls",
  faults=CLFAULTS, probes=["retries", "settled_on_stream", "subscribe_after_close", "close_on_backoff", "close_on_new", "close_on_notify"])

check("C20", [H("fake", "fake", 400000), H("fake-known", "fake", 400, share=0.2)],
  SCHED + "non-trivial: a value was emitted more than once",
  ["testing/fake/queue (UpdateQueue, FixedQueue)", "testing/fake/gnmi (Client)"],
  ["gRPC server and listener of the agent: Client.Run is driven over scripted streams", "glog: recording stub"],
  "seeded configurations given to several generators and sessions that are started, slowed, polled and disconnected at seeded moments on the simulated clock; every emission judged against its configuration, equal generators compared",
  "sampled configurations, up to 14 values and 1500 emissions per generator",
  faults=["invalid_configuration", "slow_reader", "client_left", "early_poll"], probes=["generated", "marker_judged", "ended", "sequences_compared", "polled"])

check("C12", [H("byz", "byz", 150000, share=0.5), H("byz-client", "byz", 150000, share=0.5)],
  SCHED + "non-trivial: a message was rejected while data was stored, or a peer's request, session or response stream was processed",
  ["cache", "ctree", "path", "value", "metadata", "latency", "subscribe", "match", "coalesce", "manager", "connection", "client", "client/gnmi", "cli"],
  ["gRPC transport: in-process streams carrying wire bytes", "glog: recording stub", "collector glue: copied closure"],
  "seeded hostile peers: near-valid messages with field and wire-level mutations sent by targets, subscribers and servers in any interleaving; panics, hangs, damage by rejected messages and loss of service judged",
  "sampled messages and schedules; a panic in any goroutine is a violation", faults=["stream_error", "connection_cut"],
  probes=["rejected_with_data", "accepted", "sessions", "requests", "request_rejected", "displayed", "client_rejected", "still_serving"])

check("C01", [H("e2e", "e2e", 24000)],
  SCHED + "non-trivial: targets sent at least two different leaves",
  ["cmd/gnmi_collector (main)", "cmd/gnmi_cli (main)", "manager", "connection", "target", "cache", "ctree", "subscribe", "match", "coalesce", "client", "client/gnmi", "cli", "path", "value", "testing/fake/gnmi (agent, some targets)", "grpctunnel (targets that dial the collector)", "grpc-go and crypto/tls"],
  ["TCP: in-memory streams with delay, fragmentation, resets, stalls and refusals", "devices: scripted gNMI servers (or the repository's agent)", "process boundary: each program's main runs in a copy of its package with its own flags, output and exit", "glog: recording stub"],
  "whole deployments in one process: devices, the collector program, library clients and CLI programs over real gRPC and TLS on a simulated network with faults; once everything is quiet every client's view must equal the devices' state, however it asked",
  "sampled deployments, histories, faults and schedules",
  faults=["device_connection_reset", "device_unreachable", "device_connection_stalled", "client_connection_reset", "client_connection_stalled", "collector_killed", "connection_refused"],
  probes=["judged_with_leaves", "shared_address", "tunnel_target", "judged_lib_stream", "judged_lib_poll", "judged_lib_once", "judged_group_once", "judged_group_stream", "judged_group_poll", "judged_single_stream", "judged_proto_stream", "judged_proto_once"])
