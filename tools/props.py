"""The properties: what they say, where they are anchored, how they are checked."""

NODES = "a cluster of 2 to 4 nodes, logs of up to 4 entries, one RPC or timer expiry"
OUT = ("Larger clusters and longer logs, interleavings inside one critical section's callee beyond those enumerated, "
       "the HTTP/2 transport, the real tokio scheduler and the real clock.")
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, bounds, obs=(), outside=OUT, also=(), thorough_only=(), assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                  mech=list(mech), obs=list(obs), bounds=bounds, outside=outside, also=list(also),
                  thorough_only=list(thorough_only), assume=list(assume)))


EL = "process/voter/election.rs"

prop("P01", "A node votes at most once per term, and the vote is on disk first",
     "Within one term a node grants a (real) vote to at most one candidate, also when two requests are processed concurrently. "
     "Before the answer leaves the node, term and vote are saved in the ballot store; if saving fails, no vote is given. "
     "Afterwards the stored vote of that term changes only when a leader of the same term announces itself.",
     ["inputs", "schedules", "fault_sequences"],
     "any ballot and log of the voter, any vote request (candidate, term, log position, force and pre-vote flags), two requests in any interleaving, any failing store write",
     "Tests start a handful of fault-free elections; they never deliver two competing requests for one term or make the ballot store fail.",
     [EL, "process/voter/mod.rs"],
     [("receive_vote_request under the vote lock, save before answering", EL)],
     "one voter in a 3-node cluster; any 64-bit terms; logs of up to 3 entries; two concurrent requests; one failing store operation.",
     ["RequestVote response", "ballot store"],
     also=["p08_heartbeat"])

prop("P02", "Votes go only to candidates whose log is at least as up to date",
     "A node grants a vote or pre-vote only if the candidate's last entry has a higher term than its own last entry, or the same term and an index that is not smaller. "
     "A voter free to vote grants it to every candidate for which that holds.",
     ["inputs"],
     "any ballot and log of the voter, any vote request",
     "Tests only elect leaders among nodes with identical logs.",
     [EL], [("log comparison in receive_vote_request", EL)],
     "one voter; logs of up to 3 entries with any nondecreasing 64-bit terms; any claimed last entry.",
     ["RequestVote response"], also=["p01_vote"])

prop("P03", "Terms never go back, and messages from older terms are without effect",
     "The stored term of a node never decreases, whatever votes, heartbeats or elections it takes part in. "
     "A vote request or heartbeat that carries a smaller term than the node's changes nothing: no vote, no leader change, no commitment. "
     "A message with a larger term makes the node adopt it before it acts on it.",
     ["inputs", "schedules"],
     "any state of the node, any message with any term",
     "A test sees only the messages of the clusters it starts; delayed messages of deposed leaders do not occur there.",
     [EL, "process/voter/heartbeat.rs"],
     [("term comparison on vote requests", EL), ("term comparison on heartbeats", "process/voter/heartbeat.rs")],
     "one node; any 64-bit terms; one message (two for votes).",
     ["ballot store", "RequestVote response", "leader hint"], also=["p01_vote", "p08_heartbeat"])

prop("P04", "Pre-votes leave no trace",
     "Answering a pre-vote changes neither the stored term nor the stored vote, nor the role of the node that answers. "
     "A candidate does not start a real election, and does not raise its term, unless a majority granted the pre-vote.",
     ["inputs", "fault_sequences"],
     "any voter state and any pre-vote request; any answers of the peers to a candidate",
     "Tests do not partition the network, so pre-votes are always granted.",
     [EL], [("pre-vote phase", EL), ("pre-vote answer", EL)],
     "one voter or candidate; clusters of 2, 3 and 4; any combination of grants, refusals and failed calls.",
     ["ballot store", "RequestVote response"], also=["p01_vote", "p06_elect2", "p06_elect3", "p06_elect4"])

prop("P05", "A node with a live leader neither votes nor starts elections",
     "While a node does not suspect its leader it refuses votes unless they are forced by a leadership transfer, and its election timer starts no election. "
     "A node that suspects its leader, is a member of the cluster and is not leader itself starts one; a node outside the membership never does. "
     "A heartbeat of the current leader counts as a sign of life.",
     ["inputs", "schedules", "configurations"],
     "any ballot, role, log, membership and suspicion level, any vote request; one expiry of the election timer",
     "Tests never isolate one node from a leader that others still hear.",
     [EL, "process/voter/failure_detector.rs", "process/thread/election.rs", "process/voter/heartbeat.rs"],
     [("leader stickiness", EL), ("election timeout", "process/thread/election.rs")],
     "one node; suspicion as a yes/no input in place of the phi-accrual estimate; clusters of up to 3.",
     ["RequestVote response", "RequestVote calls"],
     outside="The numeric phi-accrual estimate (third-party crate). " + OUT,
     also=["p01_vote", "p08_heartbeat"])

prop("P06", "Leadership takes a majority of votes for one stored term",
     "A node becomes leader of a term only after a majority of the current members, itself included, granted it their real vote for exactly that term. "
     "Before it asks anyone it has stored that new term together with a vote for itself. "
     "With less than a majority, or if storing fails, it does not become leader.",
     ["inputs", "fault_sequences", "configurations"],
     "any ballot, any answers of the peers (grant, refusal, failed call) in both phases, any store failure",
     "Tests elect leaders with all peers up and granting; the arithmetic for split or missing votes is never exercised.",
     [EL, "process/voter/quorum.rs"],
     [("try_promote", EL), ("vote quorum", "process/voter/quorum.rs")],
     "clusters of 2, 3 and 4 nodes; every combination of answers; any 64-bit term.",
     ["RequestVote calls", "ballot store", "role"])

prop("P07", "A new leader starts with a barrier of its term and no assumptions",
     "On becoming leader a node appends a barrier entry of its new term and resets what it believes about every follower, so that nothing counts as replicated before a follower confirmed it. "
     "It then sends heartbeats to every peer.",
     ["inputs", "histories"],
     "any log, any stale replication progress, any election outcome",
     "Tests do not look at the leader's internal start, and re-elections with stale progress do not occur.",
     [EL, "process/peer_svc/mod.rs"],
     [("after_votes", EL), ("reset_progress", "process/peer_svc/mod.rs")],
     "clusters of 2, 3 and 4 nodes; logs of up to 3 entries; any stale progress.",
     ["log store", "role"], also=["p06_elect2", "p06_elect3", "p06_elect4"])

prop("P08", "A heartbeat commits only what the follower shares with the leader",
     "On a heartbeat of the current leader a follower's commit position never moves back, never past its own log end, never past the leader's commit position, and only over entries that match the leader's log. "
     "Heartbeats of older terms and of other shards leave the commit position as it is.",
     ["inputs", "histories"],
     "any follower state and log, any heartbeat (sender, term, commit position, shard)",
     "In tests followers are never behind or divergent when a heartbeat arrives.",
     ["process/voter/heartbeat.rs", "raft_service/mod.rs"],
     [("receive_heartbeat", "process/voter/heartbeat.rs")],
     "one follower in a 3-node cluster; logs of up to 4 entries with any terms; one heartbeat batch.",
     ["commit position", "application of entries"])

prop("P09", "A leader commits only majority-replicated entries of its own term",
     "A leader advances its commit position to an index only if a majority of the current members, counting itself only while it is a member, have stored it and the entry at that index is of the leader's current term; entries before it commit with it. "
     "The commit position never decreases and never passes the leader's log end; only the leader counts replicas. "
     "Whatever a majority has stored in the leader's term is committed.",
     ["inputs", "configurations", "histories"],
     "any replication progress of all peers, any log and terms, any role, any membership",
     "Tests replicate to healthy clusters; the situation in which counting replicas of an old-term entry loses data needs a specific sequence of leader changes.",
     ["process/voter/quorum.rs", "process/peer_svc/mod.rs", "process/thread/advance_commit.rs"],
     [("find_new_commit_index", "process/voter/quorum.rs"), ("commit thread", "process/thread/advance_commit.rs")],
     "clusters of 1 to 5 nodes, with and without the leader among the members; logs of up to 4 entries; any progress values.",
     ["commit position"])

prop("P10", "Followers accept only entries that extend a matching log",
     "A follower takes a replicated entry only if its log already holds the entry that precedes it, with the same index and term; otherwise it refuses and leaves its log unchanged. "
     "An accepted entry ends up in the log at its index with the leader's term and command, and is not rewritten if it is there already; all other entries stay as they are. "
     "The answer reports the number of entries taken and the end of the follower's log, and neither commit position nor ballot change.",
     ["inputs", "histories"],
     "any follower log, any stream of entries with any preceding entry, gaps included",
     "Tests replicate fault-free; conflicting or overlapping streams never reach a follower there.",
     ["process/raft_process/queue.rs", "process/command_log/producer.rs"],
     [("try_insert_entry", "process/command_log/producer.rs"), ("queue_received_entries", "process/raft_process/queue.rs")],
     "logs of up to 3 entries, streams of up to 2 elements starting after any of the indices 0..4, any 64-bit terms.",
     ["log store", "SendReplicationStream response"])

prop("P11", "A node appends only entries of the term it leads, at the end of its log",
     "An entry a node adds to its own log, for a client request or to record that a request was answered, carries the term the node was elected leader of, the index after the last entry, and the clock of the entry before it. "
     "A node deposed meanwhile never writes an entry that bears the new leader's term, and never overwrites an entry of the new leader. "
     "Terms do not decrease along the log.",
     ["inputs", "schedules", "histories"],
     "any terms of the old and the new leader; the new leader's entry arriving before the request or at any scheduling point while it is handled",
     "The tests never depose a leader in the middle of a request: the window is a few instructions wide.",
     ["process/command_log/producer.rs", "process/raft_process/queue.rs", "process/command_log/consumer.rs"],
     [("append_new_entry", "process/command_log/producer.rs"), ("advance_user_process", "process/command_log/consumer.rs")],
     "one client request on a log of 2 entries, one entry of another leader at each of up to 8 scheduling points (the request ends before the 8th); fixed request contents.",
     ["log entries"], thorough_only=["p11_race0", "p11_race4", "p11_race6", "p11_race7", "p11_complete0", "p11_complete2", "p11_complete4"])

prop("P12", "A leader counts as replicated exactly what the follower confirmed",
     "A replication round sends a follower consecutive entries exactly as they are in the leader's log, preceded by the clock of the entry before them, and only entries that are in the log. "
     "Afterwards exactly the entries the follower reported as taken count as replicated; a refusal moves the next round back without confirming anything, a failed call changes nothing, a follower that needs compacted entries starts over from the snapshot, and other followers are not affected. "
     "An answer that arrives after the leader was elected anew is not counted.",
     ["inputs", "fault_sequences", "histories"],
     "any belief about the follower, any log and snapshot position, any answer or failure, a re-election while the request is under way",
     "Tests replicate to healthy followers over a reliable loopback connection; refusals, partial acceptance and late answers do not occur.",
     ["process/peer_svc/replication.rs", "process/peer_svc/mod.rs"],
     [("advance_replication", "process/peer_svc/replication.rs"), ("reset_progress", "process/peer_svc/mod.rs")],
     "logs of up to 3 entries, one round starting at index 2, 3 or 4, any 64-bit progress values and answers.",
     ["ReplicationStream chunks", "replication progress"], thorough_only=["p12_round2"])

AP = "process/command_log/consumer.rs"
RS = "process/raft_process/responder.rs"

prop("P21", "Committed entries are applied in log order, each once, none early",
     "The application sees the committed writes and snapshot installations in log order, with their log index, each exactly once and never before the entry is committed. "
     "If the application fails, the entry is tried again and no later entry overtakes it. "
     "Entries that are not for the application pass it by, and a committed barrier of the current term opens a leader for requests.",
     ["inputs", "fault_sequences", "histories"],
     "any command at the position to apply, any committed and kernel position, application failures at any call",
     "Tests use an application that never fails and look at sums, in which an entry applied twice or late goes unnoticed.",
     [AP, "process/thread/advance_user.rs"],
     [("advance_user_process", AP), ("advance_kern_process", AP)],
     "logs of up to 4 entries of each command kind with short fixed contents; up to 3 application steps; any failing application call.",
     ["application calls", "applied position"])

prop("P22", "A retried request takes effect once",
     "A write that is in the log more than once under the same request id is executed at its first entry only; every client waiting for it gets the response of that execution, also if the first client is gone. "
     "Writes with different ids are executed each, even if their contents are equal. "
     "That a request was answered is itself recorded in the log.",
     ["histories", "fault_sequences"],
     "the leader's and the follower's side of a retry, a client that left, a failing application",
     "One test retries a request on one healthy node; it covers neither followers nor clients that disconnect nor failing executions.",
     [AP, "process/command_log/response_cache.rs"],
     [("ResponseCache", "process/command_log/response_cache.rs"), ("advance_user_process", AP)],
     "two or three entries of at most two request ids, fixed contents; the expiry of cached responses (5 s of inactivity) and restarts between the entries are outside.",
     ["application calls", "client responses", "log entries"])

prop("P23", "A client gets the response to its own request, or is told, never hangs",
     "A client whose request a leader accepted gets the response of exactly that request, after it was executed and only then, however quickly it is committed and applied. "
     "If the entry of its request is replaced because the node lost its leadership, the client is told instead of waiting, and never gets the response to another request.",
     ["schedules", "histories"],
     "application of the entry, or its replacement by another leader's entry, at any scheduling point while the request is handled",
     "In the tests a request is registered long before its entry is replicated, and leaders are not deposed while they handle one.",
     ["process/raft_process/queue.rs", "process/command_log/producer.rs", AP],
     [("queue_new_entry", "process/raft_process/queue.rs"), ("completions", AP)],
     "one client request on a log of 2 entries; one event at one of up to 8 scheduling points; any terms; fixed request contents.",
     ["client responses"],
     also=["p22_retry_leader", "p22_failed"],
     thorough_only=["p23_rival2", "p23_rival3", "p23_rival4", "p23_rival5", "p23_fast2", "p23_fast4", "p23_rival7"])

prop("P24", "A leader's read sees every write committed before it",
     "A read is executed by the application once everything the leader had committed when the read arrived has been applied, and not earlier; a new leader answers no read before the barrier of its term is committed. "
     "Each client gets the result of its own read exactly once, a read the application cannot execute is reported to its client, and reads change neither log nor positions.",
     ["inputs", "schedules", "histories"],
     "any commit and applied positions, one or two waiting reads at any positions, any outcome of the application",
     "Tests read after the write has been answered, on a leader that has long been stable.",
     [RS, "process/query_queue.rs"],
     [("process_user_read_request", RS), ("query queue", "process/query_queue.rs")],
     "up to 3 waiting reads; any 64-bit positions; fixed contents.",
     ["application calls", "client responses"])

prop("P25", "Requests reach the leader the node knows, and none go round in circles",
     "A node that is not leader passes a write, a read that is not local-only, or a membership request on to the leader it knows, with contents, request id and shard unchanged, and returns that leader's answer. "
     "Without a known leader, or if the node would have to ask itself, the request fails; the node does not handle it on its own.",
     ["inputs", "configurations"],
     "follower or candidate role; any ballot: no known leader, another node, the node itself",
     "Tests send requests to followers of a stable cluster; a candidate, which has voted for itself, never gets one.",
     [RS], [("leader forwarding", RS)],
     "one request of each kind; 3 nodes; fixed contents.",
     ["RPC calls", "client responses"])
