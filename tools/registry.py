"""Which harness decides which property (source of MANIFEST.json, see tools/manifest.py)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TARGET_INFO = {
    "db": {
        "real": ["src/DataBase.cpp, include/mmx/DataBase.h, include/mmx/multi_table.h, include/mmx/table.h (unmodified)"],
        "stub": ["vnx-base I/O, thread pool and time (absent submodule) are re-implemented by the simulator (simvnx)",
                 "POSIX file system: simulated disk with process-crash semantics", "std::thread/mutex/condition_variable: simulator fibers via link-time interposition"],
        "assumptions": ["a crash kills the process: data handed to write() survives, user-space buffers are lost (the code never calls fsync, so no power-loss claim is made)",
                        "the vnx-base API behaves as re-implemented in simvnx (the submodule is not available offline)"],
    },
    "node": {
        "real": ["Node, Router, Farmer modules with validation, execution engine, VM, storage, tables, block production, voting, sync and relay (src/, include/, generated/, unmodified)"],
        "stub": ["vnx-base (absent submodule): modules, messages, timers, files, sockets, thread pool re-implemented by the simulator (simvnx)",
                 "std::thread/mutex/condition_variable/shared_mutex, clocks: simulator fibers and simulated time per machine via link-time interposition",
                 "network: simulated byte streams with latency, jitter, stalls, resets and partitions", "disk: simulated per machine, with crash, torn-write and error injection",
                 "Harvester and TimeLord: stubs that deliver real k=10 proofs of space and real VDF chains of short length", "Wallet: a stub that serves keys, except for C40, which runs the real Wallet module; web front end, GPU and HTTP client: not part of the run",
                 "memory-hard proof-of-space functions are memoised (first evaluation runs the repository's code)"],
        "assumptions": ["the vnx-base API behaves as re-implemented in simvnx (the submodule is not available offline)",
                        "a crash kills the process: data handed to write() survives, user-space buffers are lost; what a disk error inside a thread-pool task does is not claimed",
                        "chain parameters are scaled down (block interval of seconds, small VDF and plot sizes)"],
    },
    "parts": {
        "real": ["C08: StorageDB, StorageCache, DataBase and tables (src/vm/, src/DataBase.cpp)", "C30/C31: Router module (src/Router.cpp, unmodified) on every node", "TimeLord module with its VDF thread (src/TimeLord.cpp)", "Harvester module with its lookup tasks, pos::Prover and the plot reader on real k=10 plot files (src/Harvester.cpp, src/pos/)",
                 "generated/ interfaces, proof and VDF classes (unmodified)"],
        "stub": ["vnx-base (absent submodule) re-implemented by the simulator (simvnx)", "std::thread/mutex/condition_variable, clocks: simulator fibers and simulated time via link-time interposition",
                 "Node, Farmer and Wallet: drivers that speak their message protocol, including chain switches, replaced requests and restarts", "disk: simulated, with unreadable, truncated, vanishing and appearing plot files"],
        "assumptions": ["the vnx-base API behaves as re-implemented in simvnx (the submodule is not available offline)", "VDF speed and plot sizes are scaled down"],
    },
}
NODE_RULE = ("a case is one seeded run of a simulated network: drawn chain parameters, transactions, schedule, message timing and fault plan; it is non-trivial if "
             "blocks beyond genesis were adopted and compared with the oracle; distinct = different hash of the complete event trace")
NODE_STATES = "distinct (block hash at the peak of a node) seen by a probe"
DB_RULE = ("a case is one seeded run: a drawn sequence of storage operations, configuration, schedule and fault plan; it is non-trivial if at least one "
           "version was committed and its content was compared with the reference model; distinct = different hash of the complete event trace")
DB_STATES = "distinct (operation, number of block files, version) tuples"
CHECKS = {}
def db(id, **kw):
    CHECKS[id] = dict(target="db", rule=DB_RULE, states=DB_STATES, quick=30, thorough=1500, **kw)
db("C01", probes=["inflight_commit_survived", "inflight_rolled_back"])
db("C02", probes=["inflight_commit_survived", "inflight_rolled_back"])
db("C03", probes=["inflight_revert_survived", "reverts"])
db("C04", probes=["historical_reads", "concurrent_reads"])
db("C05", probes=["scan_direction_change"])
db("C06", probes=["appends", "reverts"])
db("C07", probes=["errors_reported"])
def node(id, **kw):
    CHECKS[id] = dict(target="node", rule=NODE_RULE, states=NODE_STATES, quick=kw.pop("quick", 45), thorough=1500, **kw)
node("C10")
node("C11")
node("C12")
node("C13")
node("C14")
node("C15", probes=["restart_same_block", "restart_before_unfinished_commit"])
node("C16")
node("C17", probes=["converged"])
node("C18", probes=["states_compared_between_nodes"])
node("C19", probes=["finalised_blocks", "runs_without_message_loss"])
node("C20", probes=["votes_seen", "vote_counts_checked"])
node("C21")
node("C22")
node("C23", probes=["simple_transfers_included", "pools_checked"])
node("C24", probes=["answers_checked"])
node("C40", probes=["sends_checked", "balances_checked", "balances_checked_across_blocks", "final_balances"])

PARTS_STATES = "distinct hash of the externally visible outcome states recorded by the driver"
def parts(id, rule, **kw):
    CHECKS[id] = dict(target="parts", rule=rule, states=PARTS_STATES, quick=45, thorough=1500, **kw)
parts("C30", "a case is one seeded run: drawn topology, schedule, faults, messages of nodes and raw peers; it is non-trivial if at least one message was delivered to a node; "
    "distinct = different hash of the complete event trace", probes=["messages_delivered", "reached_everywhere", "raw_messages_received", "relayed_on_credit"])
parts("C31", "a case is one seeded run: drawn topology, schedule, faults, block requests and lying peers; it is non-trivial if at least one request was answered; "
    "distinct = different hash of the complete event trace", probes=["requests_got_the_block", "forged_answers", "liar_error", "liar_corrupt_block"])
parts("C08", "a case is one seeded run: drawn contracts, table layout, schedule, blocks of transactions over nested caches, rollbacks, restarts and crashes; it is non-trivial if at least one block was "
    "committed and compared with the reference model; distinct = different hash of the complete event trace",
    probes=["concurrent_reads", "reverts", "caches_dropped", "inflight_commit_survived"])
parts("C41", "a case is one seeded run: drawn VDF speed, schedule and history of interval requests, peak changes, restarts; it is non-trivial if at least one proof of time was published "
    "and recomputed; distinct = different hash of the complete event trace", probes=["proofs_published", "delivered_after_quiet"])
parts("C42", "a case is one seeded run: drawn plots, worker count, schedule, challenges and plot faults; it is non-trivial if at least one lookup summary was compared with the reference lookup; "
    "distinct = different hash of the complete event trace", probes=["summaries_checked", "final_challenges", "responses"])
parts("C43", "a case is one seeded run: drawn keys, harvesters, pools, proofs, partials, restarts and pool or wallet faults; it is non-trivial if at least one proof was signed or one partial "
    "was accounted; distinct = different hash of the complete event trace", probes=["proofs_published", "partials_posted", "pool_accepts", "blocks_signed", "infos_checked", "kills"])

def known(prop):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "): out.append(line.split(" ", 2)[2])
    return out
