#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

DBF = ["src/DataBase.cpp", "include/mmx/DataBase.h"]
# ------------------------------------------------------------------ storage engine
p("C01", "Committed database versions survive a crash at any point",
  "After the process dies at any instant, reopening a database yields a version that is at least the last version whose commit had returned and at most the one whose commit was in flight. The content is then exactly what had been written up to that version: no committed write is lost, no uncommitted write appears, and no file left behind by the crash prevents reopening.",
  ["crash_points", "histories"],
  "every sequence of insert / commit / flush / compaction / revert over one or more tables, and a process kill between (or inside) any two file operations of it, including during recovery itself",
  "test_database.cpp opens, writes and closes cleanly; no test ever stops the process between two file operations, and the storage tests are not even part of the offline build",
  DBF, [("write-ahead log with per-entry checksum, replayed on open", "Table::Table, Table::insert_entry, Table::commit"),
        ("block files written to .tmp and renamed; superseded blocks and log removed afterwards", "Table::flush, Table::rewrite, Table::check_rewrite")],
  [("blocks", "live block files with their version ranges", "Table::blocks"), ("write_log.dat", "entries newer than the last block", "Table::write_log")],
  ["Table::find / Table::current_version after reopening"])
p("C02", "All tables of a database recover to one common version",
  "When several tables form one database, then after a process death at any instant and reopening, every table is at the same version, and that version is either the last one whose commit had returned or the one in flight. Data of different versions is never mixed between tables.",
  ["crash_points", "histories"],
  "every multi-table history, and a kill at any file operation of any table's commit, flush, revert or recovery",
  "tests use a single table and never crash between the commits of two tables",
  DBF + ["src/Node.cpp"], [("recover() reverts every table to the smallest version", "DataBase::recover"), ("commit() walks all tables", "DataBase::commit")],
  [], ["DataBase::recover", "Table::current_version"])
p("C03", "Rolling a database back restores exactly the earlier version",
  "Reverting to an earlier version makes every read and scan return exactly what it returned when that version was current, whether the newer data was still in memory, already flushed or compacted. New commits made afterwards never mix with the discarded ones, also when the process dies in the middle of the rollback and is restarted.",
  ["histories", "crash_points"],
  "every history of versions with interleaved flushes, compactions and rollbacks to any retained version, followed by new writes, with kills during the rollback",
  "test_database.cpp reverts a handful of fixed cases without crashes and without compaction in between",
  DBF, [("revert record in the log before block truncation", "Table::revert"), ("per-key version lists", "Table::mem_index / block_t")],
  [], ["Table::find, Table::Iterator after revert"])
p("C04", "Database reads return the newest value at or below the version asked",
  "At any time a point read returns the value of the newest committed or pending write of that key, and a historical read at version v returns the newest one made at or before v. This holds regardless of how the data is spread over memory and on-disk levels, and while background compaction and other readers run concurrently.",
  ["histories", "schedules"],
  "every history of versioned writes and every interleaving of readers with flush and background compaction",
  "tests read back a fixed data set from one thread after flushing, no reader runs during a flush or compaction",
  DBF, [("newest-first search memory, then levels", "Table::find"), ("reader/writer lock around block list swaps", "Table::mutex, Table::rewrite")],
  [], ["Table::find(key, max_version)"])
p("C05", "Ordered scans visit every key exactly once in order",
  "A scan positioned at a key visits exactly the live keys from there in strictly increasing (or decreasing) key order, with their current values, no key skipped or repeated. This holds for every mix of in-memory and on-disk data and when the scan changes direction.",
  ["histories", "inputs"],
  "every distribution of keys over memory and block levels (as left by flush, compaction, revert and crash recovery), every start key and every sequence of next/prev steps",
  "tests scan fixed, fully overlapping key ranges in one direction",
  DBF + ["include/mmx/table.h", "include/mmx/multi_table.h"], [("k-way merge cursor over memory and blocks", "Table::Iterator")],
  [], ["Table::Iterator::seek*, next, prev"])
p("C06", "Multi-value tables keep every appended value in append order",
  "Appending values under one key keeps all of them, duplicates included, in append order, and scans, counts and range queries return exactly these. This holds across flush, restart, crash recovery and rollback followed by further appends.",
  ["histories", "crash_points"],
  "every history of appends to several keys, interleaved with commits, restarts, kills and rollbacks",
  "tests append once to a fresh table; the position counter is never rebuilt after a restart or rollback in any test",
  ["include/mmx/multi_table.h"] + DBF, [("index counter stored with the key", "hash_uint_uint_table / uint_multi_table / hash_multi_table insert")],
  [], ["multi_table find*"])
p("C07", "A failed disk operation is reported and costs no committed data",
  "When a write, flush, rename or file creation fails or is cut short (disk full, I/O error), the operation that needed it reports failure instead of acknowledging success. After reopening, everything acknowledged before is intact, and the database works again once space is available.",
  ["fault_sequences", "histories"],
  "every history with failing, short or out-of-space file operations at any point, followed by a restart",
  "no test makes a file operation fail",
  DBF, [("exceptions from the file layer propagate out of insert/commit", "Table::commit, Table::flush")],
  [], ["exceptions from insert/commit/flush and content after reopening"])
p("C08", "Contract storage is versioned, isolated per contract and rolls back",
  "Contract variables, keyed entries and key lookups read back exactly the last value stored for that contract and address, and reads at an earlier height return the value of that height. Buffered writes of one execution reach the backing store all together when committed and leave no trace when dropped, and everything survives restart, crash and rollback like the rest of the state.",
  ["histories", "crash_points"],
  "every history of nested buffered writes, commits, drops, block rollbacks and restarts over several contracts with neighbouring addresses",
  "storage_tests uses the in-memory back end only",
  ["src/vm/StorageDB.cpp", "src/vm/StorageCache.cpp", "src/vm/StorageRAM.cpp", "src/DataBase.cpp"],
  [("write-back cache layered over a backend", "StorageCache::commit"), ("big-endian composite keys", "StorageDB")],
  [], ["Storage::read / lookup / find_range / find_entries"])
# ------------------------------------------------------------------ ledger
ND = ["src/Node.cpp", "src/Node_update.cpp", "src/Node_validate.cpp", "src/Node_verify.cpp"]
p("C10", "Parallel block verification equals one-by-one execution",
  "Whether a block is accepted, the result recorded for each of its transactions and the resulting balances and contract state do not depend on how the worker threads that check its transactions are scheduled. They are always those obtained by executing the transactions one after the other in block order.",
  ["schedules", "inputs"],
  "every block mixing transfers, contract deployments, calls, deposits and withdrawals on shared and separate contracts, under every interleaving of the verification threads",
  "tests execute on whatever schedule the OS picks, mostly with one transaction per block",
  ["src/Node_validate.cpp", "src/Node_update.cpp", "src/vm/StorageCache.cpp"],
  [("transactions wait for earlier ones touching the same contract", "Node::execution_context_t::wait/signal, Node::validate(block)")],
  [], ["Node::validate result, state after the block"])
p("C11", "Coins and tokens are conserved",
  "After every block, for every currency the sum of all balances changes by exactly what the block legitimately issues (block reward, project and timelord reward, token minting by its owner contract) minus fees and amounts explicitly burned. No schedule of reorganisations, restarts, failed transactions or failed contract calls creates or destroys value.",
  ["histories", "schedules", "crash_points"],
  "every history of blocks with transfers, contract deposits/withdrawals, failing calls, reorganisations and restarts",
  "tests check single transactions; none sums the ledger over a history",
  ND + ["include/mmx/balance_cache_t.h", "src/Transaction.cpp"], [("input/output matching per currency", "Node::validate(tx)"), ("balance delta application", "Node::apply, balance_cache_t")],
  [], ["Node::get_total_balances / get_all_balances"])
p("C12", "Only the owner can spend, and never more than the balance",
  "A block or transaction is accepted only if every input is covered by the balance its address has at that point of the block and is authorised by its owner's signature over exactly this transaction. Balances never underflow, also when several transactions in one block or pool compete for the same funds.",
  ["inputs", "histories", "schedules"],
  "every set of honest and malformed (overspending, unsigned, wrongly signed, altered after signing, expired) transactions from competing senders, submitted to the pool and inside peer blocks",
  "tests exercise a few hand-written transactions on an otherwise idle node",
  ND + ["src/Transaction.cpp", "src/contract/PubKey.cpp", "src/contract/MultiSig.cpp"], [("balance cache deduct check", "balance_cache_t::find / Node::validate"), ("solution validation", "Contract::validate")],
  [], ["block acceptance, pool admission, balances"])
p("C13", "A transaction takes effect at most once on any chain",
  "No transaction is executed twice on the same chain: a block repeating a transaction, within itself or from an ancestor, is rejected and the pool does not admit it again. After a reorganisation or restart the same holds for the new chain, and a transaction whose block was abandoned can be included again.",
  ["histories", "crash_points", "schedules"],
  "every history of inclusion, resubmission, reorganisation and restart",
  "no test resubmits a transaction after a reorganisation or restart",
  ND, [("transaction index lookup before execution", "Node::validate / tx_index")],
  [], ["Node::get_tx_height, block acceptance"])
p("C14", "A failed transaction costs its fee and has no other effect",
  "A transaction whose execution fails is recorded as failed and changes nothing except deducting a fee, no larger than its fee limit, from its sender. Outputs, deposits, contract variables and deployed contracts of that transaction do not come into existence and no later transaction of the same block sees them.",
  ["inputs", "histories", "schedules"],
  "every transaction failing at any stage (assertion, gas, balance, missing method) placed anywhere in a block between transactions on the same contracts and accounts",
  "the engine tests stop at the VM; no test checks ledger effects of a failure within a block",
  ND + ["src/vm_interface.cpp", "src/vm/StorageCache.cpp"], [("per-transaction storage cache committed only on success", "Node::execute")],
  [], ["balances, contract state, exec_result"])
p("C15", "A crashed node restarts on its own chain with consistent state",
  "After a process death at any instant the node restarts without manual repair on a block of the chain it had before, losing at most blocks that were not yet durably applied and never a finalised one. Its balances, transaction index, contract state and block index then equal a fresh replay of exactly that chain, and it continues to accept the following blocks.",
  ["crash_points", "histories"],
  "a kill at any file operation while applying, reverting or flushing blocks, writing the block log or recovering from an earlier crash",
  "no test restarts a node",
  ND + DBF, [("state tables committed under the block height; both databases recovered to a common version", "Node::main, Node::reset, DataBase::recover"), ("block log with index", "Node::write_block")],
  [], ["peak, balances and block queries after restart"])
p("C16", "Switching forks leaves exactly the state of the winning chain",
  "After a node has switched between competing branches any number of times, every balance, transaction lookup, history query and contract variable equals what a node shows that only ever saw the winning branch. A switch that fails because the new branch turns out invalid leaves the node on its previous branch with unchanged state.",
  ["histories", "schedules"],
  "every tree of competing valid and invalid blocks and every arrival order",
  "no test performs a reorganisation",
  ND, [("fork_to reverts the databases to the fork point and re-applies", "Node::fork_to, Node::revert")],
  [], ["full state comparison with a fresh node"])
p("C17", "Nodes converge to one chain once the network heals",
  "Once messages flow again after any pattern of loss, partition, delay, reordering and node restarts, nodes that fell behind a network that kept its blocks flowing reach its chain within a bounded time and all keep extending it together. A node that was down, was cut off or starts from nothing catches up with the others.",
  ["schedules", "fault_sequences"],
  "every schedule of message loss, duplication, reordering, partitions, node kills and restarts that ends in a fault-free period",
  "tests run a single process without a network",
  ["src/Node_update.cpp", "src/Node_control.cpp", "src/Router.cpp"], [("deterministic best-fork choice by total weight", "Node::find_best_fork"), ("sync by height and fetch of missing parents", "Node::sync_more, Router::process")],
  [], ["peak hashes of all nodes"])
p("C18", "Nodes on the same block have identical state",
  "At every moment, any two correct nodes whose current block is the same report identical balances, contract state and transaction history, no matter by which order of messages, reorganisations, restarts or sync they got there.",
  ["schedules", "histories", "fault_sequences"],
  "every network schedule, with mixed relay/sync/restart histories per node",
  "tests have one node",
  ND, [("deterministic execution", "Node::validate, Node::apply")],
  [], ["state digests of nodes at equal peaks"])
p("C19", "Finalised blocks are never replaced",
  "Every block a node adopts descends from the block it last finalised (buried by the commit delay on its chain), and while it runs its finalised height never moves backwards. As long as all messages arrive within a fraction of the block interval, a finalised block is never replaced and no two nodes finalise different blocks. Only a chain whose weight is at least that of the node's own may ever replace finalised blocks (recovery from a split), whatever messages are lost, delayed or reordered.",
  ["histories", "schedules", "crash_points"],
  "every arrival order of competing branches including heavier ones forking below the finalised block, and restarts",
  "no test has competing branches",
  ND, [("root block advanced by commit(), branches not descending from root purged", "Node::commit, Node::purge_tree")],
  [], ["Node::get_root / history by height over time"])
p("C20", "Validators vote once per height and votes count once",
  "A node signs at most one validator vote per height and key unless its previous vote for that height is older than a block interval, and a vote counts towards a block only if its validator is entitled to vote there and only once. Duplicated, reordered, forged or replayed votes never change the vote count or the choice of chain.",
  ["schedules", "fault_sequences"],
  "every arrival order and duplication of votes and competing blocks, including forged ones",
  "no test sends votes",
  ["src/Node_update.cpp", "src/Node_verify.cpp", "src/ValidatorVote.cpp"], [("vote bookkeeping per fork keyed by validator", "Node::vote_for_block, Node::verify_votes")],
  [], ["published votes, fork votes"])
p("C21", "Blocks a node produces are valid for every peer",
  "Every block a correct node creates from its transaction pool passes full verification by every other correct node that has the same parent, whatever mix of pending, conflicting, expiring and failing transactions the pool holds. Creating a block does not disturb the node's own state.",
  ["histories", "schedules", "inputs"],
  "every pool content and every interleaving of transaction arrival with block production",
  "tests never produce a block from a contended pool",
  ["src/Node_update.cpp", "src/Node_validate.cpp"], [("transactions are re-executed when selected", "Node::validate_for_block, Node::make_block")],
  [], ["acceptance of the block by a second node"])
p("C22", "Invalid input from peers is refused without a trace",
  "Blocks, transactions, proofs and votes that violate any consensus rule (wrong parent, height, reward, difficulty, proof, signature, execution result, size or altered content) are never adopted, whatever order they arrive in. Handling them leaves the node's state unchanged and able to follow the valid chain.",
  ["inputs", "schedules"],
  "every mutation of otherwise valid blocks and messages, delivered before, between and after their valid siblings",
  "tests feed only valid blocks",
  ND + ["src/Block.cpp", "src/BlockHeader.cpp"], [("full verification before adoption", "Node::validate(block), Node::verify")],
  [], ["peak and state after delivery"])
p("C23", "The transaction pool stays payable and fair to valid transactions",
  "Each periodic clean-up leaves the fees of every sender's pooled transactions covered by that sender's balance, and the pool never keeps a transaction that is on the node's chain. A valid, sufficiently funded transaction handed to a synchronised node is in a block within a bounded number of the blocks that node farms with room to spare, also after a reorganisation took it out of a block.",
  ["histories", "schedules"],
  "every arrival order of transactions from competing senders interleaved with blocks, reorganisations and expiry",
  "no test fills a pool",
  ["src/Node_update.cpp", "src/Node_api.cpp"], [("per-sender fee accounting on admission and eviction", "Node::tx_pool_update, Node::purge_tx_pool")],
  [], ["Node::get_tx_pool / tx info / included transactions"])
p("C24", "What a node reports matches its chain",
  "Every answer of a node's query interface describes the chain it follows: blocks and headers by height and hash, transactions with their block and outcome, transaction lists, filtered history of addresses, balances and supply, contracts deployed by or owned by an address, executions of a contract, open offers, trades, farmed blocks and farmer ranking. Nothing of an abandoned fork is ever reported after a reorganisation, nothing is reported twice or left out, also after restarts and crashes, and an answer given while blocks are applied or reverted fits one chain the node was on during the call.",
  ["histories", "schedules", "crash_points"],
  "every history of blocks, reorganisations and crashes, with queries at any moment on concurrent threads",
  "no test queries a node",
  ["src/Node_api.cpp", "src/Node_update.cpp", "src/Node.cpp", "include/mmx/multi_table.h"], [("log tables reverted with the chain, reads under the database lock", "Node::apply, Node::revert, Node::get_history and the other query methods")],
  [], ["answers of the Node query interface, compared with the blocks of the node's chain"])
# ------------------------------------------------------------------ network, wallet, timelord, farming
p("C30", "The relay delivers messages to everybody, once, and only verified ones",
  "As long as its connections hold, every verified block, transaction, vote, proof of space and proof of time reaches all nodes of the network within a bounded time. A router hands each message to its node at most once, sends each message at most once over a connection and never back to the peer it came from, so duplicates and loops never multiply traffic. It hands its node only messages whose content is intact, drops peers that send malformed ones or cannot prove the identity they claim, and passes on to other peers only what its own node verified or originated, apart from the one unverified relay that a timelord or farmer has earned by an earlier verified message. Requests of peers get exactly one answer.",
  ["schedules", "fault_sequences", "histories"],
  "every topology of peers, message delay and order, slow and blocked connections, resets, partitions, crashes and restarts, with peers that send forged, malformed, repeated and too early messages",
  "tests never start the router",
  ["src/Router.cpp"], [("seen-hash cache and per-peer sent cache", "Router::receive_msg_hash, relay_msg_hash, send_to"), ("relay credit", "Router::on_vdf, on_block")],
  [], ["messages published by each router, messages and answers arriving at raw peers"])
p("C31", "Block requests to peers are answered exactly once, with the right block",
  "Every request to fetch a block or the blocks at a height gets exactly one answer within a bounded time, a block returned for a hash or height is a block with that hash or height, and blocks with inconsistent content are never returned. A block that every good peer has is found. Only synchronised peers are asked for blocks at a height. Slow, disconnecting, failing or lying peers delay but never lose a request as long as enough good peers remain, and with fewer lying peers than the configured minimum of sync peers the answer for a height contains the block that all honest peers have.",
  ["schedules", "fault_sequences", "histories"],
  "every schedule of replies, errors, delays, disconnects and reconnects of the peers asked, with peers that lie about hashes, send wrong, corrupt or no blocks, and answer what others were asked",
  "tests never start the router",
  ["src/Router.cpp"], [("sync and fetch jobs with timeouts and retry", "Router::process, Router::update")],
  [], ["replies of the router's fetch methods"])
p("C40", "The wallet never commits the same funds twice",
  "The transactions a wallet has sent and that are still pending never together spend more than the wallet's confirmed balance, and a send that would is refused. When a pending transaction is confirmed or expires, its funds are released exactly once, and what the wallet reports as spendable equals confirmed minus pending and reserved amounts. Every transaction it makes pays exactly what was asked for, from its own addresses. (A wallet restart or cache reset forgets what is pending, and so does a confirmation that a reorganisation undoes.)",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of sends, confirmations, expiry, failed broadcasts, cache resets and incoming payments",
  "no test runs a wallet against a progressing chain",
  ["src/Wallet.cpp", "include/mmx/ECDSA_Wallet.h"], [("pending and reserved maps subtracted from the cached balance", "ECDSA_Wallet::update_cache, update_from, gather_inputs")],
  [], ["transactions emitted and balances reported by the wallet"])
p("C41", "Every proof of time a timelord publishes verifies",
  "Whatever order and timing interval requests, infusions, chain switches and restarts arrive with while it computes, a timelord publishes and signs only proofs whose segments follow from the stated input and infusion by the prescribed hashing. Once requests stop changing it delivers the requested proofs in bounded time.",
  ["schedules", "histories"],
  "every interleaving of the computing thread with incoming requests for changing infusions, forks and overlapping intervals",
  "no test runs a timelord",
  ["src/TimeLord.cpp"], [("history of segment outputs guarded by a mutex; restart when an infusion changes", "TimeLord::handle, TimeLord::vdf_loop, TimeLord::update")],
  [], ["published ProofOfTime messages"])
p("C42", "A harvester answers each challenge once, from all eligible plots",
  "For every challenge it takes up, a harvester examines each of its plots exactly once and publishes one response for each winning proof and exactly one summary, whatever the order in which its worker threads run or fail. It never answers the same challenge twice with the same set of plots, and a plot that fails to read does not suppress the answers of the others.",
  ["schedules", "fault_sequences"],
  "every interleaving of the lookup workers, of new challenges with running lookups, and read failures of any plot",
  "no test runs a harvester",
  ["src/Harvester.cpp"], [("job counter and condition variable shared by lookup tasks", "Harvester::lookup_task")],
  [], ["published lookup summaries and proofs"])
p("C43", "A farmer signs only its own proofs and accounts every partial once",
  "Every valid proof that a harvester finds for one of the farmer's keys is published signed exactly once, and nothing altered, invalid or belonging to a foreign key is ever signed (blocks, votes, proofs, partials). Every partial goes to its pool exactly once, names the farmer's payout address, and its outcome is counted exactly once as accepted or failed. The farm summary adds up the latest report of each harvester that is still alive, and the partial difficulty of a plot contract ends up as what that contract's current pool tells.",
  ["schedules", "fault_sequences", "histories"],
  "every order of proofs, partials, pool answers, wallet answers, harvester reports and restarts of farmer or wallet, with slow and failing pools",
  "no test runs a farmer",
  ["src/Farmer.cpp"], [("signing with the farmer keys", "Farmer::handle(ProofResponse), Farmer::sign_block"), ("partials", "Farmer::handle(Partial)"), ("pool difficulty", "Farmer::query_difficulty")],
  [], ["published proofs", "HTTP requests seen by the pools", "get_farm_info, get_partial_diff"])
# ------------------------------------------------------------------ pure functions (not a simulation target)
T = "pure function; fixed vectors in the tests, no schedule, clock, fault or interleaving is involved"
p("N01", "Serialisation of transactions, blocks and contracts round-trips",
  "Encoding any object and decoding it yields an equal object, and the hash that identifies it depends on every field that matters for consensus.",
  ["inputs"], "every object value", T, ["include/mmx/write_bytes.h", "src/Transaction.cpp", "src/BlockHeader.cpp", "src/operation/Execute.cpp"], [("hash serialisation", "Transaction::calc_hash, BlockHeader::calc_hash")])
p("N02", "All hash back ends agree",
  "Portable, SIMD and hardware-accelerated implementations of the hash functions give identical results for every input.",
  ["inputs", "configurations"], "every input and CPU feature set", T, ["src/sha256_ni.cpp", "src/sha256_avx2.cpp", "src/sha512.cpp", "src/hmac_sha512.cpp"], [("runtime dispatch", "sha256_ni_available")])
p("N03", "Proof-of-space verification accepts exactly genuine proofs",
  "A proof is accepted if and only if it satisfies the plot function for the given plot and challenge.",
  ["inputs"], "every plot id, challenge and proof", T, ["src/pos/verify.cpp", "src/pos/verify_full.cpp", "src/pos/mem_hash.cpp", "src/pos/encoding.cpp"], [("table recomputation", "pos::compute")])
p("N04", "Contract programs compile and execute to their source meaning",
  "The machine produces, for every program and input, the result the contract language defines and charges the defined cost, on every platform.",
  ["programs", "inputs"], "every contract source and call", T, ["src/vm/Compiler.cpp", "src/vm/Engine.cpp", "src/vm/var_t.cpp"], [("bytecode generation and interpretation", "Compiler, Engine::exec")])
p("N05", "Addresses, amounts, keys and mnemonics convert without loss",
  "Every address, amount, key and seed phrase printed by the system parses back to the same value and malformed text is refused.",
  ["inputs"], "every value and every malformed string", T, ["src/addr_t.cpp", "src/mnemonic.cpp", "src/fixed128.cpp", "src/secp256k1.cpp"], [("bech32 / hex / mnemonic codecs", "addr_t::from_string, mnemonic::words_to_seed")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
