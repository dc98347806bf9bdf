#include "byz.h"
#include "report.h"
using namespace world;

// ------------------------------------------------------------------ scenario
struct Net {
	std::vector<NodeBox*> box;
	Chain chain;
	TxGen gen;
	hash_t best;						// peak most recently seen anywhere
	std::map<int, hash_t> peak;
	struct Root { hash_t hash; uint32_t height = 0; };
	std::map<int, Root> root;
	bool check_final = true, cross_final = false;
	std::string state_props = "C18 C16 C15 C10";
	bool stop = false, byzantine = false;
	std::set<hash_t> invalid_seen;

	// the pool (C23)
	struct Live { NodeBox* at = nullptr; uint32_t inc = 0; int64_t since = 0; std::set<hash_t> missed; bool was_on = false; };
	std::map<hash_t, Live> live;							// simple funded transfers which must get into a block
	std::map<std::pair<int, addr_t>, int64_t> uncovered;	// [(node, sender) => since]
	uint64_t live_count = 0;
	static bool calm() { return sim::policy.stall == 0 && sim::policy.stall_task == 0; }
	void send_live(NodeBox& b) {
		if(!calm() || !b.ready() || live_count >= 60) return;
		const auto h = gen.height;
		auto t = Mutator::plain_tx(NUM_USERS, users[W(NUM_USERS)].addr, 1 + W(1000), addr_t(), pick({1024, 10240, 2048, 30000}), h + 1, (uint64_t(99) << 32) + ++live_count);
		Mutator::solve(t, {NUM_USERS});
		bool ok = false;
		b.call([&]() { if(b.node->is_synced) { ok = true; b.node->add_transaction(t, false); } });
		TxInfo info; info.tx = t; info.kind = "simple transfer"; info.plain = true; info.time_us = sim::now_us();
		gen.sent[t->id] = info;
		if(!ok) return;
		auto& l = live[t->id]; l.at = &b; l.inc = b.m->inc; l.since = sim::now_us();
		sim::count("simple_transfers_sent");
	}
	void check_pool(NodeBox& b) {
		auto* node = b.node;
		const auto state = node->state_hash;
		if(!chain.has(state)) return;
		std::map<addr_t, uint128> fees;
		for(const auto& e : node->tx_pool) {
			if(chain.on_chain(state, e.first)) bad("C23 C13", "pooled transaction is on the chain", S(e.first) + " on " + name(b));
			if(e.second.tx && e.second.tx->sender) fees[*e.second.tx->sender] += e.second.fee;
		}
		const auto now = sim::now_us();
		for(auto it = uncovered.begin(); it != uncovered.end();) if(it->first.first == b.index && (!fees.count(it->first.second) || fees[it->first.second] <= chain.balance(state, it->first.second, addr_t()))) it = uncovered.erase(it); else ++it;
		for(auto& e : fees) if(e.second > chain.balance(state, e.first, addr_t())) {
			auto it = uncovered.emplace(std::make_pair(b.index, e.first), now).first;
			if(!calm() || !node->is_synced) it->second = now;
			if(now - it->second > 60000000) bad("C23", "pooled fees not covered", name(b) + " holds transactions of " + S(e.first) + " with fees of " + S(e.second) + ", balance " + S(chain.balance(state, e.first, addr_t())) + ", for a minute");
		}
		sim::count("pools_checked");
		for(auto it = live.begin(); it != live.end();) {
			auto& l = it->second;
			if(l.at != &b) { ++it; continue; }
			if(l.inc != b.m->inc || !node->is_synced || !calm()
				|| (!l.was_on && gen.sent[it->first].tx->version != get_transaction_version(params, chain.known[state].block->height + 1))) { it = live.erase(it); continue; }		// (the pool is not durable)
			if(chain.on_chain(state, it->first)) {
				if(!l.was_on) sim::count("simple_transfers_included");
				l.was_on = true; l.since = now; l.missed.clear();
				if(chain.on_chain(node->root->hash, it->first)) { it = live.erase(it); continue; }
				++it; continue;
			}
			for(auto h = state; chain.has(h) && chain.known[h].seen_us > l.since + 3000000; h = chain.known[h].block->prev) {
				auto blk = chain.known[h].block;
				uint64_t cost = 0;
				for(auto tx : blk->tx_list) if(tx) cost += tx->static_cost;
				if(cost > params->max_block_size / 20) continue;
				const auto key = blk->get_farmer_key();
				bool mine = false;
				for(int i : b.farmer_ids) mine |= farmers[i].pk == key;
				if(mine) l.missed.insert(h);
			}
			if(l.missed.size() >= 5) {
				std::string why = "valid now";
				try { const auto r = node->validate(gen.sent[it->first].tx); if(r.did_fail) why = "now fails: " + r.get_error_msg(); } catch(const std::exception& ex) { why = std::string("now refused: ") + ex.what(); }
				bad("C23", "valid transaction is not included", name(b) + " farmed " + std::to_string(l.missed.size()) + " blocks with room since it " + (l.was_on ? "went back from a block with" : "got") + " the funded transfer " + S(it->first)
					+ (node->tx_pool.count(it->first) ? ", which is in its pool" : ", which is not in its pool") + ", " + why);
				it = live.erase(it); continue;
			}
			++it;
		}
	}

	// questions to the nodes' API (C24)
	struct Answer { NodeBox* b; std::string what; hash_t before, after; int64_t us; report::Check check; std::string error; };
	std::vector<Answer> answers;
	std::map<hash_t, std::shared_ptr<report::Ref>> refs;
	bool asking = false, no_more_questions = false;
	void ask(NodeBox& b) {
		asking = true;
		auto next = b.on_boot;
		b.on_boot = [this, next](NodeBox& b) {
			if(next) next(b);
			auto* box = &b;
			const int n = 1 + W(2);
			for(int i = 0; i < n; ++i) sim::spawn(b.m, "api client", [this, box]() {
				auto& b = *box;
				sim::wait_until([&]() { return b.ready() || no_more_questions; }, 600000000, 100000);
				NodeClient client("Node");
				report::Asker asker; asker.gen = &gen; asker.chain = &chain;
				while(!no_more_questions && b.node && !b.node->vnx_finished) {
					sim::sleep_us(1000 * (W(10) ? 1 + W(2000) : 1));
					if(no_more_questions || b.node->vnx_finished || !b.ready()) continue;
					Answer a;
					a.b = box; a.before = b.node->state_hash;
					const auto t0 = sim::now_us();
					const auto top = gen.height;
					try { a.check = asker.ask(client, top, a.what); }
					catch(const std::exception& ex) { a.error = ex.what(); }
					a.after = b.node->state_hash; a.us = sim::now_us() - t0;
					if(b.node->vnx_finished || !b.m->alive) break;
					if(a.what.size()) answers.push_back(a);
				}
			});
		};
	}
	report::Ref& ref(const hash_t& h) {
		auto& r = refs[h];
		if(!r) {
			if(refs.size() > 12) { refs.clear(); return ref(h); }
			r = std::make_shared<report::Ref>(chain.line(h), chain.known[h].ledger.get());
			for(auto& b : r->line) r->machines.push_back(&chain.known[b->hash].machines);
		}
		return *r;
	}
	void settle() {
		auto list = std::move(answers);
		answers.clear();
		for(auto& a : list) {
			if(a.error.size()) { sim::count("question refused: " + a.error); sim::log_line("question refused: " + a.what + ": " + a.error); continue; }
			if(!chain.has(a.before) || !chain.has(a.after)) { sim::count("answers_from_an_unknown_block"); continue; }
			sim::count("answers_checked");
			auto err = a.check(ref(a.after));
			if(err.empty()) continue;
			const bool strict = a.before == a.after && a.us < 100000;
			if(!strict) {		// the peak moved meanwhile: the answer must fit one of the blocks it went through
				sim::count("answers_during_a_change");
				bool ok = a.check(ref(a.before)).empty();
				const auto h = chain.known[a.after].block->height;
				if(!ok) for(auto& e : chain.known) if(e.second.block->height + 6 > h && e.second.block->height < h + 6 && a.check(ref(e.first)).empty()) { ok = true; break; }
				if(ok) continue;
			}
			bad("C24", "wrong answer", name(*a.b) + " at block " + S(a.after) + " height " + std::to_string(chain.known[a.after].block->height) + (strict ? "" : " (or before)") + ", " + a.what + ": " + err);
		}
	}

	void make(int n) {
		for(int i = 0; i < n; ++i) {
			auto* b = new NodeBox();
			b->m = sim::add_machine("n" + std::to_string(i + 1)); b->index = i; b->ip = "10.0.0." + std::to_string(i + 1);
			net::set_address(b->m, b->ip);
			vnx::init_process(b->m);
			const auto iters = get_block_iters(params, params->initial_time_diff * params->time_diff_divider);
			b->us_per_iter = params->block_interval_ms * 1000.0 / iters;
			box.push_back(b);
		}
		for(int i = 0; i < 8; ++i) box[i % n]->farmer_ids.push_back(i);
		for(auto* b : box) for(auto* o : box) if(o != b) b->peers.push_back(o->ip);
	}
	std::string name(NodeBox& b) { return b.m->name; }
	// look at one node, on its own fiber
	bool probe(NodeBox& b) {
		if(!b.ready()) return true;
		const auto inc = b.m->inc;
		const bool ok = b.call([&]() {
			if(!byzantine) for(auto& e : b.node->fork_tree) if(e.second->is_invalid && invalid_seen.insert(e.first).second) {
				auto blk = e.second->block;
				bad("C21", "produced block is invalid", name(b) + " rejects block " + world::S(e.first) + " of height " + std::to_string(blk->height) + " with " + std::to_string(blk->tx_list.size()) + " transactions, all blocks come from correct nodes");
			}
			if(check_final) check_root(b);
			if(b.node->state_hash == peak[b.index]) { if(!byzantine) check_pool(b); return; }
			chain.learn(b, name(b));
			if(!byzantine) check_pool(b);
			if(!chain.has(b.node->state_hash)) return;
			if(check_final && !chain.descends(b.node->state_hash, b.node->root->hash)) bad("C19 C15 C16", "finalised block is not on the node's chain", name(b) + " peak " + S(b.node->state_hash) + " root " + S(b.node->root->hash));
			peak[b.index] = best = b.node->state_hash;
			const auto h = chain.known[best].block->height;
			gen.height = std::max(gen.height, h);
			if(b.node->is_synced || b.node->do_sync == false) {
				chain.check_ledger(b, name(b));
				chain.check_state(b, name(b), state_props.c_str());
			}
			sim::state(sim::hash64(best.data(), 32));
		});
		if(!ok && b.stuck && b.m->alive && b.m->inc == inc) {
			bad("C10 C21 C23 C15 C16 C17 C22", "node stuck", name(b) + " did not answer for 20 min after all faults stopped:" + sim::fiber_report(b.m));
			return false;
		}
		return true;
	}
	void check_root(NodeBox& b) {
		auto h = b.node->root;
		auto it = root.find(b.index);
		if(it != root.end()) {
			if(h->height < it->second.height && !b.fresh_boot) bad("C19", "finalised height moved backwards", name(b) + " from " + std::to_string(it->second.height) + " to " + std::to_string(h->height));
			if(h->hash == it->second.hash) { b.fresh_boot = false; return; }
			if(b.fresh_boot && h->height <= it->second.height) {		// restarted: stay with the higher one
				chain.learn(b, name(b));
				b.fresh_boot = false;
				return;
			}
		}
		chain.learn(b, name(b));
		if(!chain.has(h->hash)) { bad("C19 C15 C16", "finalised block is not on the node's chain", name(b) + " root " + S(h->hash)); return; }
		if(it != root.end() && !chain.descends(h->hash, it->second.hash)) {
			// only a heavier chain may replace what was final
			auto A = chain.line(peak.count(b.index) ? peak[b.index] : it->second.hash), B = chain.line(b.node->state_hash);
			bool heavier = A.empty() || B.empty() || B.back()->total_weight >= A.back()->total_weight;
			for(size_t i = it->second.height; i < B.size() && !heavier; ++i) heavier = i >= A.size() || B[i]->total_weight >= A[i]->total_weight;
			sim::count("deep_forks");
			if(cross_final || !heavier) bad("C19", "finalised block replaced", name(b) + " finalised " + S(h->hash) + " height " + std::to_string(h->height) + " after " + S(it->second.hash) + " height " + std::to_string(it->second.height));
		}
		if(it != root.end() && h->height > it->second.height) sim::count("finalised_blocks", h->height - it->second.height);
		root[b.index] = {h->hash, h->height};
		b.fresh_boot = false;
		if(cross_final) for(auto& e : root) if(e.first != b.index && !chain.descends(e.second.hash, h->hash) && !chain.descends(h->hash, e.second.hash))
			bad("C19", "two nodes finalised different blocks", name(b) + " height " + std::to_string(h->height) + " " + S(h->hash) + ", n" + std::to_string(e.first + 1) + " height " + std::to_string(e.second.height) + " " + S(e.second.hash));
	}
	uint128 balance(const addr_t& a, const addr_t& c) { return chain.balance(best, a, c); }
	void send_tx(NodeBox& b) {
		gen.ghosts.clear();
		if(gen.forks && W(3) == 0) {
			std::set<addr_t> here;
			for(auto blk : chain.line(peak[b.index])) for(auto tx : blk->tx_list) here.insert(tx->id);
			for(auto& c : gen.contracts) if(chain.deployed.count(c.addr) && !here.count(c.addr)) gen.ghosts.insert(c.addr);
			if(gen.ghosts.size()) sim::count("calls to contracts of another fork");
		}
		auto info = gen.make();
		if(box.size() > 1 && !info.tx->is_valid(params)) { sim::count("malformed tx kept from the network"); return; }		// peers would drop its sender
		const bool exact = gen.want_exact;
		b.call([&]() {
			if(exact) {
				try {
					auto copy = vnx::clone(info.tx);
					const auto res = b.node->validate(info.tx);
					gen.refinish(res.total_fee - std::min<uint32_t>(res.total_fee, pick({0, 1, 100, 1000, 5000, 10000})));
				} catch(...) {}
			}
			b.node->add_transaction(info.tx, false);
		});
		gen.submitted(info);
		sim::count("tx_sent: " + info.kind);
		sim::trace("tx %s %s via %s", S(info.tx->id).c_str(), info.kind.c_str(), name(b).c_str());
	}
};

// ------------------------------------------------------------------ replay of a chain on a fresh node, one block after the other, one transaction after the other
static void replay_reference(Net& net, const hash_t& peak, bool with_failed) {
	auto line = net.chain.line(peak);
	if(line.size() < 2) return;
	auto* b = new NodeBox();
	b->m = sim::add_machine("ref"); b->index = 99; b->ip = "10.0.1.99"; b->has_farmer = b->has_timelord = false; b->num_threads = 1;
	net::set_address(b->m, b->ip);
	const auto stall = sim::policy.stall, stall_task = sim::policy.stall_task;
	sim::policy.stall = sim::policy.stall_task = 0;
	b->boot();
	if(!sim::wait_until([&]() { return b->ready(); }, 600000000, 100000)) { sim::harness_error("reference node does not start"); }
	b->call([&]() {
		auto* node = b->node;
		if(node->state_hash != line[0]->hash) sim::harness_error("reference node has another genesis block");
		for(size_t i = 1; i < line.size(); ++i) {
			const auto& block = line[i];
			try {
				auto fork = std::make_shared<Node::fork_t>();
				fork->block = block;
				node->add_fork(fork);
				node->verify_proof(block);
				node->validate(block);
			} catch(const std::exception& ex) {
				bad("C21 C22 C10", "adopted block is invalid", "block " + S(block->hash) + " height " + std::to_string(block->height) + " was adopted but a fresh node refuses it: " + ex.what());
				return;
			}
			auto ctx = node->new_exec_context(block->height);
			for(const auto& tx : block->tx_list) {
				const bool fail = tx->exec_result && tx->exec_result->did_fail;
				if(fail && !with_failed) continue;
				try {
					node->prepare_context(ctx, tx);
					node->validate(tx, ctx);
				} catch(const std::exception& ex) {
					bad(with_failed ? "C10 C21" : "C14", "transaction result differs when executed one after the other", S(tx->id) + " in block " + S(block->hash) + " height " + std::to_string(block->height) + ": " + ex.what());
					return;
				}
			}
			node->apply(block, ctx);
			net.chain.check_state(*b, "a fresh replay", with_failed ? "C10 C15 C16 C18 C21" : "C14");
			sim::count("replayed_blocks"); sim::count("nontrivial");
		}
		std::string miss;
		if(!with_failed) for(const auto& block : line) for(const auto& tx : block->tx_list) if(tx->exec_result && tx->exec_result->did_fail) {
			sim::count("failed_tx_checked");
			if(node->contract_map.count(tx->id)) bad("C14", "failed deployment left a contract", S(tx->id));
		}
	});
	sim::crash(b->m);
	sim::policy.stall = stall; sim::policy.stall_task = stall_task;
}

static void run_single() {
	enter();
	params = draw_params();
	sim::policy.preempt = 0.02; sim::policy.pick_random = 0.2; sim::policy.step_us = 2; sim::policy.max_steps = 200000000;
	sim::policy.stall = pick({0.0, 2e-4, 2e-3}); sim::policy.stall_task = pick({0.0, 0.02, 0.1}); sim::policy.stall_us = pick({300000, 2000000});
	params->initial_time_stamp = vnx::get_wall_time_millis();
	Net net;
	net.make(1);
	net.gen.run_salt = 1;
	net.chain.gen = &net.gen;
	net.chain.full_dump = true;
	net.gen.balance = [&](const addr_t& a, const addr_t& c) { return net.balance(a, c); }; net.gen.exists = [&](const addr_t& a) { return net.chain.deployed.count(a) != 0; };
	auto& b = *net.box[0];
	b.num_threads = pick({2, 4, 1, 8});
	if(prop == "C24") net.ask(b);
	b.boot();
	sim::wait_until([&]() { return b.ready(); }, 60000000, 100000);
	b.call([&]() { auto g = b.node->get_block_at(0); for(auto tx : g->tx_list) net.chain.extra_tx[tx->id] = tx; });
	const uint32_t rate = pick({50, 20, 90, 5}), burst = pick({2, 0, 10});
	net.gen.machines = pick({0, 0, 60, 90, 20});
	if(prop == "C23" && W(3)) sim::policy.stall = sim::policy.stall_task = 0;
	const uint32_t plain = pick({0, 5, 30});
	for(int i = 0; i < 400; ++i) {
		sim::sleep_us(500000);
		if(!net.probe(b)) break;
		if(net.asking) net.settle();
		if(i > 10 && W(100) < rate) { const int n = W(100) < burst ? 1 + W(40) : 1; net.gen.heat(); for(int k = 0; k < n; ++k) net.send_tx(b); }
		if(i > 10 && W(100) < plain) net.send_live(b);
	}
	if(W(2) == 0 || prop == "C14" || prop == "C10") replay_reference(net, net.best, prop != "C14");
	sim::trace("blocks %lu tx %lu failed %lu", net.chain.num_blocks, net.chain.num_tx, net.chain.num_failed);
	std::map<std::string, int> on, failed, total;
	std::map<std::string, std::string> why;
	for(auto blk : net.chain.line(net.best)) for(auto tx : blk->tx_list) if(net.gen.sent.count(tx->id)) {
		auto k = net.gen.sent[tx->id].kind; on[k]++;
		if(tx->exec_result->did_fail) { failed[k]++; if(tx->exec_result->error) why[k] = tx->exec_result->error->message; }
	}
	for(auto& e : net.gen.sent) total[e.second.kind]++;
	for(auto& e : total) sim::log_line("kind " + e.first + ": " + std::to_string(e.second) + " sent, " + std::to_string(on[e.first]) + " on chain, " + std::to_string(failed[e.first]) + " failed  " + why[e.first]);
	sim::finish();
}

// ------------------------------------------------------------------ an honest node, a receiving node, and a byzantine peer between them
static bool vdf_ok(std::shared_ptr<const ProofOfTime> p) {
	hash_t x(p->input + p->prev);
	x = hash_t(x + p->reward_addr);
	if(p->segment_size != params->vdf_segment_size || p->segments.size() * p->segment_size != p->num_iters || p->segments.empty()) return false;
	for(auto& s : p->segments) { for(uint32_t k = 0; k < p->segment_size; ++k) x = hash_t(x.bytes.data(), x.bytes.size()); if(x != s) return false; }
	return true;
}
static void run_byz() {
	enter();
	params = draw_params();
	sim::policy.preempt = 0.02; sim::policy.pick_random = 0.2; sim::policy.step_us = 2; sim::policy.max_steps = 200000000;
	sim::policy.stall = 0; sim::policy.stall_task = pick({0.0, 0.02, 0.1}); sim::policy.stall_us = 300000;
	params->initial_time_stamp = vnx::get_wall_time_millis();
	Net net;
	net.make(2);
	net.byzantine = true; net.check_final = true;
	net.gen.run_salt = 1;
	net.chain.gen = &net.gen;
	net.chain.full_dump = true;
	net.chain.authorised_only = true;
	net.state_props = "C22 C16 C10 C12 C13";
	net.gen.balance = [&](const addr_t& a, const addr_t& c) { return net.balance(a, c); }; net.gen.exists = [&](const addr_t& a) { return net.chain.deployed.count(a) != 0; };
	auto& A = *net.box[0]; auto& V = *net.box[1];
	A.peers.clear(); V.peers.clear();
	A.farmer_ids = {0, 1, 2, 3, 4, 5, 6, 7}; V.farmer_ids = {0};
	V.has_farmer = V.has_timelord = false;
	A.num_threads = pick({2, 4}); V.num_threads = pick({2, 4, 1, 8});
	net::partition(A.m->id, V.m->id, true);
	Mutator mut;
	mut.A = &A; mut.chain = &net.chain; mut.gen = &net.gen;
	struct Msg { int64_t time; uint64_t seq; std::shared_ptr<const vnx::Value> value; const char* topic; };
	std::vector<Msg> queue;
	std::map<hash_t, Mutant> mutants;
	std::map<hash_t, std::string> allowed;				// valid alternatives (a farmer signing twice)
	std::set<hash_t> genuine_proofs, forged_votes_ok;
	std::set<std::pair<hash_t, pubkey_t>> real_votes;	// properly signed by that key
	std::vector<Msg> history;
	uint64_t seq = 0;
	bool stop = false;
	auto R = [](uint32_t n) { return sim::draw(sim::S_MISC, n); };
	auto push = [&](std::shared_ptr<const vnx::Value> v, const char* topic, int64_t delay) { queue.push_back({sim::now_us() + delay, seq++, v, topic}); };
	std::vector<std::shared_ptr<const Block>> incoming;
	std::set<hash_t> passed_on;
	const int64_t lat = pick({20000, 200000, 600000});
	const uint32_t p_mut = pick({50, 100, 25});
	auto lag = [&]() { return int64_t(1000 + R(uint32_t(lat))); };
	struct Own { hash_t hash; int64_t time; };
	std::map<std::pair<hash_t, pubkey_t>, Own> own_votes;		// [(parent, key)]
	auto header_of = [&](const hash_t& h) -> std::shared_ptr<const BlockHeader> { auto it = mut.genuine.find(h); return it == mut.genuine.end() ? nullptr : it->second; };
	auto* tapA = new Tap("TapA", {"node.verified_blocks", "node.verified_vdfs", "node.verified_votes", "node.verified_proof", "node.verified_transactions"}, [&](std::shared_ptr<const vnx::Value> v) {
		if(stop) return;
		if(auto b = std::dynamic_pointer_cast<const Block>(v)) {
			mut.genuine.emplace(b->hash, b);
			if(passed_on.insert(b->hash).second) { incoming.push_back(b); for(auto& t : b->tx_list) if(mut.past.size() < 300) mut.past.push_back(t); }
		} else if(auto p = std::dynamic_pointer_cast<const ProofOfTime>(v)) {
			if(R(100) < p_mut / 2) {
				auto q = vnx::clone(*p);
				const char* kind = "";
				const int id = R(2) ? 0 : 1;
				bool resign = true;
				switch(R(8)) {
					case 0: q->segments[R(q->segments.size())] = Mutator::junk(); kind = "segment"; break;
					case 1: q->segments.back() = Mutator::junk(); kind = "output"; break;
					case 2: q->reward_addr = Mutator::thief(); kind = "reward address"; break;
					case 3: q->segments.pop_back(); kind = "short"; break;
					case 4: q->prev = Mutator::junk(); kind = "infusion"; break;
					case 5: q->start += params->vdf_segment_size; kind = "start"; break;
					case 6: q->segments.pop_back(); q->num_iters -= q->segment_size; kind = "fewer iterations"; break;
					case 7: q->timelord_sig = signature_t::sign(users[0].sk, q->hash); resign = false; q->content_hash = q->calc_content_hash(); kind = "signature"; break;
				}
				if(resign) { q->timelord_key = timelords[id].pk; q->hash = q->calc_hash(); q->timelord_sig = signature_t::sign(timelords[id].sk, q->hash); q->content_hash = q->calc_content_hash(); }
				push(q, "network.vdfs", R(lat)); sim::count(std::string("byz_vdf: ") + kind);
			}
			push(p, "network.vdfs", lag());
			if(R(5) == 0) push(p, "network.vdfs", 3 * lag());
		} else if(auto r = std::dynamic_pointer_cast<const ProofResponse>(v)) {
			genuine_proofs.insert(r->proof->calc_hash());
			if(R(100) < p_mut / 2) {
				auto q = vnx::clone(*r);
				auto p = vnx::clone(r->proof);
				const char* kind = "";
				switch(R(6)) {
					case 0: p->farmer_key = farmers[R(NUM_FARMERS)].pk; kind = "key"; break;
					case 1: p->score ^= 1; kind = "score"; break;
					case 2: p->difficulty++; kind = "difficulty"; break;
					case 3: if(auto o = std::dynamic_pointer_cast<ProofOfSpaceOG>(p)) { o->proof_xs[R(o->proof_xs.size())] ^= 1 + R(3); o->score = get_proof_score(o->calc_proof_hash()); } kind = "content"; break;
					case 4: q->vdf_height += 1 + R(3); kind = "height"; break;
					case 5: p->challenge = Mutator::junk(); kind = "challenge"; break;
				}
				if(p->calc_hash() != r->proof->calc_hash()) {
					q->proof = p; q->hash = q->calc_hash();
					if(auto* f = Mutator::farmer_of(p->farmer_key)) q->farmer_sig = signature_t::sign(f->sk, q->hash);
					q->content_hash = q->calc_content_hash();
					push(q, "network.proof", R(lat)); sim::count(std::string("byz_proof: ") + kind);
				}
			}
			push(r, "network.proof", lag());
		} else if(auto w = std::dynamic_pointer_cast<const ValidatorVote>(v)) {
			real_votes.emplace(w->hash, w->farmer_key);
			for(int i = R(3); i-- > 0;) {			// forged, foreign and replayed votes
				auto q = vnx::clone(*w);
				switch(R(5)) {
					case 0: q->farmer_sig = signature_t::sign(users[0].sk, q->hash); sim::count("byz_vote: signature"); break;
					case 1: q->farmer_key = users[0].pk; q->farmer_sig = signature_t::sign(users[0].sk, hash_t("MMX/validator/vote/" + q->hash + q->farmer_key)); real_votes.emplace(q->hash, q->farmer_key); sim::count("byz_vote: not a validator"); break;
					case 2: { auto& f = farmers[R(NUM_FARMERS)]; q->farmer_key = f.pk; q->farmer_sig = w->farmer_sig; if(f.pk == w->farmer_key) continue; sim::count("byz_vote: another validator's key"); break; }
					case 3: if(mutants.empty()) continue; { auto it = mutants.begin(); std::advance(it, R(mutants.size())); q->hash = it->first; sim::count("byz_vote: signature of another vote"); } break;
					case 4: sim::count("byz_vote: replay"); break;
				}
				q->content_hash = q->calc_content_hash();
				push(q, "network.votes", R(4 * lat));
			}
			push(w, "network.votes", lag());
		} else if(auto t = std::dynamic_pointer_cast<const Transaction>(v)) {
			if(t->is_valid(params)) push(t, "network.transactions", lag());
		}
	});
	auto* tapVotes = new Tap("TapVotes", {"node.votes"}, [&](std::shared_ptr<const vnx::Value> v) {
		if(stop) return;
		if(auto w = std::dynamic_pointer_cast<const ValidatorVote>(v)) {
			// a correct node signs once per parent and key, unless the earlier vote is older than a block interval
			if(auto h = header_of(w->hash)) {
				auto& o = own_votes[{h->prev, w->farmer_key}];
				if(o.time) { if(sim::now_us() - o.time < params->block_interval_ms * 1000) bad("C20", "voted twice", "key " + w->farmer_key.to_string().substr(0, 12) + " voted for " + S(o.hash) + " and " + S(w->hash) + " of height " + std::to_string(h->height) + " within " + std::to_string((sim::now_us() - o.time) / 1000) + " ms"); }
				o.hash = w->hash; o.time = sim::now_us();
				sim::count("votes_seen");
			}
		}
	});
	auto* inj = new Tap("Peer", {}, nullptr);
	auto* tapV = new Tap("TapV", {"node.verified_vdfs", "node.verified_proof", "node.verified_transactions"}, [&](std::shared_ptr<const vnx::Value> v) {
		if(stop) return;
		if(auto p = std::dynamic_pointer_cast<const ProofOfTime>(v)) {
			if(!vdf_ok(p)) bad("C22", "invalid proof of time accepted", "for height " + std::to_string(p->vdf_height));
			if(!check_sig(p->timelord_key, p->hash, p->timelord_sig)) bad("C22", "proof of time with a wrong signature accepted", "for height " + std::to_string(p->vdf_height));
		} else if(auto r = std::dynamic_pointer_cast<const ProofResponse>(v)) {
			if(!genuine_proofs.count(r->proof->calc_hash())) bad("C22", "invalid proof of space accepted", "for height " + std::to_string(r->vdf_height));
		} else if(auto t = std::dynamic_pointer_cast<const Transaction>(v)) {
			auto it = net.gen.sent.find(t->id);
			if(it == net.gen.sent.end()) bad("C22 C12", "unknown transaction accepted", S(t->id));
			else if(it->second.expect_invalid) bad("C22 C12", "invalid transaction accepted", it->second.kind);
		}
	});
	A.on_boot = [&](NodeBox& b) { b.start(tapA); b.start(tapVotes); };
	V.on_boot = [&](NodeBox& b) { b.start(inj); b.start(tapV); };
	net.chain.on_add = [&](std::shared_ptr<const Block> b, const std::string& who) {
		if(!b->height || mut.genuine.count(b->hash) || allowed.count(b->hash)) return;
		auto it = mutants.find(b->hash);
		if(it != mutants.end()) bad(it->second.props, "invalid block adopted", who + " adopted a block of height " + std::to_string(b->height) + " with: " + it->second.kind);
		else if(who == "n2") bad("C22", "unknown block adopted", who + " height " + std::to_string(b->height));
		else mut.genuine.emplace(b->hash, b);
	};
	A.boot(); V.boot();
	for(auto* b : net.box) if(!sim::wait_until([&]() { return b->ready(); }, 300000000, 100000)) sim::harness_error("node does not start");
	A.call([&]() { auto g = A.node->get_block_at(0); for(auto tx : g->tx_list) net.chain.extra_tx[tx->id] = tx; });
	const uint32_t rate = pick({50, 20, 90}), burst = pick({2, 0, 10});
	std::map<int, std::shared_ptr<Block>> branch;			// extension of a valid alternative
	std::shared_ptr<Block> alt;
	bool ok = true;
	auto deliver = [&]() {
		std::vector<Msg> now;
		for(auto it = queue.begin(); it != queue.end();) if(it->time <= sim::now_us()) { now.push_back(*it); it = queue.erase(it); } else ++it;
		std::sort(now.begin(), now.end(), [](const Msg& a, const Msg& b) { return std::make_pair(a.time, a.seq) < std::make_pair(b.time, b.seq); });
		for(auto& m : now) inj->vnx_post([inj, m]() { inj->publish(m.value, std::string(m.topic)); });
	};
	auto check_votes = [&](NodeBox& b) {
		b.call([&]() {
			for(auto& e : b.node->fork_tree) {
				uint32_t n = 0;
				for(auto& v : e.second->validators) if(v.second) {
					n++;
					if(!real_votes.count({e.first, v.first})) bad("C20", "vote nobody cast is counted", net.name(b) + " counts a vote of " + v.first.to_string().substr(0, 12) + " for block " + S(e.first));
				}
				if(n != e.second->votes) bad("C20", "vote count", net.name(b) + " counts " + std::to_string(e.second->votes) + " votes for block " + S(e.first) + ", " + std::to_string(n) + " validators voted");
				if(n > params->max_validators) bad("C20", "too many votes", net.name(b) + " counts " + std::to_string(n) + " votes, at most " + std::to_string(params->max_validators) + " validators exist");
				if(n) sim::count("vote_counts_checked");
			}
		});
	};
	for(int i = 0; i < 3600 && ok; ++i) {
		sim::sleep_us(50000);
		// genuine blocks, and altered ones before or after them
		auto list = incoming; incoming.clear();
		for(auto& b : list) {
			const auto d = lag();
			if(R(100) < p_mut) {
				const int n = 1 + R(4);
				for(int k = 0; k < n; ++k) {
					Mutant m;
					A.call([&]() { for(int t = 0; t < 6 && !m.block; ++t) try { m = mut.make(b); } catch(const std::exception& ex) { sim::count(std::string("mutator: ") + ex.what()); } });
					if(!m.block || mut.genuine.count(m.block->hash)) continue;
					mutants[m.block->hash] = m;
					sim::count("byz_block: " + m.kind);
					const bool late = R(4) == 0;
					sim::trace("altered block %s height %u: %s, %s the genuine %s", S(m.block->hash).c_str(), m.block->height, m.kind.c_str(), late ? "after" : "before", S(b->hash).c_str());
					push(m.block, "network.blocks", late ? d + 1 + R(20000000) : R(d));
					if(R(4) == 0 && !late) {		// with a descendant
						auto c = vnx::clone(*b);
						c->prev = m.block->hash; c->height = m.block->height + 1; c->nonce = 5;
						c->total_weight += c->weight; c->vdf_height += c->vdf_count;
						Mutator::sign(c);
						mutants[c->hash] = Mutant{c, "child of: " + m.kind, m.props};
						push(c, "network.blocks", R(d)); sim::count("byz_block: child of an altered block");
					}
				}
			}
			// a valid twin, and later an invalid heavier continuation of it
			if(alt && alt->height + 1 == b->height && b->prev != alt->hash && R(2) == 0) {
				Mutant m;
				auto c = vnx::clone(*b);
				c->prev = alt->hash;
				Mutator::sign(c);
				A.call([&]() {
					// (challenge and proof stay those of the genuine block, which follow from the same history)
					switch(R(4)) {
						case 0: c->txfee_buffer += 1; break;
						case 1: c->base_reward += 1; break;
						case 2: if(c->reward_addr) c->reward_amount += 1000; else c->txfee_buffer += 1; break;
						default: {
							auto t = Mutator::plain_tx(0, Mutator::thief(), 1000, addr_t(), 10240, c->height, mut.nonce()); Mutator::solve(t, {1});
							t->update(Mutator::success(t), params); mut.insert_sorted(c, t); mut.refinish(c); mut.forged(t, "on a twin");
						}
					}
					Mutator::sign(c);
				});
				mutants[c->hash] = Mutant{c, "invalid continuation of a valid twin", "C22 C16 C12"};
				push(c, "network.blocks", R(d)); sim::count("byz_block: invalid continuation of a valid twin");
			}
			if(R(6) == 0 && b->height) {
				alt = vnx::clone(*b);
				alt->nonce += 1 + R(5); Mutator::sign(alt);
				allowed[alt->hash] = "twin"; mut.genuine.emplace(alt->hash, alt);
				push(alt, "network.blocks", R(2 * d)); sim::count("byz_block: valid twin");
			}
			push(b, "network.blocks", d);
			for(int k = 0; k < 6 && R(4) == 0; ++k) push(b, "network.blocks", R(5000000));
		}
		deliver();
		if(i % 10 == 0 && i > 100 && W(100) < rate) { const int n = W(100) < burst ? 1 + W(20) : 1; for(int k = 0; k < n; ++k) net.send_tx(A); }
		if(i % 10 == 5) ok = net.probe(A);
		if(i % 10 == 8 && ok) ok = net.probe(V);
		if(i % 20 == 18 && ok) { check_votes(A); check_votes(V); }
	}
	// nothing but genuine messages for a while: it still follows
	for(int i = 0; i < 600 && ok; ++i) {
		sim::sleep_us(50000);
		auto list = incoming; incoming.clear();
		for(auto& b : list) push(b, "network.blocks", lag());
		deliver();
		if(i % 20 == 5) ok = net.probe(A) && net.probe(V);
	}
	if(ok) {
		auto a = net.chain.line(net.peak[0]), v = net.chain.line(net.peak[1]);
		const size_t k = std::min(a.size(), v.size());
		sim::count("blocks_followed", v.size()); sim::count("nontrivial");
		if(k + 4 < a.size() || k < 3 || a[k - 3]->hash != v[k - 3]->hash)
			bad("C22 C16", "node no longer follows the valid chain", "the honest node is at height " + std::to_string(a.size() - 1) + ", the other one at " + std::to_string(v.size() - 1) + (k >= 3 && a[k - 3]->hash != v[k - 3]->hash ? " on another branch" : ""));
		if(W(2)) { net.best = net.peak[1]; replay_reference(net, net.best, true); }
	}
	stop = true;
	sim::finish();
}

// ------------------------------------------------------------------ several nodes, a faulty network, crashes, partitions
struct NetCfg {
	int min_nodes = 2, max_nodes = 3;
	int ticks = 240;					// of 0.5 s
	double crash = 0;					// per tick
	double disk_crash = 0;				// chance per tick to arm a crash at some disk operation of one node
	double disk_error = 0;				// chance per tick to arm an I/O error at some disk operation of one node
	double cut = 0;						// per tick: cut a link
	int cut_ticks = 6;					// longest
	double reset = 0;					// per tick: break all connections of a link
	bool skew = false;
	bool slow_net = false;
	bool single_timelord = false;
	bool converge = false, final_check = false;
	bool replay = false;
	int quiet_ticks = 0;				// after the faults
};
static void run_net(NetCfg cfg) {
	enter();
	params = draw_params();
	sim::policy.preempt = 0.02; sim::policy.pick_random = 0.2; sim::policy.step_us = 2; sim::policy.max_steps = 200000000;
	sim::policy.stall = pick({0.0, 2e-4, 1e-3}); sim::policy.stall_task = pick({0.0, 0.02}); sim::policy.stall_us = pick({300000, 2000000});
	net::policy.latency_us = pick({5000, 50000, 200000}); net::policy.jitter_us = pick({20000, 200000, 1000000});
	if(cfg.slow_net) { net::policy.stall = pick({0.0, 0.005, 0.02}); net::policy.stall_us = pick({3000000, 10000000}); net::policy.reset = pick({0.0, 0.0005, 0.002}); }
	params->initial_time_stamp = vnx::get_wall_time_millis();
	Net net;
	const int n = cfg.min_nodes + W(cfg.max_nodes - cfg.min_nodes + 1);
	net.make(n);
	if(cfg.final_check && W(2)) { cfg.cut = cfg.reset = cfg.crash = 0; net::policy.reset = net::policy.stall = 0; sim::policy.stall = sim::policy.stall_task = 0; net::policy.latency_us = std::min<int64_t>(net::policy.latency_us, 50000); net::policy.jitter_us = std::min<int64_t>(net::policy.jitter_us, 200000); net.cross_final = true; sim::count("runs_without_message_loss"); }
	net.gen.run_salt = 1;
	net.chain.gen = &net.gen;
	net.chain.full_dump = true;
	net.check_final = cfg.final_check;
	net.gen.forks = true;
	net.gen.balance = [&](const addr_t& a, const addr_t& c) { return net.balance(a, c); }; net.gen.exists = [&](const addr_t& a) { return net.chain.deployed.count(a) != 0; };
	for(auto* b : net.box) {
		b->num_threads = pick({2, 1, 4});
		b->harvest_delay_ms = pick({0, 500, 2000});
		b->miss = pick({0.0, 0.3});
		b->do_sync = b->index != 0 && !cfg.final_check;			// the first node is the network's anchor, as in a test network started by hand
		if(b->index && cfg.single_timelord) b->has_timelord = false;
		else if(b->index) b->has_timelord = W(2);
		if(cfg.skew) b->m->clock_offset_us = (int64_t(W(2001)) - 1000) * 2000;
		b->us_per_iter *= 1 + 0.05 * W(6);
	}
	// star: the others only know the anchor; with only the three of them, two nodes which both fell behind would otherwise sync from each other
	auto star = [&]() { if(cfg.converge) for(int a = 1; a < n; ++a) for(int b = a + 1; b < n; ++b) net::partition(net.box[a]->m->id, net.box[b]->m->id, true); };
	star();
	if(prop == "C24") for(auto* b : net.box) net.ask(*b);
	for(auto* b : net.box) b->boot();
	for(auto* b : net.box) if(!sim::wait_until([&]() { return b->ready(); }, 300000000, 100000)) sim::harness_error("node does not start");
	net.box[0]->call([&]() { auto g = net.box[0]->node->get_block_at(0); for(auto tx : g->tx_list) net.chain.extra_tx[tx->id] = tx; });
	const uint32_t rate = pick({30, 10, 60}), burst = pick({2, 0, 10});
	const uint32_t plain = pick({0, 5, 15});
	net.gen.machines = pick({0, 20, 60});
	std::map<int, int64_t> down;				// [node => restart time]
	std::map<std::pair<int, int>, int> cuts;
	struct Last { hash_t state, prev; uint32_t height = 0; bool competing = false, in_flight = false; };
	std::map<int, Last> last;
	std::map<int, std::pair<int64_t, bool>> booting;		// [node => (since, faults meanwhile)]
	auto P = [&](double p) { return p > 0 && sim::flip(sim::S_MISC, p); };
	auto note_down = [&](NodeBox& b) {
		// what the dying node had (its memory is still there)
		Last l;
		if(b.node && b.up && b.node->root) {
			l.state = b.node->state_hash;
			// another branch it may have been switching to
			for(auto& e : b.node->fork_tree) if(e.second->block->prev != l.state && e.second->block->height > b.node->root->height && !net.chain.descends(l.state, e.first)) l.competing = true;
			auto it = net.chain.known.find(l.state);
			if(it != net.chain.known.end()) l.height = it->second.block->height;
			l.in_flight = true;								// an update (which may go back one block to farm a better one) was under way
			if(b.node->db_mutex.try_lock_shared()) { b.node->db_mutex.unlock_shared(); l.in_flight = false; }
			if(!b.ready() && l.state != net.peak[b.index]) l.in_flight = true;
			if(auto it = b.node->fork_tree.find(l.state); it != b.node->fork_tree.end()) l.prev = it->second->block->prev;
			last[b.index] = l;
		}
		down[b.index] = sim::now_us() + 500000 + int64_t(sim::draw(sim::S_MISC, 20)) * 1000000;
		sim::trace("%s is down", b.m->name.c_str());
	};
	auto after_boot = [&](NodeBox& b) {
		if(!last.count(b.index)) return;
		const auto l = last[b.index];
		last.erase(b.index);
		bool known = false;
		b.call([&]() { if(auto h = b.node->get_header(b.boot_state)) { b.boot_prev = h->prev; b.boot_height = h->height; known = true; } });
		if(!known) return;
		const auto now = b.boot_state;
		sim::count("restarts_checked");
		if(now == l.state) { sim::count("restart_same_block"); return; }
		if(b.boot_prev == l.state) { sim::count("restart_one_block_further"); return; }
		if(l.in_flight && now == l.prev) { sim::count("restart_before_unfinished_commit"); return; }
		if(l.competing || net.chain.descends(l.state, now)) {
			if(l.competing) { sim::count("restart_during_fork"); return; }
			bad("C15", "durable blocks lost", b.m->name + " was on block " + S(l.state) + " height " + std::to_string(l.height) + " when it died and restarted on " + S(now) + " height " + std::to_string(b.boot_height));
			return;
		}
		bad("C15", "restarted on another chain", b.m->name + " was on block " + S(l.state) + " height " + std::to_string(l.height) + " when it died and restarted on " + S(now) + " height " + std::to_string(b.boot_height));
	};
	auto service = [&](bool faults) {
		for(auto* b : net.box) {
			if(b->m->alive && b->up && b->node && b->node->vnx_finished && !down.count(b->index)) {		// the node gave up (disk error): the process ends
				sim::count("node_stopped_by_error");
				sim::crash(b->m);
			}
			if(!b->m->alive && !down.count(b->index)) note_down(*b);
			if(down.count(b->index) && sim::now_us() >= down[b->index]) {
				down.erase(b->index);
				sim::restart(b->m);
				vnx::init_process(b->m);
				b->boot();
				booting[b->index] = {sim::now_us(), false};
				sim::count("restarts");
				sim::trace("%s restarts", b->m->name.c_str());
			}
			if(booting.count(b->index)) {
				if(b->ready()) { booting.erase(b->index); after_boot(*b); }
				else if(!b->m->alive) booting.erase(b->index);
				else if(sim::now_us() - booting[b->index].first > 300000000) bad("C15 C17", "node does not restart", b->m->name + " is not ready 5 min after its restart:" + sim::fiber_report(b->m));
			}
		}
	};
	bool ok = true;
	for(int i = 0; i < cfg.ticks && ok; ++i) {
		sim::sleep_us(500000);
		service(true);
		for(auto* b : net.box) if((i + b->index) % 2 == 0 && !(ok = net.probe(*b))) break;
		if(net.asking && i % 4 == 0) net.settle();
		if(!ok) break;
		if(i > 10 && W(100) < rate) { const int k = W(100) < burst ? 1 + W(20) : 1; for(int j = 0; j < k; ++j) { auto* b = net.box[W(n)]; if(b->ready()) net.send_tx(*b); } }
		if(i > 10 && W(100) < plain) net.send_live(*net.box[W(n)]);
		// faults
		if(P(cfg.crash)) { auto* b = net.box[sim::draw(sim::S_MISC, n)]; if(b->ready() && (b->index || !cfg.converge)) { sim::count("crash_at_random_time"); sim::crash(b->m); note_down(*b); } }
		if(P(cfg.disk_crash) && !sim::disk_faults.active) {
			auto* b = net.box[sim::draw(sim::S_MISC, n)];
			sim::disk_faults.only_machine = b->m->id; sim::disk_faults.active = true; sim::disk_faults.budget = 1;
			sim::disk_faults.crash = pick({0.02, 0.2}); sim::disk_faults.eio = sim::disk_faults.enospc = 0;
			b->m->crash_enabled = true;
		}
		if(sim::disk_faults.eio > 0) for(auto* b : net.box) if(!b->ready()) { sim::disk_faults.eio = sim::disk_faults.enospc = 0; if(sim::disk_faults.crash == 0) sim::disk_faults.active = false; }		// no read errors while the tables are opened
		if(P(cfg.disk_error) && !sim::disk_faults.active && net.box[0]->ready() && net.box[n - 1]->ready()) {
			auto* b = net.box[sim::draw(sim::S_MISC, n)];
			sim::disk_faults.only_machine = b->m->id; sim::disk_faults.active = true; sim::disk_faults.budget = 1;
			sim::disk_faults.errors_only_in = "Node";			// what a failing pool task does is up to vnx-base, which is a stub here
			sim::disk_faults.crash = 0; sim::disk_faults.eio = pick({0.02, 0.2}); sim::disk_faults.enospc = pick({0.0, 0.1});
		}
		if(sim::disk_faults.active && sim::disk_faults.budget <= 0) { sim::disk_faults.active = false; }
		if(n > 1 && P(cfg.cut)) {
			int a = sim::draw(sim::S_MISC, n), b = sim::draw(sim::S_MISC, n - 1); if(b >= a) b++;
			if(a > b) std::swap(a, b);
			if(cfg.converge) a = 0;
			net::partition(net.box[a]->m->id, net.box[b]->m->id, true);
			cuts[{a, b}] = i + 1 + sim::draw(sim::S_MISC, cfg.cut_ticks);
			sim::count("partitions");
		}
		for(auto it = cuts.begin(); it != cuts.end();) {
			if(i >= it->second) { net::partition(net.box[it->first.first]->m->id, net.box[it->first.second]->m->id, false); it = cuts.erase(it); } else ++it;
		}
		if(n > 1 && P(cfg.reset)) {
			int a = sim::draw(sim::S_MISC, n), b = sim::draw(sim::S_MISC, n - 1); if(b >= a) b++;
			net::reset_link(net.box[a]->m->id, net.box[b]->m->id);
			sim::count("net_link_reset");
		}
	}
	if(ok && (cfg.converge || cfg.quiet_ticks)) {
		sim::policy.stall = sim::policy.stall_task = 0;
		net::policy.stall = net::policy.reset = 0; net::heal_all(); star();
		sim::disk_faults.active = false;
		for(auto& e : down) e.second = 0;
		sim::trace("faults end");
		bool same = false;
		const int limit = cfg.converge ? 2400 : cfg.quiet_ticks;
		uint32_t goal = 0;
		for(int i = 0; i < limit && ok; ++i) {
			sim::sleep_us(500000);
			service(false);
			if(i % 4 == 0) for(auto* b : net.box) if(!(ok = net.probe(*b))) break;
			if(net.asking) net.settle();
			if(!ok || !cfg.converge || i % 4) continue;
			bool agree = true; uint32_t low = -1;
			std::vector<std::shared_ptr<const Block>> base;
			for(auto* b : net.box) {
				if(!b->ready() || !net.chain.has(net.peak[b->index])) { agree = false; break; }
				auto l = net.chain.line(net.peak[b->index]);
				low = std::min<uint32_t>(low, l.back()->height);
				if(base.empty()) { base = l; continue; }
				const size_t k = std::min(base.size(), l.size());
				if(base.size() > l.size() + 2 || l.size() > base.size() + 2) agree = false;
				if(k > 2 && base[k - 3]->hash != l[k - 3]->hash) agree = false;
			}
			if(agree) { if(!goal) { goal = low + 3; sim::count("converged"); sim::count("converge_seconds_total", i / 2); } else if(low >= goal) { same = true; break; } }
			else goal = 0;
		}
		if(ok && cfg.converge && !same) {
			std::string d;
			for(auto* b : net.box) d += " " + b->m->name + " at height " + (net.chain.has(net.peak[b->index]) ? std::to_string(net.chain.known[net.peak[b->index]].block->height) : "?") + " block " + S(net.peak[b->index]) + (b->ready() && b->node->is_synced ? " synced" : " not synced");
			bad("C17", "no convergence", "20 min after the network healed:" + d);
		}
	}
	if(cfg.replay && ok) for(auto* b : net.box) { net.best = net.peak[b->index]; replay_reference(net, net.best, true); break; }
	for(auto* b : net.box) if(net.chain.has(net.peak[b->index])) sim::trace("%s ends at height %u", b->m->name.c_str(), net.chain.known[net.peak[b->index]].block->height);
	sim::finish();
}
static NetCfg cfg_fork() { NetCfg c; c.cut = 0.02; c.cut_ticks = 40; c.slow_net = true; c.reset = 0.005; c.replay = true; return c; }
static NetCfg cfg_crash() { NetCfg c; c.min_nodes = 1; c.crash = 0.01; c.disk_crash = 0.02; c.disk_error = 0.005; c.quiet_ticks = 30; c.replay = true; return c; }
static NetCfg cfg_same() { NetCfg c; c.cut = 0.01; c.cut_ticks = 20; c.slow_net = true; c.reset = 0.005; c.crash = 0.003; return c; }
static NetCfg cfg_final() { NetCfg c; c.final_check = true; c.cut = 0.02; c.cut_ticks = 6; c.slow_net = true; c.reset = 0.005; c.crash = 0.003; c.ticks = 300; return c; }
static NetCfg cfg_heal() { NetCfg c; c.single_timelord = true; c.cut = 0.02; c.cut_ticks = 60; c.slow_net = true; c.reset = 0.01; c.crash = 0.005; c.skew = true; c.converge = true; return c; }

#include "wallet.h"

int main(int argc, char** argv) {
	prepare();
	auto mix = [](uint32_t byz) { return [byz]() { if(W(100) < byz) run_byz(); else run_single(); }; };
	auto P = [](const char* id, std::function<void()> fn) { return sim::Harness{id, [=]() { prop = id; fn(); }, "x"}; };
	return sim::driver_main(argc, argv, {
		P("BYZ", run_byz), P("C20", run_byz), P("C22", run_byz), P("C11", mix(40)), P("C10", mix(25)), P("C18", []() { run_net(cfg_same()); }), P("C12", mix(60)), P("C13", mix(50)), P("C21", run_single), P("C40", wal::run), P("C23", []() { if(W(100) < 35) run_net(cfg_fork()); else run_single(); }), P("C14", mix(30)),
		P("C24", []() { switch(W(4)) { case 0: run_single(); break; case 1: run_net(cfg_crash()); break; default: run_net(cfg_fork()); } }),
		P("C15", []() { run_net(cfg_crash()); }), P("C16", []() { if(W(100) < 25) run_byz(); else run_net(cfg_fork()); }), P("C17", []() { run_net(cfg_heal()); }), P("C19", []() { run_net(cfg_final()); }),
	});
}
