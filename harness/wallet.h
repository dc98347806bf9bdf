// C40: a real Wallet module next to a real Node on a growing chain, used by several clients at once, against a model of
// confirmed and pending amounts. Included by node.cpp after Net.
#ifndef HARNESS_WALLET_H
#define HARNESS_WALLET_H
#include <mmx/Wallet.h>
#include <mmx/WalletClient.hxx>
#include <mmx/KeyFile.hxx>
#include <mmx/tx_log_entry_t.hxx>

namespace wal {
typedef std::pair<addr_t, addr_t> Key;			// [address, currency]
struct Spend { std::shared_ptr<const Transaction> tx; bool forgotten = false, sent = false; uint32_t height = 0; std::map<Key, uint128> amounts; };
struct Sim {
	Net* net = nullptr; NodeBox* b = nullptr;
	Wallet* wallet = nullptr;
	int64_t timeout_us = 1000000;
	std::vector<std::vector<addr_t>> own;		// by account
	std::set<addr_t> mine;
	std::set<addr_t> whitelist;
	std::vector<std::vector<Spend>> spends;			// by account
	struct Peak { int64_t us; hash_t hash; };
	std::vector<Peak> peaks;						// as seen by the monitor
	bool resets = false, exclusive = false; int running = 0; uint64_t started = 0, changes = 0;
	uint32_t inc = 0; uint64_t boots = 0; bool stop = false;
	struct Later { hash_t from, to; std::function<void(const std::vector<hash_t>&)> fn; };		// to be judged once the blocks are known
	std::vector<Later> later;
};
static Sim* X = nullptr;

static void fail(const std::string& c, const std::string& m) { bad("C40", c, m); }
static uint128 fee_of(const Transaction& tx) { return uint128((uint64_t(tx.static_cost) * tx.fee_ratio) / 1024); }
static std::map<Key, uint128> amounts_of(int acc, const Transaction& tx) {
	std::map<Key, uint128> out;
	if(tx.sender) out[{*tx.sender, addr_t()}] += fee_of(tx);
	for(auto& in : tx.inputs) if(std::count(X->own[acc].begin(), X->own[acc].end(), in.address)) out[{in.address, in.contract}] += in.amount;
	return out;
}
static uint32_t height_of(const hash_t& h) { return X->net->chain.known.at(h).block->height; }
static bool gone(const Spend& s, const hash_t& state) { return s.forgotten || X->net->chain.on_chain(state, s.tx->id) || s.tx->expires < height_of(state); }
// was in a block, or had expired, on a fork that the node has left
static bool unclear(const Spend& s, const hash_t& state) {
	if(gone(s, state)) return false;
	for(auto& k : X->net->chain.known) if(k.second.txs.count(s.tx->id)) return true;
	for(auto& p : X->peaks) if(X->net->chain.has(p.hash) && height_of(p.hash) > s.tx->expires) return true;
	return false;
}
static std::map<Key, uint128> pending(const std::vector<Spend>& l, const hash_t& state) {
	std::map<Key, uint128> out;
	for(auto& s : l) if(!gone(s, state)) for(auto& e : s.amounts) out[e.first] += e.second;
	return out;
}
static hash_t peak_at(int64_t us) { hash_t out; for(auto& p : X->peaks) if(p.us <= us) out = p.hash; return out; }
struct Window { hash_t from, to; uint64_t started, changes; int64_t t0; bool alone; };
static Window begin() {
	Window w; w.t0 = sim::now_us(); w.from = peak_at(w.t0 - X->timeout_us - 200000);
	w.alone = X->running++ == 0; w.started = ++X->started; w.changes = X->changes;
	return w;
}
static void end(Window& w) { X->running--; w.to = X->b->node->state_hash; if(X->started != w.started || X->changes != w.changes) w.alone = false; }
static void judge(const Window& w, std::function<void(const std::vector<hash_t>&)> fn) { if(w.from != hash_t()) X->later.push_back({w.from, w.to, fn}); }
static void settle(bool all = false) {
	auto list = std::move(X->later); X->later.clear();
	auto& chain = X->net->chain;
	for(auto& l : list) {
		if(!chain.has(l.to)) { X->later.push_back(l); if(X->later.size() > 200) X->later.erase(X->later.begin()); continue; }
		std::vector<hash_t> line;
		for(auto h = l.to; chain.has(h); h = chain.known[h].block->prev) { line.insert(line.begin(), h); if(h == l.from || line.size() > 30) break; }
		if(line.front() != l.from) { sim::count("answers_during_fork_switch"); continue; }
		l.fn(line);
	}
}
static std::string show(const std::map<Key, uint128>& m) { std::string s; for(auto& e : m) s += " " + S(e.first.first).substr(0, 12) + "/" + S(e.first.second).substr(0, 8) + "=" + S(e.second); return s; }

// a transaction which the wallet has made
static void made(int acc, std::shared_ptr<const Transaction> tx, bool sent, const Window& w) {
	X->changes++;
	Spend s; s.tx = tx; s.sent = sent; s.amounts = amounts_of(acc, *tx); s.height = X->net->gen.height;
	X->spends[acc].push_back(s);
	if(!sent) return;
	TxInfo info; info.tx = tx; info.kind = "wallet"; info.time_us = sim::now_us();
	X->net->gen.sent[tx->id] = info;
	sim::count("wallet_sends"); sim::count("nontrivial");
	sim::trace("wallet %d sent %s expires %u:%s", acc, S(tx->id).c_str(), tx->expires, show(s.amounts).c_str());
	auto all = X->spends[acc];
	judge(w, [acc, all, tx](const std::vector<hash_t>& line) {
		auto& chain = X->net->chain;
		const auto state = line.back();
		for(auto& h : line) for(auto& s : all) if(unclear(s, h)) { sim::count("sends_unclear"); return; }
		std::map<Key, uint128> extra;		// gas of executions is not known beforehand
		for(size_t i = 1; i < line.size(); ++i) for(auto t : chain.known[line[i]].block->tx_list) if(t->sender && t->exec_result) { const auto f = fee_of(*t); if(t->exec_result->total_fee > f) extra[{*t->sender, addr_t()}] += t->exec_result->total_fee - f; }
		std::map<Key, uint128> sum;
		for(auto& s : all) if(s.sent && !gone(s, state)) for(auto& e : s.amounts) sum[e.first] += e.second;
		for(auto& e : amounts_of(acc, *tx)) {
			uint32_t first = -1; bool skip = false;			// transactions from before a reset may still be confirmed
			for(auto& s : all) if(s.sent && !gone(s, state) && s.amounts.count(e.first)) first = std::min(first, s.height);
			for(auto& s : all) if(s.forgotten && s.sent && s.amounts.count(e.first) && s.tx->expires + 1 >= first) skip = true;
			if(skip) { sim::count("sends_after_reset"); continue; }
			const uint128 have = chain.balance(state, e.first.first, e.first.second) + extra[e.first];
			if(sum[e.first] > have) fail("funds committed twice", "pending transactions of wallet " + std::to_string(acc) + " spend " + S(sum[e.first]) + " [" + S(e.first.second) + "] of " + S(e.first.first) + ", confirmed are " + S(have) + "; the last one is " + S(tx->id) + " which spends " + S(e.second));
		}
		sim::count("sends_checked");
	});
}
// prepared only: what is not covered must be refused as well
static void check_covered(int acc, std::shared_ptr<const Transaction> tx, const Window& w) {
	if(!w.alone) return;
	auto all = X->spends[acc];
	judge(w, [acc, all, tx](const std::vector<hash_t>& line) {
		if(line.size() > 1) return;
		for(auto& s : all) if(unclear(s, line.back())) return;
		auto p = pending(all, line.back());
		for(auto& e : amounts_of(acc, *tx)) {
			const auto v = X->net->chain.balance(line.back(), e.first.first, e.first.second);
			if(p[e.first] + e.second > v) fail("transaction without funds", "wallet " + std::to_string(acc) + " makes " + S(tx->id) + " which spends " + S(e.second) + " [" + S(e.first.second) + "] of " + S(e.first.first) + " with " + S(v) + " confirmed, " + S(p[e.first]) + " pending");
		}
		sim::count("prepared_checked");
	});
}
// exactly what was asked for, from own addresses
static void check_tx(int acc, std::shared_ptr<const Transaction> tx, const std::vector<std::tuple<addr_t, addr_t, uint128>>& want, const std::map<addr_t, addr_t>& owner_map = {}) {
	std::map<std::pair<addr_t, addr_t>, uint128> o; std::map<addr_t, uint128> in, out;
	for(auto& x : tx->outputs) { o[{x.address, x.contract}] += x.amount; out[x.contract] += x.amount; }
	for(auto& x : want) { auto& v = o[{std::get<0>(x), std::get<1>(x)}]; if(v < std::get<2>(x)) return fail("wrong transaction", S(tx->id) + " does not pay what was asked"); v -= std::get<2>(x); }
	for(auto& e : o) if(e.second) fail("wrong transaction", S(tx->id) + " pays " + S(e.second) + " too much to " + S(e.first.first));
	for(auto& x : tx->inputs) { in[x.contract] += x.amount; if(!std::count(X->own[acc].begin(), X->own[acc].end(), x.address) && !owner_map.count(x.address)) fail("wrong transaction", S(tx->id) + " spends from a foreign address"); }
	for(auto op : tx->execute) if(auto d = std::dynamic_pointer_cast<const operation::Deposit>(op)) out[d->currency] += d->amount;
	if(in != out) fail("wrong transaction", S(tx->id) + " has different sums of inputs and outputs");
	if(tx->sender && !std::count(X->own[acc].begin(), X->own[acc].end(), *tx->sender)) fail("wrong transaction", S(tx->id) + " lets a foreign address pay the fee");
}
static void check_balances(int acc, const std::map<addr_t, balance_t>& got, const Window& w) {
	auto all = X->spends[acc];
	const bool alone = w.alone;
	judge(w, [acc, all, got, alone](const std::vector<hash_t>& line) {
		auto& chain = X->net->chain;
		if(!alone) return;				// some other call was being answered
		for(auto& h : line) for(auto& s : all) if(unclear(s, h)) { sim::count("answers_unclear"); return; }
		std::map<addr_t, uint128> most; std::map<addr_t, std::pair<uint128, uint128>> last;
		for(auto& h : line) {
			auto p = pending(all, h);
			for(auto& c : X->whitelist) {
				uint128 sum = 0, res = 0;
				for(auto& a : X->own[acc]) { const auto v = chain.balance(h, a, c); const auto q = p[{a, c}]; if(v > q) sum += v - q; }
				for(auto& e : p) if(e.first.second == c) res += e.second;
				if(sum > most[c]) most[c] = sum;
				last[c] = {sum, res};
			}
		}
		for(auto& c : X->whitelist) {
			auto it = got.find(c);
			const balance_t v = it != got.end() ? it->second : balance_t();
			const std::string who = "wallet " + std::to_string(acc) + " reports " + S(v.spendable) + " [" + S(c) + "] as spendable and " + S(v.reserved) + " as reserved";
			if(v.total != v.spendable + v.reserved + v.locked) fail("wrong balance", who + ", but " + S(v.total) + " as total");
			if(line.size() == 1) {
				if(v.spendable != last[c].first || v.reserved != last[c].second) fail("wrong balance", who + " at " + S(line.back()) + " height " + std::to_string(height_of(line.back())) + ", it should be " + S(last[c].first) + " and " + S(last[c].second) + ", pending:" + show(pending(all, line.back())));
				sim::count("balances_checked");
			} else {
				if(v.spendable > most[c]) fail("wrong balance", who + " at some height from " + std::to_string(height_of(line.front())) + " to " + std::to_string(height_of(line.back())) + ", it was never more than " + S(most[c]));
				sim::count("balances_checked_across_blocks");
			}
		}
	});
}
static addr_t any_currency() { auto it = X->whitelist.begin(); if(W(2)) std::advance(it, W(X->whitelist.size())); return it == X->whitelist.end() ? addr_t() : *it; }
static void client() {
	WalletClient wallet("UserWallet");
	auto* b = X->b;
	while(!X->stop) {
		sim::sleep_us(1000 * (W(4) ? W(3000) : W(30)));
		if(X->stop || !b->ready() || X->own.empty() || X->exclusive) continue;
		const int acc = W(X->own.size());
		const auto cur = any_currency();
		spend_options_t opt;
		if(W(4) == 0) opt.expire_delta = 1 + W(8);
		if(W(8) == 0) opt.expire_at = X->net->gen.height + W(6);
		opt.fee_ratio = pick({1024, 1024, 2048, 10240});
		if(W(6) == 0) opt.sender = X->own[acc][W(X->own[acc].size())];
		opt.nonce = (uint64_t(77) << 40) + ++X->net->gen.counter;
		auto dst = [&]() { return W(5) ? users[W(NUM_USERS)].addr : X->own[W(X->own.size())][0]; };
		uint128 have = 0;
		for(auto& a : X->own[acc]) { const auto v = X->net->balance(a, cur); if(W(2)) have = have + v; else if(v > have) have = v; }
		const uint128 amount = 1 + (uint64_t(have.lower()) >> (1 + W(3))) * (1 + W(2));
		auto w = begin();
		const char* op = "";
		try {
			std::shared_ptr<const Transaction> tx; std::vector<std::tuple<addr_t, addr_t, uint128>> want; std::map<addr_t, addr_t> owners;
			switch(W(15)) {
				default: { op = "send"; const auto d = dst(); want.emplace_back(d, cur, amount); tx = wallet.send(acc, amount, d, cur, opt); break; }
				case 1: { op = "send_many"; std::vector<std::pair<addr_t, uint128>> l; const int n = 1 + W(4); for(int i = 0; i < n; ++i) { l.emplace_back(dst(), 1 + amount / n); want.emplace_back(l.back().first, cur, l.back().second); } tx = wallet.send_many(acc, l, cur, opt); break; }
				case 2: case 3: { op = "send_from"; const auto d = dst(); want.emplace_back(d, cur, amount); tx = wallet.send_from(acc, amount, d, X->own[acc][W(X->own[acc].size())], cur, opt); break; }
				case 4: case 5: case 6: {
					op = "get_balances"; auto r = wallet.get_balances(acc, bool(W(2))); end(w); check_balances(acc, r, w); break;
				}
				case 7: {
					op = "get_balance"; auto r = wallet.get_balance(acc, cur); end(w);
					if(W(1)) check_balances(acc, {}, w);
					break;
				}
				case 8: {			// prepared, not sent, but its funds are marked as spent
					op = "mark_spent"; opt.auto_send = false; opt.mark_spent = true;
					const auto d = dst(); want.emplace_back(d, cur, amount);
					auto t = wallet.send(acc, amount, d, cur, opt); end(w);
					check_tx(acc, t, want); check_covered(acc, t, w); made(acc, t, false, w); sim::count("marked_spent");
					break;
				}
				case 9: {			// prepared and forgotten
					op = "prepare"; opt.auto_send = false;
					const auto d = dst(); want.emplace_back(d, cur, amount);
					auto t = wallet.send(acc, amount, d, cur, opt); end(w);
					check_tx(acc, t, want); check_covered(acc, t, w);
					break;
				}
				case 10: {
					op = "execute"; auto* c = X->net->gen.find("machine"); if(!c) { end(w); break; }
					tx = wallet.execute(acc, c->addr, W(2) ? "step" : "pay", {vnx::Variant(int(W(100)))}, 0, opt); break;
				}
				case 11: {
					op = "gather_inputs_for"; auto l = wallet.gather_inputs_for(acc, amount, cur, opt); end(w);
					uint128 sum = 0; for(auto& i : l) { sum += i.amount; if(i.contract != cur || !std::count(X->own[acc].begin(), X->own[acc].end(), i.address)) fail("wrong inputs", "gather_inputs_for() gives an input of another address or currency"); }
					if(sum != amount) fail("wrong inputs", "gather_inputs_for(" + S(amount) + ") gives inputs of " + S(sum));
					auto all = X->spends[acc];
					if(w.alone) judge(w, [acc, all, l](const std::vector<hash_t>& line) {
						if(line.size() > 1) return;
						for(auto& s : all) if(unclear(s, line.back())) return;
						auto p = pending(all, line.back());
						std::map<Key, uint128> use;
						for(auto& i : l) use[{i.address, i.contract}] += i.amount;
						for(auto& e : use) { const auto v = X->net->chain.balance(line.back(), e.first.first, e.first.second); if(p[e.first] + e.second > v) fail("wrong inputs", "gather_inputs_for() takes " + S(e.second) + " from " + S(e.first.first) + " with " + S(v) + " confirmed, " + S(p[e.first]) + " pending"); }
					});
					break;
				}
				case 13: {			// started by the caller, to be completed
					op = "complete";
					auto t = Transaction::create();
					uint128 left = 0;
					const int num = 1 + W(2);
					for(int i = 0; i < num; ++i) { txout_t out; out.address = dst(); out.contract = i ? addr_t() : cur; out.amount = 1 + amount / num; t->outputs.push_back(out); want.emplace_back(out.address, out.contract, out.amount); if(out.contract == cur) left = left + out.amount; }
					for(int k = W(3); k > 0 && left; --k) { txin_t in; in.address = X->own[acc][W(X->own[acc].size())]; in.contract = cur; const auto at = X->b->node->state_hash; if(!X->net->chain.has(at) || !X->net->chain.balance(at, in.address, cur)) continue; in.amount = 1 + (left - 1) / (1 + W(4)); left = left - in.amount; t->inputs.push_back(in); }
					if(W(4) == 0) t->sender = X->own[acc][W(X->own[acc].size())];
					const bool send = X->running == 1 && W(3);		// nobody must get in between
					X->exclusive = send;
					auto c = wallet.complete(acc, t, opt);
					if(send) { op = "send_off"; wallet.send_off(acc, c); tx = c; X->exclusive = false; }
					else { end(w); check_tx(acc, c, want); check_covered(acc, c, w); }
					break;
				}
				case 12: {
					if(!X->resets || W(12)) { end(w); break; }
					op = "reset_cache"; wallet.reset_cache(acc); end(w); X->changes++; for(auto& s : X->spends[acc]) s.forgotten = true; sim::count("cache_resets"); sim::trace("wallet %d reset", acc);
					break;
				}
			}
			if(tx) { end(w); check_tx(acc, tx, want, owners); made(acc, tx, true, w); sim::count(std::string("ok: ") + op); }
		} catch(const std::exception& ex) {
			end(w);
			X->exclusive = false;
			X->changes++;
			sim::count(std::string("refused: ") + op); sim::count(std::string("refusal: ") + std::string(ex.what()).substr(0, 16));
			sim::log_line(std::string("wallet ") + op + " " + S(amount) + " refused: " + ex.what());
		}
	}
}
static void boot(NodeBox& b) {
	X->boots++; X->own.clear(); X->running = 0; X->exclusive = false; X->changes++;
	for(auto& l : X->spends) for(auto& s : l) s.forgotten = true;
	vnx::Directory("uwallet/").create();
	auto* w = new Wallet("UserWallet");
	w->config_path = "uwallet/"; w->storage_path = "uwallet/"; w->database_path = "uwallet/db/";
	for(size_t i = 0; i < X->spends.size(); ++i) {
		auto key = KeyFile::create(); key->seed_value = hash_t("sim wallet " + std::to_string(i));
		const auto name = "key" + std::to_string(i) + ".dat";
		vnx::write_to_file("uwallet/" + name, key);
		w->key_files.push_back(name);
	}
	w->num_addresses = 3; w->default_expire = 8 + W(10); w->cache_timeout_ms = X->timeout_us / 1000;
	w->token_whitelist = X->whitelist;
	X->wallet = w;
	sim::spawn(b.m, "wallet start", [&b, w]() {
		sim::wait_until([&]() { return b.ready(); }, 600000000, 50000);
		auto* h = new vnx::Handle<Wallet>(w); h->start();
		WalletClient client("UserWallet");
		sim::sleep_us(1000);
		std::vector<std::vector<addr_t>> own;
		for(size_t i = 0; i < X->spends.size(); ++i) own.push_back(client.get_all_addresses(i));
		X->mine.clear(); for(auto& l : own) X->mine.insert(l.begin(), l.end());
		X->own = own;
	});
	const int n = 1 + W(3);
	for(int i = 0; i < n; ++i) sim::spawn(b.m, "wallet client", []() { client(); });
	sim::spawn(b.m, "monitor", [&b]() { while(!X->stop) { sim::sleep_us(20000); if(b.ready() && (X->peaks.empty() || X->peaks.back().hash != b.node->state_hash)) X->peaks.push_back({sim::now_us(), b.node->state_hash}); } });
}
static void run() {
	enter();
	params = draw_params();
	static Sim ctx; X = &ctx;
	sim::policy.preempt = 0.02; sim::policy.pick_random = 0.2; sim::policy.step_us = 2; sim::policy.max_steps = 200000000;
	sim::policy.stall = pick({0.0, 2e-4, 2e-3}); sim::policy.stall_task = pick({0.0, 0.02, 0.1}); sim::policy.stall_us = pick({300000, 2000000});
	params->initial_time_stamp = vnx::get_wall_time_millis();
	Net net;
	const int n = pick({1, 2});					// the second node farms competing blocks
	net.make(n);
	net::policy.latency_us = pick({5000, 100000}); net::policy.jitter_us = pick({20000, 300000, 1000000});
	net.gen.forks = n > 1;
	net.gen.run_salt = 1;
	net.chain.gen = &net.gen;
	net.chain.authorised_only = false;
	net.gen.balance = [&](const addr_t& a, const addr_t& c) { return net.balance(a, c); }; net.gen.exists = [&](const addr_t& a) { return net.chain.deployed.count(a) != 0; };
	auto& b = *net.box[0];
	b.num_threads = pick({2, 4, 1});
	X->net = &net; X->b = &b; X->whitelist = {addr_t()};
	X->spends.resize(1 + W(2));
	X->timeout_us = 1000 * pick({1000, 0, 300, 5000});
	b.on_boot = [](NodeBox& b) { boot(b); };
	for(auto* o : net.box) { o->num_threads = b.num_threads; o->harvest_delay_ms = pick({0, 500, 2000}); o->do_sync = o->index; }
	const double cut = n > 1 ? pick({0.0, 0.05, 0.15}) : 0;
	int cut_until = 0;
	for(auto* o : net.box) o->boot();
	sim::wait_until([&]() { return b.ready(); }, 60000000, 100000);
	b.call([&]() { auto g = b.node->get_block_at(0); for(auto tx : g->tx_list) net.chain.extra_tx[tx->id] = tx; });
	const uint32_t rate = pick({20, 5, 50}), pay = pick({20, 5, 60}), crash = pick({0, 0, 5});
	net.gen.machines = pick({0, 30});
	uint64_t nonce = 0;
	X->resets = W(4) == 0;
	for(int i = 0; i < 300; ++i) {
		sim::sleep_us(500000);
		for(auto* o : net.box) if(!net.probe(*o)) { i = 1000; break; }
		settle();
		if(n > 1) {
			if(!cut_until && sim::flip(sim::S_MISC, cut)) { net::partition(b.m->id, net.box[1]->m->id, true); cut_until = i + 1 + W(8); sim::count("partitions"); }
			else if(cut_until && i >= cut_until) { net::partition(b.m->id, net.box[1]->m->id, false); cut_until = 0; }
		}
		if(!b.ready()) continue;
		if(i > 10 && W(100) < rate) { auto* o = net.box[W(n)]; if(o->ready()) net.send_tx(*o); }
		if(i > 10 && X->mine.size() && W(100) < pay) {			// incoming payments, of tokens too
			std::vector<std::tuple<int, addr_t, uint128>> from;
			for(int u = 0; u < NUM_USERS; ++u) for(auto& c : X->whitelist) if(c != addr_t()) { const auto v = net.balance(users[u].addr, c); if(v) from.emplace_back(u, c, v); }
			auto t = std::make_tuple(NUM_USERS, addr_t(), uint128(10000000));
			if(from.size() && W(2)) t = from[W(from.size())];
			auto to = X->mine.begin(); std::advance(to, W(X->mine.size()));
			auto tx = Mutator::plain_tx(std::get<0>(t), *to, std::get<1>(t) == addr_t() ? uint128(W(3) ? 100000 + W(3000000) : 1 + W(50000)) : 1 + std::get<2>(t) / (1 + W(4)), std::get<1>(t), 1024, net.gen.height + 1, (uint64_t(98) << 32) + ++nonce);
			Mutator::solve(tx, {std::get<0>(t)});
			b.call([&]() { b.node->add_transaction(tx, false); });
			TxInfo info; info.tx = tx; info.kind = "payment"; info.time_us = sim::now_us(); net.gen.sent[tx->id] = info;
			sim::count("payments");
		}
		if(X->whitelist.size() < 3) for(auto& c : net.gen.contracts) if((c.type == "token" || c.type == "machine") && net.chain.deployed.count(c.addr) && !X->whitelist.count(c.addr) && X->wallet && X->own.size()) {
			bool held = false; for(int u = 0; u < NUM_USERS; ++u) held |= bool(net.balance(users[u].addr, c.addr));
			if(!held) continue;
			const auto a = c.addr; X->whitelist.insert(a); X->changes++;
			auto* w = X->wallet; w->vnx_post([w, a]() { w->token_whitelist.insert(a); for(auto& x : w->wallets) if(x) x->last_update = 0; X->changes++; });
			sim::count("tokens");
			break;
		}
		if(i > 60 && W(1000) < crash) {
			sim::trace("kill"); sim::count("kills");
			sim::crash(b.m); X->wallet = nullptr; X->own.clear(); X->later.clear(); X->peaks.clear();
			sim::sleep_us(100000 + W(3000000));
			sim::restart(b.m); b.boot();
			sim::wait_until([&]() { return b.ready(); }, 120000000, 100000);
		}
	}
	// nobody sends any more: everything gets confirmed or expires
	X->stop = true;
	sim::policy.stall = sim::policy.stall_task = 0;
	net::heal_all();
	for(int i = 0; i < 60; ++i) { sim::sleep_us(2000000); bool ok = true; for(auto* o : net.box) ok &= net.probe(*o); if(!ok) break; settle(); }
	if(b.ready() && X->own.size() && net.chain.has(b.node->state_hash)) {
		bool done = false;
		sim::spawn(b.m, "last", [&]() {
			WalletClient wallet("UserWallet");
			for(int k = 0; k < 20; ++k) { const int acc = k % X->own.size(); sim::sleep_us(700000); X->running = 0; auto w = begin(); w.alone = true; auto r = wallet.get_balances(acc); end(w); w.alone = true; check_balances(acc, r, w); }
			done = true;
		});
		for(int i = 0; i < 60 && !done; ++i) { sim::sleep_us(500000); for(auto* o : net.box) net.probe(*o); if(X->peaks.empty() || X->peaks.back().hash != b.node->state_hash) X->peaks.push_back({sim::now_us(), b.node->state_hash}); settle(); }
		if(done) sim::count("final_balances");
	}
	sim::finish();
}
}
#endif
