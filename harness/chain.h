// What the simulation knows about the chains it saw: every adopted block, an independent ledger per block, state digests per block.
#ifndef HARNESS_CHAIN_H
#define HARNESS_CHAIN_H
#include "txgen.h"
#include <secp256k1.h>

namespace world {

// ------------------------------------------------------------------ which property is being decided
inline std::string prop;
inline bool is_prop(const char* list) {		// "C11 C12"
	return std::string(list).find(prop) != std::string::npos;
}
inline void bad(const char* props, const std::string& cls, const std::string& msg) {
	if(is_prop(props)) sim::violation(cls, msg);
	sim::count("other_property_broken: " + std::string(props) + " " + cls);
	sim::log_line(std::string("(not this property) ") + props + " " + cls + ": " + msg);
}
inline std::string S(const hash_t& h) { return h.to_string().substr(0, 12); }
inline std::string S(const addr_t& a) { auto it = by_addr.find(a); if(it != by_addr.end()) for(size_t i = 0; i < users.size(); ++i) if(users[i].addr == a) return "user" + std::to_string(i); return a == addr_t() ? "MMX" : a.to_string().substr(0, 14); }
inline std::string S(const uint128& v) { return v.str(10); }

// ------------------------------------------------------------------ direct signature check (no repository code)
inline bool check_sig(const pubkey_t& key, const hash_t& msg, const signature_t& sig) {
	static auto* ctx = secp256k1_context_create(SECP256K1_CONTEXT_VERIFY);
	secp256k1_pubkey pk; secp256k1_ecdsa_signature s;
	if(!secp256k1_ec_pubkey_parse(ctx, &pk, key.data(), key.size())) return false;
	if(!secp256k1_ecdsa_signature_parse_compact(ctx, &s, sig.data())) return false;
	return secp256k1_ecdsa_verify(ctx, &s, msg.data(), &pk);
}
inline int user_of(const pubkey_t& k) { for(size_t i = 0; i < users.size(); ++i) if(users[i].pk == k) return i; return -1; }

// ------------------------------------------------------------------ ledger
typedef std::map<std::pair<addr_t, addr_t>, uint128> ledger_t;
struct Known {
	std::shared_ptr<const Block> block;
	std::shared_ptr<const ledger_t> ledger;
	std::set<hash_t> txs;				// of this block
	std::map<addr_t, uint128> minted;	// total per token so far
	uint32_t num_failed = 0;
	int64_t seen_us = 0;
	std::map<addr_t, uint64_t> machines;		// reference model of the machine contracts: state by address
	std::map<addr_t, addr_t> proxies;			// proxy contract => target
	std::map<std::string, std::string> digest;		// table => digest of the state with this block as peak
	std::string digest_by;
	std::map<std::string, std::map<std::string, std::string>> dump;
};
struct Chain {
	std::map<hash_t, Known> known;
	TxGen* gen = nullptr;
	std::map<hash_t, std::shared_ptr<const Transaction>> extra_tx;		// genesis / project transactions
	uint64_t num_blocks = 0, num_tx = 0, num_failed = 0, num_states = 0;
	bool full_dump = false;
	bool authorised_only = true;		// all transactions come from gen
	std::function<void(std::shared_ptr<const Block>, const std::string&)> on_add;

	bool has(const hash_t& h) const { return known.count(h); }
	uint128 balance(const hash_t& peak, const addr_t& a, const addr_t& c) const {
		auto it = known.find(peak);
		if(it == known.end()) return 0;
		auto j = it->second.ledger->find({a, c});
		return j == it->second.ledger->end() ? uint128(0) : j->second;
	}
	bool on_chain(hash_t h, const hash_t& txid) const {
		while(true) {
			auto it = known.find(h);
			if(it == known.end()) return false;
			if(it->second.txs.count(txid)) return true;
			if(!it->second.block->height) return false;
			h = it->second.block->prev;
		}
	}
	bool descends(hash_t h, const hash_t& ancestor) const {
		while(true) {
			if(h == ancestor) return true;
			auto it = known.find(h);
			if(it == known.end() || !it->second.block->height) return false;
			h = it->second.block->prev;
		}
	}
	std::vector<std::shared_ptr<const Block>> line(hash_t h) const {
		std::vector<std::shared_ptr<const Block>> l;
		while(true) {
			auto it = known.find(h);
			if(it == known.end()) break;
			l.push_back(it->second.block);
			if(!it->second.block->height) break;
			h = it->second.block->prev;
		}
		std::reverse(l.begin(), l.end());
		return l;
	}
	// ---------------------------------------------------- one newly adopted block (its parent is known)
	std::set<addr_t> deployed;			// contracts of successful transactions
	void add(std::shared_ptr<const Block> block, const std::string& who) {
		if(known.count(block->hash)) return;
		if(on_add) on_add(block, who);
		Known k;
		k.block = block; k.seen_us = sim::now_us();
		auto led = std::make_shared<ledger_t>();
		const Known* prev = nullptr;
		if(block->height) {
			auto it = known.find(block->prev);
			if(it == known.end()) { bad("C15 C16 C18 C19 C22", "chain", who + " shows block " + S(block->hash) + " without its parent"); return; }
			prev = &it->second;
			*led = *prev->ledger;
			k.minted = prev->minted; k.machines = prev->machines; k.proxies = prev->proxies;
			if(block->height != prev->block->height + 1) bad("C22 C15 C16", "chain", who + " adopted a block of height " + std::to_string(block->height) + " on a parent of height " + std::to_string(prev->block->height));
		}
		check_txs(block, k, prev, *led, who);
		apply(block, k, prev, *led, who);
		k.ledger = led;
		num_blocks++; num_tx += block->tx_list.size(); num_failed += k.num_failed;
		known[block->hash] = k;
		sim::trace("%s adopted block %s height %u with %zu tx (%u failed), prev %s", who.c_str(), S(block->hash).c_str(), block->height, block->tx_list.size(), k.num_failed, S(block->prev).c_str());
	}
	// who authorised this solution? (direct check of the signatures)
	std::set<addr_t> signers(std::shared_ptr<const Solution> sol, const hash_t& id) {
		std::set<addr_t> out;
		if(auto s = std::dynamic_pointer_cast<const solution::PubKey>(sol)) {
			if(check_sig(s->pubkey, id, s->signature)) { const int u = user_of(s->pubkey); out.insert(u >= 0 ? users[u].addr : s->pubkey.get_addr()); }
		}
		if(auto m = std::dynamic_pointer_cast<const solution::MultiSig>(sol))
			for(auto& e : m->solutions) if(e.second) { auto x = signers(e.second, id); out.insert(x.begin(), x.end()); }
		return out;
	}
	bool may_spend(const addr_t& owner, std::shared_ptr<const Solution> sol, const hash_t& id) {
		const auto s = signers(sol, id);
		if(s.count(owner)) return true;
		for(auto& c : gen->contracts) if(c.addr == owner && c.type == "multi") {
			uint32_t n = 0;
			for(int o : c.owners) n += s.count(users[o].addr);
			return n >= c.num;
		}
		return false;
	}
	// the machine and proxy contracts, executed by an independent model one transaction after the other
	std::set<addr_t> machine_bins, proxy_bins;
	bool step_model(Known& m, addr_t a, std::string f, uint64_t arg, const addr_t& user, const addr_t& caller, std::vector<std::pair<addr_t, uint64_t>>& minted, int depth = 0) {
		auto p = m.proxies.find(a);
		if(p != m.proxies.end()) return depth < 10 && step_model(m, p->second, f, arg, user, a, minted, depth + 1);
		auto it = m.machines.find(a);
		if(it == m.machines.end()) return false;
		const uint64_t y = it->second * 3 + arg;
		if(y % 7 == 0) return false;
		it->second = y % 1000003;
		if(f == "pay") minted.emplace_back(caller, it->second);
		return true;
	}
	void check_machines(std::shared_ptr<const Block> block, std::shared_ptr<const Transaction> tx, const TxInfo& info, Known& k, const Known* prev, const ledger_t& led) {
		const bool fail = tx->exec_result && tx->exec_result->did_fail;
		if(!fail && tx->deploy) {
			if(auto b = std::dynamic_pointer_cast<const contract::Binary>(tx->deploy)) { if(b->name == "sim_machine") machine_bins.insert(tx->id); if(b->name == "sim_proxy") proxy_bins.insert(tx->id); }
			if(auto e = std::dynamic_pointer_cast<const contract::Executable>(tx->deploy)) {
				if(machine_bins.count(e->binary)) k.machines[tx->id] = 3;
				if(proxy_bins.count(e->binary) && e->depends.count("target")) k.proxies[tx->id] = e->depends.at("target");
			}
		}
		Known m; m.machines = k.machines; m.proxies = k.proxies;
		std::vector<std::pair<addr_t, uint64_t>> minted;
		bool ok = true, any = false, sure = prev && info.kind == "machine" && params->max_tx_cost >= 1500000 && tx->max_fee_amount >= 2000000000 && tx->expires >= block->height;
		for(auto& op : tx->execute) {
			auto e = std::dynamic_pointer_cast<const operation::Execute>(op);
			if(!e || !(m.machines.count(e->address) || m.proxies.count(e->address))) { sure = false; continue; }
			any = true;
			for(addr_t a = e->address; sure && !prev->machines.count(a); a = prev->proxies.at(a)) if(!prev->proxies.count(a)) { sure = false; break; }
			if(ok) ok = step_model(m, e->address, e->method, e->args.at(0).to<uint64_t>(), *e->user, *e->user, minted);
		}
		if(!any) return;
		if(!fail) {
			if(!ok) bad("C10 C14", "a call that must fail succeeded", info.kind + " " + S(tx->id) + " in block " + S(block->hash) + " height " + std::to_string(block->height));
			else {
				std::vector<std::pair<addr_t, uint64_t>> got;
				for(auto& o : tx->exec_result->outputs) if(m.machines.count(o.contract)) got.emplace_back(o.address, o.amount.lower());
				if(got != minted) bad("C10", "results differ from execution in block order", info.kind + " " + S(tx->id) + " in block " + S(block->hash) + " height " + std::to_string(block->height) + " minted " + (got.empty() ? std::string("nothing") : std::to_string(got[0].second))
					+ ", expected " + (minted.empty() ? std::string("nothing") : std::to_string(minted[0].second)));
			}
			k.machines = m.machines;
			sim::count("machine_calls_checked");
			return;
		}
		if(!ok) { sim::count("machine_failures_expected"); return; }
		if(!sure || !tx->sender) return;
		uint128 need = uint128(10000000);
		for(auto t : block->tx_list) if(t) {
			if(t->sender && *t->sender == *tx->sender && t->exec_result) need += t->exec_result->total_fee;
			for(auto& i : t->inputs) if(i.address == *tx->sender && i.contract == addr_t()) need += i.amount;
		}
		auto it = led.find({*tx->sender, addr_t()});
		if(it != led.end() && it->second >= need)
			bad("C10 C14", "a call that must succeed failed", info.kind + " " + S(tx->id) + " in block " + S(block->hash) + " height " + std::to_string(block->height) + ": " + (tx->exec_result->error ? tx->exec_result->error->message : std::string()));
	}
	void check_txs(std::shared_ptr<const Block> block, Known& k, const Known* prev, const ledger_t& led, const std::string& who) {
		for(auto tx : block->tx_list) {
			if(!tx) { bad("C22", "null transaction", who); continue; }
			if(!k.txs.insert(tx->id).second) bad("C13", "transaction twice in one block", S(tx->id) + " in block " + S(block->hash) + " at height " + std::to_string(block->height));
			if(prev && on_chain(block->prev, tx->id)) bad("C13", "transaction twice on one chain", S(tx->id) + " again in block " + S(block->hash) + " at height " + std::to_string(block->height) + ", adopted by " + who);
			if(!block->height) continue;
			auto it = gen->sent.find(tx->id);
			if(it == gen->sent.end()) {
				if(extra_tx.count(tx->id)) continue;
				if(authorised_only) bad("C12 C22", "unknown transaction", "block " + S(block->hash) + " contains a transaction nobody sent: " + S(tx->id));
				continue;
			}
			const auto& info = it->second;
			const auto& orig = info.tx;
			if(info.expect_invalid) bad("C12 C22", "invalid transaction accepted", info.kind + " " + S(tx->id) + " in block " + S(block->hash) + " adopted by " + who);
			// exactly what was signed (the id covers everything but solutions and result)
			if(tx->calc_hash() != orig->id || tx->solutions.size() != orig->solutions.size()) bad("C12 C22", "altered transaction", info.kind + " " + S(tx->id) + " in block " + S(block->hash));
			if(block->height > tx->expires && !(tx->exec_result && tx->exec_result->did_fail)) bad("C22", "expired transaction", info.kind + " expired at " + std::to_string(tx->expires) + " in block of height " + std::to_string(block->height));
			if(tx->network != params->network) bad("C22", "foreign transaction", info.kind);
			const bool fail = tx->exec_result && tx->exec_result->did_fail;
			if(fail) k.num_failed++;
			check_machines(block, tx, info, k, prev, led);
			if(tx->exec_result && tx->exec_result->total_fee > tx->max_fee_amount) bad("C14", "fee above its limit", info.kind + " pays " + std::to_string(tx->exec_result->total_fee) + ", limit " + std::to_string(tx->max_fee_amount));
			if(!tx->exec_result) bad("C22", "no result recorded", info.kind);
			// sender pays: needs a signature
			if(tx->sender && (tx->solutions.empty() || !may_spend(*tx->sender, tx->solutions[0], tx->id)))
				bad("C12", "fee without authorisation", info.kind + " " + S(tx->id) + " charges " + S(*tx->sender) + " in block " + S(block->hash));
			if(fail) continue;
			for(size_t i = 0; i < tx->inputs.size(); ++i) {
				const auto& in = tx->inputs[i];
				if(in.solution >= tx->solutions.size() || !may_spend(in.address, tx->solutions[in.solution], tx->id))
					bad("C12", "spent without authorisation", info.kind + " input " + std::to_string(i) + " of " + S(in.address) + " amount " + S(in.amount) + " in block " + S(block->hash) + " adopted by " + who);
			}
			std::set<addr_t> touched;
			for(const auto& op_ : tx->execute) {
				auto op = std::dynamic_pointer_cast<const operation::Execute>(op_);
				if(!op) continue;
				touched.insert(op->address == addr_t() ? addr_t(tx->id) : op->address);
				if(op->user && (op->solution >= tx->solutions.size() || !may_spend(*op->user, tx->solutions[op->solution], tx->id)))
					bad("C12", "contract call without authorisation", info.kind + " calls " + op->method + " as " + S(*op->user) + " in block " + S(block->hash) + " adopted by " + who);
				for(auto& c : gen->contracts) if(c.addr == op->address) {
					const int caller = op->user ? [&]() { for(size_t i = 0; i < users.size(); ++i) if(users[i].addr == *op->user) return int(i); return -1; }() : -1;
					const auto& m = op->method;
					const bool owner_only = (c.type == "token" && m == "mint_to") || (c.type == "offer" && (m == "withdraw" || m == "cancel" || m == "deposit")) || (c.type == "lock" && m == "withdraw");
					if(owner_only && caller != c.owner && m != "deposit")
						bad("C12", "owner-only call by somebody else", c.type + "." + m + " by user " + std::to_string(caller) + ", owner is user " + std::to_string(c.owner) + " in block " + S(block->hash));
				}
			}
			if(tx->deploy) touched.insert(tx->id);
			for(auto x : std::set<addr_t>(touched)) for(int d = 0; d < 12; ++d) { auto p = k.proxies.find(x); if(p == k.proxies.end()) break; x = p->second; touched.insert(x); }	// called through proxies
			if(tx->exec_result) for(const auto& in : tx->exec_result->inputs)
				if(by_addr.count(in.address)) bad("C12", "contract call spends a user's coins", info.kind + " spends " + S(in.amount) + " of " + S(in.address) + " in block " + S(block->hash));
			// per transaction conservation
			std::map<addr_t, std::pair<uint128, uint128>> io;
			for(auto& x : tx->inputs) io[x.contract].first += x.amount;
			for(auto& x : tx->outputs) io[x.contract].second += x.amount;
			if(tx->exec_result) {
				for(auto& x : tx->exec_result->inputs) io[x.contract].first += x.amount;
				for(auto& x : tx->exec_result->outputs) io[x.contract].second += x.amount;
			}
			for(auto& e : io) {
				const auto& v = e.second;
				if(v.first == v.second) continue;
				if(e.first != addr_t() && v.second > v.first && touched.count(e.first)) { k.minted[e.first] += v.second - v.first; continue; }
				if(v.first > v.second) { sim::count("burned_by_tx"); if(!tx->deploy) bad("C11", "transaction loses value", info.kind + " " + S(tx->id) + ": " + S(v.first) + " in, " + S(v.second) + " out of " + S(e.first)); k.minted[e.first]; burned[{block->hash, e.first}] += v.first - v.second; continue; }
				bad("C11", "transaction creates value", info.kind + " " + S(tx->id) + ": " + S(v.first) + " in, " + S(v.second) + " out of " + S(e.first) + " in block " + S(block->hash) + " adopted by " + who);
			}
			// every token minted was asked for by the token's owner
			for(auto& e : io) if(e.second.second > e.second.first && e.first != addr_t()) {
				uint128 asked = 0; bool is_token = false, other = false;
				for(auto& c : gen->contracts) if(c.addr == e.first) { is_token = c.type == "token"; }
				for(const auto& op_ : tx->execute) if(auto op = std::dynamic_pointer_cast<const operation::Execute>(op_)) if(op->address == e.first) {
					if(op->method == "mint_to" && op->args.size() > 1) asked += op->args[1].to<uint64_t>(); else other = true;
				}
				if(is_token && e.second.second - e.second.first != asked) bad("C11", "minted amount", info.kind + " " + S(tx->id) + ": minted " + S(e.second.second - e.second.first) + ", asked for " + S(asked));
				(void)other;
			}
		}
	}
	std::map<std::pair<hash_t, addr_t>, uint128> burned;
	void apply(std::shared_ptr<const Block> block, Known& k, const Known* prev, ledger_t& led, const std::string& who) {
		auto add = [&](const addr_t& a, const addr_t& c, const uint128& v) { if(v != uint128(0)) led[{a, c}] += v; };
		uint64_t fees = 0;
		for(auto tx : block->tx_list) if(tx && tx->exec_result) fees += tx->exec_result->total_fee;
		if(block->height) {
			if(fees != block->tx_fees) bad("C11 C22", "fee sum", "block " + S(block->hash) + " states " + std::to_string(block->tx_fees) + " fees, its transactions pay " + std::to_string(fees));
			// issuance by our own formulas
			const auto& pb = *prev->block;
			uint64_t proj = params->fixed_project_reward + params->project_ratio.value * fees / params->project_ratio.inverse;
			proj = std::min(proj, fees / 2);
			const uint64_t ded = std::min(std::max<uint64_t>(pb.txfee_buffer / 8640, 1000), pb.txfee_buffer);
			uint64_t reward = 0;
			if(block->proof.size() && block->height >= params->reward_activation)
				reward = pb.base_reward + (params->min_reward > ded ? params->min_reward - ded : 0) + (fees - std::max(fees / 2, proj));
			if(block->reward_amount > reward) bad("C11 C22", "block reward too high", "block " + S(block->hash) + " height " + std::to_string(block->height) + " pays " + std::to_string(block->reward_amount) + ", rule gives " + std::to_string(reward));
			else if(block->reward_amount != reward) bad("C11 C22", "block reward", "block " + S(block->hash) + " height " + std::to_string(block->height) + " pays " + std::to_string(block->reward_amount) + ", rule gives " + std::to_string(reward));
			if(block->txfee_buffer != pb.txfee_buffer - ded + pb.tx_fees) bad("C11 C22", "fee buffer", "block " + S(block->hash) + " height " + std::to_string(block->height));
			if(block->height % params->reward_adjust_interval && block->base_reward != pb.base_reward) bad("C11 C22", "base reward changed outside the interval", "height " + std::to_string(block->height));
			if(block->vdf_reward_payout) {
				if(block->height % params->vdf_reward_interval) bad("C11 C22", "timelord reward outside the interval", "height " + std::to_string(block->height));
				add(*block->vdf_reward_payout, addr_t(), params->vdf_reward);
			}
			if(block->reward_addr) add(*block->reward_addr, addr_t(), reward);
			add(block->project_addr, addr_t(), proj);
		} else {
			for(const auto& o : block->get_outputs(params)) add(o.address, o.contract, o.amount);
			return;
		}
		for(auto tx : block->tx_list) {
			if(!tx || (tx->exec_result && tx->exec_result->did_fail)) continue;
			if(tx->deploy) deployed.insert(tx->id);
			for(auto& o : tx->outputs) add(o.address, o.contract, o.amount);
			if(tx->exec_result) for(auto& o : tx->exec_result->outputs) add(o.address, o.contract, o.amount);
		}
		auto sub = [&](const addr_t& a, const addr_t& c, const uint128& v, const char* what) {
			if(v == uint128(0)) return;
			auto& b = led[{a, c}];
			if(b < v) {
				bad("C12 C11", "overspent", std::string(what) + " of " + S(v) + " from " + S(a) + " which has " + S(b) + " of " + S(c) + " in block " + S(block->hash) + " height " + std::to_string(block->height) + " adopted by " + who);
				b = 0;
			} else b -= v;
			if(b == uint128(0)) led.erase({a, c});
		};
		for(auto tx : block->tx_list) {
			if(!tx) continue;
			if(tx->exec_result && tx->sender) sub(*tx->sender, addr_t(), tx->exec_result->total_fee, "fee");
			if(tx->exec_result && tx->exec_result->did_fail) continue;
			for(auto& i : tx->inputs) sub(i.address, i.contract, i.amount, "input");
			if(tx->exec_result) for(auto& i : tx->exec_result->inputs) sub(i.address, i.contract, i.amount, "contract output");
		}
	}
	// ---------------------------------------------------- state of a node (call on the node's fiber)
	static std::string bytes(std::shared_ptr<db_val_t> v) { return v ? std::string((const char*)v->data, v->size) : std::string(); }
	static std::map<std::string, std::map<std::string, std::string>> dump_state(Node* node) {
		std::map<std::string, std::map<std::string, std::string>> out;
		for(const auto& t : node->db->tables) {
			auto name = t->root_path;
			while(name.size() && name.back() == '/') name.pop_back();
			const auto p = name.rfind('/');
			if(p != std::string::npos) name = name.substr(p + 1);
			auto& m = out[name];
			Table::Iterator it(t.get());
			it.seek_begin();
			for(; it.is_valid(); it.next()) m[bytes(it.key())] = bytes(it.value());
			if(name == "tx_index") {		// the position in the block file is private to each node
				m.clear();
				node->tx_index.scan([&](const hash_t& id, const tx_index_t& x) -> bool {
					m[std::string((const char*)id.data(), id.size())] = std::to_string(x.height) + " " + std::to_string(x.time_stamp) + " " + std::to_string(x.static_cost) + " " + std::to_string(x.contract_read_cost);
					return true;
				});
			}
		}
		return out;
	}
	static std::string digest(const std::map<std::string, std::string>& m) {
		uint64_t h = 0xcbf29ce484222325ull;
		for(auto& e : m) { h = sim::hash64(e.first, h); h = sim::hash64(std::string("|"), h); h = sim::hash64(e.second, h); h = sim::hash64(std::string("#"), h); }
		char b[40]; snprintf(b, sizeof(b), "%zu:%016llx", m.size(), (unsigned long long)h); return b;
	}
	// learn the chain a node is on
	void learn(NodeBox& box, const std::string& who) {
		auto* node = box.node;
		std::vector<std::shared_ptr<const Block>> todo;
		hash_t h = node->state_hash;
		while(!known.count(h)) {
			auto b = node->get_block(h);
			if(!b) { bad("C15 C16 C18 C19 C22", "block missing", who + " does not have block " + S(h) + " of its own chain"); return; }
			if(b->hash != h) { bad("C31 C15 C16 C18", "wrong block", who + " returns " + S(b->hash) + " for " + S(h)); return; }
			todo.push_back(b);
			if(!b->height) break;
			h = b->prev;
		}
		std::reverse(todo.begin(), todo.end());
		for(auto& b : todo) add(b, who);
	}
	bool check_ledger(NodeBox& box, const std::string& who) {
		auto it = known.find(box.node->state_hash);
		if(it == known.end()) return false;
		const auto& led = *it->second.ledger;
		std::map<addr_t, uint128> sum;
		size_t n = 0;
		bool ok = true;
		std::string err;
		box.node->balance_table.scan([&](const std::pair<addr_t, addr_t>& key, const uint128& v) -> bool {
			sum[key.second] += v;
			auto j = led.find(key);
			const uint128 want = j == led.end() ? uint128(0) : j->second;
			if(j != led.end()) n++;
			if(v != want && ok) { ok = false; err = S(key.first) + " has " + S(v) + " of " + S(key.second) + ", expected " + S(want); }
			return true;
		});
		if(ok && n != led.size()) { ok = false; err = "entries are missing"; }
		if(!ok) bad("C11 C12", "balances", who + " at block " + S(box.node->state_hash) + " height " + std::to_string(it->second.block->height) + ": " + err);
		for(auto& e : sum) {
			const uint128 sup = box.node->get_total_supply(e.first);
			if(sup != e.second && ok) { ok = false; bad("C11", "total supply", who + " at height " + std::to_string(it->second.block->height) + " reports a total supply of " + S(sup) + " for " + S(e.first) + ", the balances sum to " + S(e.second)); }
		}
		return ok;
	}
	std::string diff(const std::map<std::string, std::map<std::string, std::string>>& a, const std::map<std::string, std::map<std::string, std::string>>& b, const std::string& table) {
		auto A = a.count(table) ? a.at(table) : std::map<std::string, std::string>(), B = b.count(table) ? b.at(table) : std::map<std::string, std::string>();
		int n = 0; std::string first;
		auto hex = [](const std::string& s) { return vnx::to_hex_string(s.data(), std::min<size_t>(s.size(), 48)); };
		for(auto& e : A) { auto j = B.find(e.first); if(j == B.end() || j->second != e.second) { if(!n++) first = "key " + hex(e.first) + " value " + hex(e.second) + (j == B.end() ? " is absent" : " vs " + hex(j->second)); } }
		for(auto& e : B) if(!A.count(e.first)) { if(!n++) first = "key " + hex(e.first) + " value " + hex(e.second) + " is extra"; }
		return std::to_string(n) + " entries differ, first: " + first;
	}
	// compare the node's complete state with what was seen (or computed) for the same block before
	void check_state(NodeBox& box, const std::string& who, const char* props) {
		auto it = known.find(box.node->state_hash);
		if(it == known.end()) return;
		auto& k = it->second;
		auto st = dump_state(box.node);
		std::map<std::string, std::string> d;
		for(auto& e : st) if(!e.second.empty()) d[e.first] = digest(e.second);
		std::string rank;
		{ auto r = box.node->farmer_ranking; std::sort(r.begin(), r.end()); for(auto& e : r) if(e.second) rank += e.first.to_string() + "=" + std::to_string(e.second) + " "; }
		d["(farmer ranking)"] = rank;
		num_states++;
		if(k.digest.empty()) { k.digest = d; k.digest_by = who; if(full_dump) k.dump = st; return; }
		sim::count("states_compared"); sim::count("nontrivial");
		if(who != k.digest_by) sim::count("states_compared_between_nodes");
		std::map<std::string, std::string> all = d;
		for(auto& e : k.digest) all.emplace(e.first, "-");
		for(auto& e : all) {
			auto j = k.digest.find(e.first);
			if(j != k.digest.end() && j->second == e.second) continue;
			std::string more;
			if(full_dump) more = ", " + diff(st, k.dump, e.first);
			bad(props, "state differs", who + " and " + k.digest_by + " are both at block " + S(k.block->hash) + " height " + std::to_string(k.block->height) + " but '" + e.first + "' differs (" + e.second + " vs " + (j == k.digest.end() ? "-" : j->second) + ")" + more);
			return;
		}
	}
};
}
#endif
