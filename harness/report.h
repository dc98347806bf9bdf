// C24: what a node reports about its chain, asked through its API from other fibers while the chain moves, against a reference
// built from nothing but the blocks of one chain.
#ifndef REPORT_H
#define REPORT_H
#include "txgen.h"
#include "chain.h"
#include <mmx/NodeClient.hxx>
#include <mmx/vm/var_t.h>
#include <mmx/contract/PubKey.hxx>
namespace report {
using namespace world;

struct Ref {
	std::vector<std::shared_ptr<const Block>> line;
	const std::map<std::pair<addr_t, addr_t>, uint128>* ledger = nullptr;
	struct IO { uint32_t height; hash_t txid; int type; addr_t address, contract; uint128 amount; std::string memo; bool has_memo; int64_t time; };
	std::vector<IO> io;											// in chain order
	std::map<hash_t, std::pair<uint32_t, std::shared_ptr<const Transaction>>> txs;
	struct Dep { addr_t addr; hash_t type; uint32_t height; std::shared_ptr<const Contract> c; std::vector<addr_t> owners; bool has_sender; addr_t sender; };
	std::vector<Dep> deps;
	std::map<addr_t, int> dep;
	struct Op { uint32_t height; hash_t txid; addr_t address; std::shared_ptr<const operation::Execute> op; };
	std::vector<Op> ops;
	std::map<addr_t, uint128> supply;
	std::vector<const std::map<addr_t, uint64_t>*> machines;		// state after each block

	static int type(tx_type_e::enum_t t) { return int(t); }
	Ref(const std::vector<std::shared_ptr<const Block>>& l, const std::map<std::pair<addr_t, addr_t>, uint128>* led) : line(l), ledger(led) {
		for(auto& b : line) {
			auto put = [&](const hash_t& id, tx_type_e::enum_t t, const addr_t& a, const addr_t& c, const uint128& v, bool hm = false, const std::string& memo = "") {
				io.push_back({b->height, id, int(t), a, c, v, memo, hm, b->time_stamp});
			};
			if(b->vdf_reward_payout) put(b->hash, tx_type_e::VDF_REWARD, *b->vdf_reward_payout, addr_t(), params->vdf_reward);
			if(b->reward_addr && b->reward_amount) put(b->hash, tx_type_e::REWARD, *b->reward_addr, addr_t(), uint128(uint64_t(b->reward_amount)));
			uint64_t fees = 0;
			for(auto tx : b->tx_list) if(tx->exec_result) fees += tx->exec_result->total_fee;
			const uint64_t proj = std::min<uint64_t>(params->fixed_project_reward + params->project_ratio.value * fees / params->project_ratio.inverse, fees / 2);
			if(proj) put(b->hash, tx_type_e::PROJECT_REWARD, b->project_addr, addr_t(), proj);
			for(auto tx : b->tx_list) {
				txs[tx->id] = {b->height, tx};
				if(tx->exec_result && tx->sender) put(tx->id, tx_type_e::TXFEE, *tx->sender, addr_t(), uint128(uint64_t(tx->exec_result->total_fee)));
				if(tx->exec_result && tx->exec_result->did_fail) continue;
				auto in = [&](const txin_t& x) { put(tx->id, tx_type_e::SPEND, x.address, x.contract, x.amount, bool(x.memo), x.memo ? *x.memo : ""); };
				auto out = [&](const txout_t& x) { put(tx->id, tx_type_e::RECEIVE, x.address, x.contract, x.amount, bool(x.memo), x.memo ? *x.memo : ""); };
				for(auto& x : tx->inputs) in(x);
				for(auto& x : tx->outputs) out(x);
				if(tx->exec_result) { for(auto& x : tx->exec_result->inputs) in(x); for(auto& x : tx->exec_result->outputs) out(x); }
				if(auto c = tx->deploy) {
					Dep d; d.addr = tx->id; d.height = b->height; d.c = c; d.has_sender = bool(tx->sender); if(tx->sender) d.sender = *tx->sender;
					d.type = hash_t(c->get_type_name());
					if(auto e = std::dynamic_pointer_cast<const contract::Executable>(c)) {
						d.type = e->binary;
						auto arg = [&](size_t i) { return i < e->init_args.size() ? e->init_args[i].to<addr_t>() : addr_t(); };
						if(e->binary == params->plot_nft_binary || e->binary == params->offer_binary || e->binary == params->time_lock_binary) d.owners.push_back(arg(0));
						else if(e->binary == params->escrow_binary) d.owners.push_back(arg(2));
					}
					if(auto p = std::dynamic_pointer_cast<const contract::PubKey>(c)) d.owners.push_back(p->address);
					dep[d.addr] = deps.size(); deps.push_back(d);
				}
				for(auto& o : tx->execute) if(auto op = std::dynamic_pointer_cast<const operation::Execute>(o))
					ops.push_back({b->height, tx->id, op->address == addr_t() ? addr_t(tx->id) : op->address, op});
			}
		}
		for(auto& e : *ledger) supply[e.first.second] += e.second;
	}
	uint128 balance(const addr_t& a, const addr_t& c) const { auto i = ledger->find({a, c}); return i == ledger->end() ? uint128(0) : i->second; }
	uint32_t height() const { return line.back()->height; }
};
typedef std::function<std::string(const Ref&)> Check;		// empty: the answer fits

template<typename T> static std::string str(const T& v) { std::stringstream s; s << v; return s.str(); }
static std::string num(uint64_t v) { return std::to_string(v); }

static std::shared_ptr<const contract::Executable> exe(const Ref::Dep& d, const addr_t& binary) {
	auto e = std::dynamic_pointer_cast<const contract::Executable>(d.c);
	return e && e->binary == binary ? e : nullptr;
}
static std::string io_line(uint32_t h, const hash_t& id, int type, const addr_t& a, const addr_t& c, const uint128& v, bool hm, const std::string& memo) {
	return num(h) + " " + id.to_string() + " " + num(type) + " " + a.to_string() + " " + c.to_string() + " " + v.str(10) + (hm ? " '" + memo + "'" : "");
}
static std::string diff(std::vector<std::string> got, std::vector<std::string> want, bool ordered = false) {
	if(!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
	if(got == want) return "";
	std::multiset<std::string> g(got.begin(), got.end()), w(want.begin(), want.end());
	for(auto& s : want) { auto i = g.find(s); if(i == g.end()) return "missing: " + s + " (" + num(got.size()) + " of " + num(want.size()) + " reported)"; g.erase(i); }
	for(auto& s : got) { auto i = w.find(s); if(i == w.end()) return "too much: " + s + " (" + num(got.size()) + " instead of " + num(want.size()) + " reported)"; w.erase(i); }
	for(size_t i = 0; i < got.size(); ++i) if(got[i] != want[i]) return "wrong order at " + num(i) + ": " + got[i] + " instead of " + want[i];
	return "?";
}

struct Asker {
	TxGen* gen = nullptr;
	Chain* chain = nullptr;
	std::vector<addr_t> pick_addresses() {
		std::vector<addr_t> out;
		const int n = 1 + (W(3) == 0 ? W(5) : 0);
		for(int i = 0; i < n; ++i) switch(W(5)) {
			case 0: if(gen->contracts.size()) { out.push_back(gen->contracts[W(gen->contracts.size())].addr); break; }
			case 1: out.push_back(farmers[W(farmers.size())].addr); break;
			default: out.push_back(users[W(users.size())].addr);
		}
		return out;
	}
	addr_t pick_currency() { std::vector<addr_t> l = {addr_t()}; for(auto& c : gen->contracts) if(c.type == "token" || c.type == "machine") l.push_back(c.addr); return W(2) ? addr_t() : l[W(l.size())]; }
	addr_t pick_contract() { return gen->contracts.empty() ? addr_t() : gen->contracts[W(gen->contracts.size())].addr; }
	uint32_t pick_height(uint32_t top) { return W(3) ? W(top + 3) : top - std::min<uint32_t>(top, W(4)); }

	// asks one question; returns what must hold for the answer
	Check ask(NodeClient& node, uint32_t top, std::string& what) {
		switch(W(22)) {
			case 0: {
				const auto h = pick_height(top);
				what = "block at height " + num(h);
				const bool full = W(2);
				std::shared_ptr<const BlockHeader> b;
				if(full) b = node.get_block_at(h); else b = node.get_header_at(h);
				auto hash = node.get_block_hash(h);
				(void)hash;
				return [=](const Ref& r) -> std::string {
					if(h >= r.line.size()) return b ? "a block above the peak" : "";
					if(!b) return "none";
					auto w = r.line[h];
					if(b->hash != w->hash || b->height != h || b->content_hash != w->content_hash || b->prev != w->prev) return "block " + S(b->hash) + " instead of " + S(w->hash);
					if(full) {
						auto f = std::dynamic_pointer_cast<const Block>(b);
						if(!f) return "no transactions";
						std::vector<std::string> g, e;
						for(auto t : f->tx_list) g.push_back(t ? t->calc_hash(true).to_string() : "null");
						for(auto t : w->tx_list) e.push_back(t->calc_hash(true).to_string());
						auto d = diff(g, e, true);
						if(d.size()) return "transactions: " + d;
					}
					return "";
				};
			}
			case 1: {
				const auto h = pick_height(top);
				const bool ex = W(2);
				what = "hash of the block at height " + num(h);
				hash_t a, c; bool any = false;
				if(ex) { if(auto x = node.get_block_hash_ex(h)) { any = true; a = x->first; c = x->second; } }
				else if(auto x = node.get_block_hash(h)) { any = true; a = *x; }
				return [=](const Ref& r) -> std::string {
					if(h >= r.line.size()) return any ? "a hash above the peak" : "";
					if(!any) return "none";
					if(a != r.line[h]->hash || (ex && c != r.line[h]->content_hash)) return S(a) + " instead of " + S(r.line[h]->hash);
					return "";
				};
			}
			case 2: {
				what = "peak height";
				const auto h = node.get_height();
				return [=](const Ref& r) -> std::string { return h == r.height() ? "" : num(h) + " instead of " + num(r.height()); };
			}
			case 3: case 4: case 5: {
				hash_t id;
				if(gen->order.empty()) return nullptr;
				id = W(2) ? gen->order[W(gen->order.size())] : gen->order[gen->order.size() - 1 - W(std::min<size_t>(gen->order.size(), 30))];
				switch(W(3)) {
					case 0: {
						what = "height of transaction " + S(id);
						auto h = node.get_tx_height(id);
						return [=](const Ref& r) -> std::string {
							auto i = r.txs.find(id);
							if(i == r.txs.end()) return h ? "height " + num(*h) + " for a transaction that is not on the chain" : "";
							return h && *h == i->second.first ? "" : (h ? num(*h) : std::string("none")) + " instead of " + num(i->second.first);
						};
					}
					case 1: {
						what = "transaction " + S(id);
						std::shared_ptr<const Transaction> t;
						if(W(2)) t = node.get_transaction(id, false); else { auto l = node.get_transactions({id}); if(l.size() == 1) t = l[0]; }
						return [=](const Ref& r) -> std::string {
							auto i = r.txs.find(id);
							if(i == r.txs.end()) return t ? "a transaction that is not on the chain" : "";
							if(!t) return "none, it is in the block of height " + num(i->second.first);
							return t->id == id && t->calc_hash(true) == i->second.second->calc_hash(true) ? "" : "another content than in the block";
						};
					}
					default: {
						what = "info on transaction " + S(id);
						auto f = node.get_tx_info(id);
						return [=](const Ref& r) -> std::string {
							auto i = r.txs.find(id);
							if(i == r.txs.end()) return f && f->height ? "height " + num(*f->height) + " for a transaction that is not on the chain" : "";
							if(!f) return "none";
							if(!f->height || *f->height != i->second.first) return "height " + (f->height ? num(*f->height) : std::string("none")) + " instead of " + num(i->second.first);
							auto b = r.line[i->second.first];
							auto t = i->second.second;
							if(!f->block || *f->block != b->hash) return "another block";
							if(!f->time_stamp || *f->time_stamp != b->time_stamp) return "time stamp";
							if(t->exec_result && (f->fee != t->exec_result->total_fee || bool(f->did_fail) != bool(t->exec_result->did_fail))) return "fee or result";
							std::map<addr_t, uint128> in, out;
							for(auto& x : t->inputs) in[x.contract] += x.amount;
							for(auto& x : t->outputs) out[x.contract] += x.amount;
							if(t->exec_result && !t->exec_result->did_fail) { for(auto& x : t->exec_result->inputs) in[x.contract] += x.amount; for(auto& x : t->exec_result->outputs) out[x.contract] += x.amount; }
							if(!t->exec_result || !t->exec_result->did_fail) if(f->input_amounts != in || f->output_amounts != out) return "amounts";
							return "";
						};
					}
				}
			}
			case 6: {
				const auto h = pick_height(top);
				const int mode = W(3);
				const uint32_t limit = 1 + W(40);
				std::vector<hash_t> l;
				if(mode == 0) { what = "transactions at height " + num(h); l = node.get_tx_ids_at(h); }
				if(mode == 1) { what = "transactions since height " + num(h); l = node.get_tx_ids_since(h); }
				if(mode == 2) { what = "last " + num(limit) + " transactions"; l = node.get_tx_ids(limit); }
				return [=](const Ref& r) -> std::string {
					std::vector<std::string> g, e;
					for(auto& x : l) g.push_back(x.to_string());
					auto add = [&](size_t k) { for(auto t : r.line[k]->tx_list) e.push_back(t->id.to_string()); };
					if(mode == 0 && h < r.line.size()) add(h);
					if(mode == 1) for(size_t k = h; k < r.line.size(); ++k) add(k);
					if(mode == 2) { for(size_t k = r.line.size(); k-- > 0;) add(k); if(e.size() > limit) e.resize(limit); }
					return diff(g, e, true);
				};
			}
			case 7: case 8: case 9: case 10: {
				const auto addrs = pick_addresses();
				query_filter_t f;
				if(W(3) == 0) f.since = pick_height(top);
				if(W(3) == 0) f.until = pick_height(top);
				if(W(4) == 0) f.currency.insert(pick_currency());
				if(W(4) == 0) f.type = tx_type_e(tx_type_e::enum_t(pick({int(tx_type_e::SPEND), int(tx_type_e::RECEIVE), int(tx_type_e::TXFEE), int(tx_type_e::REWARD)})));
				if(W(3) == 0) f.limit = 1 + W(W(3) ? 20 : 200);
				bool memo = W(4) == 0;
				std::string m;
				if(memo) { m = std::string(W(2) ? "sim memo" : W(4) == 0 ? "mmx_swap_trade" : ("to " + num(W(3))).c_str()); f.limit = -1; f.memo = m; }
				what = std::string("history of ") + (addrs.size() > 1 ? "several addresses" : S(addrs[0])) + " since " + num(f.since) + " until " + num(f.until) + " limit " + std::to_string(f.limit) + (memo ? " memo '" + m + "'" : "")
					+ (f.type ? " type " + num(int(*f.type)) : "") + (f.currency.size() ? " one currency" : "");
				auto l = node.get_history(addrs, f);
				return [=](const Ref& r) -> std::string {
					const std::set<addr_t> set(addrs.begin(), addrs.end());
					std::vector<std::string> g, e;
					std::vector<std::pair<uint32_t, std::string>> all;
					uint32_t last = -1;
					for(auto& x : l) {
						if(x.height > last) return "not in descending order of height";
						last = x.height;
						if(x.is_pending) return "an unconfirmed entry";
						if(x.height < r.line.size() && x.time_stamp != r.line[x.height]->time_stamp) return "time stamp of an entry at height " + num(x.height);
						g.push_back(io_line(x.height, x.txid, int(x.type), x.address, x.contract, x.amount, bool(x.memo), x.memo ? *x.memo : std::string()));
					}
					for(auto i = r.io.rbegin(); i != r.io.rend(); ++i) {
						if(!set.count(i->address) || i->height < f.since || i->height > f.until) continue;
						if(f.currency.size() && !f.currency.count(i->contract)) continue;
						if(f.type && int(*f.type) != i->type) continue;
						if(memo && (!i->has_memo || i->memo != m)) continue;
						all.emplace_back(i->height, io_line(i->height, i->txid, i->type, i->address, i->contract, i->amount, i->has_memo, i->memo));
					}
					uint32_t prev = -1;
					for(auto& x : all) {		// whole blocks, until the limit is reached
						if(f.limit >= 0 && e.size() >= size_t(f.limit) && x.first != prev) break;
						e.push_back(x.second); prev = x.first;
					}
					return diff(g, e);
				};
			}
			case 11: {
				const auto a = pick_addresses()[0]; const auto c = pick_currency();
				what = "balance of " + S(a);
				const auto v = node.get_balance(a, c);
				return [=](const Ref& r) -> std::string { const auto w = r.balance(a, c); return v == w ? "" : S(v) + " instead of " + S(w) + " of " + S(c); };
			}
			case 12: {
				auto addrs = pick_addresses();
				std::set<addr_t> white;
				if(W(3) == 0) { white.insert(pick_currency()); white.insert(pick_currency()); }
				what = "balances of " + S(addrs[0]) + (addrs.size() > 1 ? " and others" : "");
				const int mode = W(3);
				std::map<addr_t, uint128> t; std::map<std::pair<addr_t, addr_t>, uint128> all; uint128 one;
				const auto cur = pick_currency();
				if(mode == 0) t = node.get_total_balances(addrs, white, -1);
				if(mode == 1) all = node.get_all_balances(addrs, white, -1);
				if(mode == 2) one = node.get_total_balance(addrs, cur);
				return [=](const Ref& r) -> std::string {
					std::map<addr_t, uint128> T; std::map<std::pair<addr_t, addr_t>, uint128> A;
					const std::set<addr_t> set(addrs.begin(), addrs.end());
					uint128 sum = 0;
					for(auto& e : *r.ledger) if(set.count(e.first.first) && e.second != uint128(0)) {
						if(e.first.second == cur) sum += e.second;
						if(white.size() && !white.count(e.first.second)) continue;
						T[e.first.second] += e.second; A[e.first] = e.second;
					}
					if(mode == 0 && t != T) return num(t.size()) + " currencies, expected " + num(T.size()) + ", or other amounts";
					if(mode == 1 && all != A) return num(all.size()) + " entries, expected " + num(A.size()) + ", or other amounts";
					if(mode == 2 && one != sum) return S(one) + " instead of " + S(sum);
					return "";
				};
			}
			case 13: {
				const auto c = pick_currency();
				what = "total supply of " + S(c);
				const auto v = node.get_total_supply(c);
				return [=](const Ref& r) -> std::string { auto i = r.supply.find(c); const auto w = i == r.supply.end() ? uint128(0) : i->second; return v == w ? "" : S(v) + " instead of " + S(w); };
			}
			case 14: {
				const auto a = pick_contract();
				what = "contract " + S(a);
				auto c = node.get_contract(a);
				return [=](const Ref& r) -> std::string {
					auto i = r.dep.find(a);
					if(i == r.dep.end()) return c ? "a contract that was never deployed on this chain" : "";
					if(!c) return "none";
					auto w = r.deps[i->second].c;
					return c->get_type_hash() == w->get_type_hash() && c->calc_hash(true) == w->calc_hash(true) ? "" : "another contract";
				};
			}
			case 15: {
				const auto addrs = pick_addresses();
				const bool by = W(2);
				vnx::optional<hash_t> type;
				switch(W(6)) { case 0: type = hash_t(params->offer_binary); break; case 1: type = hash_t(params->time_lock_binary); break; case 2: type = hash_t(params->escrow_binary); break; case 3: type = hash_t(params->swap_binary); break; }
				what = std::string("contracts ") + (by ? "deployed" : "owned") + " by " + S(addrs[0]) + (addrs.size() > 1 ? " and others" : "") + (type ? " of one type" : "");
				auto l = by ? node.get_contracts_by(addrs, type) : node.get_contracts_owned_by(addrs, type);
				return [=](const Ref& r) -> std::string {
					std::vector<std::string> g, e;
					for(auto& x : l) g.push_back(x.to_string());
					for(auto& a : addrs) for(auto& d : r.deps) {
						if(type && d.type != *type) continue;
						if(by) { if(d.has_sender && d.sender == a) e.push_back(d.addr.to_string()); }
						else for(auto& o : d.owners) if(o == a) e.push_back(d.addr.to_string());
					}
					return diff(g, e, true);
				};
			}
			case 16: {
				const auto a = pick_contract();
				const int limit = W(2) ? -1 : 1 + W(20);
				const bool recent = W(2);
				what = "calls of contract " + S(a) + " limit " + std::to_string(limit) + (recent ? " recent" : "");
				auto l = node.get_exec_history(a, limit, recent);
				return [=](const Ref& r) -> std::string {
					std::vector<std::string> g, e;
					auto item = [](uint32_t h, const hash_t& id, const std::string& m, size_t args, const std::string& user, const std::string& dep) { return num(h) + " " + id.to_string() + " " + m + " " + num(args) + " " + user + " " + dep; };
					for(auto& x : l) {
						if(x.height < r.line.size() && x.time_stamp != r.line[x.height]->time_stamp) return "time stamp";
						g.push_back(item(x.height, x.txid, x.method, x.args.size(), x.user ? x.user->to_string() : std::string(), x.deposit ? x.deposit->first.to_string() + " " + x.deposit->second.str(10) : std::string()));
					}
					for(auto& o : r.ops) if(o.address == a) {
						auto dep = std::dynamic_pointer_cast<const operation::Deposit>(o.op);
						e.push_back(item(o.height, o.txid, o.op->method, o.op->args.size(), o.op->user ? o.op->user->to_string() : std::string(), dep ? dep->currency.to_string() + " " + dep->amount.str(10) : std::string()));
					}
					if(recent) std::reverse(e.begin(), e.end());
					if(limit >= 0 && e.size() > size_t(limit)) e.resize(limit);
					return diff(g, e, true);
				};
			}
			case 17: {
				std::vector<pubkey_t> keys;
				const int n = 1 + W(3);
				for(int i = 0; i < n; ++i) { const auto k = farmers[(W(3) + i * 3) % farmers.size()].pk; if(!std::count(keys.begin(), keys.end(), k)) keys.push_back(k); }
				const auto since = W(2) ? 0 : pick_height(top);
				if(W(2)) {
					what = "farmed block summary since " + num(since);
					auto s = node.get_farmed_block_summary(keys, since);
					return [=](const Ref& r) -> std::string {
						uint32_t n = 0, last = 0; uint64_t total = 0; std::map<addr_t, uint64_t> map;
						for(auto b : r.line) if(b->height && b->height >= since && std::count(keys.begin(), keys.end(), b->proof.at(0)->farmer_key)) {
							n++; last = std::max(last, b->height); total += b->reward_amount; map[b->reward_addr ? *b->reward_addr : addr_t()] += b->reward_amount;
						}
						if(s.num_blocks != n || s.last_height != last || s.total_rewards != total) return num(s.num_blocks) + " blocks, last " + num(s.last_height) + ", rewards " + num(s.total_rewards) + " instead of " + num(n) + ", " + num(last) + ", " + num(total);
						if(s.reward_map != map) return "rewards per address";
						return "";
					};
				}
				const int limit = W(2) ? -1 : 1 + W(10);
				const bool full = W(2);
				what = "farmed blocks since " + num(since) + " limit " + std::to_string(limit);
				auto l = node.get_farmed_blocks(keys, full, since, limit);
				return [=](const Ref& r) -> std::string {
					std::vector<std::string> g, e;
					for(auto x : l) g.push_back(x ? x->hash.to_string() : "none");
					for(auto b : r.line) if(b->height && b->height >= since && std::count(keys.begin(), keys.end(), b->proof.at(0)->farmer_key)) e.push_back(b->hash.to_string());
					if(limit >= 0) { std::reverse(e.begin(), e.end()); if(e.size() > size_t(limit)) e.resize(limit); }
					return diff(g, e, true);
				};
			}
			case 18: {
				switch(W(3)) {
					case 0: {
						what = "farmer ranking";
						auto l = node.get_farmer_ranking(-1);
						return [=](const Ref& r) -> std::string {
							std::map<pubkey_t, uint32_t> m, g;
							for(auto b : r.line) if(b->height) m[b->proof.at(0)->farmer_key]++;
							uint32_t prev = -1;
							for(auto& x : l) { if(x.second > prev) return "not in descending order"; prev = x.second; if(x.second) g[x.first] += x.second; }
							return g == m ? "" : "other counts";
						};
					}
					case 1: {
						const auto since = W(2) ? 0 : pick_height(top);
						const auto token = pick_currency(), cur = pick_currency();
						const bool t = W(2), c = W(2);
						what = std::string("swaps since ") + num(since) + (t ? " by token" : "") + (c ? " by currency" : "");
						auto l = node.get_swaps(since, t ? vnx::optional<addr_t>(token) : nullptr, c ? vnx::optional<addr_t>(cur) : nullptr, -1);
						return [=](const Ref& r) -> std::string {
							std::vector<std::string> g, e;
							for(auto& x : l) {
								g.push_back(x.address.to_string());
								for(int i = 0; i < 2; ++i) if(x.wallet[i] != r.balance(x.address, x.tokens[i])) return "balance of swap " + S(x.address);
							}
							for(auto& d : r.deps) if(auto s = exe(d, params->swap_binary)) {
								if(d.height < since || (t && s->init_args.at(0).to<addr_t>() != token) || (c && s->init_args.at(1).to<addr_t>() != cur)) continue;
								e.push_back(d.addr.to_string());
							}
							return diff(g, e);
						};
					}
					default: {
						const auto since = W(2) ? 0 : pick_height(top);
						const int limit = W(2) ? -1 : 1 + W(5);
						const auto bid = pick_currency(), ask = pick_currency();
						const bool hb = W(3) == 0, ha = W(3) == 0;
						what = std::string("trades since ") + num(since) + " limit " + std::to_string(limit) + (hb ? " by bid" : "") + (ha ? " by ask" : "");
						auto l = hb || ha ? node.get_trade_history_for(hb ? vnx::optional<addr_t>(bid) : nullptr, ha ? vnx::optional<addr_t>(ask) : nullptr, limit, since) : node.get_trade_history(limit, since);
						return [=](const Ref& r) -> std::string {
							std::vector<std::string> g, e;
							for(auto& x : l) g.push_back(num(x.height) + " " + x.txid.to_string() + " " + x.address.to_string() + " " + x.bid_currency.to_string() + " " + x.ask_currency.to_string());
							for(auto& o : r.ops) {
								auto dep = std::dynamic_pointer_cast<const operation::Deposit>(o.op);
								auto i = r.dep.find(o.address);
								if(!dep || i == r.dep.end() || o.height < since || (o.op->method != "trade" && o.op->method != "accept")) continue;
								auto s = exe(r.deps[i->second], params->offer_binary);
								if(!s) continue;
								const auto B = s->init_args.at(1).to<addr_t>(), A = s->init_args.at(2).to<addr_t>();
								if((hb && B != bid) || (ha && A != ask)) continue;
								e.push_back(num(o.height) + " " + o.txid.to_string() + " " + o.address.to_string() + " " + B.to_string() + " " + A.to_string());
							}
							std::reverse(e.begin(), e.end());
							if(limit >= 0 && e.size() > size_t(limit)) e.resize(limit);
							return diff(g, e, true);
						};
					}
				}
			}
			case 19: case 20: {
				std::vector<addr_t> l;
				for(auto& c : gen->contracts) if(c.type == "machine") l.push_back(c.addr);
				if(l.empty()) return nullptr;
				const auto a = l[W(l.size())];
				const uint32_t h = W(3) ? W(top + 1) : W(2) ? top + W(3) : uint32_t(-1);
				const int how = W(4);
				what = std::string(how == 0 ? "variable" : how == 1 ? "field" : how == 2 ? "all fields" : "storage") + " of contract " + S(a) + (h == uint32_t(-1) ? "" : " at height " + num(h));
				vm::varptr_t v;
				if(how == 0) v = node.read_storage_var(a, vm::MEM_STATIC, h);
				if(how == 1) v = node.read_storage_field(a, "x", h).first;
				if(how == 2) { auto m = node.read_storage(a, h); if(m.count("x")) v = m["x"]; }
				if(how == 3) { auto m = node.dump_storage(a, h); if(m.count(vm::MEM_STATIC)) v = m[vm::MEM_STATIC]; }
				const std::string got = v ? vm::to_string_value(*v) : std::string("none");
				return [=](const Ref& r) -> std::string {
					auto& m = *r.machines[std::min<size_t>(h, r.machines.size() - 1)];
					auto i = m.find(a);
					const auto w = i == m.end() ? std::string("none") : num(i->second);
					if(w != "none") sim::count("storage_reads_checked");
					return got == w ? "" : got + " instead of " + w;
				};
			}
			default: {
				const auto since = W(2) ? 0 : pick_height(top);
				const bool state = W(2), owned = W(3) == 0;
				const auto owner = users[W(users.size())].addr;
				what = std::string(state ? "open" : "all") + " offers " + (owned ? "of " + S(owner) : "since " + num(since));
				auto l = owned ? node.get_offers_by({owner}, state) : node.get_offers(since, state);
				return [=](const Ref& r) -> std::string {
					std::vector<std::string> g, e;
					for(auto& x : l) g.push_back(x.address.to_string() + " " + num(x.height) + " " + x.owner.to_string() + " " + x.bid_currency.to_string() + " " + x.ask_currency.to_string() + " " + x.bid_balance.str(10) + " " + x.ask_balance.str(10));
					for(auto& d : r.deps) if(auto s = exe(d, params->offer_binary)) {
						auto arg = [&](int i) { return s->init_args.at(i).to<addr_t>(); };
						const auto own = arg(0), B = arg(1), A = arg(2);
						if(owned ? own != owner : d.height < since) continue;
						if(s->init_args.size() > 4 && !s->init_args[4].empty()) continue;			// for one partner only
						const auto bb = r.balance(d.addr, B), ab = r.balance(d.addr, A);
						if(state && bb == uint128(0) && !(owned && ab > uint128(0))) continue;
						e.push_back(d.addr.to_string() + " " + num(d.height) + " " + own.to_string() + " " + B.to_string() + " " + A.to_string() + " " + bb.str(10) + " " + ab.str(10));
					}
					return diff(g, e, true);
				};
			}
		}
	}
};
}
#endif
