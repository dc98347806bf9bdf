// Seeded generator of transactions: transfers, token / swap / offer / lock / escrow / relay / multisig contracts, failing and invalid ones.
#ifndef HARNESS_TXGEN_H
#define HARNESS_TXGEN_H
#include "world.h"
#include <mmx/contract/Executable.hxx>
#include <mmx/contract/MultiSig.hxx>
#include <mmx/contract/Binary.hxx>
#include <mmx/operation/Execute.hxx>
#include <mmx/operation/Deposit.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/solution/MultiSig.hxx>
#include <mmx/vm/instr_t.h>
#include <mmx/vm/var_t.h>

namespace world {

struct TxInfo {
	std::shared_ptr<const Transaction> tx;
	std::string kind;
	bool expect_invalid = false;			// must never be on the chain
	bool plain = false;						// simple funded transfer by a rich user
	int64_t time_us = 0;
};

// Two hand-assembled contracts whose results depend on the order of their calls:
//  machine: x = 3; step(k): y = 3 * x + k, fails if y % 7 == 0, otherwise x = y % 1000003; bump(k): the same but stores before it checks;
//           pay(k): step, then mints x of its own currency to the caller
//  proxy:   forwards to the contract it depends on ("target"); proxies may be chained
inline std::shared_ptr<contract::Binary> machine_binary(bool proxy) {
	using namespace mmx::vm;
	auto bin = contract::Binary::create();
	bin->name = proxy ? "sim_proxy" : "sim_machine";
	bin->compiler = "sim";
	std::vector<uint8_t> consts;
	auto constant = [&](const var_t& v) { auto d = mmx::vm::serialize(v, false, false); consts.insert(consts.end(), d.first.get(), d.first.get() + d.second); };
	std::vector<instr_t> code;
	auto method = [&](const std::string& name, const std::vector<std::string>& args, bool init = false) {
		contract::method_t m; m.name = name; m.is_init = init; m.is_public = !init; m.args = args; m.entry_point = code.size(); m.is_payable = false; m.is_const = false;
		bin->methods[name] = m;
	};
	const uint32_t X = MEM_STATIC, S = MEM_STACK, USER = MEM_EXTERN + EXTERN_USER;
	if(proxy) {
		auto str = [&](const std::string& t) { constant(*to_binary(t)); };
		str("target"); str("step"); str("bump"); str("pay"); constant(uint_t(1)); constant(uint_t(0));
		method("init", {}, true); code.emplace_back(OP_COPY, 0, X, 5); code.emplace_back(OP_RET);
		for(int i = 0; i < 3; ++i) {
			method(i == 0 ? "step" : i == 1 ? "bump" : "pay", {"k"});
			code.emplace_back(OP_COPY, 0, S + 4, S + 1); code.emplace_back(OP_RCALL, 0, 0, 1 + i, 3, 1);
			code.emplace_back(OP_ADD, 0, X, X, 4); code.emplace_back(OP_RET);
		}
		method("both", {"k"});
		code.emplace_back(OP_COPY, 0, S + 4, S + 1); code.emplace_back(OP_RCALL, 0, 0, 2, 3, 1);
		code.emplace_back(OP_ADD, 0, X, X, 4);
		code.emplace_back(OP_COPY, 0, S + 4, S + 1); code.emplace_back(OP_RCALL, 0, 0, 1, 3, 1);
		code.emplace_back(OP_RET);
	} else {
		bin->fields["x"] = X;
		constant(uint_t(3)); constant(uint_t(7)); constant(uint_t(0)); constant(*to_binary("unlucky")); constant(uint_t(1000003)); constant(*to_binary("sim pay"));
		method("init", {}, true); code.emplace_back(OP_COPY, 0, X, 0); code.emplace_back(OP_RET);
		for(int i = 0; i < 3; ++i) {
			method(i == 0 ? "step" : i == 1 ? "bump" : "pay", {"k"});
			code.emplace_back(OP_MUL, 0, S + 2, X, 0);
			code.emplace_back(OP_ADD, 0, S + 2, S + 2, S + 1);
			code.emplace_back(OP_MOD, 0, S + 5, S + 2, 4);
			if(i == 1) code.emplace_back(OP_COPY, 0, X, S + 5);
			code.emplace_back(OP_MOD, 0, S + 3, S + 2, 1);
			code.emplace_back(OP_CMP_EQ, 0, S + 4, S + 3, 2);
			code.emplace_back(OP_JUMPN, 0, code.size() + 2, S + 4);
			code.emplace_back(OP_FAIL, 0, 3, 1);
			if(i != 1) code.emplace_back(OP_COPY, 0, X, S + 5);
			if(i == 2) code.emplace_back(OP_MINT, 0, USER, X, 5);
			code.emplace_back(OP_RET);
		}
	}
	bin->constant = consts;
	bin->binary = mmx::vm::serialize(code);
	return bin;
}

struct TxGen {
	struct C { addr_t addr; std::string type; int owner = 0, peer = 0; addr_t a, b; uint64_t inv_hi = 0; uint32_t born = 0; std::set<int> owners; uint32_t num = 0; };
	std::vector<C> contracts;
	std::map<hash_t, TxInfo> sent;
	std::vector<hash_t> order;
	std::function<uint128(const addr_t&, const addr_t&)> balance;
	uint32_t height = 0;
	uint64_t counter = 0;
	bool allow_invalid = true, only_plain = false;
	uint32_t machines = 0;				// percentage of transactions that go to the machine contracts
	std::vector<int> weights;				// by kind

	int rnd_user() { return W(NUM_USERS); }
	std::function<bool(const addr_t&)> exists;		// successfully deployed on some chain
	std::set<addr_t> ghosts;			// deployed, but not on the chain of the node that gets the transaction
	bool forks = false;
	const C* find(const std::string& type) {
		std::vector<const C*> l;
		if(ghosts.size() && W(3)) for(auto& c : contracts) if(c.type == type && ghosts.count(c.addr)) l.push_back(&c);
		if(l.empty()) for(auto& c : contracts) if(c.type == type && exists && exists(c.addr)) l.push_back(&c);
		if((l.empty() && W(3) == 0) || W(20) == 0) { l.clear(); for(auto& c : contracts) if(c.type == type) l.push_back(&c); }
		return l.empty() ? nullptr : l[W(l.size())];
	}
	addr_t rnd_currency() {
		auto* t = find("token");
		return t && W(2) ? t->addr : addr_t();
	}
	struct B {
		std::shared_ptr<Transaction> tx = Transaction::create();
		std::vector<int> signers;
		std::map<int, std::pair<uint32_t, std::vector<int>>> multi;		// [solution index => multisig]
		int sol(int user) {
			for(size_t i = 0; i < signers.size(); ++i) if(signers[i] == user) return i;
			signers.push_back(user); return signers.size() - 1;
		}
		void in(int user, const addr_t& cur, uint128 amount, const char* memo = nullptr) {
			txin_t i; i.address = users[user].addr; i.contract = cur; i.amount = amount; i.solution = sol(user);
			if(memo) i.memo = std::string(memo);
			tx->inputs.push_back(i);
		}
		void out(const addr_t& a, const addr_t& cur, uint128 amount, const std::string& memo = "") {
			txout_t o; o.address = a; o.contract = cur; o.amount = amount;
			if(memo.size()) o.memo = memo;
			tx->outputs.push_back(o);
		}
		void exec(const addr_t& a, const std::string& m, const std::vector<vnx::Variant>& args, int user = -1) {
			auto op = operation::Execute::create();
			op->address = a; op->method = m; op->args = args;
			if(user >= 0) { op->user = users[user].addr; op->solution = sol(user); }
			tx->execute.push_back(op);
		}
		void deposit(const addr_t& a, const std::string& m, const std::vector<vnx::Variant>& args, const addr_t& cur, uint128 amount, int user = -1) {
			auto op = operation::Deposit::create();
			op->address = a; op->method = m; op->args = args; op->currency = cur; op->amount = amount;
			if(user >= 0) { op->user = users[user].addr; op->solution = sol(user); }
			tx->execute.push_back(op);
		}
		void deploy(const std::string& bin, const std::vector<vnx::Variant>& args, const std::string& sym = "") {
			auto e = contract::Executable::create();
			e->binary = binaries[bin]; e->init_method = "init"; e->init_args = args;
			if(sym.size()) { e->name = "Sim " + sym; e->symbol = sym; e->decimals = 0; }
			tx->deploy = e;
		}
	};
	const C* hot = nullptr; C hot_c;			// contract that most calls of the moment go to
	void heat() {
		hot = nullptr;
		if(W(3)) if(auto* c = find(W(2) ? "machine" : "proxy")) { hot_c = *c; hot = &hot_c; }
	}
	addr_t owned_currency(int u) {			// something the user has
		for(int i = 0; i < 3; ++i) { const auto c = rnd_currency(); if(balance(users[u].addr, c) > uint128(10) || W(15) == 0) return c; }
		return addr_t();
	}
	const C* live(const std::string& type, bool& pending) {
		std::vector<const C*> l;
		if(ghosts.size() && W(3)) for(auto& c : contracts) if(c.type == type && ghosts.count(c.addr)) return &c;
		for(auto& c : contracts) if(c.type == type) { if(exists && exists(c.addr)) l.push_back(&c); else if(height < c.born + 4) pending = true; }
		return l.empty() ? nullptr : l[W(l.size())];
	}
	bool machine_tx(B& b, C& born, TxInfo& info, int u) {
		bool p1 = false, p2 = false, p3 = false, p4 = false;
		auto* bm = live("bin_machine", p1); auto* bp = live("bin_proxy", p2);
		if((!bm && p1) || (bm && !bp && p2)) return false;
		if(!bm) { info.kind = "deploy binary"; born.type = "bin_machine"; b.tx->deploy = machine_binary(false); return true; }
		if(!bp) { info.kind = "deploy binary"; born.type = "bin_proxy"; b.tx->deploy = machine_binary(true); return true; }
		auto* m = live("machine", p3); auto* p = live("proxy", p4);
		if((!m && p3) || (m && !p && p4 && W(2))) return false;
		if(m && !p && p4) p = m;
		auto exe = [&](const C* bin, const C* target) {
			auto e = contract::Executable::create();
			e->binary = bin->addr; e->init_method = "init"; if(target) e->depends["target"] = target->addr;
			b.tx->deploy = e;
		};
		if(!m || W(25) == 0) { info.kind = "deploy machine"; born.type = "machine"; exe(bm, nullptr); return true; }
		if(!p || W(15) == 0) { info.kind = "deploy proxy"; born.type = "proxy"; exe(bp, p && W(2) ? p : m); return true; }
		info.kind = "machine";
		auto* c = hot && W(4) ? hot : W(2) ? m : p;
		const int n = 1 + (W(3) == 0 ? 1 + W(2) : 0);
		for(int i = 0; i < n; ++i) {
			b.exec(c->addr, W(3) ? (W(2) ? "pay" : "step") : "bump", {N(W(5))}, u);
			if(W(3) == 0) c = W(2) ? m : p;
		}
		if(W(5) == 0) {			// of several such transactions only one can be paid, so that later calls depend on one that drops out
			info.kind = "machine (large payment)";
			const auto a = balance(users[u].addr, addr_t()) * (40 + W(60)) / 100;
			if(a > 0) { b.in(u, addr_t(), a); b.out(users[rnd_user()].addr, addr_t(), a); }
		}
		return true;
	}
	static vnx::Variant S(const addr_t& a) { return vnx::Variant(a.to_string()); }
	static vnx::Variant N(uint64_t v) { return vnx::Variant(v); }
	uint128 part(uint128 total, uint32_t over_percent) {
		if(W(100) < over_percent) return total + 1 + W(1000);		// more than available
		switch(W(4)) {
			case 0: return total / (2 + W(50)) + 1;
			case 1: return uint128(1 + W(1000));
			case 2: return W(3) ? total / 3 + 1 : total;
			default: return total / 100 + 1;
		}
	}

	TxInfo make() {
		TxInfo info;
		auto bp = std::make_shared<B>();
		B& b = *bp;
		auto& tx = b.tx;
		int u = rnd_user();
		if(only_plain) u = W(NUM_USERS - 1);
		const int v = rnd_user();
		C born;
		int kind = only_plain ? 0 : counter < 8 ? pick({2, 3, 3, 4, 0}) : W(100) < machines ? 17 : pick({0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 17, 6, 8, 11});
		tx->note = tx_note_e();
		b.sol(u);			// sender
		const auto& me = users[u];
		switch(kind) {
			default:
			case 0: {		// transfer
				info.kind = "transfer"; info.plain = only_plain;
				const auto cur = only_plain ? addr_t() : owned_currency(u);
				uint128 total = only_plain ? uint128(1 + W(100000)) : part(balance(me.addr, cur), 4);
				if(total == 0) total = 1;
				const int n = 1 + (only_plain ? 0 : W(3));
				b.in(u, cur, total, W(5) == 4 ? "sim memo" : nullptr);
				uint128 left = total;
				for(int i = 0; i < n && left > 0; ++i) {
					const uint128 a = i + 1 == n ? left : uint128(std::max<uint64_t>(left.lower() / 2, 1));
					b.out(users[i ? rnd_user() : v].addr, cur, a, W(6) == 5 ? "to " + std::to_string(i) : "");
					left -= a;
				}
				break;
			}
			case 1: {		// two owners
				info.kind = "transfer2";
				const auto c1 = owned_currency(u), c2 = owned_currency(v);
				auto a1 = part(balance(me.addr, c1), 3), a2 = part(balance(users[v].addr, c2), 3);
				b.in(u, c1, a1); b.in(v, c2, a2);
				if(c1 == c2) b.out(users[rnd_user()].addr, c1, a1 + a2);
				else { b.out(users[v].addr, c1, a1); b.out(me.addr, c2, a2); }
				break;
			}
			case 2:			// deploy token
				info.kind = "deploy token"; born.type = "token"; born.owner = u;
				b.deploy("token", {S(me.addr)}, "T" + std::to_string(contracts.size()));
				break;
			case 3: case 4: {	// mint
				auto* c = find("token");
				if(!c) { born.type = "token"; born.owner = u; info.kind = "deploy token"; b.deploy("token", {S(me.addr)}, "TK"); break; }
				info.kind = "mint";
				const int who = W(8) == 7 ? v : c->owner;		// not the owner: must fail
				b.exec(c->addr, "mint_to", {S(users[v].addr), N(1 + W(1000000)), vnx::Variant()}, who);
				if(W(4) == 3) b.exec(c->addr, "mint_to", {S(me.addr), N(1 + W(100000)), vnx::Variant(std::string("m"))}, who);
				break;
			}
			case 5: {		// deploy swap
				auto* c = find("token");
				if(!c) { info.kind = "deploy token"; born.type = "token"; born.owner = u; b.deploy("token", {S(me.addr)}, "TS"); break; }
				info.kind = "deploy swap"; born.type = "swap"; born.a = c->addr; born.b = W(3) ? addr_t() : rnd_currency();
				b.deploy("swap", {S(born.a), S(born.b)});
				break;
			}
			case 6: case 7: {	// use swap
				auto* c = find("swap");
				if(!c) { auto* t = find("token"); if(t) { info.kind = "deploy swap"; born.type = "swap"; born.a = t->addr; b.deploy("swap", {S(t->addr), S(addr_t())}); } else { info.kind = "deploy token"; born.type = "token"; born.owner = u; b.deploy("token", {S(me.addr)}, "TX"); } break; }
				int i = W(2);
				if(balance(me.addr, i ? c->b : c->a) == uint128(0) && W(8)) i = !i;
				const auto cur = i ? c->b : c->a;
				switch(W(6)) {
					case 0: case 1: case 2: {
						info.kind = "swap trade";
						auto a = part(balance(me.addr, cur) / 10, 3);
						b.in(u, cur, a);
						b.deposit(c->addr, "trade", {N(i), S(users[v].addr), W(4) == 3 ? N(1 + W(100000)) : vnx::Variant(), N(1 + W(5))}, cur, a, W(2) ? u : -1);
						break;
					}
					case 3: {
						info.kind = "swap add";
						const int pool = W(4) ? int(c->addr.bytes[0] % 4) : W(4);
						for(int k = 0; k < 2; ++k) {
							const auto cc = (k ? !i : i) ? c->b : c->a;
							auto a = part(balance(me.addr, cc) / 3, 3);
							if(k && (a < 2 || W(4) == 0)) break;
							b.in(u, cc, a);
							b.deposit(c->addr, "add_liquid", {N(k ? !i : i), N(pool)}, cc, a, u);
						}
						break;
					}
					case 4: info.kind = "swap rem"; b.exec(c->addr, "rem_liquid", {N(i), N(1 + W(10000))}, u); break;
					default: info.kind = "swap rem all";
						if(W(2)) b.exec(c->addr, "rem_all_liquid", {}, u); else b.exec(c->addr, "payout", {}, u);
				}
				break;
			}
			case 8: case 9: {	// offers
				auto* c = find("offer");
				if(!c || W(4) == 0) {
					info.kind = "deploy offer"; born.type = "offer"; born.owner = u;
					born.a = rnd_currency(); auto* t = find("token"); born.b = born.a == addr_t() && t ? t->addr : addr_t();
					if(born.a == born.b) { info.kind = "deploy token"; born.type = "token"; b.deploy("token", {S(me.addr)}, "TO"); break; }
					born.inv_hi = pick({1, 2, 3});
					const uint128 inv = (uint128(born.inv_hi) << 64) / (1 + W(2));
					b.deploy("offer", {S(me.addr), S(born.a), S(born.b), vnx::Variant(inv.str(10)), W(6) == 5 ? S(users[v].addr) : vnx::Variant()});
					const auto a = part(balance(me.addr, born.a) / 4, 3);
					if(W(4)) { b.in(u, born.a, a); if(W(3) && params) b.deposit(addr_t(), "deposit", {}, born.a, a, u); }
					born.peer = 0; born.num = 0;
					offer_price[counter] = inv.str(10);
					break;
				}
				const auto price = prices.count(c->addr) ? prices[c->addr] : std::string("1");
				switch(W(5)) {
					case 0: case 1: case 2: {
						info.kind = "offer trade";
						if(W(8)) for(int k = 0; k < NUM_USERS && balance(users[u].addr, c->b) < uint128(20); ++k) u = (u + 1) % NUM_USERS;
						b.signers.clear(); b.sol(u);
						const auto a = part(balance(users[u].addr, c->b) / 20, 3);
						b.in(u, c->b, a);
						b.deposit(c->addr, W(2) ? "trade" : "accept", {S(users[v].addr), vnx::Variant(W(10) == 9 ? std::string("12345") : price)}, c->b, a, u);
						break;
					}
					case 3: info.kind = "offer withdraw"; b.exec(c->addr, W(2) ? "withdraw" : "cancel", {}, W(6) == 5 ? v : c->owner); break;
					default: {
						info.kind = "offer deposit";
						const auto a = part(balance(users[c->owner].addr, c->a) / 10, 3);
						b.in(c->owner, c->a, a); b.deposit(c->addr, "deposit", {}, c->a, a, c->owner);
					}
				}
				break;
			}
			case 10: {		// time lock
				auto* c = find("lock");
				if(!c) { info.kind = "deploy lock"; born.type = "lock"; born.owner = v; b.deploy("time_lock", {S(users[v].addr), N(height + W(10))}); break; }
				if(W(2)) { info.kind = "lock deposit"; const auto cur = rnd_currency(); const auto a = part(balance(me.addr, cur) / 50, 3); b.in(u, cur, a); b.deposit(c->addr, "deposit", {}, cur, a); }
				else { info.kind = "lock withdraw"; b.exec(c->addr, "withdraw", {S(users[v].addr), N(1 + W(100000)), S(rnd_currency())}, W(6) == 5 ? v : c->owner); }
				break;
			}
			case 11: {		// escrow / relay
				auto* c = find("escrow");
				if(!c) { info.kind = "deploy escrow"; born.type = "escrow"; born.owner = v; born.peer = u; b.deploy("escrow", {S(me.addr), S(users[v].addr), S(users[rnd_user()].addr)}); break; }
				if(W(2)) { info.kind = "escrow deposit"; const auto a = part(balance(me.addr, addr_t()) / 50, 3); b.in(u, addr_t(), a); if(W(5)) b.out(c->addr, addr_t(), a); else b.deposit(c->addr, "deposit", {}, addr_t(), a); }
				else { info.kind = "escrow release"; b.exec(c->addr, W(2) ? "unlock" : "cancel", {W(2) ? vnx::Variant() : S(rnd_currency())}, W(5) == 4 ? v : c->owner); }
				break;
			}
			case 12: {		// multisig
				auto* c = find("multi");
				if(!c) {
					info.kind = "deploy multisig"; born.type = "multi";
					auto m = contract::MultiSig::create();
					m->num_required = 1 + W(2);
					born.num = m->num_required;
					for(int i = 0; i < 3; ++i) { const int o = W(NUM_USERS); m->owners.insert(users[o].addr); born.owners.insert(o); }
					if(m->owners.size() < m->num_required) { m->num_required = born.num = 1; }
					tx->deploy = m;
					break;
				}
				if(W(2)) { info.kind = "multisig fund"; const auto a = part(balance(me.addr, addr_t()) / 50, 3); b.in(u, addr_t(), a); b.out(c->addr, addr_t(), a); }
				else {
					info.kind = "multisig spend";
					const auto a = part(balance(c->addr, addr_t()), 10);
					if(a == 0) break;
					txin_t i; i.address = c->addr; i.contract = addr_t(); i.amount = a; i.flags = txin_t::IS_EXEC;
					b.signers.push_back(-1);
					i.solution = b.signers.size() - 1;
					tx->inputs.push_back(i);
					std::vector<int> who;
					for(int o : c->owners) if(who.size() < c->num) who.push_back(o);
					if(W(5) == 4 && who.size()) who.pop_back();			// not enough signatures: must fail
					b.multi[i.solution] = {c->num, who};
					b.out(users[v].addr, addr_t(), a);
				}
				break;
			}
			case 13: {		// several operations on one contract in one transaction
				auto* c = find("token");
				if(!c) { info.kind = "deploy token"; born.type = "token"; born.owner = u; b.deploy("token", {S(me.addr)}, "TM"); break; }
				info.kind = "mixed";
				b.exec(c->addr, "mint_to", {S(me.addr), N(1 + W(1000)), vnx::Variant()}, c->owner);
				const auto a = part(balance(me.addr, addr_t()) / 50, 2);
				b.in(u, addr_t(), a); b.out(users[v].addr, addr_t(), a);
				if(W(2)) b.exec(c->addr, "no_such_method", {}, c->owner);		// fails after earlier effects
				else if(W(2)) b.exec(c->addr, "recover", {N(1 + W(100)), S(addr_t())}, c->owner);
				break;
			}
			case 14: {		// relay
				auto* c = find("relay");
				if(!c) { info.kind = "deploy relay"; born.type = "relay"; born.owner = v; b.deploy("relay", {S(users[v].addr)}); break; }
				if(W(2)) { info.kind = "relay fund"; const auto a = part(balance(me.addr, addr_t()) / 50, 3); b.in(u, addr_t(), a); b.out(c->addr, addr_t(), a); }
				else { info.kind = "relay claim"; b.exec(c->addr, "claim_all", {S(rnd_currency())}, W(5) == 4 ? v : c->owner); }
				break;
			}
			case 15: {		// poor user spends almost everything on fees and outputs
				info.kind = "drain";
				u = NUM_USERS - 1; b = B(); b.tx->note = tx_note_e(); b.sol(u);
				const auto bal = balance(users[u].addr, addr_t());
				const uint128 a = bal > 60000 ? bal - 50000 - W(20000) : uint128(1 + W(100));
				b.in(u, addr_t(), a); b.out(users[v].addr, addr_t(), a);
				break;
			}
			case 16: {		// effects on several contracts, then (often) a failure
				auto* c = find("swap"); auto* t = find("token");
				if(!c || !t) { info.kind = "deploy token"; born.type = "token"; born.owner = u; b.deploy("token", {S(me.addr)}, "TX"); break; }
				info.kind = "several contracts";
				const int n = 1 + W(3);
				for(int k = 0; k < n; ++k) switch(W(3)) {
					case 0: b.exec(t->addr, "mint_to", {S(me.addr), N(1 + W(1000)), vnx::Variant()}, t->owner); break;
					case 1: {
						int i = W(2);
						if(balance(me.addr, i ? c->b : c->a) == uint128(0)) i = !i;
						const auto cur = i ? c->b : c->a;
						auto a = part(balance(me.addr, cur) / 20, 3);
						b.in(u, cur, a);
						if(W(2)) b.deposit(c->addr, "add_liquid", {N(i), N(int(c->addr.bytes[0] % 4))}, cur, a, u);
						else b.deposit(c->addr, "trade", {N(i), S(users[v].addr), vnx::Variant(), N(1 + W(5))}, cur, a, u);
						break;
					}
					default: if(auto* m = find(W(2) ? "machine" : "proxy")) b.exec(m->addr, W(2) ? "bump" : "step", {N(W(5))}, u);
				}
				if(W(2)) b.exec(t->addr, W(2) ? "no_such_method" : "init", {}, t->owner);
				break;
			}
			case 17:
				if(!machine_tx(b, born, info, u)) { info.kind = "transfer"; const auto a = part(balance(me.addr, addr_t()) / 50, 3); b.in(u, addr_t(), a); b.out(users[v].addr, addr_t(), a); }
				break;
		}
		counter++;
		auto t = b.tx;
		t->network = params->network;
		t->version = get_transaction_version(params, height + 1);
		t->nonce = (uint64_t(run_salt) << 32) + counter;
		t->sender = users[u].addr;
		t->fee_ratio = only_plain ? 10240 : pick({1024, 10240, 1024, 2048, 3072, 5120, 1500, 20480});
		t->max_fee_amount = 2000000000;
		// sign
		auto finish = [t, bp]() {
			const auto& b = *bp;
			t->solutions.clear();
			t->id = t->calc_hash();
			for(size_t i = 0; i < b.signers.size(); ++i) {
				if(b.signers[i] >= 0) {
					auto s = solution::PubKey::create();
					s->pubkey = users[b.signers[i]].pk; s->signature = signature_t::sign(users[b.signers[i]].sk, t->id);
					t->solutions.push_back(s);
				} else {
					auto s = solution::MultiSig::create();
					s->num_required = b.multi.at(i).first;
					for(int o : b.multi.at(i).second) {
						auto q = solution::PubKey::create(); q->pubkey = users[o].pk; q->signature = signature_t::sign(users[o].sk, t->id);
						s->solutions[users[o].addr] = q;
					}
					t->solutions.push_back(s);
				}
			}
			t->static_cost = t->calc_cost(params);
			t->content_hash = t->calc_hash(true);
		};
		const bool exact = exact_fee && W(4) == 3;
		finish();
		if(!only_plain && allow_invalid && W(12) == 11) {
			switch(W(8)) {
				case 0: {		// signature of somebody else
					info.kind += " (bad sig)"; info.expect_invalid = true;
					auto s = solution::PubKey::create(); const int w = (u + 1 + W(NUM_USERS - 1)) % NUM_USERS;
					s->pubkey = users[W(2) ? u : w].pk; s->signature = signature_t::sign(users[w].sk, t->id);
					t->solutions[0] = s; break;
				}
				case 1: t->expires = height; info.kind += " (expired)"; finish(); break;
				case 2: t->max_fee_amount = 20000 + W(60000); info.kind += " (low fee)"; finish(); break;
				case 3: t->network = "testnet"; info.kind += " (network)"; info.expect_invalid = true; finish(); break;
				case 4: t->fee_ratio = W(1024); info.kind += " (fee ratio)"; info.expect_invalid = true; finish(); break;
				case 5: t->version = 1 - t->version; info.kind += " (version)"; finish(); break;
				case 6: if(t->outputs.size()) { t->outputs[0].amount += 1 + W(1000); info.kind += " (over-spend)"; finish(); } break;
				case 7: if(t->inputs.size() && b.signers.size() > 1) { t->inputs.back().solution = W(2) ? 0 : 77; info.kind += " (wrong solution)"; finish(); } break;
			}
			t->static_cost = t->calc_cost(params);
			t->content_hash = t->calc_hash(true);
		}
		if(forks && born.type.size() && !info.expect_invalid && W(3) == 0) { t->expires = height + 1 + W(4); info.kind += " (expires)"; finish(); }
		else if(!only_plain && !info.expect_invalid && W(10) == 9) { t->expires = height + W(4); info.kind += " (expires)"; finish(); }
		want_exact = exact && !info.expect_invalid;
		refinish = [t, finish](uint64_t max_fee) { t->max_fee_amount = max_fee; finish(); };
		info.tx = t;
		if(born.type.size()) { born.addr = t->id; born.born = height; pending_born = born; has_born = true; } else has_born = false;
		return info;
	}
	void submitted(TxInfo& info) {
		if(has_born) {
			pending_born.addr = info.tx->id;
			if(contracts.size() < 60) contracts.push_back(pending_born);
			auto it = offer_price.find(counter - 1);
			if(it != offer_price.end()) prices[info.tx->id] = it->second;
		}
		info.time_us = sim::now_us();
		sent[info.tx->id] = info;
		order.push_back(info.tx->id);
	}
	bool exact_fee = true, want_exact = false, has_born = false;
	uint32_t run_salt = 1;
	std::function<void(uint64_t)> refinish;
	C pending_born;
	std::map<uint64_t, std::string> offer_price;
	std::map<addr_t, std::string> prices;
};
}
#endif
