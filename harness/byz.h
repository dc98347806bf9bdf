// Byzantine peer: takes the genuine blocks, proofs, votes and transactions of one honest node on their way to a second one
// and adds altered, re-finalised and re-signed versions of them. The receiving node must end up with the genuine ones only.
#ifndef HARNESS_BYZ_H
#define HARNESS_BYZ_H
#include "chain.h"

namespace world {

struct Tap : vnx::Module {
	std::vector<std::string> topics;
	std::function<void(std::shared_ptr<const vnx::Value>)> fn;
	Tap(const std::string& name, const std::vector<std::string>& t, std::function<void(std::shared_ptr<const vnx::Value>)> f) : vnx::Module(name), topics(t), fn(f) {}
	void init() override { for(auto& t : topics) subscribe(t, 1000000000); }
	void handle(std::shared_ptr<const vnx::Value> v) override { if(fn) fn(v); }
};

struct Mutant { std::shared_ptr<Block> block; std::string kind; const char* props = "C22"; };

struct Mutator {
	NodeBox* A = nullptr;
	Chain* chain = nullptr;
	TxGen* gen = nullptr;
	std::map<hash_t, std::shared_ptr<const BlockHeader>> genuine;			// every block the honest node published
	std::vector<std::shared_ptr<const Transaction>> past;						// transactions on its chain

	static uint32_t R(uint32_t n) { return sim::draw(sim::S_MISC, n); }
	static addr_t thief() { return users[NUM_USERS - 2].addr; }
	static const User* farmer_of(const pubkey_t& k) { for(auto& f : farmers) if(f.pk == k) return &f; return nullptr; }
	static hash_t junk() { return hash_t("junk " + std::to_string(R(1000000))); }

	static void sign(std::shared_ptr<Block> b, bool rehash = true) {
		if(rehash) b->hash = b->calc_hash(params);
		if(b->proof.size() && b->proof[0]) if(auto* f = farmer_of(b->proof[0]->farmer_key)) b->farmer_sig = signature_t::sign(f->sk, b->hash);
		b->content_hash = b->calc_content_hash();
	}
	// after a change of the transaction list (call on A's fiber)
	void refinish(std::shared_ptr<Block> b) {
		b->finalize(params);
		if(b->reward_addr) b->reward_amount = A->node->calc_block_reward(b, b->tx_fees);
		sign(b);
	}
	static void redo(std::shared_ptr<Transaction> t) { t->static_cost = t->calc_cost(params); t->content_hash = t->calc_hash(true); }
	static std::shared_ptr<Transaction> plain_tx(int from, const addr_t& to, uint128 amount, const addr_t& cur, uint32_t ratio, uint32_t height, uint64_t nonce) {
		auto t = Transaction::create();
		t->note = tx_note_e();
		txin_t i; i.address = users[from].addr; i.contract = cur; i.amount = amount; i.solution = 0; t->inputs.push_back(i);
		txout_t o; o.address = to; o.contract = cur; o.amount = amount; t->outputs.push_back(o);
		t->network = params->network; t->version = get_transaction_version(params, height); t->nonce = nonce;
		t->sender = users[from].addr; t->fee_ratio = ratio; t->max_fee_amount = 2000000000;
		return t;
	}
	static void solve(std::shared_ptr<Transaction> t, std::vector<int> signers) {
		t->id = t->calc_hash();
		t->solutions.clear();
		for(int s : signers) { auto q = solution::PubKey::create(); q->pubkey = users[s].pk; q->signature = signature_t::sign(users[s].sk, t->id); t->solutions.push_back(q); }
		redo(t);
	}
	static exec_result_t success(std::shared_ptr<Transaction> t) {
		exec_result_t r; r.did_fail = false; r.total_cost = t->calc_cost(params);
		r.total_fee = cost_to_fee<std::logic_error>(r.total_cost, t->fee_ratio);
		return r;
	}
	void insert_sorted(std::shared_ptr<Block> b, std::shared_ptr<const Transaction> t) {
		auto it = b->tx_list.begin();
		while(it != b->tx_list.end() && (*it)->fee_ratio >= t->fee_ratio) ++it;
		b->tx_list.insert(it, t);
	}
	void forged(std::shared_ptr<const Transaction> t, const std::string& kind) {
		TxInfo info; info.tx = t; info.kind = "forged: " + kind; info.expect_invalid = true;
		gen->sent[t->id] = info;
	}
	uint64_t nonce() { return (uint64_t(0xF0) << 40) + ++counter; }
	uint64_t counter = 0;

	// one altered version of a genuine block; must run on A's fiber. No block: this kind does not apply.
	Mutant make(std::shared_ptr<const Block> orig) {
		Mutant m;
		auto prev = A->node->get_header(orig->prev);
		if(!prev || !orig->height || !orig->proof.size()) return m;
		auto b = vnx::clone(*orig);
		auto ok = [&](const char* kind, const char* props) { m.kind = kind; m.props = props; m.block = b; };
		const bool has_tx = b->tx_list.size();
		int group = R(has_tx ? 10 : 6);
		if((prop == "C12" || prop == "C13" || prop == "C14" || prop == "C10") && R(4)) group = has_tx ? 6 + R(4) : 5;
		if(prop == "C11" && R(2)) group = 3 + R(2) * 3;
		if(group <= 2) {			// proof, difficulty, time, position
			switch(R(29)) {
				case 0: b->version = 1; sign(b); return ok("version", "C22"), m;
				case 1: b->height += R(2) ? 1 : -1; sign(b); return ok("height", "C22"), m;
				case 2: b->prev = R(2) ? prev->prev : junk(); if(b->prev == orig->prev) return m; sign(b); return ok("parent", "C22"), m;
				case 3: b->time_stamp = prev->time_stamp + int64_t(b->vdf_count * params->block_interval_ms * 2) + 1 + R(100000); sign(b); return ok("time stamp too high", "C22"), m;
				case 4: b->time_stamp = prev->time_stamp + int64_t(b->vdf_count * params->block_interval_ms / 2) - 1 - R(1000); sign(b); return ok("time stamp too low", "C22"), m;
				case 5: b->vdf_height += R(2) ? 1 : -1; sign(b); return ok("vdf_height", "C22"), m;
				case 6: if(R(2)) { b->vdf_count++; b->vdf_reward_addr.push_back(thief()); b->vdf_height++; } else { b->vdf_count++; b->vdf_reward_addr.push_back(thief()); } sign(b); return ok("vdf_count", "C22"), m;
				case 7: b->vdf_iters += R(2) ? params->vdf_segment_size : -uint64_t(params->vdf_segment_size); sign(b); return ok("vdf_iters", "C22"), m;
				case 8: b->vdf_output = junk(); sign(b); return ok("vdf_output", "C22"), m;
				case 9: case 27: { const auto a = thief(); auto& v = b->vdf_reward_addr; v[R(v.size())] = a; sign(b); return ok("timelord reward address", "C22 C11"), m; }
				case 10: { auto p = vnx::clone(b->proof[0]); p->score ^= 1 + R(3); b->proof[0] = p; sign(b); return ok("proof score", "C22"), m; }
				case 11: {		// somebody else's plot
					auto p = vnx::clone(b->proof[0]); const auto k = farmers[R(NUM_FARMERS)].pk; if(k == p->farmer_key) return m;
					p->farmer_key = k; b->proof[0] = p; sign(b); return ok("proof with another farmer's key", "C22"), m;
				}
				case 12: { auto p = vnx::clone(b->proof[0]); p->difficulty += R(2) ? 1 : -1; b->proof[0] = p; sign(b); return ok("proof difficulty", "C22"), m; }
				case 13: {
					auto p = std::dynamic_pointer_cast<ProofOfSpaceOG>(vnx::clone(b->proof[0])); if(!p || p->proof_xs.empty()) return m;
					if(R(2)) p->proof_xs[R(p->proof_xs.size())] ^= 1 + R(7); else p->proof_xs.pop_back();
					p->score = get_proof_score(p->calc_proof_hash());
					reproof(b, orig, prev, p); return ok("altered proof of space", "C22"), m;
				}
				case 14: {		// proof for another challenge
					if(!prev->proof.size() || prev->proof[0]->challenge == b->proof[0]->challenge) return m;
					reproof(b, orig, prev, vnx::clone(prev->proof[0])); return ok("proof of an earlier challenge", "C22"), m;
				}
				case 15: {		// old proof relabelled with the new challenge
					if(!prev->proof.size() || prev->proof[0]->challenge == b->proof[0]->challenge) return m;
					auto p = vnx::clone(prev->proof[0]); p->challenge = b->proof[0]->challenge; p->difficulty = b->proof[0]->difficulty; p->score = get_proof_score(p->calc_proof_hash());
					bool same = false; for(auto& q : orig->proof) same |= q->calc_proof_hash() == p->calc_proof_hash();
					if(same) return m;
					reproof(b, orig, prev, p); return ok("old proof under a new challenge", "C22"), m;
				}
				case 16: {		// same proof twice counts double
					b->proof.push_back(b->proof.back()); b->space_fork_proofs++; reweigh(b, prev); sign(b); return ok("duplicate proof", "C22"), m;
				}
				case 17: if(b->proof.size() < 2) return m; std::reverse(b->proof.begin(), b->proof.end()); b->proof_hash = b->proof[0]->calc_proof_hash(); reweigh(b, prev); sign(b); return ok("proof order", "C22"), m;
				case 18: b->proof_hash = junk(); sign(b); return ok("proof_hash", "C22"), m;
				case 19: b->challenge = junk(); sign(b); return ok("challenge", "C22"), m;
				case 20: b->is_space_fork = !b->is_space_fork; if(R(2)) b->set_space_diff(params, prev); reweigh(b, prev); sign(b); return ok("is_space_fork", "C22"), m;
				case 21: b->space_diff += R(2) ? 1 : -1; reweigh(b, prev); sign(b); return ok("space_diff", "C22"), m;
				case 22: if(R(2)) b->space_fork_len += R(2) ? 1 : -1; else b->space_fork_proofs += R(2) ? 1 : -1; sign(b); return ok("space fork counters", "C22"), m;
				case 23: {
					const uint64_t step = std::max<uint64_t>(prev->time_diff >> params->max_diff_adjust, 1) + 1 + R(3);
					b->time_diff = R(2) ? prev->time_diff + step : prev->time_diff - std::min(step, prev->time_diff); reweigh(b, prev); sign(b); return ok("time_diff step", "C22"), m;
				}
				case 24: { const int k = R(3); const uint64_t d = 1 + R(1000); if(k != 1) b->weight += d; if(k != 0) b->total_weight += d; sign(b); return ok("weight", "C22"), m; }
				case 25: if(b->height < params->hardfork2_height) return m; b->proof_chain = junk(); sign(b); return ok("proof_chain", "C22"), m;
				case 26: {		// not signed by the proof's farmer
					b->nonce++; b->hash = b->calc_hash(params);
					if(R(3)) b->farmer_sig = signature_t::sign(users[0].sk, b->hash); else if(R(2)) b->farmer_sig = nullptr;
					b->content_hash = b->calc_content_hash(); return ok("farmer signature", "C22"), m;
				}
				case 28: b->proof.clear(); b->space_fork_proofs = prev->space_fork_proofs; b->hash = b->calc_hash(params); b->content_hash = b->calc_content_hash(); return ok("no proof", "C22"), m;
			}
			return m;
		}
		if(group <= 4) {			// rewards and sums
			switch(R(18)) {
				case 0: b->txfee_buffer += R(2) ? 1 : -1; sign(b); return ok("txfee_buffer", "C22 C11"), m;
				case 1: b->base_reward += 1 + R(1000000); sign(b); return ok("base_reward", "C22 C11"), m;
				case 2: case 15: if(!b->reward_addr) return m; b->reward_amount += R(3) ? 1 + R(1000000) : -uint64_t(1); sign(b); return ok("reward_amount", "C22 C11"), m;
				case 3: { const int v = R(2) ? 2 : -2; b->reward_vote_sum += v - b->reward_vote; b->reward_vote_count += orig->reward_vote ? 0 : 1; b->reward_vote = v; sign(b); return ok("reward_vote", "C22 C11"), m; }
				case 4: b->reward_vote_sum += R(2) ? 1 : -1; sign(b); return ok("reward_vote_sum", "C22 C11"), m;
				case 5: b->reward_vote_count += 1 + R(3); sign(b); return ok("reward_vote_count", "C22 C11"), m;
				case 6: b->reward_contract = thief(); sign(b); return ok("reward_contract", "C22"), m;
				case 7: case 16:
					if(b->vdf_reward_payout && R(2)) { b->vdf_reward_payout = nullptr; } else { if(b->vdf_reward_payout && *b->vdf_reward_payout == thief()) return m; b->vdf_reward_payout = thief(); }
					sign(b); return ok("timelord reward payout", "C22 C11"), m;
				case 8: b->project_addr = thief(); sign(b); return ok("project_addr", "C22 C11"), m;
				case 9: if(!b->reward_amount) return m; b->reward_addr = nullptr; sign(b); return ok("reward without address", "C22"), m;
				case 10: b->static_cost += 1; sign(b); return ok("static_cost sum", "C22"), m;
				case 11: b->total_cost += 1; sign(b); return ok("total_cost sum", "C22"), m;
				case 12: b->tx_count += 1; sign(b); return ok("tx_count", "C22"), m;
				case 13: case 17: b->tx_fees += 1 + R(100000); if(b->reward_addr) b->reward_amount = A->node->calc_block_reward(b, b->tx_fees); sign(b); return ok("fee sum", "C22 C11"), m;
				case 14: b->tx_hash = junk(); sign(b); return ok("tx_hash", "C22"), m;
			}
			return m;
		}
		if(b->height < params->transaction_activation && group != 5) return m;
		if(group == 5 || group == 6) {			// a forged transaction is added
			if(b->height < params->transaction_activation) {
				auto t = plain_tx(0, thief(), 1000, addr_t(), 1024 * 10, b->height, nonce()); solve(t, {0});
				t->update(success(t), params); insert_sorted(b, t); refinish(b); forged(t, "too early"); return ok("transaction before activation", "C22"), m;
			}
			const int victim = R(NUM_USERS - 2), t_ = NUM_USERS - 2;		// the thief has funds of its own
			const auto bal = chain->balance(orig->prev, users[victim].addr, addr_t());
			if(bal < 1000000) return m;
			const uint64_t amount = 1 + R(100000);
			std::shared_ptr<Transaction> t;
			const char* kind = ""; const char* props = "C22 C12";
			switch(R(16)) {
				case 0: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); solve(t, {t_}); kind = "sender's coins, thief's key"; break;
				case 1: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); solve(t, {victim});
					{ auto q = solution::PubKey::create(); q->pubkey = users[victim].pk; q->signature = signature_t::sign(users[t_].sk, t->id); t->solutions[0] = q; redo(t); } kind = "owner's key, thief's signature"; break;
				case 2: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->sender = thief(); solve(t, {t_}); kind = "thief pays the fee and spends somebody else's input"; break;
				case 3: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->sender = thief(); t->inputs[0].solution = 1; solve(t, {t_, t_ == 0 ? 1 : 0}); if(victim == (t_ == 0 ? 1 : 0)) return m; kind = "input signed by a third party"; break;
				case 4: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->sender = thief(); t->inputs[0].solution = 5; solve(t, {t_}); kind = "input without a solution"; break;
				case 5: t = plain_tx(victim, thief(), bal + 1, addr_t(), 10240, b->height, nonce()); solve(t, {victim}); kind = "more than the balance"; props = "C22 C12 C11"; break;
				case 6: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->outputs[0].amount += 1 + R(1000); solve(t, {victim}); kind = "outputs exceed inputs"; props = "C22 C12 C11"; break;
				case 7: {		// two transactions, each fine alone
					const uint128 a = bal - bal / 3;
					auto t1 = plain_tx(victim, thief(), a, addr_t(), 10240, b->height, nonce()); solve(t1, {victim});
					t1->update(success(t1), params); insert_sorted(b, t1);
					TxInfo info; info.tx = t1; info.kind = "half of a double spend"; gen->sent[t1->id] = info;
					t = plain_tx(victim, users[0].addr, a, addr_t(), 10240, b->height, nonce()); solve(t, {victim}); kind = "double spend in one block"; props = "C22 C12 C11"; break;
				}
				case 8: t = plain_tx(victim, thief(), amount, addr_t(), R(1024), b->height, nonce()); solve(t, {victim}); kind = "fee ratio below the minimum"; props = "C22"; break;
				case 9: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->network = "testnet"; solve(t, {victim}); kind = "other network"; props = "C22 C13"; break;
				case 10: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->version = 1 - t->version; solve(t, {victim}); kind = "transaction version"; props = "C22"; break;
				case 11: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->expires = b->height - 1; solve(t, {victim}); kind = "expired transaction shown as success"; props = "C22"; break;
				case 12: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->max_fee_amount = 1 + R(20000); solve(t, {victim}); kind = "fee above the limit"; props = "C22 C14 C12"; break;
				case 13: t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); t->outputs.emplace_back(t->outputs[0]); t->outputs.back().amount = 0; solve(t, {victim}); kind = "zero output"; props = "C22"; break;
				case 14: {		// unauthorised mint
					auto* c = gen->find("token");
					if(!c || !chain->on_chain(orig->prev, hash_t(c->addr)) || failed_deploy(c->addr) || c->owner == t_) return m;
					t = plain_tx(t_, users[0].addr, 1000, addr_t(), 10240, b->height, nonce());
					auto op = operation::Execute::create(); op->address = c->addr; op->method = "mint_to"; op->args = {TxGen::S(thief()), TxGen::N(123456), vnx::Variant()};
					op->user = users[c->owner].addr; op->solution = 1; t->execute.push_back(op);
					solve(t, {t_, c->owner});
					exec_result_t res;
					try { res = A->node->validate(t); } catch(...) { return m; }
					if(res.did_fail) return m;
					{ auto q = solution::PubKey::create(); q->pubkey = R(2) ? users[c->owner].pk : users[0].pk; q->signature = signature_t::sign(users[c->owner ? 0 : 1].sk, t->id); t->solutions[1] = q; redo(t); }
					t->update(res, params); insert_sorted(b, t); refinish(b); forged(t, "mint signed by somebody else"); return ok("mint with a forged owner signature", "C22 C12 C11"), m;
				}
				case 15: {		// a contract's result pays out more than it has
					t = plain_tx(victim, thief(), amount, addr_t(), 10240, b->height, nonce()); solve(t, {victim});
					auto r = success(t); txout_t o; o.address = thief(); o.amount = 1 + R(1000000); r.outputs.push_back(o);
					t->update(r, params); r.total_cost = t->static_cost; r.total_fee = cost_to_fee<std::logic_error>(r.total_cost, t->fee_ratio); t->update(r, params);
					insert_sorted(b, t); refinish(b); forged(t, "invented execution output"); return ok("invented execution output", "C22 C11 C12"), m;
				}
			}
			auto r = success(t);
			if(std::string(kind) == "fee above the limit" && R(2)) r.total_fee = t->max_fee_amount;
			t->update(r, params);
			insert_sorted(b, t);
			refinish(b);
			forged(t, kind);
			return ok(kind, props), m;
		}
		const size_t k = R(b->tx_list.size());
		if(group == 7) {			// repeat
			switch(R(4)) {
				case 0: b->tx_list.insert(b->tx_list.begin() + k, b->tx_list[k]); refinish(b); return ok("transaction twice in one block", "C22 C13"), m;
				case 1: case 2: {
					if(past.empty()) return m;
					auto t = past[R(2) ? past.size() - 1 - R(std::min<size_t>(past.size(), 5)) : R(past.size())];
					if(!chain->on_chain(orig->prev, t->id)) return m;
					insert_sorted(b, t); refinish(b); return ok("transaction of an earlier block", "C22 C13"), m;
				}
				case 3: {		// the copy differs in its result
					auto t = vnx::clone(*b->tx_list[k]);
					auto r = *t->exec_result;
					if(t->inputs.empty() || r.did_fail) { r = exec_result_t(*t->exec_result); r.did_fail = true; r.inputs.clear(); r.outputs.clear(); r.error = exec_error_t(); }
					else { r.did_fail = true; r.error = exec_error_t(); r.error->code = 1; r.inputs.clear(); r.outputs.clear(); }
					t->update(r, params);
					b->tx_list.insert(b->tx_list.begin() + k + R(2), t); refinish(b); return ok("transaction twice with different results", "C22 C13"), m;
				}
			}
			return m;
		}
		auto t = vnx::clone(*b->tx_list[k]);
		auto r = *t->exec_result;
		if(group == 8) {			// altered result
			const char* props = "C22 C14 C10";
			switch(R(12)) {
				case 0: r.total_fee += R(2) ? 1 : -1; t->update(r, params); break;
				case 1: r.total_cost += R(2) ? 1 : -1; t->update(r, params); break;
				case 2:			// failed shown as success
					if(!r.did_fail) return m;
					r.did_fail = false; r.error = nullptr; t->update(r, params); props = "C22 C14 C12 C10"; break;
				case 3: case 4:			// success shown as failed
					if(r.did_fail) return m;
					r.did_fail = true; r.inputs.clear(); r.outputs.clear(); r.error = exec_error_t(); r.error->code = R(3); r.error->address = R(2); t->update(r, params);
					r.total_cost = std::max<uint64_t>(r.total_cost, t->static_cost); t->update(r, params); break;
				case 5: if(!r.outputs.size()) return m; r.outputs[R(r.outputs.size())].amount += 1 + R(1000); t->update(r, params); props = "C22 C11 C10"; break;
				case 6: if(!r.outputs.size()) return m; { auto& o = r.outputs[R(r.outputs.size())]; if(o.address == thief()) return m; o.address = thief(); } t->update(r, params); props = "C22 C12 C10"; break;
				case 7: if(!r.inputs.size()) return m; { auto& i = r.inputs[R(r.inputs.size())]; switch(R(4)) { case 0: i.amount -= 1; break; case 1: i.address = users[0].addr; break; case 2: i.memo = std::string("x"); break; default: i.flags ^= 1; } } t->update(r, params); props = "C22 C11 C10"; break;
				case 8: if(!r.outputs.size()) return m; { auto& o = r.outputs[R(r.outputs.size())]; switch(R(2)) { case 0: o.memo = std::string("forged"); break; default: o.contract = o.contract == addr_t() ? thief() : addr_t(); } } t->update(r, params); props = "C22 C11 C10"; break;
				case 9: if(!r.inputs.size()) return m; r.inputs.pop_back(); t->update(r, params); props = "C22 C11 C10"; break;
				case 10: if(!r.error) return m; if(R(2)) { switch(R(3)) { case 0: r.error->code++; break; case 1: r.error->address++; break; default: r.error->operation++; } } else r.error = nullptr; t->update(r, params); break;
				case 11: t->exec_result = nullptr; redo(t); break;
			}
			if(r.did_fail && (t->exec_result && t->exec_result->did_fail) && R(3) == 0 && t->outputs.size() && !orig->tx_list[k]->exec_result->did_fail) { }
			b->tx_list[k] = t; refinish(b); return ok("altered execution result", props), m;
		}
		// altered content
		switch(R(8)) {
			case 0: {
				size_t j = k + 1; if(j >= b->tx_list.size() || b->tx_list[j]->fee_ratio == b->tx_list[k]->fee_ratio) return m;
				std::swap(b->tx_list[k], b->tx_list[j]); refinish(b); return ok("transaction order", "C22"), m;
			}
			case 1: if(t->outputs.empty()) return m; t->outputs[0].address = thief(); if(t->calc_hash() == t->id) return m; redo(t); b->tx_list[k] = t; refinish(b); return ok("outputs redirected, same id", "C22 C12"), m;
			case 2: if(t->outputs.empty()) return m; t->outputs[0].address = thief(); if(t->calc_hash() == t->id) return m; t->id = t->calc_hash(); redo(t); b->tx_list[k] = t; refinish(b); forged(t, "redirected output"); return ok("outputs redirected, old signatures", "C22 C12"), m;
			case 3: t->solutions.clear(); redo(t); { auto q = *t->exec_result; q.total_cost = t->static_cost; t->update(q, params); } b->tx_list[k] = t; refinish(b); return ok("signatures removed", "C22 C12"), m;
			case 4: t->sender = nullptr; t->id = t->calc_hash(); redo(t); b->tx_list[k] = t; refinish(b); forged(t, "no sender"); return ok("no sender", "C22 C12"), m;
			case 5: t->static_cost += R(2) ? 1 : -1; t->content_hash = t->calc_hash(true); b->tx_list[k] = t; refinish(b); return ok("static cost of a transaction", "C22"), m;
			case 6: { auto q = vnx::clone(t->solutions[0]); auto s = std::dynamic_pointer_cast<solution::PubKey>(q); if(!s) return m; s->signature = signature_t::sign(users[t->sender == users[0].addr ? 1 : 0].sk, t->id); t->solutions[0] = s; redo(t); b->tx_list[k] = t; refinish(b); return ok("sender's signature replaced", "C22 C12"), m; }
			case 7: t->content_hash = junk(); b->tx_list[k] = t; b->finalize(params); sign(b); return ok("content hash of a transaction", "C22"), m;
		}
		return m;
	}
	bool failed_deploy(const addr_t& a) { return !A->node->contract_map.count(a); }
	void reweigh(std::shared_ptr<Block> b, std::shared_ptr<const BlockHeader> prev) {
		try { b->weight = calc_block_weight(params, b, prev); b->total_weight = prev->total_weight + b->weight; } catch(...) {}
	}
	// replace the first proof, everything else consistent with it
	void reproof(std::shared_ptr<Block> b, std::shared_ptr<const Block> orig, std::shared_ptr<const BlockHeader> prev, std::shared_ptr<ProofOfSpace> p) {
		b->proof = {p};
		b->proof_hash = p->calc_proof_hash();
		b->proof_chain = calc_proof_chain(params, prev, b->proof_hash);
		b->challenge = calc_next_challenge(params, prev, b, b->is_space_fork);
		b->set_space_diff(params, prev);
		reweigh(b, prev);
		if(b->vdf_reward_payout) b->vdf_reward_payout = A->node->get_vdf_reward_winner(b);
		sign(b);
	}
};
}
#endif
