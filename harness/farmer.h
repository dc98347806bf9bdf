// C43: the real Farmer between a wallet, harvesters and pool servers that are slow, fail and change.
#ifndef HARNESS_FARMER_H
#define HARNESS_FARMER_H
#include "byz.h"
#include <mmx/Farmer.h>
#include <mmx/FarmerClient.hxx>
#include <mmx/FarmInfo.hxx>
#include <mmx/Partial.hxx>
#include <mmx/ValidatorVote.hxx>
#include <mmx/Wallet_get_all_farmer_keys_return.hxx>
#include <mmx/Wallet_get_all_accounts_return.hxx>

namespace fm {
using namespace mmx;
using world::W; using world::pick; using world::S;

struct SlowWallet : vnx::Module {
	std::set<int> keys; bool fail = false; vnx::optional<addr_t> account; std::map<int, int64_t> told; int64_t told_account = 0;
	SlowWallet() : vnx::Module("Wallet") {}
	void init() override { vnx::open_pipe(vnx_name, this, 1000); }
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t&) override {
		const auto name = method->get_type_name();
		if(W(4) == 0) sim::sleep_us(W(3000000));
		if(fail) { sim::count("wallet fails"); throw std::runtime_error("wallet fails"); }
		if(name == "mmx.Wallet.get_all_farmer_keys") { auto r = Wallet_get_all_farmer_keys_return::create(); for(int i : keys) { r->_ret_0.emplace_back(world::farmers[i].sk, world::farmers[i].pk); told.emplace(i, sim::now_us()); } return r; }
		if(name == "mmx.Wallet.get_all_accounts") { auto r = Wallet_get_all_accounts_return::create(); if(account) { if(!told_account) told_account = sim::now_us(); account_info_t a; r->_ret_0.push_back(a); a.address = account; r->_ret_0.push_back(a); } return r; }
		throw std::logic_error("slow wallet: " + name);
	}
};
struct Stats { uint64_t valid = 0, failed = 0; uint32_t total = 0; int64_t response = 0; std::map<int, uint32_t> errors; };
struct Proof { std::shared_ptr<const ProofResponse> v; int key; bool valid; int64_t at; int got = 0; };
struct Part { std::shared_ptr<const Partial> v; int key; int64_t at; int posted = 0, published = 0; uint64_t diff = 0; };
struct Report { std::shared_ptr<const FarmInfo> v; int64_t at; };
struct Lookup { std::string url; addr_t contract; };

static void run() {
	world::enter();
	auto par = world::params = world::draw_params();
	auto& pol = sim::policy;
	pol.preempt = pick({0.02, 0.2, 0.0}); pol.pick_random = pick({0.2, 0.5}); pol.step_us = 2; pol.max_steps = 20000000;
	pol.stall = pick({0.0, 1e-3, 1e-2}); pol.stall_us = pick({20000, 200000});
	auto* m = sim::add_machine("f");
	net::set_address(m, "10.0.0.1");
	vnx::init_process(m);
	const int num_keys = 4;
	SlowWallet* wallet = nullptr; Farmer* farmer = nullptr; world::Tap* tap = nullptr;
	vnx::optional<addr_t> reward;
	uint64_t serial = 0, gen = 0;			// gen counts lives of the farmer
	const std::string salt = "farmer ";
	std::map<hash_t, Proof> proofs;
	std::map<std::string, Part> parts;
	std::map<addr_t, Stats> stats;
	std::map<std::string, Report> reports;
	std::map<addr_t, std::string> server;			// the URL a contract has
	std::map<addr_t, std::set<uint64_t>> answered;	// difficulties ever told
	std::map<std::string, uint64_t> pool_diff;		// by URL
	std::vector<addr_t> contracts; for(int i = 0; i < 3; ++i) contracts.push_back(addr_t(hash_t("plot nft " + std::to_string(i))));
	std::vector<std::string> urls; for(int i = 0; i < 3; ++i) { urls.push_back("http://pool" + std::to_string(i)); pool_diff[urls[i]] = 1 + W(100); }
	std::map<int, int64_t> known_since;			// when the wallet got the key
	int64_t boot_at = 0; bool farmer_has_account = false;
	auto bad = [&](const std::string& c, const std::string& s) { sim::violation(c, s); };
	auto must_know = [&](int key, int64_t at) { auto it = wallet->told.find(key); return it != wallet->told.end() && at > it->second + 5000000; };
	auto may_know = [&](int key) { return known_since.count(key) != 0; };

	// pools
	struct Pending { vnx::addons::http_request_t r; int64_t at; std::string id; addr_t contract; uint64_t gen; };
	std::vector<Pending> web;
	double pool_fail = 0;
	vnx::addons::http_hook = [&](const vnx::addons::http_request_t& r) {
		Pending q; q.r = r; q.at = sim::now_us(); q.gen = gen;
		if(r.is_post) {
			auto pos = r.url.find("/id");
			auto it = parts.find(pos != std::string::npos ? r.url.substr(pos + 1, r.url.rfind("/partial") - pos - 1) : std::string());
			if(it == parts.end()) { bad("unknown request to a pool", r.url); return; }
			auto& p = it->second;
			if(r.url != p.v->pool_url + "/partial") bad("partial sent to another address", r.url + " instead of " + p.v->pool_url);
			if(++p.posted > 1) bad("partial sent twice", it->first);
			if(!may_know(p.key)) bad("partial signed with a key that is not ours", it->first);
			if(r.payload.find(p.v->contract.to_string()) == std::string::npos || r.payload.find(p.v->proof->plot_id.to_string()) == std::string::npos) bad("partial sent with other content", r.payload.substr(0, 300));
			q.id = it->first; q.contract = p.v->contract;
			sim::count("partials_posted"); sim::count("nontrivial");
		} else sim::count("difficulty_queries");
		sim::trace("request %s", r.url.c_str());
		web.push_back(q);
	};
	auto answer = [&](size_t i) {
		const auto q = web[i]; web.erase(web.begin() + i);
		const bool fail = sim::flip(sim::S_MISC, pool_fail);
		if(q.gen != gen) return;			// from before a restart
		if(q.r.is_post) {
			auto& p = parts.at(q.id); auto& st = stats[q.contract];
			if(fail) { st.failed += p.diff; st.errors[int(pooling_error_e::SERVER_ERROR)]++; farmer->vnx_post([q]() { q.r.failed(std::runtime_error("timeout")); }); sim::count("pool_timeout"); return; }
			auto res = vnx::addons::HttpResponse::create(); res->status = 200; res->has_json = true;
			vnx::Object o;
			switch(W(8)) {
				default: {
					const int64_t points = W(4) ? 1 + W(1000) : -int64_t(W(2)), ms = W(5000);
					o["valid"] = true; o["points"] = points; o["response_time"] = ms;
					st.valid += points > 0 ? points : p.diff; st.total++; st.response += ms; sim::count("pool_accepts"); break;
				}
				case 1: { const int code = 1 + W(15); o["valid"] = false; pooling_error_e e; e.value = decltype(e.value)(code); o["error_code"] = vnx::Variant(e); if(W(2)) o["error_message"] = std::string("no"); st.failed += p.diff; st.errors[code]++; sim::count("pool_rejects"); break; }
				case 2: o["valid"] = false; st.failed += p.diff; st.errors[int(pooling_error_e::SERVER_ERROR)]++; sim::count("pool_rejects_without_reason"); break;
				case 3: if(W(2)) { res->has_json = false; res->status = 500; } st.failed += p.diff; st.errors[int(pooling_error_e::SERVER_ERROR)]++; sim::count("pool_answers_nonsense"); if(res->has_json) { res->json = vnx::Variant(std::string("oops")); farmer->vnx_post([q, res]() { q.r.got(res); }); return; } break;
			}
			if(res->has_json) res->json = vnx::Variant(o);
			farmer->vnx_post([q, res]() { q.r.got(res); });
		} else {
			if(fail) { farmer->vnx_post([q]() { q.r.failed(std::runtime_error("timeout")); }); sim::count("pool_timeout"); return; }
			const auto url = q.r.url.substr(0, q.r.url.rfind("/difficulty"));
			vnx::Object o;
			switch(pool_fail > 0 ? W(6) : 2) {
				case 0: o["difficulty"] = uint64_t(0); break;
				case 1: o["other"] = true; break;
				default: o["difficulty"] = pool_diff[url]; for(auto& c : contracts) answered[c].insert(pool_diff[url]);
			}
			farmer->vnx_post([q, o]() { q.r.got_json(vnx::Variant(o)); });
			sim::count("difficulty_answers");
		}
	};
	// what the farmer publishes
	auto on_value = [&](std::shared_ptr<const vnx::Value> v) {
		if(auto r = std::dynamic_pointer_cast<const ProofResponse>(v)) {
			auto it = proofs.find(r->hash);
			if(it == proofs.end()) return bad("proof published that no harvester found", S(r->hash));
			auto& p = it->second;
			if(!p.valid) bad("invalid proof published", S(r->hash));
			if(!may_know(p.key)) bad("proof signed with a key that is not ours", S(r->hash));
			if(++p.got > 1) bad("proof published twice", S(r->hash));
			if(!r->is_valid() || !r->farmer_sig.verify(r->proof->farmer_key, r->hash)) bad("published proof is not valid", S(r->hash));
			if(r->vdf_height != p.v->vdf_height || r->proof->calc_hash() != p.v->proof->calc_hash() || r->farmer_addr != p.v->farmer_addr || r->harvester != p.v->harvester) bad("proof was altered", S(r->hash));
			sim::trace("proof %s", S(r->hash).c_str()); sim::count("proofs_published"); sim::count("nontrivial");
		} else if(auto q = std::dynamic_pointer_cast<const Partial>(v)) {
			auto pos = q->pool_url.find("/id");
			auto it = parts.find(pos != std::string::npos ? q->pool_url.substr(pos + 1) : std::string());
			if(it == parts.end()) return bad("unknown partial published", q->pool_url);
			auto& p = it->second;
			if(++p.published > 1) bad("partial published twice", it->first);
			if(q->hash != q->calc_hash() || !q->farmer_sig || !q->farmer_sig->verify(q->proof->farmer_key, q->hash)) bad("partial is not signed properly", it->first);
			const bool own = reward && q->account == *reward;
			if(!own && (q->account != p.v->account || farmer_has_account || (wallet->told_account && p.at > wallet->told_account + 5000000))) bad("partial pays out to somebody else", it->first + " pays to " + S(q->account));
			if(q->contract != p.v->contract || q->vdf_height != p.v->vdf_height || q->proof->calc_hash() != p.v->proof->calc_hash()) bad("partial was altered", it->first);
			sim::trace("partial %s", it->first.c_str());
		}
	};
	auto boot = [&]() {
		bool up = false;
		gen++; stats.clear(); reports.clear(); server.clear(); answered.clear(); boot_at = sim::now_us();
		for(auto& p : proofs) p.second.at = 0;
		for(auto& p : parts) p.second.at = 0;
		sim::spawn(m, "boot", [&]() {
			vnx::write_config("chain.params", par->to_object());
			wallet = new SlowWallet(); for(auto& k : known_since) wallet->keys.insert(k.first); wallet->account = reward;
			(new vnx::Handle<SlowWallet>(wallet))->start();
			tap = new world::Tap("Tap", {"farmer.proof", "farmer.partials"}, on_value);
			(new vnx::Handle<world::Tap>(tap))->start();
			farmer = new Farmer("Farmer");
			farmer->harvester_timeout = 60; farmer->difficulty_interval = 100;
			farmer_has_account = W(2);
			if(farmer_has_account) farmer->reward_addr = reward;
			(new vnx::Handle<Farmer>(farmer))->start();
			up = true;
		});
		sim::wait_until([&]() { return up; }, 3600000000, 1000);
	};
	reward = world::users[2].addr;
	for(int i = 0; i < num_keys; ++i) if(i == 0 || W(2)) known_since[i] = 0;
	boot();
	wallet->fail = W(3) == 0;
	auto post = [&](std::shared_ptr<const vnx::Value> v, const std::string& topic) { bool done = false; tap->vnx_post([&]() { tap->publish(v, topic); done = true; }); sim::wait_until([&]() { return done; }, 60000000, 100); };
	auto make_proof = [&](int key) {
		auto p = ProofOfSpaceNFT::create();
		p->ksize = 32; p->seed = hash_t(salt + "seed" + std::to_string(serial)); p->plot_id = hash_t(salt + "plot" + std::to_string(++serial)); p->challenge = hash_t(salt + std::to_string(serial));
		p->difficulty = 1 + W(50); p->farmer_key = world::farmers[key].pk; p->contract = contracts[W(3)];
		for(int i = 0; i < 4; ++i) p->proof_xs.push_back(W(1000000));
		p->score = get_proof_score(p->calc_proof_hash());
		return p;
	};
	auto check_info = [&](std::shared_ptr<const FarmInfo> info, int64_t t0) {
		uint64_t lo = 0, hi = 0, lo_eff = 0, hi_eff = 0; std::map<int, std::pair<uint64_t, uint64_t>> plots; std::map<addr_t, std::pair<uint64_t, uint64_t>> pool; std::map<std::string, std::pair<uint64_t, uint64_t>> names;
		for(auto& e : reports) {
			const auto age = t0 - e.second.at;
			const bool must = age < 58000000, may = age < 125000000;
			auto& v = *e.second.v;
			if(may) { hi += v.total_bytes; hi_eff += v.total_bytes_effective; names[*v.harvester].second += v.total_bytes; for(auto& x : v.plot_count) plots[x.first].second += x.second; for(auto& x : v.pool_info) pool[x.first].second += x.second.plot_count; }
			if(must) { lo += v.total_bytes; lo_eff += v.total_bytes_effective; names[*v.harvester].first += v.total_bytes; for(auto& x : v.plot_count) plots[x.first].first += x.second; for(auto& x : v.pool_info) pool[x.first].first += x.second.plot_count; }
		}
		auto in = [&](const char* what, uint64_t v, uint64_t a, uint64_t b) { if(v < a || v > b) bad("wrong farm info", std::string(what) + " is " + std::to_string(v) + " instead of " + std::to_string(a) + (a != b ? " to " + std::to_string(b) : std::string())); };
		in("total_bytes", info->total_bytes, lo, hi); in("total_bytes_effective", info->total_bytes_effective, lo_eff, hi_eff);
		for(auto& e : plots) { auto it = info->plot_count.find(e.first); in("plot_count", it != info->plot_count.end() ? it->second : 0, e.second.first, e.second.second); }
		for(auto& e : pool) { auto it = info->pool_info.find(e.first); in("plot_count of a pool", it != info->pool_info.end() ? it->second.plot_count : 0, e.second.first, e.second.second); }
		for(auto& e : names) { auto it = info->harvester_bytes.find(e.first); in("bytes of a harvester", it != info->harvester_bytes.end() ? it->second.first : 0, e.second.first, e.second.second); }
		sim::count("infos_checked"); sim::state(lo ^ (hi << 20));
	};
	auto on_farmer = [&](std::function<void()> fn) { bool done = false; farmer->vnx_post([&]() { fn(); done = true; }); if(!sim::wait_until([&]() { return done; }, 60000000, 1000)) bad("farmer stuck", sim::fiber_report(m)); };
	auto calm = [&]() { const auto s = pol.stall; pol.stall = 0; sim::sleep_us(1000000); pol.stall = s; };
	// what has been posted long ago must have been handled by now
	auto check_done = [&](int64_t age) {
		calm();
		const auto now = sim::now_us();
		for(auto& e : proofs) { auto& p = e.second; if(p.at && p.valid && must_know(p.key, p.at) && p.at + age < now && !p.got) bad("proof lost", S(e.first)); }
		for(auto& e : parts) { auto& p = e.second; if(p.at && must_know(p.key, p.at) && p.at + age < now && (!p.posted || !p.published)) bad("partial lost", e.first + " sent " + std::to_string(p.posted) + " published " + std::to_string(p.published)); }
		std::map<addr_t, pooling_stats_t> got;
		on_farmer([&]() { got.insert(farmer->nft_stats.begin(), farmer->nft_stats.end()); });
		for(auto& c : contracts) {
			auto& w = stats[c]; auto& g = got[c];
			auto err = g.error_count; for(auto it = err.begin(); it != err.end();) if(!it->second) it = err.erase(it); else ++it;
			std::map<int, uint32_t> e; for(auto& x : err) e[int(x.first)] = x.second;
			if(g.valid_points != w.valid || g.failed_points != w.failed || g.total_partials != w.total || g.total_response_time != w.response || e != w.errors)
				bad("wrong pool statistics", S(c) + " has " + std::to_string(g.valid_points) + " valid and " + std::to_string(g.failed_points) + " failed points, " + std::to_string(g.total_partials) + " partials, instead of " + std::to_string(w.valid) + ", " + std::to_string(w.failed) + " and " + std::to_string(w.total));
			if(g.partial_diff && !answered[c].count(g.partial_diff)) bad("difficulty that no pool has told", std::to_string(g.partial_diff));
		}
		sim::count("stats_checked");
	};
	const uint32_t kill = pick({0, 0, 2});
	pool_fail = pick({0.0, 0.2, 0.6});
	bool done = false;
	auto client = [&]() {			// another module asks for signatures meanwhile
		FarmerClient c("Farmer");
		const auto g = gen;
		while(!done && g == gen) {
			sim::sleep_us(1000 * (1 + W(4000)));
			if(done || g != gen) break;
			const int key = W(num_keys + 1);
			try {
				switch(W(3)) {
					case 0: {
						auto h = BlockHeader::create(); h->height = W(1000); h->vdf_height = h->height; h->proof.push_back(make_proof(key)); h->reward_amount = W(1000);
						if(W(2)) h->reward_addr = world::users[3].addr; if(W(3) == 0) h->reward_contract = contracts[W(3)];
						auto b = c.sign_block(h);
						if(!may_know(key)) bad("block signed with a key that is not ours", std::to_string(key));
						if(!b || b->hash != b->calc_hash(par) || !b->farmer_sig || !b->farmer_sig->verify(world::farmers[key].pk, b->hash) || b->content_hash != b->calc_content_hash()) { bad("block not signed properly", std::to_string(h->height)); break; }
						if(b->height != h->height || b->reward_amount != h->reward_amount || b->proof.size() != 1 || b->proof[0]->calc_hash() != h->proof[0]->calc_hash() || b->prev != h->prev) bad("block was altered", std::to_string(h->height));
						if(h->reward_addr ? !b->reward_addr || *b->reward_addr != *h->reward_addr : b->reward_addr && *b->reward_addr != *reward) bad("block reward goes to somebody else", b->reward_addr ? S(*b->reward_addr) : "nobody");
						if(bool(b->reward_account) && *b->reward_account != *reward) bad("block reward goes to somebody else", S(*b->reward_account));
						sim::count("blocks_signed"); break;
					}
					case 1: {
						auto v = ValidatorVote::create(); v->hash = hash_t("vote" + std::to_string(++serial)); v->farmer_key = world::farmers[key].pk;
						const auto sig = c.sign_vote(v);
						if(!may_know(key)) bad("vote signed with a key that is not ours", std::to_string(key));
						v->farmer_sig = sig; v->content_hash = v->calc_content_hash();
						if(!v->is_valid()) bad("vote not signed properly", S(v->hash));
						sim::count("votes_signed"); break;
					}
					case 2: {
						const auto l = c.get_farmer_keys();
						for(auto& k : l) { bool ok = false; for(auto& e : known_since) ok |= world::farmers[e.first].pk == k; if(!ok) bad("unknown key", k.to_string()); }
						for(auto& e : known_since) if(must_know(e.first, sim::now_us()) && !std::count(l.begin(), l.end(), world::farmers[e.first].pk)) bad("key not known yet", std::to_string(e.first));
						break;
					}
				}
			} catch(const std::exception& ex) { if(g == gen && must_know(key, sim::now_us())) bad("refuses to sign", ex.what()); sim::count("refused"); }
		}
	};
	sim::spawn(m, "client", client);
	for(int t = 0; t < 300; ++t) {
		sim::sleep_us(1000 * (W(3) ? W(1500) : W(3)));
		const int key = W(num_keys + 1);
		switch(W(10)) {
			case 0: case 1: case 2: {
				auto r = ProofResponse::create(); r->vdf_height = 1 + W(1000); r->proof = make_proof(key); r->harvester = "h" + std::to_string(W(3)); r->lookup_time_ms = W(1000); r->farmer_addr = vnx::Hash64(1 + W(1000));
				r->hash = r->calc_hash(); r->content_hash = r->calc_content_hash();
				Proof p; p.v = r; p.key = key; p.valid = true; p.at = sim::now_us();
				if(W(8) == 0) { auto c = vnx::clone(r); p.valid = false; if(W(2)) c->vdf_height++; else c->content_hash = hash_t("x"); p.v = c; sim::count("invalid_proofs"); }
				proofs[r->hash] = p;
				post(p.v, "harvester.proof");
				break;
			}
			case 3: case 4: case 5: {
				const auto id = "id" + std::to_string(++serial);
				auto q = Partial::create(); auto pr = make_proof(key);
				q->vdf_height = 1 + W(1000); q->contract = pr->contract; q->account = world::users[5].addr; q->proof = pr; q->harvester = "h" + std::to_string(W(3)); q->lookup_time_ms = W(1000);
				q->pool_url = urls[W(3)] + "/" + id;
				Part p; p.v = q; p.key = key; p.at = sim::now_us(); p.diff = pr->difficulty;
				parts[id] = p;
				post(q, "harvester.partials");
				break;
			}
			case 6: case 7: {
				auto f = FarmInfo::create(); const int h = W(4);
				f->harvester = "h" + std::to_string(h / 2);				// two machines with the same name
				if(h) f->harvester_id = hash_t("harvester " + std::to_string(h));
				f->total_bytes = 1 + W(100000); f->total_bytes_effective = 1 + W(100000);
				for(int k = 0; k < 3; ++k) if(W(2)) f->plot_count[30 + k] = 1 + W(50);
				for(auto& c : contracts) if(W(2)) { auto& i = f->pool_info[c]; i.contract = c; i.plot_count = 1 + W(20); i.is_plot_nft = true; if(W(3)) { i.server_url = server.count(c) && W(8) ? server[c] : urls[W(3)]; server[c] = *i.server_url; } }
				Report r; r.v = f; r.at = sim::now_us(); reports[std::to_string(h)] = r;
				post(f, "harvester.info");
				break;
			}
			case 8: {
				calm();
				std::shared_ptr<const FarmInfo> info; const auto t0 = sim::now_us();
				on_farmer([&]() { info = farmer->get_farm_info(); });
				if(info) check_info(info, t0);
				break;
			}
			case 9: {
				if(W(3) == 0) { const auto k = W(num_keys); if(!known_since.count(k)) { known_since[k] = sim::now_us(); bool ok = false; wallet->vnx_post([&]() { wallet->keys.insert(k); ok = true; }); sim::wait_until([&]() { return ok; }, 60000000, 1000); sim::count("new_keys"); } }
				if(W(6) == 0) wallet->fail = true;
				else if(wallet->fail) wallet->fail = false;
				if(W(4) == 0) pool_diff[urls[W(3)]] = 1 + W(100);
				if(W(4) == 0) sim::sleep_us(1000000 * W(90));
				if(W(6) == 0) check_done(0);
				break;
			}
		}
		for(size_t i = 0; i < web.size();) if(W(6) == 0 || sim::now_us() > web[i].at + 60000000) answer(i); else ++i;
		if(W(1000) < kill) {
			sim::trace("kill"); sim::count("kills");
			sim::crash(m); sim::sleep_us(1000000); sim::restart(m); vnx::init_process(m);
			web.clear(); boot();
			sim::spawn(m, "client", client);
		}
	}
	// faults stop
	pol.stall = 0; pool_fail = 0; wallet->fail = false;
	for(int t = 0; t < 300; ++t) { sim::sleep_us(1000000); for(size_t i = 0; i < web.size();) answer(i); }
	for(auto& e : known_since) if(!must_know(e.first, sim::now_us())) bad("key not known yet", "the wallet was not asked for its keys");
	{	auto ok = std::make_shared<int>(0);
		sim::spawn(m, "client", [&, ok]() {
			auto v = ValidatorVote::create(); v->hash = hash_t("last vote"); v->farmer_key = world::farmers[known_since.begin()->first].pk;
			try { FarmerClient("Farmer").sign_vote(v); *ok = 1; } catch(const std::exception& ex) { *ok = 2; }
		});
		for(int t = 0; t < 60 && !*ok; ++t) sim::sleep_us(1000000);
		if(*ok != 1) bad(*ok ? "refuses to sign" : "signing request is not answered", "although the keys are known and the wallet works");
	}
	check_done(0);
	on_farmer([&]() { for(auto& e : server) { const auto d = farmer->get_partial_diff(e.first); if(d != pool_diff[e.second]) bad("wrong partial difficulty", S(e.first) + " has " + std::to_string(d) + ", its pool " + e.second + " wants " + std::to_string(pool_diff[e.second])); } });
	std::shared_ptr<const FarmInfo> info;
	on_farmer([&]() { info = farmer->get_farm_info(); });
	if(info && (info->total_bytes || info->plot_count.size() || info->harvester_bytes.size())) bad("wrong farm info", "harvesters that are gone are still counted");
	done = true;
	sim::count("finished");
	sim::sleep_us(10000000);
	sim::finish();
	vnx::addons::http_hook = nullptr;
}
}
#endif
