// A simulated MMX network: real Node, Router, Farmer (unmodified sources) per machine; wallet, harvester and timelord are stubs
// that speak the real protocol (real proofs of space for small plots, real VDF computation with few iterations).
#ifndef HARNESS_WORLD_H
#define HARNESS_WORLD_H
#include "plots.h"
#include <simvnx/sim.h>
#include <vnx/vnx.h>
#include <mmx/Node.h>
#include <mmx/Farmer.h>
#include <mmx/Block.hxx>
#include <mmx/Challenge.hxx>
#include <mmx/IntervalRequest.hxx>
#include <mmx/ProofOfTime.hxx>
#include <mmx/ProofResponse.hxx>
#include <mmx/ValidatorVote.hxx>
#include <mmx/Wallet_get_all_farmer_keys_return.hxx>
#include <mmx/Wallet_get_all_accounts_return.hxx>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace vnx { extern std::function<void(const Module*)> sim_on_subscribe; }
namespace world {
using namespace mmx;

// ------------------------------------------------------------------ keys
struct User { skey_t sk; pubkey_t pk; addr_t addr; };
inline std::vector<User> users;				// funded in genesis, the last one is poor
inline std::vector<User> farmers, timelords;
inline std::map<addr_t, const User*> by_addr;
inline User make_user(const std::string& seed) { User u; u.sk = skey_t(hash_t(seed)); u.pk = pubkey_t(u.sk); u.addr = u.pk.get_addr(); return u; }
static const int NUM_USERS = 7, NUM_FARMERS = 8;
static const uint64_t FUND = 1000000000ull, POOR = 60000;

// ------------------------------------------------------------------ process wide preparation (before any run)
inline std::map<std::string, std::string> data_files;		// files a fresh machine finds on its disk
inline std::map<std::string, addr_t> binaries;
inline std::string simdata;
inline std::string slurp(const std::string& p) { std::ifstream s(p, std::ios::binary); std::stringstream b; b << s.rdbuf(); return b.str(); }
inline std::string trim(std::string s) {
	while(s.size() && (isspace(s.back()) || s.back() == '"')) s.pop_back();
	size_t i = 0; while(i < s.size() && (isspace(s[i]) || s[i] == '"')) i++;
	return s.substr(i);
}
inline std::string repo_dir() { const char* r = getenv("SIM_REPO"); return r ? r : "/repo"; }

inline void prepare() {
	mmx::secp256k1_init();
	for(int i = 0; i <= NUM_USERS; ++i) users.push_back(make_user("sim user " + std::to_string(i)));		// the last one only sends simple, funded transfers
	for(int i = 0; i < NUM_FARMERS; ++i) {
		User u; u.sk = plots::farmer_skey(i); u.pk = pubkey_t(u.sk); u.addr = u.pk.get_addr(); farmers.push_back(u);
		timelords.push_back(make_user("sim timelord " + std::to_string(i)));
	}
	for(auto* v : {&users, &farmers, &timelords}) for(auto& u : *v) by_addr[u.addr] = &u;
	plots::generate(10, {{0,5},{1,1},{2,7},{3,6},{5,4},{6,6},{7,0}});

	const auto cfg = repo_dir() + "/config/mainnet/chain/params/";
	for(auto n : {"nft", "offer", "swap", "token", "plot_nft", "escrow", "time_lock", "relay", "template"}) {
		const auto text = trim(slurp(cfg + n + "_binary"));
		if(text.size()) binaries[n] = addr_t(text);
	}
	const auto data = repo_dir() + "/data/mainnet/";
	for(auto n : {"offer", "swap", "token", "plot_nft", "nft", "template", "escrow", "time_lock", "relay"}) {
		const std::string f = std::string("tx_") + n + "_binary.dat";
		data_files["data/mainnet/" + f] = slurp(data + f);
	}
	data_files["data/mainnet/tx_project_relay.dat"] = slurp(data + "tx_project_relay.dat");

	// genesis rewards: the node reads them with a plain ifstream relative to the working directory
	char exe[4096];
	const ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	std::string dir(exe, n > 0 ? n : 0);
	dir = dir.substr(0, dir.rfind('/')) + "/simdata";
	mkdir(dir.c_str(), 0755); mkdir((dir + "/data").c_str(), 0755); mkdir((dir + "/data/mainnet").c_str(), 0755);
	std::ostringstream js;
	js << "{\"__type\":\"mmx.Transaction\",\"id\":\"%ID%\",\"version\":0,\"expires\":4294967295,\"fee_ratio\":1024,\"static_cost\":0,"
		"\"max_fee_amount\":0,\"note\":0,\"nonce\":11337,\"network\":\"mainnet\",\"sender\":null,\"inputs\":[],\"outputs\":[";
	auto tx = Transaction::create();
	tx->version = 0; tx->expires = -1; tx->fee_ratio = 1024; tx->nonce = 11337; tx->network = "mainnet"; tx->note = tx_note_e();
	for(int i = 0; i <= NUM_USERS; ++i) {
		const uint64_t amount = i + 1 == NUM_USERS ? POOR : FUND;
		if(i) js << ",";
		js << "{\"__type\":\"mmx.txout_t\",\"address\":\"" << users[i].addr.to_string() << "\",\"contract\":\"" << addr_t().to_string()
			<< "\",\"amount\":\"" << amount << "\",\"memo\":null}";
		txout_t out; out.address = users[i].addr; out.amount = amount;
		tx->outputs.push_back(out);
	}
	js << "],\"execute\":[],\"solutions\":[],\"deploy\":null,\"exec_result\":null,\"content_hash\":\"%HASH%\"}\n";
	tx->id = tx->calc_hash(); tx->content_hash = tx->calc_hash(true);
	std::string s = js.str();
	s.replace(s.find("%ID%"), 4, tx->id.to_string());
	s.replace(s.find("%HASH%"), 6, tx->content_hash.to_string());
	const auto path = dir + "/data/mainnet/tx_testnet_rewards.json";
	if(slurp(path) != s) {
		const auto tmp = path + "." + std::to_string(getpid());
		{ std::ofstream o(tmp, std::ios::binary); o << s; }
		rename(tmp.c_str(), path.c_str());
	}
	simdata = dir;
}
// every run starts in a private scratch directory
inline void enter() { if(symlink((simdata + "/data").c_str(), "data") && errno != EEXIST) sim::harness_error("symlink data"); }

// ------------------------------------------------------------------ chain parameters of one run
inline std::shared_ptr<ChainParams> params;
inline uint32_t W(uint32_t n) { return sim::draw(sim::S_WORK, n); }
template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + W(l.size())); }

inline std::shared_ptr<ChainParams> draw_params() {
	auto p = ChainParams::create();
	p->port = 11337;
	p->network = "mainnet";
	p->min_ksize = 8; p->max_ksize = 32;
	p->plot_filter = 1; p->post_filter = 1;
	p->infuse_delay = pick({2, 1, 3});
	p->challenge_delay = p->infuse_delay + 1 + W(3);
	p->commit_delay = pick({6, 4, 8, 10});
	p->challenge_interval = p->challenge_delay + p->commit_delay + 2 + W(8);
	p->max_diff_adjust = pick({10, 4});
	p->max_vdf_count = pick({100, 20, 40});
	p->max_space_fork_len = 8;
	p->avg_proof_count = pick({1, 2});
	p->max_proof_count = 50;
	p->max_validators = pick({5, 3, 11});
	p->min_reward = 500000;
	p->vdf_reward = 200000;
	p->vdf_reward_interval = pick({4, 2, 7});
	p->vdf_segment_size = pick({2, 1, 4});
	p->reward_adjust_interval = pick({6, 4, 24});
	p->reward_adjust_div = 100;
	p->reward_adjust_tick = 10000;
	p->time_diff_divider = 1000;
	p->time_diff_constant = 2 * p->vdf_segment_size;
	p->space_diff_constant = 1;
	p->initial_time_diff = 16 + W(32);
	p->initial_space_diff = 10;
	p->initial_time_stamp = 0;		// set at start
	p->min_txfee = 20000; p->min_txfee_io = 10000; p->min_txfee_sign = 10000; p->min_txfee_memo = 5000; p->min_txfee_exec = 10000;
	p->min_txfee_deploy = 20000; p->min_txfee_depend = 10000; p->min_txfee_byte = 100; p->min_txfee_read = 2000; p->min_txfee_read_kbyte = 2000;
	if(W(4) == 1) {
		p->max_tx_cost = pick({1500000, 1000000}); p->max_block_size = 5 * p->max_tx_cost; p->max_block_cost = 12000000;
	} else {
		p->max_tx_cost = 25000000; p->max_block_size = 250000000; p->max_block_cost = 1000000000;
	}
	p->max_rcall_depth = 3; p->max_rcall_width = 5;
	p->min_fee_ratio = {1, 2, 3, 5, 10};
	p->block_interval_ms = pick({8000, 4000, 10000});
	p->fixed_project_reward = 50000;
	p->project_ratio.value = 1; p->project_ratio.inverse = 100;
	p->reward_activation = pick({0, 5});
	p->transaction_activation = pick({0, 3});
	p->hardfork1_height = pick({0, 20, 1000000});
	p->hardfork2_height = pick({0, 10, 1000000});
	p->nft_binary = binaries["nft"]; p->swap_binary = binaries["swap"]; p->offer_binary = binaries["offer"]; p->token_binary = binaries["token"];
	p->plot_nft_binary = binaries["plot_nft"]; p->escrow_binary = binaries["escrow"]; p->time_lock_binary = binaries["time_lock"]; p->relay_binary = binaries["relay"];
	return p;
}

// ------------------------------------------------------------------ stubs
struct StubWallet : vnx::Module {
	std::vector<int> ids;
	StubWallet(const std::vector<int>& k) : vnx::Module("Wallet"), ids(k) {}
	void init() override { vnx::open_pipe(vnx_name, this, 1000); }
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t&) override {
		const auto name = method->get_type_name();
		if(name == "mmx.Wallet.get_all_farmer_keys") {
			auto r = Wallet_get_all_farmer_keys_return::create();
			for(int i : ids) r->_ret_0.emplace_back(farmers[i].sk, farmers[i].pk);
			return r;
		}
		if(name == "mmx.Wallet.get_all_accounts") return Wallet_get_all_accounts_return::create();
		throw std::logic_error("stub wallet: " + name);
	}
};

struct StubHarvester : vnx::Module {
	std::vector<int> farmer_ids;
	vnx::Hash64 farmer_mac;
	double miss = 0;
	std::set<hash_t> seen;
	std::shared_ptr<const ChainParams> par;
	uint64_t delay_ms = 0;
	size_t max_proofs = 3;
	StubHarvester(const std::vector<int>& f, vnx::Hash64 mac) : vnx::Module("Harvester"), farmer_ids(f), farmer_mac(mac) { par = params; }
	void init() override { subscribe(std::string("harvester.challenges"), 10000); }
	void handle(std::shared_ptr<const vnx::Value> value) override {
		auto c = std::dynamic_pointer_cast<const Challenge>(value);
		if(!c || !seen.insert(c->challenge).second) return;
		if(seen.size() > 1000) seen.clear();
		if(miss > 0 && sim::flip(sim::S_MISC, miss)) return;
		std::map<hash_t, std::shared_ptr<ProofOfSpaceOG>> found;		// like the real one: only the best few
		for(const auto& p : plots::all) {
			bool mine = false;
			for(int i : farmer_ids) mine |= p.key == farmers[i].pk;
			if(!mine) continue;
			for(auto proof : plots::lookup(p, par, c->challenge, c->difficulty, c->vdf_height >= par->hardfork1_height)) found[proof->calc_proof_hash()] = proof;
		}
		{
			size_t n = 0;
			for(const auto& e : found) {
				if(n++ >= max_proofs) break;
				const auto& proof = e.second;
				auto out = ProofResponse::create();
				out->vdf_height = c->vdf_height;
				out->proof = proof;
				out->farmer_addr = farmer_mac;
				out->harvester = "sim";
				out->hash = out->calc_hash();
				out->content_hash = out->calc_content_hash();
				if(delay_ms) set_timeout_millis(1 + sim::draw(sim::S_MISC, delay_ms), [this, out]() { publish(out, std::string("harvester.proof")); });
				else publish(out, std::string("harvester.proof"));
			}
		}
	}
};

struct StubTimelord : vnx::Module {
	int id;
	double us_per_iter = 1000;
	std::shared_ptr<const ChainParams> par;
	std::map<uint64_t, std::shared_ptr<const IntervalRequest>> reqs;		// [start => latest]
	std::shared_ptr<const IntervalRequest> base;
	struct done_t { hash_t output; std::shared_ptr<const ProofOfTime> proof; int64_t time = 0; };
	std::map<std::tuple<hash_t, uint64_t, uint64_t, hash_t>, done_t> done;
	bool busy = false, paused = false;
	hash_t out_hash;
	StubTimelord(int id) : vnx::Module("TimeLord"), id(id) { par = params; }
	void init() override { subscribe(std::string("timelord.requests"), 10000); set_timer_millis(2000, [this]() { next(); }); }
	void handle(std::shared_ptr<const vnx::Value> value) override {
		auto r = std::dynamic_pointer_cast<const IntervalRequest>(value);
		if(!r) return;
		reqs[r->start] = r;
		while(reqs.size() > 200) reqs.erase(reqs.begin());
		if(r->input) {
			base = r;
			auto it = done.find(std::make_tuple(*r->input, r->start, r->end, r->infuse));
			if(it != done.end() && sim::now_us() - it->second.time > 3000000) { it->second.time = sim::now_us(); publish(it->second.proof, std::string("timelord.proof")); }
		}
		next();
	}
	void next() {
		if(busy || paused || !base) return;
		hash_t in = *base->input;
		uint64_t pos = base->start;
		std::shared_ptr<const IntervalRequest> req;
		while(true) {
			auto it = reqs.find(pos);
			if(it == reqs.end()) return;
			auto d = done.find(std::make_tuple(in, it->second->start, it->second->end, it->second->infuse));
			if(d == done.end()) { req = it->second; break; }
			in = d->second.output; pos = it->second->end;
		}
		busy = true;
		const auto n = req->end - req->start;
		const int64_t us = int64_t(n * us_per_iter) * (80 + int64_t(sim::draw(sim::S_MISC, 41))) / 100;
		set_timeout_millis(std::max<int64_t>(us / 1000, 1), [this, req, in]() {
			busy = false;
			finish(req, in);
			next();
		});
	}
	void finish(std::shared_ptr<const IntervalRequest> req, const hash_t& in) {
		auto p = ProofOfTime::create();
		p->vdf_height = req->vdf_height;
		p->start = req->start;
		p->num_iters = req->end - req->start;
		p->segment_size = par->vdf_segment_size;
		p->input = in;
		p->prev = req->infuse;
		p->reward_addr = timelords[id].addr;
		p->timelord_key = timelords[id].pk;
		hash_t x(in + req->infuse);
		x = hash_t(x + p->reward_addr);
		for(uint64_t i = 0; i < p->num_iters / p->segment_size; ++i) {
			for(uint32_t k = 0; k < p->segment_size; ++k) x = hash_t(x.bytes.data(), x.bytes.size());
			p->segments.push_back(x);
		}
		p->hash = p->calc_hash();
		p->timelord_sig = signature_t::sign(timelords[id].sk, p->hash);
		p->content_hash = p->calc_content_hash();
		if(done.size() > 2000) done.clear();
		auto& d = done[std::make_tuple(in, req->start, req->end, req->infuse)];
		d.output = x; d.proof = p; d.time = sim::now_us();
		publish(p, std::string("timelord.proof"));
	}
};

// ------------------------------------------------------------------ one machine
struct NodeBox {
	sim::Machine* m = nullptr;
	int index = 0;
	std::string ip;
	Node* node = nullptr;
	Farmer* farmer = nullptr;
	StubTimelord* timelord = nullptr;
	StubHarvester* harvester = nullptr;
	// configuration
	bool has_farmer = true, has_timelord = true, do_sync = false;
	std::vector<int> farmer_ids;
	int num_threads = 2;
	double us_per_iter = 1000;
	double miss = 0;
	uint64_t harvest_delay_ms = 0;
	std::vector<std::string> peers;
	int min_sync_peers = 1;
	int sync_loss_delay = 60;
	uint64_t boots = 0;
	bool up = false, stuck = false, fresh_boot = true;
	hash_t boot_state, boot_prev; uint32_t boot_height = 0;		// what the node loaded from disk
	std::function<void(NodeBox&)> on_boot;		// before the node starts (install taps)

	void boot() {
		up = false; fresh_boot = true; boot_state = boot_prev = hash_t();
		boots++;
		if(!m->process) vnx::init_process(m);
		sim::spawn(m, "boot", [this]() {
			for(const auto& f : data_files) if(!m->disk->files.count(f.first)) {
				auto n = std::make_shared<sim::Inode>(); n->data = f.second; m->disk->files[f.first] = n;
			}
			m->disk->dirs.insert("data"); m->disk->dirs.insert("data/mainnet");
			vnx::write_config("chain.params", params->to_object());
			vnx::write_config("build.version", std::string("sim"));
			vnx::write_config("Router.fixed_peers", peers);
			vnx::write_config("Router.seed_peers", std::vector<std::string>());
			vnx::write_config("Router.min_sync_peers", min_sync_peers);
			vnx::write_config("Router.open_port", false);
			start<StubWallet>(new StubWallet(farmer_ids));
			if(has_farmer) {
				farmer = new Farmer("Farmer");
				farmer->reward_addr = farmers[farmer_ids.at(0)].addr;
				start(farmer);
				harvester = new StubHarvester(farmer_ids, farmer->vnx_get_id());
				harvester->miss = miss; harvester->delay_ms = harvest_delay_ms;
				start(harvester);
			} else { farmer = nullptr; harvester = nullptr; }
			if(has_timelord) {
				timelord = new StubTimelord(index);
				timelord->us_per_iter = us_per_iter;
				start(timelord);
			} else timelord = nullptr;
			node = new Node("Node");
			node->storage_path = "testnet/";
			node->database_path = "testnet/db/";
			node->num_threads = num_threads; node->num_db_threads = 2; node->num_api_threads = 2;
			node->do_sync = do_sync;
			node->sync_loss_delay = sync_loss_delay;
			if(on_boot) on_boot(*this);
			{	// what was loaded from disk, before the node does anything with it
				auto* nd = node;
				auto next = vnx::sim_on_subscribe;
				vnx::sim_on_subscribe = [this, nd, next](const vnx::Module* mod) {
					if(mod == nd) { if(boot_state == hash_t() && nd->root) boot_state = nd->state_hash; }
					else if(next) next(mod);
				};
			}
			start(node);
			up = true;
			auto* nd = node;
			sim::wait_until([&]() { return bool(nd->root) || nd->vnx_finished; }, 600000000, 500);
		});
	}
	template<typename T> void start(T* mod) {
		auto* h = new vnx::Handle<T>(mod);
		h->start();
	}
	// run fn on the node's own fiber; false if it did not happen in time
	bool call(const std::function<void()>& fn, int64_t timeout_us = 120000000) {
		if(!up || !m->alive || !node || node->vnx_finished) return false;
		auto done = std::make_shared<bool>(false);
		const auto inc = m->inc;
		node->vnx_post([done, fn]() { fn(); *done = true; });
		auto cond = [&]() { return *done || !m->alive || m->inc != inc; };
		sim::wait_until(cond, timeout_us, 5000);
		if(!cond()) {		// slow or stuck? stop the faults and see
			sim::policy.stall = sim::policy.stall_task = 0;
			sim::wait_until(cond, 10 * timeout_us, 100000);
			if(!cond()) stuck = true;
		}
		return *done;
	}
	bool ready() const { return up && m->alive && node && node->root; }
};
}
#endif
