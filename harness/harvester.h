// The real Harvester and Prover on real plot files (k=10, complete tables of a few final entries) under a stream of challenges,
// slow worker threads, plots that fail to read, appear and disappear.
#ifndef HARNESS_HARVESTER_H
#define HARNESS_HARVESTER_H
#include "byz.h"
#include <mmx/Harvester.h>
#include <mmx/pos/Prover.h>
#include <mmx/pos/encoding.h>
#include <mmx/pos/util.h>
#include <mmx/LookupInfo.hxx>
#include <mmx/Partial.hxx>
#include <mmx/PlotHeader.hxx>
#include <mmx/Farmer_get_mac_addr_return.hxx>
#include <mmx/Farmer_get_farmer_keys_return.hxx>
#include <mmx/Farmer_get_partial_diffs_return.hxx>
#include <mmx/Node_get_plot_nft_info.hxx>
#include <mmx/Node_get_plot_nft_info_return.hxx>

namespace hv {
using namespace mmx;
using world::W; using world::pick; using world::S;

// ------------------------------------------------------------------ plot files
struct Final { uint32_t y; std::vector<uint32_t> xs; bytes_t<pos::META_BYTES_OUT> meta; };
struct PlotFile { plots::Plot plot; std::vector<Final> finals; std::string name; };
static std::vector<PlotFile> all;
static addr_t nft_addr, nft_addr2;

static void prepare() {
	nft_addr = addr_t(hash_t("sim plot nft")); nft_addr2 = addr_t(hash_t("sim plot nft 2"));
	plots::generate(10, {{1, 104}, {1, 106}}, &nft_addr);
	plots::generate(10, {{1, 107}}, &nft_addr2);
	for(const auto& p : plots::all) {
		// a window of final entries that are close to each other
		std::vector<std::pair<uint32_t, const std::vector<uint32_t>*>> cand;
		for(const auto& e : p.proofs) for(const auto& xs : e.second) cand.emplace_back(e.first, &xs);
		size_t best = 0, num = 0;
		for(size_t i = 0; i < cand.size(); ++i) {
			size_t n = 1;
			while(i + n < cand.size() && n < 9 && cand[i + n].first - cand[i + n - 1].first < 20) n++;
			if(n > num) { num = n; best = i; }
		}
		std::vector<Final> list;
		for(size_t i = best; i < best + num && list.size() < 7; ++i) {
			std::vector<uint32_t> out;
			plots::memo_fill = true;
			try {
				const auto res = pos::compute(*cand[i].second, &out, p.id, p.ksize, 0);
				if(res.size() == 1 && res[0].first == cand[i].first && out == *cand[i].second && (list.empty() || cand[i].first - list.back().y < 48))
					list.push_back(Final{cand[i].first, out, res[0].second});
			} catch(const std::exception&) {}
			plots::memo_fill = false;
		}
		best = 0; num = list.size();
		if(!num) continue;
		PlotFile f; f.plot = p; f.plot.proofs.clear();
		f.finals.assign(list.begin() + best, list.begin() + best + num);
		for(auto& e : f.finals) f.plot.proofs[e.y].push_back(e.xs);
		f.name = "plot-mmx-k10-" + std::to_string(all.size()) + ".plot";
		all.push_back(f);
	}
}
static std::string body(const PlotFile& f, uint64_t header_size, std::shared_ptr<PlotHeader> h) {
	const int k = f.plot.ksize;
	std::vector<uint64_t> w;
	auto bytes = [&]() { return w.size() * 8 + header_size; };
	h->park_size_pd = 32; h->park_size_x = 16; h->park_size_meta = 4;
	const size_t n = f.finals.size();
	// Y parks
	h->table_offset_y = bytes();
	h->num_entries_y = n;
	std::string y;
	for(size_t i = 0; i < n; i += h->park_size_y) {
		std::string park(h->park_bytes_y, 0);
		memcpy(&park[0], &f.finals[i].y, 4);
		std::vector<uint8_t> sym;
		for(size_t j = i + 1; j < i + h->park_size_y; ++j) sym.push_back(j < n ? f.finals[j].y - f.finals[j - 1].y : 0);
		uint64_t bits = 0;
		const auto enc = pos::encode(sym, bits);
		if(enc.size() * 8 > size_t(h->park_bytes_y) - 4) throw std::logic_error("park_bytes_y");
		if(enc.size()) memcpy(&park[4], enc.data(), enc.size() * 8);
		y += park;
	}
	y.resize((y.size() + 7) / 8 * 8);
	w.resize(w.size() + y.size() / 8); memcpy((char*)w.data() + w.size() * 8 - y.size(), y.data(), y.size());
	if(h->has_meta) {
		h->table_offset_meta = bytes();
		h->park_bytes_meta = (h->park_size_meta * pos::N_META_OUT * k + 63) / 64 * 8;
		for(size_t i = 0; i < n; i += h->park_size_meta) {
			std::vector<uint64_t> park(h->park_bytes_meta / 8 + 1);
			for(size_t j = i; j < n && j < i + h->park_size_meta; ++j) for(int m = 0; m < pos::N_META_OUT; ++m) {
				uint32_t v; memcpy(&v, f.finals[j].meta.data() + m * 4, 4);
				pos::write_bits(park.data(), v, ((j - i) * pos::N_META_OUT + m) * k, k);
			}
			w.insert(w.end(), park.begin(), park.begin() + h->park_bytes_meta / 8);
		}
	}
	// pointer tables: entry i of a table refers to entries 2i and 2i+1 of the one below
	h->park_bytes_pd = h->park_size_pd * k / 8 + 16;
	size_t m = n;
	h->table_offset_pd.clear();
	for(int t = 0; t < 7; ++t, m *= 2) {
		h->table_offset_pd.push_back(bytes());
		for(size_t i = 0; i < m; i += h->park_size_pd) {
			std::vector<uint64_t> park(h->park_bytes_pd / 8 + 1);
			std::vector<uint8_t> sym;
			for(size_t j = i; j < i + h->park_size_pd; ++j) { if(j < m) pos::write_bits(park.data(), 2 * j, (j - i) * k, k); sym.push_back(1); }
			uint64_t bits = 0;
			const auto enc = pos::encode(sym, bits);
			for(size_t j = 0; j < enc.size() && j < 2; ++j) park[h->park_size_pd * k / 64 + j] = enc[j];
			w.insert(w.end(), park.begin(), park.begin() + h->park_bytes_pd / 8);
		}
	}
	h->table_offset_x = bytes();
	h->entry_bits_x = 2 * k;
	h->park_bytes_x = h->park_size_x * h->entry_bits_x / 8;
	std::vector<uint32_t> xs;
	for(auto& e : f.finals) xs.insert(xs.end(), e.xs.begin(), e.xs.end());
	for(size_t i = 0; i < m; i += h->park_size_x) {
		std::vector<uint64_t> park(h->park_bytes_x / 8 + 1);
		for(size_t j = i; j < m && j < i + h->park_size_x; ++j) {
			const uint64_t a = std::max(xs[2 * j], xs[2 * j + 1]), b = std::min(xs[2 * j], xs[2 * j + 1]);
			pos::write_bits(park.data(), a * (a - 1) / 2 + b, (j - i) * h->entry_bits_x, h->entry_bits_x);
		}
		w.insert(w.end(), park.begin(), park.begin() + h->park_bytes_x / 8);
	}
	h->plot_size = bytes();
	return std::string((const char*)w.data(), w.size() * 8);
}
// to the simulated disk (header, directory) and to the scratch directory of this run (tables)
static void write_plot(sim::Machine* m, const PlotFile& f, const std::string& path, bool meta) {
	auto h = PlotHeader::create();
	h->ksize = h->xbits = f.plot.ksize; h->has_meta = meta; h->seed = f.plot.seed; h->plot_id = f.plot.id; h->farmer_key = f.plot.key;
	if(f.plot.is_nft) h->contract = f.plot.contract;
	h->park_size_y = 4; h->park_bytes_y = 4 + 16;
	const auto data = body(f, 4096, h);
	vnx::write_to_file(path, h);
	auto& node = m->disk->files.at(path);
	if(node->data.size() > 4096) sim::harness_error("plot header too long");
	node->data.resize(4096);
	node->data += data;
	std::ofstream o(path, std::ios::binary);
	o << node->data;
}

// ------------------------------------------------------------------ stubs
struct StubFarmer : vnx::Module {
	std::map<addr_t, uint64_t> diff;
	StubFarmer() : vnx::Module("Farmer") {}
	void init() override { vnx::open_pipe(vnx_name, this, 1000); }
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t&) override {
		const auto name = method->get_type_name();
		if(name == "mmx.Farmer.get_farmer_keys") { auto r = Farmer_get_farmer_keys_return::create(); for(int i = 0; i < 7; ++i) r->_ret_0.push_back(world::farmers[i].pk); return r; }
		if(name == "mmx.Farmer.get_mac_addr") { auto r = Farmer_get_mac_addr_return::create(); r->_ret_0 = vnx_get_id(); return r; }
		if(name == "mmx.Farmer.get_partial_diffs") { auto r = Farmer_get_partial_diffs_return::create(); r->_ret_0 = diff; return r; }
		throw std::logic_error("stub farmer: " + name);
	}
};
struct StubNode : vnx::Module {
	bool fail = false;
	StubNode() : vnx::Module("Node") {}
	void init() override { vnx::open_pipe(vnx_name, this, 1000); }
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t&) override {
		const auto name = method->get_type_name();
		if(name == "mmx.Node.get_plot_nft_info") {
			if(fail) throw std::runtime_error("node does not answer");
			auto c = std::dynamic_pointer_cast<const Node_get_plot_nft_info>(method);
			auto r = Node_get_plot_nft_info_return::create();
			plot_nft_info_t i; i.name = "nft"; i.owner = world::users[1].addr; i.address = c->address;
			i.is_locked = c->address == nft_addr; i.server_url = std::string("http://pool");
			r->_ret_0 = i;
			return r;
		}
		throw std::logic_error("stub node: " + name);
	}
};

struct Case { std::shared_ptr<Challenge> c; int64_t first = 0, last = 0; uint64_t gen_first = 0, gen_last = 0; std::map<hash_t, int> proofs, partials; int best = 0; bool done = false; };

static void run() {
	world::enter();
	world::params = world::draw_params();
	auto& par = world::params;
	par->plot_filter = pick({2, 1, 3}); par->post_filter = pick({1, 2});
	auto& pol = sim::policy;
	pol.preempt = pick({0.02, 0.2, 0.5}); pol.pick_random = pick({0.2, 0.6}); pol.step_us = 2; pol.max_steps = 20000000;
	pol.stall_task = pick({0.0, 0.1, 0.5}); pol.stall = pick({0.0, 1e-3, 1e-2}); pol.stall_us = pick({200000, 2000000, 10000000});
	if(mkdir("plots", 0755) || mkdir("plots/more", 0755)) {}
	auto* m = sim::add_machine("h");
	net::set_address(m, "10.0.0.1");
	vnx::init_process(m);
	Harvester* har = nullptr;
	StubNode* node = nullptr;
	std::map<std::string, size_t> files;			// [path => plot] on the disk
	std::map<std::string, size_t> loaded;			// according to the last reload
	std::set<size_t> broken;						// plots that were not readable at some time
	std::map<hash_t, Case> cases;
	std::map<uint32_t, int> summaries;				// [height => count]
	std::map<uint32_t, std::set<hash_t>> at;		// challenges published per height
	uint64_t generation = 0;						// reloads that may have found new plots
	bool steady = false;							// the set of plots did not change since the last reload
	uint64_t fake = 0;
	std::vector<bool> meta;						// table of quality data included in the plot
	for(size_t i = 0; i < all.size(); ++i) meta.push_back(W(2));
	const bool with_nft = W(2);

	m->disk->dirs.insert("plots"); m->disk->dirs.insert("plots/more");
	auto path_of = [&](size_t i) { return std::string(i % 3 == 2 ? "plots/more/" : "plots/") + all[i].name; };
	auto add = [&](size_t i) { write_plot(m, all[i], path_of(i), meta[i]); files[path_of(i)] = i; sim::trace("plot %zu added", i); };
	auto lookup = [&](size_t i, std::shared_ptr<const Challenge> c, uint64_t diff) { return plots::lookup(all[i].plot, par, c->challenge, diff, c->vdf_height >= par->hardfork1_height); };
	const uint64_t pool_diff = pick({1, 3});

	auto on_value = [&](std::shared_ptr<const vnx::Value> v) {
		if(auto r = std::dynamic_pointer_cast<const ProofResponse>(v)) {
			sim::count("responses");
			if(!r->proof) { sim::violation("response without a proof", std::to_string(r->vdf_height)); }
			auto it = cases.find(r->proof->challenge);
			if(it == cases.end()) sim::violation("response to a challenge that was never given", S(r->proof->challenge));
			auto& cs = it->second;
			const std::string what = "plot " + S(r->proof->plot_id) + " challenge " + S(r->proof->challenge) + " height " + std::to_string(r->vdf_height);
			const PlotFile* pf = nullptr;
			for(auto& e : files) if(all[e.second].plot.id == r->proof->plot_id) pf = &all[e.second];
			for(auto& e : loaded) if(all[e.second].plot.id == r->proof->plot_id) pf = &all[e.second];
			if(!pf) sim::violation("proof from an unknown plot", what);
			if(r->vdf_height != cs.c->vdf_height || r->proof->difficulty != cs.c->difficulty || r->proof->farmer_key != pf->plot.key) sim::violation("response does not fit the challenge", what);
			std::vector<uint32_t> xs;
			if(auto p = std::dynamic_pointer_cast<const ProofOfSpaceOG>(r->proof)) { if(pf->plot.is_nft || p->seed != pf->plot.seed || p->ksize != pf->plot.ksize) sim::violation("response does not fit the plot", what); xs = p->proof_xs; }
			else if(auto p = std::dynamic_pointer_cast<const ProofOfSpaceNFT>(r->proof)) { if(!pf->plot.is_nft || p->contract != pf->plot.contract || p->seed != pf->plot.seed || p->ksize != pf->plot.ksize) sim::violation("response does not fit the plot", what); xs = p->proof_xs; }
			if(r->hash != r->calc_hash() || r->content_hash != r->calc_content_hash()) sim::violation("response has a wrong hash", what);
			if(r->proof->score != get_proof_score(r->proof->calc_proof_hash())) sim::violation("response has a wrong score", what);
			bool good = false;
			for(auto& p : lookup(pf - &all[0], cs.c, cs.c->difficulty)) good |= p->proof_xs == xs;
			if(!good) sim::violation("response is not a winning proof", what);
			if(size_t(++cs.proofs[r->proof->calc_proof_hash()]) > 1 + generation - cs.gen_first) sim::violation("same proof published more than once", what);
			if(cs.done && steady && cs.gen_first == generation) sim::violation("response after the summary", what);
			sim::trace("response %s", what.c_str());
			sim::state(sim::hash64(r->hash.data(), 32));
		} else if(auto p = std::dynamic_pointer_cast<const Partial>(v)) {
			sim::count("partials");
			auto q = std::dynamic_pointer_cast<const ProofOfSpaceNFT>(p->proof);
			if(!q || q->contract != nft_addr || p->contract != nft_addr || p->account != world::users[1].addr || q->difficulty != pool_diff) sim::violation("wrong partial", std::to_string(p->vdf_height));
			auto it = cases.find(q->challenge);
			if(it == cases.end()) sim::violation("partial for a challenge that was never given", S(q->challenge));
			bool good = false;
			for(size_t i = 0; i < all.size(); ++i) if(all[i].plot.id == q->plot_id) for(auto& x : lookup(i, it->second.c, pool_diff)) good |= x->proof_xs == q->proof_xs;
			if(!good || p->vdf_height != it->second.c->vdf_height) sim::violation("partial is not a winning proof", S(q->plot_id));
			if(size_t(++it->second.partials[q->calc_proof_hash()]) > 1 + generation - it->second.gen_first) sim::violation("same partial published more than once", S(q->plot_id));
		} else if(auto l = std::dynamic_pointer_cast<const LookupInfo>(v)) {
			sim::count("summaries");
			const int n = ++summaries[l->vdf_height];
			int max = 0;
			const auto& cs_at = at[l->vdf_height];
			for(auto& h : cs_at) max += 1 + generation - cases[h].gen_first;
			sim::trace("summary height %u passed %u of %u", l->vdf_height, l->num_passed, l->num_total);
			if(n > max) sim::violation("challenge answered more than once", "summary " + std::to_string(n) + " for height " + std::to_string(l->vdf_height) + " which had " + std::to_string(cs_at.size()) + " challenges");
			if(cs_at.size() == 1 && steady) {
				auto& cs = cases[*cs_at.begin()];
				if(cs.gen_first != generation) return;
				cs.done = true;
				size_t passed = 0;
				for(auto& e : loaded) {
					if(!check_plot_filter(par, cs.c->challenge, all[e.second].plot.id)) continue;
					passed++;
					if(broken.count(e.second)) { sim::count("lookups_with_broken_plot"); continue; }
					for(auto& p : lookup(e.second, cs.c, cs.c->difficulty)) if(!cs.proofs.count(p->calc_proof_hash()))
						sim::violation("winning proof missing", "plot " + std::to_string(e.second) + " of " + std::to_string(loaded.size()) + " has a proof for challenge " + S(cs.c->challenge) + " height " + std::to_string(cs.c->vdf_height) + " but the summary came without it");
					if(all[e.second].plot.is_nft && all[e.second].plot.contract == nft_addr && har->partial_diff.count(nft_addr) && har->partial_diff[nft_addr] == pool_diff) sim::count("nft_lookups");
				}
				if(l->num_total != loaded.size()) sim::violation("summary counts other plots", std::to_string(l->num_total) + " instead of " + std::to_string(loaded.size()));
				if(l->num_passed != passed) sim::violation("summary with a wrong number of eligible plots", std::to_string(l->num_passed) + " instead of " + std::to_string(passed));
				sim::count("summaries_checked"); sim::count("nontrivial");
			}
		}
	};
	world::Tap* tap = new world::Tap("Tap", {"harvester.proof", "harvester.partials", "harvester.lookups"}, on_value);
	bool up = false;
	sim::spawn(m, "boot", [&]() {
		vnx::write_config("chain.params", par->to_object());
		for(size_t i = 0; i < all.size(); ++i) if(W(4) || !i) { if(!with_nft && all[i].plot.is_nft) continue; add(i); }
		auto* f = new StubFarmer(); f->diff[nft_addr] = pool_diff;
		(new vnx::Handle<StubFarmer>(f))->start();
		node = new StubNode();
		(new vnx::Handle<StubNode>(node))->start();
		(new vnx::Handle<world::Tap>(tap))->start();
		har = new Harvester("Harvester");
		har->plot_dirs = {"plots"};
		har->num_threads = pick({4, 1, 2, 16});
		har->my_name = "sim"; har->reload_interval = 0;
		loaded = files;
		for(auto it = loaded.begin(); it != loaded.end();) { bool ok = false; for(int i = 0; i < 7; ++i) ok |= all[it->second].plot.key == world::farmers[i].pk; if(ok) ++it; else it = loaded.erase(it); }
		(new vnx::Handle<Harvester>(har))->start();
		up = true;
	});
	sim::wait_until([&]() { return up && har->is_ready; }, 3600000000, 10000);
	if(!har->is_ready) sim::violation("harvester does not become ready", sim::fiber_report(m));
	sim::sleep_us(3000000);
	steady = true;
	auto owned = [&]() { std::map<std::string, size_t> r; for(auto& e : files) for(int i = 0; i < 7; ++i) if(all[e.second].plot.key == world::farmers[i].pk) r.insert(e); return r; };
	if(har->plot_map.size() != owned().size()) sim::violation("plots not loaded", std::to_string(har->plot_map.size()) + " of " + std::to_string(owned().size()));

	uint32_t height = 1 + W(30);
	const uint32_t effort = pick({60, 1, 300});
	auto make = [&](uint32_t h) {
		auto c = Challenge::create();
		c->vdf_height = h; c->difficulty = pick({1, 2, 4, 0});
		int best = -1;
		for(uint32_t i = 0; i < effort; ++i) {		// challenges that many plots have something for
			const hash_t x("challenge " + std::to_string(++fake));
			int s = 0;
			for(auto& e : loaded) {
				auto& p = all[e.second];
				if(!check_plot_filter(par, x, p.plot.id)) continue;
				const auto pc = get_plot_challenge(x, p.plot.id);
				const uint32_t Y0 = bytes_t<4>(pc.data(), 4).to_uint<uint32_t>() & ((1u << p.plot.ksize) - 1);
				for(auto& q : p.finals) s += q.y >= Y0 && q.y < Y0 + (1u << par->plot_filter);
			}
			if(s > best) { best = s; c->challenge = x; }
		}
		return c;
	};
	auto post = [&](std::shared_ptr<Challenge> c) {
		bool done = false;
		tap->vnx_post([&, c]() {
			auto& cs = cases[c->challenge];
			if(!cs.c) { cs.c = c; cs.first = sim::now_us(); cs.gen_first = generation; }
			cs.last = sim::now_us();
			at[cs.c->vdf_height].insert(c->challenge);
			tap->publish(cs.c, std::string("harvester.challenges"));
			done = true;
		});
		if(!sim::wait_until([&]() { return done; }, 3600000000, 1000)) sim::harness_error("driver does not get to run");
	};
	auto call = [&](std::function<void()> fn) { bool done = false; har->vnx_post([&]() { fn(); done = true; }); sim::wait_until([&]() { return done; }, 600000000, 10000); if(!done) sim::violation("harvester stuck", sim::fiber_report(m)); };
	auto reload = [&]() {
		steady = false;
		for(auto& e : files) if(!har->plot_map.count(e.first)) { generation++; break; }		// new plots: known challenges may be answered again
		call([&]() { har->reload(); });
		sim::sleep_us(4000000);
		{ bool done = false; tap->vnx_post([&]() { done = true; }); sim::wait_until([&]() { return done; }, 600000000, 10000); }
		loaded.clear();
		for(auto& e : owned()) if(har->plot_map.count(e.first)) loaded.insert(e); else if(!broken.count(e.second)) sim::violation("plot not loaded", e.first);
		for(auto& e : har->plot_map) if(!owned().count(e.first)) sim::violation("plot is gone but still listed", e.first);
		steady = true;
		for(auto& e : cases) e.second.done = false;
		sim::count("reloads");
	};
	std::vector<std::shared_ptr<Challenge>> recent;
	const uint32_t fault = pick({0, 3, 10}), change = pick({0, 2});
	for(int t = 0; t < 120; ++t) {
		sim::sleep_us(pick({200000, 20000, 1000000, 5000}) + W(3000));
		const int what = W(8);
		if(what < 4 || recent.empty()) {
			height += 1 + (W(8) == 0);
			auto c = make(height);
			if(W(12) == 0) c->vdf_height = height > 5 ? height - W(5) : height;		// other branch of the chain: same height, other challenge
			recent.push_back(c);
			post(c);
			if(W(3) == 0) { const int k = W(4); for(int i = 0; i < k; ++i) { auto d = make(++height); recent.push_back(d); post(d); } }
		} else if(what < 7) { const int k = 1 + W(4); for(int i = 0; i < k; ++i) post(recent[recent.size() - 1 - W(std::min<size_t>(recent.size(), 8))]); }
		if(W(100) < fault && files.size()) {
			auto it = files.begin(); std::advance(it, W(files.size()));
			broken.insert(it->second);
			const int how = W(3);
			if(how == 0) { if(unlink(it->first.c_str())) {} sim::count("plot unreadable"); }
			else if(how == 1) { if(truncate(it->first.c_str(), 4096 + W(4000))) {} sim::count("plot truncated"); }
			else { if(unlink(it->first.c_str())) {} m->disk->files.erase(it->first); files.erase(it); sim::count("plot removed"); reload(); }
		}
		if(W(100) < change) {
			const size_t i = W(all.size());
			if(with_nft || !all[i].plot.is_nft) { const bool again = files.count(path_of(i)); bool done = false; sim::spawn(m, "copy", [&, i]() { add(i); done = true; }); sim::wait_until([&]() { return done; }, 3600000000, 1000); if(!again) { broken.insert(i); } reload(); broken.erase(i); sim::count("plot added"); }
		}
	}
	// faults stop: every new challenge is answered completely
	pol.stall = pol.stall_task = 0;
	sim::sleep_us(30000000);
	for(int t = 0; t < 6; ++t) {
		auto c = make(++height);
		post(c);
		if(W(2)) post(c);
		sim::sleep_us(2000000);
		if(summaries[height] != 1) sim::violation("challenge not answered once", std::to_string(summaries[height]) + " summaries for height " + std::to_string(height) + sim::fiber_report(m));
	}
	sim::count("final_challenges", 6);
	sim::finish();
}
}
#endif
