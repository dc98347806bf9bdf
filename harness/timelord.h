// The real TimeLord module under a driver that asks for proofs the way a node does, and changes its mind in every way a node can.
#ifndef HARNESS_TIMELORD_H
#define HARNESS_TIMELORD_H
#include "world.h"
#include <mmx/TimeLord.h>

namespace tl {
using namespace mmx;
using world::W; using world::pick;

struct Slot { uint64_t start, end; hash_t infuse; };
static uint64_t seg;
static hash_t finish(const hash_t& input, const hash_t& infuse, const addr_t& reward, uint64_t num_iters, std::vector<hash_t>* segs = nullptr) {
	hash_t x(input + infuse);
	x = hash_t(x + reward);
	for(uint64_t i = 0; i < num_iters / seg; ++i) {
		for(uint64_t k = 0; k < seg; ++k) x = hash_t(x.bytes.data(), x.bytes.size());
		if(segs) segs->push_back(x);
	}
	return x;
}

struct Mem {		// the node's view, survives a crash
	std::vector<Slot> branch;
	size_t p = 0;									// slot of the peak
	hash_t base;									// output at branch[0].start
	std::map<std::tuple<hash_t, uint64_t, uint64_t, hash_t>, hash_t> point;		// accepted proofs of time
	std::set<std::tuple<uint32_t, uint64_t, uint64_t, hash_t>> asked;
	uint64_t salt = 0, proofs = 0, advanced = 0;
	uint32_t adv = 2;
	int64_t last_proof = 0;
	bool quiet = false;
	addr_t reward;
	std::function<pubkey_t()> key;
};
struct Driver : vnx::Module, Mem {
	Driver() : vnx::Module("Node") {}
	void init() override { subscribe(std::string("timelord.proof"), 1000); vnx::open_pipe(vnx_name, this, 1000); set_timer_millis(200, [this]() { tick(); }); }
	hash_t rnd() { return hash_t("infusion " + std::to_string(++salt)); }
	void grow(size_t n) {
		while(branch.size() < n) {
			Slot s; s.start = branch.empty() ? 0 : branch.back().end; s.end = s.start + seg * (1 + W(12)); s.infuse = rnd();
			branch.push_back(s);
		}
	}
	hash_t out(size_t i) {					// output at the start of slot i, known for all i <= p
		hash_t x = base;
		for(size_t k = 0; k < i; ++k) x = point.at(std::make_tuple(x, branch[k].start, branch[k].end, branch[k].infuse));
		return x;
	}
	size_t known(hash_t& x) {				// number of proofs from the peak on
		x = out(p);
		size_t n = 0;
		while(true) {
			grow(p + n + 1);
			auto it = point.find(std::make_tuple(x, branch[p + n].start, branch[p + n].end, branch[p + n].infuse));
			if(it == point.end()) return n;
			x = it->second; n++;
		}
	}
	void update() {
		hash_t x;
		const auto n = known(x);
		grow(p + n + adv + 2);
		for(size_t i = 0; i <= n + adv; ++i) {
			const auto& s = branch[p + i];
			auto r = IntervalRequest::create();
			r->vdf_height = p + i + 1; r->start = s.start; r->end = s.end; r->infuse = s.infuse;
			if(i == n) r->input = x;
			asked.emplace(r->vdf_height, r->start, r->end, r->infuse);
			publish(r, std::string("timelord.requests"));
		}
	}
	void tick() {
		const int what = quiet ? 0 : W(24);
		hash_t x;
		const auto n = known(x);
		switch(what) {
			case 1: case 2: case 3: case 4: if(n) { p += 1 + W(n); advanced++; } break;
			case 5: case 6: {				// another timelord was faster, or a different output came first
				const auto& s = branch[p + n];
				const int k = 1 + W(3);
				hash_t y = x;
				for(int i = 0; i < k; ++i) {
					grow(p + n + i + 1);
					const auto& s = branch[p + n + i];
					const auto z = finish(y, s.infuse, W(4) ? world::timelords[1].addr : world::timelords[2].addr, s.end - s.start);
					point.emplace(std::make_tuple(y, s.start, s.end, s.infuse), z);
					y = point.at(std::make_tuple(y, s.start, s.end, s.infuse));
				}
				sim::count("other timelord faster");
				break;
			}
			case 7: case 8: case 9: {		// chain switch: other infusions and lengths from some slot on
				const size_t f = p + n > 6 ? p + n - W(7) : W(p + n + 1);
				if(W(2)) branch.resize(f); else { const auto m = branch.size(); for(size_t i = f; i < m; ++i) branch[i].infuse = rnd(); }
				if(W(3) == 0 && f < branch.size()) branch[f].infuse = rnd();
				if(p > f) p = f;
				grow(p + 1);
				sim::count("chain switch");
				break;
			}
			case 10: {						// the node restarted from an older block
				p -= std::min<size_t>(p, W(8));
				sim::count("older peak");
				break;
			}
			case 11: {						// and lost what it knew
				if(W(4) == 0) { std::vector<std::tuple<hash_t, uint64_t, uint64_t, hash_t>> gone; hash_t y = out(p);
					for(size_t k = p; k < p + n; ++k) { auto key = std::make_tuple(y, branch[k].start, branch[k].end, branch[k].infuse); gone.push_back(key); y = point.at(key); }
					for(auto& g : gone) point.erase(g);
					sim::count("proofs forgotten"); }
				break;
			}
			case 12: return;				// silent for a while
		}
		if(quiet && n > 3) { p += n - 1; advanced++; }
		update();
	}
	void handle(std::shared_ptr<const vnx::Value> v) override {
		auto q = std::dynamic_pointer_cast<const ProofOfTime>(v);
		if(!q) return;
		proofs++; sim::count("proofs_published"); sim::count("nontrivial");
		const std::string what = "height " + std::to_string(q->vdf_height) + " from " + std::to_string(q->start) + " over " + std::to_string(q->num_iters) + " iterations, " + std::to_string(q->segments.size()) + " segments";
		if(!asked.count(std::make_tuple(q->vdf_height, q->start, q->start + q->num_iters, q->prev))) sim::violation("proof nobody asked for", what);
		std::vector<hash_t> segs;
		const auto y = finish(q->input, q->prev, q->reward_addr, q->num_iters, &segs);
		if(q->segment_size != seg || q->num_iters % seg || q->segments.size() != q->num_iters / seg) sim::violation("published proof of time does not verify", what + ": wrong number of segments");
		for(size_t i = 0; i < segs.size(); ++i) if(segs[i] != q->segments[i]) sim::violation("published proof of time does not verify", what + ": segment " + std::to_string(i) + " does not follow");
		if(q->reward_addr != reward) sim::violation("published proof of time pays someone else", what);
		if(q->hash != q->calc_hash() || q->content_hash != q->calc_content_hash()) sim::violation("published proof of time has a wrong hash", what);
		if(!q->is_valid() || !q->timelord_sig.verify(q->timelord_key, q->hash)) sim::violation("published proof of time is not validly signed", what);
		if(key && q->timelord_key != key()) sim::violation("timelord key changed", what);
		point.emplace(std::make_tuple(q->input, q->start, q->start + q->num_iters, q->prev), y);
		last_proof = sim::now_us();
		sim::trace("proof %s", what.c_str());
		sim::state(sim::hash64(q->hash.data(), 32));
		if(quiet || W(4)) update();
	}
};

static void run() {
	world::enter();
	world::params = world::draw_params();
	seg = world::params->vdf_segment_size;
	auto& pol = sim::policy;
	pol.preempt = pick({0.02, 0.2, 0.5, 0.0}); pol.pick_random = pick({0.2, 0.5}); pol.step_us = 2; pol.max_steps = 20000000;
	pol.stall = pick({0.0, 1e-3, 1e-2, 5e-2}); pol.stall_us = pick({20000, 200000, 1000000});
	auto* m = sim::add_machine("t");
	net::set_address(m, "10.0.0.1");
	vnx::init_process(m);
	TimeLord* lord = nullptr;
	const uint32_t speed = pick({10000, 2000, 40000});		// us per segment at most
	auto* d = new Driver();
	d->reward = world::timelords[0].addr;
	d->base = hash_t("genesis vdf");
	d->adv = 1 + W(5);
	// the speed of the hardware: the VDF thread reads the clock before and after every segment
	sim::on_clock = [m, speed]() {
		if(sim::machine() == m && sim::current_fiber_name().compare(0, 6, "thread") == 0) sim::sleep_us(300 + sim::draw(sim::S_MISC, speed));
	};
	auto boot = [&]() {
		if(!m->process) vnx::init_process(m);
		sim::spawn(m, "boot", [&]() {
			vnx::write_config("chain.params", world::params->to_object());
			lord = new TimeLord("TimeLord");
			lord->reward_addr = d->reward;
			lord->storage_path = "";
			lord->max_history = pick({1000000, 60, 200});
			(new vnx::Handle<TimeLord>(lord))->start();
			(new vnx::Handle<Driver>(d))->start();
		});
	};
	boot();
	sim::sleep_us(1000000);
	pubkey_t first; bool have = false;
	d->key = [&]() { if(!have) { first = lord->timelord_key; have = true; } return first; };
	const uint32_t stops = pick({0, 2, 10}), crashes = pick({0, 1, 3});
	const int ticks = 300;
	for(int i = 0; i < ticks; ++i) {
		sim::sleep_us(200000);
		if(W(100) < stops) { auto* l = lord; l->vnx_post([l]() { l->stop_vdf(); }); sim::count("stopped"); }
		if(W(100) < crashes) {
			const Mem old = *d;
			sim::crash(m); sim::restart(m);
			sim::count("crashes");
			auto* n = new Driver();
			static_cast<Mem&>(*n) = old;
			d = n;
			boot();
			sim::sleep_us(1000000);
		}
	}
	// requests stop changing: everything asked for arrives
	pol.stall = 0;
	d->vnx_post([d]() { d->quiet = true; });
	sim::trace("quiet");
	const auto before = d->advanced;
	const bool ok = sim::wait_until([&]() { return d->advanced >= before + 3; }, 600000000, 100000);
	if(!ok) sim::violation("timelord does not deliver", "10 min after requests stopped changing only " + std::to_string(d->advanced - before) + " more intervals were delivered" + sim::fiber_report(m));
	sim::count("delivered_after_quiet");
	sim::finish();
}
}
#endif
