// Contract storage: StorageDB under nested StorageCaches, used the way block validation uses them, on the simulated disk with
// crashes, restarts and rollbacks, against a reference of plain maps per height.
#ifndef HARNESS_STORAGE_H
#define HARNESS_STORAGE_H
#include "world.h"
#include <mmx/DataBase.h>
#include <mmx/vm/StorageDB.h>
#include <mmx/vm/StorageCache.h>
#include <mmx/vm/var_t.h>
#include <shared_mutex>

namespace st {
using namespace mmx;
using namespace mmx::vm;
using world::W; using world::pick;
typedef std::pair<int, uint64_t> MemKey;
typedef std::tuple<int, uint64_t, uint64_t> EntKey;

struct State {								// everything all contracts have stored
	std::map<MemKey, std::string> mem;
	std::map<EntKey, std::string> ent;
	std::map<std::pair<int, std::string>, uint64_t> idx;
	std::map<std::pair<int, int>, uint128> bal;
};
static std::vector<addr_t> contracts, currencies;
struct Ctx {
	sim::Machine* m = nullptr;
	std::vector<State> hist;				// after block h
	std::shared_ptr<DataBase> db; std::shared_ptr<StorageDB> s;
	std::shared_mutex* rw = nullptr;
	std::map<std::pair<addr_t, addr_t>, uint128> bal, written;	// what the ledger says
	uint64_t salt = 0;
	size_t block_size = 0, flush = 0, levels = 0; int threads = 1;
	enum { NONE, COMMIT, REVERT } inflight = NONE;
	State next; uint32_t target = 0;
	const char* phase = "";
};
static Ctx* C = nullptr;
static void fail(const std::string& c, const std::string& m) { sim::violation(c, m); }

static std::string show(const var_t* v) { return v ? std::to_string(int(v->flags)) + "/" + std::to_string(int(v->type)) + "/" + to_string_value_hex(*v) + (v->type == TYPE_ARRAY ? "#" + std::to_string(((const array_t*)v)->address) + "," + std::to_string(((const array_t*)v)->size) : v->type == TYPE_MAP ? "#" + std::to_string(((const map_t*)v)->address) : "") : std::string("(none)"); }
static std::string key_of(const var_t& v) { return std::to_string(int(v.type)) + "/" + to_string_value_hex(v); }
static std::unique_ptr<var_t> value(bool key = false) {
	std::unique_ptr<var_t> v;
	const uint64_t n = ++C->salt;
	switch(key ? 3 + W(3) : W(8)) {
		case 0: v = std::make_unique<var_t>(pick({0, 1, 2}) == 0 ? TYPE_NIL : pick({0, 1}) ? TYPE_TRUE : TYPE_FALSE); break;
		case 1: v = std::make_unique<ref_t>(MEM_STATIC + n); break;
		case 2: v = std::make_unique<array_t>(uint32_t(n)); ((array_t*)v.get())->address = MEM_STATIC + n; break;
		case 3: v = std::make_unique<uint_t>(uint256_t(W(4) ? W(W(2) ? 40 : 70000) : n) << pick({0, 0, 16, 64, 128, 200})); break;
		case 4: v = binary_t::alloc(std::string(W(20) ? W(30) : 0, char(W(256))) + (W(3) ? std::to_string(W(50)) : ""), TYPE_STRING); break;
		case 5: { std::string s; const int k = W(40); for(int i = 0; i < k; ++i) s += char(W(3) ? W(256) : 0); v = binary_t::alloc(s, TYPE_BINARY); break; }
		case 6: v = std::make_unique<map_t>(); ((map_t*)v.get())->address = n; break;
		default: v = std::make_unique<uint_t>(uint256_t(n));
	}
	v->flags = key ? FLAG_KEY | FLAG_CONST : pick({0, int(FLAG_CONST), int(FLAG_DELETED), int(FLAG_DIRTY), int(FLAG_STORED)});
	return v;
}
static uint64_t address() {
	static const uint64_t near[] = {0, 1, 2, 255, 256, 257, 65535, 65536, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull - 1, ~0ull};
	return W(3) ? near[W(14)] : MEM_STATIC + W(20);
}
static std::string at(int c, uint64_t a) { return "contract " + std::to_string(c) + " [" + std::to_string(a) + "]"; }

static void check_read(const Storage& s, const State& want, int c, uint64_t a, bool ent, uint64_t k, const char* when) {
	auto got = ent ? s.read(contracts[c], a, k) : s.read(contracts[c], a);
	std::string w = "(none)";
	if(ent) { auto it = want.ent.find(EntKey(c, a, k)); if(it != want.ent.end()) w = it->second; } else { auto it = want.mem.find(MemKey(c, a)); if(it != want.mem.end()) w = it->second; }
	if(show(got.get()) != w) fail("wrong value read", std::string(when) + ": " + at(c, a) + (ent ? "[" + std::to_string(k) + "]" : "") + " reads " + show(got.get()) + ", last stored is " + w);
	sim::count("reads");
}
static void check_lookup(const Storage& s, const State& want, int c, const var_t& v, const char* when) {
	auto q = clone(v); q->flags = pick({0, int(FLAG_CONST), int(FLAG_KEY), int(FLAG_CONST | FLAG_KEY)});		// flags do not belong to the value
	const auto got = s.lookup(contracts[c], *q);
	auto it = want.idx.find({c, key_of(v)});
	const uint64_t w = it == want.idx.end() ? 0 : it->second;
	if(got != w) fail("wrong key lookup", std::string(when) + ": contract " + std::to_string(c) + " key " + key_of(v) + " is at " + std::to_string(got) + ", stored at " + std::to_string(w));
	sim::count("lookups");
}
// state after block `height` (or now), through the database only
static void check_db(const std::vector<State>& hist, uint32_t r, const char* when) {
	auto rnd = [&r](uint32_t n) { r = r * 1664525 + 1013904223; return (r >> 8) % n; };
	if(hist.empty()) return;
	const bool now = rnd(3) == 0;
	const uint32_t h = rnd(hist.size() + 1);
	const State& want = now || h >= hist.size() ? hist.back() : hist[h];
	const uint32_t hh = now ? uint32_t(-1) : h;
	const int c = rnd(contracts.size());
	const std::string w = std::string(when) + (now ? "" : " at height " + std::to_string(h));
	auto any = [&](bool ent) -> std::pair<uint64_t, uint64_t> {
		static const uint64_t near[] = {0, 1, 255, 256, 0x100000000ull, ~0ull};
		std::vector<std::pair<uint64_t, uint64_t>> all;
		for(auto& s : {&hist.back(), &want}) { if(ent) { for(auto& e : s->ent) if(std::get<0>(e.first) == c) all.push_back({std::get<1>(e.first), std::get<2>(e.first)}); } else for(auto& e : s->mem) if(e.first.first == c) all.push_back({e.first.second, 0}); }
		if(all.empty() || rnd(4) == 0) return {near[rnd(6)], near[rnd(6)]};
		return all[rnd(all.size())];
	};
	auto cmp = [&](const std::string& what, std::vector<std::pair<uint64_t, varptr_t>> got, std::vector<std::pair<uint64_t, std::string>> exp) {
		bool ok = got.size() == exp.size();
		for(size_t i = 0; ok && i < got.size(); ++i) ok = got[i].first == exp[i].first && show(got[i].second.get()) == exp[i].second;
		if(!ok) { std::string g, e; for(auto& x : got) g += " " + std::to_string(x.first) + "=" + show(x.second.get()); for(auto& x : exp) e += " " + std::to_string(x.first) + "=" + x.second; fail("wrong entries", w + ": " + what + " returns" + g + ", stored are" + e); }
		sim::count("scans");
	};
	switch(rnd(5)) {
		case 0: {
			auto k = any(false); auto got = C->s->read_ex(contracts[c], k.first, hh);
			auto it = want.mem.find(MemKey(c, k.first)); const std::string e = it == want.mem.end() ? "(none)" : it->second;
			if(show(got.get()) != e) fail("wrong value read", w + ": " + at(c, k.first) + " reads " + show(got.get()) + ", stored is " + e);
			break;
		}
		case 1: {
			auto k = any(true); auto got = C->s->read_ex(contracts[c], k.first, k.second, hh);
			auto it = want.ent.find(EntKey(c, k.first, k.second)); const std::string e = it == want.ent.end() ? "(none)" : it->second;
			if(show(got.get()) != e) fail("wrong value read", w + ": " + at(c, k.first) + "[" + std::to_string(k.second) + "] reads " + show(got.get()) + ", stored is " + e);
			break;
		}
		case 2: {
			auto a = any(false).first, b = any(false).first;
			if(a > b) std::swap(a, b);
			if(rnd(3) == 0) { a = rnd(2) ? 0 : MEM_STATIC; b = ~0ull; }
			std::vector<std::pair<uint64_t, std::string>> e;
			for(auto& x : want.mem) if(x.first.first == c && x.first.second >= a && x.first.second < b) e.push_back({x.first.second, x.second});
			cmp("find_range(" + at(c, a) + " to " + std::to_string(b) + ")", C->s->find_range(contracts[c], a, b, hh), e);
			break;
		}
		case 3: {
			const auto a = any(true).first;
			std::vector<std::pair<uint64_t, std::string>> e;
			for(auto& x : want.ent) if(std::get<0>(x.first) == c && std::get<1>(x.first) == a) e.push_back({std::get<2>(x.first), x.second});
			cmp("find_entries(" + at(c, a) + ")", C->s->find_entries(contracts[c], a, hh), e);
			if(rnd(4) == 0) { auto arr = C->s->read_array(contracts[c], a, hh); std::vector<std::pair<uint64_t, varptr_t>> g; for(size_t i = 0; i < arr.size(); ++i) { g.push_back({i < e.size() ? e[i].first : 0, arr[i]}); } cmp("read_array(" + at(c, a) + ")", std::move(g), e); }
			break;
		}
		case 4: {
			std::vector<std::pair<int, std::string>> keys;
			for(auto& e : hist.back().idx) keys.push_back(e.first);
			if(keys.empty()) break;
			auto k = keys[rnd(keys.size())];
			for(auto& e : hist.back().mem) {			// the variable that holds it
				if(e.first.first != k.first || e.first.second != hist.back().idx.at(k)) continue;
				auto v = C->s->read(contracts[k.first], e.first.second);
				if(v) { check_lookup(*C->s, hist.back(), k.first, *v, w.c_str()); const int o = rnd(contracts.size()); check_lookup(*C->s, hist.back(), o, *v, w.c_str()); }
			}
			break;
		}
	}
}
// one transaction: a cache over the block's cache
static void transaction(std::shared_ptr<Storage> below, State& view, const std::vector<int>& mine, int depth) {
	auto cache = std::make_shared<StorageCache>(below);
	State mod = view;
	const int n = 1 + W(12);
	for(int i = 0; i < n; ++i) {
		const int c = mine[W(mine.size())];
		const auto& a = contracts[c];
		switch(W(depth ? 8 : 9)) {
			case 0: case 1: { const auto d = address(); auto v = value(); cache->write(a, d, *v); mod.mem[MemKey(c, d)] = show(v.get()); sim::count("writes"); break; }
			case 2: case 3: { const auto d = address(), k = address(); auto v = value(); cache->write(a, d, k, *v); mod.ent[EntKey(c, d, k)] = show(v.get()); sim::count("writes"); break; }
			case 4: {
				auto v = value(true);
				check_lookup(*cache, mod, c, *v, "in a transaction");
				if(!mod.idx.count({c, key_of(*v)})) { const uint64_t d = (1ull << 33) + ++C->salt; cache->write(a, d, *v); mod.mem[MemKey(c, d)] = show(v.get()); mod.idx[{c, key_of(*v)}] = d; sim::count("key_writes"); }
				break;
			}
			case 5: check_read(*cache, mod, c, address(), false, 0, "in a transaction"); break;
			case 6: check_read(*cache, mod, c, address(), true, address(), "in a transaction"); break;
			case 7: {
				const int cu = W(currencies.size());
				auto it = mod.bal.find({c, cu});
				auto got = cache->get_balance(a, currencies[cu]);
				if(bool(got) != (it != mod.bal.end()) || (got && *got != it->second)) fail("wrong balance read", "in a transaction: contract " + std::to_string(c) + " currency " + std::to_string(cu) + " reads " + (got ? got->str(10) : "(none)") + ", last set is " + (it != mod.bal.end() ? it->second.str(10) : "(none)"));
				if(W(2)) { uint128 b = got ? *got : uint128(0); b += 1 + W(100); cache->set_balance(a, currencies[cu], b); mod.bal[{c, cu}] = b; }
				break;
			}
			case 8: {							// a nested call that may be dropped
				State v = mod;
				transaction(cache, v, mine, depth + 1);
				mod = v;
				break;
			}
		}
	}
	if(W(3)) { cache->commit(); view = mod; sim::count("caches_committed"); sim::trace_quiet("commit cache depth %d", depth); }
	else sim::count("caches_dropped");
}
static void ledger() { C->bal.clear(); if(C->hist.size()) for(auto& e : C->hist.back().bal) C->bal[{contracts[e.first.first], currencies[e.first.second]}] = e.second; }
static void open() {
	C->phase = "open";
	C->db = std::make_shared<DataBase>(C->threads);
	C->s = std::make_shared<StorageDB>("simdb/", C->db);
	for(auto t : {C->s->table, C->s->table_entries, C->s->table_index}) { auto& o = const_cast<Table::options_t&>(t->options); o.max_block_size = C->block_size; o.force_flush_threshold = C->flush; o.level_factor = C->levels; }
	C->s->read_balance = [](const addr_t& a, const addr_t& c) -> std::unique_ptr<uint128> { auto it = C->bal.find({a, c}); return it == C->bal.end() ? nullptr : std::make_unique<uint128>(it->second); };
	C->s->write_balance = [](const addr_t& a, const addr_t& c, const uint128& v) { C->written[{a, c}] = v; };
	const uint32_t v = C->db->recover();
	if(C->inflight == Ctx::COMMIT && v == C->hist.size() + 1) { C->hist.push_back(C->next); sim::count("inflight_commit_survived"); }
	else if(C->inflight == Ctx::REVERT && v == C->target) { C->hist.resize(C->target); sim::count("inflight_revert_survived"); }
	else if(v != C->hist.size()) fail("wrong version after restart", "storage is at version " + std::to_string(v) + " after restart, last committed block is " + std::to_string(C->hist.size()));
	else if(C->inflight != Ctx::NONE) sim::count("inflight_rolled_back");
	C->inflight = Ctx::NONE;
	ledger();
	for(int i = 0; i < 30; ++i) check_db(C->hist, W(1 << 30), "after restart");
	C->phase = "run";
}
static void block() {
	auto top = std::make_shared<StorageCache>(C->s);
	const State base = C->hist.size() ? C->hist.back() : State();
	const int n = 1 + W(4);
	std::vector<std::vector<int>> part(n);
	for(size_t c = 0; c < contracts.size(); ++c) part[W(n)].push_back(c);
	std::vector<State> view(n, base);
	C->phase = "block";
	std::vector<std::thread> th;
	std::vector<int> txs; for(int i = 0; i < n; ++i) txs.push_back(W(4));
	for(int i = 0; i < n; ++i) if(part[i].size()) th.emplace_back([&, i]() { for(int k = 0; k < txs[i]; ++k) transaction(top, view[i], part[i], 0); });
	// readers of earlier states, as the API's threads
	const int readers = W(3);
	bool stop = false;
	std::vector<uint32_t> seeds; for(int i = 0; i < readers; ++i) seeds.push_back(W(1 << 30));
	for(int i = 0; i < readers; ++i) th.emplace_back([&, i]() { for(int k = 0; k < 6; ++k) { std::shared_lock<std::shared_mutex> lock(*C->rw); check_db(C->hist, seeds[i] + k, "by a concurrent reader"); sim::count("concurrent_reads"); } });
	for(size_t i = 0; i < th.size() - readers; ++i) th[i].join();
	State next = base;
	for(int i = 0; i < n; ++i) { for(auto& e : view[i].mem) if(std::count(part[i].begin(), part[i].end(), e.first.first)) next.mem[e.first] = e.second; for(auto& e : view[i].ent) if(std::count(part[i].begin(), part[i].end(), std::get<0>(e.first))) next.ent[e.first] = e.second; for(auto& e : view[i].idx) if(std::count(part[i].begin(), part[i].end(), e.first.first)) next.idx[e.first] = e.second; for(auto& e : view[i].bal) if(std::count(part[i].begin(), part[i].end(), e.first.first)) next.bal[e.first] = e.second; }
	for(int i = 0; i < 6; ++i) check_read(*top, next, W(contracts.size()), address(), W(2), address(), "in the block");
	if(W(5)) {
		std::unique_lock<std::shared_mutex> lock(*C->rw);
		C->phase = "commit";
		C->written.clear();
		top->commit();
		for(auto& e : C->written) C->bal[e.first] = e.second;
		C->next = next; C->inflight = Ctx::COMMIT;
		C->db->commit(C->hist.size() + 1);
		C->inflight = Ctx::NONE; C->hist.push_back(next);
		auto was = C->bal; ledger();
		if(was != C->bal) fail("wrong balances written", "after block " + std::to_string(C->hist.size() - 1) + " the balances handed to the ledger differ from those set");
		sim::trace("block %zu: %zu variables, %zu entries, %zu keys", C->hist.size() - 1, next.mem.size(), next.ent.size(), next.idx.size());
		sim::count("blocks"); sim::count("nontrivial");
	} else { sim::count("blocks_dropped"); sim::trace("block dropped"); }
	for(size_t i = th.size() - readers; i < th.size(); ++i) th[i].join();
	(void)stop;
	C->phase = "run";
	for(int i = 0; i < 5; ++i) check_db(C->hist, W(1 << 30), "after a block");
	for(int i = 0; i < 3; ++i) check_read(*C->s, C->hist.size() ? C->hist.back() : State(), W(contracts.size()), address(), W(2), address(), "after a block");
	sim::state(C->hist.size() * 1000003ull + next.mem.size() * 1009 + next.ent.size() * 31 + next.idx.size());
}
static void session(int ops) {
	try {
		open();
		for(int i = 0; i < ops; ++i) {
			const int op = W(20);
			if(op < 14) block();
			else if(op < 17 && C->hist.size()) {
				C->phase = "revert";
				const uint32_t to = C->hist.size() - std::min<uint32_t>(W(W(4) ? 3 : 100), C->hist.size());
				std::unique_lock<std::shared_mutex> lock(*C->rw);
				C->target = to; C->inflight = Ctx::REVERT;
				C->db->revert(to);
				C->hist.resize(to); C->inflight = Ctx::NONE; ledger();
				sim::trace("revert to %u", to); sim::count("reverts");
				for(int k = 0; k < 20; ++k) check_db(C->hist, W(1 << 30), "after a revert");
				if(C->hist.empty()) for(int k = 0; k < 5; ++k) check_read(*C->s, State(), W(contracts.size()), address(), W(2), address(), "after a revert");
			}
			else if(op == 17) { C->s = nullptr; C->db = nullptr; open(); sim::count("clean_restarts"); }
			else if(op == 18) { sim::trace("kill"); sim::count("kills"); sim::crash(C->m); }
			else for(int k = 0; k < 20; ++k) check_db(C->hist, W(1 << 30), "later");
		}
		C->s = nullptr; C->db = nullptr;
	} catch(const std::exception& ex) { fail("unexpected exception", std::string(C->phase) + ": " + ex.what()); }
}
static void run() {
	static Ctx ctx; C = &ctx;
	ctx.m = sim::add_machine("db"); ctx.rw = new std::shared_mutex();
	// neighbours in every byte of the key
	hash_t h("contract");
	std::vector<addr_t> all;
	all.push_back(addr_t(h));
	for(int i : {0, 18, 19}) for(int d : {1, 255}) { addr_t x(h); x.bytes[i] += d; all.push_back(x); }
	{ addr_t x; all.push_back(x); x.bytes.fill(0xff); all.push_back(x); x.bytes[19] = 0; all.push_back(x); }
	contracts.clear(); currencies = {addr_t(), addr_t(hash_t("a")), addr_t(hash_t("b"))};
	const int n = 2 + W(6);
	for(int i = 0; i < n; ++i) { const int k = W(all.size()); contracts.push_back(all[k]); all.erase(all.begin() + k); }
	ctx.block_size = pick({400, 4 * 1024 * 1024, 150, 1000}); ctx.flush = pick({100000, 3, 8, 20}); ctx.levels = pick({4, 2, 3}); ctx.threads = 1 + W(3);
	sim::policy.preempt = pick({0.0, 0.1, 0.2}); sim::policy.pick_random = pick({0.0, 0.25, 0.5});
	sim::disk_faults.wbuf_min = 16; sim::disk_faults.wbuf_max = pick({4096, 256});
	const int sessions = 1 + W(4);
	for(int s = 0; s < sessions; ++s) {
		const int ops = 3 + W(20);
		const double rate = pick({0.0, 0.001, 0.01, 0.03});
		sim::disk_faults.active = rate > 0; sim::disk_faults.crash = rate; sim::disk_faults.budget = 1;
		auto f = sim::spawn(ctx.m, "session", [ops]() { session(ops); });
		sim::join(f);
		sim::disk_faults.active = false; sim::disk_faults.crash = 0;
		if(!ctx.m->alive) {
			sim::count(std::string("crash_in_") + ctx.phase);
			sim::restart(ctx.m);
			new (&ctx.db) std::shared_ptr<DataBase>(); new (&ctx.s) std::shared_ptr<StorageDB>(); ctx.rw = new std::shared_mutex();
		}
	}
	auto f = sim::spawn(ctx.m, "final", []() { try { open(); C->s = nullptr; C->db = nullptr; } catch(const std::exception& ex) { fail("unexpected exception", std::string("final ") + C->phase + ": " + ex.what()); } });
	sim::join(f);
	sim::finish();
}
}
#endif
