// Storage harness: mmx::Table / mmx::DataBase / typed tables on a simulated disk, against in-memory reference models.
#include <mmx/DataBase.h>
#include <mmx/table.h>
#include <mmx/multi_table.h>
#include <mmx/hash_t.hpp>
#include <simvnx/sim.h>
#include <shared_mutex>
#include <algorithm>

using namespace sim;
using mmx::db_val_t;
using mmx::Table;
typedef std::shared_ptr<db_val_t> val_t;

static val_t mk(const std::string& s) { return std::make_shared<db_val_t>(s); }
static std::string show(const std::string& s) { return vnx::to_hex_string(s.data(), std::min<size_t>(s.size(), 12)) + (s.size() > 12 ? ".." + std::to_string(s.size()) : ""); }
static std::string show(const val_t& v) { return v ? show(v->to_string()) : "(none)"; }

struct key_less { bool operator()(const std::string& a, const std::string& b) const { return a.size() != b.size() ? a.size() < b.size() : a < b; } };

// reference model of one table
struct TableModel {
	std::map<std::string, std::map<uint32_t, std::string>, key_less> data;
	void insert(uint32_t version, const std::string& k, const std::string& v) { data[k][version] = v; }
	void revert(uint32_t w) {
		for(auto it = data.begin(); it != data.end();) {
			it->second.erase(it->second.lower_bound(w), it->second.end());
			if(it->second.empty()) it = data.erase(it); else ++it;
		}
	}
	const std::string* find(const std::string& k, uint32_t max_version = -1) const {
		auto it = data.find(k);
		if(it == data.end()) return nullptr;
		auto v = it->second.upper_bound(max_version);
		if(max_version == uint32_t(-1)) v = it->second.end();
		if(v == it->second.begin()) return nullptr;
		return &(--v)->second;
	}
	const std::string& newest(const std::string& k) const { return data.at(k).rbegin()->second; }
};

struct Config {
	std::string prop;
	int tables = 1;
	bool use_db = true;
	int w_insert = 8, w_commit = 4, w_revert = 0, w_find = 2, w_hist = 0, w_scan = 0, w_reopen = 1, w_crash = 0, w_flush = 0, w_readers = 0;
	bool crash_faults = false, io_faults = false;
	int ops_min = 10, ops_max = 80;
};

struct DB {
	Config cfg;
	Machine* m = nullptr;
	std::string root = "simdb/";
	std::vector<TableModel> model, committed_model;	// current (with pending writes), state at last acknowledged commit
	uint32_t version = 0;
	std::vector<Table::options_t> opts;
	int threads = 2;
	mmx::DataBase* db = nullptr;
	std::vector<std::shared_ptr<Table>> tabs;
	// operation in flight (valid if the machine dies now)
	enum { NONE, COMMIT, REVERT } inflight = NONE;
	uint32_t inflight_version = 0;
	bool opened = false;
	uint64_t value_counter = 0;
	const char* phase = "";
	std::string key(int i) const {
		static const char* al = "abcdefghijklmnopqrstuvwxyz";
		std::string k;
		k += al[i % 7];
		if(i >= 7) k += al[(i / 7) % 5];
		if(i >= 35) k += char(i);
		return k;
	}
};

static DB* D = nullptr;
static std::shared_mutex* g_rw = nullptr;

static void verify_all(const char* when, bool scans);

static void fail(const std::string& cls, const std::string& msg) { violation(D->cfg.prop + ":" + cls, msg); }

static int count_files() { int n = 0; for(auto& e : D->m->disk->files) if(e.first.size() > 4 && e.first.substr(e.first.size() - 4) == ".dat") n++; return n; }

static void do_open()
{
	D->phase = "open";
	D->opened = false;
	D->tabs.clear();
	if(D->cfg.use_db) D->db = new mmx::DataBase(D->threads);
	for(int i = 0; i < D->cfg.tables; ++i) {
		auto t = std::make_shared<Table>(D->root + "t" + std::to_string(i), D->opts[i]);
		D->tabs.push_back(t);
		if(D->db) D->db->add(t);
	}
	uint32_t v = 0;
	if(D->db) v = D->db->recover(); else {
		v = -1;
		for(auto& t : D->tabs) v = std::min(v, t->current_version());
		for(auto& t : D->tabs) t->revert(v);
	}
	for(size_t i = 0; i < D->tabs.size(); ++i) if(D->tabs[i]->current_version() != v)
		fail("versions_differ", "after recovery table " + std::to_string(i) + " is at version " + std::to_string(D->tabs[i]->current_version()) + " but the database at " + std::to_string(v));
	if(D->db && D->db->version() != v) fail("versions_differ", "DataBase::version() differs from recover()");
	// which versions are legal now?
	if(D->inflight == DB::COMMIT && v == D->inflight_version) {
		count("inflight_commit_survived");
	} else if(D->inflight == DB::REVERT && v == D->inflight_version) {
		count("inflight_revert_survived");
		for(auto& t : D->model) t.revert(v);
	} else if(v == D->version) {
		for(auto& t : D->model) t.revert(v);		// pending writes are gone
		if(D->inflight != DB::NONE) count("inflight_rolled_back");
	} else {
		fail(v < D->version ? "lost_version" : "bad_version", "reopened at version " + std::to_string(v) + ", last acknowledged version is " + std::to_string(D->version)
			+ (D->inflight == DB::COMMIT ? ", commit in flight: " + std::to_string(D->inflight_version) : D->inflight == DB::REVERT ? ", revert in flight: " + std::to_string(D->inflight_version) : std::string()));
	}
	D->version = v;
	D->inflight = DB::NONE;
	D->opened = true;
	trace("opened at version %u, %d block files", v, count_files());
	verify_all("after reopening", true);
}

static void do_close()
{
	D->phase = "close";
	D->tabs.clear();
	delete D->db; D->db = nullptr;
	D->opened = false;
	trace("closed");
}

static void check_find(int t, const std::string& k, uint32_t max_version, const char* when)
{
	const auto got = max_version == uint32_t(-1) ? D->tabs[t]->find(mk(k)) : D->tabs[t]->find(mk(k), max_version);
	const auto* want = D->model[t].find(k, max_version);
	if(bool(got) != bool(want) || (got && got->to_string() != *want))
		fail(max_version == uint32_t(-1) ? "wrong_value" : "wrong_historical_value", std::string(when) + ": find(" + show(k) + (max_version == uint32_t(-1) ? "" : ", version " + std::to_string(max_version)) + ") in table " + std::to_string(t)
			+ " returned " + show(got) + " instead of " + (want ? show(*want) : "(none)") + " at version " + std::to_string(D->version));
}

// reference cursor over the model
struct Cursor {
	const TableModel& t;
	typedef decltype(TableModel::data)::const_iterator it_t;
	it_t it;
	bool valid = false;
	Cursor(const TableModel& m) : t(m), it(m.data.end()) {}
	void set(it_t i) { it = i; valid = it != t.data.end(); }
	void last_before(it_t i) { if(i == t.data.begin()) valid = false; else { it = --i; valid = true; } }
	void begin() { set(t.data.begin()); }
	void last() { last_before(t.data.end()); }
	void seek(const std::string& k) { set(t.data.lower_bound(k)); }
	void seek_next(const std::string& k) { set(t.data.upper_bound(k)); }
	void seek_prev(const std::string& k) { last_before(t.data.lower_bound(k)); }
	void seek_for_prev(const std::string& k) { last_before(t.data.upper_bound(k)); }
	void next() { set(std::next(it)); }
	void prev() { last_before(it); }
};
static void check_cursor(const Table::Iterator& iter, const Cursor& c, int t, const std::string& what)
{
	if(iter.is_valid() != c.valid)
		fail("scan_mismatch", what + " in table " + std::to_string(t) + ": iterator is " + (iter.is_valid() ? "valid at " + show(iter.key()) : std::string("at the end")) + " but the reference is " + (c.valid ? "at " + show(c.it->first) : std::string("at the end")));
	if(!c.valid) return;
	if(iter.key()->to_string() != c.it->first) fail("scan_mismatch", what + " in table " + std::to_string(t) + ": iterator is at key " + show(iter.key()) + " but the reference is at " + show(c.it->first));
	if(iter.value()->to_string() != c.it->second.rbegin()->second) fail("scan_value", what + " in table " + std::to_string(t) + ": key " + show(c.it->first) + " has value " + show(iter.value()) + " instead of " + show(c.it->second.rbegin()->second));
	if(iter.version() != c.it->second.rbegin()->first) fail("scan_version", what + ": key " + show(c.it->first) + " has version " + std::to_string(iter.version()) + " instead of " + std::to_string(c.it->second.rbegin()->first));
}

static void verify_table(int t, const char* when, bool scans)
{
	for(int i = 0; i < 60; ++i) check_find(t, D->key(i), -1, when);
	if(!scans) return;
	{
		Table::Iterator iter(D->tabs[t].get());
		Cursor c(D->model[t]);
		for(iter.seek_begin(), c.begin(); ; iter.next(), c.next()) { check_cursor(iter, c, t, std::string(when) + ": forward scan"); if(!c.valid) break; }
	}
	{
		Table::Iterator iter(D->tabs[t].get());
		Cursor c(D->model[t]);
		for(iter.seek_last(), c.last(); ; iter.prev(), c.prev()) { check_cursor(iter, c, t, std::string(when) + ": backward scan"); if(!c.valid) break; }
	}
}
static void verify_history(const char* when)
{
	for(int t = 0; t < D->cfg.tables; ++t) for(auto& e : D->model[t].data) {
		uint32_t v = 0;
		for(auto& f : e.second) {
			if(f.first) check_find(t, e.first, f.first - 1, when);
			check_find(t, e.first, f.first, when);
			v = f.first;
		}
		check_find(t, e.first, v + 1, when);
	}
}
static void verify_all(const char* when, bool scans)
{
	for(int t = 0; t < D->cfg.tables; ++t) verify_table(t, when, scans);
	if(D->cfg.w_hist || D->cfg.w_revert) verify_history(when);
}

static void do_commit(uint32_t nv)
{
	D->phase = "commit";
	D->inflight = DB::COMMIT; D->inflight_version = nv;
	trace("commit(%u)", nv);
	if(D->db) D->db->commit(nv);
	else for(auto& t : D->tabs) t->commit(nv);
	D->version = nv;
	D->inflight = DB::NONE;
	for(size_t i = 0; i < D->tabs.size(); ++i) if(D->tabs[i]->current_version() != nv) fail("commit_version", "table " + std::to_string(i) + " is at version " + std::to_string(D->tabs[i]->current_version()) + " after commit(" + std::to_string(nv) + ")");
}
static void do_revert(uint32_t w)
{
	D->phase = "revert";
	D->inflight = DB::REVERT; D->inflight_version = w;
	trace("revert(%u) from %u", w, D->version);
	if(D->db) D->db->revert(w);
	else for(auto& t : D->tabs) t->revert(w);
	for(auto& t : D->model) t.revert(w);
	D->version = w;
	D->inflight = DB::NONE;
	for(size_t i = 0; i < D->tabs.size(); ++i) if(D->tabs[i]->current_version() != w) fail("revert_version", "table " + std::to_string(i) + " is at version " + std::to_string(D->tabs[i]->current_version()) + " after revert(" + std::to_string(w) + ")");
}

static void scan_ops(uint32_t a, uint32_t b, uint32_t n)
{
	D->phase = "scan";
	const int t = a % D->cfg.tables;
	Table::Iterator iter(D->tabs[t].get());
	Cursor c(D->model[t]);
	const auto k = D->key(b % 60);
	const uint32_t mode = (a / 8) % 6;
	std::string what;
	switch(mode) {
		case 0: iter.seek_begin(); c.begin(); what = "seek_begin"; break;
		case 1: iter.seek_last(); c.last(); what = "seek_last"; break;
		case 2: iter.seek(mk(k)); c.seek(k); what = "seek(" + show(k) + ")"; break;
		case 3: iter.seek_next(mk(k)); c.seek_next(k); what = "seek_next(" + show(k) + ")"; break;
		case 4: iter.seek_prev(mk(k)); c.seek_prev(k); what = "seek_prev(" + show(k) + ")"; break;
		case 5: iter.seek_for_prev(mk(k)); c.seek_for_prev(k); what = "seek_for_prev(" + show(k) + ")"; break;
	}
	count("scan_" + what.substr(0, what.find('(')));
	trace("scan table %d %s", t, what.c_str());
	check_cursor(iter, c, t, what);
	uint32_t r = n * 2654435761u + a;
	int dir = 0;
	for(int i = 0; i < 12 && c.valid; ++i) {
		r = r * 1664525 + 1013904223;
		const bool fwd = (r >> 28) < (mode == 1 || mode >= 4 ? 5 : 11);
		if(dir && fwd != (dir > 0)) count("scan_direction_change");
		dir = fwd ? 1 : -1;
		if(fwd) { iter.next(); c.next(); what += " next"; }
		else { iter.prev(); c.prev(); what += " prev"; }
		check_cursor(iter, c, t, what);
	}
}

static void readers(uint32_t a, uint32_t b)
{
	D->phase = "readers";
	// concurrent readers (shared lock) while this thread keeps inserting and committing (exclusive lock), as the node does
	count("reader_phases");
	const int n = 2 + a % 3;
	std::vector<std::thread> th;
	for(int i = 0; i < n; ++i) th.emplace_back([i, a, b]() {
		uint32_t r = a * 7919 + b * 104729 + i * 15485863;
		for(int j = 0; j < 6; ++j) {
			r = r * 1664525 + 1013904223;
			std::shared_lock<std::shared_mutex> lock(*g_rw);
			const int t = (r >> 8) % D->cfg.tables;
			if((r >> 30) == 0) {
				Table::Iterator iter(D->tabs[t].get());
				Cursor c(D->model[t]);
				const auto k = D->key((r >> 12) % 60);
				iter.seek(mk(k)); c.seek(k);
				for(int s = 0; ; ++s) { check_cursor(iter, c, t, "concurrent scan"); if(!c.valid || s > 10) break; iter.next(); c.next(); }
			} else if((r >> 30) == 1 && D->version) {
				check_find(t, D->key((r >> 12) % 60), (r >> 18) % D->version, "concurrent historical read");
			} else {
				check_find(t, D->key((r >> 12) % 60), -1, "concurrent read");
			}
			count("concurrent_reads");
		}
	});
	uint32_t r = b * 2654435761u + a;
	for(int j = 0; j < 3; ++j) {
		std::unique_lock<std::shared_mutex> lock(*g_rw);
		for(int k = 0; k < 3; ++k) {
			r = r * 1664525 + 1013904223;
			const int t = (r >> 8) % D->cfg.tables;
			const auto key = D->key((r >> 12) % 60);
			const auto value = std::to_string(++D->value_counter) + std::string((r >> 20) % 60, 'r');
			D->tabs[t]->insert(mk(key), mk(value));
			D->model[t].insert(D->version, key, value);
		}
		do_commit(D->version + 1);
	}
	for(auto& t : th) t.join();
}

static void session(int ops)
{
	try {
		do_open();
		for(int i = 0; i < ops; ++i) {
			const auto& c = D->cfg;
			const uint32_t op = draw_w(S_WORK, {uint32_t(c.w_insert), uint32_t(c.w_commit), uint32_t(c.w_revert), uint32_t(c.w_find), uint32_t(c.w_hist), uint32_t(c.w_scan), uint32_t(c.w_reopen), uint32_t(c.w_crash), uint32_t(c.w_flush), uint32_t(c.w_readers)});
			const uint32_t a = draw(S_WORK, 1 << 16), b = draw(S_WORK, 1 << 16), n = draw(S_WORK, 1 << 16);
			switch(op) {
				case 0: {
					const int num = 1 + n % 6;
					for(int j = 0; j < num; ++j) {
						const int t = (a + j) % c.tables;
						const auto key = D->key((b + j * 7 * (a % 3 + 1)) % 60);
						auto value = std::to_string(++D->value_counter) + ":" + std::string(((b / 60 + j * 13) % 9) * ((n / 8) % 12), char('A' + D->value_counter % 26));
						if((n + j) % 97 == 96) value.clear();
						D->phase = "insert";
						D->model[t].insert(D->version, key, value);
						D->tabs[t]->insert(mk(key), mk(value));
						trace_quiet("insert t%d %s v%u", t, show(key).c_str(), D->version);
					}
					count("inserts", num);
					break;
				}
				case 1: do_commit(D->version + 1 + (n % 10 == 9 ? a % 5 : 0)); count("commits"); count("nontrivial"); break;
				case 2: {
					const uint32_t span = n % 4 == 3 ? D->version + 1 : std::min<uint32_t>(D->version + 1, 6);
					do_revert(D->version - a % span);
					count("reverts");
					verify_all("after revert", true);
					break;
				}
				case 3: check_find(a % c.tables, D->key(b % 60), -1, "read"); count("reads"); break;
				case 4: for(int j = 0; j < 4; ++j) check_find((a + j) % c.tables, D->key((b + j) % 60), (n + j * 3) % (D->version + 3), "historical read"); count("historical_reads", 4); break;
				case 5: scan_ops(a, b, n); break;
				case 6: do_close(); do_open(); count("clean_restarts"); break;
				case 7: trace("kill"); count("kills"); crash(D->m); break;
				case 8: {
					const int t = a % c.tables;
					D->phase = "flush";
					if(D->model[t].data.empty()) break;
					do_commit(D->version + 1);
					D->tabs[t]->flush();
					trace("flush table %d", t);
					count("explicit_flushes");
					break;
				}
				case 9: readers(a, b); break;
			}
			uint64_t h = op * 1000003ull + std::min(count_files(), 40) * 101 + D->inflight;
			h = h * 31 + std::min<uint32_t>(D->version, 20);
			state(h);
		}
		verify_all("at the end", true);
		do_close();
	}
	catch(const std::exception& ex) {
		if(D->cfg.io_faults && faults_injected) {
			// the failure was reported; the user restarts the program
			count("errors_reported");
			count(std::string("error_reported_in_") + D->phase);
			trace("operation %s reported: %s", D->phase, ex.what());
			crash(D->m);
		}
		fail("unexpected_exception", std::string("operation ") + D->phase + " failed with: " + ex.what());
	}
}

static void run_db(Config cfg)
{
	static DB d;
	D = &d;
	d.cfg = cfg;
	g_rw = new std::shared_mutex();
	d.m = add_machine("db");
	d.model.resize(cfg.tables);
	d.threads = 1 + draw(S_WORK, 4);
	for(int i = 0; i < cfg.tables; ++i) {
		Table::options_t o;
		const uint32_t x = draw(S_WORK, 6);
		static const size_t bs[] = {400, 4 * 1024 * 1024, 150, 1000, 3000, 60};
		o.max_block_size = bs[x];
		o.level_factor = 1 + (2 + draw(S_WORK, 4)) % 4;
		const uint32_t y = draw(S_WORK, 4);
		o.force_flush_threshold = y == 0 ? 100000 : y == 1 ? 3 : y == 2 ? 8 : 20;
		d.opts.push_back(o);
	}
	policy.preempt = draw(S_MISC, 3) * 0.1;
	policy.pick_random = draw(S_MISC, 3) * 0.25;
	disk_faults.wbuf_min = 16; disk_faults.wbuf_max = draw(S_MISC, 2) ? 4096 : 256;
	const int sessions = 1 + draw(S_WORK, 4);
	for(int s = 0; s < sessions; ++s) {
		const int ops = cfg.ops_min + draw(S_WORK, cfg.ops_max - cfg.ops_min);
		const uint32_t rate = draw(S_MISC, 5);
		if(cfg.crash_faults) {
			static const double rates[] = {0, 0.002, 0.01, 0.03, 0.1};
			disk_faults.active = rate > 0;
			disk_faults.crash = rates[rate];
			disk_faults.budget = 1;
		}
		if(cfg.io_faults) {
			static const double rates[] = {0, 0.005, 0.02, 0.06, 0.15};
			disk_faults.active = true;
			const uint32_t kinds = 1 + draw(S_MISC, 15);
			disk_faults.eio = kinds & 1 ? rates[rate] : 0;
			disk_faults.enospc = kinds & 2 ? rates[rate] : 0;
			disk_faults.short_write = kinds & 4 ? rates[rate] : 0;
			disk_faults.budget = 1 + draw(S_MISC, 3);
			d.m->disk->capacity = kinds & 8 ? d.m->disk->used() + 200 + draw(S_MISC, 4000) : uint64_t(-1);
			if(kinds & 8) { faults_injected++; count("fault_disk_full_limit"); }
		}
		auto f = spawn(d.m, "session", [ops]() { session(ops); });
		join(f);
		disk_faults = [] { auto x = disk_faults; x.crash = x.eio = x.enospc = x.short_write = 0; x.active = false; return x; }();
		d.m->disk->capacity = -1;
		if(!d.m->alive || d.m->inc != 1) {
			if(!d.m->alive) { count("crash_in_" + std::string(d.phase)); restart(d.m); d.db = nullptr; new (&d.tabs) std::vector<std::shared_ptr<Table>>(); delete g_rw; g_rw = new std::shared_mutex(); }
		}
	}
	// final reopen without faults
	auto f = spawn(d.m, "final", []() { try { do_open(); do_close(); } catch(const std::exception& ex) { fail("cannot_reopen", ex.what()); } });
	join(f);
	finish();
}

static void C01() { Config c; c.prop = "C01"; c.tables = 1 + draw(S_WORK, 2); c.use_db = draw(S_WORK, 4) != 3; if(!c.use_db) c.tables = 1; c.w_revert = 1; c.w_crash = 1; c.w_flush = 1; c.crash_faults = true; c.ops_max = 60; run_db(c); }
static void C02() { Config c; c.prop = "C02"; c.tables = 2 + draw(S_WORK, 4); c.w_commit = 6; c.w_revert = 1; c.w_crash = 1; c.w_reopen = 1; c.crash_faults = true; c.ops_max = 50; run_db(c); }
static void C03() { Config c; c.prop = "C03"; c.tables = 1 + draw(S_WORK, 3); c.w_commit = 6; c.w_revert = 4; c.w_flush = 2; c.w_hist = 1; c.w_scan = 1; c.crash_faults = draw(S_WORK, 3) != 0; c.ops_max = 60; run_db(c); }
static void C04() { Config c; c.prop = "C04"; c.tables = 1 + draw(S_WORK, 2); c.w_commit = 5; c.w_flush = 1; c.w_hist = 4; c.w_find = 3; c.w_revert = draw(S_WORK, 2); c.w_readers = 2; run_db(c); }
static void C05() { Config c; c.prop = "C05"; c.tables = 1; c.w_commit = 4; c.w_flush = 1; c.w_scan = 12; c.w_find = 0; c.w_revert = draw(S_WORK, 2); c.w_crash = draw(S_WORK, 2); c.crash_faults = c.w_crash; run_db(c); }
static void C07() { Config c; c.prop = "C07"; c.tables = 1 + draw(S_WORK, 2); c.use_db = false; c.w_revert = 1; c.w_flush = 1; c.io_faults = true; c.ops_max = 50; run_db(c); }

// ------------------------------------------------------------------ C06: multi value tables
namespace multi {
typedef mmx::uint_multi_table<uint32_t, uint64_t> A_t;
typedef mmx::hash_uint_multi_table<mmx::hash_t, uint32_t, uint64_t> B_t;
typedef std::pair<mmx::hash_t, uint32_t> bkey_t;
struct Model {
	std::map<uint32_t, std::vector<std::pair<uint32_t, uint64_t>>> a;		// key -> [(version, value)]
	std::map<bkey_t, std::vector<std::pair<uint32_t, uint64_t>>> b;
	template<typename M> static void rv(M& m, uint32_t w) { for(auto it = m.begin(); it != m.end();) { auto& v = it->second; while(v.size() && v.back().first >= w) v.pop_back(); if(v.empty()) it = m.erase(it); else ++it; } }
	void revert(uint32_t w) { rv(a, w); rv(b, w); }
};
struct S {
	Machine* m;
	Model model;
	uint32_t version = 0;
	int inflight = 0; uint32_t inflight_version = 0;
	mmx::DataBase* db = nullptr;
	A_t* a = nullptr; B_t* b = nullptr;
	const char* phase = "";
	uint64_t ctr = 0;
};
static S* s = nullptr;
static void fail(const std::string& cls, const std::string& msg) { violation("C06:" + cls, msg); }
static uint32_t akey(uint32_t i) { static const uint32_t k[] = {0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0xfffffffe, 0xffffffff}; return k[i % 10]; }
static bkey_t bkey(uint32_t i) { mmx::hash_t h; h.bytes[0] = i % 3; h.bytes[31] = (i / 3) % 2; return bkey_t(h, akey(i / 6)); }
static std::string list(const std::vector<uint64_t>& v) { std::string o = "["; for(auto x : v) o += std::to_string(x) + " "; return o + "]"; }
template<typename M> static std::vector<uint64_t> vals(const M& m, const typename M::key_type& k) { std::vector<uint64_t> o; auto it = m.find(k); if(it != m.end()) for(auto& e : it->second) o.push_back(e.second); return o; }
static void expect(const char* what, const std::vector<uint64_t>& got, const std::vector<uint64_t>& want) {
	if(got != want) fail("wrong_values", std::string(what) + " returned " + list(got) + " instead of " + list(want) + " at version " + std::to_string(s->version));
}
template<typename T, typename M, typename K> static void check_key(const T& t, const M& m, const K& k) {
	std::vector<uint64_t> got;
	const auto want = vals(m, k);
	const auto n = t.find(k, got);
	expect("find()", got, want);
	if(n != got.size()) fail("count", "find() return value");
	if(t.count(k) != want.size()) fail("count", "count() returned " + std::to_string(t.count(k)) + " instead of " + std::to_string(want.size()));
}
template<typename T, typename M, typename K> static void check_more(const T& t, const M& m, const K& k, const K& k2, size_t limit) {
	std::vector<uint64_t> got, want = vals(m, k);
	std::reverse(want.begin(), want.end());
	if(want.size() > limit) want.resize(limit);
	t.find_last(k, got, limit);
	expect("find_last()", got, want);
	want.clear();
	for(auto it = m.lower_bound(k); it != m.end(); ++it) for(auto& e : it->second) want.push_back(e.second);
	t.find(k, got, true);
	expect("find(greater_equal)", got, want);
	want.clear();
	std::vector<std::pair<K, uint64_t>> wp, gp;
	if(k < k2) for(auto it = m.lower_bound(k); it != m.end() && it->first < k2; ++it) for(auto& e : it->second) { want.push_back(e.second); wp.emplace_back(it->first, e.second); }
	if(k < k2) {
		t.find_range(k, k2, got);
		expect("find_range()", got, want);
		t.find_range(k, k2, gp);
		if(gp != wp) fail("wrong_values", "find_range(pairs) differs");
	}
}
template<typename T, typename M> static void check_scan(const T& t, const M& m) {
	std::vector<std::pair<typename M::key_type, uint64_t>> got, want;
	for(auto& e : m) for(auto& f : e.second) want.emplace_back(e.first, f.second);
	t.scan([&](const typename M::key_type& k, const uint64_t& v) { got.emplace_back(k, v); return true; });
	if(got != want) fail("scan", "scan() returned " + std::to_string(got.size()) + " entries, expected " + std::to_string(want.size()) + " (or in a different order)");
}
static void verify() {
	for(int i = 0; i < 10; ++i) check_key(*s->a, s->model.a, akey(i));
	for(int i = 0; i < 60; i += 1) check_key(*s->b, s->model.b, bkey(i));
	check_scan(*s->a, s->model.a);
	check_scan(*s->b, s->model.b);
}
static void open() {
	s->phase = "open";
	s->db = new mmx::DataBase(2);
	s->a = new A_t(); s->b = new B_t();
	s->db->open_async(*s->a, "simdb/a");
	s->db->open_async(*s->b, "simdb/b");
	s->db->sync();
	if(!s->a->get_impl() || !s->b->get_impl()) fail("cannot_reopen", "a table failed to open");
	const auto v = s->db->recover();
	if(s->inflight == 1 && v == s->inflight_version) {}
	else if(s->inflight == 2 && v == s->inflight_version) s->model.revert(v);
	else if(v == s->version) s->model.revert(v);
	else fail("lost_version", "reopened at version " + std::to_string(v) + " instead of " + std::to_string(s->version));
	s->version = v; s->inflight = 0;
	trace("opened at version %u", v);
	verify();
}
static void close() { delete s->a; delete s->b; delete s->db; s->a = nullptr; s->b = nullptr; s->db = nullptr; }
static void commit() {
	s->phase = "commit";
	s->inflight = 1; s->inflight_version = s->version + 1;
	trace("commit %u", s->version + 1);
	s->db->commit(s->version + 1);
	s->version++; s->inflight = 0;
}
static void session(int ops) {
	try {
		open();
		for(int i = 0; i < ops; ++i) {
			const uint32_t op = draw_w(S_WORK, {8, 4, 1, 2, 2, 1, 1});
			const uint32_t a = draw(S_WORK, 1 << 16), b = draw(S_WORK, 1 << 16), n = draw(S_WORK, 1 << 16);
			switch(op) {
				case 0: {
					s->phase = "insert";
					std::vector<uint64_t> v;
					const int num = n % 4 == 3 ? n / 4 % 12 : 1;
					for(int j = 0; j < num; ++j) v.push_back((n >> 8) % 5 == 0 ? 7 : ++s->ctr);
					if(a & 1) {
						const auto k = akey(b);
						if(num == 1) s->a->insert(k, v[0]); else s->a->insert_many(k, v);
						for(auto x : v) s->model.a[k].emplace_back(s->version, x);
						if(s->model.a[k].empty()) s->model.a.erase(k);
						trace_quiet("insert a[%u] x%d", k, num);
					} else {
						const auto k = bkey(b);
						if(num == 1) s->b->insert(k, v[0]); else s->b->insert_many(k, v);
						for(auto x : v) s->model.b[k].emplace_back(s->version, x);
						if(s->model.b[k].empty()) s->model.b.erase(k);
						trace_quiet("insert b x%d", num);
					}
					count("appends", num);
					break;
				}
				case 1: commit(); count("commits"); count("nontrivial"); break;
				case 2: {
					s->phase = "revert";
					const auto w = s->version - a % (std::min<uint32_t>(s->version, 5) + 1);
					s->inflight = 2; s->inflight_version = w;
					trace("revert %u", w);
					s->db->revert(w);
					s->model.revert(w); s->version = w; s->inflight = 0;
					count("reverts");
					verify();
					break;
				}
				case 3:
					commit();
					s->phase = "flush";
					trace("flush");
					if(a & 1) s->a->flush(); else s->b->flush();
					count("flushes");
					break;
				case 4:
					s->phase = "read";
					check_key(*s->a, s->model.a, akey(a)); check_more(*s->a, s->model.a, akey(a), akey(b), 1 + n % 5);
					check_key(*s->b, s->model.b, bkey(b)); check_more(*s->b, s->model.b, bkey(a), bkey(b), 1 + n % 5);
					count("reads");
					break;
				case 5: close(); open(); count("clean_restarts"); break;
				case 6: trace("kill"); count("kills"); crash(s->m); break;
			}
			state(op * 7919 + std::min<uint32_t>(s->version, 30) * 31 + std::min<size_t>(s->m->disk->files.size(), 20));
		}
		verify();
		close();
	} catch(const std::exception& ex) { fail("unexpected_exception", std::string("operation ") + s->phase + " failed with: " + ex.what()); }
}
static void run() {
	static S st; s = &st;
	s->m = add_machine("db");
	policy.preempt = draw(S_MISC, 3) * 0.1;
	policy.pick_random = draw(S_MISC, 3) * 0.25;
	disk_faults.wbuf_min = 16; disk_faults.wbuf_max = 512;
	const int sessions = 1 + draw(S_WORK, 4);
	for(int i = 0; i < sessions; ++i) {
		const int ops = 10 + draw(S_WORK, 60);
		static const double rates[] = {0, 0.002, 0.01, 0.03, 0.1};
		const uint32_t r = draw(S_MISC, 5);
		disk_faults.active = r > 0; disk_faults.crash = rates[r]; disk_faults.budget = 1;
		join(spawn(s->m, "session", [ops]() { session(ops); }));
		disk_faults.active = false;
		if(!s->m->alive) { count(std::string("crash_in_") + s->phase); restart(s->m); }
	}
	join(spawn(s->m, "final", []() { try { open(); close(); } catch(const std::exception& ex) { fail("cannot_reopen", ex.what()); } }));
	finish();
}
}

int main(int argc, char** argv)
{
	const std::string rule = "distinct (operation, number of block files, version) states; runs differ in operations, schedule and fault placement (distinct trace hashes)";
	return driver_main(argc, argv, {
		{"C01", C01, rule}, {"C02", C02, rule}, {"C03", C03, rule}, {"C04", C04, rule}, {"C05", C05, rule}, {"C06", multi::run, rule}, {"C07", C07, rule},
	});
}
