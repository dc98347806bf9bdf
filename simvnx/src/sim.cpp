// simvnx simulator core: fibers, scheduler, choice streams, pthread/time interposition.
#include <simvnx/sim.h>
#include <simvnx/sim_internal.h>

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <deque>

namespace sim {

const char* const stream_name[S_NUM] = {"work", "sched", "disk", "net", "misc"};
Policy policy;
std::function<void()> on_clock;
DiskFaults disk_faults;
uint64_t disk_ops = 0;
int64_t faults_injected = 0;
RunShared* g_shared = nullptr;
RunInput g_input;
int g_verbosity = 0;

// ------------------------------------------------------------------ rng
static inline uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct Stream {
	uint64_t rng = 0;
	uint32_t pos = 0;
	std::unordered_map<uint32_t, uint32_t> replay;
	std::vector<std::pair<uint32_t, uint32_t>> rec;
};
static Stream g_stream[S_NUM];
static uint64_t g_rnd = 0;

static uint32_t next_choice(stream_e s, uint32_t n, const std::function<uint32_t(uint64_t)>& gen)
{
	auto& st = g_stream[s];
	const auto idx = st.pos++;
	uint32_t v = 0;
	if(g_input.replay) {
		auto it = st.replay.find(idx);
		if(it != st.replay.end()) v = n ? it->second % n : 0;
	} else {
		const auto r = splitmix(st.rng);
		v = gen(r);
	}
	if(v) st.rec.emplace_back(idx, v);
	return v;
}
uint32_t draw(stream_e s, uint32_t n) {
	if(n <= 1) { g_stream[s].pos++; return 0; }
	return next_choice(s, n, [n](uint64_t r) { return uint32_t((r >> 11) % n); });
}
bool flip(stream_e s, double p) {
	return next_choice(s, 2, [p](uint64_t r) { return uint32_t(double(r >> 11) * (1.0 / 9007199254740992.0) < p ? 1 : 0); });
}
uint32_t draw_w(stream_e s, const std::vector<uint32_t>& w) {
	uint64_t sum = 0;
	for(auto x : w) sum += x;
	return next_choice(s, w.size(), [&](uint64_t r) {
		uint64_t k = (r >> 11) % sum;
		for(uint32_t i = 0; i < w.size(); ++i) { if(k < w[i]) return i; k -= w[i]; }
		return uint32_t(0);
	});
}
uint64_t rnd64() { return splitmix(g_rnd); }
uint64_t run_seed() { return g_input.seed; }

uint64_t hash64(const void* data, size_t n, uint64_t h) {
	auto p = (const uint8_t*)data;
	while(n >= 8) { uint64_t x; memcpy(&x, p, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; p += 8; n -= 8; }
	while(n--) { h = (h ^ *p++) * 0x100000001b3ull; }
	h ^= h >> 32;
	return h;
}

// ------------------------------------------------------------------ fibers
extern "C" void simvnx_switch(void** save, void* load);
asm(R"(
.text
.globl simvnx_switch
.type simvnx_switch,@function
simvnx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size simvnx_switch,.-simvnx_switch
)");

enum fstate_e { FS_READY, FS_RUNNING, FS_BLOCKED, FS_DONE, FS_DEAD };
struct EhGlobals { void* caught; unsigned int uncaught; };
extern "C" EhGlobals* __cxa_get_globals_fwd() asm("__cxa_get_globals");

struct Fiber {
	uint64_t id = 0;
	Machine* m = nullptr;
	uint64_t inc = 0;
	std::string name;
	fstate_e state = FS_READY;
	void* sp = nullptr;
	char* stack = nullptr;
	size_t stack_size = 0;
	EhGlobals eh = {nullptr, 0};
	std::function<void()> fn;
	const void* wait_key = nullptr;
	const char* what = "";
	bool timed_out = false;
	bool has_timer = false;
	std::multimap<std::pair<int64_t, uint64_t>, Fiber*>::iterator timer;
	void* thread_ret = nullptr;
	int saved_errno = 0;
};

static std::vector<Machine*> g_machines;
static std::vector<Fiber*> g_fibers;		// by id - 1
static std::deque<Fiber*> g_ready;
static std::multimap<std::pair<int64_t, uint64_t>, Fiber*> g_timers;
static std::unordered_map<const void*, std::deque<Fiber*>> g_waiters;
static Fiber* g_current = nullptr;
static void* g_sched_sp = nullptr;
static EhGlobals g_sched_eh = {nullptr, 0};
static int64_t g_now = 0;
static uint64_t g_steps = 0;
static uint64_t g_timer_seq = 0;
static std::vector<Machine*> g_crash_later;
static uint64_t g_trace_hash = 0x1234567;
static uint64_t g_sched_hash = 0x7654321;
static std::vector<char*> g_free_stacks;
static std::vector<std::string> g_log;
static std::map<std::string, uint64_t> g_counts;
static std::set<uint64_t> g_states;
static bool g_running = false;
static constexpr size_t STACK_SIZE = 1 << 20;

Fiber* current() { return g_current; }
uint64_t fiber_id() { return g_current ? g_current->id : 0; }
bool in_sim() { return g_current != nullptr; }
Machine* machine() { return g_current ? g_current->m : (g_machines.empty() ? nullptr : g_machines[0]); }
Machine* machine_by_id(int id) { return g_machines[id]; }
std::vector<Machine*> all_machines() { return g_machines; }
int64_t now_us() { return g_now; }
int verbosity() { return g_verbosity; }
bool fiber_dead(uint64_t id) { return id && id <= g_fibers.size() && (g_fibers[id - 1]->state == FS_DEAD || g_fibers[id - 1]->state == FS_DONE); }

Machine* add_machine(const std::string& name) {
	auto m = new Machine();
	m->id = g_machines.size();
	m->name = name;
	m->disk = std::make_shared<Disk>();
	g_machines.push_back(m);
	return m;
}

static void dump_choices_and_log();
void log_line(const std::string& line) {
	if(g_verbosity < 1) return;
	char pre[128];
	snprintf(pre, sizeof(pre), "[%12lld us] %s/%s: ", (long long)g_now, g_current ? g_current->m->name.c_str() : "-", g_current ? g_current->name.c_str() : "sched");
	if(g_input.log_stdout) { fprintf(stdout, "%s%s\n", pre, line.c_str()); fflush(stdout); }
	if(g_log.size() < 200000) g_log.push_back(std::string(pre) + line);
}
static void export_result(int status, const std::string& cls, const std::string& msg);

static void fiber_entry()
{
	auto f = g_current;
	f->fn();
	f->fn = nullptr;
	f->state = FS_DONE;
	wake_all(f);
	simvnx_switch(&f->sp, g_sched_sp);
	abort();
}

Fiber* spawn(Machine* m, const std::string& name, std::function<void()> fn)
{
	auto f = new Fiber();
	f->id = g_fibers.size() + 1;
	f->m = m; f->inc = m->inc; f->name = name; f->fn = std::move(fn);
	f->stack_size = STACK_SIZE;
	if(g_free_stacks.size()) {
		f->stack = g_free_stacks.back(); g_free_stacks.pop_back();
	} else {
		f->stack = (char*)mmap(nullptr, f->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(f->stack == MAP_FAILED) harness_error("mmap stack");
		mprotect(f->stack, 4096, PROT_NONE);
	}
	uint64_t* top = (uint64_t*)(f->stack + f->stack_size);
	*--top = 0;						// return address of entry
	*--top = (uint64_t)&fiber_entry;
	for(int i = 0; i < 6; ++i) *--top = 0;
	f->sp = top;
	g_fibers.push_back(f);
	g_ready.push_back(f);
	return f;
}

static void unblock(Fiber* f, bool timeout)
{
	if(f->state != FS_BLOCKED) return;
	if(f->has_timer) { g_timers.erase(f->timer); f->has_timer = false; }
	if(f->wait_key) {
		auto it = g_waiters.find(f->wait_key);
		if(it != g_waiters.end()) {
			auto& q = it->second;
			q.erase(std::remove(q.begin(), q.end(), f), q.end());
			if(q.empty()) g_waiters.erase(it);
		}
		f->wait_key = nullptr;
	}
	f->timed_out = timeout;
	f->state = FS_READY;
	g_ready.push_back(f);
}

static void fire_timers() {
	while(!g_timers.empty() && g_timers.begin()->first.first <= g_now) {
		unblock(g_timers.begin()->second, true);
	}
}

static void switch_to_sched()
{
	auto f = g_current;
	auto* eh = __cxa_get_globals_fwd();
	f->eh = *eh;
	f->saved_errno = errno;
	simvnx_switch(&f->sp, g_sched_sp);
	// resumed
	eh = __cxa_get_globals_fwd();
	*eh = f->eh;
	errno = f->saved_errno;
}

static void step()
{
	g_steps++;
	g_now += policy.step_us;
	if(g_steps > policy.max_steps) {
		std::string s;
		for(auto f : g_fibers) if(f->state <= FS_BLOCKED) s += " [" + std::to_string(f->id) + " " + f->m->name + "/" + f->name + " " + (f->state == FS_BLOCKED ? f->what : "runnable") + "]";
		violation("livelock", "no progress: step budget exhausted at simulated time " + std::to_string(g_now) + " us; fibers:" + s);
	}
	fire_timers();
}

static void do_crash(Machine* m)
{
	m->inc++;
	m->alive = false;
	trace("CRASH machine %s at %lld us", m->name.c_str(), (long long)g_now);
	for(auto f : g_fibers) {
		if(f->m == m && f->state <= FS_BLOCKED) {
			if(f->state == FS_BLOCKED) {
				if(f->has_timer) { g_timers.erase(f->timer); f->has_timer = false; }
				if(f->wait_key) {
					auto& q = g_waiters[f->wait_key];
					q.erase(std::remove(q.begin(), q.end(), f), q.end());
					if(q.empty()) g_waiters.erase(f->wait_key);
					f->wait_key = nullptr;
				}
			} else if(f->state == FS_READY) {
				g_ready.erase(std::remove(g_ready.begin(), g_ready.end(), f), g_ready.end());
			}
			f->state = FS_DEAD;
		}
	}
	for(auto f : std::vector<Fiber*>(g_fibers)) if(f->state == FS_DEAD && f->m == m) { wake_all(f); }
	m->process = std::shared_ptr<void>(m->process.get(), [](void*) {});	// never destroyed: user space vanished
	static std::vector<std::shared_ptr<void>> graveyard;
	if(m->on_crash) m->on_crash();
}

void crash(Machine* m)
{
	const bool self = g_current && g_current->m == m;
	do_crash(m);
	if(self) {
		simvnx_switch(&g_current->sp, g_sched_sp);
		abort();
	}
}
void crash_later(Machine* m) { g_crash_later.push_back(m); }
void restart(Machine* m) { m->alive = true; trace("RESTART machine %s at %lld us", m->name.c_str(), (long long)g_now); }

static void check_crash_later()
{
	while(!g_crash_later.empty()) {
		auto m = g_crash_later.back(); g_crash_later.pop_back();
		crash(m);
	}
}

std::string current_fiber_name() { return g_current ? g_current->name : std::string(); }
std::string fiber_report(Machine* m) {
	std::string s;
	for(auto f : g_fibers) if(f->m == m && f->state <= FS_BLOCKED) s += " [" + f->name + " " + (f->state == FS_BLOCKED ? f->what : "runnable") + "]";
	return s;
}

void point(const char* what)
{
	if(!g_current) return;
	step();
	if(!g_crash_later.empty()) check_crash_later();
	const double p_stall = policy.stall_task > 0 && !strcmp(what, "pool_task") ? policy.stall_task : policy.stall;
	if(p_stall > 0 && g_current->m && g_current->m->id > 0 && flip(S_SCHED, p_stall)) {
		g_counts["thread_stall"]++;
		sleep_us(1 + draw(S_SCHED, uint32_t(policy.stall_us)));
		return;
	}
	if(policy.preempt > 0 && !g_ready.empty()) {
		if(flip(S_SCHED, policy.preempt)) {
			auto f = g_current;
			f->state = FS_READY; f->what = what;
			const auto n = g_ready.size();
			const auto k = n > 1 ? draw(S_SCHED, n) : 0;
			if(k) { auto g = g_ready[k]; g_ready.erase(g_ready.begin() + k); g_ready.push_front(g); }
			g_ready.push_back(f);
			g_counts["preemptions"]++;
			switch_to_sched();
		}
	} else if(policy.preempt > 0) {
		g_stream[S_SCHED].pos++;
	}
}

void yield_now(const char* what)
{
	if(!g_current) return;
	step();
	if(!g_crash_later.empty()) check_crash_later();
	g_current->state = FS_READY; g_current->what = what;
	g_ready.push_back(g_current);
	switch_to_sched();
}

void block(const void* key, const char* what, int64_t timeout_us)
{
	if(!g_current) { if(timeout_us >= 0) return; harness_error(std::string("block() outside of a fiber: ") + what); }
	step();
	if(!g_crash_later.empty()) check_crash_later();
	auto f = g_current;
	f->state = FS_BLOCKED; f->what = what; f->timed_out = false;
	f->wait_key = key;
	if(key) g_waiters[key].push_back(f);
	if(timeout_us >= 0) {
		f->timer = g_timers.emplace(std::make_pair(g_now + timeout_us, g_timer_seq++), f);
		f->has_timer = true;
	}
	switch_to_sched();
}
bool timed_out() { return g_current->timed_out; }

void sleep_us(int64_t us) {
	if(!g_current) return;
	block(nullptr, "sleep", us < 0 ? 0 : us);
}
void wake_one(const void* key) {
	auto it = g_waiters.find(key);
	if(it == g_waiters.end() || it->second.empty()) return;
	auto& q = it->second;
	size_t k = 0;
	if(q.size() > 1 && policy.pick_random > 0 && flip(S_SCHED, policy.pick_random)) k = draw(S_SCHED, q.size());
	unblock(q[k], false);
}
void wake_all(const void* key) {
	while(true) {
		auto it = g_waiters.find(key);
		if(it == g_waiters.end() || it->second.empty()) return;
		unblock(it->second.front(), false);
	}
}
void join(Fiber* f) {
	while(f->state != FS_DONE && f->state != FS_DEAD) block(f, "join");
}
bool finished(Fiber* f) { return f->state == FS_DONE || f->state == FS_DEAD; }
bool was_killed(Fiber* f) { return f->state == FS_DEAD; }

bool wait_until(const std::function<bool()>& cond, int64_t timeout_us, int64_t poll_us) {
	const auto end = g_now + timeout_us;
	while(!cond()) {
		if(timeout_us >= 0 && g_now >= end) return false;
		sleep_us(timeout_us >= 0 ? std::min(poll_us, end - g_now) : poll_us);
	}
	return true;
}

static void sched_loop(Fiber* main_fiber)
{
	while(true) {
		if(main_fiber->state == FS_DONE) return;
		if(g_ready.empty()) {
			if(g_timers.empty()) {
				std::string s;
				for(auto f : g_fibers) if(f->state == FS_BLOCKED) s += " [" + std::to_string(f->id) + " " + f->m->name + "/" + f->name + " waits in " + f->what + "]";
				violation("deadlock", "all threads are blocked forever:" + s);
			}
			g_now = std::max(g_now, g_timers.begin()->first.first);
			fire_timers();
			continue;
		}
		size_t k = 0;
		if(g_ready.size() > 1 && policy.pick_random > 0) {
			if(flip(S_SCHED, policy.pick_random)) k = draw(S_SCHED, g_ready.size());
		}
		auto f = g_ready[k];
		g_ready.erase(g_ready.begin() + k);
		f->state = FS_RUNNING;
		g_current = f;
		g_sched_hash = hash64(&f->id, 8, g_sched_hash);
		auto* eh = __cxa_get_globals_fwd();
		g_sched_eh = *eh;
		*eh = f->eh;
		simvnx_switch(&g_sched_sp, f->sp);
		eh = __cxa_get_globals_fwd();
		*eh = g_sched_eh;
		g_current = nullptr;
		if(f->state == FS_DONE) {
			g_free_stacks.push_back(f->stack);
			f->stack = nullptr;
		}
	}
}

// ------------------------------------------------------------------ results
void count(const std::string& name, uint64_t n) { g_counts[name] += n; }
void state(uint64_t h) { if(g_states.size() < 4096) g_states.insert(h); }

static void vtrace(bool quiet, const char* fmt, va_list ap)
{
	char buf[4096];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	g_trace_hash = hash64(buf, strlen(buf), g_trace_hash);
	if(g_verbosity > (quiet ? 1 : 0)) {
		char pre[128];
		snprintf(pre, sizeof(pre), "[%12lld us] %s/%s: ", (long long)g_now, g_current ? g_current->m->name.c_str() : "-", g_current ? g_current->name.c_str() : "sched");
		if(g_input.log_stdout) { fprintf(stdout, "%s%s\n", pre, buf); fflush(stdout); }
		if(g_log.size() < 200000) g_log.push_back(std::string(pre) + buf);
	}
}
void trace(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(false, fmt, ap); va_end(ap); }
void trace_quiet(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(true, fmt, ap); va_end(ap); }

static void export_result(int status, const std::string& cls, const std::string& msg)
{
	auto* r = g_shared;
	if(!r) return;
	r->status = status;
	snprintf(r->cls, sizeof(r->cls), "%s", cls.c_str());
	snprintf(r->msg, sizeof(r->msg), "%s", msg.c_str());
	uint64_t h = g_trace_hash;
	h = hash64(&g_sched_hash, 8, h);
	h = hash64(&g_now, 8, h);
	h = hash64(cls, h);
	r->trace_hash = h;
	r->sched_hash = g_sched_hash;
	r->sim_us = g_now;
	r->steps = g_steps;
	std::string s;
	g_counts["faults_injected"] = faults_injected;
	g_counts["disk_ops"] = disk_ops;
	for(auto& e : g_counts) if(e.second) s += e.first + "=" + std::to_string(e.second) + "\n";
	snprintf(r->counts, sizeof(r->counts), "%s", s.c_str());
	r->n_states = 0;
	for(auto x : g_states) { if(r->n_states >= RunShared::MAX_STATES) break; r->states[r->n_states++] = x; }
	dump_choices_and_log();
}

static void dump_choices_and_log()
{
	if(g_input.choices_out.size()) {
		FILE* f = fopen(g_input.choices_out.c_str(), "wb");
		if(f) {
			for(int s = 0; s < S_NUM; ++s) for(auto& e : g_stream[s].rec) fprintf(f, "%d %u %u\n", s, e.first, e.second);
			fclose(f);
		}
	}
	if(g_input.log_out.size()) {
		FILE* f = fopen(g_input.log_out.c_str(), "wb");
		if(f) { for(auto& l : g_log) fprintf(f, "%s\n", l.c_str()); fclose(f); }
	}
}

void violation(const std::string& cls, const std::string& msg)
{
	trace("VIOLATION %s: %s", cls.c_str(), msg.c_str());
	export_result(R_VIOLATION, cls, msg);
	fflush(stdout);
	_exit(1);
}
void harness_error(const std::string& msg)
{
	trace("HARNESS ERROR: %s", msg.c_str());
	export_result(R_HARNESS, "harness", msg);
	fprintf(stderr, "HARNESS ERROR: %s\n", msg.c_str());
	_exit(3);
}
void finish()
{
	export_result(R_OK, "", "");
	fflush(stdout);
	_exit(0);
}

static void on_terminate()
{
	std::string msg = "std::terminate";
	if(auto ep = std::current_exception()) {
		try { std::rethrow_exception(ep); }
		catch(const std::exception& ex) { msg = std::string("uncaught exception: ") + ex.what(); }
		catch(...) { msg = "uncaught exception (unknown type)"; }
	}
	const std::string who = g_current ? g_current->m->name + "/" + g_current->name : "-";
	trace("TERMINATE in %s: %s", who.c_str(), msg.c_str());
	export_result(R_VIOLATION, "terminate", "process would abort: " + msg + " (thread " + who + ")");
	_exit(1);
}
static void on_signal(int sig)
{
	const std::string who = g_current ? g_current->m->name + "/" + g_current->name : "-";
	export_result(R_VIOLATION, "signal", std::string("process would die from signal ") + std::to_string(sig) + " (thread " + who + ")");
	_exit(1);
}

void run_in_sim(const std::function<void()>& fn)
{
	g_running = true;
	std::set_terminate(&on_terminate);
	stack_t ss = {};
	ss.ss_sp = mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	ss.ss_size = 1 << 18;
	sigaltstack(&ss, nullptr);
	for(int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
		struct sigaction sa = {};
		sa.sa_handler = &on_signal;
		sa.sa_flags = SA_ONSTACK;
		sigaction(sig, &sa, nullptr);
	}
	for(int s = 0; s < S_NUM; ++s) {
		g_stream[s].rng = g_input.seed * 0x9E3779B97F4A7C15ull + (s + 1) * 0xD1B54A32D192ED03ull;
		splitmix(g_stream[s].rng);
	}
	for(auto& e : g_input.choices) g_stream[std::get<0>(e)].replay[std::get<1>(e)] = std::get<2>(e);
	g_rnd = g_input.seed ^ 0xABCDEF0123456789ull;
	g_now = 1000000;
	auto m = add_machine("harness");
	auto f = spawn(m, "main", fn);
	sched_loop(f);
	finish();
}

} // sim

namespace simvnx {
void spin_hint() { if(sim::in_sim()) sim::yield_now("spin"); }
}

// ------------------------------------------------------------------ interposition
using namespace sim;

namespace {
struct SMutex { uint64_t owner; uint32_t count; uint32_t pad; int kind; };
struct SRw { uint64_t writer; uint32_t readers; uint32_t pad; };
constexpr uint64_t OUTSIDE = 0xffffffffull;
inline uint64_t me() { return g_current ? g_current->id : OUTSIDE; }
}

extern "C" {

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	memset(m, 0, sizeof(*m));
	if(a) { int kind = 0; pthread_mutexattr_gettype(a, &kind); ((SMutex*)m)->kind = kind; }
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static int mutex_try(SMutex* m) {
	const auto id = me();
	if(m->owner && m->owner != id && m->owner != OUTSIDE && fiber_dead(m->owner)) { m->owner = 0; m->count = 0; }
	if(!m->owner) { m->owner = id; m->count = 1; return 0; }
	if(m->owner == id && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->count++; return 0; }
	return EBUSY;
}
int pthread_mutex_trylock(pthread_mutex_t* m_) {
	point("mutex_trylock");
	return mutex_try((SMutex*)m_);
}
int pthread_mutex_lock(pthread_mutex_t* m_) {
	auto m = (SMutex*)m_;
	point("mutex_lock");
	while(mutex_try(m)) {
		if(!g_current) { m->owner = OUTSIDE; m->count = 1; return 0; }
		block(m, "mutex_lock");
	}
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m_, const struct timespec*) { return pthread_mutex_lock(m_); }
int pthread_mutex_clocklock(pthread_mutex_t* m_, clockid_t, const struct timespec*) { return pthread_mutex_lock(m_); }
static void mutex_unlock_raw(SMutex* m) {
	if(m->count && --m->count) return;
	m->owner = 0; m->count = 0;
	wake_one(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m_) {
	mutex_unlock_raw((SMutex*)m_);
	point("mutex_unlock");
	return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait_us(pthread_cond_t* c, pthread_mutex_t* m_, int64_t timeout_us) {
	auto m = (SMutex*)m_;
	const auto cnt = m->count;
	m->owner = 0; m->count = 0;
	wake_one(m);
	bool to = false;
	if(policy.spurious > 0 && flip(S_SCHED, policy.spurious)) {
		yield_now("cond_spurious");
	} else {
		block(c, timeout_us >= 0 ? "cond_timedwait" : "cond_wait", timeout_us);
		to = g_current->timed_out;
	}
	while(mutex_try(m)) block(m, "mutex_lock(cond)");
	m->count = cnt ? cnt : 1;
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cond_wait_us(c, m, -1); return 0; }
static int64_t clock_us(clockid_t id) {
	if(id == CLOCK_REALTIME) return g_now + 1700000000000000ll + (machine() ? machine()->clock_offset_us : 0);
	return g_now;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
	const int64_t t = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000 - clock_us(CLOCK_REALTIME);
	return cond_wait_us(c, m, t < 0 ? 0 : t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
	const int64_t t = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000 - clock_us(id);
	return cond_wait_us(c, m, t < 0 ? 0 : t);
}
int pthread_cond_signal(pthread_cond_t* c) { wake_one(c); point("cond_signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { wake_all(c); point("cond_broadcast"); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l_) { auto l = (SRw*)l_; point("rdlock"); if(l->writer) return EBUSY; l->readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l_) { auto l = (SRw*)l_; point("wrlock"); if(l->writer || l->readers) return EBUSY; l->writer = me(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l_) {
	auto l = (SRw*)l_;
	point("rdlock");
	while(l->writer) block(l, "rwlock_rdlock");
	l->readers++;
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l_) {
	auto l = (SRw*)l_;
	point("wrlock");
	while(l->writer || l->readers) block(l, "rwlock_wrlock");
	l->writer = me();
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l_) {
	auto l = (SRw*)l_;
	if(l->writer) l->writer = 0; else if(l->readers) l->readers--;
	if(!l->writer && !l->readers) wake_all(l);
	point("rwlock_unlock");
	return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if(!g_current) { fprintf(stderr, "simvnx: pthread_create outside of the simulation\n"); return EAGAIN; }
	Fiber** slot = new Fiber*();
	auto f = spawn(machine(), "thread", [fn, arg, slot]() { void* r = fn(arg); (*slot)->thread_ret = r; });
	*slot = f;
	f->name = "thread" + std::to_string(f->id);
	*t = (pthread_t)f->id;
	point("pthread_create");
	return 0;
}
int pthread_join(pthread_t t, void** ret) {
	auto f = g_fibers[uint64_t(t) - 1];
	point("pthread_join");
	join(f);
	if(ret) *ret = f->thread_ret;
	return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) noexcept { return (pthread_t)me(); }
int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }

int nanosleep(const struct timespec* ts, struct timespec*) {
	if(!g_current) return 0;
	sleep_us(int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000);
	return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec*) {
	if(!g_current) return 0;
	int64_t t = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000;
	if(flags & TIMER_ABSTIME) t -= clock_us(id);
	sleep_us(t);
	return 0;
}
int get_nprocs(void) noexcept { return 4; }
int usleep(useconds_t us) { if(g_current) sleep_us(us); return 0; }
unsigned int sleep(unsigned int s) { if(g_current) sleep_us(int64_t(s) * 1000000); return 0; }
int sched_yield(void) noexcept { point("sched_yield"); return 0; }

int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if(!g_running) return syscall(SYS_clock_gettime, id, ts);
	if(on_clock && g_current) on_clock();
	const auto t = clock_us(id);
	if(g_current) g_now++;
	ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
	struct timespec ts;
	if(!g_running) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	else { const auto t = clock_us(CLOCK_REALTIME); ts.tv_sec = t / 1000000; ts.tv_nsec = (t % 1000000) * 1000; }
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t* out) noexcept {
	struct timeval tv; gettimeofday(&tv, nullptr);
	if(out) *out = tv.tv_sec;
	return tv.tv_sec;
}

// function-local statics: an initialiser that blocks must not dead-lock the OS thread
int simvnx_guard_acquire(void* g) asm("__cxa_guard_acquire");
int simvnx_guard_acquire(void* g) {
	auto b = (volatile uint8_t*)g;
	while(true) {
		if(b[0]) return 0;
		if(!b[1]) { b[1] = 1; return 1; }
		if(!g_current) return 1;
		block(g, "static_init");
	}
}
void simvnx_guard_release(void* g) asm("__cxa_guard_release");
void simvnx_guard_release(void* g) { auto b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; wake_all(g); }
void simvnx_guard_abort(void* g) asm("__cxa_guard_abort");
void simvnx_guard_abort(void* g) { auto b = (volatile uint8_t*)g; b[1] = 0; wake_all(g); }

} // extern C
