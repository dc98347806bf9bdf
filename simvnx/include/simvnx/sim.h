// simvnx: deterministic simulator core.
//  * all threads of the code under test are fibers on ONE OS thread,
//  * every scheduling decision, fault, delay and random number comes from a recorded choice stream,
//  * one seed == one exactly repeatable execution; a replay file stores the non-default choices only.
#ifndef SIMVNX_SIM_H
#define SIMVNX_SIM_H

#include <cstdint>
#include <cstddef>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choice streams
enum stream_e { S_WORK, S_SCHED, S_DISK, S_NET, S_MISC, S_NUM };
extern const char* const stream_name[S_NUM];

uint32_t draw(stream_e s, uint32_t n);			// uniform in [0,n), 0 is the "benign" value; recorded
bool flip(stream_e s, double p);				// recorded coin, false is benign
uint32_t draw_w(stream_e s, const std::vector<uint32_t>& weights);	// weighted, index 0 benign
uint64_t rnd64();								// unrecorded seeded randomness (identical in every replay of a seed)
uint64_t run_seed();

// ---------------------------------------------------------------- machines and fibers
struct Disk;
struct Machine {
	int id = 0;
	std::string name;
	bool alive = true;
	uint64_t inc = 1;					// incarnation, increases on every crash
	std::shared_ptr<Disk> disk;
	int64_t clock_offset_us = 0;		// wall clock skew
	std::shared_ptr<void> process;		// simvnx process state (config, topics, services)
	double crash_prob = 0;				// per disk operation
	double io_error_prob = 0;
	bool crash_enabled = false;
	std::function<void()> on_crash;
};

struct Fiber;
Machine* add_machine(const std::string& name);
Machine* machine();						// of the current fiber
Machine* machine_by_id(int id);
std::vector<Machine*> all_machines();
Fiber* current();
uint64_t fiber_id();
bool in_sim();

Fiber* spawn(Machine* m, const std::string& name, std::function<void()> fn);
void join(Fiber* f);
bool finished(Fiber* f);
void crash(Machine* m);					// kill every fiber of m at once; does not return if the caller runs on m
void crash_later(Machine* m);			// crash m at the next scheduling point of any fiber
void restart(Machine* m);

void point(const char* what);			// scheduling point (may switch to another fiber)
void sleep_us(int64_t us);
int64_t now_us();						// simulated monotonic time
void block(const void* key, const char* what, int64_t timeout_us = -1);	// wait until woken; returns
bool timed_out();						// did the last block() of this fiber time out?
void wake_one(const void* key);
void wake_all(const void* key);
bool wait_until(const std::function<bool()>& cond, int64_t timeout_us, int64_t poll_us = 1000);
std::string fiber_report(Machine* m);	// what the fibers of a machine are waiting for
bool idle(int64_t max_us);				// run the others until nothing is runnable before now+max_us (returns true) 

// ---------------------------------------------------------------- schedule policy (set by the harness at run start)
struct Policy {
	double preempt = 0.0;				// probability to switch at a scheduling point
	double pick_random = 0.0;			// probability to pick a random ready fiber instead of FIFO when the current one blocks
	uint64_t max_steps = 20000000;
	int64_t step_us = 1;				// simulated cost of one scheduling point
	double spurious = 0.0;				// spurious condition variable wakeups
	double stall = 0.0;					// probability that a fiber (not of machine 0) stops for up to stall_us at a scheduling point
	double stall_task = 0.0;			// additional probability when a pool thread starts a task
	int64_t stall_us = 0;
};
extern Policy policy;
extern std::function<void()> on_clock;		// called when code under test reads a clock (may sleep)

// ---------------------------------------------------------------- results
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);
[[noreturn]] void finish();				// end the run successfully from anywhere
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_quiet(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// only hashed, printed with verbosity 2
void log_line(const std::string& line);		// shown with -v only, not hashed
void count(const std::string& name, uint64_t n = 1);
void state(uint64_t hash);				// report an abstract state reached (distinctness measure)
int verbosity();
uint64_t hash64(const void* data, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
inline uint64_t hash64(const std::string& s, uint64_t seed = 0xcbf29ce484222325ull) { return hash64(s.data(), s.size(), seed); }

// ---------------------------------------------------------------- disk
struct Inode {
	std::string data;
	uint64_t lock_owner = 0;			// open file description holding the exclusive lock
	int lock_machine = -1;
	uint64_t lock_inc = 0;
};
struct io_error : std::runtime_error { int code; io_error(const std::string& w, int c) : std::runtime_error(w), code(c) {} };

enum fault_e { F_NONE, F_CRASH, F_EIO, F_ENOSPC, F_SHORT };
struct Disk {
	std::map<std::string, std::shared_ptr<Inode>> files;
	std::set<std::string> dirs;
	uint64_t capacity = uint64_t(-1);	// ENOSPC beyond
	uint64_t used() const;
	std::shared_ptr<Disk> clone() const;	// snapshot
};
// an open file description with a user-space (stdio like) write buffer
struct OpenFile {
	Machine* m = nullptr;
	uint64_t inc = 0;
	uint64_t id = 0;
	std::string path;
	std::shared_ptr<Inode> node;
	bool can_read = false, can_write = false, append = false;
	uint64_t pos = 0;
	std::string wbuf;
	uint64_t wbuf_pos = 0;
	size_t wbuf_cap = 4096;
	~OpenFile();
	void close(bool silent);
	void write(const void* p, size_t n);
	void flush();
	size_t read(void* p, size_t n);					// at pos
	size_t pread(void* p, size_t n, uint64_t off);	// OS level, does not see wbuf
	void seek(uint64_t off);
	bool lock_exclusive();
	void unlock();
private:
	void write_through(const char* p, size_t n, size_t& done);
};
std::shared_ptr<OpenFile> disk_open(const std::string& path, const std::string& mode);	// throws std::runtime_error
bool disk_exists(const std::string& path);
void disk_remove(const std::string& path);
void disk_rename(const std::string& from, const std::string& to);
void disk_mkdir(const std::string& path);
std::vector<std::string> disk_list(const std::string& dir, bool subdirs);

// every disk operation goes through this; a harness can install its own fault oracle
std::string current_fiber_name();
struct DiskFaults {
	double crash = 0, eio = 0, enospc = 0, short_write = 0, torn = 0.5;
	double read_eio = 0;
	bool active = false;
	int only_machine = -1;
	int64_t budget = 1;				// max number of injected faults
	std::string errors_only_in;		// I/O errors (not crashes) only in fibers of this name
	size_t wbuf_min = 64, wbuf_max = 8192;
};
extern DiskFaults disk_faults;
extern uint64_t disk_ops;			// number of mutating operations so far
extern int64_t faults_injected;

// ---------------------------------------------------------------- driver
struct Harness {
	std::string property;
	std::function<void()> run;			// executed in a fiber on machine 0
	std::string rule;					// distinctness rule for evidence
};
int driver_main(int argc, char** argv, const std::vector<Harness>& list);

} // sim
#endif
