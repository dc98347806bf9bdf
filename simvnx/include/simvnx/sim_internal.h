#ifndef SIMVNX_SIM_INTERNAL_H
#define SIMVNX_SIM_INTERNAL_H
#include <simvnx/sim.h>
#include <tuple>
#include <stdexcept>
namespace sim {
enum { R_NONE = 0, R_OK = 1, R_VIOLATION = 2, R_HARNESS = 3 };
struct RunShared {
	static constexpr int MAX_STATES = 4096;
	int status;
	char cls[256];
	char msg[4000];
	uint64_t trace_hash, sched_hash, steps;
	int64_t sim_us;
	char counts[16384];
	int n_states;
	uint64_t states[MAX_STATES];
};
typedef std::vector<std::tuple<int, uint32_t, uint32_t>> choices_t;
struct RunInput {
	uint64_t seed = 0;
	bool replay = false;
	choices_t choices;
	std::string choices_out, log_out;
	bool log_stdout = false;
};
extern RunShared* g_shared;
extern RunInput g_input;
extern int g_verbosity;
void run_in_sim(const std::function<void()>& fn);
void yield_now(const char* what);
bool was_killed(Fiber* f);
bool fiber_dead(uint64_t id);
}
#endif
