// simvnx driver: seeded search over runs, violation gating, minimisation, replay files, coverage counters.
#include <simvnx/sim.h>
#include <simvnx/sim_internal.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static double real_time() {
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string g_tmp;
static int g_cpu_limit = 60;

struct Slot {
	RunShared* sh = nullptr;
	pid_t pid = -1;
	uint64_t seed = 0;
	int index = 0;
	std::string choices_path, log_path;
};
struct Result {
	int status = R_NONE;
	std::string cls, msg, counts;
	uint64_t hash = 0, sched = 0, steps = 0;
	int64_t sim_us = 0;
	std::vector<uint64_t> states;
};

static void start(Slot& s, const Harness& h, RunInput in, int verb)
{
	if(!s.sh) {
		s.sh = (RunShared*)mmap(nullptr, sizeof(RunShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		s.choices_path = g_tmp + "/choices." + std::to_string(s.index);
		s.log_path = g_tmp + "/log." + std::to_string(s.index);
	}
	memset(s.sh, 0, offsetof(RunShared, states));
	s.seed = in.seed;
	fflush(stdout); fflush(stderr);
	s.pid = fork();
	if(s.pid < 0) { perror("fork"); _exit(3); }
	if(s.pid == 0) {
		if(!in.log_stdout) {
			const int fd = open("/dev/null", O_RDWR);
			dup2(fd, 0); dup2(fd, 1);
			if(!getenv("SIMVNX_STDERR")) dup2(fd, 2);
		}
		struct rlimit rl;
		rl.rlim_cur = g_cpu_limit; rl.rlim_max = g_cpu_limit + 5;
		setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 8ull << 30;
		setrlimit(RLIMIT_AS, &rl);
		rl.rlim_cur = rl.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &rl);
		{	// every run has a directory of its own
			const auto dir = g_tmp + "/run." + std::to_string(s.index);
			std::error_code ec;
			std::filesystem::remove_all(dir, ec);
			std::filesystem::create_directory(dir, ec);
			if(chdir(dir.c_str())) _exit(3);
		}
		g_shared = s.sh;
		g_input = in;
		g_verbosity = verb;
		run_in_sim(h.run);
		_exit(0);
	}
}
static Result collect(Slot& s, int wstatus)
{
	Result r;
	r.status = s.sh->status; r.cls = s.sh->cls; r.msg = s.sh->msg; r.counts = s.sh->counts;
	r.hash = s.sh->trace_hash; r.sched = s.sh->sched_hash; r.steps = s.sh->steps; r.sim_us = s.sh->sim_us;
	r.states.assign(s.sh->states, s.sh->states + s.sh->n_states);
	if(r.status == R_NONE) {
		if(WIFSIGNALED(wstatus) && WTERMSIG(wstatus) == SIGKILL) {
			r.status = R_HARNESS; r.cls = "killed"; r.msg = "run was killed (CPU time or memory limit)";
		} else {
			r.status = R_VIOLATION; r.cls = "process-exit";
			r.msg = WIFSIGNALED(wstatus) ? "process would die from signal " + std::to_string(WTERMSIG(wstatus)) : "process would exit with status " + std::to_string(WEXITSTATUS(wstatus));
		}
	}
	s.pid = -1;
	return r;
}
static Result run_once(Slot& s, const Harness& h, const RunInput& in, int verb)
{
	start(s, h, in, verb);
	int st = 0;
	while(waitpid(s.pid, &st, 0) < 0 && errno == EINTR);
	return collect(s, st);
}
static choices_t load_choices(const std::string& path) {
	choices_t out;
	std::ifstream f(path);
	int a; uint32_t b, c;
	while(f >> a >> b >> c) out.emplace_back(a, b, c);
	return out;
}

static std::string json_str(const std::string& s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += c; }
		else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

// parallel delta debugging: set recorded non-default choices back to their default while the violation class stays the same
static choices_t minimise(const Harness& h, const RunInput& base, const std::string& cls, double budget, int jobs, int& tests)
{
	const double end = real_time() + budget;
	auto cur = base.choices;
	std::vector<Slot> slots(jobs);
	for(int i = 0; i < jobs; ++i) slots[i].index = 100 + i;
	size_t gran = 2;
	while(cur.size() >= 1 && real_time() < end) {
		gran = std::min(gran, cur.size());
		const size_t chunk = (cur.size() + gran - 1) / gran;
		bool reduced = false;
		for(size_t base_i = 0; base_i * chunk < cur.size() && real_time() < end && !reduced; base_i += jobs) {
			int n = 0;
			for(int j = 0; j < jobs; ++j) {
				const size_t a = (base_i + j) * chunk;
				if(a >= cur.size()) break;
				RunInput in; in.seed = base.seed; in.replay = true;
				in.choices.assign(cur.begin(), cur.begin() + a);
				in.choices.insert(in.choices.end(), cur.begin() + std::min(a + chunk, cur.size()), cur.end());
				slots[j].choices_path = g_tmp + "/choices." + std::to_string(slots[j].index);
				in.choices_out = slots[j].choices_path;
				start(slots[j], h, in, 0);
				n++;
			}
			std::vector<Result> res(n);
			for(int j = 0; j < n; ++j) {
				int st = 0;
				while(waitpid(slots[j].pid, &st, 0) < 0 && errno == EINTR);
				res[j] = collect(slots[j], st);
				tests++;
			}
			for(int j = 0; j < n; ++j) if(res[j].status == R_VIOLATION && res[j].cls == cls) {
				auto next = load_choices(slots[j].choices_path);
				if(next.size() < cur.size()) { cur = next; reduced = true; break; }
			}
		}
		if(reduced) { gran = std::max<size_t>(gran - 1, 2); continue; }
		if(gran >= cur.size()) break;
		gran *= 2;
	}
	return cur;
}

static bool parse_replay(const std::string& path, std::string& harness, RunInput& in, std::string& cls)
{
	std::ifstream f(path);
	if(!f) return false;
	std::stringstream ss; ss << f.rdbuf();
	const auto t = ss.str();
	auto get = [&](const std::string& k) {
		auto p = t.find("\"" + k + "\":");
		if(p == std::string::npos) return std::string();
		p = t.find('"', p + k.size() + 3);
		auto e = t.find('"', p + 1);
		return t.substr(p + 1, e - p - 1);
	};
	harness = get("harness");
	in.seed = strtoull(get("seed").c_str(), nullptr, 10);
	in.replay = get("mode") == "choices";
	cls = get("class");
	std::istringstream cs(get("choices"));
	std::string tok;
	while(cs >> tok) {
		int a; unsigned b, c;
		if(sscanf(tok.c_str(), "%d:%u:%u", &a, &b, &c) == 3) in.choices.emplace_back(a, b, c);
	}
	return !harness.empty();
}

int driver_main(int argc, char** argv, const std::vector<Harness>& list)
{
	// identical addresses in every process: nothing may depend on them, but a dependence must at least replay
	if(!getenv("SIMVNX_NOASLR")) {
		setenv("SIMVNX_NOASLR", "1", 1);
		const int p = personality(0xffffffff);
		if(p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
			execv("/proc/self/exe", argv);
		}
	}
	std::string prop, out_path, replay_dir = ".", replay_file;
	uint64_t seed = 1, one = 0, max_runs = uint64_t(-1);
	bool have_one = false, det = false;
	double time_limit = 10;
	int jobs = 8, verb = 0;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--prop") prop = next();
		else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--time") time_limit = atof(next().c_str());
		else if(a == "--jobs") jobs = atoi(next().c_str());
		else if(a == "--max-runs") max_runs = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--out") out_path = next();
		else if(a == "--replay-dir") replay_dir = next();
		else if(a == "--replay") replay_file = next();
		else if(a == "--one") { one = strtoull(next().c_str(), nullptr, 10); have_one = true; }
		else if(a == "--determinism") det = true;
		else if(a == "--cpu") g_cpu_limit = atoi(next().c_str());
		else if(a == "-v") verb = 1;
		else if(a == "-vv") verb = 2;
		else if(a == "--list") { for(auto& h : list) printf("%s\n", h.property.c_str()); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	char tmpl[] = "/tmp/simvnx.XXXXXX";
	if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
	g_tmp = tmpl;
	struct Cleanup { pid_t owner = getpid(); ~Cleanup() { if(getpid() == owner) { std::error_code ec; std::filesystem::remove_all(g_tmp, ec); } } } cleanup;

	auto find = [&](const std::string& p) -> const Harness* { for(auto& h : list) if(h.property == p) return &h; return nullptr; };

	if(replay_file.size()) {
		RunInput in; std::string hn, cls;
		if(!parse_replay(replay_file, hn, in, cls)) { fprintf(stderr, "cannot parse %s\n", replay_file.c_str()); return 3; }
		auto h = find(hn);
		if(!h) { fprintf(stderr, "no harness %s\n", hn.c_str()); return 3; }
		Slot s; s.index = 299;
		in.log_stdout = verb > 0;
		auto r = run_once(s, *h, in, verb);
		if(r.status == R_VIOLATION) {
			printf("%s: %s\nhash %016llx\n", r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash);
			printf("VIOLATION property=%s replay=%s\n", hn.c_str(), replay_file.c_str());
			return r.cls == cls ? 1 : 4;
		}
		if(r.status == R_HARNESS) { fprintf(stderr, "harness error: %s\n", r.msg.c_str()); return 3; }
		printf("no violation (status %d)\n", r.status);
		return 0;
	}
	auto h = find(prop);
	if(!h) { fprintf(stderr, "no harness for property '%s'\n", prop.c_str()); return 3; }
	if(have_one) {
		RunInput in; in.seed = one; in.log_stdout = verb > 0;
		Slot s; s.index = 299;
		auto r = run_once(s, *h, in, verb);
		printf("status %d class %s\n%s\n%s hash %016llx sched %016llx steps %llu sim %.3f s\n", r.status, r.cls.c_str(), r.msg.c_str(), r.counts.c_str(), (unsigned long long)r.hash,
				(unsigned long long)r.sched, (unsigned long long)r.steps, r.sim_us / 1e6);
		return r.status == R_OK ? 0 : r.status == R_VIOLATION ? 1 : 3;
	}
	const double t0 = real_time();
	std::vector<Slot> slots(jobs);
	for(int i = 0; i < jobs; ++i) slots[i].index = i;
	uint64_t next_i = 0, n_ok = 0, n_started = 0, total_steps = 0, mismatches = 0, n_twice = 0;
	double sim_s = 0;
	std::unordered_set<uint64_t> traces, scheds, states;
	std::map<std::string, uint64_t> counts, run_counts;
	std::map<uint64_t, uint64_t> det_hash;
	std::string harness_err;
	bool found = false;
	RunInput bad; Result bad_res;
	std::vector<std::pair<RunInput, Result>> cand;
	uint64_t n_violations = 0;
	std::unordered_set<uint64_t> nontrivial;
	double t_found = 0;
	const uint64_t base = seed * 1000000000ull;
	int active = 0;
	std::vector<std::pair<uint64_t, std::string>> irrepro;
	auto seed_of = [&](uint64_t i) { return base + (det ? i / 2 : i) + 1; };
	while(true) {
		const bool stop = (found && (cand.size() >= 8 || real_time() - t_found > 3)) || harness_err.size() || real_time() - t0 >= time_limit || n_started >= max_runs;
		if(!stop) for(auto& s : slots) if(s.pid < 0 && n_started < max_runs) {
			RunInput in; in.seed = seed_of(next_i++);
			start(s, *h, in, 0);
			n_started++; active++;
		}
		if(!active) { if(stop) break; else continue; }
		int st = 0;
		const pid_t p = waitpid(-1, &st, 0);
		if(p < 0) { if(errno == EINTR) continue; break; }
		for(auto& s : slots) if(s.pid == p) {
			auto r = collect(s, st);
			active--;
			if(r.status == R_OK) {
				n_ok++;
				total_steps += r.steps; sim_s += r.sim_us / 1e6;
				if(traces.size() < 5000000) { traces.insert(r.hash); scheds.insert(r.sched); if(r.counts.find("nontrivial=") != std::string::npos) nontrivial.insert(r.hash); }
				if(states.size() < 5000000) for(auto x : r.states) states.insert(x);
				std::istringstream is(r.counts); std::string line;
				while(std::getline(is, line)) { auto e = line.find('='); counts[line.substr(0, e)] += strtoull(line.c_str() + e + 1, nullptr, 10); run_counts[line.substr(0, e)]++; }
				if(det) {
					auto ins = det_hash.emplace(s.seed, r.hash);
					if(!ins.second) { n_twice++; if(ins.first->second != r.hash) { mismatches++; printf("NONDETERMINISM seed %llu\n", (unsigned long long)s.seed); } det_hash.erase(ins.first); }
				}
			} else if(r.status == R_HARNESS) {
				if(harness_err.empty()) harness_err = "seed " + std::to_string(s.seed) + ": " + r.msg;
			} else {
				if(!found) { found = true; t_found = real_time(); }
				n_violations++;
				if(cand.size() < 8) { RunInput in; in.seed = s.seed; cand.emplace_back(in, r); }
			}
		}
	}
	const double search_time = real_time() - t0;
	int rc = 0;
	std::string replay_path;
	size_t n_before = 0, n_after = 0; int tests = 0;
	// smallest seed first: the report does not depend on which worker finished first
	std::sort(cand.begin(), cand.end(), [](const std::pair<RunInput, Result>& a, const std::pair<RunInput, Result>& b) { return a.first.seed < b.first.seed; });
	for(auto& c : cand) {
		if(rc == 1) break;
		bad = c.first; bad_res = c.second; tests = 0;
		// gate 1: the same seed again
		Slot s; s.index = 298;
		RunInput in = bad; in.choices_out = g_tmp + "/choices.298";
		auto r2 = run_once(s, *h, in, 0);
		printf("violation at seed %llu: %s: %s\n", (unsigned long long)bad.seed, bad_res.cls.c_str(), bad_res.msg.c_str());
		if(r2.status != R_VIOLATION || r2.cls != bad_res.cls || (r2.hash != bad_res.hash)) {
			printf("NOT REPRODUCIBLE: second run of seed %llu gave status %d %s: %s\n", (unsigned long long)bad.seed, r2.status, r2.cls.c_str(), r2.msg.c_str());
			rc = 3;
		} else {
			auto all = load_choices(g_tmp + "/choices.298");
			n_before = all.size();
			RunInput rep; rep.seed = bad.seed; rep.replay = true; rep.choices = all;
			auto r3 = run_once(s, *h, rep, 0);
			bool choices_mode = r3.status == R_VIOLATION && r3.cls == bad_res.cls;
			if(choices_mode) rep.choices = minimise(*h, rep, bad_res.cls, 40, jobs, tests);
			else { rep = RunInput(); rep.seed = bad.seed; }
			n_after = choices_mode ? rep.choices.size() : n_before;
			rep.log_out = g_tmp + "/log.298";
			auto r4 = run_once(s, *h, rep, 2);
			replay_path = replay_dir + "/" + prop + "-" + std::to_string(bad.seed) + ".replay.json";
			std::ofstream o(replay_path);
			o << "{\n \"harness\": " << json_str(prop) << ",\n \"seed\": \"" << bad.seed << "\",\n \"mode\": \"" << (choices_mode ? "choices" : "seed") << "\",\n \"class\": " << json_str(r4.cls)
				<< ",\n \"message\": " << json_str(r4.msg) << ",\n \"hash\": \"" << std::hex << r4.hash << std::dec << "\",\n \"original_choices\": " << n_before << ",\n \"minimised_choices\": " << n_after
				<< ",\n \"choices\": \"";
			for(auto& c : rep.choices) o << std::get<0>(c) << ":" << std::get<1>(c) << ":" << std::get<2>(c) << " ";
			o << "\",\n \"streams\": [\"work\",\"sched\",\"disk\",\"net\",\"misc\"],\n \"trace\": [";
			std::ifstream lf(g_tmp + "/log.298"); std::string line; bool first = true; size_t nl = 0;
			while(std::getline(lf, line) && nl++ < 5000) { o << (first ? "\n  " : ",\n  ") << json_str(line); first = false; }
			o << "\n ]\n}\n";
			o.close();
			// gate 2: a fresh process
			const auto cmd = std::string("SIMVNX_NOASLR= ; unset SIMVNX_NOASLR; exec /proc/") + std::to_string(getpid()) + "/exe --cpu " + std::to_string(g_cpu_limit) + " --replay '" + replay_path + "' > /dev/null 2>&1";
			const int ex = system(cmd.c_str());
			if(WIFEXITED(ex) && WEXITSTATUS(ex) == 1) {
				printf("minimised: %s: %s\n", r4.cls.c_str(), r4.msg.c_str());
				printf("choices %zu -> %zu (%d replays)\n", n_before, n_after, tests);
				printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_path.c_str());
				rc = 1;
				break;
			} else {
				printf("NOT REPRODUCIBLE in a fresh process (exit %d)\n", WEXITSTATUS(ex));
				rc = 3;
			}
		}
	}
	if(!found && harness_err.size()) {
		printf("HARNESS ERROR %s\n", harness_err.c_str());
		rc = 3;
	}
	if(det) { printf("determinism: %llu seeds run twice, %llu mismatches\n", (unsigned long long)n_twice, (unsigned long long)mismatches); if(mismatches) rc = 3; }
	const double wall = real_time() - t0;
	if(out_path.size()) {
		std::ofstream o(out_path);
		o << "{\"property\": " << json_str(prop) << ", \"exit\": " << rc << ", \"runs\": " << n_ok << ", \"seed_first\": " << base + 1 << ", \"seed_last\": " << base + next_i
			<< ", \"wall_s\": " << wall << ", \"search_s\": " << search_time << ", \"runs_per_hour\": " << uint64_t(search_time > 0 ? n_ok * 3600.0 / search_time : 0)
			<< ", \"sim_seconds\": " << sim_s << ", \"steps\": " << total_steps << ", \"distinct_traces\": " << traces.size() << ", \"distinct_schedules\": " << scheds.size()
			<< ", \"distinct_nontrivial\": " << nontrivial.size() << ", \"violations\": " << n_violations << ", \"distinct_states\": " << states.size() << ", \"rule\": " << json_str(h->rule) << ", \"violation\": " << json_str(found ? bad_res.cls + ": " + bad_res.msg : "")
			<< ", \"replay\": " << json_str(replay_path) << ", \"counts\": {";
		bool first = true;
		for(auto& e : counts) { o << (first ? "" : ", ") << json_str(e.first) << ": " << e.second; first = false; }
		o << "}, \"run_counts\": {";
		first = true;
		for(auto& e : run_counts) { o << (first ? "" : ", ") << json_str(e.first) << ": " << e.second; first = false; }
		o << "}}\n";
	}
	printf("%s: %llu runs in %.1f s (%.0f/h), %.1f simulated s, %zu distinct traces, %zu states, exit %d\n", prop.c_str(), (unsigned long long)n_ok, search_time,
			search_time > 0 ? n_ok * 3600.0 / search_time : 0, sim_s, traces.size(), states.size(), rc);
	if(getenv("SIMVNX_COUNTS")) for(auto& e : counts) printf("  %-40s %llu in %llu runs\n", e.first.c_str(), (unsigned long long)e.second, (unsigned long long)run_counts[e.first]);
	return rc;
}

} // sim
