#include <cerrno>
#include <memory>
#include <string>
class UPNP_Mapper;
std::shared_ptr<UPNP_Mapper> upnp_start_mapping(const int, const std::string&) { return nullptr; }

// commands started by the code under test never run: they fail like a command that cannot be started
#include <simvnx/sim.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" int system(const char* cmd) {
	if(sim::in_sim()) { sim::count("commands refused"); return 256; }
	const pid_t pid = fork();
	if(pid < 0) return -1;
	if(!pid) { execl("/bin/sh", "sh", "-c", cmd, (char*)nullptr); _exit(127); }
	int st = 0;
	while(waitpid(pid, &st, 0) < 0) if(errno != EINTR) return -1;
	return st;
}
