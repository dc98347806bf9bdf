// Single modules of the system under drivers that speak their protocol.
#include "timelord.h"
#include "harvester.h"
#include "gossip.h"
#include "storage.h"
#include "farmer.h"

int main(int argc, char** argv) {
	world::prepare();
	bool harvester = false;
	for(int i = 1; i < argc; ++i) harvester |= std::string(argv[i]).find("C42") != std::string::npos;
	if(harvester) hv::prepare();
	auto P = [](const char* id, std::function<void()> fn) { return sim::Harness{id, fn, "x"}; };
	return sim::driver_main(argc, argv, {
		P("C30", []() { gs::run(false); }), P("C31", []() { gs::run(true); }), P("C41", tl::run), P("C42", hv::run), P("C08", st::run), P("C43", fm::run),
	});
}
