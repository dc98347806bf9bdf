#include <simvnx/sim.h>
int main(int c, char** v) { return sim::driver_main(c, v, {}); }
