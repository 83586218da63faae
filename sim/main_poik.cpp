#include "core.h"
namespace sim { extern const Family poik_families[]; }
extern "C" void sim_shake_observed(const void *i, size_t il, const void *o, size_t ol) { if (sim::shake_tap) sim::shake_tap((const u8 *) i, il, (const u8 *) o, ol); }
int main(int argc, char **argv) { return sim::sim_main(argc, argv, sim::poik_families); }
