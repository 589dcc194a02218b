// Race detector build: instrumented copies of the inline library functions the NATS scenario calls (linked first, so
// that the scenario's own, not instrumented copies are dropped).  Nothing in here runs.
#define scn race_scn                 // its own copies of the harness helpers
#include "../common.h"
#undef SIM_SCENARIO
#define SIM_SCENARIO(...)
#include "../scn_nats.cpp"
