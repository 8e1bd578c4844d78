// The simulation of configuration storage with the YAML bridge: C23.
#define CFG_YAML
#include "harness/config_sim.h"
