// The simulation of configuration storage in the binary format: C05-C08.
#include "harness/config_sim.h"
