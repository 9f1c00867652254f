#include "launch_tu.hpp"
#include <kwsys/SharedForward.h>
int launch_bare(int n, char** v) { return kwsys_shared_forward_to_real(n, v); }
