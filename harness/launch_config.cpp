#include "launch_tu.hpp"
#define kwsys_SHARED_FORWARD_CONFIG_NAME "Debug"
#define kwsys_SHARED_FORWARD_OPTION_PRINT "--show"
#include <kwsys/SharedForward.h>
int launch_config(int n, char** v) { return kwsys_shared_forward_to_real(n, v); }
