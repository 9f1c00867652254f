#include "launch_tu.hpp"
#define kwsys_SHARED_FORWARD_OPTION_COMMAND "--command"
#define kwsys_SHARED_FORWARD_OPTION_PRINT "--print"
#define kwsys_SHARED_FORWARD_OPTION_LDD "--ldd"
#include <kwsys/SharedForward.h>
int launch_plain(int n, char** v) { return kwsys_shared_forward_to_real(n, v); }
