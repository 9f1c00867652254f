// One launcher made from kwiversys/SharedForward.h; its settings are variables, apart from those
// that have to be literals: the directory of the build is whatever descriptor 57 stands for.
#include <string>
extern char const* sf_build[5]; extern char const* sf_install[5]; extern char const* sf_exe_build; extern char const* sf_exe_install;
#define kwsys_SHARED_FORWARD_DIR_BUILD "/proc/self/fd/57"
#define kwsys_SHARED_FORWARD_PATH_BUILD sf_build[0], sf_build[1], sf_build[2], sf_build[3]
#define kwsys_SHARED_FORWARD_PATH_INSTALL sf_install[0], sf_install[1], sf_install[2], sf_install[3]
#define kwsys_SHARED_FORWARD_EXE_BUILD sf_exe_build
#define kwsys_SHARED_FORWARD_EXE_INSTALL sf_exe_install
