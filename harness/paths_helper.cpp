// prints the paths of itself ('e') and of the library given ('m')
#include <dlfcn.h>
#include <stdio.h>
#include <string>
int main(int, char** a)
{
  void* h = dlopen(a[1], RTLD_NOW); if (!h) { printf("%s\n", dlerror()); return 2; }
  typedef std::string (*F)();
  F e = (F)dlsym(h, "_ZN6kwiver5vital19get_executable_pathB5cxx11Ev"), m = (F)dlsym(h, "_ZN6kwiver5vital15get_module_pathB5cxx11Ev");
  if (!e || !m) return 3;
  for (char const* c = a[2]; *c; ++c) printf("%s\n", (*c == 'e' ? e : m)().c_str());
  return 0;
}
