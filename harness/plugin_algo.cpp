// A plugin for the plugin-manager check.  What it registers is read from "<its own file>.reg":
//   impl <name> <value>     register an implementation
//   sleep <ms>              take time
//   fail <n>                return n
#include <vital/algo/detect_features.h>
#include <vital/algo/algorithm.txx>
#include <dlfcn.h>
#include <fstream>
#include <string>
#include <unistd.h>
namespace kv = kwiver::vital;
struct plug : kv::algorithm_impl<plug, kv::algo::detect_features> {
  std::string name; int value = 0;
  std::string impl_name() const { return name; }
  kv::config_block_sptr get_configuration() const { kv::config_block_sptr c = kv::algo::detect_features::get_configuration(); c->set_value("value", value); return c; }
  void set_configuration(kv::config_block_sptr c) { value = c->get_value<int>("value", value); }
  bool check_configuration(kv::config_block_sptr) const { return true; }
  kv::feature_set_sptr detect(kv::image_container_sptr, kv::image_container_sptr) const { return kv::feature_set_sptr(); }
};
static int here;
#ifndef NO_FUNCTION
extern "C" int private_register_algo_impls(kv::registrar& reg)
#else
extern "C" int some_other_function(kv::registrar& reg)
#endif
{
  Dl_info di; if (!dladdr(&here, &di)) return 9;
  std::ifstream f((std::string(di.dli_fname) + ".reg").c_str());
  std::string w; int r = 0;
  while (f >> w)
  {
    if (w == "impl") { std::shared_ptr<plug> p(new plug); f >> p->name >> p->value; kv::algorithm_def<kv::algo::detect_features>::register_instance(reg, p); }
    else if (w == "sleep") { int ms; f >> ms; usleep(ms * 1000); }
    else if (w == "fail") f >> r;
  }
  return r;
}
