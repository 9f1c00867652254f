// shared by the harnesses that use vital
#ifndef VERIF_VITAL_COMMON
#define VERIF_VITAL_COMMON
#include "pbt.hpp"
#include <vital/logger/logger.h>
#include <cstdlib>

inline void quiet_logger(char const* name)
{
  kwiver::vital::get_logger(name)->set_level(kwiver::vital::kwiver_logger::LEVEL_NONE);
}

inline void quiet_all()
{
  setenv("VITAL_LOGGER_FACTORY", "", 1);
  unsetenv("VITAL_LOGGER_FACTORY");
static char const* const names[] = { "vital.similarity", "vital.descriptor_set", "vital.camera", "vital.algorithm", "vital.registrar", "vital.token_expander", "vital.config_parser", "read_config_file", "vital.algorithm_plugin_manager", "vital.c_utils" };
  for (size_t i = 0; i < sizeof names / sizeof *names; ++i) quiet_logger(names[i]);
}
#endif
