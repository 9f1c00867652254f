// A logger factory as a plugin, for the logger check
#include <vital/logger/kwiver_logger.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_factory.cxx>
#include <iostream>
using namespace kwiver::vital;
#ifndef NO_FUNCTION
namespace {
struct P : kwiver_logger {
  P(logger_ns::kwiver_logger_factory* f, std::string const& n) : kwiver_logger(f, n) {}
  typedef logger_ns::location_info W;
#define L(x) bool is_##x##_enabled() const { return true; } void log_##x(std::string const& m) { put(m); } void log_##x(std::string const& m, W const&) { put(m); }
  L(fatal) L(error) L(warn) L(info) L(debug) L(trace)
  void put(std::string const& m) { std::cerr << "PLUGIN " << get_name() << " " << m << "\n"; }
  void set_level(log_level_t) {} log_level_t get_level() const { return LEVEL_TRACE; }
  void log_message(log_level_t, std::string const& m) { put(m); } void log_message(log_level_t, std::string const& m, W const&) { put(m); }
};
struct F : logger_ns::kwiver_logger_factory { F() : kwiver_logger_factory("factory of a plugin") {} logger_handle_t get_logger(std::string const& n) { return std::make_shared<P>(this, n); } };
}
extern "C" void* kwiver_logger_factory() { return new F; }
#else
extern "C" void* other_function() { return nullptr; }
#endif
