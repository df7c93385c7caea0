// No-op stand-in for spdlog, used only for the instrumented builds of the checks: the real
// header costs ~20 s per translation unit. Logging is not part of any checked property.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
namespace spdlog {
  namespace level { enum level_enum { trace, debug, info, warn, err, critical, off, n_levels }; }
  template <typename F, typename... A> inline void trace(const F&, A&&...) {}
  template <typename F, typename... A> inline void debug(const F&, A&&...) {}
  template <typename F, typename... A> inline void info(const F&, A&&...) {}
  template <typename F, typename... A> inline void warn(const F&, A&&...) {}
  template <typename F, typename... A> inline void error(const F&, A&&...) {}
  template <typename F, typename... A> inline void critical(const F&, A&&...) {}
  template <typename F, typename... A> inline void log(level::level_enum, const F&, A&&...) {}
  inline void set_level(level::level_enum) {}
  inline level::level_enum get_level() { return level::info; }
  inline bool should_log(level::level_enum) { return false; }
  inline void set_pattern(const std::string&) {}
  inline void flush_on(level::level_enum) {}
  inline void shutdown() {}
}
