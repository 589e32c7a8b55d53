// Stand-in for spdlog in the symbolic build: logging has an empty body (the text of log messages is outside every claim).
#pragma once
#include <chrono>
#include <memory>
#include <string>
#include <vector>
#include <fmt/format.h>
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6, n_levels }; }
namespace sinks { class sink { public: virtual ~sink() = default; }; }
using sink_ptr = std::shared_ptr<sinks::sink>;
class logger {
  std::string name_;
  int lvl = 2;
 public:
  logger() {}
  explicit logger(std::string n) : name_(n) {}
  template <class It> logger(std::string n, It, It) : name_(n) {}
  template <class... A> void trace(A &&...) {}
  template <class... A> void debug(A &&...) {}
  template <class... A> void info(A &&...) {}
  template <class... A> void warn(A &&...) {}
  template <class... A> void error(A &&...) {}
  template <class... A> void critical(A &&...) {}
  template <class... A> void log(A &&...) {}
  bool should_log(level::level_enum l) const { return false; }
  void set_level(level::level_enum l) {}
  level::level_enum level() const { return level::info; }
  void flush_on(level::level_enum) {}
  void flush() {}
  void set_pattern(const std::string &) {}
  const std::string &name() const { return name_; }
};
inline std::shared_ptr<logger> &the_logger() { static std::shared_ptr<logger> l = std::make_shared<logger>(); return l; }
inline std::shared_ptr<logger> get(const std::string &) { return the_logger(); }
inline void register_logger(std::shared_ptr<logger>) {}
inline void set_level(level::level_enum) {}
inline void set_pattern(const std::string &) {}
inline void drop_all() {}
inline std::shared_ptr<logger> default_logger() { return the_logger(); }
template <class... A> void trace(A &&...) {}
template <class... A> void debug(A &&...) {}
template <class... A> void info(A &&...) {}
template <class... A> void warn(A &&...) {}
template <class... A> void error(A &&...) {}
template <class... A> void critical(A &&...) {}
}  // namespace spdlog
#define SPDLOG_TRACE(...) (void)0
#define SPDLOG_DEBUG(...) (void)0
#define SPDLOG_INFO(...) (void)0
