#ifndef SHIM_ROS_CONSOLE_H
#define SHIM_ROS_CONSOLE_H
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <sstream>
#include <string>
namespace shim
{
struct LogLine
{
  int level;
  std::string text;
};
inline std::deque<LogLine>& logBuffer()
{
  static std::deque<LogLine> l;
  return l;
}
inline void logf(int level, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void logf(int level, const char* f, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  static const bool print = getenv("VF_LOG") != nullptr;
  if (print)
    fprintf(stderr, "[%d] %s\n", level, buf);
  logBuffer().push_back({level, buf});
  if (logBuffer().size() > 50)
    logBuffer().pop_front();
}
[[noreturn]] inline void assertFail(const char* func, const char* expr, const char* file, int line)
{
  fprintf(stderr, "SHIM-ASSERT %s %s (%s:%d)\n", func, expr, file, line);
  fflush(stderr);
  abort();
}
}  // namespace shim
namespace ros
{
namespace console
{
namespace levels
{
enum Level
{
  Debug,
  Info,
  Warn,
  Error,
  Fatal,
  Count
};
}
inline bool set_logger_level(const std::string&, levels::Level)
{
  return true;
}
inline void notifyLoggerLevelsChanged()
{
}
}  // namespace console
}  // namespace ros
#define ROSCONSOLE_DEFAULT_NAME "ros.shim"
#define SHIM_LOG(l, ...)          \
  do                              \
  {                               \
    ::shim::logf(l, __VA_ARGS__); \
  } while (0)
#define SHIM_LOG_S(l, s)                       \
  do                                           \
  {                                            \
    std::stringstream shim_ss_;                \
    shim_ss_ << s;                             \
    ::shim::logf(l, "%s", shim_ss_.str().c_str()); \
  } while (0)
#define SHIM_ALL(N, L)
#define ROS_DEBUG(...) SHIM_LOG(0, __VA_ARGS__)
#define ROS_INFO(...) SHIM_LOG(1, __VA_ARGS__)
#define ROS_WARN(...) SHIM_LOG(2, __VA_ARGS__)
#define ROS_ERROR(...) SHIM_LOG(3, __VA_ARGS__)
#define ROS_FATAL(...) SHIM_LOG(4, __VA_ARGS__)
#define ROS_DEBUG_STREAM(s) SHIM_LOG_S(0, s)
#define ROS_INFO_STREAM(s) SHIM_LOG_S(1, s)
#define ROS_WARN_STREAM(s) SHIM_LOG_S(2, s)
#define ROS_ERROR_STREAM(s) SHIM_LOG_S(3, s)
#define ROS_FATAL_STREAM(s) SHIM_LOG_S(4, s)
#define ROS_DEBUG_COND(c, ...) do { if (c) SHIM_LOG(0, __VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) SHIM_LOG(1, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) SHIM_LOG(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SHIM_LOG(3, __VA_ARGS__); } while (0)
#define ROS_DEBUG_NAMED(n, ...) SHIM_LOG(0, __VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) SHIM_LOG(1, __VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) SHIM_LOG(2, __VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) SHIM_LOG(3, __VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SHIM_LOG(0, __VA_ARGS__)
#define ROS_INFO_ONCE(...) SHIM_LOG(1, __VA_ARGS__)
#define ROS_WARN_ONCE(...) SHIM_LOG(2, __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SHIM_LOG(3, __VA_ARGS__)
#define ROS_FATAL_ONCE(...) SHIM_LOG(4, __VA_ARGS__)
#define ROS_DEBUG_THROTTLE(p, ...) do { (void)(p); SHIM_LOG(0, __VA_ARGS__); } while (0)
#define ROS_INFO_THROTTLE(p, ...) do { (void)(p); SHIM_LOG(1, __VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE(p, ...) do { (void)(p); SHIM_LOG(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE(p, ...) do { (void)(p); SHIM_LOG(3, __VA_ARGS__); } while (0)
#define ROS_FATAL_THROTTLE(p, ...) do { (void)(p); SHIM_LOG(4, __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(p, s) do { (void)(p); SHIM_LOG_S(0, s); } while (0)
#define ROS_INFO_STREAM_THROTTLE(p, s) do { (void)(p); SHIM_LOG_S(1, s); } while (0)
#define ROS_WARN_STREAM_THROTTLE(p, s) do { (void)(p); SHIM_LOG_S(2, s); } while (0)
#define ROS_ERROR_STREAM_THROTTLE(p, s) do { (void)(p); SHIM_LOG_S(3, s); } while (0)
#define ROS_WARN_STREAM_ONCE(s) SHIM_LOG_S(2, s)
#define ROS_ERROR_STREAM_ONCE(s) SHIM_LOG_S(3, s)
#define ROS_INFO_STREAM_ONCE(s) SHIM_LOG_S(1, s)
#define ROS_ASSERT(cond)                                             \
  do                                                                 \
  {                                                                  \
    if (!(cond))                                                     \
      ::shim::assertFail(__func__, #cond, __FILE__, __LINE__);       \
  } while (0)
#define ROS_ASSERT_MSG(cond, ...)                                    \
  do                                                                 \
  {                                                                  \
    if (!(cond))                                                     \
    {                                                                \
      SHIM_LOG(4, __VA_ARGS__);                                      \
      ::shim::assertFail(__func__, #cond, __FILE__, __LINE__);       \
    }                                                                \
  } while (0)
#define ROS_BREAK() ::shim::assertFail(__func__, "ROS_BREAK", __FILE__, __LINE__)
#define ROS_ISSUE_BREAK() ROS_BREAK()
#endif
