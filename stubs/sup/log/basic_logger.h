#ifndef VSTUB_SUP_LOG_BASIC_LOGGER_H_
#define VSTUB_SUP_LOG_BASIC_LOGGER_H_
#include <functional>
#include <string>
namespace sup
{
namespace log
{
class BasicLogger
{
public:
  using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
  BasicLogger(LogFunction func, const std::string& source, int max_severity)
    : m_func{std::move(func)}, m_source{source}, m_max{max_severity}
  {
  }
  int SetMaxSeverity(int s)
  {
    auto o = m_max;
    m_max = s;
    return o;
  }
  void LogMessage(int severity, const std::string& message) const
  {
    if (severity <= m_max) m_func(severity, m_source, message);
  }

private:
  LogFunction m_func;
  std::string m_source;
  int m_max;
};
}  // namespace log
}  // namespace sup
#endif
