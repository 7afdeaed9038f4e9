#ifndef VSTUB_SUP_LOG_DEFAULT_LOGGERS_H_
#define VSTUB_SUP_LOG_DEFAULT_LOGGERS_H_
#include <sup/log/basic_logger.h>
namespace sup
{
namespace log
{
class DefaultLogger
{
public:
  DefaultLogger(BasicLogger::LogFunction func, const std::string& source, int max_severity)
    : m_l{std::move(func), source, max_severity}
  {
  }
  int SetMaxSeverity(int s) { return m_l.SetMaxSeverity(s); }
  void Emergency(const std::string& m) const { m_l.LogMessage(0, m); }
  void Alert(const std::string& m) const { m_l.LogMessage(1, m); }
  void Critical(const std::string& m) const { m_l.LogMessage(2, m); }
  void Error(const std::string& m) const { m_l.LogMessage(3, m); }
  void Warning(const std::string& m) const { m_l.LogMessage(4, m); }
  void Notice(const std::string& m) const { m_l.LogMessage(5, m); }
  void Info(const std::string& m) const { m_l.LogMessage(6, m); }
  void Debug(const std::string& m) const { m_l.LogMessage(7, m); }
  void Trace(const std::string& m) const { m_l.LogMessage(8, m); }

private:
  BasicLogger m_l;
};
std::string DefaultStdoutLogMessage(int severity, const std::string& source,
                                    const std::string& message);
DefaultLogger CreateDefaultSysLogger(const std::string& source);
DefaultLogger CreateDefaultStdoutLogger(const std::string& source);
}  // namespace log
}  // namespace sup
#endif
