#ifndef VSTUB_SUP_XML_EXCEPTIONS_H_
#define VSTUB_SUP_XML_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup
{
namespace xml
{
class ParseException : public std::exception
{
public:
  explicit ParseException(std::string message) : m_message{std::move(message)} {}
  const char* what() const noexcept override { return m_message.c_str(); }

private:
  std::string m_message;
};
}  // namespace xml
}  // namespace sup
#endif
