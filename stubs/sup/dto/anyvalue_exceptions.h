#ifndef VSTUB_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#define VSTUB_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup
{
namespace dto
{
class MessageException : public std::exception
{
public:
  explicit MessageException(std::string message) : m_message{std::move(message)} {}
  const char* what() const noexcept override { return m_message.c_str(); }

private:
  std::string m_message;
};
class InvalidOperationException : public MessageException
{
public:
  explicit InvalidOperationException(const std::string& m) : MessageException(m) {}
};
class InvalidConversionException : public MessageException
{
public:
  explicit InvalidConversionException(const std::string& m) : MessageException(m) {}
};
class SerializeException : public MessageException
{
public:
  explicit SerializeException(const std::string& m) : MessageException(m) {}
};
class ParseException : public MessageException
{
public:
  explicit ParseException(const std::string& m) : MessageException(m) {}
};
}  // namespace dto
}  // namespace sup
#endif
