#ifndef VSTUB_SUP_DTO_JSON_VALUE_PARSER_H_
#define VSTUB_SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* reg = nullptr);
  bool ParseString(const std::string& json, const AnyTypeRegistry* reg = nullptr);
  bool TypedParseFile(const AnyType& type, const std::string& filename);
  bool TypedParseString(const AnyType& type, const std::string& json);
  AnyValue MoveAnyValue();

private:
  AnyValue m_value;
};
}  // namespace dto
}  // namespace sup
#endif
