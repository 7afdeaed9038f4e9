#ifndef VSTUB_SUP_DTO_JSON_TYPE_PARSER_H_
#define VSTUB_SUP_DTO_JSON_TYPE_PARSER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup
{
namespace dto
{
class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  ~JSONAnyTypeParser();
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* reg = nullptr);
  bool ParseString(const std::string& json, const AnyTypeRegistry* reg = nullptr);
  AnyType MoveAnyType();

private:
  AnyType m_type;
};
}  // namespace dto
}  // namespace sup
#endif
