#ifndef VSTUB_SUP_DTO_ANYTYPE_HELPER_H_
#define VSTUB_SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup
{
namespace dto
{
std::string AnyTypeToJSONString(const AnyType& t, bool pretty = false);
AnyType AnyTypeFromJSONString(const std::string& json);
AnyType AnyTypeFromJSONString(const AnyTypeRegistry* reg, const std::string& json);
std::string PrintAnyType(const AnyType& t);
}  // namespace dto
}  // namespace sup
#endif
