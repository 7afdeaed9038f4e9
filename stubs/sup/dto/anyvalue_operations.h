#ifndef VSTUB_SUP_DTO_ANYVALUE_OPERATIONS_H_
#define VSTUB_SUP_DTO_ANYVALUE_OPERATIONS_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
enum class CompareResult
{
  Equivalent,
  Less,
  Greater,
  Unordered
};
CompareResult Compare(const AnyValue& left, const AnyValue& right);
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);
}  // namespace dto
}  // namespace sup
#endif
