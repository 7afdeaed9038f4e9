#ifndef VSTUB_SUP_DTO_ANYTYPE_H_
#define VSTUB_SUP_DTO_ANYTYPE_H_
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
class AnyType
{
public:
  AnyType();
  AnyType(TypeCode type_code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
          const std::string& name = {});
  AnyType(std::size_t size, const AnyType& elem, const std::string& name = {});
  AnyType(const AnyType&);
  AnyType(AnyType&&);
  AnyType& operator=(const AnyType&);
  AnyType& operator=(AnyType&&);
  ~AnyType();

  TypeCode GetTypeCode() const;
  std::string GetTypeName() const;
  bool HasField(const std::string& name) const;
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  std::size_t NumberOfElements() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  AnyType ElementType() const;
  AnyType& operator[](const std::string& name);
  const AnyType& operator[](const std::string& name) const;
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const;

  struct Rep;
  static AnyType EmptyStructNamed(const std::string& name);

private:
  std::unique_ptr<Rep> m_rep;
};
extern const AnyType EmptyType;
extern const AnyType BooleanType;
extern const AnyType Character8Type;
extern const AnyType SignedInteger8Type;
extern const AnyType UnsignedInteger8Type;
extern const AnyType SignedInteger16Type;
extern const AnyType UnsignedInteger16Type;
extern const AnyType SignedInteger32Type;
extern const AnyType UnsignedInteger32Type;
extern const AnyType SignedInteger64Type;
extern const AnyType UnsignedInteger64Type;
extern const AnyType Float32Type;
extern const AnyType Float64Type;
extern const AnyType StringType;

AnyType EmptyStructType(const std::string& name = {});
bool IsEmptyType(const AnyType& t);
bool IsScalarType(const AnyType& t);
bool IsStructType(const AnyType& t);
bool IsArrayType(const AnyType& t);
}  // namespace dto
}  // namespace sup
#endif
