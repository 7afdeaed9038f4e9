#ifndef VSTUB_SUP_DTO_ANYVALUE_H_
#define VSTUB_SUP_DTO_ANYVALUE_H_
#include <sup/dto/anytype.h>
#include <map>
#include <type_traits>
namespace sup
{
namespace dto
{
class AnyValue
{
public:
  AnyValue();
  explicit AnyValue(const AnyType& type);
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  AnyValue(const AnyType& type, const AnyValue& v);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
           const std::string& type_name = {});
  AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name = {});
  AnyValue(const AnyValue&);
  AnyValue(AnyValue&&);
  AnyValue& operator=(const AnyValue&);
  AnyValue& operator=(AnyValue&&);
  ~AnyValue();

  AnyType GetType() const;
  TypeCode GetTypeCode() const;
  std::string GetTypeName() const;
  bool HasField(const std::string& name) const;
  std::vector<std::string> MemberNames() const;
  std::vector<std::string> ChildNames() const;
  std::size_t NumberOfMembers() const;
  std::size_t NumberOfElements() const;
  AnyValue& AddMember(const std::string& name, const AnyValue& v);
  AnyValue& AddElement(const AnyValue& v);
  AnyValue& ConvertFrom(const AnyValue& v);
  void UnsafeConvertFrom(const AnyValue& v);
  AnyValue& operator[](const std::string& name);
  const AnyValue& operator[](const std::string& name) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;
  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const;

  template <typename T>
  T As() const
  {
    T result{};
    if (!Extract(result))
    {
      throw InvalidConversionException("AnyValue::As(): conversion not possible");
    }
    return result;
  }
  template <typename T>
  bool As(T& result) const
  {
    return Extract(result);
  }

  struct Rep;

private:
  bool Extract(AnyValue& v) const;
  bool Extract(std::string& v) const;
  bool Extract(bool& v) const;
  template <typename T>
  typename std::enable_if<std::is_arithmetic<T>::value, bool>::type Extract(T& v) const
  {
    bool is_float = false, neg = false;
    unsigned long long u = 0;
    long double d = 0;
    if (!Number(is_float, neg, u, d)) return false;
    if (std::is_floating_point<T>::value)
    {
      v = static_cast<T>(is_float ? d : (neg ? -static_cast<long double>(u) : static_cast<long double>(u)));
      return true;
    }
    if (is_float) return false;
    if (neg)
    {
      if (!std::is_signed<T>::value) return false;
      auto s = -static_cast<long long>(u);
      v = static_cast<T>(s);
      return static_cast<long long>(v) == s;
    }
    v = static_cast<T>(u);
    return v >= T(0) && static_cast<unsigned long long>(v) == u;
  }
  bool Number(bool& is_float, bool& neg, unsigned long long& u, long double& d) const;
  std::unique_ptr<Rep> m_rep;
};

AnyValue EmptyStruct(const std::string& type_name = {});
bool IsEmptyValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);
template <typename T>
AnyValue ArrayValue(std::initializer_list<T> l)
{
  AnyValue e(*l.begin());
  AnyValue r(0, e.GetType());
  for (auto& x : l) r.AddElement(AnyValue(x));
  return r;
}
AnyValue ArrayValue(std::initializer_list<AnyValue> l, const std::string& name = {});
}  // namespace dto
}  // namespace sup
#endif
