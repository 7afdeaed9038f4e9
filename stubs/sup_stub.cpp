// Working minimal implementation of the stand-in sup-dto / sup-utils headers in this folder.
// Never used by a check (checks only parse the headers): it exists so that findings and
// planted bugs in files that need sup-dto can be confirmed against the real oac-tree code.
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>
#include <sup/log/default_loggers.h>
#include <sup/xml/exceptions.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

namespace sup
{
namespace dto
{
// ---------------------------------------------------------------- AnyType
struct AnyType::Rep
{
  TypeCode code{TypeCode::Empty};
  std::string name;
  std::vector<std::pair<std::string, AnyType>> members;
  std::vector<AnyType> elem;
  std::size_t n{0};
};
static const char* kNames[] = {"empty",  "bool",  "char8",  "int8",    "uint8",   "int16",
                               "uint16", "int32", "uint32", "int64",   "uint64",  "float32",
                               "float64", "string", "", ""};
AnyType::AnyType() : m_rep{new Rep} {}
AnyType::AnyType(TypeCode c) : m_rep{new Rep} { m_rep->code = c; }
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> m, const std::string& name)
  : m_rep{new Rep}
{
  m_rep->code = TypeCode::Struct;
  m_rep->name = name;
  for (auto& x : m) m_rep->members.push_back(x);
}
AnyType::AnyType(std::size_t size, const AnyType& e, const std::string& name) : m_rep{new Rep}
{
  m_rep->code = TypeCode::Array;
  m_rep->name = name;
  m_rep->n = size;
  m_rep->elem.push_back(e);
}
AnyType AnyType::EmptyStructNamed(const std::string& name)
{
  AnyType t(TypeCode::Struct);
  t.m_rep->name = name;
  return t;
}
AnyType::AnyType(const AnyType& o) : m_rep{new Rep(*o.m_rep)} {}
AnyType::AnyType(AnyType&& o) : m_rep{new Rep(*o.m_rep)} {}
AnyType& AnyType::operator=(const AnyType& o)
{
  m_rep.reset(new Rep(*o.m_rep));
  return *this;
}
AnyType& AnyType::operator=(AnyType&& o)
{
  m_rep.reset(new Rep(*o.m_rep));
  return *this;
}
AnyType::~AnyType() = default;
TypeCode AnyType::GetTypeCode() const { return m_rep->code; }
std::string AnyType::GetTypeName() const
{
  if (m_rep->code == TypeCode::Struct || m_rep->code == TypeCode::Array) return m_rep->name;
  return kNames[(int)m_rep->code];
}
static const AnyType* FindT(const AnyType& t, const std::string& name);
bool AnyType::HasField(const std::string& name) const
{
  for (auto& m : m_rep->members)
    if (m.first == name) return true;
  return false;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> r;
  for (auto& m : m_rep->members) r.push_back(m.first);
  return r;
}
std::size_t AnyType::NumberOfMembers() const { return m_rep->members.size(); }
std::size_t AnyType::NumberOfElements() const { return m_rep->n; }
AnyType& AnyType::AddMember(const std::string& name, const AnyType& t)
{
  m_rep->members.emplace_back(name, t);
  return *this;
}
AnyType AnyType::ElementType() const
{
  if (m_rep->elem.empty()) throw InvalidOperationException("no element type");
  return m_rep->elem[0];
}
AnyType& AnyType::operator[](const std::string& name)
{
  for (auto& m : m_rep->members)
    if (m.first == name) return m.second;
  throw InvalidOperationException("unknown member " + name);
}
const AnyType& AnyType::operator[](const std::string& name) const
{
  return const_cast<AnyType&>(*this)[name];
}
bool AnyType::operator==(const AnyType& o) const
{
  return m_rep->code == o.m_rep->code && GetTypeName() == o.GetTypeName() && m_rep->n == o.m_rep->n
         && m_rep->members == o.m_rep->members && m_rep->elem == o.m_rep->elem;
}
bool AnyType::operator!=(const AnyType& o) const { return !(*this == o); }
const AnyType EmptyType;
const AnyType BooleanType(TypeCode::Bool);
const AnyType Character8Type(TypeCode::Char8);
const AnyType SignedInteger8Type(TypeCode::Int8);
const AnyType UnsignedInteger8Type(TypeCode::UInt8);
const AnyType SignedInteger16Type(TypeCode::Int16);
const AnyType UnsignedInteger16Type(TypeCode::UInt16);
const AnyType SignedInteger32Type(TypeCode::Int32);
const AnyType UnsignedInteger32Type(TypeCode::UInt32);
const AnyType SignedInteger64Type(TypeCode::Int64);
const AnyType UnsignedInteger64Type(TypeCode::UInt64);
const AnyType Float32Type(TypeCode::Float32);
const AnyType Float64Type(TypeCode::Float64);
const AnyType StringType(TypeCode::String);
AnyType EmptyStructType(const std::string& name) { return AnyType::EmptyStructNamed(name); }
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t)
{
  return !IsEmptyType(t) && !IsStructType(t) && !IsArrayType(t);
}
// ---------------------------------------------------------------- AnyValue
struct AnyValue::Rep
{
  AnyType type;
  bool neg{false};
  unsigned long long u{0};
  long double d{0};
  std::string s;
  std::vector<std::pair<std::string, AnyValue>> members;
  std::vector<AnyValue> elems;
  bool is_elem{false};  // type is locked
};
static AnyValue::Rep* NewRep(const AnyType& t)
{
  auto r = new AnyValue::Rep;
  r->type = t;
  if (IsStructType(t))
    for (auto& n : t.MemberNames()) r->members.emplace_back(n, AnyValue(t[n]));
  if (IsArrayType(t))
    for (std::size_t i = 0; i < t.NumberOfElements(); ++i)
      r->elems.push_back(AnyValue(t.ElementType()));
  return r;
}
AnyValue::AnyValue() : m_rep{new Rep} {}
AnyValue::AnyValue(const AnyType& t) : m_rep{NewRep(t)} {}
#define S(T, C)                                       \
  AnyValue::AnyValue(T v) : m_rep{new Rep}            \
  {                                                   \
    m_rep->type = AnyType(TypeCode::C);               \
    m_rep->neg = v < T(0);                            \
    m_rep->u = m_rep->neg ? -(unsigned long long)(long long)v : (unsigned long long)v; \
  }
AnyValue::AnyValue(boolean v) : m_rep{new Rep}
{
  m_rep->type = AnyType(TypeCode::Bool);
  m_rep->u = v;
}
S(char8, Char8)
S(int8, Int8)
S(uint8, UInt8)
S(int16, Int16)
S(uint16, UInt16)
S(int32, Int32)
S(uint32, UInt32)
S(int64, Int64)
S(uint64, UInt64)
AnyValue::AnyValue(float32 v) : m_rep{new Rep}
{
  m_rep->type = AnyType(TypeCode::Float32);
  m_rep->d = v;
}
AnyValue::AnyValue(float64 v) : m_rep{new Rep}
{
  m_rep->type = AnyType(TypeCode::Float64);
  m_rep->d = v;
}
AnyValue::AnyValue(const std::string& v) : m_rep{new Rep}
{
  m_rep->type = StringType.GetTypeCode() == TypeCode::String ? StringType : AnyType(TypeCode::String);
  m_rep->s = v;
}
AnyValue::AnyValue(const char* v) : AnyValue(std::string(v)) {}
AnyValue::AnyValue(const AnyType& t, const AnyValue& v) : m_rep{NewRep(t)} { ConvertFrom(v); }
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> l,
                   const std::string& type_name)
  : m_rep{new Rep}
{
  m_rep->type = EmptyStructType(type_name);
  for (auto& x : l) m_rep->members.push_back(x);
}
AnyValue::AnyValue(std::size_t n, const AnyType& e, const std::string& name)
  : m_rep{NewRep(AnyType(n, e, name))}
{
}
AnyValue::AnyValue(const AnyValue& o) : m_rep{new Rep(*o.m_rep)} {}
AnyValue::AnyValue(AnyValue&& o) : m_rep{new Rep(*o.m_rep)} {}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  m_rep.reset(new Rep(*o.m_rep));
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& o)
{
  m_rep.reset(new Rep(*o.m_rep));
  return *this;
}
AnyValue::~AnyValue() = default;
AnyType AnyValue::GetType() const
{
  if (IsStructType(m_rep->type))
  {
    AnyType t = EmptyStructType(m_rep->type.GetTypeName());
    for (auto& m : m_rep->members) t.AddMember(m.first, m.second.GetType());
    return t;
  }
  if (IsArrayType(m_rep->type))
    return AnyType(m_rep->elems.size(), m_rep->type.ElementType(), m_rep->type.GetTypeName());
  return m_rep->type;
}
TypeCode AnyValue::GetTypeCode() const { return m_rep->type.GetTypeCode(); }
std::string AnyValue::GetTypeName() const { return m_rep->type.GetTypeName(); }
static AnyValue* Find(AnyValue& v, const std::string& path);
struct Acc
{
  static std::vector<std::pair<std::string, AnyValue>>& M(AnyValue& v);
};
std::vector<std::string> AnyValue::MemberNames() const
{
  std::vector<std::string> r;
  for (auto& m : m_rep->members) r.push_back(m.first);
  return r;
}
std::vector<std::string> AnyValue::ChildNames() const { return MemberNames(); }
std::size_t AnyValue::NumberOfMembers() const { return m_rep->members.size(); }
std::size_t AnyValue::NumberOfElements() const
{
  if (!IsArrayType(m_rep->type)) return 0;
  return m_rep->elems.size();
}
static bool NextTok(const std::string& p, std::size_t& i, std::string& tok, bool& idx)
{
  if (i >= p.size()) return false;
  if (p[i] == '.') ++i;
  idx = false;
  if (i < p.size() && p[i] == '[')
  {
    auto e = p.find(']', i);
    if (e == std::string::npos) throw InvalidOperationException("bad field " + p);
    tok = p.substr(i + 1, e - i - 1);
    idx = true;
    i = e + 1;
    return true;
  }
  auto e = p.find_first_of(".[", i);
  if (e == std::string::npos) e = p.size();
  tok = p.substr(i, e - i);
  i = e;
  return true;
}
bool AnyValue::HasField(const std::string& name) const
{
  try
  {
    (void)(*this)[name];
    return true;
  }
  catch (const MessageException&)
  {
    return false;
  }
}
AnyValue& AnyValue::operator[](const std::string& path)
{
  AnyValue* cur = this;
  std::size_t i = 0;
  std::string tok;
  bool idx;
  while (NextTok(path, i, tok, idx))
  {
    if (idx)
    {
      std::size_t k = std::stoul(tok);
      if (k >= cur->m_rep->elems.size()) throw InvalidOperationException("index out of range");
      cur = &cur->m_rep->elems[k];
      continue;
    }
    AnyValue* n = nullptr;
    for (auto& m : cur->m_rep->members)
      if (m.first == tok) n = &m.second;
    if (!n) throw InvalidOperationException("unknown field " + path);
    cur = n;
  }
  return *cur;
}
const AnyValue& AnyValue::operator[](const std::string& name) const
{
  return const_cast<AnyValue&>(*this)[name];
}
AnyValue& AnyValue::operator[](std::size_t i)
{
  if (i >= m_rep->elems.size()) throw InvalidOperationException("index out of range");
  return m_rep->elems[i];
}
const AnyValue& AnyValue::operator[](std::size_t i) const { return const_cast<AnyValue&>(*this)[i]; }
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& v)
{
  if (!IsStructType(m_rep->type)) throw InvalidOperationException("AddMember: not a struct");
  for (auto& m : m_rep->members)
    if (m.first == name) throw InvalidOperationException("AddMember: duplicate member");
  m_rep->members.emplace_back(name, v);
  return *this;
}
AnyValue& AnyValue::AddElement(const AnyValue& v)
{
  if (!IsArrayType(m_rep->type)) throw InvalidOperationException("AddElement: not an array");
  AnyValue e(m_rep->type.ElementType());
  e.ConvertFrom(v);
  m_rep->elems.push_back(e);
  return *this;
}
bool AnyValue::Number(bool& f, bool& neg, unsigned long long& u, long double& d) const
{
  auto c = m_rep->type.GetTypeCode();
  if (!IsScalarType(m_rep->type) || c == TypeCode::String) return false;
  f = c == TypeCode::Float32 || c == TypeCode::Float64;
  neg = m_rep->neg;
  u = m_rep->u;
  d = m_rep->d;
  return true;
}
bool AnyValue::Extract(AnyValue& v) const
{
  v = *this;
  return true;
}
bool AnyValue::Extract(std::string& v) const
{
  if (GetTypeCode() != TypeCode::String) return false;
  v = m_rep->s;
  return true;
}
bool AnyValue::Extract(bool& v) const
{
  bool f, n;
  unsigned long long u;
  long double d;
  if (!Number(f, n, u, d)) return false;
  v = f ? d != 0 : u != 0;
  return true;
}
template <typename T>
static void Conv(AnyValue& dst, const AnyValue& src)
{
  T t{};
  if (!src.As(t)) throw InvalidConversionException("conversion not possible");
  dst = AnyValue(t);
}
AnyValue& AnyValue::ConvertFrom(const AnyValue& v)
{
  switch (GetTypeCode())
  {
  case TypeCode::Empty:
    if (v.GetTypeCode() != TypeCode::Empty) throw InvalidConversionException("to empty");
    break;
  case TypeCode::Bool: Conv<bool>(*this, v); break;
  case TypeCode::Char8: Conv<char8>(*this, v); break;
  case TypeCode::Int8: Conv<int8>(*this, v); break;
  case TypeCode::UInt8: Conv<uint8>(*this, v); break;
  case TypeCode::Int16: Conv<int16>(*this, v); break;
  case TypeCode::UInt16: Conv<uint16>(*this, v); break;
  case TypeCode::Int32: Conv<int32>(*this, v); break;
  case TypeCode::UInt32: Conv<uint32>(*this, v); break;
  case TypeCode::Int64: Conv<int64>(*this, v); break;
  case TypeCode::UInt64: Conv<uint64>(*this, v); break;
  case TypeCode::Float32: Conv<float32>(*this, v); break;
  case TypeCode::Float64: Conv<float64>(*this, v); break;
  case TypeCode::String: Conv<std::string>(*this, v); break;
  case TypeCode::Struct:
    if (v.MemberNames() != MemberNames()) throw InvalidConversionException("struct conversion");
    for (auto& m : m_rep->members) m.second.ConvertFrom(v[m.first]);
    break;
  case TypeCode::Array:
    if (!IsArrayType(v.m_rep->type) || v.NumberOfElements() != NumberOfElements())
      throw InvalidConversionException("array conversion");
    for (std::size_t i = 0; i < m_rep->elems.size(); ++i) m_rep->elems[i].ConvertFrom(v[i]);
    break;
  }
  return *this;
}
void AnyValue::UnsafeConvertFrom(const AnyValue& v) { ConvertFrom(v); }
bool AnyValue::operator==(const AnyValue& o) const
{
  if (IsScalarType(m_rep->type) && IsScalarType(o.m_rep->type))
  {
    if (GetTypeCode() == TypeCode::String || o.GetTypeCode() == TypeCode::String)
      return GetTypeCode() == o.GetTypeCode() && m_rep->s == o.m_rep->s;
    return Compare(*this, o) == CompareResult::Equivalent;
  }
  return GetTypeCode() == o.GetTypeCode() && GetTypeName() == o.GetTypeName()
         && m_rep->members == o.m_rep->members && m_rep->elems == o.m_rep->elems;
}
bool AnyValue::operator!=(const AnyValue& o) const { return !(*this == o); }
AnyValue EmptyStruct(const std::string& n) { return AnyValue(EmptyStructType(n)); }
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsScalarValue(const AnyValue& v) { return IsScalarType(v.GetType()); }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool TryAssign(AnyValue& d, const AnyValue& s)
{
  d = s;
  return true;
}
bool TryConvert(AnyValue& d, const AnyValue& s)
{
  AnyValue tmp(d);
  try
  {
    tmp.ConvertFrom(s);
  }
  catch (const MessageException&)
  {
    return false;
  }
  d = tmp;
  return true;
}
bool TryAssignIfEmptyOrConvert(AnyValue& d, const AnyValue& s)
{
  if (IsEmptyValue(d))
  {
    d = s;
    return true;
  }
  return TryConvert(d, s);
}
AnyValue ArrayValue(std::initializer_list<AnyValue> l, const std::string& name)
{
  AnyValue r(0, l.begin()->GetType(), name);
  for (auto& x : l) r.AddElement(x);
  return r;
}
CompareResult Compare(const AnyValue& a, const AnyValue& b)
{
  if (a.GetTypeCode() == TypeCode::String && b.GetTypeCode() == TypeCode::String)
  {
    auto x = a.As<std::string>(), y = b.As<std::string>();
    return x == y ? CompareResult::Equivalent : x < y ? CompareResult::Less : CompareResult::Greater;
  }
  auto num = [](const AnyValue& v, long double& r) {
    if (!IsScalarValue(v) || v.GetTypeCode() == TypeCode::String) return false;
    if (v.GetTypeCode() == TypeCode::Float32 || v.GetTypeCode() == TypeCode::Float64)
      r = v.As<float64>();
    else if (v.GetTypeCode() == TypeCode::UInt64)
      r = v.As<uint64>();
    else
      r = v.As<int64>();
    return true;
  };
  long double x, y;
  if (!num(a, x) || !num(b, y)) return CompareResult::Unordered;
  if (x < y) return CompareResult::Less;
  if (x > y) return CompareResult::Greater;
  return x == y ? CompareResult::Equivalent : CompareResult::Unordered;
}
static bool Add(AnyValue& v, int k)
{
  switch (v.GetTypeCode())
  {
#define I(C, T) \
  case TypeCode::C: v = AnyValue(static_cast<T>(v.As<T>() + k)); return true;
    I(Char8, char8) I(Int8, int8) I(UInt8, uint8) I(Int16, int16) I(UInt16, uint16) I(Int32, int32)
    I(UInt32, uint32) I(Int64, int64) I(UInt64, uint64) I(Float32, float32) I(Float64, float64)
  default: return false;
  }
}
bool Increment(AnyValue& v) { return Add(v, 1); }
bool Decrement(AnyValue& v) { return Add(v, -1); }
AnyTypeRegistry::AnyTypeRegistry() = default;
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(const AnyType& t) { RegisterType(t.GetTypeName(), t); }
void AnyTypeRegistry::RegisterType(const std::string& n, const AnyType& t)
{
  auto it = m_types.find(n);
  if (it != m_types.end())
  {
    if (it->second == t) return;
    throw InvalidOperationException("RegisterType: conflicting type");
  }
  m_types.emplace(n, t);
}
bool AnyTypeRegistry::HasType(const std::string& n) const { return m_types.count(n) > 0; }
AnyType AnyTypeRegistry::GetType(const std::string& n) const
{
  auto it = m_types.find(n);
  if (it == m_types.end()) throw InvalidOperationException("unknown type");
  return it->second;
}
// ---------------------------------------------------------------- JSON
namespace
{
struct J
{
  enum K { Null, Bool, Num, Str, Arr, Obj } k{Null};
  bool b{false};
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  const J* get(const std::string& n) const
  {
    for (auto& x : o)
      if (x.first == n) return &x.second;
    return nullptr;
  }
};
struct JP
{
  const std::string& t;
  std::size_t i{0};
  void ws()
  {
    while (i < t.size() && isspace((unsigned char)t[i])) ++i;
  }
  bool val(J& j)
  {
    ws();
    if (i >= t.size()) return false;
    char c = t[i];
    if (c == '{')
    {
      j.k = J::Obj;
      ++i;
      ws();
      if (i < t.size() && t[i] == '}') return ++i, true;
      for (;;)
      {
        J key, v;
        if (!val(key) || key.k != J::Str) return false;
        ws();
        if (i >= t.size() || t[i++] != ':') return false;
        if (!val(v)) return false;
        j.o.emplace_back(key.s, v);
        ws();
        if (i >= t.size()) return false;
        if (t[i] == ',') { ++i; continue; }
        return t[i++] == '}';
      }
    }
    if (c == '[')
    {
      j.k = J::Arr;
      ++i;
      ws();
      if (i < t.size() && t[i] == ']') return ++i, true;
      for (;;)
      {
        J v;
        if (!val(v)) return false;
        j.a.push_back(v);
        ws();
        if (i >= t.size()) return false;
        if (t[i] == ',') { ++i; continue; }
        return t[i++] == ']';
      }
    }
    if (c == '"')
    {
      j.k = J::Str;
      ++i;
      while (i < t.size() && t[i] != '"')
      {
        if (t[i] == '\\' && i + 1 < t.size())
        {
          ++i;
          char e = t[i++];
          j.s += e == 'n' ? '\n' : e == 't' ? '\t' : e;
        }
        else
          j.s += t[i++];
      }
      if (i >= t.size()) return false;
      ++i;
      return true;
    }
    if (t.compare(i, 4, "true") == 0) { j.k = J::Bool; j.b = true; i += 4; return true; }
    if (t.compare(i, 5, "false") == 0) { j.k = J::Bool; i += 5; return true; }
    if (t.compare(i, 4, "null") == 0) { i += 4; return true; }
    j.k = J::Num;
    while (i < t.size() && (isalnum((unsigned char)t[i]) || strchr("+-.", t[i]))) j.s += t[i++];
    return !j.s.empty() && (isdigit((unsigned char)j.s[0]) || (j.s[0] == '-' && j.s.size() > 1));
  }
};
bool ParseJ(const std::string& s, J& j)
{
  JP p{s};
  if (!p.val(j)) return false;
  p.ws();
  return p.i == s.size();
}
bool JType(const J& j, AnyType& t, const AnyTypeRegistry* reg)
{
  if (j.k != J::Obj) return false;
  auto ty = j.get("type");
  if (!ty || ty->k != J::Str) return false;
  if (auto at = j.get("attributes"))
  {
    t = EmptyStructType(ty->s);
    for (auto& m : at->a)
    {
      if (m.k != J::Obj || m.o.size() != 1) return false;
      AnyType mt;
      if (!JType(m.o[0].second, mt, reg)) return false;
      t.AddMember(m.o[0].first, mt);
    }
    return true;
  }
  if (auto el = j.get("element"))
  {
    AnyType et;
    auto mu = j.get("multiplicity");
    if (!JType(*el, et, reg)) return false;
    t = AnyType(mu ? std::stoul(mu->s) : 0, et, ty->s);
    return true;
  }
  if (ty->s.empty()) { t = AnyType(); return true; }
  for (int c = 0; c <= (int)TypeCode::String; ++c)
    if (ty->s == kNames[c]) { t = AnyType((TypeCode)c); return true; }
  if (reg && reg->HasType(ty->s)) { t = reg->GetType(ty->s); return true; }
  return false;
}
template <typename T>
bool NumV(const J& j, AnyValue& v)
{
  if (j.k != J::Num) return false;
  std::istringstream is(j.s);
  if (std::is_floating_point<T>::value)
  {
    double d;
    is >> d;
    if (is.fail() || is.peek() != EOF) return false;
    v = AnyValue(static_cast<T>(d));
    return true;
  }
  if (j.s[0] == '-')
  {
    long long l;
    is >> l;
    if (is.fail() || is.peek() != EOF) return false;
    T t = static_cast<T>(l);
    if (!std::is_signed<T>::value || static_cast<long long>(t) != l) return false;
    v = AnyValue(t);
    return true;
  }
  unsigned long long u;
  is >> u;
  if (is.fail() || is.peek() != EOF) return false;
  T t = static_cast<T>(u);
  if (t < T(0) || static_cast<unsigned long long>(t) != u) return false;
  v = AnyValue(t);
  return true;
}
bool JValue(const J& j, const AnyType& t, AnyValue& v)
{
  switch (t.GetTypeCode())
  {
  case TypeCode::Empty: v = AnyValue(); return true;
  case TypeCode::Bool:
    if (j.k != J::Bool) return false;
    v = AnyValue(j.b);
    return true;
  case TypeCode::Char8: return NumV<char8>(j, v);
  case TypeCode::Int8: return NumV<int8>(j, v);
  case TypeCode::UInt8: return NumV<uint8>(j, v);
  case TypeCode::Int16: return NumV<int16>(j, v);
  case TypeCode::UInt16: return NumV<uint16>(j, v);
  case TypeCode::Int32: return NumV<int32>(j, v);
  case TypeCode::UInt32: return NumV<uint32>(j, v);
  case TypeCode::Int64: return NumV<int64>(j, v);
  case TypeCode::UInt64: return NumV<uint64>(j, v);
  case TypeCode::Float32: return NumV<float32>(j, v);
  case TypeCode::Float64: return NumV<float64>(j, v);
  case TypeCode::String:
    if (j.k != J::Str) return false;
    v = AnyValue(j.s);
    return true;
  case TypeCode::Struct:
  {
    if (j.k != J::Obj) return false;
    v = EmptyStruct(t.GetTypeName());
    for (auto& n : t.MemberNames())
    {
      auto m = j.get(n);
      AnyValue mv;
      if (!m || !JValue(*m, t[n], mv)) return false;
      v.AddMember(n, mv);
    }
    return true;
  }
  case TypeCode::Array:
  {
    if (j.k != J::Arr) return false;
    if (t.NumberOfElements() != 0 && t.NumberOfElements() != j.a.size()) return false;
    v = AnyValue(0, t.ElementType(), t.GetTypeName());
    for (auto& e : j.a)
    {
      AnyValue ev;
      if (!JValue(e, t.ElementType(), ev)) return false;
      v.AddElement(ev);
    }
    return true;
  }
  }
  return false;
}
std::string Quote(const std::string& s)
{
  std::string r = "\"";
  for (char c : s)
  {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r + "\"";
}
std::string Slurp(const std::string& f, bool& ok)
{
  std::ifstream in(f);
  ok = in.good();
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
}  // namespace
std::string AnyTypeToJSONString(const AnyType& t, bool)
{
  if (IsStructType(t))
  {
    std::string r = "{\"type\":" + Quote(t.GetTypeName()) + ",\"attributes\":[";
    bool first = true;
    for (auto& n : t.MemberNames())
    {
      r += (first ? "" : ",") + ("{" + Quote(n)) + ":" + AnyTypeToJSONString(t[n]) + "}";
      first = false;
    }
    return r + "]}";
  }
  if (IsArrayType(t))
    return "{\"type\":" + Quote(t.GetTypeName())
           + ",\"multiplicity\":" + std::to_string(t.NumberOfElements())
           + ",\"element\":" + AnyTypeToJSONString(t.ElementType()) + "}";
  if (IsEmptyType(t)) return "{\"type\":\"\"}";
  return "{\"type\":" + Quote(t.GetTypeName()) + "}";
}
AnyType AnyTypeFromJSONString(const std::string& json) { return AnyTypeFromJSONString(nullptr, json); }
AnyType AnyTypeFromJSONString(const AnyTypeRegistry* reg, const std::string& json)
{
  J j;
  AnyType t;
  if (!ParseJ(json, j) || !JType(j, t, reg)) throw ParseException("json type");
  return t;
}
std::string PrintAnyType(const AnyType& t) { return AnyTypeToJSONString(t) + "\n"; }
std::string ValuesToJSONString(const AnyValue& v, bool)
{
  std::ostringstream o;
  switch (v.GetTypeCode())
  {
  case TypeCode::Empty: return "null";
  case TypeCode::Bool: return v.As<bool>() ? "true" : "false";
  case TypeCode::String: return Quote(v.As<std::string>());
  case TypeCode::Float32:
  case TypeCode::Float64:
    o.precision(17);
    o << v.As<float64>();
    if (o.str().find_first_of(".en") == std::string::npos) o << ".0";
    return o.str();
  case TypeCode::UInt64: return std::to_string(v.As<uint64>());
  case TypeCode::Struct:
  {
    o << "{";
    bool first = true;
    for (auto& n : v.MemberNames())
    {
      o << (first ? "" : ",") << Quote(n) << ":" << ValuesToJSONString(v[n]);
      first = false;
    }
    o << "}";
    return o.str();
  }
  case TypeCode::Array:
    o << "[";
    for (std::size_t i = 0; i < v.NumberOfElements(); ++i)
      o << (i ? "," : "") << ValuesToJSONString(v[i]);
    o << "]";
    return o.str();
  default: return std::to_string(v.As<int64>());
  }
}
std::string AnyValueToJSONString(const AnyValue& v, bool)
{
  return "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":" + AnyTypeToJSONString(v.GetType())
         + "},{\"instance\":" + ValuesToJSONString(v) + "}]";
}
void AnyValueToJSONFile(const AnyValue& v, const std::string& f, bool)
{
  std::ofstream o(f);
  if (!o.good()) throw SerializeException("cannot open file " + f);
  o << AnyValueToJSONString(v);
}
std::string PrintAnyValue(const AnyValue& v) { return ValuesToJSONString(v) + "\n"; }
AnyValue AnyValueFromJSONString(const std::string& s)
{
  JSONAnyValueParser p;
  if (!p.ParseString(s)) throw ParseException("json value");
  return p.MoveAnyValue();
}
AnyValue AnyValueFromJSONFile(const std::string& f)
{
  JSONAnyValueParser p;
  if (!p.ParseFile(f)) throw ParseException("json value");
  return p.MoveAnyValue();
}
JSONAnyTypeParser::JSONAnyTypeParser() = default;
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseFile(const std::string& f, const AnyTypeRegistry* reg)
{
  bool ok;
  auto s = Slurp(f, ok);
  return ok && ParseString(s, reg);
}
bool JSONAnyTypeParser::ParseString(const std::string& s, const AnyTypeRegistry* reg)
{
  J j;
  m_type = AnyType();
  return ParseJ(s, j) && JType(j, m_type, reg);
}
AnyType JSONAnyTypeParser::MoveAnyType() { return std::move(m_type); }
JSONAnyValueParser::JSONAnyValueParser() = default;
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseFile(const std::string& f, const AnyTypeRegistry* reg)
{
  bool ok;
  auto s = Slurp(f, ok);
  return ok && ParseString(s, reg);
}
bool JSONAnyValueParser::ParseString(const std::string& s, const AnyTypeRegistry* reg)
{
  J j;
  if (!ParseJ(s, j) || j.k != J::Arr || j.a.size() != 3) return false;
  auto d = j.a[1].get("datatype");
  auto i = j.a[2].get("instance");
  AnyType t;
  return d && i && JType(*d, t, reg) && JValue(*i, t, m_value);
}
bool JSONAnyValueParser::TypedParseFile(const AnyType& t, const std::string& f)
{
  bool ok;
  auto s = Slurp(f, ok);
  return ok && TypedParseString(t, s);
}
bool JSONAnyValueParser::TypedParseString(const AnyType& t, const std::string& s)
{
  J j;
  return ParseJ(s, j) && JValue(j, t, m_value);
}
AnyValue JSONAnyValueParser::MoveAnyValue() { return std::move(m_value); }
}  // namespace dto
// ---------------------------------------------------------------- XML
namespace xml
{
TreeData::TreeData(const std::string& n) : m_name{n} {}
TreeData::~TreeData() = default;
TreeData::TreeData(const TreeData&) = default;
TreeData::TreeData(TreeData&&) = default;
TreeData& TreeData::operator=(const TreeData&) = default;
TreeData& TreeData::operator=(TreeData&&) = default;
const std::string& TreeData::GetNodeName() const { return m_name; }
std::string TreeData::GetContent() const { return m_content; }
void TreeData::SetContent(const std::string& c) { m_content = c; }
bool TreeData::HasAttribute(const std::string& n) const
{
  for (auto& a : m_attributes)
    if (a.first == n) return true;
  return false;
}
std::string TreeData::GetAttribute(const std::string& n) const
{
  for (auto& a : m_attributes)
    if (a.first == n) return a.second;
  throw std::runtime_error("no attribute");
}
void TreeData::AddAttribute(const std::string& n, const std::string& v)
{
  m_attributes.emplace_back(n, v);
}
const std::vector<std::pair<std::string, std::string>>& TreeData::Attributes() const
{
  return m_attributes;
}
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
int TreeData::GetNumberOfChildren() const { return m_children.size(); }
int TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
void TreeData::AddChild(const TreeData& c) { m_children.push_back(c); }
bool TreeData::operator==(const TreeData& o) const
{
  return m_name == o.m_name && m_content == o.m_content && m_attributes == o.m_attributes
         && m_children == o.m_children;
}
bool TreeData::operator!=(const TreeData& o) const { return !(*this == o); }
namespace
{
std::string Unesc(const std::string& s)
{
  static const std::pair<const char*, char> e[] = {
      {"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
  std::string r;
  for (std::size_t i = 0; i < s.size();)
  {
    bool done = false;
    if (s[i] == '&')
      for (auto& x : e)
        if (s.compare(i, strlen(x.first), x.first) == 0)
        {
          r += x.second;
          i += strlen(x.first);
          done = true;
          break;
        }
    if (!done) r += s[i++];
  }
  return r;
}
std::string Esc(const std::string& s)
{
  std::string r;
  for (char c : s)
    switch (c)
    {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    default: r += c;
    }
  return r;
}
struct XP
{
  const std::string& t;
  std::size_t i{0};
  void skip()
  {
    for (;;)
    {
      while (i < t.size() && isspace((unsigned char)t[i])) ++i;
      if (t.compare(i, 4, "<!--") == 0)
      {
        auto e = t.find("-->", i);
        i = e == std::string::npos ? t.size() : e + 3;
        continue;
      }
      if (t.compare(i, 2, "<?") == 0)
      {
        auto e = t.find("?>", i);
        i = e == std::string::npos ? t.size() : e + 2;
        continue;
      }
      return;
    }
  }
  std::string name()
  {
    std::string r;
    while (i < t.size() && !isspace((unsigned char)t[i]) && !strchr("=/>", t[i])) r += t[i++];
    return r;
  }
  std::unique_ptr<TreeData> elem()
  {
    if (i >= t.size() || t[i] != '<') return nullptr;
    ++i;
    auto n = name();
    std::unique_ptr<TreeData> d(new TreeData(n));
    for (;;)
    {
      while (i < t.size() && isspace((unsigned char)t[i])) ++i;
      if (i >= t.size()) return nullptr;
      if (t[i] == '/')
      {
        i += 2;
        return d;
      }
      if (t[i] == '>')
      {
        ++i;
        break;
      }
      auto a = name();
      while (i < t.size() && t[i] != '"' && t[i] != '\'') ++i;
      if (i >= t.size()) return nullptr;
      char q = t[i++];
      auto e = t.find(q, i);
      if (e == std::string::npos) return nullptr;
      auto an = a.find(':') == std::string::npos ? a : a.substr(a.find(':') + 1);
      if (a.compare(0, 5, "xmlns") != 0) d->AddAttribute(an, Unesc(t.substr(i, e - i)));
      i = e + 1;
    }
    std::string content;
    for (;;)
    {
      auto e = t.find('<', i);
      if (e == std::string::npos) return nullptr;
      content += t.substr(i, e - i);
      i = e;
      skip();
      if (i >= t.size()) return nullptr;
      if (t.compare(i, 2, "</") == 0)
      {
        i = t.find('>', i);
        if (i == std::string::npos) return nullptr;
        ++i;
        break;
      }
      if (t[i] != '<') continue;
      auto c = elem();
      if (!c) return nullptr;
      d->AddChild(*c);
    }
    auto b = content.find_first_not_of(" \t\r\n");
    if (b != std::string::npos)
    {
      auto e = content.find_last_not_of(" \t\r\n");
      d->SetContent(Unesc(content.substr(b, e - b + 1)));
    }
    return d;
  }
};
void Ser(const TreeData& d, std::string& o, int ind)
{
  std::string pad(ind * 2, ' ');
  o += pad + "<" + d.GetNodeName();
  for (auto& a : d.Attributes()) o += " " + a.first + "=\"" + Esc(a.second) + "\"";
  if (d.Children().empty() && d.GetContent().empty())
  {
    o += "/>\n";
    return;
  }
  o += ">";
  o += Esc(d.GetContent());
  if (!d.Children().empty())
  {
    o += "\n";
    for (auto& c : d.Children()) Ser(c, o, ind + 1);
    o += pad;
  }
  o += "</" + d.GetNodeName() + ">\n";
}
}  // namespace
std::unique_ptr<TreeData> TreeDataFromString(const std::string& s)
{
  XP p{s};
  p.skip();
  auto r = p.elem();
  if (!r) throw ParseException("malformed xml");
  return r;
}
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& f)
{
  std::ifstream in(f);
  if (!in.good()) throw ParseException("cannot open file " + f);
  std::ostringstream o;
  o << in.rdbuf();
  return TreeDataFromString(o.str());
}
std::string TreeDataToString(const TreeData& d)
{
  std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Ser(d, o, 0);
  return o;
}
void TreeDataToFile(const std::string& f, const TreeData& d)
{
  std::ofstream o(f);
  o << TreeDataToString(d);
}
}  // namespace xml
namespace log
{
std::string DefaultStdoutLogMessage(int, const std::string& s, const std::string& m)
{
  return s + ": " + m;
}
DefaultLogger CreateDefaultStdoutLogger(const std::string& source)
{
  return DefaultLogger([](int, const std::string& s, const std::string& m)
                       { std::cout << s << ": " << m << std::endl; },
                       source, 8);
}
DefaultLogger CreateDefaultSysLogger(const std::string& s) { return CreateDefaultStdoutLogger(s); }
}  // namespace log
}  // namespace sup
