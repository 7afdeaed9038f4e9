// Minimal stand-in for the sup-dto header of the same name: same names and
// signatures as far as oac-tree uses them. See /verif/stubs/README.md.
#ifndef VSTUB_SUP_DTO_BASIC_SCALAR_TYPES_H_
#define VSTUB_SUP_DTO_BASIC_SCALAR_TYPES_H_
#include <cstdint>
#include <string>
#include <utility>
namespace sup
{
namespace dto
{
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;

enum class TypeCode : uint32
{
  Empty = 0,
  Bool,
  Char8,
  Int8,
  UInt8,
  Int16,
  UInt16,
  Int32,
  UInt32,
  Int64,
  UInt64,
  Float32,
  Float64,
  String,
  Struct,
  Array
};
}  // namespace dto
}  // namespace sup
#endif
