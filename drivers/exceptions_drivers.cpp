// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/exceptions.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>


namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- exceptions
template <typename E>
std::string What(const std::string& m)
{
  E e(m);
  return e.what();
}
template <typename E>
std::string WhatCopied(const std::string& m)
{
  E e(m);
  E f(e);
  return f.what();
}
template <typename E>
int Caught(const std::string& m)
{
  try
  {
    throw E(m);
  }
  catch (const MessageException&)
  {
    return 1;
  }
  catch (const std::exception&)
  {
    return 2;
  }
  return 0;
}
#define EXC(X)                                         \
  template std::string What<X>(const std::string&);    \
  template std::string WhatCopied<X>(const std::string&); \
  template int Caught<X>(const std::string&);
EXC(MessageException)
EXC(RuntimeException)
EXC(InvalidOperationException)
EXC(ParseException)
EXC(ProcedureSetupException)
EXC(InstructionSetupException)
EXC(VariableSetupException)

}  // namespace oacdrv
