// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/procedure_preamble.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>


namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- preamble
std::string RegString(TypeRegistrationInfo::RegistrationMode mode, const std::string& s)
{
  TypeRegistrationInfo info{mode, s};
  return info.GetString();
}
TypeRegistrationInfo::RegistrationMode RegMode(TypeRegistrationInfo::RegistrationMode mode, const std::string& s)
{
  TypeRegistrationInfo info{mode, s};
  return info.GetRegistrationMode();
}
std::vector<std::string> PreamblePaths(const std::string& a, const std::string& b, const TypeRegistrationInfo& i)
{
  ProcedurePreamble p;
  p.AddPluginPath(a);
  p.AddTypeRegistration(i);
  p.AddPluginPath(b);
  return p.GetPluginPaths();
}
std::vector<TypeRegistrationInfo> PreambleTypes(const std::string& a, const TypeRegistrationInfo& i,
                                                const TypeRegistrationInfo& j)
{
  ProcedurePreamble p;
  p.AddTypeRegistration(i);
  p.AddPluginPath(a);
  p.AddTypeRegistration(j);
  return p.GetTypeRegistrations();
}

}  // namespace oacdrv
