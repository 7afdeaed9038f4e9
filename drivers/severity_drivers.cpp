// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/log_severity.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>


namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- severity round trip
log::Severity SevRoundTrip(int s)
{
  return log::GetSeverityFromString(log::SeverityString(s));
}
}  // namespace oacdrv
