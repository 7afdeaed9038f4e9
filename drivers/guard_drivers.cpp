// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/scope_guard.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>


namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- ScopeGuard
void GuardPlain(Fn f)
{
  ScopeGuard g{f};
}
void GuardDefault()
{
  ScopeGuard g;
}
void GuardMoveCtor(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b{std::move(a)};
}
void GuardMoveCtorMark(Fn f, Fn mark)
{
  ScopeGuard a{f};
  {
    ScopeGuard b{std::move(a)};
  }
  mark();
}
void GuardMoveAssignEmpty(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b;
  b = std::move(a);
}
void GuardMoveAssignMark(Fn f, Fn g, Fn mark)
{
  ScopeGuard a{f};
  {
    ScopeGuard b{g};
    b = std::move(a);
    mark();
  }
}
void GuardMoveAssignBoth(Fn f, Fn g)
{
  ScopeGuard a{f};
  ScopeGuard b{g};
  b = std::move(a);
}
void GuardMoveFromEmpty(Fn g, Fn mark)
{
  ScopeGuard a;
  ScopeGuard b{g};
  b = std::move(a);
  mark();
}
void GuardSwap(Fn f, Fn g, Fn mark)
{
  ScopeGuard a{f};
  {
    ScopeGuard b{g};
    a.Swap(b);
  }
  mark();
}
bool GuardValid(Fn f)
{
  ScopeGuard a{f};
  return a.IsValid();
}
bool GuardValidDefault()
{
  ScopeGuard a;
  return a.IsValid();
}
bool GuardValidMovedFrom(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b{std::move(a)};
  return a.IsValid();
}
bool GuardValidMovedTo(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b{std::move(a)};
  return b.IsValid();
}
bool GuardValidAssignedFrom(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b;
  b = std::move(a);
  return a.IsValid();
}
bool GuardValidAssignedTo(Fn f)
{
  ScopeGuard a{f};
  ScopeGuard b;
  b = std::move(a);
  return b.IsValid();
}

}  // namespace oacdrv
