// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/breakpoint.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>


namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- breakpoint
const Instruction* BpInstruction(const Instruction* i)
{
  Breakpoint b{i};
  return b.GetInstruction();
}
Breakpoint::Status BpInitial(const Instruction* i)
{
  Breakpoint b{i};
  return b.GetStatus();
}
Breakpoint::Status BpAfterSet(const Instruction* i, Breakpoint::Status s)
{
  Breakpoint b{i};
  b.SetStatus(s);
  return b.GetStatus();
}
Breakpoint::Status BpAfterThree(const Instruction* i, Breakpoint::Status r, Breakpoint::Status s, Breakpoint::Status t)
{
  Breakpoint b{i};
  b.SetStatus(r);
  b.SetStatus(s);
  b.SetStatus(t);
  return b.GetStatus();
}
const Instruction* BpInstructionAfterSet(const Instruction* i, Breakpoint::Status s)
{
  Breakpoint b{i};
  b.SetStatus(s);
  return b.GetInstruction();
}


}  // namespace oacdrv
