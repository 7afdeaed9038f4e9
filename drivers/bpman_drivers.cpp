// Client programs: the breakpoint manager.
#include "probe.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/runner/breakpoint_manager.h>

namespace oacdrv
{
using namespace sup::oac_tree;

int Pick(int round);
void SeenTree(const Instruction* a, const Instruction* b);
void SeenHit(int who);
void SeenStatus(int who, Breakpoint::Status status);

template <int N>
void BpOps(const Procedure& proc)
{
  Plain a{0};
  Plain b{1};
  Plain other{2};
  SeenTree(&a, &b);
  BreakpointManager m{proc};
  for (int i = 0; i < N; ++i)
  {
    int op = Pick(i);
    if (op < 3)
    {
      const Instruction* which = op == 0 ? &a : op == 1 ? &b : &other;
      try
      {
        SeenBool(0, m.SetBreakpoint(which));
      }
      catch (const InvalidOperationException&)
      {
        SeenBool(1, true);
      }
    }
    else if (op < 6)
    {
      SeenBool(0, m.RemoveBreakpoint(op == 3 ? &a : op == 4 ? &b : &other));
    }
    else if (op < 10)
    {
      std::vector<const Instruction*> next{};
      if (op != 7)
      {
        next.push_back(&a);
      }
      if (op == 7 || op == 8)
      {
        next.push_back(&b);
      }
      if (op == 9)
      {
        next.push_back(&other);
      }
      for (const Instruction* hit : m.HandleBreakpoints(next))
      {
        SeenHit(hit == &a ? 0 : hit == &b ? 1 : 2);
      }
    }
    else
    {
      m.ResetBreakpoints();
    }
    Mark(i);
    for (const auto& bp : m.GetBreakpoints())
    {
      SeenStatus(bp.GetInstruction() == &a ? 0 : bp.GetInstruction() == &b ? 1 : 2, bp.GetStatus());
    }
  }
}
void BpOps5(const Procedure& proc) { BpOps<5>(proc); }
void BpOps4(const Procedure& proc) { BpOps<4>(proc); }
void BpNone()
{
  Plain a{0};
  BreakpointManager m{};
  try
  {
    SeenBool(0, m.SetBreakpoint(&a));
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(1, true);
  }
  SeenBool(2, m.RemoveBreakpoint(&a));
  SeenBool(3, m.GetBreakpoints().empty());
}
}  // namespace oacdrv
