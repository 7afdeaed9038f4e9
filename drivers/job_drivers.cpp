// Client programs: a job driven by arbitrary commands (the command queue, the procedure and the breakpoints are
// given by the check).
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/job_state_monitor.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/user_interface.h>

namespace oacdrv
{
using namespace sup::oac_tree;

void SeenState(JobState state);
void SeenTick(const Procedure* proc);
void SeenBreakpoint(const Instruction* instr, bool set);
void Mark(int what);
bool Choose(int what);
bool Stop(int what);

class Monitor : public JobStateMonitor
{
public:
  void OnStateChange(JobState state) noexcept override { SeenState(state); }
  void OnBreakpointChange(const Instruction* i, bool set) noexcept override
  {
    SeenBreakpoint(i, set);
  }
  void OnProcedureTick(const Procedure& p) override { SeenTick(&p); }
};

// constructed, driven by whatever commands arrive, and destroyed
void JobRun(Procedure& proc, UserInterface& ui)
{
  Monitor monitor;
  AsyncRunner runner{proc, ui, monitor};
  Mark(1);
}
// the calls a user makes
void JobCalls(Procedure& proc, UserInterface& ui)
{
  Monitor monitor;
  AsyncRunner runner{proc, ui, monitor};
  Mark(1);
  runner.Start();
  Mark(2);
  runner.Step();
  Mark(3);
  runner.Pause();
  Mark(4);
  runner.Reset();
  Mark(5);
  runner.Halt();
  Mark(6);
}
void JobBreakpoints(Procedure& proc, UserInterface& ui, const Instruction* instr)
{
  Monitor monitor;
  AsyncRunner runner{proc, ui, monitor};
  Mark(1);
  runner.SetBreakpoint(instr);
  Mark(2);
  runner.RemoveBreakpoint(instr);
  Mark(3);
}

// ---- the synchronous runner
void RunnerRun(Procedure& proc, UserInterface& ui)
{
  Runner runner{ui};
  runner.SetProcedure(&proc);
  runner.SetTickCallback([&runner](const Procedure& p) {
    SeenTick(&p);
    if (Stop(0))
    {
      runner.Pause();
    }
    else if (Stop(1))
    {
      runner.Halt();
    }
  });
  Mark(1);
  runner.ExecuteProcedure();
  Mark(2);
  if (runner.IsFinished())
  {
    Mark(3);
  }
  if (!runner.GetCurrentBreakpointInstructions().empty())
  {
    Mark(4);
  }
  runner.ExecuteProcedure();
  Mark(5);
  if (!runner.GetCurrentBreakpointInstructions().empty())
  {
    Mark(4);
  }
}
void RunnerStep(Procedure& proc, UserInterface& ui)
{
  Runner runner{ui};
  runner.SetProcedure(&proc);
  runner.SetTickCallback([](const Procedure& p) { SeenTick(&p); });
  runner.ExecuteSingle();
  Mark(1);
  runner.SetTickCallback();
  runner.ExecuteSingle();
  Mark(2);
}
void RunnerEmpty(UserInterface& ui)
{
  Runner runner{ui};
  runner.SetTickCallback([](const Procedure& p) { SeenTick(&p); });
  runner.ExecuteProcedure();
  runner.ExecuteSingle();
  runner.Halt();
  Mark(1);
  if (runner.IsFinished())
  {
    Mark(2);
  }
  if (runner.IsRunning())
  {
    Mark(3);
  }
}
}  // namespace oacdrv
