// Client programs: a procedure with top instructions and a variable of unknown behaviour, which includes another
// procedure.
#include "varprobe.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/user_interface.h>

namespace oacdrv
{
bool RootSetup(int id);
void RootExec(int id, bool own_workspace);
void RootHalt(int id);
void RootReset(int id);
void SeenStatus(int what, ExecutionStatus status);
std::string AttrName(int k);
std::string AttrValue(int k);

const Workspace* main_workspace{nullptr};

class RootProbe : public Instruction
{
public:
  explicit RootProbe(int id) : Instruction("RootProbe"), m_probe_id{id} {}
  ~RootProbe() override = default;

private:
  int m_probe_id;
  void SetupImpl(const Procedure&) override
  {
    if (!RootSetup(m_probe_id))
    {
      throw InstructionSetupException("no");
    }
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    if (&ws == main_workspace)
    {
      RootExec(m_probe_id, true);
    }
    else
    {
      RootExec(m_probe_id, false);
    }
    return ExecutionStatus::RUNNING;
  }
  void HaltImpl() override { RootHalt(m_probe_id); }
  void ResetHook(UserInterface&) override
  {
    if (m_probe_id < 2)
    {
      RootReset(m_probe_id);
    }
  }
};

std::unique_ptr<Procedure> MakeSub(const std::string& filename)
{
  auto sub = std::make_unique<Procedure>(filename);
  sub->GetPreamble().AddTypeRegistration(TypeRegistrationInfo(TypeRegistrationInfo::kJSONString, "t9"));
  sub->PushInstruction(std::make_unique<RootProbe>(5));
  auto v = std::make_unique<VarProbe>(1);
  v->SetName("b");
  sub->AddVariable("b", std::move(v));
  return sub;
}

void Fill(Procedure& proc)
{
  main_workspace = &proc.GetWorkspace();
  for (int k = 0; k < 2; ++k)
  {
    if (Op(k) > 0)
    {
      auto top = std::make_unique<RootProbe>(k);
      if (Op(k) == 2)
      {
        top->AddAttribute("isRoot", "true");
      }
      if (Op(k) == 3)
      {
        top->AddAttribute("isRoot", "false");
      }
      proc.PushInstruction(std::move(top));
    }
  }
  for (int k = 0; k < Op(2); ++k)
  {
    proc.GetPreamble().AddTypeRegistration(TypeRegistrationInfo(TypeRegistrationInfo::kJSONString, k == 0 ? "t0" : "t1"));
  }
  auto v = std::make_unique<VarProbe>(0);
  v->SetName("a");
  proc.AddVariable("a", std::move(v));
}

void ProcedureLife()
{
  {
    Procedure proc{"main.xml"};
    Fill(proc);
    DefaultUserInterface ui;
    for (int k = 3; Op(k) >= 0; ++k)
    {
      Mark(k);
      try
      {
        switch (Op(k))
        {
        case 0:
          proc.Setup();
          break;
        case 1:
          proc.ExecuteSingle(ui);
          break;
        case 2:
          proc.Halt();
          break;
        case 3:
          proc.Reset(ui);
          break;
        case 4:
        {
          auto context = proc.GetContext();
          auto& sub = context.GetProcedure("sub.xml");
          SeenBool(0, &sub == &context.GetProcedure("sub.xml"));
          SeenBool(1, &sub == &sub.GetContext().GetProcedure("sub.xml"));
          SeenBool(2, &proc == &context.GetProcedure("main.xml"));
          SeenBool(3, &proc == &sub.GetContext().GetProcedure("main.xml"));
          SeenBool(4, &proc == &sub);
          auto& ws = context.GetWorkspace("sub.xml");
          SeenBool(5, &ws == &sub.GetWorkspace());
          ws.Setup();
          break;
        }
        default:
          break;
        }
      }
      catch (const ProcedureSetupException&)
      {
        SeenInt(1, k);
      }
      catch (const InstructionSetupException&)
      {
        SeenInt(2, k);
      }
      catch (const VariableSetupException&)
      {
        SeenInt(3, k);
      }
      SeenStatus(k, proc.GetStatus());
    }
    Mark(99);
  }
  Mark(100);
}
}  // namespace oacdrv
