// Client programs: instructions that take instructions or values from another procedure. Whether the file of that
// procedure can be parsed, its types registered and its variables and instructions set up is unknown.
#include "varprobe.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/instructions/copy_from_procedure.h>
#include <sup/oac-tree/instructions/copy_to_procedure.h>
#include <sup/oac-tree/instructions/include.h>
#include <sup/oac-tree/instructions/include_procedure.h>
#include <sup/oac-tree/instructions/sequence.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>

namespace oacdrv
{
std::string AttrName(int k);
std::string AttrValue(int k);
bool InnerSetup(const std::string& name, const std::string& value, bool in_main);
void InnerExec(const std::string& name, bool in_main);
void SeenStatus(int what, ExecutionStatus status);

const Workspace* main_ws{nullptr};

class Inner : public Instruction
{
public:
  Inner() : Instruction(Type) {}
  ~Inner() override = default;
  static const std::string Type;

private:
  void SetupImpl(const Procedure& proc) override
  {
    bool in_main{false};
    if (&proc.GetWorkspace() == main_ws)
    {
      in_main = true;
    }
    if (!InnerSetup(GetName(), GetAttributeString("v"), in_main))
    {
      throw InstructionSetupException("no");
    }
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    if (&ws == main_ws)
    {
      InnerExec(GetName(), true);
    }
    else
    {
      InnerExec(GetName(), false);
    }
    return ExecutionStatus::SUCCESS;
  }
};

const std::string Inner::Type = "Inner";

std::unique_ptr<Instruction> NewInner(const std::string& name, const std::string& value)
{
  auto result = std::make_unique<Inner>();
  result->AddAttribute("name", name);
  result->AddAttribute("v", value);
  return result;
}

// top instructions: x, y (root, with children p, q, r, s and t with child u), x again and z; r and s include x
void FillTops(Procedure& proc)
{
  proc.PushInstruction(NewInner("x", "$par"));
  auto seq = std::make_unique<Sequence>();
  seq->AddAttribute("name", "y");
  seq->AddAttribute("isRoot", "true");
  seq->InsertInstruction(NewInner("p", "lit"), 0);
  seq->InsertInstruction(NewInner("q", "$name"), 1);
  auto inc = std::make_unique<Include>();
  inc->AddAttribute("name", "r");
  inc->AddAttribute("path", "x");
  seq->InsertInstruction(std::move(inc), 2);
  auto own = std::make_unique<Include>();
  own->AddAttribute("name", "s");
  own->AddAttribute("path", "x");
  own->AddAttribute("par", "own");
  seq->InsertInstruction(std::move(own), 3);
  auto deep = std::make_unique<Sequence>();
  deep->AddAttribute("name", "t");
  deep->InsertInstruction(NewInner("u", "lit"), 0);
  seq->InsertInstruction(std::move(deep), 4);
  proc.PushInstruction(std::move(seq));
  proc.PushInstruction(NewInner("x", "second"));
  proc.PushInstruction(NewInner("z", "lit"));
}

std::unique_ptr<Procedure> MakeIncluded(const std::string& filename)
{
  auto result = std::make_unique<Procedure>(filename);
  FillTops(*result);
  auto v = std::make_unique<VarProbe>(1);
  v->SetName("b");
  result->AddVariable("b", std::move(v));
  return result;
}

void Drive(Instruction& instr, Procedure& proc)
{
  DefaultUserInterface ui;
  for (int k = 0; k < 8; ++k)
  {
    const auto name = AttrName(k);
    if (!name.empty())
    {
      instr.AddAttribute(name, AttrValue(k));
    }
  }
  for (int k = 0; Op(k) >= 0; ++k)
  {
    Mark(k);
    try
    {
      switch (Op(k))
      {
      case 0:
        instr.Setup(proc);
        break;
      case 1:
        instr.ExecuteSingle(ui, proc.GetWorkspace());
        SeenStatus(k, instr.GetStatus());
        break;
      default:
        instr.Reset(ui);
        break;
      }
    }
    catch (const InstructionSetupException&)
    {
      SeenInt(2, k);
      return;
    }
    catch (const VariableSetupException&)
    {
      SeenInt(3, k);
      return;
    }
    catch (const ProcedureSetupException&)
    {
      SeenInt(1, k);
      return;
    }
    catch (const ParseException&)
    {
      SeenInt(4, k);
      return;
    }
  }
}

void FillMain(Procedure& proc)
{
  RegisterGlobalInstruction<Inner>();
  main_ws = &proc.GetWorkspace();
  FillTops(proc);
  auto v = std::make_unique<VarProbe>(0);
  v->SetName("a");
  proc.AddVariable("a", std::move(v));
  proc.GetWorkspace().Setup();
}

void Includes()
{
  Procedure proc{"dir/main.xml"};
  FillMain(proc);
  Include instr;
  Drive(instr, proc);
}

void IncludesProcedure()
{
  Procedure proc{"dir/main.xml"};
  FillMain(proc);
  IncludeProcedure instr;
  Drive(instr, proc);
}

void CopiesFrom()
{
  Procedure proc{"dir/main.xml"};
  FillMain(proc);
  CopyFromProcedureInstruction instr;
  Drive(instr, proc);
}

void CopiesTo()
{
  Procedure proc{"dir/main.xml"};
  FillMain(proc);
  CopyToProcedureInstruction instr;
  Drive(instr, proc);
}
}  // namespace oacdrv
