// Client programs: the leaf instructions, with real attributes and a workspace of arbitrary variables.
#include "varprobe.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instructions/add_element.h>
#include <sup/oac-tree/instructions/add_member.h>
#include <sup/oac-tree/instructions/condition.h>
#include <sup/oac-tree/instructions/copy.h>
#include <sup/oac-tree/instructions/decrement.h>
#include <sup/oac-tree/instructions/equals.h>
#include <sup/oac-tree/instructions/fail.h>
#include <sup/oac-tree/instructions/greaterthan.h>
#include <sup/oac-tree/instructions/greaterthanorequal.h>
#include <sup/oac-tree/instructions/increment.h>
#include <sup/oac-tree/instructions/lessthan.h>
#include <sup/oac-tree/instructions/lessthanorequal.h>
#include <sup/oac-tree/instructions/log_instruction.h>
#include <sup/oac-tree/instructions/message.h>
#include <sup/oac-tree/instructions/output.h>
#include <sup/oac-tree/instructions/reset_variable.h>
#include <sup/oac-tree/instructions/succeed.h>
#include <sup/oac-tree/instructions/var_exists.h>
#include <sup/oac-tree/instructions/wait.h>
#include <sup/oac-tree/instructions/wait_for_variable.h>
#include <sup/oac-tree/instructions/wait_for_variables.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>

namespace oacdrv
{
std::string AttrName(int k);
std::string AttrValue(int k);
void SeenStatus(int what, ExecutionStatus status);
bool Put(const AnyValue& value, const std::string& description);
void Logged(int severity, const std::string& message);

class LeafUi : public DefaultUserInterface
{
public:
  bool PutValue(const AnyValue& value, const std::string& description) override
  {
    return Put(value, description);
  }
  void Message(const std::string& message) override { SeenText(1, message); }
  void Log(int severity, const std::string& message) override { Logged(severity, message); }
};

Instruction* running{nullptr};

void HaltArrives()
{
  running->Halt();
}

template <class T, int Attrs, int N>
void LeafRun(const Procedure& proc)
{
  Workspace ws;
  auto a = std::make_unique<VarProbe>(0);
  a->SetName("a");
  ws.AddVariable("a", std::move(a));
  auto b = std::make_unique<VarProbe>(1);
  b->SetName("b");
  ws.AddVariable("b", std::move(b));
  ws.Setup();
  LeafUi ui;
  T instr;
  running = &instr;
  for (int k = 0; k < Attrs; ++k)
  {
    if (!AttrName(k).empty())
    {
      instr.AddAttribute(AttrName(k), AttrValue(k));
    }
  }
  try
  {
    instr.Setup(proc);
  }
  catch (const InstructionSetupException&)
  {
    SeenInt(9, 1);
    return;
  }
  for (int k = 0; k < N; ++k)
  {
    Mark(k);
    switch (Op(k))
    {
    case 0:
      instr.ExecuteSingle(ui, ws);
      break;
    case 1:
      instr.Halt();
      break;
    case 2:
      instr.Reset(ui);
      break;
    default:
      break;
    }
    SeenStatus(k, instr.GetStatus());
  }
}

void LeafEquals(const Procedure& p) { LeafRun<Equals, 2, 1>(p); }
void LeafGreaterThan(const Procedure& p) { LeafRun<GreaterThan, 2, 1>(p); }
void LeafGreaterThanOrEqual(const Procedure& p) { LeafRun<GreaterThanOrEqual, 2, 1>(p); }
void LeafLessThan(const Procedure& p) { LeafRun<LessThan, 2, 1>(p); }
void LeafLessThanOrEqual(const Procedure& p) { LeafRun<LessThanOrEqual, 2, 1>(p); }
void LeafCopy(const Procedure& p) { LeafRun<Copy, 2, 1>(p); }
void LeafIncrement(const Procedure& p) { LeafRun<Increment, 1, 1>(p); }
void LeafDecrement(const Procedure& p) { LeafRun<Decrement, 1, 1>(p); }
void LeafAddElement(const Procedure& p) { LeafRun<AddElement, 2, 1>(p); }
void LeafAddMember(const Procedure& p) { LeafRun<AddMember, 3, 1>(p); }
void LeafResetVariable(const Procedure& p) { LeafRun<ResetVariable, 1, 1>(p); }
void LeafCondition(const Procedure& p) { LeafRun<Condition, 1, 1>(p); }
void LeafVarExists(const Procedure& p) { LeafRun<VarExistsInstruction, 1, 1>(p); }
void LeafOutput(const Procedure& p) { LeafRun<Output, 2, 1>(p); }
void LeafMessage(const Procedure& p) { LeafRun<Message, 1, 1>(p); }
void LeafLog(const Procedure& p) { LeafRun<LogInstruction, 3, 1>(p); }
void LeafSucceed(const Procedure& p) { LeafRun<Succeed, 0, 1>(p); }
void LeafFail(const Procedure& p) { LeafRun<Fail, 0, 1>(p); }
void LeafWait2(const Procedure& p) { LeafRun<Wait, 2, 2>(p); }
void LeafWait3(const Procedure& p) { LeafRun<Wait, 2, 3>(p); }
void LeafWait4(const Procedure& p) { LeafRun<Wait, 2, 4>(p); }
void LeafWaitForVariable2(const Procedure& p) { LeafRun<WaitForVariable, 3, 2>(p); }
void LeafWaitForVariable3(const Procedure& p) { LeafRun<WaitForVariable, 3, 3>(p); }
void LeafWaitForVariable4(const Procedure& p) { LeafRun<WaitForVariable, 3, 4>(p); }
void LeafWaitForVariables2(const Procedure& p) { LeafRun<WaitForVariables, 2, 2>(p); }
void LeafWaitForVariables3(const Procedure& p) { LeafRun<WaitForVariables, 2, 3>(p); }
void LeafWaitForVariables4(const Procedure& p) { LeafRun<WaitForVariables, 2, 4>(p); }
}  // namespace oacdrv
