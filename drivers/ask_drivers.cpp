// Client programs: instructions that ask the user, with real attributes, a workspace of arbitrary variables and an
// arbitrary user who answers whenever he likes. Other threads may halt the instruction meanwhile.
#include "varprobe.h"

#include <sup/oac-tree/i_user_input_future.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instructions/fail.h>
#include <sup/oac-tree/instructions/input.h>
#include <sup/oac-tree/instructions/succeed.h>
#include <sup/oac-tree/instructions/user_choice.h>
#include <sup/oac-tree/instructions/user_confirmation.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_interface.h>

namespace oacdrv
{
std::string AttrName(int k);
std::string AttrValue(int k);
void SeenStatus(int what, ExecutionStatus status);
void Logged(int severity, const std::string& message);
bool Valid();
bool Ready();
bool HaltNow();
void Asked(const UserInputRequest& request);
UserInputReply Answer();
void UsedAfterEnd();
void Blocks();
void Taken();
void Living(int n);

Instruction* asking{nullptr};

class AskFuture : public IUserInputFuture
{
public:
  AskFuture(int& live, bool valid) : m_live{live}, m_valid{valid}, m_gone{false}, m_taken{false} { ++m_live; }
  ~AskFuture() override
  {
    m_gone = true;
    --m_live;
  }
  sup::dto::uint64 GetId() const override { return 1; }
  bool IsValid() const override { return m_valid; }
  bool IsReady() const override
  {
    const bool ready = Ready();
    if (HaltNow())
    {
      asking->Halt();
    }
    if (m_gone)
    {
      UsedAfterEnd();
    }
    return ready;
  }
  bool WaitFor(double) const override
  {
    Blocks();
    return true;
  }
  UserInputReply GetValue() override
  {
    if (m_gone || m_taken)
    {
      UsedAfterEnd();
    }
    m_taken = true;
    Taken();
    return Answer();
  }

private:
  int& m_live;
  bool m_valid;
  bool m_gone;
  bool m_taken;
};

class AskUi : public DefaultUserInterface
{
public:
  AskUi() : m_live{0} {}
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& request) override
  {
    Asked(request);
    return std::make_unique<AskFuture>(m_live, Valid());
  }
  void Log(int severity, const std::string& message) override { Logged(severity, message); }
  int m_live;
};

template <class T>
void Furnish(T&)
{}

void Furnish(UserChoice& instr)
{
  auto yes = std::make_unique<Succeed>();
  yes->SetName("yes");
  instr.InsertInstruction(std::move(yes), 0);
  auto no = std::make_unique<Fail>();
  no->SetName("no");
  instr.InsertInstruction(std::move(no), 1);
}

template <class T, int N>
void AskRun(const Procedure& proc)
{
  Workspace ws;
  auto a = std::make_unique<VarProbe>(0);
  a->SetName("a");
  ws.AddVariable("a", std::move(a));
  auto b = std::make_unique<VarProbe>(1);
  b->SetName("b");
  ws.AddVariable("b", std::move(b));
  ws.Setup();
  AskUi ui;
  {
    T instr;
    Furnish(instr);
    asking = &instr;
    for (int k = 0; k < 3; ++k)
    {
      if (!AttrName(k).empty())
      {
        instr.AddAttribute(AttrName(k), AttrValue(k));
      }
    }
    try
    {
      instr.Setup(proc);
    }
    catch (const InstructionSetupException&)
    {
      SeenInt(9, 1);
      return;
    }
    for (int k = 0; k < N; ++k)
    {
      Mark(k);
      switch (Op(k))
      {
      case 0:
        instr.ExecuteSingle(ui, ws);
        break;
      case 1:
        instr.Halt();
        break;
      case 2:
        instr.Reset(ui);
        break;
      default:
        break;
      }
      SeenStatus(k, instr.GetStatus());
      Living(ui.m_live);
    }
  }
  Living(ui.m_live);
}

void AskInput(const Procedure& p) { AskRun<Input, 4>(p); }
void AskConfirmation(const Procedure& p) { AskRun<UserConfirmation, 4>(p); }
void AskChoice(const Procedure& p) { AskRun<UserChoice, 4>(p); }
}  // namespace oacdrv
