// A leaf instruction whose behaviour is completely unknown: what it returns and what happens inside is
// given by functions that have no definition, so that the analysis treats every possibility.
#ifndef OACDRV_PROBE_H_
#define OACDRV_PROBE_H_

#include <sup/oac-tree/compound_instruction.h>
#include <sup/oac-tree/decorator_instruction.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/workspace.h>

#include <memory>
#include <string>
#include <utility>

namespace oacdrv
{
using namespace sup::oac_tree;

ExecutionStatus Tick(int id);
bool Init(int id);
void Halted(int id);
void ResetOf(int id);
void SetupOf(int id);
void Seen(int what, ExecutionStatus status);
void SeenBool(int what, bool b);
void SeenInt(int what, int i);
void SeenPtr(int what, const Instruction* p);
void Mark(int what);
bool Choose(int what);

class Probe : public Instruction
{
public:
  explicit Probe(int id) : Instruction("Probe"), m_probe_id{id} {}
  int Id() const { return m_probe_id; }
  ~Probe() override = default;

private:
  int m_probe_id;
  void SetupImpl(const Procedure&) override { SetupOf(m_probe_id); }
  bool InitHook(UserInterface&, Workspace&) override
  {
    return Init(m_probe_id);
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    return Tick(m_probe_id);
  }
  void HaltImpl() override { Halted(m_probe_id); }
  void ResetHook(UserInterface&) override { ResetOf(m_probe_id); }
};

// without a hook of its own
class Plain : public Instruction
{
public:
  explicit Plain(int id) : Instruction("Plain"), m_probe_id{id} {}
  ~Plain() override = default;

private:
  int m_probe_id;
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return Tick(m_probe_id); }
  void HaltImpl() override { Halted(m_probe_id); }
  void ResetHook(UserInterface&) override { ResetOf(m_probe_id); }
};

inline void AddPlain(Instruction& parent, int id)
{
  parent.InsertInstruction(std::make_unique<Plain>(id), parent.ChildrenCount());
}

inline void Add(Instruction& parent, int id)
{
  parent.InsertInstruction(std::make_unique<Probe>(id), parent.ChildrenCount());
}
}  // namespace oacdrv
#endif
