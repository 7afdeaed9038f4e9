// A variable whose behaviour is completely unknown.
#ifndef OACDRV_VARPROBE_H_
#define OACDRV_VARPROBE_H_

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/workspace.h>

#include <sup/dto/anyvalue.h>

#include <memory>
#include <string>

namespace oacdrv
{
using namespace sup::oac_tree;
using sup::dto::AnyValue;

int Op(int k);
void Mark(int k);
void SeenBool(int what, bool b);
void SeenInt(int what, int n);
void SeenText(int what, const std::string& text);
void SeenValue(int what, const AnyValue& v);
void SeenVar(int what, const Variable* v);

// what a concrete variable does is unknown
bool VarRead(int id, AnyValue& v);
bool VarWrite(int id, const AnyValue& v);
bool VarAvailable(int id);
bool VarSetup(int id);
int VarActions(int id);
void VarTeardown(int id);
void Action(int id, bool setup);
void Handed(int id);

class VarProbe : public Variable
{
public:
  explicit VarProbe(int id) : Variable("VarProbe"), m_probe_id{id} {}
  ~VarProbe() override = default;

private:
  int m_probe_id;
  bool GetValueImpl(AnyValue& v) const override { return VarRead(m_probe_id, v); }
  bool SetValueImpl(const AnyValue& v) override { return VarWrite(m_probe_id, v); }
  bool IsAvailableImpl() const override { return VarAvailable(m_probe_id); }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (!VarSetup(m_probe_id))
    {
      throw VariableSetupException("no");
    }
    SetupTeardownActions result{};
    int id = m_probe_id;
    switch (VarActions(m_probe_id))
    {
    case 1:
      result.m_identifier = "one";
      break;
    case 2:
      result.m_identifier = "two";
      break;
    case 3:
      result.m_identifier = "one";
      result.m_setup = [id]() { Action(id, true); };
      return result;
    case 4:
      result.m_identifier = "one";
      result.m_teardown = [id]() { Action(id, false); };
      return result;
    case 5:
      break;
    default:
      return result;
    }
    result.m_setup = [id]() { Action(id, true); };
    result.m_teardown = [id]() { Action(id, false); };
    return result;
  }
  void TeardownImpl() override { VarTeardown(m_probe_id); }
};
}  // namespace oacdrv
#endif
