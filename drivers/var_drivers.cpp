// Client programs: variables and the workspace.
#include "varprobe.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variables/file_variable.h>
#include <sup/oac-tree/variables/local_variable.h>
#include <sup/oac-tree/workspace.h>

#include <sup/dto/anyvalue.h>

#include <memory>
#include <stdexcept>
#include <string>

namespace oacdrv
{
using namespace sup::oac_tree;
using sup::dto::AnyValue;

template <int N>
void VarOps(const Workspace& ws, AnyValue& user, const AnyValue& input)
{
  VarProbe v{0};
  for (int k = 0; k < N; ++k)
  {
    Mark(k);
    switch (Op(k))
    {
    case 0:
      try
      {
        v.Setup(ws);
        SeenInt(0, 0);
      }
      catch (const VariableSetupException&)
      {
        SeenInt(0, 1);
      }
      break;
    case 1:
      v.Teardown();
      break;
    case 2:
      try
      {
        v.Reset(ws);
        SeenInt(0, 0);
      }
      catch (const VariableSetupException&)
      {
        SeenInt(0, 1);
      }
      break;
    case 3:
      SeenBool(0, v.GetValue(user));
      SeenValue(0, user);
      break;
    case 4:
      SeenBool(0, v.GetValue(user, "f"));
      SeenValue(0, user);
      break;
    case 5:
    {
      AnyValue empty{};
      SeenBool(0, v.GetValue(empty, "f"));
      SeenValue(0, empty);
      break;
    }
    case 6:
      SeenBool(0, v.SetValue(input));
      break;
    case 7:
      SeenBool(0, v.SetValue(input, "f"));
      break;
    case 8:
      SeenBool(0, v.IsAvailable());
      break;
    default:
      break;
    }
  }
}
void VarOps2(const Workspace& ws, AnyValue& user, const AnyValue& input) { VarOps<2>(ws, user, input); }
void VarOps3(const Workspace& ws, AnyValue& user, const AnyValue& input) { VarOps<3>(ws, user, input); }
void VarOps4(const Workspace& ws, AnyValue& user, const AnyValue& input) { VarOps<4>(ws, user, input); }

// a local variable: what is read is what was written
template <int N>
void LocalOps(const Workspace& ws, const AnyValue& first, const AnyValue& second)
{
  LocalVariable v{};
  v.SetNotifyCallback([](const AnyValue& value, bool connected) { SeenBool(9, connected); SeenValue(9, value); });
  for (int k = 0; k < N; ++k)
  {
    Mark(k);
    switch (Op(k))
    {
    case 0:
      try
      {
        v.Setup(ws);
        SeenInt(0, 0);
      }
      catch (const VariableSetupException&)
      {
        SeenInt(0, 1);
      }
      break;
    case 1:
      v.Teardown();
      break;
    case 3:
    {
      AnyValue empty{};
      SeenBool(0, v.GetValue(empty));
      SeenValue(0, empty);
      break;
    }
    case 6:
      SeenBool(0, v.SetValue(first));
      break;
    case 7:
      SeenBool(0, v.SetValue(second));
      break;
    case 8:
      SeenBool(0, v.IsAvailable());
      break;
    default:
      break;
    }
  }
}
void LocalOps4(const Workspace& ws, const AnyValue& first, const AnyValue& second) { LocalOps<4>(ws, first, second); }

template <int N>
void FileOps(const Workspace& ws, const AnyValue& first, const AnyValue& second)
{
  FileVariable v{};
  v.SetNotifyCallback([](const AnyValue& value, bool connected) { SeenBool(9, connected); SeenValue(9, value); });
  for (int k = 0; k < N; ++k)
  {
    Mark(k);
    switch (Op(k))
    {
    case 0:
      try
      {
        v.Setup(ws);
        SeenInt(0, 0);
      }
      catch (const VariableSetupException&)
      {
        SeenInt(0, 1);
      }
      break;
    case 3:
    {
      AnyValue empty{};
      SeenBool(0, v.GetValue(empty));
      SeenValue(0, empty);
      break;
    }
    case 6:
      SeenBool(0, v.SetValue(first));
      break;
    case 7:
      SeenBool(0, v.SetValue(second));
      break;
    case 8:
      SeenBool(0, v.IsAvailable());
      break;
    default:
      break;
    }
  }
}
void FileOps3(const Workspace& ws, const AnyValue& first, const AnyValue& second) { FileOps<3>(ws, first, second); }

// notifications of a workspace
void WsNotify(const AnyValue& value)
{
  const bool connected = VarSetup(7);
  Workspace ws{"file"};
  auto a = std::make_unique<VarProbe>(0);
  auto b = std::make_unique<VarProbe>(1);
  Variable* pa = a.get();
  Variable* pb = b.get();
  ws.AddVariable("a", std::move(a));
  ws.AddVariable("b", std::move(b));
  int me = 0;
  ws.RegisterGenericCallback(
    [](const std::string& name, const AnyValue& v, bool c)
    {
      SeenText(0, name);
      SeenValue(0, v);
      SeenBool(0, c);
    },
    &me);
  ws.RegisterCallback("b",
    [](const AnyValue& v, bool c)
    {
      SeenValue(1, v);
      SeenBool(1, c);
    },
    &me);
  Mark(0);
  pa->Notify(value, connected);
  Mark(1);
  pb->Notify(value, connected);
  {
    auto guard = ws.GetCallbackGuard(&me);
  }
  Mark(2);
  pb->Notify(value, connected);
}

// waiting for a variable while updates arrive at any moment
bool Update(int moment);

class WaitProbe : public Variable
{
public:
  WaitProbe() : Variable("WaitProbe") {}
  ~WaitProbe() override = default;

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override
  {
    bool result = VarAvailable(0);
    if (Update(0))
    {
      Notify({}, true);
    }
    return result;
  }
};

Variable* waited{nullptr};

void Arrive()
{
  waited->Notify({}, true);
}

void WsWait(double timeout)
{
  Workspace ws{"file"};
  auto a = std::make_unique<WaitProbe>();
  waited = a.get();
  ws.AddVariable("a", std::move(a));
  ws.AddVariable("b", std::make_unique<VarProbe>(1));
  ws.Setup();
  bool wanted = VarSetup(7);
  Mark(0);
  SeenBool(0, wanted ? ws.WaitForVariable("a", timeout) : ws.WaitForVariable("a", timeout, false));
  Mark(1);
  Arrive();
  Mark(2);
}

// names
void WsNames(const AnyValue& input, AnyValue& user)
{
  Workspace ws{"file"};
  auto a = std::make_unique<VarProbe>(0);
  auto b = std::make_unique<VarProbe>(1);
  auto c = std::make_unique<VarProbe>(2);
  const Variable* pa = a.get();
  const Variable* pb = b.get();
  SeenBool(0, ws.AddVariable("z", std::move(a)));
  SeenBool(0, ws.AddVariable("a", std::move(b)));
  try
  {
    ws.AddVariable("z", std::move(c));
    SeenInt(1, 0);
  }
  catch (const InvalidOperationException&)
  {
    SeenInt(1, 1);
  }
  SeenInt(2, static_cast<int>(ws.VariableNames().size()));
  for (const auto& name : ws.VariableNames())
  {
    SeenText(2, name);
  }
  SeenBool(3, ws.HasVariable("z"));
  SeenBool(3, ws.HasVariable("a"));
  SeenBool(3, ws.HasVariable("b"));
  SeenBool(4, ws.GetVariable("z") == pa);
  SeenBool(4, ws.GetVariable("a") == pb);
  SeenBool(4, ws.GetVariable("b") == nullptr);
  auto all = ws.GetVariables();
  SeenInt(5, static_cast<int>(all.size()));
  for (const Variable* v : all)
  {
    SeenBool(5, v == pa);
    SeenBool(5, v == pb);
  }
  ws.Setup();
  Mark(1);
  SeenBool(6, ws.SetValue("b", input));
  SeenBool(6, ws.GetValue("b", user));
  SeenBool(6, ws.SetValue("b.f", input));
  SeenBool(6, ws.ResetVariable("b"));
  SeenBool(6, ws.WaitForVariable("b", 1.0));
  Mark(2);
  SeenBool(7, ws.GetValue("a", user));
  Mark(3);
  SeenBool(7, ws.SetValue("z", input));
  Mark(4);
  SeenBool(7, ws.GetValue("z.f", user));
  Mark(5);
  SeenBool(7, ws.SetValue("z[0].f", input));
  Mark(6);
  SeenBool(7, ws.ResetVariable("a"));
}

void Split(const std::string& full)
{
  auto parts = SplitFieldName(full);
  SeenText(0, parts.first);
  SeenText(1, parts.second);
}
void Splits()
{
  Split("a");
  Split("a.b");
  Split("a.b.c");
  Split("a[0]");
  Split("a[0].b");
  Split("a.b[0]");
  Split("");
  Split("a.");
}

// life cycle of a workspace
template <int N>
void WsOps()
{
  {
    Workspace ws{"file"};
    ws.AddVariable("b", std::make_unique<VarProbe>(0));
    ws.AddVariable("a", std::make_unique<VarProbe>(1));
    for (int k = 0; k < N; ++k)
    {
      Mark(k);
      switch (Op(k))
      {
      case 0:
        try
        {
          ws.Setup();
          SeenInt(0, 0);
        }
        catch (const VariableSetupException&)
        {
          SeenInt(0, 1);
        }
        break;
      case 1:
        ws.Teardown();
        break;
      default:
        break;
      }
      SeenBool(1, ws.IsSuccessfullySetup());
    }
    Mark(99);
  }
  Mark(100);
}
void WsOps3() { WsOps<3>(); }
void WsOps4() { WsOps<4>(); }
}  // namespace oacdrv
