// Client programs: attribute handling and constraints, driven by a list of operations the environment supplies.
#include "probe.h"

#include <sup/dto/anytype.h>
#include <sup/dto/anyvalue.h>

#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/attribute_utils.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/procedure.h>

namespace oacdrv
{
int Op(int k);
std::string Text(int k);
void Mark(int k);
void SeenInt(int what, int value);
void SeenBool(int what, bool value);
void SeenText(int what, const std::string& text);
void SeenValue(int what, const sup::dto::AnyValue& value);

sup::dto::AnyType TypeOf(int k)
{
  switch (k)
  {
  case 0:
    return sup::dto::StringType;
  case 1:
    return sup::dto::BooleanType;
  case 2:
    return sup::dto::Character8Type;
  case 3:
    return sup::dto::SignedInteger8Type;
  case 4:
    return sup::dto::UnsignedInteger8Type;
  case 5:
    return sup::dto::SignedInteger16Type;
  case 6:
    return sup::dto::UnsignedInteger16Type;
  case 7:
    return sup::dto::SignedInteger32Type;
  case 8:
    return sup::dto::UnsignedInteger32Type;
  case 9:
    return sup::dto::SignedInteger64Type;
  case 10:
    return sup::dto::UnsignedInteger64Type;
  case 11:
    return sup::dto::Float32Type;
  case 12:
    return sup::dto::Float64Type;
  default:
    return sup::dto::EmptyType;
  }
}

StringAttributeList Attributes(int& at)
{
  StringAttributeList result;
  const int n = Op(at++);
  for (int k = 0; k < n; ++k)
  {
    const int name = Op(at++);
    const int value = Op(at++);
    result.emplace_back(Text(name), Text(value));
  }
  return result;
}

Constraint Build(int& at)
{
  switch (Op(at++))
  {
  case 0:
  {
    const int name = Op(at++);
    return MakeConstraint<Exists>(Text(name));
  }
  case 1:
  {
    const int name = Op(at++);
    const int type = Op(at++);
    return MakeConstraint<FixedType>(Text(name), TypeOf(type));
  }
  case 2:
  {
    auto left = Build(at);
    auto right = Build(at);
    return MakeConstraint<Xor>(std::move(left), std::move(right));
  }
  case 3:
  {
    auto left = Build(at);
    auto right = Build(at);
    return MakeConstraint<Or>(std::move(left), std::move(right));
  }
  case 4:
  {
    auto left = Build(at);
    auto right = Build(at);
    return MakeConstraint<And>(std::move(left), std::move(right));
  }
  default:
    return MakeConstraint<Not>(Build(at));
  }
}

void Constraints()
{
  int at = 0;
  auto first = Build(at);
  auto other = Build(at);
  const int how = Op(at++);
  switch (how)
  {
  case 1:
  {
    Constraint copy{first};
    first = other;
    other = copy;
    break;
  }
  case 2:
  {
    Constraint moved{std::move(first)};
    first = std::move(other);
    other = std::move(moved);
    break;
  }
  case 3:
    first = first;
    break;
  case 4:
  {
    Constraint moved{std::move(first)};
    break;
  }
  case 5:
    first = other;
    break;
  default:
    break;
  }
  const int n = Op(at++);
  for (int k = 0; k < n; ++k)
  {
    const auto attributes = Attributes(at);
    Mark(k);
    SeenBool(2 * k, first.Validate(attributes));
    if (how != 4)
    {
      SeenBool(2 * k + 1, other.Validate(attributes));
    }
  }
  SeenText(0, first.GetRepresentation());
}

void Define(AttributeHandler& handler, int& at)
{
  const int n = Op(at++);
  for (int k = 0; k < n; ++k)
  {
    const int name = Op(at++);
    const int type = Op(at++);
    const int category = Op(at++);
    const int mandatory = Op(at++);
    try
    {
      auto& definition = handler.AddAttributeDefinition(Text(name), TypeOf(type));
      if (category == 1)
      {
        definition.SetCategory(AttributeCategory::kVariableName);
      }
      else if (category == 2)
      {
        definition.SetCategory(AttributeCategory::kBoth);
      }
      if (mandatory)
      {
        definition.SetMandatory();
      }
    }
    catch (const InvalidOperationException&)
    {
      SeenInt(90, k);
    }
  }
}

void Handler()
{
  int at = 0;
  AttributeHandler handler;
  Define(handler, at);
  const int constraints = Op(at++);
  for (int k = 0; k < constraints; ++k)
  {
    handler.AddConstraint(Build(at));
  }
  for (int k = 0; k < 1000; ++k)
  {
    const int op = Op(at++);
    if (op < 0)
    {
      break;
    }
    Mark(k);
    const int name = Op(at++);
    switch (op)
    {
    case 0:
      SeenBool(0, handler.AddStringAttribute(Text(name), Text(Op(at++))));
      break;
    case 1:
      handler.SetStringAttribute(Text(name), Text(Op(at++)));
      break;
    case 2:
      SeenBool(2, handler.HasStringAttribute(Text(name)));
      SeenText(2, GetStringAttributeValue(handler.GetStringAttributes(), Text(name)));
      break;
    case 3:
      SeenBool(3, handler.ValidateAttributes());
      for (const auto& failed : handler.GetFailedConstraints())
      {
        SeenText(3, failed);
      }
      break;
    case 4:
    {
      sup::dto::AnyValue value;
      const bool ok = handler.GetValue(Text(name), value);
      SeenBool(4, ok);
      if (ok)
      {
        SeenValue(4, value);
      }
      break;
    }
    case 5:
      try
      {
        const auto info = GetAttributeValueInfo(handler.GetStringAttributes(),
                                                handler.GetAttributeDefinitions(), Text(name));
        SeenBool(5, info.m_is_varname);
        SeenText(5, info.m_value);
      }
      catch (const RuntimeException&)
      {
        SeenInt(5, 1);
      }
      break;
    case 6:
      for (const auto& definition : handler.GetAttributeDefinitions())
      {
        SeenText(6, definition.GetName());
        SeenBool(6, definition.IsMandatory());
      }
      break;
    case 7:
      for (const auto& attribute : handler.GetStringAttributes())
      {
        SeenText(7, attribute.first);
        SeenText(8, attribute.second);
      }
      break;
    case 8:
      SeenText(9, FormatFailedConstraints(handler.GetFailedConstraints()));
      handler.ClearFailedConstraints();
      break;
    default:
      break;
    }
  }
}

void ParseText()
{
  int at = 0;
  const int type = Op(at++);
  const auto result = utils::ParseAttributeString(TypeOf(type), Text(0));
  SeenBool(0, result.first);
  if (result.first)
  {
    SeenValue(0, result.second);
  }
}

void FormatValue(const sup::dto::AnyValue& value)
{
  const auto result = utils::CreateAttributeString(value);
  SeenBool(0, result.first);
  if (result.first)
  {
    SeenText(0, result.second);
  }
}

class AttrInstruction : public Instruction
{
public:
  AttrInstruction() : Instruction("AttrInstruction") {}

  void DefineAll(int& at)
  {
    const int n = Op(at++);
    for (int k = 0; k < n; ++k)
    {
      const int name = Op(at++);
      const int mandatory = Op(at++);
      auto& definition = AddAttributeDefinition(Text(name));
      if (mandatory)
      {
        definition.SetMandatory();
      }
    }
  }

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    return ExecutionStatus::SUCCESS;
  }
};

void InstructionAttributes(const Procedure& proc)
{
  int at = 0;
  AttrInstruction instr;
  instr.DefineAll(at);
  for (int k = 0; k < 1000; ++k)
  {
    const int op = Op(at++);
    if (op < 0)
    {
      break;
    }
    Mark(k);
    switch (op)
    {
    case 0:
    {
      const int name = Op(at++);
      SeenBool(0, instr.AddAttribute(Text(name), Text(Op(at++))));
      break;
    }
    case 1:
    {
      const int name = Op(at++);
      SeenBool(1, instr.SetAttribute(Text(name), Text(Op(at++))));
      break;
    }
    case 2:
      SeenBool(2, instr.AddAttributes(Attributes(at)));
      break;
    case 3:
      SeenBool(3, instr.InitialisePlaceholderAttributes(Attributes(at)));
      break;
    case 4:
      for (const auto& attribute : instr.GetStringAttributes())
      {
        SeenText(4, attribute.first);
        SeenText(5, attribute.second);
      }
      break;
    case 5:
    {
      const int name = Op(at++);
      SeenBool(5, instr.HasAttribute(Text(name)));
      SeenText(6, instr.GetAttributeString(Text(name)));
      SeenBool(6, IsDefinedAttributeName(instr, Text(name)));
      break;
    }
    case 6:
      try
      {
        instr.Setup(proc);
        SeenInt(6, 1);
      }
      catch (const InstructionSetupException&)
      {
        SeenInt(6, 0);
      }
      break;
    default:
      break;
    }
  }
}
}  // namespace oacdrv
