// Client programs: procedures made from trees of XML data, what they become when written, and the registries of types.
#include "varprobe.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable_registry.h>

#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>

#include <stdexcept>

// the tree of XML data is a plain value
namespace sup
{
namespace xml
{
TreeData::TreeData(const std::string& n) : m_name{n} {}
TreeData::~TreeData() = default;
TreeData::TreeData(const TreeData&) = default;
TreeData::TreeData(TreeData&&) = default;
TreeData& TreeData::operator=(const TreeData&) = default;
TreeData& TreeData::operator=(TreeData&&) = default;
const std::string& TreeData::GetNodeName() const { return m_name; }
std::string TreeData::GetContent() const { return m_content; }
void TreeData::SetContent(const std::string& c) { m_content = c; }
bool TreeData::HasAttribute(const std::string& n) const
{
  for (auto& a : m_attributes)
  {
    if (a.first == n) return true;
  }
  return false;
}
std::string TreeData::GetAttribute(const std::string& n) const
{
  for (auto& a : m_attributes)
  {
    if (a.first == n) return a.second;
  }
  throw std::runtime_error("no attribute");
}
void TreeData::AddAttribute(const std::string& n, const std::string& v) { m_attributes.emplace_back(n, v); }
const std::vector<std::pair<std::string, std::string>>& TreeData::Attributes() const { return m_attributes; }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
int TreeData::GetNumberOfChildren() const { return m_children.size(); }
int TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
void TreeData::AddChild(const TreeData& c) { m_children.push_back(c); }
}  // namespace xml
}  // namespace sup

namespace oacdrv
{
using sup::xml::TreeData;

const char* NodeType(int k);
const char* AttrName(int k, int i);
const char* AttrValue(int k, int i);
const char* Content(int k);
bool HasAttr(int k, int i);
bool HasContent(int k);

// node 0 is the root; Op(k-1) is the parent of node k; -1 ends
std::unique_ptr<TreeData> MakeNode(int k)
{
  auto result = std::make_unique<TreeData>(NodeType(k));
  for (int i = 0; HasAttr(k, i); ++i)
  {
    result->AddAttribute(AttrName(k, i), AttrValue(k, i));
  }
  if (HasContent(k))
  {
    result->SetContent(Content(k));
  }
  for (int c = k + 1; Op(c - 1) >= 0; ++c)
  {
    if (Op(c - 1) == k)
    {
      result->AddChild(*MakeNode(c));
    }
  }
  return result;
}

std::unique_ptr<TreeData> MakeData()
{
  return MakeNode(0);
}

std::unique_ptr<TreeData> CopyData(const TreeData& data)
{
  return std::make_unique<TreeData>(data);
}

void SeenInstruction(const Instruction& instr)
{
  SeenText(10, instr.GetType());
  for (const auto& attr : instr.GetStringAttributes())
  {
    SeenText(11, attr.first);
    SeenText(12, attr.second);
  }
  SeenInt(10, instr.ChildrenCount());
  for (const auto* child : instr.ChildInstructions())
  {
    SeenInstruction(*child);
  }
}

void SeenProcedure(Procedure& proc)
{
  SeenText(1, proc.GetFilename());
  for (const char* name : {"name", "tickTimeout", "other"})
  {
    if (proc.HasAttribute(name))
    {
      SeenText(2, name);
      SeenText(3, proc.GetAttributeString(name));
    }
  }
  for (const auto& plugin : proc.GetPreamble().GetPluginPaths())
  {
    SeenText(4, plugin);
  }
  for (const auto& type : proc.GetPreamble().GetTypeRegistrations())
  {
    SeenBool(5, type.GetRegistrationMode() == TypeRegistrationInfo::kJSONFile);
    SeenText(5, type.GetString());
  }
  for (const auto* instr : proc.GetTopInstructions())
  {
    SeenInstruction(*instr);
  }
  for (const auto* var : proc.GetWorkspace().GetVariables())
  {
    SeenText(20, var->GetType());
    SeenText(21, var->GetName());
    for (const auto& attr : var->GetStringAttributes())
    {
      SeenText(22, attr.first);
      SeenText(23, attr.second);
    }
  }
  for (const auto& name : proc.GetWorkspace().VariableNames())
  {
    SeenText(24, name);
  }
}

void ParseAndWrite()
{
  try
  {
    auto proc = ParseProcedureFile("dir/file.xml");
    Mark(0);
    SeenProcedure(*proc);
    auto text = GetXMLString(*proc);
    Mark(1);
    auto again = ParseProcedureString(text);
    Mark(2);
    SeenProcedure(*again);
    Mark(3);
  }
  catch (const ParseException&)
  {
    Mark(9);
  }
  catch (const InvalidOperationException&)
  {
    Mark(8);
  }
}

// every type that can be created is what its name says
void BuiltIn()
{
  auto& instructions = GlobalInstructionRegistry();
  for (const auto& name : instructions.RegisteredInstructionNames())
  {
    auto instr = instructions.Create(name);
    SeenText(0, name);
    SeenText(1, instr->GetType());
    SeenInt(1, instr->GetCategory());
    SeenBool(1, instructions.IsRegisteredInstructionName(name));
  }
  auto& variables = GlobalVariableRegistry();
  for (const auto& name : variables.RegisteredVariableNames())
  {
    auto var = variables.Create(name);
    SeenText(2, name);
    SeenText(3, var->GetType());
    SeenBool(3, variables.IsRegisteredVariableName(name));
  }
}

class Mine : public Instruction
{
public:
  explicit Mine(const std::string& type) : Instruction(type) {}
  ~Mine() override = default;

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};

class MyVar : public VarProbe
{
public:
  explicit MyVar(int id) : VarProbe(id), m_my_id{id} {}
  int m_my_id;
};

template <int K>
Instruction* NewMine()
{
  return new Mine(K == 0 ? "first" : K == 1 ? "second" : "third");
}

template <int K>
Variable* NewVar()
{
  return new MyVar(K);
}

void RegisterMine(InstructionRegistry& registry, const std::string& name, int k)
{
  SeenBool(0, registry.RegisterInstruction(name, k == 0 ? &NewMine<0> : k == 1 ? &NewMine<1> : &NewMine<2>));
}

void RegisterVar(VariableRegistry& registry, const std::string& name, int k)
{
  SeenBool(0, registry.RegisterVariable(name, k == 0 ? &NewVar<0> : k == 1 ? &NewVar<1> : &NewVar<2>));
}

// operations on registries of their own: 2k what, 2k+1 with which name
void Registering()
{
  const char* names[] = {"A", "B", "AB"};
  InstructionRegistry instructions;
  VariableRegistry variables;
  for (int k = 0; Op(2 * k) >= 0; ++k)
  {
    Mark(k);
    const std::string name = names[Op(2 * k + 1)];
    try
    {
      if (Op(2 * k) == 0)
      {
        RegisterMine(instructions, name, k);
      }
      else
      {
        SeenText(1, instructions.Create(name)->GetType());
      }
    }
    catch (const InvalidOperationException&)
    {
      SeenInt(2, k);
    }
    try
    {
      if (Op(2 * k) == 0)
      {
        RegisterVar(variables, name, k);
      }
      else
      {
        SeenInt(1, static_cast<MyVar*>(variables.Create(name).get())->m_my_id);
      }
    }
    catch (const InvalidOperationException&)
    {
      SeenInt(3, k);
    }
    for (const auto* n : names)
    {
      SeenBool(4, instructions.IsRegisteredInstructionName(n));
      SeenBool(5, variables.IsRegisteredVariableName(n));
    }
  }
  Mark(99);
  for (const auto& n : instructions.RegisteredInstructionNames())
  {
    SeenText(6, n);
  }
  for (const auto& n : variables.RegisteredVariableNames())
  {
    SeenText(7, n);
  }
}
}  // namespace oacdrv
