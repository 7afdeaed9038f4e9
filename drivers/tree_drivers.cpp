// Client programs: instructions in containers, trees of instructions and what is derived from them.
#include "varprobe.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/instructions/inverter.h>
#include <sup/oac-tree/instructions/sequence.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/variable_map.h>
#include <sup/oac-tree/workspace_info.h>

#include <type_traits>

namespace oacdrv
{
void Gone(int id);

class Item : public Instruction
{
public:
  explicit Item(int id) : Instruction("Item"), m_id{id} {}
  ~Item() override { Gone(m_id); }
  int m_id;

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};

int IdOf(const Instruction* instr)
{
  if (instr == nullptr)
  {
    return -1;
  }
  return static_cast<const Item*>(instr)->m_id;
}

void SeenIds(int what, const std::vector<const Instruction*>& instructions)
{
  for (const auto* instr : instructions)
  {
    SeenInt(what, IdOf(instr));
  }
}

// what is done: 3k kind, 3k+1 index, 3k+2 unused
void Children(Instruction& parent)
{
  for (int k = 0; Op(2 * k) >= 0; ++k)
  {
    Mark(k);
    int index = Op(2 * k + 1) - 1;
    switch (Op(2 * k))
    {
    case 0:
    {
      std::unique_ptr<Instruction> item = std::make_unique<Item>(k);
      SeenBool(0, parent.InsertInstruction(std::move(item), index));
      break;
    }
    case 1:
    {
      std::unique_ptr<Instruction> item = std::make_unique<Item>(k);
      SeenBool(0, AppendChildInstruction(parent, std::move(item)));
      break;
    }
    default:
    {
      auto item = parent.TakeInstruction(index);
      SeenInt(1, IdOf(item.get()));
      break;
    }
    }
    SeenInt(2, parent.ChildrenCount());
    const auto& const_parent = parent;
    SeenIds(3, const_parent.ChildInstructions());
    for (auto* child : parent.ChildInstructions())
    {
      SeenInt(4, IdOf(child));
    }
  }
  Mark(99);
}

void CompoundChildren()
{
  {
    Sequence parent;
    Children(parent);
  }
  Mark(100);
}

void DecoratorChildren()
{
  {
    Inverter parent;
    Children(parent);
  }
  Mark(100);
}

void LeafChildren()
{
  {
    Item parent{50};
    Children(parent);
  }
  Mark(100);
}

void TopInstructions()
{
  {
    Procedure proc{"p.xml"};
    for (int k = 0; Op(2 * k) >= 0; ++k)
    {
      Mark(k);
      int index = Op(2 * k + 1) - 1;
      switch (Op(2 * k))
      {
      case 0:
      {
        std::unique_ptr<Instruction> item = std::make_unique<Item>(k);
        SeenBool(0, proc.InsertInstruction(std::move(item), index));
        break;
      }
      case 1:
      {
        try
        {
          std::unique_ptr<Instruction> item;
          if (index >= 0)
          {
            item = std::make_unique<Item>(k);
          }
          proc.PushInstruction(std::move(item));
          SeenBool(0, true);
        }
        catch (const InvalidOperationException&)
        {
          SeenBool(0, false);
        }
        break;
      }
      default:
      {
        auto item = proc.TakeInstruction(index);
        SeenInt(1, IdOf(item.get()));
        break;
      }
      }
      SeenInt(2, proc.GetInstructionCount());
      SeenIds(3, proc.GetTopInstructions());
      const Procedure& const_proc = proc;
      SeenInt(4, IdOf(proc.RootInstruction()));
      SeenInt(5, IdOf(const_proc.RootInstruction()));
    }
    Mark(99);
  }
  Mark(100);
}

// an instruction with given children, some of which would be executed next
class Node : public Instruction
{
public:
  explicit Node(int id, int n_children) : Instruction(id == 0 ? "Root" : "Node"), m_id{id}, m_n_children{n_children} {}
  ~Node() override = default;
  Category GetCategory() const override { return m_n_children == 0 ? kAction : m_n_children == 1 ? kDecorator : kCompound; }
  int m_id;
  int m_n_children;
  std::vector<const Instruction*> m_children;
  std::vector<const Instruction*> m_next;

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
  int ChildrenCountImpl() const override { return m_children.size(); }
  std::vector<const Instruction*> ChildInstructionsImpl() const override { return m_children; }
  std::vector<const Instruction*> NextInstructionsImpl() const override { return m_next; }
};

void SeenNodes(int what, const std::vector<const Instruction*>& nodes)
{
  for (const auto* node : nodes)
  {
    SeenInt(what, static_cast<const Node*>(node)->m_id);
  }
}

template <typename T>
void CopyAndDrop(T& value)
{
  if constexpr (std::is_copy_constructible_v<T>)
  {
    T copy{value};
  }
  if constexpr (std::is_copy_assignable_v<T>)
  {
    T copy{nullptr};
    copy = value;
  }
  if constexpr (std::is_move_assignable_v<T>)
  {
    T copy{nullptr};
    copy = std::move(value);
    value = std::move(copy);
  }
}

void SeenInfo(int what, const InstructionInfo& info)
{
  SeenInt(what, info.GetIndex());
  SeenText(what, info.GetType());
  SeenInt(what + 1, info.GetCategory());
  for (const auto& attr : info.GetAttributes())
  {
    SeenText(what + 1, attr.first);
    SeenText(what + 2, attr.second);
  }
  SeenInt(what + 2, info.Children().size());
  for (const auto* child : info.Children())
  {
    SeenInfo(what, *child);
  }
}

// node 0 is the root; Op(2k-2): parent of node k, Op(2k-1): whether it is executed next; -1 ends
void Trees()
{
  std::vector<std::unique_ptr<Node>> nodes;
  int n = 1;
  while (Op(2 * n - 2) >= 0)
  {
    ++n;
  }
  for (int k = 0; k < n; ++k)
  {
    int children = 0;
    for (int i = 1; i < n; ++i)
    {
      if (Op(2 * i - 2) == k)
      {
        ++children;
      }
    }
    nodes.push_back(std::make_unique<Node>(k, children));
    nodes[k]->AddAttribute("name", k == 0 ? "n0" : k == 1 ? "n1" : "nk");
    if (k > 0)
    {
      auto& parent = *nodes[Op(2 * k - 2)];
      parent.m_children.push_back(nodes[k].get());
      if (Op(2 * k - 1) == 1)
      {
        parent.m_next.push_back(nodes[k].get());
      }
    }
  }
  const Node& root = *nodes[0];
  Mark(0);
  {
    auto tree = CreateFullInstructionTree(&root);
    CopyAndDrop(tree);
    SeenBool(0, tree.IsEmpty());
    SeenNodes(0, GetLeaves(tree));
    SeenNodes(1, FlattenBFS(tree));
    SeenNodes(2, tree.GetChildInstructions());
  }
  Mark(1);
  {
    auto tree = CreateNextInstructionTree(&root);
    SeenNodes(0, GetLeaves(tree));
    SeenNodes(1, FlattenBFS(tree));
    SeenNodes(2, tree.GetChildInstructions());
  }
  Mark(2);
  InstructionMap map{&root};
  SeenInt(0, map.GetNumberOfInstructions());
  for (int k = 0; k < n; ++k)
  {
    SeenInt(1, map.FindInstructionIndex(nodes[k].get()));
  }
  SeenNodes(2, GetReverseMap(map.GetInstructionIndexMap()));
  Node stranger{60, 0};
  try
  {
    map.FindInstructionIndex(&stranger);
    SeenBool(0, true);
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(0, false);
  }
  Mark(3);
  auto info = utils::CreateInstructionInfoTree(root, map);
  SeenInfo(0, *info);
  Mark(4);
  {
    InstructionInfo copy{*info};
    SeenInfo(0, copy);
    SeenBool(0, copy == *info);
  }
  Mark(5);
  for (const auto* node : utils::CreateOrderedInstructionInfo(*info))
  {
    SeenInt(0, node->GetIndex());
  }
  Mark(6);
  SeenInfo(0, *info);
}

// indices of variables and of a job
void Jobs()
{
  Procedure proc{"p.xml"};
  const char* names[] = {"b", "a", "c"};
  for (int k = 0; k < Op(0); ++k)
  {
    auto v = std::make_unique<VarProbe>(k);
    v->SetName(names[k]);
    proc.AddVariable(names[k], std::move(v));
  }
  auto root = std::make_unique<Sequence>();
  for (int k = 0; k < Op(1); ++k)
  {
    root->InsertInstruction(std::make_unique<Item>(k), k);
  }
  auto* sequence = root.get();
  proc.PushInstruction(std::move(root));
  JobMap map{proc};
  Mark(0);
  SeenInt(0, map.GetNumberOfVariables());
  for (const char* name : {"a", "b", "c"})
  {
    try
    {
      SeenInt(1, map.GetVariableIndex(name));
    }
    catch (const InvalidOperationException&)
    {
      SeenInt(1, -1);
    }
  }
  Mark(1);
  SeenInt(0, map.GetNumberOfInstructions());
  try
  {
    map.GetInstructionIndex(sequence);
    SeenBool(0, true);
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(0, false);
  }
  try
  {
    map.GetOrderedInstructions();
    SeenBool(0, true);
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(0, false);
  }
  map.InitializeInstructionTree(proc.RootInstruction());
  Mark(2);
  SeenInt(0, map.GetNumberOfInstructions());
  SeenInt(1, map.GetInstructionIndex(sequence));
  for (auto* child : sequence->ChildInstructions())
  {
    SeenInt(1, map.GetInstructionIndex(child));
  }
  SeenBool(0, map.GetOrderedInstructions().front() == sequence);
  Mark(3);
  auto info = utils::CreateJobInfo(proc, map.GetInstructionMap());
  SeenText(0, info.GetProcedureName());
  SeenInt(0, info.GetNumberOfInstructions());
  SeenInt(1, info.GetNumberOfVariables());
  JobInfo copy{info};
  SeenBool(1, copy == info);
  SeenBool(2, copy.GetRootInstructionInfo() == info.GetRootInstructionInfo());
  SeenInt(2, copy.GetRootInstructionInfo()->Children().size());
  Mark(99);
}

// trees and index maps that make no sense
void Impossible()
{
  Node root{0, 2};
  Node first{1, 0};
  Node second{2, 0};
  root.m_children.push_back(&first);
  root.m_children.push_back(Op(0) == 0 ? &first : Op(0) == 1 ? nullptr : &second);
  try
  {
    InstructionMap map{&root};
    SeenInt(0, map.GetNumberOfInstructions());
    InstructionMap::InstructionIndexMap indices;
    indices[&root] = Op(1);
    indices[&first] = Op(2);
    indices[&second] = Op(3);
    SeenInt(1, GetReverseMap(indices).size());
  }
  catch (const InvalidOperationException&)
  {
    SeenInt(2, 0);
  }
}

void Nothing()
{
  InstructionMap map{nullptr};
  SeenInt(0, map.GetNumberOfInstructions());
  try
  {
    auto tree = CreateFullInstructionTree(nullptr);
    SeenBool(0, true);
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(0, false);
  }
  Procedure proc{"p.xml"};
  JobMap job_map{proc};
  SeenInt(1, job_map.GetNumberOfVariables());
  try
  {
    auto info = utils::CreateJobInfo(proc, map);
    SeenBool(1, true);
  }
  catch (const InvalidOperationException&)
  {
    SeenBool(1, false);
  }
}

// descriptions of instructions whose indices are given
void Ordered()
{
  InstructionInfo root{"Root", Instruction::kCompound, static_cast<sup::dto::uint32>(Op(0)), {}};
  for (int k = 1; Op(k) >= 0; ++k)
  {
    root.AppendChild(std::make_unique<InstructionInfo>("Item", Instruction::kAction, static_cast<sup::dto::uint32>(Op(k)), std::vector<AttributeInfo>{}));
  }
  try
  {
    for (const auto* node : utils::CreateOrderedInstructionInfo(root))
    {
      SeenInt(0, node->GetIndex());
    }
  }
  catch (const InvalidOperationException&)
  {
    SeenInt(1, 0);
  }
}
}  // namespace oacdrv
