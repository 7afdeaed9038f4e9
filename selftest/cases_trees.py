"""Edits of containers and trees of instructions, their indices and descriptions."""
C, D, T, M, V, J = 'compound_instruction.cpp', 'decorator_instruction.cpp', 'instruction_tree.cpp', 'instruction_map.cpp', 'variable_map.cpp', 'job_map.cpp'
N, U, R, P, I = 'instruction_info.cpp', 'instruction_info_utils.cpp', 'job_info_utils.cpp', 'procedure.cpp', 'instruction.cpp'
CASES = [
    ('tree-ins-range', 'bug', 'C35', [(C, 'index < 0 || index > ChildrenCount()', 'index < 0 || index >= ChildrenCount() + (ChildrenCount() > 2 ? 0 : 1)')]),
    ('tree-ins-back', 'bug', 'C35', [(C, 'std::next(m_children.begin(), index), std::move(child)', 'index == 1 ? m_children.end() : std::next(m_children.begin(), index), std::move(child)')]),
    ('tree-take-last', 'bug', 'C35', [(C, 'index < 0 || index >= ChildrenCount())\n  {\n    return nullptr', 'index < 0 || index + 1 >= ChildrenCount() + (index == 0))\n  {\n    return nullptr')]),
    ('tree-take-keeps', 'bug', 'C35', [(C, '  m_children.erase(it);\n', '  if (it != m_children.begin())\n  {\n    m_children.erase(it);\n  }\n')]),
    ('tree-deco-drop', 'bug', 'C35', [(D, 'return m_child && index == 0 ? std::move(m_child)', 'return m_child && index <= 0 ? std::move(m_child)')]),
    ('tree-deco-release', 'bug', 'C35', [(D, '  std::swap(m_child, child);\n', '  m_child.release();\n  m_child = std::move(child);\n')]),
    ('tree-leaves-two', 'bug', 'C35', [(T, '      if (child_nodes.empty())\n', '      if (child_nodes.size() < 2 && child_nodes.empty() == stack.empty())\n')]),
    ('tree-next-is-all', 'bug', 'C35', [(T, 'return instruction->NextInstructions();', 'return instruction->NextInstructions().size() == 1 ? instruction->ChildInstructions() : instruction->NextInstructions();')]),
    ('tree-s-bfs', 'same', 'C35', [(T, """      result.push_back(node->GetInstruction());
      for (auto child_node : node->GetChildren())
      {
        temp_stack.push_back(child_node);""", """      result.push_back(node->GetInstruction());
      for (auto child_node : node->GetChildren())
      {
        stack.push_back(child_node);""")]),
    ('tree-parent-wrong', 'bug', 'C35', [(T, '      stack.push_back(tree->AddChildInstruction(instr));', '      auto child = (stack.empty() ? tree : stack.back())->AddChildInstruction(instr);\n      stack.push_back(child);')]),
    ('tree-map-dup', 'bug', 'C35', [(M, 'instruction_map.size() != instr_list.size()', 'instruction_map.size() > instr_list.size()')]),
    ('tree-map-from-one', 'bug', 'C35', [(M, 'instruction_map[instr] = idx;', 'instruction_map[instr] = instr_list.size() - 1 - idx + (idx > 1);')]),
    ('tree-rev-bound', 'bug', 'C35', [(M, 'if (idx >= result.size())', 'if (idx > result.size())')]),
    ('tree-rev-null', 'bug', 'C35', [(M, 'if (iter != result.end())', 'if (iter == result.begin())')]),
    ('tree-var-one', 'bug', 'C35', [(V, 'm_variable_map[var_names[idx]] = idx;', 'm_variable_map.emplace(var_names[idx], m_variable_map.empty() ? 0 : 1);')]),
    ('tree-job-uninit', 'bug', 'C35', [(J, '  if (!m_instruction_map)\n  {\n    return 0;\n  }\n', '  if (!m_instruction_map)\n  {\n    return 1;\n  }\n')]),
    ('tree-info-shallow', 'bug', 'C35', [(N, '      InstrInfoCopyNode child_node{*child, *child_info_p};\n      stack.push_back(child_node);', '      InstrInfoCopyNode child_node{*child, *child_info_p};\n      if (stack.empty()) stack.push_back(child_node);')]),
    ('tree-info-attrs', 'bug', 'C35', [(U, 'std::vector<AttributeInfo> attributes = ToAttributeInfos(instr.GetStringAttributes());', 'std::vector<AttributeInfo> attributes;\n  if (index != 2) attributes = ToAttributeInfos(instr.GetStringAttributes());')]),
    ('tree-s-info-order', 'same', 'C35', [(U, """    if (idx >= result.size())
    {
      const std::string error = "CreateOrderedInstructionInfo(): encountered index out of bounds";
      throw InvalidOperationException(error);
    }
""", '    if (idx >= result.size())\n    {\n      continue;\n    }\n')]),
    ('tree-s-stack', 'same', 'C35', [(T, """    auto tree = stack.back();
    stack.pop_back();
    for (auto instr : selector""", """    auto tree = stack.front();
    stack.pop_front();
    for (auto instr : selector""")]),
    ('tree-s-insert', 'same', 'C35', [(C, 'm_children.emplace(std::next(m_children.begin(), index), std::move(child));', 'm_children.insert(m_children.begin() + index, std::move(child));')]),
    ('tree-s-take', 'same', 'C35', [(C, """  std::unique_ptr<Instruction> retval;
  std::swap(retval, *it);
""", '  std::unique_ptr<Instruction> retval = std::move(*it);\n')]),
    ('tree-s-deco', 'same', 'C35', [(D, '  return m_child && index == 0 ? std::move(m_child) : nullptr;', '  if (index != 0)\n  {\n    return nullptr;\n  }\n  return std::move(m_child);')]),
    ('tree-s-map', 'same', 'C35', [(M, """    const auto* instr = instr_list[idx];
    instruction_map[instr] = idx;""", '    instruction_map.emplace(instr_list[idx], idx);')]),
    ('tree-s-leaves', 'same', 'C35', [(T, """      auto child_nodes = node->GetChildren();
      for (auto child_node : child_nodes)
      {
        temp_stack.push_back(child_node);
      }
      if (child_nodes.empty())
      {
        result.push_back(node->GetInstruction());
      }""", """      const auto child_nodes = node->GetChildren();
      if (child_nodes.empty())
      {
        result.push_back(node->GetInstruction());
        continue;
      }
      std::copy(child_nodes.begin(), child_nodes.end(), std::back_inserter(temp_stack));""")]),
    ('tree-s-rev', 'same', 'C35', [(M, """  auto iter = std::find(result.begin(), result.end(), nullptr);
  if (iter != result.end())
  {""", """  if (std::any_of(result.begin(), result.end(), [](const Instruction* instr) { return instr == nullptr; }))
  {""")]),
    ('tree-s-rev2', 'same', 'C35', [(M, """  auto iter = std::find(result.begin(), result.end(), nullptr);
  if (iter != result.end())
  {""", """  if (std::count(result.begin(), result.end(), nullptr) > 0)
  {""")]),
]
