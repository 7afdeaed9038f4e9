"""Edits of the parser, the writer and the registries."""
PP = 'procedure_parser.cpp'
IP = 'instruction_parser.cpp'
VP = 'variable_parser.cpp'
SP = 'sequence_parser.cpp'
W = 'procedure_to_treedata_utils.cpp'
IR = 'instruction_registry.cpp'
VR = 'variable_registry.cpp'
PR = 'procedure_preamble.cpp'
AV = 'procedure.cpp'
CASES = [
    ('parse-plugin-late', 'bug', 'C34', [(PP, """  // Load plugins and register types first
  ParsePreamble(result.get(), data);

  // Add attributes
  result->AddAttributes(data.Attributes());

  // Parse child elements
  ParseProcedureChildren(result.get(), data);
""", """  result->AddAttributes(data.Attributes());
  ParseProcedureChildren(result.get(), data);
  ParsePreamble(result.get(), data);
""")]),
    ('parse-type-or', 'bug', 'C34', [(PP, '      == child.HasAttribute(Constants::REGISTERTYPE_JSON_FILE_ATTRIBUTE))', '      < child.HasAttribute(Constants::REGISTERTYPE_JSON_FILE_ATTRIBUTE)\n      && child.GetNumberOfAttributes() != 1)')]),
    ('parse-mode', 'bug', 'C34', [(PP, '    registration_mode = TypeRegistrationInfo::kJSONString;\n', '')]),
    ('parse-name-empty', 'bug', 'C34', [(PP, '    if (name.empty())', '    if (!var_data.HasAttribute(Constants::NAME_ATTRIBUTE_NAME))')]),
    ('parse-child-dropped', 'bug', 'C34', [(IP, """    if (!AppendChildInstruction(*instruction, std::move(child_instr)))
    {""", """    if (!AppendChildInstruction(*instruction, std::move(child_instr))
        && instruction->GetCategory() == Instruction::kAction)
    {""")]),
    ('parse-var-attr', 'bug', 'C34', [(VP, '  var->AddAttributes(data.Attributes());', '  if (data.GetNumberOfAttributes() > 1)\n  {\n    var->AddAttributes(data.Attributes());\n  }\n  if (var_type == "File")\n  {\n    var->AddAttribute("file", "");\n  }')]),
    ('parse-null', 'bug', 'C34', [(SP, '  return ParseProcedure(*data);\n', '  return ParseProcedure(*data, xml_str);\n')]),
    ('write-deep', 'bug', 'C34', [(W, '    Iterate(child, tree_data.get());\n    parent->AddChild(*tree_data);', '    parent->AddChild(*tree_data);\n    Iterate(child, tree_data.get());')]),
    ('write-mode', 'bug', 'C34', [(W, '== TypeRegistrationInfo::kJSONFile', '!= TypeRegistrationInfo::kJSONString\n                             && preamble.GetTypeRegistrations().size() < 2')]),
    ('write-plugin-once', 'bug', 'C34', [(W, '    tree_data->SetContent(plugin_path);\n    parent.AddChild(*tree_data);', '    tree_data->SetContent(plugin_path);\n    parent.AddChild(*tree_data);\n    break;')]),
    ('write-proc-attrs', 'bug', 'C34', [(W, '    result->AddAttribute(attr_name, attr_value);\n  }\n  internal::AddPreamble', '    if (attr_name == Constants::NAME_ATTRIBUTE_NAME)\n    {\n      result->AddAttribute(attr_name, attr_value);\n    }\n  }\n  internal::AddPreamble')]),
    ('reg-twice', 'bug', 'C33', [(IR, """  if (it != m_instruction_map.end())
  {
    std::string""", """  if (it != m_instruction_map.end() && it->second == constructor)
  {
    std::string""")]),
    ('reg-lower', 'bug', 'C33', [(VR, '  auto entry = m_variable_map.find(name);\n  if (entry', '  auto entry = m_variable_map.lower_bound(name);\n  if (entry')]),
    ('reg-missing', 'bug', 'C33', [(IR, '  (void)RegisterInstruction<WaitForVariables>(registry);\n', '')]),
    ('reg-category', 'bug', 'C33', [('log_instruction.cpp', '  : Instruction(Type)', '  : Instruction("Logger")')]),
    ('parse-s-loop', 'same', 'C34', [(PP, """  for (auto it = data.Children().begin(); it != data.Children().end(); ++it)
  {
    auto element_type = it->GetNodeName();""", """  const auto& children = data.Children();
  for (std::size_t i = 0; i < children.size(); ++i)
  {
    const auto* it = &children[i];
    const std::string& element_type = it->GetNodeName();""")]),
    ('parse-s-order', 'same', 'C34', [(PP, """  // Load plugins and register types first
  ParsePreamble(result.get(), data);

  // Add attributes
  result->AddAttributes(data.Attributes());
""", """  result->AddAttributes(data.Attributes());
  ParsePreamble(result.get(), data);
""")]),
    ('parse-s-name', 'same', 'C34', [(PP, """    auto name = var_data.HasAttribute(Constants::NAME_ATTRIBUTE_NAME)
                ? var_data.GetAttribute(Constants::NAME_ATTRIBUTE_NAME) : "";""", """    std::string name;
    if (var_data.HasAttribute(Constants::NAME_ATTRIBUTE_NAME))
    {
      name = var_data.GetAttribute(Constants::NAME_ATTRIBUTE_NAME);
    }""")]),
    ('parse-s-attrs', 'same', 'C34', [(IP, """  for (auto& [attr_name, attr_value] : data.Attributes())
  {
    instr->AddAttribute(attr_name, attr_value);
  }""", """  const auto& attributes = data.Attributes();
  for (auto it = attributes.begin(); it != attributes.end(); ++it)
  {
    instr->AddAttribute(it->first, it->second);
  }""")]),
    ('write-s-iter', 'same', 'C34', [(W, """    auto tree_data = CreateTreeData(child);
    Iterate(child, tree_data.get());
    parent->AddChild(*tree_data);""", """    parent->AddChild(*sup::oac_tree::ToTreeData(*child));""")]),
    ('reg-s-emplace', 'same', 'C33', [(IR, '  m_instruction_map.insert(it, {name, constructor});', '  m_instruction_map[name] = constructor;')]),
    ('reg-s-emplace2', 'same', 'C33', [(VR, """  auto it = m_variable_map.find(name);
  if (it != m_variable_map.end())
  {
    std::string""", """  if (!m_variable_map.emplace(name, constructor).second)
  {
    std::string"""), (VR, '  m_variable_map.insert(it, {name, constructor});\n', '')]),
    ('reg-s-count', 'same', 'C33', [(IR, """  auto it = m_instruction_map.find(name);
  return it != m_instruction_map.end();""", '  return m_instruction_map.count(name) > 0;')]),
]
