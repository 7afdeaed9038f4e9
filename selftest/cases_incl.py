"""Edits of the instructions that use another procedure."""
I, IP, H, P, X = 'include.cpp', 'include_procedure.cpp', 'instruction_helper.cpp', 'procedure.cpp', 'procedure_context.cpp'
CF, CT = 'copy_from_procedure.cpp', 'copy_to_procedure.cpp'
CASES = [
    ('incl-main-ws', 'bug', 'C38', [(IP, 'ExecuteChild(ui, *m_workspace)', 'ExecuteChild(ui, ws)')]),
    ('incl-main-proc', 'bug', 'C38', [(IP, 'SetupChild(sub_proc)', 'SetupChild(proc)')]),
    ('incl-inc-main-proc', 'bug', 'C38', [(I, 'SetupChild(sub_proc)', 'SetupChild(proc)')]),
    ('incl-no-ws-setup', 'bug', 'C38', [(IP, '  m_workspace->Setup();\n', '')]),
    ('incl-no-place', 'bug', 'C38', [(I, 'if (!InstructionHelper::InitialisePlaceholderAttributes(*clone, GetStringAttributes()))', 'if (!InstructionHelper::InitialisePlaceholderAttributes(*clone, GetStringAttributes()) && false)')]),
    ('incl-override', 'bug', 'C38', [(I, """    if (!HasAttribute(attr_name))
    {
      result = AddAttribute(attr_name, attr_value) && result;
    }""", """    if (HasAttribute(attr_name))
    {
      SetAttribute(attr_name, attr_value);
    }
    else
    {
      result = AddAttribute(attr_name, attr_value) && result;
    }""")]),
    ('incl-propagate-not', 'bug', 'C38', [(I, '    if (!HasAttribute(attr_name))\n', '    if (HasAttribute(attr_name))\n')]),
    ('incl-abs', 'bug', 'C38', [(P, "filename.empty() || filename.front() == '/' || directory.empty()", "filename.empty() || directory.empty()")]),
    ('incl-first-slash', 'bug', 'C38', [(P, "filename.find_last_of('/')", "filename.find_first_of('/') == 0 ? 0 : std::string::npos")]),
    ('incl-find-deep', 'bug', 'C38', [(H, '  if (instruction.empty())\n', '  if (instruction.empty() || result->ChildrenCount() == 0)\n')]),
    ('incl-find-last', 'bug', 'C38', [(H, 'std::find_if(instructions.begin(), instructions.end(),', 'std::find_if(instructions.begin() + (instructions.size() > 3 ? 1 : 0), instructions.end(),')]),
    ('incl-clone-half', 'bug', 'C38', [(H, '    if (!AddClonedChildInstruction(clone, child))\n    {\n      return false;\n    }', '    if (clone.ChildrenCount() < 2 && !AddClonedChildInstruction(clone, child))\n    {\n      return false;\n    }')]),
    ('incl-root-first', 'bug', 'C38', [(X, 'path.empty() ? proc.RootInstruction()', 'path.empty() ? top_instructions.front()')]),
    ('incl-copy-swap', 'bug', 'C38', [(CT, 'INPUT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui', 'INPUT_VARIABLE_NAME_ATTRIBUTE_NAME, *m_workspace, ui')]),
    ('incl-copy-no-setup', 'bug', 'C38', [(CF, '  m_workspace->Setup();\n', '')]),
    ('incl-copy-ok', 'bug', 'C38', [(CF, """                                 value))
  {
    return ExecutionStatus::FAILURE;""", """                                 value))
  {
    return ExecutionStatus::SUCCESS;""")]),
    ('incl-s-order', 'same', 'C38', [(IP, """  m_workspace = std::addressof(proc_context.GetWorkspace(proc_filename));
  m_workspace->Setup();
  auto& sub_proc = proc_context.GetProcedure(proc_filename);
""", """  const auto& sub_proc = proc_context.GetProcedure(proc_filename);
  auto& sub_ws = proc_context.GetWorkspace(proc_filename);
  sub_ws.Setup();
  m_workspace = &sub_ws;
""")]),
    ('incl-s-loop', 'same', 'C38', [(H, """  auto it = std::find_if(instructions.begin(), instructions.end(),
                         [&names](const Instruction* instr)
                         {
                           return instr->GetName() == names.first;
                         });
  auto [_, instruction] = names;
  if (it == instructions.end())
  {
    return nullptr;
  }
  auto result = *it;
""", """  const Instruction* result = nullptr;
  for (const auto* instr : instructions)
  {
    if (instr->GetName() == names.first)
    {
      result = instr;
      break;
    }
  }
  const auto& instruction = names.second;
  if (result == nullptr)
  {
    return nullptr;
  }
""")]),
    ('incl-s-place', 'same', 'C38', [(H, """      if (it == source_attributes.end())
      {
        result = false;
        continue;
      }
      auto var_value = it->second;
      attribute_handler.SetStringAttribute(attr_name, var_value);""", """      if (it != source_attributes.end())
      {
        attribute_handler.SetStringAttribute(attr_name, it->second);
      }
      else
      {
        result = false;
      }""")]),
    ('incl-s-resolve', 'same', 'C38', [(I, """    auto filename = GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME);
    proc_filename = ResolveRelativePath(proc, filename);""", """    proc_filename = GetFullPathName(GetFileDirectory(proc.GetFilename()), GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME));""")]),
]
