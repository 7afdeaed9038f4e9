"""Edits of the life of procedures."""
P, S = 'procedure.cpp', 'procedure_store.cpp'
CASES = [
    ('v-reset-late', 'bug', 'C37', [(P, """  if (RootInstruction() != nullptr)
  {
    RootInstruction()->Reset(ui);
  }
  m_workspace->Teardown();
  m_procedure_store->ResetProcedureWorkspaces(ui);
""", """  m_workspace->Teardown();
  m_procedure_store->ResetProcedureWorkspaces(ui);
  if (RootInstruction() != nullptr)
  {
    RootInstruction()->Reset(ui);
  }
""")]),
    ('v-teardown-late', 'bug', 'C37', [(P, """    root->Reset(ui);  // instructions are reset instead of torn down.
  }
  m_workspace->Teardown();
""", """    m_workspace->Teardown();
    root->Reset(ui);  // instructions are reset instead of torn down.
  }
""")]),
    ('v-no-dtor', 'bug', 'C37', [(P, '  DefaultUserInterface ui;\n  Teardown(ui);\n', '')]),
    ('v-sub-no-setup', 'bug', 'C37', [(S, '    ws.Setup();\n', '')]),
    ('v-sub-no-teardown', 'bug', 'C37', [(S, '    ws.Teardown();\n', '')]),
    ('v-cache-early', 'bug', 'C37', [(S, """    proc->SetupPreamble();
    m_procedure_cache[filename] = std::move(proc);
""", """    m_procedure_cache[filename] = std::move(proc);
    m_procedure_cache[filename]->SetupPreamble();
""")]),
    ('v-no-parent', 'bug', 'C37', [(S, '    proc->SetParentProcedure(m_parent);\n', '')]),
    ('v-root-present', 'bug', 'C37', [(P, 'return value.As<bool>();', 'return true;')]),
    ('v-root-first', 'bug', 'C37', [(P, '  if (m_instructions.size() == 1)', '  if (m_instructions.size() >= 1)')]),
    ('v-root-last', 'bug', 'C37', [(P, """  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      return instr.get();
    }
  }
  return nullptr;""", """  const Instruction* result = nullptr;
  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      result = instr.get();
    }
  }
  return result;""")]),
    ('v-setup-order', 'bug', 'C37', [(P, '  SetupPreamble();\n  m_workspace->Setup();\n', '  m_workspace->Setup();\n  SetupPreamble();\n')]),
    ('v-no-root-ok', 'bug', 'C37', [(P, """    std::string error_message = "Procedure::Setup(): No root instruction";
    throw ProcedureSetupException(error_message);""", '    return;')]),
    ('v-type-ignored', 'bug', 'C37', [(P, 'if (!RegisterType(anytype))', 'if (!RegisterType(anytype) && m_parent == nullptr)')]),
    ('v-s-order', 'same', 'C37', [(P, """  m_workspace->Teardown();
  m_procedure_store->ResetProcedureWorkspaces(ui);
  m_workspace->Setup();""", """  m_workspace->Teardown();
  m_workspace->Setup();
  m_procedure_store->ResetProcedureWorkspaces(ui);""")]),
    ('v-s-find', 'same', 'C37', [(P, """  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      return instr.get();
    }
  }
  return nullptr;""", """  auto it = std::find_if(m_instructions.begin(), m_instructions.end(), [](const auto& instr) {
    return HasRootAttributeSet(*instr);
  });
  return it == m_instructions.end() ? nullptr : it->get();""")]),
    ('v-s-store', 'same', 'C37', [(S, """  if (m_procedure_cache.find(filename) == m_procedure_cache.end())
  {
    auto proc = ParseProcedureFile(filename);
    proc->SetParentProcedure(m_parent);
    proc->SetupPreamble();
    m_procedure_cache[filename] = std::move(proc);
  }
  return *m_procedure_cache[filename];""", """  auto it = m_procedure_cache.find(filename);
  if (it != m_procedure_cache.end())
  {
    return *it->second;
  }
  auto proc = ParseProcedureFile(filename);
  proc->SetParentProcedure(m_parent);
  proc->SetupPreamble();
  return *m_procedure_cache.emplace(filename, std::move(proc)).first->second;""")]),
    ('v-s-root-local', 'same', 'C37', [(P, """  if (RootInstruction() == nullptr)
  {
    return;
  }
  RootInstruction()->ExecuteSingle(ui, *m_workspace);""", """  if (auto* root = RootInstruction())
  {
    root->ExecuteSingle(ui, *m_workspace);
  }""")]),
]
