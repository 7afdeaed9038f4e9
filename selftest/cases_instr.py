"""Edits of the instruction tree."""
I, SQ, FB, RS, RF, P = 'instruction.cpp', 'sequence.cpp', 'fallback.cpp', 'reactive_sequence.cpp', 'reactive_fallback.cpp', 'parallel_sequence.cpp'
SQLOOP = '''    if (NeedsExecute(child_status))
    {
      instruction->ExecuteSingle(ui, ws);
      break;
    }
  }
  return CalculateCompoundStatus();'''
SQCALC = '''    if (child_status == ExecutionStatus::NOT_STARTED
        || child_status == ExecutionStatus::NOT_FINISHED)
    {
      return ExecutionStatus::NOT_FINISHED;
    }
    return child_status;
  }
  return ExecutionStatus::SUCCESS;'''
OTHER = '''    if (other_instruction != instr)
    {
      other_instruction->Reset(ui);
    }'''
CASES = [
    # ---- C10
    ('i-init-status', 'bug', 'C10', [(I, '      SetStatus(ExecutionStatus::NOT_FINISHED);', '      SetStatus(ExecutionStatus::RUNNING);')]),
    ('i-halt-late', 'bug', 'C10', [(I, '  if (NeedsExecute(m_status_before) && !IsHaltRequested())', '  if (NeedsExecute(m_status_before))')]),
    ('i-reset-keeps-halt', 'bug', 'C10', [(I, '  m_attribute_handler.ClearFailedConstraints();\n  m_halt_requested.store(false);', '  m_attribute_handler.ClearFailedConstraints();')]),
    ('i-reset-no-notify', 'bug', 'C10', [(I, '''  if (GetStatus() != m_status_before)
  {
    ui.UpdateInstructionStatus(this);
  }
  m_attribute''', '  m_attribute')]),
    ('i-postamble-always', 'bug', 'C10', [(I, '''void Instruction::Postamble(UserInterface& ui)
{
  if (GetStatus() != m_status_before)
  {
    ui.UpdateInstructionStatus(this);
  }''', '''void Instruction::Postamble(UserInterface& ui)
{
  if (m_status_before != ExecutionStatus::FAILURE)
  {
    ui.UpdateInstructionStatus(this);
  }''')]),
    ('i-notify-early', 'bug', 'C10', [(I, '''      SetStatus(ExecutionStatus::NOT_FINISHED);
    }
    ui.UpdateInstructionStatus(this);''', '''      ui.UpdateInstructionStatus(this);
      SetStatus(ExecutionStatus::NOT_FINISHED);
    }''')]),
    ('i-reinit', 'bug', 'C10', [(I, '  if (GetStatus() == ExecutionStatus::NOT_STARTED)\n', '  if (ReadyForExecute(GetStatus()))\n')]),
    ('i-halt-hook-first', 'same', 'C10', [(I, '''  m_halt_requested.store(true);
  HaltImpl();''', '''  m_halt_requested = true;
  this->HaltImpl();''')]),
    ('i-preamble-local', 'same', 'C10', [(I, '''    if (!InitHook(ui, ws))
    {
      SetStatus(ExecutionStatus::FAILURE);
    }
    else
    {
      SetStatus(ExecutionStatus::NOT_FINISHED);
    }''', '''    const bool ok = InitHook(ui, ws);
    SetStatus(ok ? ExecutionStatus::NOT_FINISHED : ExecutionStatus::FAILURE);''')]),
    ('i-reset-local', 'same', 'C10', [(I, '''  m_status_before = GetStatus();
  SetStatus(ExecutionStatus::NOT_STARTED);
  if (GetStatus() != m_status_before)''', '''  m_status_before = GetStatus();
  const bool changed = m_status_before != ExecutionStatus::NOT_STARTED;
  SetStatus(ExecutionStatus::NOT_STARTED);
  if (changed)''')]),
    # ---- C13 / C14
    ('sq-running-as-nf', 'bug', 'C13', [(SQ, SQCALC, SQCALC.replace('    return child_status;', '    return child_status == ExecutionStatus::RUNNING ? ExecutionStatus::NOT_FINISHED : child_status;'))]),
    ('sq-no-break', 'bug', 'C13', [(SQ, SQLOOP, SQLOOP.replace('      break;\n', '      if (instruction->GetStatus() != ExecutionStatus::SUCCESS) break;\n'))]),
    ('sq-next-running', 'bug', 'C13', [(SQ, 'if (ReadyForExecute(child_status))', 'if (NeedsExecute(child_status))')]),
    ('sq-empty-last', 'bug', 'C13', [(SQ, '  return ExecutionStatus::SUCCESS;\n}', '  return ChildrenCount() > 2 ? ExecutionStatus::NOT_FINISHED : ExecutionStatus::SUCCESS;\n}')]),
    ('rs-reset-earlier', 'bug', 'C13', [(RS, OTHER, OTHER.replace('''    if (other_instruction != instr)
''', '''    if (other_instruction == instr)
    {
      break;
    }
'''))]),
    ('rs-nf-resets', 'bug', 'C13', [(RS, 'if (instruction->GetStatus() == ExecutionStatus::RUNNING)', 'if (IsExecutingStatus(instruction->GetStatus()))')]),
    ('rs-reset-first', 'bug', 'C13', [(RS, '''      instruction->ExecuteSingle(ui, ws);
      if (''', '''      const auto was_running = child_status == ExecutionStatus::RUNNING;
      instruction->ExecuteSingle(ui, ws);
      if (was_running && ''')]),
    ('fb-running-as-nf', 'bug', 'C14', [(FB, '    return child_status;\n  }\n  return ExecutionStatus::FAILURE;', '    return IsExecutingStatus(child_status) ? ExecutionStatus::NOT_FINISHED : child_status;\n  }\n  return ExecutionStatus::FAILURE;')]),
    ('rf-no-reset', 'bug', 'C14', [(RF, '        ResetOtherChildren(instruction, ui);\n', '')]),
    ('rf-reset-all', 'bug', 'C14', [(RF, OTHER, '    other_instruction->Reset(ui);')]),
    ('fb-next-two', 'bug', 'C14', [(FB, '''      result.push_back(instruction);
      return result;''', '''      result.push_back(instruction);
      continue;''')]),
    ('sq-index', 'same', 'C13', [(SQ, '''  for (auto instruction : ChildInstructions())
  {
    auto child_status = instruction->GetStatus();
    if (child_status == ExecutionStatus::SUCCESS)
    {
      continue;
    }
    // child FAILED''', '''  const auto children = ChildInstructions();
  for (std::size_t i = 0; i < children.size(); ++i)
  {
    auto instruction = children[i];
    auto child_status = instruction->GetStatus();
    if (child_status == ExecutionStatus::SUCCESS)
    {
      continue;
    }
    // child FAILED''')]),
    ('sq-find-if', 'same', 'C13', [(SQ, '''  for (auto instruction : ChildInstructions())
  {
    auto child_status = instruction->GetStatus();
    if (child_status == ExecutionStatus::SUCCESS)
    {
      continue;
    }
    // child FAILED is not taken into account here, as the Sequence should not have been ticked then.
''' + SQLOOP, '''  auto children = ChildInstructions();
  auto it = std::find_if(children.begin(), children.end(), [](const Instruction* c)
                         { return c->GetStatus() != ExecutionStatus::SUCCESS; });
  if (it != children.end() && NeedsExecute((*it)->GetStatus()))
  {
    (*it)->ExecuteSingle(ui, ws);
  }
  return CalculateCompoundStatus();'''), (SQ, '#include "sequence.h"', '#include "sequence.h"\n#include <algorithm>')]),
    ('sq-calc-ready', 'same', 'C13', [(SQ, '''    if (child_status == ExecutionStatus::NOT_STARTED
        || child_status == ExecutionStatus::NOT_FINISHED)''', '    if (ReadyForExecute(child_status))')]),
    ('sq-next-if', 'same', 'C13', [(SQ, '''    if (ReadyForExecute(child_status))
    {
      result.push_back(instruction);
      return result;
    }
    // There is no next when a child is encountered that has status FAILURE/RUNNING:
    break;''', '''    if (ReadyForExecute(child_status))
    {
      result.push_back(instruction);
    }
    break;''')]),
    ('rs-inline-reset', 'same', 'C13', [(RS, '        ResetOtherChildren(instruction, ui);', '        for (auto c : ChildInstructions()) { if (c == instruction) { continue; } c->Reset(ui); }')]),
    ('fb-switch', 'same', 'C14', [(FB, '''    if (child_status == ExecutionStatus::NOT_STARTED
        || child_status == ExecutionStatus::NOT_FINISHED)
    {
      return ExecutionStatus::NOT_FINISHED;
    }
    return child_status;''', '''    switch (child_status)
    {
    case ExecutionStatus::NOT_STARTED:
    case ExecutionStatus::NOT_FINISHED:
      return ExecutionStatus::NOT_FINISHED;
    default:
      return child_status;
    }''')]),
    # ---- C15
    ('pa-success-gt', 'bug', 'C15', [(P, 'if (n_success >= m_success_th)', 'if (n_success > m_success_th)')]),
    ('pa-failure-first', 'bug', 'C15', [(P, '''  if (n_success >= m_success_th)
  {
    return ExecutionStatus::SUCCESS;
  }
  if (n_failure >= m_failure_th)
  {
    return ExecutionStatus::FAILURE;
  }''', '''  if (n_failure >= m_failure_th)
  {
    return ExecutionStatus::FAILURE;
  }
  if (n_success >= m_success_th)
  {
    return ExecutionStatus::SUCCESS;
  }''')]),
    ('pa-no-clip', 'bug', 'C15', [(P, '  m_success_th = std::min(N, m_success_th);\n', '')]),
    ('pa-both-max', 'bug', 'C15', [(P, 'm_failure_th = std::min(m_failure_th, N - m_success_th + 1);', 'm_failure_th = N - m_success_th + 1;')]),
    ('pa-no-halt', 'bug', 'C15', [(P, '''  if (IsFinishedStatus(status))
  {
    Halt();
  }
  return status;''', '''  if (status == ExecutionStatus::SUCCESS)
  {
    Halt();
  }
  return status;''')]),
    ('pa-running', 'bug', 'C15', [(P, 'child_not_finished_present ? ExecutionStatus::NOT_FINISHED : ExecutionStatus::RUNNING', 'child_not_finished_present ? ExecutionStatus::RUNNING : ExecutionStatus::RUNNING')]),
    ('pa-count-if', 'same', 'C15', [(P, '''    if (wrapper_status == ExecutionStatus::SUCCESS)
    {
      n_success++;
    }
    if (wrapper_status == ExecutionStatus::FAILURE)
    {
      n_failure++;
    }
    if (wrapper_status == ExecutionStatus::NOT_FINISHED)
    {
      child_not_finished_present = true;
    }''', '''    switch (wrapper_status)
    {
    case ExecutionStatus::SUCCESS:
      ++n_success;
      break;
    case ExecutionStatus::FAILURE:
      ++n_failure;
      break;
    case ExecutionStatus::NOT_FINISHED:
      child_not_finished_present = true;
      break;
    default:
      break;
    }''')]),
    ('pa-th-rewrite', 'same', 'C15', [(P, 'm_failure_th = std::min(m_failure_th, N - m_success_th + 1);', 'if (m_failure_th + m_success_th > N + 1) { m_failure_th = N + 1 - m_success_th; }')]),
    # ---- C16
    ('rp-count', 'bug', 'C16', [('repeat.cpp', 'if (child_status == ExecutionStatus::SUCCESS)\n  {\n    ResetChild(ui);', 'if (child_status == ExecutionStatus::SUCCESS && m_count > 1)\n  {\n    ResetChild(ui);')]),
    ('rp-neg', 'bug', 'C16', [('repeat.cpp', '  if (m_max_count < 0)\n', '  if (m_max_count < -1)\n'), ('repeat.cpp', '    m_max_count = -1;\n', '    m_max_count = 1;\n')]),
    ('rp-init', 'bug', 'C16', [('repeat.cpp', '  m_count = 0;\n  m_max_count = 0;', '  m_max_count = 0;')]),
    ('inv-running', 'bug', 'C16', [('inverter.cpp', '  default:\n    break;', '  case ExecutionStatus::RUNNING:\n    child_status = ExecutionStatus::NOT_FINISHED;\n    break;\n  default:\n    break;')]),
    ('for-len', 'bug', 'C16', [('for.cpp', '    if (m_count == max_count)', '    if (m_count >= max_count - 1 && max_count > 2)')]),
    ('for-init', 'bug', 'C16', [('for.cpp', '  m_count = 0;\n  if (!GetA', '  if (!GetA')]),
    ('listen-cache', 'bug', 'C16', [('listen.cpp', '    var_value = new_value;\n    cache_changed = true;', '    var_value = new_value;\n    cache_changed = true;\n    break;')]),
    ('listen-force', 'bug', 'C16', [('listen.cpp', '  if (m_force_success && child_status == ExecutionStatus::FAILURE)', '  if (m_force_success || child_status == ExecutionStatus::FAILURE)')]),
    ('listen-noreset', 'bug', 'C16', [('listen.cpp', '  if (IsFinishedStatus(child_status))\n', '  if (child_status == ExecutionStatus::FAILURE)\n')]),
    ('inv-ternary', 'same', 'C16', [('inverter.cpp', '''  switch (child_status)
  {
  case ExecutionStatus::FAILURE:
    child_status = ExecutionStatus::SUCCESS;
    break;
  case ExecutionStatus::SUCCESS:
    child_status = ExecutionStatus::FAILURE;
    break;
  default:
    break;
  }
  return child_status;''', '''  if (!IsFinishedStatus(child_status))
  {
    return child_status;
  }
  return child_status == ExecutionStatus::FAILURE ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;''')]),
    ('rp-inc', 'same', 'C16', [('repeat.cpp', '    m_count++;', '    m_count += 1;'), ('repeat.cpp', '  if (m_max_count < 0)\n  {\n    m_max_count = -1;\n  }', '  m_max_count = std::max(m_max_count, -1);'), ('repeat.cpp', '#include <sup', '#include <algorithm>\n#include <sup')]),
    ('listen-or', 'same', 'C16', [('listen.cpp', '''    if (!ws.GetValue(var_name, new_value))
    {
      continue;
    }
    if (var_value == new_value)
    {
      continue;
    }
    var_value = new_value;
    cache_changed = true;''', '''    if (ws.GetValue(var_name, new_value) && var_value != new_value)
    {
      var_value = new_value;
      cache_changed = true;
    }''')]),
    # ---- C17
    ('ch-reset-list', 'bug', 'C17', [('choice.cpp', '  m_instruction_list.clear();\n  m_instruction_list_initialized = false;', '  m_instruction_list_initialized = false;')]),
    ('uc-range', 'bug', 'C17', [('user_choice.cpp', 'choice < 0 || choice >= ChildrenCount()', 'choice < 0 || choice > ChildrenCount()')]),
    ('uc-nofail', 'bug', 'C17', [('user_choice.cpp', '  m_choice = -1;\n  Halt();', '  Halt();')]),
    ('uc-invert', 'same', 'C17', [('user_choice.cpp', 'choice < 0 || choice >= ChildrenCount()', '!(0 <= choice && choice < ChildrenCount())')]),
    # ---- C11, C12, C18
    ('cp-halt-first', 'bug', 'C12', [('compound_instruction.cpp', '''  for (auto& instruction : m_children)
  {
    instruction->Halt();''', '''  for (auto& instruction : m_children)
  {
    if (instruction->GetStatus() == ExecutionStatus::RUNNING)
      instruction->Halt();''')]),
    ('cp-reset-started', 'bug', 'C11', [('compound_instruction.cpp', '''    instruction->Reset(ui);''', '''    if (instruction->GetStatus() != ExecutionStatus::FAILURE)
      instruction->Reset(ui);''')]),
    ('as-reset-late', 'bug', 'C18', [('async.cpp', '''  m_wrapper.reset();
  // call reset on child instruction
  ResetChild(ui);''', '''  // call reset on child instruction
  ResetChild(ui);
  m_wrapper.reset();''')]),
    ('pa-clear-late', 'bug', 'C18', [(P, '''  m_wrappers.clear();
  // call reset on child instructions
  ResetChildren(ui);''', '''  ResetChildren(ui);
  m_wrappers.clear();''')]),
    ('as-nohalt', 'bug', 'C18', [('async.cpp', 'if (status == ExecutionStatus::RUNNING)', 'if (status == ExecutionStatus::NOT_FINISHED)')]),
    ('aw-relaunch', 'bug', 'C18', [('async_wrapper.cpp', '    if (!status_changed && NeedsExecute(m_status))', '    if (NeedsExecute(m_status))')]),
    ('aw-wait-inverted', 'bug', 'C18', [('async_wrapper.cpp', '  if (!WaitingForThread())\n', '  if (!WaitingForThread() || m_status == ExecutionStatus::RUNNING)\n')]),
    ('pa-nf-only', 'bug', 'C18', [(P, 'if (status == ExecutionStatus::RUNNING || status == ExecutionStatus::NOT_FINISHED)', 'if (status == ExecutionStatus::RUNNING)')]),
    ('aw-ret', 'same', 'C18', [('async_wrapper.cpp', '''  if (m_child_result.wait_for(std::chrono::seconds(0)) == std::future_status::timeout)
  {
    return true;
  }
  return false;''', '  return m_child_result.wait_for(std::chrono::seconds(0)) == std::future_status::timeout;')]),
    ('pa-exec-status', 'same', 'C18', [(P, 'if (status == ExecutionStatus::RUNNING || status == ExecutionStatus::NOT_FINISHED)', 'if (IsExecutingStatus(status))')]),
]
