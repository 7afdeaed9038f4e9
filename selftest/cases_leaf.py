"""Edits of the leaf instructions."""
U = 'instruction_utils.cpp'
CASES = [
    ('l-copy-noread', 'bug', 'C19', [('copy.cpp', '''  if (!GetAttributeValue(Constants::INPUT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, value))
  {
    return ExecutionStatus::FAILURE;
  }''', '''  (void)GetAttributeValue(Constants::INPUT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, value);''')]),
    ('l-inc-nowrite', 'bug', 'C19', [('increment.cpp', '''    LogWarning(ui, warning);
    return ExecutionStatus::FAILURE;''', '''    LogWarning(ui, warning);''')]),
    ('l-dec-inc', 'bug', 'C19', [('decrement.cpp', 'sup::dto::Decrement(value)', 'sup::dto::Increment(value)')]),
    ('l-elem-input', 'bug', 'C19', [('add_element.cpp', '''Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME,
                                 output_var))''', '''Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME,
                                 input_var))''')]),
    ('l-member-prefix', 'bug', 'C19', [('add_member.cpp', '0 == name.compare(member_name)', '0 == name.compare(0, member_name.size(), member_name)')]),
    ('l-cond-neg', 'bug', 'C19', [('condition.cpp', 'result = false', 'result = true'), ('condition.cpp', '''ws, ui, result))
  {
    return ExecutionStatus::FAILURE;
  }''', '''ws, ui, result))
  {
    LogWarning(ui, "no condition");
  }''')]),
    ('l-out-empty', 'bug', 'C19', [('output.cpp', 'return ui.PutValue(value, description) ?', 'return (description.empty() || ui.PutValue(value, description)) ?')]),
    ('l-log-sev', 'bug', 'C19', [('log_instruction.cpp', '{"notice", SUP_SEQ_LOG_NOTICE}', '{"notice", SUP_SEQ_LOG_WARNING}')]),
    ('l-log-unknown', 'bug', 'C19', [('log_instruction.cpp', '    return -1;\n', '    return SUP_SEQ_LOG_INFO;\n')]),
    ('l-s-log-switch', 'same', 'C19', [('log_instruction.cpp', '  if (it == string_severity_map.end())\n  {\n    return -1;\n  }\n  return it->second;', '  const bool known = it != string_severity_map.end();\n  return known ? it->second : -1;')]),
    ('l-s-log-str', 'same', 'C19', [('log_instruction.cpp', '  std::ostringstream oss;\n  oss << message;', '  std::string text = message;'), ('log_instruction.cpp', '    oss << sup::dto::ValuesToJSONString(value);', '    text += sup::dto::ValuesToJSONString(value);'), ('log_instruction.cpp', 'oss.str()', 'text')]),
    ('l-s-copy-tern', 'same', 'C19', [('copy.cpp', '''  if (!SetValueFromAttributeName(*this, ws, ui, Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME,
                                 value))
  {
    return ExecutionStatus::FAILURE;
  }
  return ExecutionStatus::SUCCESS;''', '''  const bool ok = SetValueFromAttributeName(*this, ws, ui, Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME, value);
  return ok ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;''')]),
    ('l-s-member-loop', 'same', 'C19', [('add_member.cpp', '''  auto has_member_with_name = [&member_name](const std::string& name)
  { return (0 == name.compare(member_name)); };

  auto member_names = output_var.MemberNames();

  if (std::any_of(member_names.begin(), member_names.end(), has_member_with_name))''', '''  auto member_names = output_var.MemberNames();
  bool found = false;
  for (const auto& name : member_names)
  {
    found = found || name == member_name;
  }
  if (found)''')]),
    ('l-w-boundary', 'bug', 'C20', [('wait.cpp', 'if (!IsHaltRequested() && m_finish > now)', 'if (!IsHaltRequested() && m_finish >= now)')]),
    ('l-w-halt', 'bug', 'C20', [('wait.cpp', '''  if (IsHaltRequested())
  {
    return ExecutionStatus::FAILURE;
  }
  return''', '  return')]),
    ('l-w-blockhalt', 'bug', 'C20', [('wait.cpp', 'while (!IsHaltRequested() && m_finish', 'while (m_finish')]),
    ('l-w-finish-kept', 'bug', 'C20', [('wait.cpp', '  m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;', '  if (m_finish == 0) m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;'), ('wait.cpp', '  m_finish = 0;\n', '')]),
    ('l-w-nan', 'bug', 'C20', [(U, '!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds)', 'timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds')]),
    ('l-w-neg', 'bug', 'C20', [(U, '!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds)', '!(timeout_sec <= kMaxTimeoutSeconds)')]),
    ('l-w-max', 'bug', 'C20', [(U, '!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds)', '!(timeout_sec >= 0.0)')]),
    ('l-w-trunc', 'bug', 'C20', [(U, 'std::lround(timeout_sec * 1e9)', 'std::lround(timeout_sec) * 1000000000')]),
    ('l-wv-empty', 'bug', 'C20', [('wait_for_variable.cpp', '!var_available || sup::dto::IsEmptyValue(var_value)', '!var_available')]),
    ('l-wv-order', 'bug', 'C20', [('wait_for_variable.cpp', '''  auto success = CheckCondition(ui, ws);
  if (success)
  {
    return ExecutionStatus::SUCCESS;
  }
  auto now = utils::GetNanosecsSinceEpoch();
  if (m_finish > now)
  {
    return ExecutionStatus::RUNNING;
  }
  return ExecutionStatus::FAILURE;''', '''  auto now = utils::GetNanosecsSinceEpoch();
  if (m_finish <= now)
  {
    return ExecutionStatus::FAILURE;
  }
  return CheckCondition(ui, ws) ? ExecutionStatus::SUCCESS : ExecutionStatus::RUNNING;''')]),
    ('l-wv-other', 'bug', 'C20', [('wait_for_variable.cpp', '''  if (!other_available)
  {
    return false;
  }
''', '')]),
    ('l-wvs-any', 'bug', 'C20', [('wait_for_variables.cpp', 'if (var_names.empty())', 'if (var_names.empty() || var_names.size() < m_var_names.size())')]),
    ('l-wvs-type', 'bug', 'C20', [('wait_for_variables.cpp', 'if (var->GetType() == var_type)', 'if (var_type.empty() || var->GetType() != var_type)')]),
    ('l-s-w-early', 'same', 'C20', [('wait.cpp', '''  auto now = utils::GetNanosecsSinceEpoch();
  if (!IsHaltRequested() && m_finish > now)
  {
    return ExecutionStatus::RUNNING;
  }
  if (IsHaltRequested())
  {
    return ExecutionStatus::FAILURE;
  }
  return ExecutionStatus::SUCCESS;''', '''  if (IsHaltRequested())
  {
    return ExecutionStatus::FAILURE;
  }
  return utils::GetNanosecsSinceEpoch() < m_finish ? ExecutionStatus::RUNNING : ExecutionStatus::SUCCESS;''')]),
    ('l-s-w-isnan', 'same', 'C20', [(U, '!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds)', 'std::isnan(timeout_sec) || timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds')]),
    ('l-s-wv-flat', 'same', 'C20', [('wait_for_variable.cpp', '''  if (!other_available)
  {
    return false;
  }
  return var_value == other_value;''', '  return other_available && var_value == other_value;')]),
    ('l-s-wvs-copyif', 'same', 'C20', [('wait_for_variables.cpp', '''    const auto* var = ws.GetVariable(var_name);
    if (var == nullptr || !var->IsAvailable())
    {
      unavailable_vars.push_back(var_name);
    }''', '''    const auto* var = ws.GetVariable(var_name);
    const bool available = var != nullptr && var->IsAvailable();
    if (!available)
    {
      unavailable_vars.emplace_back(var_name);
    }''')]),
    ('l-c-eq-swap', 'bug', 'C21', [('greaterthan.cpp', 'sup::dto::Compare(lhs, rhs)', 'sup::dto::Compare(rhs, lhs)')]),
    ('l-c-unordered', 'bug', 'C21', [('lessthanorequal.cpp', '''result == sup::dto::CompareResult::Less || result == sup::dto::CompareResult::Equivalent''', 'result != sup::dto::CompareResult::Greater')]),
    ('l-c-missing', 'bug', 'C21', [('equals.cpp', '''  if (!GetAttributeValue(Constants::RIGHT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, rhs))
  {
    return ExecutionStatus::FAILURE;
  }''', '''  (void)GetAttributeValue(Constants::RIGHT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, rhs);''')]),
    ('l-s-c-switch', 'same', 'C21', [('lessthanorequal.cpp', '''result == sup::dto::CompareResult::Less || result == sup::dto::CompareResult::Equivalent''', '!(result == sup::dto::CompareResult::Greater || result == sup::dto::CompareResult::Unordered)')]),
    ('l-s-c-both', 'same', 'C21', [('equals.cpp', '''  sup::dto::AnyValue lhs;
  if (!GetAttributeValue(Constants::LEFT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, lhs))
  {
    return ExecutionStatus::FAILURE;
  }
  sup::dto::AnyValue rhs;
  if (!GetAttributeValue(Constants::RIGHT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, rhs))
  {
    return ExecutionStatus::FAILURE;
  }''', '''  sup::dto::AnyValue rhs;
  const bool has_rhs = GetAttributeValue(Constants::RIGHT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, rhs);
  sup::dto::AnyValue lhs;
  const bool has_lhs = GetAttributeValue(Constants::LEFT_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, lhs);
  if (!has_lhs || !has_rhs)
  {
    return ExecutionStatus::FAILURE;
  }''')]),
    ('l-s-wv-lazy', 'same', 'C20', [('wait_for_variable.cpp', '''  bool other_available = false;
  if (HasAttribute(''', '''  bool other_available = false;
  if (!var_available)
  {
    return false;
  }
  if (HasAttribute(''')]),
]
