"""Edits of variables and the workspace."""
V, L, F, W = 'variable.cpp', 'local_variable.cpp', 'file_variable.cpp', 'workspace.cpp'
CASES = [
    ('v-setup-keeps', 'bug', 'C22', [(V, '  SetUsable(false);\n  if (!m_attribute_handler', '  if (!m_attribute_handler')]),
    ('v-usable-early', 'bug', 'C22', [(V, '  auto actions = SetupImpl(ws);\n  SetUsable(true);', '  SetUsable(true);\n  auto actions = SetupImpl(ws);')]),
    ('v-teardown-late', 'bug', 'C22', [(V, '  SetUsable(false);\n  TeardownImpl();\n', '  TeardownImpl();\n')]),
    ('v-get-setup', 'bug', 'C22', [(V, '''  std::lock_guard<std::mutex> lock(m_access_mutex);
  if (!m_setup_successful)
  {
    return false;
  }
  sup::dto::AnyValue var_copy;''', '''  std::lock_guard<std::mutex> lock(m_access_mutex);
  sup::dto::AnyValue var_copy;''')]),
    ('v-set-nolock', 'bug', 'C22', [(V, '''bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fieldname)
{
  std::lock_guard<std::mutex> lk(m_access_mutex);
''', '''bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fieldname)
{
''')]),
    ('v-avail-otherlock', 'bug', 'C22', [(V, '''bool Variable::IsAvailable() const
{
  std::lock_guard<std::mutex> lk(m_access_mutex);''', '''bool Variable::IsAvailable() const
{
  std::lock_guard<std::mutex> lk(m_notify_mutex);''')]),
    ('v-set-field-whole', 'bug', 'C22', [(V, '  return SetValueImpl(var_copy);', '  return SetValueImpl(value);')]),
    ('v-set-field-nocheck', 'bug', 'C22', [(V, '''  if (!sup::dto::TryAssign(var_copy[fieldname], value))
  {
    return false;
  }
  return''', '''  sup::dto::TryAssign(var_copy[fieldname], value);
  return''')]),
    ('v-get-field-ignored', 'bug', 'C22', [(V, 'fieldname.empty() ? var_copy : var_copy[fieldname]', '(fieldname.empty() || !var_copy.HasField(fieldname)) ? var_copy : var_copy')]),
    ('v-reset-noteardown', 'bug', 'C22', [(V, '  Teardown();\n  Setup(ws);', '  Setup(ws);')]),
    ('v-get-assign', 'bug', 'C22', [(V, '  return sup::dto::TryAssignIfEmptyOrConvert(value, src_value);', '  return sup::dto::TryAssign(value, src_value);')]),
    ('v-valid-ignored', 'bug', 'C22', [(V, '    throw VariableSetupException(error_message);\n  }\n  auto actions', '  }\n  auto actions')]),
    ('v-s-get-nested', 'same', 'C22', [(V, '''  if (!GetValueImpl(var_copy))
  {
    return false;
  }
  if (!fieldname.empty() && !var_copy.HasField(fieldname))
  {
    return false;
  }
  const auto& src_value = fieldname.empty() ? var_copy : var_copy[fieldname];
  return sup::dto::TryAssignIfEmptyOrConvert(value, src_value);''', '''  const bool available = GetValueImpl(var_copy);
  if (!available)
  {
    return false;
  }
  if (fieldname.empty())
  {
    return sup::dto::TryAssignIfEmptyOrConvert(value, var_copy);
  }
  if (!var_copy.HasField(fieldname))
  {
    return false;
  }
  return sup::dto::TryAssignIfEmptyOrConvert(value, var_copy[fieldname]);''')]),
    ('v-s-unique-lock', 'same', 'C22', [(V, 'std::lock_guard<std::mutex> lk(m_access_mutex);\n  if (!m_setup_successful)', 'std::unique_lock<std::mutex> lk{m_access_mutex};\n  if (!m_setup_successful)')]),
    ('v-s-set-ref', 'same', 'C22', [(V, '''  if (!sup::dto::TryAssign(var_copy[fieldname], value))
  {
    return false;
  }
  return SetValueImpl(var_copy);''', '''  auto& field = var_copy[fieldname];
  return sup::dto::TryAssign(field, value) && SetValueImpl(var_copy);''')]),
    ('v-s-convert', 'same', 'C22', [(V, '  return sup::dto::TryAssignIfEmptyOrConvert(value, src_value);', '''  if (sup::dto::IsEmptyValue(value))
  {
    return sup::dto::TryAssign(value, src_value);
  }
  return sup::dto::TryConvert(value, src_value);''')]),
    # ---- C23
    ('lv-notify-always', 'bug', 'C23', [(L, '  if (result)\n  {\n    Notify(value, true);\n  }', '  Notify(value, true);')]),
    ('lv-notify-never', 'bug', 'C23', [(L, '  if (result)\n  {\n    Notify(value, true);\n  }', '')]),
    ('lv-notify-dyn-only', 'bug', 'C23', [(L, '    result = sup::dto::TryAssignIfEmptyOrConvert(m_value, value);\n  }', '    return sup::dto::TryAssignIfEmptyOrConvert(m_value, value);\n  }')]),
    ('lv-dyn-default', 'bug', 'C23', [(L, '  bool is_dynamic = false;', '  bool is_dynamic = true;')]),
    ('lv-dyn-swapped', 'bug', 'C23', [(L, '  if (IsDynamicallyTyped())', '  if (!IsDynamicallyTyped())')]),
    ('lv-setup-keep', 'bug', 'C23', [(L, '  m_value = ParseAnyValueAttributePair(\n', '  sup::dto::AnyValue other = ParseAnyValueAttributePair(\n')]),
    ('lv-empty-readable', 'bug', 'C23', [(L, '  if (sup::dto::IsEmptyValue(m_value))\n  {\n    return false;\n  }\n', '')]),
    ('lv-type-ignored', 'bug', 'C23', [(V, '    return value_parser.MoveAnyValue();', '    (void)value_parser.MoveAnyValue();')]),
    ('fv-notify-before', 'bug', 'C23', [(F, '    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);\n    Notify(value, true);', '    Notify(value, true);\n    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);')]),
    ('fv-connected', 'bug', 'C23', [(F, '    Notify({}, false);', '    Notify({}, true);')]),
    ('fv-path', 'bug', 'C23', [(F, '  m_workspace_path = GetFileDirectory(ws.GetFilename());\n', '')]),
    ('fv-path-late', 'bug', 'C23', [(F, '  m_workspace_path = GetFileDirectory(ws.GetFilename());\n  auto current_value = ReadValue();\n', '  auto current_value = ReadValue();\n  m_workspace_path = GetFileDirectory(ws.GetFilename());\n')]),
    ('fv-failed-write', 'bug', 'C23', [(F, '  catch(const sup::dto::SerializeException&)\n  {\n    return false;\n  }', '  catch(const sup::dto::SerializeException&)\n  {\n  }')]),
    ('fv-pretty', 'bug', 'C23', [(F, 'filename, pretty_json);', 'filename, !pretty_json);')]),
    ('ws-name', 'bug', 'C23', [(W, '''    [this, name](const sup::dto::AnyValue& value, bool connected)
    {
      VariableUpdated(name, value, connected);''', '''    [this, name](const sup::dto::AnyValue& value, bool connected)
    {
      VariableUpdated(m_var_names.back(), value, connected);''')]),
    ('ws-connected', 'bug', 'C23', [(W, '      VariableUpdated(name, value, connected);', '      VariableUpdated(name, value, true);')]),
    ('ww-noflag', 'bug', 'C23', [(W, '                    updated = true;\n', '')]),
    ('ww-clear-before', 'bug', 'C23', [(W, '    cv.wait_for(lk, timeout_duration - elapsed', '    updated = false;\n    cv.wait_for(lk, timeout_duration - elapsed')]),
    ('ww-noguard', 'bug', 'C23', [(W, '  auto cb_guard = GetCallbackGuard(&dummy_listener);\n', '')]),
    ('ww-late-register', 'bug', 'C23', [(W, '''  RegisterCallback(name, callback, &dummy_listener);
  const auto start''', '''  if (it->second->IsAvailable() == availability)
  {
    return true;
  }
  const auto start'''), (W, '''    // Not under the mutex: an update may come in from a thread that is using the variable.
    if (it->second->IsAvailable() == availability)
    {
      return true;
    }
    std::unique''', '''    RegisterCallback(name, callback, &dummy_listener);
    std::unique''')]),
    ('ww-result', 'bug', 'C23', [(W, '  return it->second->IsAvailable() == availability;\n}', '  return it->second->IsAvailable();\n}')]),
    ('ww-s-lastcheck', 'same', 'C23', [(W, '  return it->second->IsAvailable() == availability;\n}', '  const bool available = it->second->IsAvailable();\n  return available == availability;\n}')]),
    ('ww-s-notifyall', 'same', 'C23', [(W, '                    cv.notify_one();\n', '                    cv.notify_all();\n')]),
    ('ww-s-deadline', 'same', 'C23', [(W, '''  const auto start = std::chrono::steady_clock::now();
  std::chrono::duration<double> elapsed{0.0};
''', '''  const auto deadline = std::chrono::steady_clock::now() + std::chrono::duration_cast<std::chrono::steady_clock::duration>(timeout_duration);
'''), (W, '''    cv.wait_for(lk, timeout_duration - elapsed, [&updated]{ return updated; });
    updated = false;
    elapsed = std::chrono::steady_clock::now() - start;
  } while (elapsed < timeout_duration);''', '''    cv.wait_until(lk, deadline, [&updated]{ return updated; });
    updated = false;
  } while (std::chrono::steady_clock::now() < deadline);''')]),
    ('lv-s-early', 'same', 'C23', [(L, '''  bool result = false;
  if (IsDynamicallyTyped())
  {
    result = sup::dto::TryAssign(m_value, value);
  }
  else
  {
    result = sup::dto::TryAssignIfEmptyOrConvert(m_value, value);
  }
  if (result)
  {
    Notify(value, true);
  }
  return result;''', '''  const bool result = IsDynamicallyTyped() ? sup::dto::TryAssign(m_value, value)
                                           : sup::dto::TryAssignIfEmptyOrConvert(m_value, value);
  if (!result)
  {
    return false;
  }
  Notify(value, true);
  return true;''')]),
    ('fv-s-read', 'same', 'C23', [(F, '''  if (!parsed_val)
  {
    return false;
  }
  return sup::dto::TryAssign(value, *parsed_val);''', '''  return parsed_val != nullptr && sup::dto::TryAssign(value, *parsed_val);''')]),
    ('fv-s-helper', 'same', 'C23', [(F, '''  std::unique_ptr<sup::dto::AnyValue> result;
  sup::dto::JSONAnyValueParser parser;
  auto filename = GetFullPathName(m_workspace_path,
                                  GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME));
  if (!parser.ParseFile(filename))
  {
    return result;
  }
  result.reset(new sup::dto::AnyValue(parser.MoveAnyValue()));
  return result;''', '''  sup::dto::JSONAnyValueParser parser;
  const auto name = GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME);
  if (parser.ParseFile(GetFullPathName(m_workspace_path, name)))
  {
    return std::make_unique<sup::dto::AnyValue>(parser.MoveAnyValue());
  }
  return {};''')]),
    # ---- C24
    ('ws-dup-replaces', 'bug', 'C24', [(W, '''    throw InvalidOperationException(error_message);
  }
  var->Set''', '''    return false;
  }
  var->Set''')]),
    ('ws-dup-late', 'bug', 'C24', [(W, '''  m_var_map[name] = std::move(var);
  m_var_names.push_back(name);
  return true;''', '''  m_var_names.push_back(name);
  m_var_map[name] = std::move(var);
  return true;'''), (W, '''  if (ContainsVariableName(name))
  {
    std::string error_message =''', '''  if (ContainsVariableName(name))
  {
    m_var_names.push_back(name);
    std::string error_message =''')]),
    ('ws-order', 'bug', 'C24', [(W, '  m_var_names.push_back(name);\n', '  m_var_names.insert(m_var_names.begin(), name);\n')]),
    ('ws-setup-twice', 'bug', 'C24', [(W, '  if (m_setup_done)\n  {\n    return;\n  }\n', '')]),
    ('ws-done-early', 'bug', 'C24', [(W, '  std::vector<SetupTeardownActions> setup_teardown_actions;\n', '  m_setup_done = true;\n  std::vector<SetupTeardownActions> setup_teardown_actions;\n')]),
    ('ws-action-repeat', 'bug', 'C24', [(W, '      setup_identifiers.insert(action.m_identifier);\n', '')]),
    ('ws-tdaction-repeat', 'bug', 'C24', [(W, '      teardown_identifiers.insert(action.m_identifier);\n', '')]),
    ('ws-tdaction-shared', 'bug', 'C24', [(W, '    if (action.m_teardown && teardown_iter == teardown_identifiers.end())', '    if (action.m_teardown && setup_iter == setup_identifiers.end())')]),
    ('ws-actions-kept', 'bug', 'C24', [(W, '    teardown_action();\n  }\n  m_teardown_actions.clear();', '    teardown_action();\n  }')]),
    ('ws-dtor-silent', 'bug', 'C24', [(W, '''Workspace::~Workspace()
{
  for (const auto& teardown_action : m_teardown_actions)
  {
    teardown_action();
  }
}''', '''Workspace::~Workspace() = default;''')]),
    ('ws-teardown-order', 'bug', 'C24', [(W, '''  for (const auto& teardown_action : m_teardown_actions)
  {
    teardown_action();
  }
  m_teardown_actions.clear();
  std::for_each(m_var_map.begin(), m_var_map.end(), [](const auto &pair) {
     return pair.second->Teardown(); });''', '''  std::for_each(m_var_map.begin(), m_var_map.end(), [](const auto &pair) {
     return pair.second->Teardown(); });
  for (const auto& teardown_action : m_teardown_actions)
  {
    teardown_action();
  }
  m_teardown_actions.clear();''')]),
    ('ws-split-bracket', 'bug', 'C24', [(W, 'pos1 < pos2 ? pos1 + 1 : pos2', 'end_first + 1')]),
    ('ws-split-last', 'bug', 'C24', [(W, "fullname.find('.')", "fullname.rfind('.')")]),
    ('ws-teardown-stays', 'bug', 'C24', [(W, '  m_setup_done = false;\n  for', '  for')]),
    ('ws-reset-unknown', 'bug', 'C24', [(W, '''  if (it == m_var_map.end())
  {
    return false;
  }
  it->second->Reset(*this);
  return true;''', '''  if (it != m_var_map.end())
  {
    it->second->Reset(*this);
  }
  return true;''')]),
    ('ws-get-nofield', 'bug', 'C24', [(W, '  return it->second->GetValue(value, fieldname);', '  return it->second->GetValue(value);')]),
    ('ws-s-loop', 'same', 'C24', [(W, '''  std::for_each(m_var_map.begin(), m_var_map.end(), [](const auto &pair) {
     return pair.second->Teardown(); });''', '''  for (auto& entry : m_var_map)
  {
    entry.second->Teardown();
  }''')]),
    ('ws-s-contains', 'same', 'C24', [(W, '''  if (m_var_map.find(name) == m_var_map.end())
  {
    return false;
  }
  return true;''', '''  return m_var_map.count(name) > 0;''')]),
    ('ws-s-actions', 'same', 'C24', [(W, '''    auto setup_iter =
      std::find(setup_identifiers.begin(), setup_identifiers.end(), action.m_identifier);
    auto teardown_iter =
      std::find(teardown_identifiers.begin(), teardown_identifiers.end(), action.m_identifier);
    if (action.m_setup && setup_iter == setup_identifiers.end())
    {
      setup_actions.push_back(action.m_setup);
      setup_identifiers.insert(action.m_identifier);
    }
    if (action.m_teardown && teardown_iter == teardown_identifiers.end())
    {
      m_teardown_actions.push_back(action.m_teardown);
      teardown_identifiers.insert(action.m_identifier);
    }''', '''    if (action.m_setup && setup_identifiers.insert(action.m_identifier).second)
    {
      setup_actions.push_back(action.m_setup);
    }
    if (action.m_teardown && teardown_identifiers.insert(action.m_identifier).second)
    {
      m_teardown_actions.push_back(action.m_teardown);
    }''')]),
    ('ws-s-split', 'same', 'C24', [(W, '''  auto pos1 = fullname.find('.');
  auto pos2 = fullname.find('[');
  auto end_first = std::min(pos1, pos2);
''', '''  const auto end_first = fullname.find_first_of(".[");
'''), (W, '  auto start_next = pos1 < pos2 ? pos1 + 1 : pos2;', "  auto start_next = fullname[end_first] == '.' ? end_first + 1 : end_first;")]),
]
