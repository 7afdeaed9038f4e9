"""Edits of attribute handling and constraints."""
H, V, U, K, I, D, N = 'attribute_handler.cpp', 'attribute_validator.cpp', 'attribute_utils.cpp', 'concrete_constraints.cpp', 'instruction_helper.cpp', 'attribute_definition.cpp', 'constraint.cpp'
CASES = [
    ('a-var-validated', 'bug', 'C31', [(V, '''  if (attr_cat == AttributeCategory::kVariableName)
  {
    return true;
  }
''', '')]),
    ('a-both-info', 'bug', 'C31', [(H, 'return { true, attr_val.substr(1u) };', 'return { true, attr_val };')]),
    ('a-mand-empty', 'bug', 'C31', [(V, 'if (it == str_attributes.end())\n', 'if (it == str_attributes.end() || it->second.empty())\n')]),
    ('a-first-failure', 'bug', 'C31', [(V, '      failed_constraints.push_back(constraint);\n', '      failed_constraints.push_back(constraint);\n      break;\n')]),
    ('a-custom-skipped', 'bug', 'C31', [(V, '    if (!constraint.Validate(str_attributes))', '    if (failed_constraints.empty() && !constraint.Validate(str_attributes))')]),
    ('a-add-overwrites', 'bug', 'C31', [(H, '''  if (HasStringAttribute(name))
  {
    return false;
  }
  m_str''', '''  if (HasStringAttribute(name))
  {
    SetStringAttribute(name, value);
    return false;
  }
  m_str''')]),
    ('a-true-list', 'bug', 'C31', [(U, '{"true", "yes", "on"}', '{"true", "yes", "on", "1"}')]),
    ('a-int-float', 'bug', 'C31', [(U, '    { sup::dto::TypeCode::UInt32, JSONStringParser },\n', '')]),
    ('a-ph-last', 'bug', 'C31', [(I, '''        result = false;
        continue;''', '''        result = false;
        break;''')]),
    ('a-ph-status', 'bug', 'C31', [(I, '      attribute_handler.SetStringAttribute(attr_name, var_value);', '      attribute_handler.SetStringAttribute(attr_name, var_value);\n      result = true;')]),
    ('a-def-dup', 'bug', 'C31', [(V, 'if (HasAttributeDefinition(attr_name))', 'if (HasAttributeDefinition(attr_name) && attr_name.empty())')]),
    ('a-failed-kept', 'bug', 'C31', [(H, 'm_impl->failed_constraints = m_impl->attr_validator.ValidateAttributes(m_str_attributes);', 'auto failed = m_impl->attr_validator.ValidateAttributes(m_str_attributes);\n  m_impl->failed_constraints.insert(m_impl->failed_constraints.end(), failed.begin(), failed.end());')]),
    ('a-s-find-loop', 'same', 'C31', [(H, '''  auto predicate = StringAttributeNameMatcher(attr_name);
  return std::find_if(str_attributes.begin(), str_attributes.end(), predicate);
}

StringAttributeList::const_iterator''', '''  auto it = str_attributes.begin();
  while (it != str_attributes.end() && it->first != attr_name)
  {
    ++it;
  }
  return it;
}

StringAttributeList::const_iterator''')]),
    ('a-s-info-if', 'same', 'C31', [(H, '''  switch (cat)
  {
  case AttributeCategory::kLiteral:
    break;
  case AttributeCategory::kVariableName:
    return { true, attr_val };
  case AttributeCategory::kBoth:
    if (InstructionHelper::AttributeStartsWith(attr_val, DefaultSettings::VARIABLE_ATTRIBUTE_CHAR))
    {
      return { true, attr_val.substr(1u) };
    }
    break;
  default:
    break;
  }''', '''  if (cat == AttributeCategory::kVariableName)
  {
    return { true, attr_val };
  }
  if (cat == AttributeCategory::kBoth && !attr_val.empty() && attr_val.front() == DefaultSettings::VARIABLE_ATTRIBUTE_CHAR)
  {
    return { true, attr_val.substr(1u) };
  }''')]),
    ('a-s-true', 'same', 'C31', [(U, '''  auto it = std::find(kTrueStringList.begin(), kTrueStringList.end(), repr);
  return it != kTrueStringList.end();''', '''  return std::any_of(kTrueStringList.begin(), kTrueStringList.end(), [&repr](const std::string& s){ return s == repr; });''')]),
    ('a-s-valid-merge', 'same', 'C31', [(V, '''    if (it != m_attribute_definitions.end() &&
        AttributeRefersToVariable(*it, attr_value))
    {
      continue;  // Don't validate attribute values referring to workspace variables
    }
    auto [_, constraint]''', '''    const bool defined = it != m_attribute_definitions.end();
    const bool refers = defined && AttributeRefersToVariable(*it, attr_value);
    if (refers)
    {
      continue;
    }
    auto [_, constraint]''')]),
    ('c-or-xor', 'bug', 'C32', [(K, 'm_left.Validate(attr_map) || m_right.Validate(attr_map)', 'm_left.Validate(attr_map) != m_right.Validate(attr_map)')]),
    ('c-clone-swap', 'bug', 'C32', [(K, 'return new And{Constraint{m_left}, Constraint{m_right}};', 'return new And{Constraint{m_left}, Constraint{m_left}};')]),
    ('c-clone-or', 'bug', 'C32', [(K, 'Not* Not::Clone() const\n{\n  return new Not{Constraint{m_child}};', 'Not* Not::Clone() const\n{\n  return new Not{Constraint{MakeConstraint<Not>(Constraint{m_child})}};')]),
    ('c-type-missing', 'bug', 'C32', [(K, '''  if (it == attr_map.end())
  {
    return false;
  }
  auto val_str''', '''  if (it == attr_map.end())
  {
    return true;
  }
  auto val_str''')]),
    ('c-null', 'bug', 'C32', [(N, '''  if (!m_impl)
  {
    return false;
  }''', '''  if (!m_impl)
  {
    return true;
  }''')]),
    ('c-move-copy', 'bug', 'C32', [(N, '''  Constraint copy{other};
  std::swap(m_impl, copy.m_impl);''', '''  m_impl.swap(const_cast<Constraint&>(other).m_impl);''')]),
    ('c-s-xor', 'same', 'C32', [(K, 'return m_left.Validate(attr_map) ^ m_right.Validate(attr_map);', 'const bool l = m_left.Validate(attr_map);\n  const bool r = m_right.Validate(attr_map);\n  return l != r;')]),
    ('c-s-and', 'same', 'C32', [(K, 'return m_left.Validate(attr_map) && m_right.Validate(attr_map);', 'if (!m_right.Validate(attr_map))\n  {\n    return false;\n  }\n  return m_left.Validate(attr_map);')]),
    ('c-s-move', 'same', 'C32', [(N, '  std::swap(m_impl, other.m_impl);\n  return *this;\n}\n\nbool', '  m_impl = std::move(other.m_impl);\n  return *this;\n}\n\nbool')]),
]
