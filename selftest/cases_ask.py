"""Edits of the instructions that ask the user."""
I, U, C, F = 'input.cpp', 'user_confirmation.cpp', 'user_choice.cpp', 'user_interface.cpp'
CASES = [
    ('u-no-lock-copy', 'bug', 'C44', [(U, '  auto future = GetFuture();\n', '  auto future = m_future.get();\n'),]),
    ('u-reset-keeps', 'bug', 'C44', [(I, '  Halt();\n', '')]),
    ('u-halt-keeps', 'bug', 'C44', [(I, '  SetFuture(nullptr);\n}', '}')]),
    ('u-any-choice', 'bug', 'C44', [(U, 'choice == 0 ?', 'choice != 1 ?')]),
    ('u-cancel-first', 'bug', 'C44', [(U, '{ ok_text, cancel_text }', '{ cancel_text, ok_text }')]),
    ('u-block', 'bug', 'C44', [(I, '!future.IsReady()', '!future.WaitFor(0.1)')]),
    ('u-choice-kept', 'bug', 'C44', [(C, '  m_choice = -1;\n  Halt', '  Halt')]),
    ('u-choice-off', 'bug', 'C44', [(C, 'choice >= ChildrenCount()', 'choice > ChildrenCount()')]),
    ('u-invalid-ok', 'bug', 'C44', [(F, '''  auto input_request = CreateUserValueRequest(value, description);
  auto future = ui.RequestUserInput(input_request);
  if (!future->IsValid())
  {
    std::string error_message = InstructionErrorProlog(instr) +
      "could not retrieve a valid future for user input";
    LogError(ui, error_message);
    return {};
  }
  return future;''', '''  auto input_request = CreateUserValueRequest(value, description);
  auto future = ui.RequestUserInput(input_request);
  if (!future->IsValid())
  {
    std::string error_message = InstructionErrorProlog(instr) +
      "could not retrieve a valid future for user input";
    LogError(ui, error_message);
  }
  return future;''')]),
    ('u-empty-value', 'bug', 'C44', [(I, 'CreateUserValueFuture(ui, *this, value, description)', 'CreateUserValueFuture(ui, *this, {}, description)')]),
    ('u-take-twice', 'bug', 'C44', [(I, '  auto reply = future.GetValue();\n', '  auto reply = future.GetValue();\n  reply = future.GetValue();\n')]),
    ('u-s-inline', 'same', 'C44', [(I, '''  return PollInputFuture(ui, ws, *future);''', '''  auto status = PollInputFuture(ui, ws, *future);
  return status;''')]),
    ('u-s-order', 'same', 'C44', [(U, '''  metadata.AddMember(Constants::USER_CHOICES_TEXT_NAME, description);
''', ''), (U, '''dialog_type::kConfirmation});
''', '''dialog_type::kConfirmation});
  metadata.AddMember(Constants::USER_CHOICES_TEXT_NAME, description);
''')]),
    ('u-s-choice', 'same', 'C44', [(C, '''    if (choice < 0 || choice >= ChildrenCount())
''', '''    const bool valid = choice >= 0 && choice < ChildrenCount();
    if (!valid)
''')]),
    ('u-s-future', 'same', 'C44', [(C, '''  std::lock_guard<std::mutex> lk{m_future_mutex};
  m_future.swap(future);''', '''  std::unique_lock<std::mutex> lk{m_future_mutex};
  std::swap(m_future, future);
  lk.unlock();''')]),
    ('u-s-future2', 'same', 'C45', [(C, '''  std::lock_guard<std::mutex> lk{m_future_mutex};
  m_future.swap(future);''', '''  std::unique_lock<std::mutex> lk{m_future_mutex};
  std::swap(m_future, future);
  lk.unlock();''')]),
    ('u-s-names', 'same', 'C44', [(C, '#include "user_choice.h"\n', '#include "user_choice.h"\n#include <algorithm>\n#include <iterator>\n'), (C, '''  for (auto instruction : ChildInstructions())
  {
    std::string description = instruction->GetName() + " (type:" + instruction->GetType() + ")";
    option_names.push_back(description);
  }
  return option_names;''', '''  const auto children = ChildInstructions();
  std::transform(children.begin(), children.end(), std::back_inserter(option_names), [](const Instruction* child) {
    return child->GetName() + " (type:" + child->GetType() + ")";
  });
  return option_names;''')]),
]
