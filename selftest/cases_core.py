"""Edits of the core files: behaviour-preserving ones ('same') and defects ('bug')."""
Q, G, N, L = 'job_command_queue.cpp', 'scope_guard.cpp', 'named_callback_manager.h', 'log_severity.cpp'
WAIT = '  m_cv.wait(lk, [this]{ return !m_command_queue.empty(); });'
PUSH = '''  {
    std::lock_guard<std::mutex> lk{m_mtx};
    m_command_queue.push_back(command);
  }
  m_cv.notify_one();
}

bool'''
PRIO = '''    if (!m_command_queue.empty() && command <= m_command_queue.front())
    {
      return false;
    }
    if (func)
    {
      func();
    }
    m_command_queue.push_front(command);
'''
TRY = '''  if (m_command_queue.empty())
  {
    return false;
  }
  command = m_command_queue.front();
  m_command_queue.pop_front();
  return true;'''
UNREG = N and '''  auto result = false;
  auto new_generic_end_it = std::remove_if(generic_cb_entries.begin(), generic_cb_entries.end(),
                                           [listener](GenericCallbackEntry cb_entry)
                                           { return cb_entry.listener == listener; });
  result = new_generic_end_it != generic_cb_entries.end();
  generic_cb_entries.erase(new_generic_end_it, generic_cb_entries.end());
  auto new_end_it =
      std::remove_if(cb_entries.begin(), cb_entries.end(),
                     [listener](CallbackEntry cb_entry) { return cb_entry.listener == listener; });
  result = result || new_end_it != cb_entries.end();
  cb_entries.erase(new_end_it, cb_entries.end());
  return result;'''
EXEC = '''  for (const auto& cb_entry : generic_cb_entries)
  {
    cb_entry.cb(name, args...);
  }
  for (const auto& cb_entry : cb_entries)
  {
    if (cb_entry.name == name)
    {
      cb_entry.cb(args...);
    }
  }
'''
SEV = '''  const auto& sev_map = GetSeverityMap();
  auto on_element = [&str](auto &element) { return str == element.second; };
  auto it = find_if(sev_map.begin(), sev_map.end(), on_element);
  return it == sev_map.end() ? NUMBER_OF_LOG_LEVELS : static_cast<Severity>(it->first);'''
JS = '''  static const std::set<JobState> finished_states = {
    JobState::kSucceeded,
    JobState::kFailed,
    JobState::kHalted
  };
  return finished_states.find(state) != finished_states.end();'''
HALTFN = '''  auto iter = state_to_string.find(state);
  if (iter == state_to_string.end())
  {
    return "Unknown JobState";
  }
  return iter->second;'''
CASES = [
    ('q-while', 'same', None, [(Q, WAIT, '  while (m_command_queue.empty())\n  {\n    m_cv.wait(lk);\n  }')]),
    ('q-while2', 'same', None, [(Q, WAIT, '  for (;;)\n  {\n    if (m_command_queue.size() > 0) break;\n    m_cv.wait(lk);\n  }')]),
    ('q-notify-locked', 'same', None, [(Q, PUSH, '''  std::lock_guard<std::mutex> lk{m_mtx};
  m_command_queue.emplace_back(command);
  m_cv.notify_one();
}

bool''')]),
    ('q-unlock', 'same', None, [(Q, PUSH, '''  std::unique_lock<std::mutex> lk(m_mtx);
  m_command_queue.push_back(command);
  lk.unlock();
  m_cv.notify_all();
}

bool''')]),
    ('q-lockunlock', 'same', None, [(Q, PUSH, '''  m_mtx.lock();
  m_command_queue.insert(m_command_queue.end(), command);
  m_mtx.unlock();
  m_cv.notify_one();
}

bool''')]),
    ('q-prio-nested', 'same', None, [(Q, PRIO, '''    const bool accepted = m_command_queue.empty() || !(command <= m_command_queue.front());
    if (!accepted)
    {
      return false;
    }
    if (func != nullptr)
    {
      std::invoke(func);
    }
    m_command_queue.emplace_front(command);
''')]),
    ('q-prio-begin', 'same', None, [(Q, PRIO, '''    if (m_command_queue.size() != 0)
    {
      const auto next = *m_command_queue.begin();
      if (next >= command)
      {
        return false;
      }
    }
    if (func)
    {
      func();
    }
    m_command_queue.insert(m_command_queue.begin(), command);
''')]),
    ('q-try-else', 'same', None, [(Q, TRY, '''  const bool available = !m_command_queue.empty();
  if (available)
  {
    const JobCommand next = m_command_queue.front();
    m_command_queue.erase(m_command_queue.begin());
    command = next;
  }
  return available;''')]),
    ('q-size', 'same', None, [(Q, '  return m_command_queue.empty();', '  return m_command_queue.size() == 0;')]),
    ('q-helper', 'same', None, [(Q, 'namespace sup\n{\nnamespace oac_tree\n{\n\nJobCommandQueue::JobCommandQueue()', '''namespace
{
template <typename C>
auto TakeFirst(C& c)
{
  auto first = c.front();
  c.pop_front();
  return first;
}
}  // namespace
namespace sup
{
namespace oac_tree
{

JobCommandQueue::JobCommandQueue()'''), (Q, '  auto command = m_command_queue.front();\n  m_command_queue.pop_front();\n  return command;', '  return TakeFirst(m_command_queue);'),
        (Q, '  command = m_command_queue.front();\n  m_command_queue.pop_front();', '  command = TakeFirst(m_command_queue);')]),
    ('q-cmd-cmp', 'same', None, [('job_commands.cpp', '  return static_cast<int>(left) <= static_cast<int>(right);', '  return !(right < left);')]),
    ('q-cmd-cmp2', 'same', None, [('job_commands.cpp', '#include <sup/oac-tree/job_commands.h>', '#include <sup/oac-tree/job_commands.h>\n#include <type_traits>'), ('job_commands.cpp', '  return static_cast<int>(left) <= static_cast<int>(right);', '  using T = std::underlying_type_t<JobCommand>;\n  const auto l = static_cast<T>(left);\n  const auto r = static_cast<T>(right);\n  return l < r || l == r;')]),
    ('g-exchange', 'same', None, [(G, '#include <sup/oac-tree/scope_guard.h>', '#include <sup/oac-tree/scope_guard.h>\n#include <utility>'), (G, '''  : m_func{other.m_func}
{
  other.m_func = {};
}''', '''  : m_func{std::exchange(other.m_func, {})}
{}''')]),
    ('g-moveswap', 'same', None, [(G, '''  : m_func{other.m_func}
{
  other.m_func = {};
}''', '''  : m_func{}
{
  Swap(other);
}''')]),
    ('g-moved-null', 'same', None, [(G, '''  : m_func{other.m_func}
{
  other.m_func = {};
}''', '''  : m_func{std::move(other.m_func)}
{
  other.m_func = nullptr;
}''')]),
    ('g-swap-member', 'same', None, [(G, '  std::swap(m_func, other.m_func);', '  m_func.swap(other.m_func);')]),
    ('g-swap-manual', 'same', None, [(G, '  std::swap(m_func, other.m_func);', '  auto tmp = std::move(m_func);\n  m_func = std::move(other.m_func);\n  other.m_func = std::move(tmp);')]),
    ('g-valid', 'same', None, [(G, '  return static_cast<bool>(m_func);', '  return m_func != nullptr;'), (G, '  if (m_func)\n  {\n    m_func();\n  }', '  if (!IsValid())\n  {\n    return;\n  }\n  m_func();')]),
    ('g-assign-explicit', 'same', None, [(G, '  ScopeGuard moved{std::move(other)};\n  Swap(moved);\n  return *this;', '''  std::function<void()> incoming = other.m_func;
  other.m_func = nullptr;
  std::function<void()> previous = m_func;
  m_func = incoming;
  if (previous)
  {
    previous();
  }
  return *this;''')]),
    ('n-iter', 'same', None, [(N, EXEC, '''  for (auto it = generic_cb_entries.begin(); it != generic_cb_entries.end(); ++it)
  {
    it->cb(name, args...);
  }
  for (std::size_t i = 0; i < cb_entries.size(); ++i)
  {
    const auto& entry = cb_entries[i];
    if (name.compare(entry.name) != 0)
    {
      continue;
    }
    entry.cb(args...);
  }
''')]),
    ('n-foreach', 'same', None, [(N, EXEC, '''  std::for_each(generic_cb_entries.begin(), generic_cb_entries.end(),
                [&](const GenericCallbackEntry& entry) { entry.cb(name, args...); });
  std::for_each(cb_entries.begin(), cb_entries.end(), [&](const CallbackEntry& entry) {
    if (entry.name == name)
    {
      entry.cb(args...);
    }
  });
''')]),
    ('n-copies-locked', 'same', None, [(N, EXEC, '''  const auto generic = generic_cb_entries;
  for (const auto& e : generic)
  {
    e.cb(name, args...);
  }
  std::vector<std::function<void(Args...)>> matching;
  for (const auto& e : cb_entries)
  {
    if (e.name == name)
    {
      matching.push_back(e.cb);
    }
  }
  for (const auto& f : matching)
  {
    f(args...);
  }
''')]),
    ('n-size', 'same', None, [(N, UNREG, '''  const auto before = generic_cb_entries.size() + cb_entries.size();
  const auto matches = [listener](const auto& entry) { return entry.listener == listener; };
  generic_cb_entries.erase(std::remove_if(generic_cb_entries.begin(), generic_cb_entries.end(), matches),
                           generic_cb_entries.end());
  cb_entries.erase(std::remove_if(cb_entries.begin(), cb_entries.end(), matches), cb_entries.end());
  return before != generic_cb_entries.size() + cb_entries.size();''')]),
    ('n-loop-erase', 'same', None, [(N, UNREG, '''  bool removed = false;
  for (auto it = generic_cb_entries.begin(); it != generic_cb_entries.end();)
  {
    if (it->listener == listener)
    {
      it = generic_cb_entries.erase(it);
      removed = true;
    }
    else
    {
      ++it;
    }
  }
  for (auto it = cb_entries.begin(); it != cb_entries.end();)
  {
    if (it->listener == listener)
    {
      it = cb_entries.erase(it);
      removed = true;
    }
    else
    {
      ++it;
    }
  }
  return removed;''')]),
    ('n-copyif', 'same', None, [(N, UNREG, '''  std::vector<GenericCallbackEntry> generic_kept;
  std::copy_if(generic_cb_entries.begin(), generic_cb_entries.end(), std::back_inserter(generic_kept),
               [listener](const GenericCallbackEntry& e) { return e.listener != listener; });
  std::vector<CallbackEntry> kept;
  for (const auto& e : cb_entries)
  {
    if (e.listener != listener)
    {
      kept.push_back(e);
    }
  }
  const bool result = kept.size() != cb_entries.size() || generic_kept.size() != generic_cb_entries.size();
  generic_cb_entries = std::move(generic_kept);
  cb_entries.swap(kept);
  return result;''')]),
    ('n-guard', 'same', None, [(N, '''  auto unregister = [this, listener](){
    if (listener != nullptr)
    {
      UnregisterListener(listener);
    }
  };
  return ScopeGuard(unregister);''', '''  if (listener == nullptr)
  {
    return ScopeGuard{[]() {}};
  }
  return ScopeGuard([this, listener]() { (void)UnregisterListener(listener); });''')]),
    ('n-reg', 'same', None, [(N, '  cb_entries.push_back({listener, name, cb});', '  CallbackEntry entry{listener, name, cb};\n  cb_entries.emplace_back(std::move(entry));'), (N, '  generic_cb_entries.push_back({listener, cb});', '  GenericCallbackEntry entry;\n  entry.listener = listener;\n  entry.cb = std::move(cb);\n  generic_cb_entries.push_back(entry);')]),
    ('n-reg-nested', 'same', None, [(N, '''  if (!cb)
  {
    return false;
  }
  std::lock_guard<std::mutex> lk(mtx);
  cb_entries.push_back({listener, name, cb});
  return true;''', '''  const bool valid = cb != nullptr;
  if (valid)
  {
    std::lock_guard<std::mutex> lk(mtx);
    cb_entries.push_back({listener, name, cb});
  }
  return valid;''')]),
    ('l-loop', 'same', None, [(L, SEV, '''  for (const auto& [severity, name] : GetSeverityMap())
  {
    if (name == str)
    {
      return static_cast<Severity>(severity);
    }
  }
  return NUMBER_OF_LOG_LEVELS;''')]),
    ('l-iter', 'same', None, [(L, SEV, '''  const auto& sev_map = GetSeverityMap();
  auto found = sev_map.cbegin();
  while (found != sev_map.cend() && found->second.compare(str) != 0)
  {
    ++found;
  }
  if (found == sev_map.cend())
  {
    return NUMBER_OF_LOG_LEVELS;
  }
  return static_cast<Severity>(found->first);''')]),
    ('l-at', 'same', None, [(L, '''  auto it = sev_map.find(severity);
  if (it == sev_map.end())
  {
    return "UNKNOWN";
  }
  return it->second;''', '''  return sev_map.count(severity) ? sev_map.at(severity) : std::string("UNKNOWN");''')]),
    ('l-range', 'same', None, [(L, '''  auto it = sev_map.find(severity);
  if (it == sev_map.end())
  {
    return "UNKNOWN";
  }
  return it->second;''', '''  if (severity < 0 || severity >= NUMBER_OF_LOG_LEVELS)
  {
    return "UNKNOWN";
  }
  return sev_map.at(severity);''')]),
    ('j-switch', 'same', None, [('job_states.cpp', JS, '''  switch (state)
  {
  case JobState::kSucceeded:
  case JobState::kFailed:
  case JobState::kHalted:
    return true;
  default:
    break;
  }
  return false;''')]),
    ('j-or', 'same', None, [('job_states.cpp', JS, '''  return state == JobState::kSucceeded || state == JobState::kFailed || JobState::kHalted == state;'''),
                            ('job_states.cpp', HALTFN, '''  return state_to_string.count(state) > 0 ? state_to_string.at(state) : "Unknown JobState";''')]),
    ('j-array', 'same', None, [('job_states.cpp', JS, '''  const JobState finished[] = {JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
  for (auto s : finished)
  {
    if (s == state)
    {
      return true;
    }
  }
  return false;''')]),
    ('j-anyof', 'same', None, [('job_states.cpp', JS, '''  static const std::vector<JobState> finished{JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
  return std::any_of(finished.begin(), finished.end(), [state](JobState s) { return s == state; });'''),
                               ('job_states.cpp', '#include <set>', '#include <algorithm>\n#include <vector>\n#include <set>')]),
    ('j-if', 'same', None, [('job_states.cpp', HALTFN, '''  const auto iter = state_to_string.find(state);
  const bool known = iter != state_to_string.end();
  return known ? iter->second : std::string{"Unknown JobState"};''')]),
    ('s-map', 'same', None, [('execution_status.cpp', '  return status == ExecutionStatus::NOT_FINISHED || status == ExecutionStatus::RUNNING;', '  if (status == ExecutionStatus::RUNNING)\n  {\n    return true;\n  }\n  return ExecutionStatus::NOT_FINISHED == status;')]),
    ('s-needs', 'same', None, [('execution_status.cpp', '  return !IsFinishedStatus(status);', '  return status != ExecutionStatus::SUCCESS && status != ExecutionStatus::FAILURE;')]),
    ('p-emplace', 'same', None, [('procedure_preamble.cpp', '  m_type_registrations.push_back(info);', '  m_type_registrations.emplace_back(info.GetRegistrationMode(), info.GetString());')]),
    ('p-insert', 'same', None, [('procedure_preamble.cpp', '  m_type_registrations.push_back(info);', '  m_type_registrations.insert(m_type_registrations.end(), info);')]),
    ('b-ref', 'same', None, [('breakpoint.cpp', '  m_status = status;', '  if (m_status != status)\n  {\n    m_status = status;\n  }')]),
    # defects
    ('q-lifo', 'bug', 'C03', [(Q, PUSH, PUSH.replace('push_back', 'push_front'))]),
    ('q-unlocked-size', 'bug', 'C04', [(Q, '  std::lock_guard<std::mutex> lk{m_mtx};\n  return m_command_queue.size();', '  return m_command_queue.size();')]),
    ('q-temp-lock', 'bug', 'C04', [(Q, '  std::lock_guard<std::mutex> lk{m_mtx};\n  return m_command_queue.empty();', '  std::lock_guard<std::mutex>{m_mtx};\n  return m_command_queue.empty();')]),
    ('q-pop-race', 'bug', 'C04', [(Q, '''  std::lock_guard<std::mutex> lk{m_mtx};
  if (m_command_queue.empty())
  {
    return false;
  }
  command''', '''  if (IsEmpty())
  {
    return false;
  }
  std::lock_guard<std::mutex> lk{m_mtx};
  command''')]),
    ('q-notify-before', 'bug', 'C04', [(Q, PUSH, '''  m_cv.notify_one();
  std::lock_guard<std::mutex> lk{m_mtx};
  m_command_queue.push_back(command);
}

bool''')]),
    ('q-prio-nonotify', 'bug', 'C04', [(Q, '  m_cv.notify_one();\n  return true;', '  return true;')]),
    ('q-prio-lt', 'bug', 'C03', [(Q, 'command <= m_command_queue.front()', 'command <= m_command_queue.front() && command != JobCommand::kHalt')]),
    ('q-prio-clear', 'bug', 'C03', [(Q, '    m_command_queue.push_front(command);', '    m_command_queue.clear();\n    m_command_queue.push_front(command);')]),
    ('q-try-last', 'bug', 'C03', [(Q, '  command = m_command_queue.front();\n  m_command_queue.pop_front();', '  command = m_command_queue.back();\n  m_command_queue.pop_back();')]),
    ('q-try-peek', 'bug', 'C03', [(Q, '  command = m_command_queue.front();\n  m_command_queue.pop_front();\n  return true;', '  command = m_command_queue.front();\n  if (m_command_queue.size() > 1)\n    m_command_queue.pop_front();\n  return true;')]),
    ('g-noclear', 'bug', 'C26', [(G, '  other.m_func = {};\n', '')]),
    ('g-selfassign', 'bug', 'C26', [(G, '  ScopeGuard moved{std::move(other)};\n  Swap(moved);\n  return *this;', '  Swap(other);\n  return *this;')]),
    ('n-listener-null', 'bug', 'C25', [(N, '    if (listener != nullptr)\n    {\n      UnregisterListener(listener);\n    }', '    UnregisterListener(listener);')]),
    ('n-unlocked-reg', 'bug', 'C25', [(N, '  std::lock_guard<std::mutex> lk(mtx);\n  generic_cb_entries.push_back({listener, cb});', '  generic_cb_entries.push_back({listener, cb});')]),
    ('n-replace', 'bug', 'C25', [(N, '  cb_entries.push_back({listener, name, cb});', '''  for (auto& e : cb_entries)
  {
    if (e.listener == listener && e.name == name)
    {
      e.cb = cb;
      return true;
    }
  }
  cb_entries.push_back({listener, name, cb});''')]),
    ('n-prefix', 'bug', 'C25', [(N, 'if (cb_entry.name == name)', 'if (cb_entry.name.empty() || cb_entry.name == name)')]),
    ('n-unreg-first', 'bug', 'C25', [(N, '  cb_entries.erase(new_end_it, cb_entries.end());', '  if (new_end_it != cb_entries.end())\n    cb_entries.erase(new_end_it);')]),
    ('n-result', 'bug', 'C25', [(N, '  result = result || new_end_it != cb_entries.end();', '  result = new_end_it != cb_entries.end();')]),
    ('n-generic-swallow', 'bug', 'C25', [(N, '    if (cb_entry.name == name)', '    if (generic_cb_entries.empty() && cb_entry.name == name)')]),
    ('e-nobase', 'bug', 'C41', [('exceptions.h', 'class ParseException : public MessageException', 'class ParseException : private MessageException')]),
]
