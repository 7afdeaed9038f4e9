"""Edits of the input queue and of classes shared between threads."""
A, M, R, Q, J, W, V = 'async_input_adapter.cpp', 'application_utils.cpp', 'async_runner.cpp', 'job_command_queue.cpp', 'job_command_queue.h', 'workspace.cpp', 'variable.cpp'
CASES = [
    ('q-late-reply', 'bug', 'C27', [(A, '''    if (m_current_id == id)
    {
      m_replies[m_current_id] = reply;
      m_reply_cv.notify_all();
    }''', '''    m_replies[id] = reply;
    m_reply_cv.notify_all();''')]),
    ('q-current-kept', 'bug', 'C27', [(A, '    m_current_id = 0;\n  }\n}\n\nsup::dto::uint64', '  }\n}\n\nsup::dto::uint64')]),
    ('q-reply-kept', 'bug', 'C27', [(A, '  m_replies.erase(reply_it);\n  return reply;', '  return reply;')]),
    ('q-lifo', 'bug', 'C27', [(A, 'm_request_queue.push_back({id, request});', 'm_request_queue.push_front({id, request});')]),
    ('q-cancel-current-first', 'bug', 'C27', [(A, '''    m_interrupt_func(id);
    m_current_id = 0;''', '''    m_current_id = 0;''')]),
    ('q-cancel-reply-kept', 'bug', 'C27', [(A, '''    // reply is already provided, so just removing it is enough
    m_replies.erase(reply_it);''', '''    // reply is already provided''')]),
    ('q-id-reuse', 'bug', 'C27', [(A, '  m_replies.erase(reply_it);\n  return reply;', '  m_replies.erase(reply_it);\n  if (m_replies.empty())\n  {\n    m_last_request_id = 0;\n  }\n  return reply;')]),
    ('q-reply-made-up', 'bug', 'C27', [(A, '''    const std::string error =
      "AsyncInputAdapter::GetUserInput(): User input with id [" + std::to_string(id) +
      "] unknown or not ready!";
    throw InvalidOperationException{error};''', '''    return {};''')]),
    ('q-s-find-loop', 'same', 'C27', [(A, '''  auto request_it = std::find_if(m_request_queue.begin(), m_request_queue.end(), req_pred);
''', '''  auto request_it = m_request_queue.begin();
  while (request_it != m_request_queue.end() && !req_pred(*request_it))
  {
    ++request_it;
  }
''')]),
    ('q-s-scope', 'same', 'C27', [(A, '''  std::lock_guard<std::mutex> lk{m_mtx};
  auto reply_it = m_replies.find(token.GetId());
  return reply_it != m_replies.end();''', '''  std::unique_lock<std::mutex> lk{m_mtx};
  const auto n = m_replies.count(token.GetId());
  return n > 0;''')]),
    ('q-s-emplace', 'same', 'C27', [(A, '''      m_replies[m_current_id] = reply;''', '''      m_replies.emplace(id, reply);''')]),
    ('q-s-else', 'same', 'C27', [(A, '''  std::unique_ptr<IUserInputFuture> future{new Future{*this, id}};
  return future;''', '''  return std::make_unique<Future>(*this, id);''')]),
    ('t-ready-nolock', 'bug', 'C46', [(A, '''  std::lock_guard<std::mutex> lk{m_mtx};
  auto reply_it = m_replies.find(token.GetId());
  return''', '''  auto reply_it = m_replies.find(token.GetId());
  return''')]),
    ('t-add-nonotify', 'bug', 'C46', [(A, '''  m_cv.notify_one();
  std::unique_ptr''', '''  std::unique_ptr''')]),
    ('t-mon-one', 'bug', 'C46', [(M, 'm_cv.notify_all();', 'm_cv.notify_one();')]),
    ('t-mon-none', 'bug', 'C46', [(M, '  m_cv.notify_all();\n', '')]),
    ('t-mon-nolock', 'bug', 'C46', [(M, '''  std::lock_guard<std::mutex> lk{m_mtx};
  return m_state;''', '''  return m_state;''')]),
    ('t-queue-nolock', 'bug', 'C46', [(Q, '''  std::lock_guard<std::mutex> lk{m_mtx};
  return''', '''  return''')]),
    ('t-s-helper', 'same', 'C46', [(A, '''std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(''', '''namespace
{
void Wake(std::condition_variable& cv)
{
  cv.notify_one();
}
}

std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest('''), (A, '''  m_cv.notify_one();
  std::unique_ptr''', '''  Wake(m_cv);
  std::unique_ptr''')]),
    ('t-s-loop', 'same', 'C46', [(M, '''  m_cv.wait(lk, pred);
  return m_state;''', '''  while (!pred())
  {
    m_cv.wait(lk);
  }
  return m_state;''')]),
    ('t-s-notify-under', 'same', 'C46', [(A, '''    m_request_queue.push_back({id, request});
  }
  m_cv.notify_one();''', '''    m_request_queue.push_back({id, request});
    m_cv.notify_one();
  }''')]),
]
