"""Edits of jobs, the runner and breakpoints."""
A, R, B = 'async_runner.cpp', 'runner.cpp', 'breakpoint_manager.cpp'
CASES = [
    ('j-step-final', 'bug', 'C05', [(A, '  if (!SwitchStateOnFinished())\n  {\n    SetState(JobState::kPaused);\n  }', '  SwitchStateOnFinished();\n  SetState(JobState::kPaused);')]),
    ('j-fail-as-success', 'bug', 'C05', [(A, 'if (m_proc.GetStatus() == ExecutionStatus::SUCCESS)', 'if (m_proc.GetStatus() != ExecutionStatus::NOT_FINISHED)')]),
    ('j-pause-keeps-running', 'bug', 'C05', [(A, '      m_runner.Pause();\n      SetState(JobState::kPaused);', '      SetState(JobState::kPaused);')]),
    ('j-reset-noproc', 'bug', 'C05', [(A, '      m_proc.Reset(m_ui);\n', '')]),
    ('j-breakpoint-state', 'bug', 'C05', [(A, '  if (m_runner.GetCurrentBreakpointInstructions().size() != 0)', '  if (m_runner.GetCurrentBreakpointInstructions().size() > 1)')]),
    ('j-stale-bp', 'bug', 'C05', [(R, '  m_current_breakpoint_instructions.clear();\n', '')]),
    ('j-halted-handler', 'bug', 'C05', [(A, '    case JobState::kFailed:\n    case JobState::kHalted:\n      m_command_handler = &AsyncRunner::HandleFinished;', '    case JobState::kFailed:\n      m_command_handler = &AsyncRunner::HandleFinished;\n      break;\n    case JobState::kHalted:\n      m_command_handler = &AsyncRunner::HandlePaused;')]),
    ('j-cmd-before-finish', 'bug', 'C05', [(A, '''  if (SwitchStateOnFinished())
  {
    return;
  }
  JobCommand command = JobCommand::kStart;
  if (m_command_queue.TryPop(command))
  {
    auto action = HandleCommand(command);
    // Ignore action, all necessary actions are already taken by HandleCommand.
    (void)action;
  }''', '''  JobCommand command = JobCommand::kStart;
  if (m_command_queue.TryPop(command))
  {
    auto action = HandleCommand(command);
    // Ignore action, all necessary actions are already taken by HandleCommand.
    (void)action;
    return;
  }
  SwitchStateOnFinished();''')]),
    ('j-pause-in-initial', 'bug', 'C05', [(A, '''      return Action::kStep;
    case JobCommand::kPause:
      break;
    case JobCommand::kReset:
      break;
    case JobCommand::kHalt:
      SetState(JobState::kHalted);
      break;
    case JobCommand::kTerminate:
      m_keep_alive.store(false);
      return Action::kExit;
    default:
      break;
  }
  return Action::kContinue;
}

AsyncRunner::Action AsyncRunner::HandleRunning''', '''      return Action::kStep;
    case JobCommand::kPause:
      SetState(JobState::kPaused);
      break;
    case JobCommand::kReset:
      break;
    case JobCommand::kHalt:
      SetState(JobState::kHalted);
      break;
    case JobCommand::kTerminate:
      m_keep_alive.store(false);
      return Action::kExit;
    default:
      break;
  }
  return Action::kContinue;
}

AsyncRunner::Action AsyncRunner::HandleRunning''')]),
    ('j-tick-before-state', 'bug', 'C06', [(A, '    timeout(proc);\n    m_state_monitor.OnProcedureTick(proc);', '    timeout(proc);\n    if (!IsFinishedStatus(proc.GetStatus())) m_state_monitor.OnProcedureTick(proc);')]),
    ('j-stale-callback', 'bug', 'C06', [(A, '  m_runner.SetTickCallback(tick_callback);\n  m_runner.ExecuteSingle();', '  m_runner.SetTickCallback({});\n  m_runner.ExecuteSingle();')]),
    ('j-tick-twice', 'bug', 'C06', [(R, '''      m_tick_cb(*m_proc);
''', '''      m_tick_cb(*m_proc);
      if (m_halt.load()) m_tick_cb(*m_proc);
''')]),
    ('j-halt-plain-push', 'bug', 'C07', [(A, '  m_command_queue.PriorityPush(JobCommand::kHalt, halt_func);', '  halt_func();\n  m_command_queue.Push(JobCommand::kHalt);')]),
    ('j-term-nohalt', 'bug', 'C07', [(A, '''  auto terminate_func = [this](){
    m_runner.Halt();
  };''', '''  auto terminate_func = [this](){
    m_runner.Pause();
  };''')]),
    ('j-term-nowait', 'bug', 'C07', [(A, '  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);\n  m_loop_future.wait();', '  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);')]),
    ('j-wait-first', 'bug', 'C07', [(A, '  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);\n  m_loop_future.wait();', '  m_loop_future.wait();\n  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);')]),
    ('j-reset-is-pause', 'bug', 'C07', [(A, 'm_command_queue.Push(JobCommand::kReset);', 'm_command_queue.Push(JobCommand::kPause);')]),
    ('bp-dup', 'bug', 'C08', [(B, '  if (iter == m_breakpoints.end())\n  {\n    m_breakpoints.emplace_back(instruction);\n    return true;\n  }\n  return false;', '  const bool present = iter != m_breakpoints.end();\n  m_breakpoints.emplace_back(instruction);\n  return !present;')]),
    ('bp-rearm-all-hit', 'bug', 'C08', [(B, '    if (status == Breakpoint::kSet)\n    {\n      result.push_back(breakpoint.GetInstruction());', '    if (status == Breakpoint::kSet)\n    {\n      if (result.empty()) result.push_back(breakpoint.GetInstruction());')]),
    ('bp-rearm-first', 'bug', 'C08', [(B, '      breakpoint.SetStatus(Breakpoint::kSet);\n    }', '      breakpoint.SetStatus(Breakpoint::kSet);\n      break;\n    }')]),
    ('bp-rearm-early', 'bug', 'C08', [(R, '    m_proc->ExecuteSingle(m_ui);\n    m_breakpoint_manager->ResetBreakpoints();', '    m_breakpoint_manager->ResetBreakpoints();\n    m_proc->ExecuteSingle(m_ui);')]),
    ('bp-report-always', 'bug', 'C08', [(A, '  if (m_runner.RemoveBreakpoint(instruction))\n  {\n    m_state_monitor.OnBreakpointChange(instruction, false);\n  }', '  m_runner.RemoveBreakpoint(instruction);\n  m_state_monitor.OnBreakpointChange(instruction, false);')]),
    ('bp-unknown-remove', 'bug', 'C08', [(B, '''    std::string error_message =
      "BreakpointManager::SetBreakpoint: trying to set a breakpoint at non-existent instruction";
    throw InvalidOperationException(error_message);''', '    return false;')]),
    ('r-halt-once', 'bug', 'C09', [(R, '  m_halt.store(false);\n  m_current', '  m_current')]),
    ('r-no-prochalt', 'bug', 'C09', [(R, '''  m_halt.store(true);
  if (m_proc)
  {
    m_proc->Halt();
  }''', '''  m_halt.store(true);
  if (m_proc && IsRunning())
  {
    m_proc->Halt();
  }''')]),
    ('r-step-bp', 'bug', 'C09', [(R, '''  if (m_proc)
  {
    m_proc->ExecuteSingle(m_ui);''', '''  if (m_proc && !IsFinished())
  {
    m_proc->ExecuteSingle(m_ui);''')]),
    ('r-finished-success-only', 'bug', 'C09', [(R, 'if (status == ExecutionStatus::SUCCESS || status == ExecutionStatus::FAILURE)', 'if (status == ExecutionStatus::SUCCESS)')]),
    ('j-same-switch-to-if', 'same', 'C05', [(A, '''    switch (action)
    {
      case Action::kContinue:
        continue;
      case Action::kStep:
        StepProcedure();
        break;
      case Action::kRun:
        RunProcedure();
        break;
      case Action::kExit:
        return;
    }''', '''    if (action == Action::kExit)
    {
      m_keep_alive = false;
    }
    else if (action == Action::kStep)
    {
      StepProcedure();
    }
    else if (action == Action::kRun)
    {
      RunProcedure();
    }''')]),
    ('j-same-state-var', 'same', 'C05', [(A, '  auto status = m_proc.GetStatus();\n  if (IsFinishedStatus(status))\n  {\n    if (m_proc.GetStatus() == ExecutionStatus::SUCCESS)\n    {\n      SetState(JobState::kSucceeded);\n    }\n    else\n    {\n      SetState(JobState::kFailed);\n    }\n    return true;\n  }\n  return false;',
      '  switch (m_proc.GetStatus())\n  {\n    case ExecutionStatus::SUCCESS:\n      SetState(JobState::kSucceeded);\n      return true;\n    case ExecutionStatus::FAILURE:\n      SetState(JobState::kFailed);\n      return true;\n    default:\n      return false;\n  }')]),
    ('j-same-halt-lambda', 'same', 'C07', [(A, '''  auto terminate_func = [this](){
    m_runner.Halt();
  };
  // The terminate command needs to be handled first.
  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);
  m_loop_future.wait();''', '''  std::function<void()> stop = std::bind(&Runner::Halt, &m_runner);
  (void)m_command_queue.PriorityPush(JobCommand::kTerminate, stop);
  if (m_loop_future.valid())
  {
    m_loop_future.get();
  }''')]),
    ('bp-same-find', 'same', 'C08', [(B, '''  auto iter = std::find_if(m_breakpoints.begin(), m_breakpoints.end(), predicate);
  if (iter == m_breakpoints.end())
  {
    m_breakpoints.emplace_back(instruction);
    return true;
  }
  return false;''', '''  if (std::any_of(m_breakpoints.begin(), m_breakpoints.end(), predicate))
  {
    return false;
  }
  m_breakpoints.push_back(Breakpoint{instruction});
  return true;'''), (B, '''  auto iter = std::find_if(m_breakpoints.begin(), m_breakpoints.end(), predicate);
  if (iter == m_breakpoints.end())
  {
    return false;
  }
  m_breakpoints.erase(iter);
  return true;''', '''  const auto before = m_breakpoints.size();
  m_breakpoints.remove_if(predicate);
  return m_breakpoints.size() != before;''')]),
    ('r-same-dowhile', 'same', 'C09', [(R, '''  while (!IsFinished() && !m_halt.load())
  {
    auto next_instructions = GetNextInstructions(*m_proc);
    if (!next_instructions.empty())
    {
      m_current_breakpoint_instructions = m_breakpoint_manager->HandleBreakpoints(next_instructions);
      if (!m_current_breakpoint_instructions.empty())
      {
        return;
      }
    }
    ExecuteSingle();
  }''', '''  for (;;)
  {
    if (IsFinished())
    {
      break;
    }
    if (m_halt)
    {
      break;
    }
    const auto next_instructions = GetNextInstructions(*m_proc);
    auto hits = m_breakpoint_manager->HandleBreakpoints(next_instructions);
    m_current_breakpoint_instructions = std::move(hits);
    if (m_current_breakpoint_instructions.size() > 0)
    {
      return;
    }
    ExecuteSingle();
  }''')]),
]
