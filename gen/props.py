"""Source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
P(id, title, statement, over, text, why, files, mechanism, how, [na])"""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, how='', na=None, state=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, how=how, na=na, state=state, note=note))


P('C01', 'Status names and classification', 'Every execution status and job state has its own stable human-readable name, unknown values get the fallback name, and exactly the succeeded, failed and halted job states count as finished.',
  ['inputs'], 'every value of the status and job-state enumerations, and every integer outside them', 'The tests compare the names of a few values; renaming, swapping or misclassifying any other value, or an out-of-range one, passes.',
  ['execution_status.cpp', 'job_states.cpp'], [('StatusToString', 'execution_status.cpp'), ('ToString/IsFinishedJobState', 'job_states.cpp')],
  'Constant propagation over every enumerator and over an unknown value gives the complete name/classification table, which must equal the specified one. Finite and complete; the tests sample it.')

P('C02', 'Job command precedence is a strict total order', 'Job commands are ordered by urgency: terminate before halt, halt before reset, reset before pause, pause before step and step before start, and no command precedes itself.',
  ['inputs'], 'all ordered pairs of job commands', 'Tests compare a few pairs; the order is used to let an urgent command overtake others, so one wrong pair only shows with that pair queued.',
  ['job_commands.h', 'job_commands.cpp'], [('enumeration order, operator<', 'job_commands.h')],
  'All 36 ordered pairs are evaluated by constant propagation through the comparison the queue really uses; the relation must be the specified strict total order.')

P('C03', 'Command queue delivers in order, urgent commands overtake', 'Commands leave the queue in the order they were put in. An urgent command is put at the front: it is refused, without running its accompanying action and without any other effect, exactly when the next queued command is at least as urgent; otherwise its action runs, before the command becomes visible to readers, and everything already queued stays in order behind it. Popping from an empty queue reports that there is none and changes nothing.',
  ['histories', 'inputs'], 'every queue content and every sequence of operations', 'Tests push and pop two or three particular commands; other contents (longer, mixed, empty) are not reached.',
  ['job_command_queue.cpp'], [('Push/TryPop/PriorityPush/Pop', 'job_command_queue.cpp')],
  'Inductive: each operation is analysed from an arbitrary content of the queue (a symbolic list), and its result and final content are compared with the specification; client programs fix the small contents representation-independently.')

P('C04', 'Command queue is thread safe and never loses a wake-up', 'Any number of threads may use the command queue at once: every access to its content is mutually exclusive, a blocked reader only waits while there is nothing to read, and every insertion made visible to readers wakes one up.',
  ['schedules'], 'every interleaving of any number of producers and consumers', 'Unit tests use the queue from one thread; a race or lost wake-up needs a specific interleaving.',
  ['job_command_queue.cpp'], [('mutex and condition variable', 'job_command_queue.h')],
  'Lock-set analysis on all paths of all operations, wait-predicate shape (waits only with the mutex and re-checks emptiness), publish-before-notify on all paths, no double locking.')

P('C25', 'Named callbacks: exact delivery and unregistration', 'Executing the callbacks for a name runs exactly once each callback registered for that name and each generic callback, with the given arguments and generic callbacks also with the name; removing a listener or destroying its guard removes exactly its callbacks, and empty callables are refused.',
  ['histories', 'inputs', 'schedules'], 'every registration history, every name, listener and argument, and concurrent use', 'Tests register one or two callbacks with distinct names; duplicates, equal names, the null listener, mixed generic and named ones, and concurrency are not covered.',
  ['named_callback_manager.h'], [('RegisterCallback, ExecuteCallbacks, UnregisterListener', 'named_callback_manager.h')],
  'Client programs with arbitrary names, listeners and callables are analysed through the template; the trace of invocations of every path must equal the specified one under every equality pattern. Lock-set over every instantiation.')

P('C26', 'Scope guard runs its action exactly once', 'A scope guard runs its action exactly once: on destruction or when overwritten by another guard, never from a moved-from guard and never twice, whatever the sequence of moves.',
  ['histories'], 'every sequence of construction, move, assignment, swap and destruction', 'Three tests cover one construction, one move and one assignment.',
  ['scope_guard.h', 'scope_guard.cpp'], [('ScopeGuard', 'scope_guard.cpp')],
  'Client programs that construct, move, self-assign, swap and destroy guards with arbitrary callables (including none) are analysed; each action must be invoked exactly as often, and in the order, that ownership implies. Copyability is read from the class.')

P('C30', 'Log severities round trip', 'Every log severity has a distinct name and number, converting to either and back gives the same severity, and names or numbers that denote none map to a defined fallback.',
  ['inputs'], 'all severities and every other string or integer', 'Tests check a few values in one direction.',
  ['log_severity.cpp', 'log_severity.h'], [('SeverityToString/SeverityFromString', 'log_severity.cpp')],
  'Complete tables both ways by constant propagation, composed to check the round trip, with an arbitrary unknown input as the extra row.')

P('C31', 'Attributes are validated and read as they are defined', 'Validation reports exactly the mandatory attributes that are missing, the literal attributes whose text is no value of their type, and the violated constraints; an attribute that refers to a variable is not parsed. Reading an attribute gives the value its text denotes for its type, or says which variable it refers to; names are never duplicated, and adding, setting and filling placeholders change exactly the attributes they name.',
  ['inputs', 'configurations', 'histories'], 'every category and type of definition, every text, every order of adding, setting, validating and reading', 'Tests use a few definitions with a few values each.',
  ['attribute_handler.cpp', 'attribute_validator.cpp', 'attribute_definition.cpp', 'attribute_utils.cpp', 'instruction_helper.cpp'], [('ValidateAttributes, GetValue, GetAttributeValueInfo', 'attribute_handler.cpp'), ('ParseAttributeString, CreateAttributeString', 'attribute_utils.cpp'), ('InitialisePlaceholderAttributes', 'instruction_helper.cpp')],
  'Client programs define, change, validate and read attributes for every outcome of parsing; what they observe on every path equals the reference.')
P('C32', 'Constraints mean the boolean expression they stand for', 'A constraint accepts a list of attributes exactly when the boolean expression it is made of is true for it, however deeply combinators are nested; copies, moved and assigned constraints accept the same lists and show the same representation as their source, and a moved-from constraint accepts nothing.',
  ['inputs', 'programs'], 'trees of constraints over every combinator, attribute lists with every presence and validity', 'Tests build each combinator once, and check copies of some.',
  ['concrete_constraints.cpp', 'constraint.cpp'], [('Validate, Clone, GetRepresentation', 'concrete_constraints.cpp'), ('Constraint', 'constraint.cpp')],
  'Client programs build, copy, move and assign constraint trees and validate attribute lists with every outcome of parsing; results equal the truth tables.')
P('C41', 'Exceptions carry their message and are all catchable', 'Every exception the library throws carries the message it was constructed with and can be caught both as the library exception base and as a standard exception.',
  ['inputs', 'programs'], 'every exception type and message', 'No test inspects the class hierarchy of each type or its message.',
  ['exceptions.h', 'exceptions.cpp'], [('exception classes', 'exceptions.h')],
  'Class-hierarchy query over every class derived from the base plus client programs constructing each with an arbitrary message.')

P('C42', 'Procedure preamble keeps what it is given, in order', 'A procedure preamble returns the type registrations and plugin names exactly as added, in order, each exactly once.',
  ['inputs', 'histories'], 'every sequence of additions', 'No test of the preamble alone; procedures in tests use at most one or two entries.',
  ['procedure_preamble.h', 'procedure_preamble.cpp'], [('AddPluginPath/AddTypeRegistration', 'procedure_preamble.cpp')],
  'Client programs that add arbitrary entries and read them back, analysed symbolically.')

P('C43', 'Breakpoint objects report what was set', 'A new breakpoint is armed and refers to the instruction it was made for; setting its status changes exactly the status and never the instruction.',
  ['inputs', 'histories'], 'every instruction and every sequence of status changes', 'Breakpoints are only tested through a runner with a particular procedure.',
  ['breakpoint.h', 'breakpoint.cpp'], [('Breakpoint', 'breakpoint.cpp')],
  'Client programs over arbitrary instructions and status values.')

P('C05', 'A job follows its state machine', 'A job starts in the initial state and changes and reports its state exactly as its state machine says, for every sequence of commands: start runs and step executes one tick of an initial or paused job, pause and step stop a running one, halt ends an initial, paused or running one, reset returns a finished one to the initial state, terminate ends the job anywhere, and every other command is ignored. A running job that reaches a breakpoint becomes paused without executing it, and a job whose procedure finishes becomes succeeded or failed according to the outcome. Nothing is executed unless the job is running or stepping.',
  ['histories', 'inputs', 'schedules'], 'every sequence of commands at any moment, every outcome of every tick and breakpoints anywhere', 'Tests drive jobs through a few scripted command sequences; commands arriving in the other states or between particular ticks, and breakpoints combined with steps and resumes, are not reached.',
  ['async_runner.cpp', 'async_runner.h', 'runner.cpp'], [('HandleInitial/HandlePaused/HandleRunning/HandleFinished, SetState', 'async_runner.cpp'), ('ExecuteProcedure', 'runner.cpp')],
  'A client program constructs a job and destroys it; the command queue, the procedure and the breakpoint hits are the most general environment. All traces with up to 4 commands and up to 3 ticks (thorough: more) are enumerated by abstract interpretation of the real code and each must equal the trace of a reference state machine.')

P('C06', 'Every executed tick is reported exactly once', 'For every tick that a job or runner executes, its monitor or tick callback is called exactly once, with the procedure executed, before the next tick is executed or the job waits for its next command.',
  ['histories', 'schedules'], 'every sequence of commands, outcomes of ticks and breakpoints', 'Tests count ticks of a few undisturbed runs.',
  ['async_runner.cpp', 'runner.cpp'], [('tick callbacks of RunProcedure and StepProcedure', 'async_runner.cpp'), ('ExecuteSingle', 'runner.cpp')],
  'A typestate automaton (tick, then exactly one report) runs over every trace of the C05 sessions and of the synchronous runner.')

P('C07', 'Requests to a job become the right commands', 'Start, step, pause and reset of a job each queue exactly the command of that name. Halt and destruction queue the urgent halt and terminate commands, and halt the procedure at once when the queue accepts them. Destroying a job asks it to terminate and then waits for its thread before any of its members is destroyed.',
  ['histories', 'schedules'], 'every request, accepted or refused by the queue', 'Tests cannot observe the order of halting, waiting and destruction.',
  ['async_runner.cpp'], [('Start/Step/Pause/Reset/Halt/Terminate, destructor', 'async_runner.cpp')],
  'A client program makes every request and destroys the job; the events of every path (commands pushed, procedure halted within the push, thread joined) are matched against the request.')

P('C08', 'Breakpoints stop once and are armed again after the tick', 'A breakpoint can be set on any instruction of the procedure and on no other, at most one per instruction, and set and removed breakpoints are reported exactly when something changed. A set breakpoint stops execution once, when its instruction is among the next ones, and is then released; it is armed again only after the following tick, and removed ones never stop.',
  ['histories', 'inputs'], 'every sequence of setting, removing, stopping and re-arming', 'Tests use one or two breakpoints in a fixed order.',
  ['breakpoint_manager.cpp', 'runner.cpp', 'async_runner.cpp'], [('SetBreakpoint/RemoveBreakpoint/HandleBreakpoints/ResetBreakpoints', 'breakpoint_manager.cpp'), ('ExecuteProcedure, ExecuteSingle', 'runner.cpp')],
  'All sequences of 4 (thorough: 5) operations on a two-instruction procedure are analysed through the real code and compared with a reference model; re-arming is a typestate over every trace of the job sessions.')

P('C09', 'The runner executes until finished, stopped or halted', 'Executing a procedure ticks it, calling the tick callback after each tick, until it has finished, a breakpoint is reached, or the runner is paused or halted during a tick; halting also halts the procedure, and only a pause or breakpoint lets a later execution continue. A single step executes exactly one tick regardless of breakpoints, and a runner without a procedure does nothing and counts as finished, not running.',
  ['histories', 'inputs'], 'every outcome of every tick, breakpoints anywhere, and a pause or halt in any tick', 'Tests run a few procedures to their end.',
  ['runner.cpp', 'runner.h'], [('ExecuteProcedure, ExecuteSingle, Halt, Pause, IsFinished, IsRunning', 'runner.cpp')],
  'Client programs with a procedure of unknown behaviour: every trace of two executions with up to 3 ticks (thorough: 4) equals that of a reference runner.')

P('C10', 'Instruction life cycle', 'An instruction is initialised exactly once per run, on its first execution; a failed initialisation, like any finished status, makes further executions do nothing until it is reset. A halt request prevents execution from then on until a reset, which returns status and halt request to their initial values. The user interface is told of every change of the status, after the change, and of no non-change.',
  ['histories', 'inputs'], 'every behaviour of the initialisation and execution hooks and every sequence of execution, halt and reset', 'Tests drive particular instructions along a few happy paths; a hook that fails, a repeated status or a halt before the first tick are not combined.',
  ['instruction.cpp', 'instruction.h'], [('ExecuteSingle, Halt, Reset, Preamble, Postamble', 'instruction.cpp')],
  'Client programs with a leaf whose hooks are uninterpreted (every answer possible) run through the base class; the trace of hook calls, statuses and notifications of every path must equal that of a reference model.')
P('C11', 'Reset makes instructions as new', 'Resetting an instruction resets all its children and returns its status and theirs to not-started, whatever statuses they had.',
  ['histories'], 'every instruction with children, every combination of statuses of the children', 'Tests reset after a complete successful run only.',
  ['compound_instruction.cpp', 'decorator_instruction.cpp', 'instruction.cpp'], [('ResetHook', 'compound_instruction.cpp'), ('Reset', 'instruction.cpp')],
  'Client programs bring children of unknown behaviour into every combination of statuses, optionally tick the parent, and reset: hook calls and statuses of every path must equal the reference model.')
P('C12', 'Halt reaches every descendant', 'Halting an instruction sets its halt request and halts each of its children, whatever their statuses; a subsequent reset withdraws the request from the instruction and all its children.',
  ['histories'], 'every instruction with children, every combination of statuses of the children', 'Tests halt one running composite; a composite that forgets a child only shows when exactly that child is busy.',
  ['compound_instruction.cpp', 'decorator_instruction.cpp', 'user_choice.cpp'], [('HaltImpl', 'compound_instruction.cpp')],
  'Client programs for all fourteen instructions with children: on every path, from every combination of child statuses, the halt request and the halt hook must reach every child and the reset must withdraw it.')
P('C13', 'Sequences succeed in order, fail at the first failure', 'A sequence executes its children in order, only the first one that has not succeeded in each tick, and succeeds when all have succeeded; it fails as soon as one fails, is running while that child is running, and otherwise is not finished. A reactive sequence additionally resets every other child when the executed child is running. The next instruction reported is the child the next tick would start or continue, and none while it is running or has failed.',
  ['inputs', 'histories'], 'every behaviour of the children and every reachable combination of their statuses', 'Tests use a handful of trees with fixed leaf instructions; status combinations like a running child between finished ones are mostly absent.',
  ['sequence.cpp', 'reactive_sequence.cpp'], [('ExecuteSingleImpl, CalculateCompoundStatus, NextInstructionsImpl', 'sequence.cpp'), ('ResetOtherChildren', 'reactive_sequence.cpp')],
  'Client programs: 1 to 3 children of unknown behaviour, one tick from every combination of statuses, runs of three ticks, and runs with another composite or decorator as the first child; observed trace equals the reference model on every path.')
P('C14', 'Fallbacks try in order, succeed at the first success', 'A fallback executes its children in order, only the first one that has not failed in each tick, and fails when all have failed; it succeeds as soon as one succeeds, is running while that child is running, and otherwise is not finished. A reactive fallback additionally resets every other child when the executed child is running. The next instruction reported is the child the next tick would start or continue, and none while it is running or has succeeded.',
  ['inputs', 'histories'], 'every behaviour of the children and every reachable combination of their statuses', 'As for sequences: the tests fix a few trees.',
  ['fallback.cpp', 'reactive_fallback.cpp'], [('ExecuteSingleImpl, CalculateCompoundStatus, NextInstructionsImpl', 'fallback.cpp'), ('ResetOtherChildren', 'reactive_fallback.cpp')],
  'As for the sequences.')
P('C15', 'Parallel thresholds decide the outcome', 'A parallel sequence succeeds once the number of succeeded children reaches its success threshold, else fails once the number of failed children reaches its failure threshold, and then halts all children; until then it is not finished if a child is not finished and running otherwise. Thresholds default to all children and one, are limited to the number of children, and when only one is given the other is the smallest value that makes every outcome decidable.',
  ['inputs', 'histories'], 'every pair of thresholds (absent, unreadable or any number), every behaviour of the children and of their threads', 'Tests use three threshold pairs with leaf instructions that finish at once.',
  ['parallel_sequence.cpp'], [('InitThresholds, CalculateCompoundStatus', 'parallel_sequence.cpp')],
  'Client programs with 1 to 3 children whose statuses and threads are unknown, for every pair of thresholds up to one more than the number of children; observed trace equals the reference model on every path.')
P('C16', 'Decorators transform the status of their child', 'The inverter swaps success and failure, force-success turns failure into success, and include passes the status on. Repeat runs its child the requested number of times (forever for negative, not at all for zero), For once per array element with the element variable set first, both stopping at the first failure; Listen runs its child when one of its variables has a new value, and finishes only with a failure that it was not told to ignore.',
  ['inputs', 'histories'], 'every behaviour of the child, every count, array and configuration', 'Tests use fixed children, small counts and one array.',
  ['inverter.cpp', 'force_success.cpp', 'include.cpp', 'repeat.cpp', 'for.cpp', 'listen.cpp'], [('ExecuteSingleImpl', 'repeat.cpp'), ('ExecuteSingleImpl', 'for.cpp'), ('UpdateVariableCache', 'listen.cpp')],
  'Client programs with a child of unknown behaviour, attribute values and variable contents supplied by the check (absent, unreadable, and all small values); every path equals the reference model over several ticks and a reset.')
P('C17', 'Choices run exactly the selected children', 'A choice runs exactly the children its selector variable names, in the given order, succeeding when all have, failing at the first failure, and fails for a selector that is no list of valid indices. A user choice runs exactly the child the user selected and fails for a refused, missing or out-of-range reply. Both forget the selection when reset.',
  ['inputs', 'histories'], 'every selector and user reply, every behaviour of the children', 'Tests use a few selectors with leaf instructions that succeed at once.',
  ['choice.cpp', 'user_choice.cpp'], [('CreateInstructionList', 'choice.cpp'), ('ExecuteSingleImpl', 'user_choice.cpp')],
  'Client programs over two children of unknown behaviour with every kind of selector and reply, including futures that are not ready; every path equals the reference model over several ticks and a reset.')
P('C18', 'Asynchronous children never overlap with reset', 'A child executed on another thread is never executed by two threads at a time, and never reset while a thread still executes it; a reset of the parent first asks a child that is still executing to halt and then waits for its thread. No thread outlives the instruction that started it.',
  ['schedules', 'histories'], 'every interleaving of the finishing of child threads with ticks and resets of the parent', 'Overlap needs a child thread that is still busy at the moment of reset; tests let children finish.',
  ['async.cpp', 'async_wrapper.cpp', 'parallel_sequence.cpp'], [('AsyncWrapper', 'async_wrapper.cpp'), ('ResetHook', 'async.cpp'), ('ResetHook', 'parallel_sequence.cpp')],
  'Client programs in which every thread may or may not have finished at every point where that is asked or waited for; typestate per child (idle, executing, joined) over every path, and comparison with the reference model after the reset.')
P('C19', 'Leaf instructions do what their attributes say or fail', 'A leaf instruction that copies, increments, decrements, extends, resets, tests or reports a value succeeds exactly when every value it needs could be read and converted and its result was accepted, and fails otherwise. It changes nothing but the variable or field its output attribute names, writes there exactly the result of its operation, writes nothing when it fails before that, and passes on exactly the text, value and severity its attributes give.',
  ['inputs', 'configurations'], 'every combination of attributes, variables and fields, every answer of the variables and of the value operations', 'Tests run each instruction with a few values and one or two missing variables.',
  ['copy.cpp', 'increment.cpp', 'decrement.cpp', 'add_element.cpp', 'add_member.cpp', 'reset_variable.cpp', 'condition.cpp', 'output.cpp', 'message.cpp', 'log_instruction.cpp'], [('ExecuteSingleImpl', 'copy.cpp'), ('ExecuteSingleImpl', 'add_member.cpp'), ('ExecuteSingleImpl', 'log_instruction.cpp')],
  'Client programs run each instruction with its real attribute handling and a workspace of two arbitrary variables; for every answer of variables and value operations, status and effects of every path equal the reference.')
P('C20', 'Waiting instructions end when their time or condition says', 'Wait succeeds as soon as its timeout has passed since its first execution and never before; the waits for variables succeed as soon as they find their condition met, keep running while the timeout has not passed and fail after it. A halt makes a running wait fail, also in the middle of a blocking one; a reset starts over with a new timeout; a timeout that is not a number between zero and the maximum makes the instruction fail instead of waiting.',
  ['schedules', 'inputs', 'histories'], 'every passage of time between two readings of the clock, every answer of the variables, timeouts of every kind, halts and resets between executions', 'Tests use a few real delays; expiry exactly at the boundary, restarts and timeouts that are not numbers are not covered.',
  ['wait.cpp', 'wait_for_variable.cpp', 'wait_for_variables.cpp', 'instruction_utils.cpp'], [('InitHook, ExecuteSingleImpl', 'wait.cpp'), ('CheckCondition', 'wait_for_variable.cpp'), ('ConvertToTimeoutNanoseconds', 'instruction_utils.cpp')],
  'Client programs execute, halt and reset each instruction while the environment decides how time passes and what variables answer; every path equals the reference.')
P('C21', 'Comparison instructions decide exactly their relation', 'A comparison instruction succeeds exactly when both operands could be read and the left one stands in the stated relation to the right one; operands that have no order, that cannot be read or that are missing make it fail. It writes nothing.',
  ['inputs', 'configurations'], 'every outcome of comparing two values, including unordered, and every way operands can be missing', 'Tests compare a few numbers and structures.',
  ['equals.cpp', 'greaterthan.cpp', 'greaterthanorequal.cpp', 'lessthan.cpp', 'lessthanorequal.cpp'], [('ExecuteSingleImpl', 'equals.cpp'), ('ExecuteSingleImpl', 'lessthanorequal.cpp')],
  'Client programs run each comparison with real attribute handling for every combination of operands and every result of the comparison; status and effects of every path equal the reference.')
P('C22', 'Variables answer only while set up, under their lock', 'Every operation on a variable runs under that variable\'s own mutex, so that no two threads operate on one concrete variable or on its state at the same time. Reading, writing and asking for availability reach the concrete variable exactly when the variable is set up and answer false otherwise; setting up and resetting reach it exactly once each, and a failed write or read leaves the caller\'s value and the result consistent.',
  ['histories', 'schedules', 'inputs'], 'every sequence of operations on a variable, every answer of the concrete variable, any thread', 'Tests use two concrete variables from one thread.',
  ['variable.cpp', 'variable.h'], [('GetValue, SetValue, IsAvailable, Setup, Reset, Notify', 'variable.cpp')],
  'Client programs with an arbitrary concrete variable: the trace of results, of calls into the concrete variable with their values, and of the mutexes held meanwhile must equal the reference on every path.')
P('C23', 'Variable updates are stored and reported faithfully', 'A local or file variable takes over a written value exactly when its configuration allows that value, and a read then returns what was stored last; every accepted update is notified once with the new value, and no refused one is. The workspace passes a notification on to the callbacks with the name of the variable. Waiting for a variable ends with success once it has the requested availability, misses no update, and leaves no callback behind.',
  ['histories', 'schedules', 'inputs'], 'every configuration of the attributes, every sequence of reads and writes, updates from another thread at any moment', 'Tests write a few values to a few configurations; an update that arrives while a waiting thread checks is not tested.',
  ['local_variable.cpp', 'file_variable.cpp', 'workspace.cpp'], [('SetValueImpl, GetValueImpl', 'local_variable.cpp'), ('SetValueImpl', 'file_variable.cpp'), ('VariableUpdated, WaitForVariable', 'workspace.cpp')],
  'Client programs with every outcome of parsing, conversion and file access: results, stored values and notifications of every path equal the reference; for waiting, updates arrive at every point where the other thread can run.')
P('C24', 'Workspace keeps names unique and balances setup', 'A workspace refuses names already used, finds a variable by its name and addresses the field after the first separator of a longer name. Setup sets up every variable once and then runs each distinct setup action once, reports a failing variable, and does nothing when repeated; teardown runs each due teardown action exactly once and then tears down every variable, after which setup is possible again; destruction runs the teardown actions still due.',
  ['histories', 'inputs'], 'every sequence of setups and teardowns, every answer of the variables, every combination of actions', 'Tests set up and tear down once with variables that succeed.',
  ['workspace.cpp', 'setup_teardown_actions.h'], [('AddVariable, GetValue, SetValue, Setup, Teardown', 'workspace.cpp'), ('SetupTeardownActions', 'setup_teardown_actions.h')],
  'Client programs add, look up and address variables, set up and tear down for every answer of the variables and combination of actions; every path equals the reference.')
P('C27', 'Input requests are answered in order, each exactly once', 'Every request for user input gets exactly the reply that the input function gave for that request: requests are handed to the input function one at a time and in the order they were made, and a reply is taken by the caller once. A cancelled request is never answered to anyone; if its input is being asked for, the input function is told to stop, and its late reply is thrown away. Waiting for a reply ends as soon as the reply is there or the adapter is destroyed, and a reply that is not there is refused, never made up.',
  ['schedules', 'histories'], 'every sequence of requests, waits, takes and cancellations, every point at which the handler thread can run between them, any reply', 'Tests make one or two requests and answer them at once.',
  ['async_input_adapter.cpp', 'async_input_adapter.h', 'i_user_input_future.h'], [('AddUserInputRequest, GetReply, CancelInputRequest, HandleRequest', 'async_input_adapter.cpp')],
  'Client programs add, poll, take, cancel and destroy requests while the handler thread is run at every point where it can; the requests handed on, the replies delivered and the cancellations passed on equal those of a reference queue on every path.')
P('C45', 'Instructions share nothing unlocked between threads', 'Halting an instruction or asking for its status, which any thread may do at any time, touches nothing that executing or resetting it on the job thread changes, except under a common mutex or atomically. Together with that, no instruction member is destroyed or replaced by the job thread while a halt may be using it.',
  ['schedules'], 'every instruction type, every pair of an operation any thread may call and one of the job thread', 'The window is a few instructions wide; tests halt long after execution began.',
  ['instruction.cpp', 'user_choice.cpp', 'user_confirmation.cpp', 'input.cpp', 'wait.cpp'], [('Halt, GetStatus, ExecuteSingle', 'instruction.cpp'), ('HaltImpl, ResetHook', 'user_choice.cpp')],
  'For each instruction type, the members of the object that every path of those operations reads or writes, each with the set of mutexes held; a conflicting pair needs a common mutex or an atomic member.')
P('C46', 'Shared state stays under its lock and waiters are woken', 'In every class that synchronises threads, each member that changes is accessed only under the mutex that protects it. A thread that waits does so holding that mutex and rechecks its condition, and whoever makes the condition true wakes it, every waiter where several may wait. A thread owned by an object ends before the members it uses are destroyed.',
  ['schedules'], 'every class with a mutex, condition variable or thread, every entry point, every path', 'A missing lock or wake-up shows only in rare interleavings.',
  ['async_runner.cpp', 'async_input_adapter.cpp', 'application_utils.cpp', 'job_command_queue.cpp', 'workspace.cpp', 'variable.cpp', 'async_wrapper.cpp'], [('LaunchJob, SendCommand', 'async_runner.cpp'), ('AsyncInputAdapter', 'async_input_adapter.cpp'), ('SimpleJobStateMonitor', 'application_utils.cpp')],
  'Lock sets at every member access on every path from every entry point; for each condition variable, the members its waits look at, and after each change of these on a path, a notification; order of members against thread ends in destructors.')
P('C33', 'Types are created under the name they are registered with', 'Every built-in instruction and variable is registered exactly once, under its own type name, and what is created under that name has that type and category. A registry creates, for every name, exactly what was registered under it first; it refuses a second registration of a name and the creation of an unknown one, and lists exactly the names it has.',
  ['inputs', 'histories'], 'every registered name, every sequence of registrations and creations over a few names up to a bound', 'Tests create a handful of the built-in types, and register one type twice.',
  ['instruction_registry.cpp', 'variable_registry.cpp'], [('RegisterInstruction, Create, RegisteredInstructionNames', 'instruction_registry.cpp'), ('RegisterVariable, Create, RegisteredVariableNames', 'variable_registry.cpp')],
  'Client programs enumerate the global registries and apply sequences of operations to registries of their own; names, types, categories and exceptions of every path equal the reference.')
P('C34', 'A procedure is what its file says', 'The procedure made from a tree of XML elements has the top instructions, children, variables, attributes, plugins and type registrations written there, in that order, and plugins are loaded before any instruction or variable is created. What is not a procedure, an unknown instruction or variable, a child where none can be, a variable without a name or with a name already used, or a type registration without exactly one source is refused by an exception. What is written from a procedure reads back as the same procedure.',
  ['inputs'], 'every tree of elements up to a size, with every kind of element and attribute, unreadable files and texts', 'Tests parse a few documents that are valid or have one error, and write two procedures.',
  ['procedure_parser.cpp', 'instruction_parser.cpp', 'variable_parser.cpp', 'sequence_parser.cpp', 'procedure_to_treedata_utils.cpp', 'procedure_preamble.cpp'], [('ParseProcedure, ParsePreamble, AddWorkspaceVariables', 'procedure_parser.cpp'), ('ParseInstruction, AddChildInstructions', 'instruction_parser.cpp'), ('ParseVariable', 'variable_parser.cpp'), ('ToTreeData', 'procedure_to_treedata_utils.cpp'), ('ParseProcedureFile, ParseProcedureString, GetXMLString', 'sequence_parser.cpp')],
  'A client program builds each tree of elements, makes a procedure from it, writes it and reads it again; instructions, variables, attributes, preamble, loaded plugins and exceptions of every path equal the reference.')
P('C35', 'Instructions in containers and trees', 'Whatever is inserted into or taken from a compound, a decorator, a leaf or a procedure, each instruction is in exactly one place, in the order asked for, refused insertions change nothing, and each instruction is destroyed exactly once. An instruction tree holds the children (or the next instructions) of each of its instructions and nothing else, and cannot be used to destroy what another tree holds. The index of an instruction or variable is one of the numbers from zero to their count, no two share one, and the descriptions of a job, their copies and their order by index agree with these indices and with the structure of the procedure.',
  ['inputs', 'histories'], 'every sequence of insertions, appends and removals at valid and invalid positions, every shape of tree and every choice of next instructions, every assignment of indices, up to a bound', 'Tests build two or three fixed trees and never copy or destroy them in unusual orders.',
  ['instruction.cpp', 'compound_instruction.cpp', 'decorator_instruction.cpp', 'instruction_tree.cpp', 'instruction_map.cpp', 'variable_map.cpp', 'job_map.cpp', 'instruction_info.cpp', 'instruction_info_utils.cpp', 'job_info.cpp', 'job_info_utils.cpp', 'procedure.cpp'], [('InsertInstruction, TakeInstruction, ChildInstructions', 'instruction.cpp'), ('CreateInstructionTree, GetLeaves, FlattenBFS', 'instruction_tree.cpp'), ('InitializeMap, GetReverseMap', 'instruction_map.cpp'), ('CreateInstructionInfoTree, CreateOrderedInstructionInfo, Flatten', 'instruction_info_utils.cpp'), ('PushInstruction, InsertInstruction, TakeInstruction', 'procedure.cpp')],
  'Client programs apply sequences of container operations and build every tree up to a size; contents, destructions, leaves, levels, indices and descriptions of every path equal the reference.')
P('C37', 'Procedure life cycle', 'Setting a procedure up checks its attributes, registers its types in order, sets up its variables and then its root instruction, and stops at the first failure. The root is the only top instruction or the one marked isRoot=true; without a root nothing runs. Resetting or destroying a procedure resets the root before any variable of it or of a procedure it includes is torn down, and leaves all of their variables set up again or torn down; an included procedure is parsed once, shared, and not handed out when its types cannot be registered.',
  ['histories', 'inputs'], 'every order of setup, execution, halt, reset and loading of an included procedure, every failure of a variable, type, attribute or root instruction, every combination of top instructions', 'Tests run the usual order setup, execute, reset once, with setups that succeed.',
  ['procedure.cpp', 'procedure_store.cpp', 'procedure_context.cpp', 'workspace.cpp'], [('Setup, Reset, Teardown, RootInstruction, SetupPreamble', 'procedure.cpp'), ('LoadProcedure, ResetProcedureWorkspaces, TearDownProcedures', 'procedure_store.cpp')],
  'A client program drives a procedure and an included one with variables and instructions of unknown behaviour; every path has the events of the reference, in an order that only permutes independent workspaces.')
P('C38', 'Instructions that use another procedure', 'An including instruction looks its file up relative to the including procedure, clones the instruction at the given path (or the root) with all its attributes and children, gives every placeholder the value of the attribute it names, passes further attributes on to nested includes, sets the clone up with the included procedure and runs it in that procedure\'s workspace (IncludeProcedure) or the caller\'s (Include). A file, path or placeholder that does not exist is reported by an exception before anything runs. Copying from or to a procedure reads and writes exactly the named variables of the two workspaces.',
  ['inputs', 'histories'], 'every kind of path, file and placeholder, nested includes, repeated setups and resets, every failure of parsing, variables and setup', 'Tests include files of the test directory that work; wrong paths, nested placeholders and failing setups are sampled only.',
  ['include.cpp', 'include_procedure.cpp', 'copy_from_procedure.cpp', 'copy_to_procedure.cpp', 'instruction_helper.cpp', 'procedure_context.cpp', 'procedure.cpp'], [('SetupImpl, ExecuteSingleImpl, PostInitialiseVariables', 'include.cpp'), ('SetupImpl, ExecuteSingleImpl, PostInitialiseVariables', 'include_procedure.cpp'), ('FindInstruction, CloneInstruction, InitialisePlaceholderAttributes', 'instruction_helper.cpp'), ('CloneInstructionPath, GetWorkspace', 'procedure_context.cpp'), ('ResolveRelativePath, GetFullPathName, GetFileDirectory', 'procedure.cpp')],
  'Client programs set up and run each instruction with real attributes against a procedure whose parsing, variables and instructions behave arbitrarily; files parsed, setups, executions, workspaces and exceptions of every path equal the reference.')
P('C44', 'Asking instructions wait for one answer and act on it', 'An instruction that asks the user makes exactly one request per run, with the texts, options and value its attributes denote, and fails at once when these cannot be read or the request is refused. It keeps running, without blocking, until the reply is there, takes the reply once, and then succeeds, fails, stores or selects exactly as the reply says. A halt or a reset, or the end of the instruction, withdraws the request, even while a reply is being polled.',
  ['schedules', 'histories', 'inputs'], 'every order of executing, halting and resetting, every reply at every time, a halt by another thread during any poll, every kind of attribute', 'Tests answer at once, with valid replies; halts during a poll and replies out of range are not tested.',
  ['input.cpp', 'user_confirmation.cpp', 'user_choice.cpp', 'user_interface.cpp'], [('InitHook, PollInputFuture, HaltImpl', 'input.cpp'), ('PollInputFuture', 'user_confirmation.cpp'), ('ExecuteSingleImpl, ResetHook', 'user_choice.cpp'), ('CreateUserValueFuture, CreateUserChoiceFuture', 'user_interface.cpp')],
  'Client programs execute, halt and reset each instruction with real attributes against an arbitrary user; requests made, replies taken, values written, requests alive and status of every path equal the reference.')
