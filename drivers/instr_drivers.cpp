// Client programs: instructions with children of unknown behaviour (analysed, never run).
#include "probe.h"

#include <type_traits>

#include <sup/oac-tree/instructions/async.h>
#include <sup/oac-tree/instructions/choice.h>
#include <sup/oac-tree/instructions/fallback.h>
#include <sup/oac-tree/instructions/for.h>
#include <sup/oac-tree/instructions/force_success.h>
#include <sup/oac-tree/instructions/include.h>
#include <sup/oac-tree/instructions/inverter.h>
#include <sup/oac-tree/instructions/listen.h>
#include <sup/oac-tree/instructions/parallel_sequence.h>
#include <sup/oac-tree/instructions/reactive_fallback.h>
#include <sup/oac-tree/instructions/reactive_sequence.h>
#include <sup/oac-tree/instructions/repeat.h>
#include <sup/oac-tree/instructions/sequence.h>
#include <sup/oac-tree/instructions/user_choice.h>

namespace oacdrv
{
// ---- the base class: a leaf through its whole life
class SeeingUi : public DefaultUserInterface
{
public:
  void UpdateInstructionStatus(const Instruction* instruction) override
  {
    Seen(200, instruction->GetStatus());
  }
};
void ProbeNotify(Workspace& ws)
{
  SeeingUi ui;
  Probe p{0};
  for (int k = 0; k < 3; ++k)
  {
    p.ExecuteSingle(ui, ws);
    Seen(1, p.GetStatus());
  }
  p.Reset(ui);
  Seen(1, p.GetStatus());
  p.Reset(ui);
  Seen(1, p.GetStatus());
}
void ProbeLife(UserInterface& ui, Workspace& ws)
{
  Probe p{0};
  Seen(0, p.GetStatus());
  p.ExecuteSingle(ui, ws);
  Seen(1, p.GetStatus());
  p.ExecuteSingle(ui, ws);
  Seen(2, p.GetStatus());
  p.Reset(ui);
  Seen(3, p.GetStatus());
  p.ExecuteSingle(ui, ws);
  Seen(4, p.GetStatus());
}
void ProbeHalt(UserInterface& ui, Workspace& ws)
{
  Probe p{0};
  SeenBool(0, p.IsHaltRequested());
  if (Choose(0))
  {
    p.ExecuteSingle(ui, ws);
  }
  Seen(0, p.GetStatus());
  p.Halt();
  SeenBool(1, p.IsHaltRequested());
  p.ExecuteSingle(ui, ws);
  Seen(1, p.GetStatus());
  p.Reset(ui);
  SeenBool(2, p.IsHaltRequested());
  Seen(2, p.GetStatus());
  p.ExecuteSingle(ui, ws);
  Seen(3, p.GetStatus());
}

inline void Statuses(const Instruction& s)
{
  Seen(100, s.GetStatus());
  for (auto c : s.ChildInstructions())
  {
    Seen(101, c->GetStatus());
  }
}

inline void Next(const Instruction& s)
{
  for (auto c : s.NextInstructions())
  {
    SeenPtr(0, c);
  }
}

inline void Prime(Instruction& s, UserInterface& ui, Workspace& ws)
{
  int i = 0;
  for (auto c : s.ChildInstructions())
  {
    if (Choose(i))
    {
      c->ExecuteSingle(ui, ws);
    }
    ++i;
  }
  Mark(0);
}

// ---- one tick from every combination of statuses of the children
template <class T, int N>
void TickFromAny(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    Add(s, i);
  }
  Prime(s, ui, ws);
  Next(s);
  Mark(1);
  s.ExecuteSingle(ui, ws);
  Statuses(s);
}
// ---- a run from the start, with a reset in the middle
template <class T, int N, int K>
void RunTicks(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    Add(s, i);
  }
  for (int k = 0; k < K; ++k)
  {
    s.ExecuteSingle(ui, ws);
    Statuses(s);
  }
}
// ---- halt and reset from every combination of statuses of the children
template <class T, int N>
void HaltReset(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    Add(s, i);
  }
  Prime(s, ui, ws);
  s.Halt();
  SeenBool(0, s.IsHaltRequested());
  for (auto c : s.ChildInstructions())
  {
    SeenBool(1, c->IsHaltRequested());
  }
  Mark(1);
  s.Reset(ui);
  SeenBool(2, s.IsHaltRequested());
  for (auto c : s.ChildInstructions())
  {
    SeenBool(3, c->IsHaltRequested());
  }
  Statuses(s);
}
// a second halt after the children were reset
template <class T, int N>
void HaltTwice(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    Add(s, i);
  }
  s.Halt();
  for (auto c : s.ChildInstructions())
  {
    c->Reset(ui);
  }
  Mark(1);
  s.Halt();
  for (auto c : s.ChildInstructions())
  {
    SeenBool(1, c->IsHaltRequested());
  }
  Mark(2);
  s.Reset(ui);
  s.Halt();
  for (auto c : s.ChildInstructions())
  {
    SeenBool(2, c->IsHaltRequested());
  }
}
template <class T, int N>
void ResetAny(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    Add(s, i);
  }
  Prime(s, ui, ws);
  if (Choose(100))
  {
    s.ExecuteSingle(ui, ws);
  }
  Mark(1);
  s.Reset(ui);
  Statuses(s);
}

#define OAC_COMPOUND(T)                                                                   \
  void T##Tick1(UserInterface& ui, Workspace& ws) { TickFromAny<T, 1>(ui, ws); }          \
  void T##Tick2(UserInterface& ui, Workspace& ws) { TickFromAny<T, 2>(ui, ws); }          \
  void T##Tick3(UserInterface& ui, Workspace& ws) { TickFromAny<T, 3>(ui, ws); }          \
  void T##Run2(UserInterface& ui, Workspace& ws) { RunTicks<T, 2, 3>(ui, ws); }           \
  void T##Halt2(UserInterface& ui, Workspace& ws) { HaltReset<T, 2>(ui, ws); }            \
  void T##HaltTwice2(UserInterface& ui, Workspace& ws) { HaltTwice<T, 2>(ui, ws); }            \
  void T##Reset2(UserInterface& ui, Workspace& ws) { ResetAny<T, 2>(ui, ws); }
#define OAC_DECORATOR(T)                                                                  \
  void T##Tick1(UserInterface& ui, Workspace& ws) { TickFromAny<T, 1>(ui, ws); }          \
  void T##Run1(UserInterface& ui, Workspace& ws) { RunTicks<T, 1, 3>(ui, ws); }           \
  void T##Halt1(UserInterface& ui, Workspace& ws) { HaltReset<T, 1>(ui, ws); }            \
  void T##HaltTwice1(UserInterface& ui, Workspace& ws) { HaltTwice<T, 1>(ui, ws); }            \
  void T##Reset1(UserInterface& ui, Workspace& ws) { ResetAny<T, 1>(ui, ws); }

// ---- a composite as the first child of another one, from the start
template <class T, class U, int K>
void RunNested(UserInterface& ui, Workspace& ws)
{
  T s;
  auto inner = std::make_unique<U>();
  auto* sub = inner.get();
  Add(*inner, 0);
  if constexpr (!std::is_base_of<DecoratorInstruction, U>::value)
  {
    Add(*inner, 1);
  }
  s.InsertInstruction(std::move(inner), 0);
  if constexpr (!std::is_base_of<DecoratorInstruction, T>::value)
  {
    auto last = std::make_unique<Probe>(2);
    s.InsertInstruction(std::move(last), 1);
  }
  for (int k = 0; k < K; ++k)
  {
    s.ExecuteSingle(ui, ws);
    Statuses(s);
    Statuses(*sub);
  }
}
#define OAC_NESTED(T)                                                                                                 \
  void T##OfSequence(UserInterface& ui, Workspace& ws) { RunNested<T, Sequence, 3>(ui, ws); }                         \
  void T##OfFallback(UserInterface& ui, Workspace& ws) { RunNested<T, Fallback, 3>(ui, ws); }                         \
  void T##OfReactiveSequence(UserInterface& ui, Workspace& ws) { RunNested<T, ReactiveSequence, 3>(ui, ws); }         \
  void T##OfReactiveFallback(UserInterface& ui, Workspace& ws) { RunNested<T, ReactiveFallback, 3>(ui, ws); }         \
  void T##OfInverter(UserInterface& ui, Workspace& ws) { RunNested<T, Inverter, 3>(ui, ws); }                         \
  void T##OfForceSuccess(UserInterface& ui, Workspace& ws) { RunNested<T, ForceSuccess, 3>(ui, ws); }
OAC_NESTED(Sequence)
OAC_NESTED(Fallback)
OAC_NESTED(ReactiveSequence)
OAC_NESTED(ReactiveFallback)
OAC_NESTED(Inverter)
OAC_NESTED(ForceSuccess)

OAC_COMPOUND(Sequence)
OAC_COMPOUND(Fallback)
OAC_COMPOUND(ReactiveSequence)
OAC_COMPOUND(ReactiveFallback)
OAC_DECORATOR(Include)
OAC_DECORATOR(Inverter)
OAC_DECORATOR(ForceSuccess)
void RepeatHalt1(UserInterface& ui, Workspace& ws) { HaltReset<Repeat, 1>(ui, ws); }
void RepeatHaltTwice1(UserInterface& ui, Workspace& ws) { HaltTwice<Repeat, 1>(ui, ws); }

// ---- children ticked on other threads: only the status of the composite itself is meaningful meanwhile
template <class T, int N, int K>
void AsyncTicks(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    AddPlain(s, i);
  }
  Prime(s, ui, ws);
  for (auto c : s.NextInstructions())
  {
    SeenPtr(0, c);
  }
  for (int k = 0; k < K; ++k)
  {
    s.ExecuteSingle(ui, ws);
    Seen(100, s.GetStatus());
    SeenBool(0, s.IsHaltRequested());
  }
}
template <class T, int N, int K>
void AsyncReset(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    AddPlain(s, i);
  }
  for (int k = 0; k < K; ++k)
  {
    s.ExecuteSingle(ui, ws);
  }
  Mark(1);
  s.Reset(ui);
  Mark(2);
  Statuses(s);
  for (auto c : s.ChildInstructions())
  {
    SeenBool(3, c->IsHaltRequested());
  }
  s.ExecuteSingle(ui, ws);
  Seen(100, s.GetStatus());
}
void AsyncTick1(UserInterface& ui, Workspace& ws) { AsyncTicks<Async, 1, 1>(ui, ws); }
void AsyncRun1(UserInterface& ui, Workspace& ws) { AsyncTicks<Async, 1, 3>(ui, ws); }
void AsyncReset1(UserInterface& ui, Workspace& ws) { AsyncReset<Async, 1, 1>(ui, ws); }
void AsyncReset2(UserInterface& ui, Workspace& ws) { AsyncReset<Async, 1, 2>(ui, ws); }
void AsyncHalt1(UserInterface& ui, Workspace& ws) { HaltReset<Async, 1>(ui, ws); }
void AsyncHaltTwice1(UserInterface& ui, Workspace& ws) { HaltTwice<Async, 1>(ui, ws); }
void ParallelTick1(UserInterface& ui, Workspace& ws) { AsyncTicks<ParallelSequence, 1, 1>(ui, ws); }
void ParallelTick2(UserInterface& ui, Workspace& ws) { AsyncTicks<ParallelSequence, 2, 1>(ui, ws); }
void ParallelTick3(UserInterface& ui, Workspace& ws) { AsyncTicks<ParallelSequence, 3, 1>(ui, ws); }
void ParallelRun1(UserInterface& ui, Workspace& ws) { AsyncTicks<ParallelSequence, 1, 3>(ui, ws); }
void ParallelRun2(UserInterface& ui, Workspace& ws) { AsyncTicks<ParallelSequence, 2, 2>(ui, ws); }
void ParallelReset0(UserInterface& ui, Workspace& ws) { AsyncReset<ParallelSequence, 2, 0>(ui, ws); }
void ParallelReset1(UserInterface& ui, Workspace& ws) { AsyncReset<ParallelSequence, 2, 1>(ui, ws); }
void ParallelReset2(UserInterface& ui, Workspace& ws) { AsyncReset<ParallelSequence, 1, 2>(ui, ws); }
void ParallelHalt2(UserInterface& ui, Workspace& ws) { HaltReset<ParallelSequence, 2>(ui, ws); }
void ParallelHaltTwice2(UserInterface& ui, Workspace& ws) { HaltTwice<ParallelSequence, 2>(ui, ws); }

template <class T, int N, int K>
void LongRun(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    AddPlain(s, i);
  }
  for (int k = 0; k < K; ++k)
  {
    for (auto c : s.NextInstructions())
    {
      SeenPtr(0, c);
    }
    Mark(1);
    s.ExecuteSingle(ui, ws);
    Statuses(s);
  }
  Mark(2);
  s.Reset(ui);
  Statuses(s);
  s.ExecuteSingle(ui, ws);
  Statuses(s);
}
template <class T, int N>
void HaltRun(UserInterface& ui, Workspace& ws)
{
  T s;
  for (int i = 0; i < N; ++i)
  {
    AddPlain(s, i);
  }
  s.ExecuteSingle(ui, ws);
  s.ExecuteSingle(ui, ws);
  Mark(1);
  s.Halt();
  s.ExecuteSingle(ui, ws);
  Statuses(s);
  for (auto c : s.ChildInstructions())
  {
    SeenBool(1, c->IsHaltRequested());
  }
}
void ForRun(UserInterface& ui, Workspace& ws) { LongRun<ForInstruction, 1, 4>(ui, ws); }
void ForHalt1(UserInterface& ui, Workspace& ws) { HaltReset<ForInstruction, 1>(ui, ws); }
void ForHaltTwice1(UserInterface& ui, Workspace& ws) { HaltTwice<ForInstruction, 1>(ui, ws); }
void ListenRun(UserInterface& ui, Workspace& ws) { LongRun<Listen, 1, 3>(ui, ws); }
void ListenRun2(UserInterface& ui, Workspace& ws) { LongRun<Listen, 1, 1>(ui, ws); }
void ListenHalt1(UserInterface& ui, Workspace& ws) { HaltReset<Listen, 1>(ui, ws); }
void ListenHaltTwice1(UserInterface& ui, Workspace& ws) { HaltTwice<Listen, 1>(ui, ws); }
void ChoiceRun(UserInterface& ui, Workspace& ws) { LongRun<Choice, 2, 4>(ui, ws); }
void ChoiceHalt2(UserInterface& ui, Workspace& ws) { HaltReset<Choice, 2>(ui, ws); }
void ChoiceHaltTwice2(UserInterface& ui, Workspace& ws) { HaltTwice<Choice, 2>(ui, ws); }
void UserChoiceRun(UserInterface& ui, Workspace& ws) { LongRun<UserChoice, 2, 3>(ui, ws); }
void UserChoiceHalt2(UserInterface& ui, Workspace& ws) { HaltReset<UserChoice, 2>(ui, ws); }
void UserChoiceHaltTwice2(UserInterface& ui, Workspace& ws) { HaltTwice<UserChoice, 2>(ui, ws); }
void UserChoiceHaltRun(UserInterface& ui, Workspace& ws) { HaltRun<UserChoice, 2>(ui, ws); }

void RepeatRun(UserInterface& ui, Workspace& ws)
{
  Repeat s;
  AddPlain(s, 0);
  for (int k = 0; k < 4; ++k)
  {
    s.ExecuteSingle(ui, ws);
    Statuses(s);
  }
  s.Reset(ui);
  Statuses(s);
  s.ExecuteSingle(ui, ws);
  Statuses(s);
}
}  // namespace oacdrv
