// Client programs: the queue of user input requests. The handler thread runs when the program (or a client that
// waits) says so; what other clients do while a request is being handled is part of the program.
#include "probe.h"

#include <sup/dto/anytype.h>
#include <sup/dto/anyvalue.h>

#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>

#include <map>

namespace oacdrv
{
int Op(int k);
std::string Text(int k);
void SeenText(int what, const std::string& text);
void SeenValue(int what, const sup::dto::AnyValue& value);
void RunThread();
void Kept(const AsyncInputAdapter& adapter);

class Bench
{
public:
  Bench() : m_calls{0}, m_futures{}, m_adapter{}
  {
    m_adapter = std::make_unique<AsyncInputAdapter>(
      [this](const UserInputRequest& request, sup::dto::uint64 id) { return Handle(request, id); },
      [this](sup::dto::uint64 id) { Interrupt(id); });
  }

  void Run(int at)
  {
    while (true)
    {
      const int op = Op(at++);
      if (op < 0)
      {
        return;
      }
      const int k = Op(at++);
      Mark(at);
      if ((op == 1 || op == 2 || op == 5) && !m_futures[k])
      {
        continue;
      }
      switch (op)
      {
      case 0:
      {
        UserInputRequest request{InputRequestType::kUserValue, sup::dto::AnyValue(Text(k)), sup::dto::StringType};
        m_futures[k] = m_adapter->AddUserInputRequest(request);
        SeenInt(0, m_futures[k]->GetId());
        break;
      }
      case 1:
        SeenBool(1, m_futures[k]->IsValid());
        SeenBool(2, m_futures[k]->IsReady());
        break;
      case 2:
        try
        {
          auto reply = m_futures[k]->GetValue();
          SeenBool(3, reply.m_request_type == InputRequestType::kUserValue);
          SeenBool(4, reply.m_result);
          SeenValue(5, reply.m_payload);
        }
        catch (const InvalidOperationException&)
        {
          SeenInt(6, k);
        }
        break;
      case 3:
        m_futures[k].reset();
        break;
      case 4:
        RunThread();
        break;
      case 5:
        SeenBool(7, m_futures[k]->WaitFor(1.0));
        break;
      case 7:
        Kept(*m_adapter);
        break;
      default:
        m_adapter.reset();
        break;
      }
    }
  }

private:
  int m_calls;
  std::map<int, std::unique_ptr<IUserInputFuture>> m_futures;
  std::unique_ptr<AsyncInputAdapter> m_adapter;

  UserInputReply Handle(const UserInputRequest& request, sup::dto::uint64 id)
  {
    const int call = m_calls++;
    SeenInt(10, id);
    SeenValue(11, request.m_meta_data);
    Run(Op(1 + call));
    SeenInt(12, id);
    return {InputRequestType::kUserValue, true, request.m_meta_data};
  }

  void Interrupt(sup::dto::uint64 id)
  {
    SeenInt(13, id);
  }
};

void InputQueue()
{
  Bench bench;
  bench.Run(Op(0));
  Mark(0);
}
}  // namespace oacdrv
