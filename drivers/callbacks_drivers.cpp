// Client functions that the abstract interpreter analyses together with the library sources: each one is a
// tiny "any user program" over the public API.  They are never compiled into a binary and never run.
#include <sup/oac-tree/named_callback_manager.h>

#include <exception>
#include <functional>
#include <string>
#include <utility>
#include <vector>

template class sup::oac_tree::NamedCallbackManager<int>;
template class sup::oac_tree::NamedCallbackManager<>;
template class sup::oac_tree::NamedCallbackManager<const std::string&, bool>;

namespace oacdrv
{
using namespace sup::oac_tree;
using Fn = std::function<void()>;

// ---- named callbacks
using Mgr = NamedCallbackManager<int>;
using Cb = std::function<void(int)>;
using Gcb = std::function<void(const std::string&, int)>;

void NcmExecute(const std::string& n1, const std::string& n2, const std::string& q, Cb c1, Cb c2, void* l1, void* l2, int v)
{
  Mgr m;
  m.RegisterCallback(n1, c1, l1);
  m.RegisterCallback(n2, c2, l2);
  m.ExecuteCallbacks(q, v);
}
void NcmExecuteTwice(const std::string& n1, const std::string& q, Cb c1, void* l1, int v, int w)
{
  Mgr m;
  m.RegisterCallback(n1, c1, l1);
  m.ExecuteCallbacks(q, v);
  m.ExecuteCallbacks(q, w);
}
void NcmGeneric(const std::string& q, Gcb g1, Gcb g2, void* l1, void* l2, int v)
{
  Mgr m;
  m.RegisterGenericCallback(g1, l1);
  m.RegisterGenericCallback(g2, l2);
  m.ExecuteCallbacks(q, v);
}
void NcmMixed(const std::string& n1, const std::string& q, Cb c1, Gcb g1, void* l1, void* l2, int v)
{
  Mgr m;
  m.RegisterGenericCallback(g1, l1);
  m.RegisterCallback(n1, c1, l2);
  m.ExecuteCallbacks(q, v);
}
bool NcmRegister(const std::string& n1, Cb c1, void* l1)
{
  Mgr m;
  return m.RegisterCallback(n1, c1, l1);
}
bool NcmRegisterGeneric(Gcb g1, void* l1)
{
  Mgr m;
  return m.RegisterGenericCallback(g1, l1);
}
void NcmUnregister(const std::string& q, Cb c1, Cb c2, Cb c3, void* l1, void* l2, void* l3, void* u, int v)
{
  Mgr m;
  m.RegisterCallback(q, c1, l1);
  m.RegisterCallback(q, c2, l2);
  m.RegisterCallback(q, c3, l3);
  m.UnregisterListener(u);
  m.ExecuteCallbacks(q, v);
}
void NcmUnregisterGeneric(const std::string& q, Gcb g1, Gcb g2, Cb c1, void* l1, void* l2, void* l3, void* u, int v)
{
  Mgr m;
  m.RegisterGenericCallback(g1, l1);
  m.RegisterGenericCallback(g2, l2);
  m.RegisterCallback(q, c1, l3);
  m.UnregisterListener(u);
  m.ExecuteCallbacks(q, v);
}
bool NcmUnregisterResult(const std::string& q, Gcb g1, Cb c1, void* l1, void* l2, void* u)
{
  Mgr m;
  m.RegisterGenericCallback(g1, l1);
  m.RegisterCallback(q, c1, l2);
  return m.UnregisterListener(u);
}
bool NcmUnregisterTwice(const std::string& q, Cb c1, void* l1)
{
  Mgr m;
  m.RegisterCallback(q, c1, l1);
  m.UnregisterListener(l1);
  return m.UnregisterListener(l1);
}
void NcmGuard(const std::string& q, Cb c1, Gcb g1, void* l1, void* l2, void* u, int v, int w)
{
  Mgr m;
  m.RegisterCallback(q, c1, l1);
  m.RegisterGenericCallback(g1, l2);
  {
    auto guard = m.GetCallbackGuard(u);
    m.ExecuteCallbacks(q, v);
  }
  m.ExecuteCallbacks(q, w);
}
void NcmNoArgs(const std::string& n1, const std::string& q, std::function<void()> c1, void* l1)
{
  NamedCallbackManager<> m;
  m.RegisterCallback(n1, c1, l1);
  m.ExecuteCallbacks(q);
}

}  // namespace oacdrv
