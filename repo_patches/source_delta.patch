From d78ed1b774fc73d65a83e23400398e7e7901f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 01/12] fix: halt the children of UserChoice

UserChoice::HaltImpl only dropped the pending user request; a child that was
executing (e.g. a blocking Wait) never saw the halt request.
---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..b6a41c1 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -110,6 +110,7 @@ void UserChoice::ResetHook(UserInterface& ui)
 void UserChoice::HaltImpl()
 {
   m_future.reset();
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From 4860cee0e8c25050be84cc838a9605ddbcea18ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 02/12] fix: forget the breakpoint of an earlier execution

Runner kept reporting the instructions of the last breakpoint hit. After
stepping over a breakpoint, a resumed job that then finished was reported as
paused, and could neither be waited for nor reset.
---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From 26b9ec817266c6c1b2c957307e2ecf7d9a63d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 03/12] fix: Variable changes whether it is usable only while
 holding its access mutex

---
 src/lib/sup/oac-tree/variable.h             |  8 ++++++++
 src/lib/sup/oac-tree/variables/variable.cpp | 11 +++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/variable.h b/src/lib/sup/oac-tree/variable.h
index ab64996..5a7b93e 100644
--- a/src/lib/sup/oac-tree/variable.h
+++ b/src/lib/sup/oac-tree/variable.h
@@ -361,6 +361,14 @@ private:
    * @note Private virtual implementation.
    */
   virtual void TeardownImpl();
+
+  /**
+   * @brief Mark the variable as usable or not for GetValue, SetValue and IsAvailable.
+   *
+   * @details Taking the lock here ensures that no other thread is still using the variable while
+   * its (re)setup or teardown is in progress.
+   */
+  void SetUsable(bool usable);
 };
 
 /**
diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..da40052 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -76,6 +76,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  SetUsable(false);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -83,7 +84,7 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
     throw VariableSetupException(error_message);
   }
   auto actions = SetupImpl(ws);
-  m_setup_successful = true;
+  SetUsable(true);
   return actions;
 }
 
@@ -166,9 +167,9 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  SetUsable(false);
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
-  m_setup_successful = false;
 }
 
 bool Variable::HasAttribute(const std::string &name) const
@@ -237,6 +238,12 @@ void Variable::ResetImpl(const Workspace& ws)
 void Variable::TeardownImpl()
 {}
 
+void Variable::SetUsable(bool usable)
+{
+  std::lock_guard<std::mutex> lk(m_access_mutex);
+  m_setup_successful = usable;
+}
+
 std::string VariableSetupExceptionProlog(const Variable& variable)
 {
   auto var_name = variable.GetName();
-- 
2.43.0


From 9551b56a0c4ed23352da8baf7b733e523e1c6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 04/12] fix: WaitForVariable does not miss an update that
 arrives while it checks the variable

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 24 ++++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..1a95ddc 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <set>
 #include <mutex>
@@ -164,16 +165,29 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
-      return it->second->IsAvailable() == availability;
-    });
+  const auto start = std::chrono::steady_clock::now();
+  std::chrono::duration<double> elapsed{0.0};
+  do
+  {
+    // Not under the mutex: an update may come in from a thread that is using the variable.
+    if (it->second->IsAvailable() == availability)
+    {
+      return true;
+    }
+    std::unique_lock<std::mutex> lk(mx);
+    cv.wait_for(lk, timeout_duration - elapsed, [&updated]{ return updated; });
+    updated = false;
+    elapsed = std::chrono::steady_clock::now() - start;
+  } while (elapsed < timeout_duration);
   return it->second->IsAvailable() == availability;
 }
 
-- 
2.43.0


From dea13015b11a9920ca27f9d75d35898b24b7c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 05/12] fix: reject NaN as a timeout

---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..e0f873d 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,8 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  // Written such that NaN is also rejected.
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From 8934285ed8ab365f6525f3edb7a1c4a28221e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 06/12] fix: halting an instruction that waits for user input
 no longer drops the future that is being polled

Halt() may be called from another thread, or by a parallel sequence whose threshold is reached, while the
instruction polls its future: the future was destroyed under its user.
---
 src/lib/sup/oac-tree/instructions/input.cpp   | 33 ++++++++++++++-----
 src/lib/sup/oac-tree/instructions/input.h     | 11 +++++--
 .../sup/oac-tree/instructions/user_choice.cpp | 28 ++++++++++++----
 .../sup/oac-tree/instructions/user_choice.h   | 10 +++++-
 .../instructions/user_confirmation.cpp        | 33 ++++++++++++++-----
 .../oac-tree/instructions/user_confirmation.h | 13 ++++++--
 6 files changed, 101 insertions(+), 27 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..fbb264d 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -37,6 +37,7 @@ const std::string Input::Type = "Input";
 
 Input::Input()
   : Instruction(Input::Type)
+  , m_future_mutex{}
   , m_future{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
@@ -59,21 +60,23 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserValueFuture(ui, *this, value, description);
+  if (!future)
   {
     return false;
   }
+  SetFuture(std::move(future));
   return true;
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = GetFuture();
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
-  return PollInputFuture(ui, ws);
+  return PollInputFuture(ui, ws, *future);
 }
 
 void Input::ResetHook(UserInterface& ui)
@@ -83,16 +86,17 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  SetFuture(nullptr);
 }
 
-ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
+ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws,
+                                       IUserInputFuture& future)
 {
-  if (!m_future->IsReady())
+  if (!future.IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
-  auto reply = m_future->GetValue();
+  auto reply = future.GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
@@ -110,6 +114,19 @@ ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
   return ExecutionStatus::SUCCESS;
 }
 
+void Input::SetFuture(std::shared_ptr<IUserInputFuture> future)
+{
+  // Any previous future is destroyed after the mutex is released
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future.swap(future);
+}
+
+std::shared_ptr<IUserInputFuture> Input::GetFuture() const
+{
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  return m_future;
+}
+
 }  // namespace oac_tree
 
 }  // namespace sup
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..a2cbce8 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -48,7 +49,9 @@ public:
   static const std::string Type;
 
 private:
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Halt() may drop the future from another thread while it is being polled
+  mutable std::mutex m_future_mutex;
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
@@ -58,7 +61,11 @@ private:
 
   void HaltImpl() override;
 
-  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws);
+  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws, IUserInputFuture& future);
+
+  void SetFuture(std::shared_ptr<IUserInputFuture> future);
+
+  std::shared_ptr<IUserInputFuture> GetFuture() const;
 };
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index b6a41c1..e40738f 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -35,6 +35,7 @@ const std::string UserChoice::Type = "UserChoice";
 UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
+  , m_future_mutex{}
   , m_future{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
@@ -55,27 +56,29 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  SetFuture(std::move(future));
   return true;
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = GetFuture();
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    if (!future->IsReady())
     {
       return ExecutionStatus::RUNNING;
     }
-    auto reply = m_future->GetValue();
+    auto reply = future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +112,7 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  SetFuture(nullptr);
   HaltChildren();
 }
 
@@ -128,6 +131,19 @@ std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
   return result;
 }
 
+void UserChoice::SetFuture(std::shared_ptr<IUserInputFuture> future)
+{
+  // Any previous future is destroyed after the mutex is released
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future.swap(future);
+}
+
+std::shared_ptr<IUserInputFuture> UserChoice::GetFuture() const
+{
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  return m_future;
+}
+
 std::vector<std::string> UserChoice::GetChoices() const
 {
   std::vector<std::string> option_names;
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..21e3ca8 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -49,7 +51,9 @@ public:
 
 private:
   sup::dto::int32 m_choice;
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Halt() may drop the future from another thread while it is being polled
+  mutable std::mutex m_future_mutex;
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
@@ -64,6 +68,10 @@ private:
   /**
    * @brief Construct a list of choices from the available child instructions.
    */
+  void SetFuture(std::shared_ptr<IUserInputFuture> future);
+
+  std::shared_ptr<IUserInputFuture> GetFuture() const;
+
   std::vector<std::string> GetChoices() const;
 };
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..50d25a2 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -36,6 +36,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
+  , m_future_mutex{}
   , m_future{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
@@ -69,21 +70,23 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  std::shared_ptr<IUserInputFuture> future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  SetFuture(std::move(future));
   return true;
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  auto future = GetFuture();
+  if (IsHaltRequested() || !future)
   {
     return ExecutionStatus::FAILURE;
   }
-  return PollInputFuture(ui, ws);
+  return PollInputFuture(ui, ws, *future);
 }
 
 void UserConfirmation::ResetHook(UserInterface& ui)
@@ -93,16 +96,17 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  SetFuture(nullptr);
 }
 
-ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
+ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws,
+                                                  IUserInputFuture& future)
 {
-  if (!m_future->IsReady())
+  if (!future.IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
-  auto reply = m_future->GetValue();
+  auto reply = future.GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
@@ -114,6 +118,19 @@ ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace&
   return choice == 0 ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;
 }
 
+void UserConfirmation::SetFuture(std::shared_ptr<IUserInputFuture> future)
+{
+  // Any previous future is destroyed after the mutex is released
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  m_future.swap(future);
+}
+
+std::shared_ptr<IUserInputFuture> UserConfirmation::GetFuture() const
+{
+  std::lock_guard<std::mutex> lk{m_future_mutex};
+  return m_future;
+}
+
 }  // namespace oac_tree
 
 }  // namespace sup
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..af541ae 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,9 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -43,7 +46,9 @@ public:
   static const std::string Type;
 
 private:
-  std::unique_ptr<IUserInputFuture> m_future;
+  // Halt() may drop the future from another thread while it is being polled
+  mutable std::mutex m_future_mutex;
+  std::shared_ptr<IUserInputFuture> m_future;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
@@ -53,7 +58,11 @@ private:
 
   void HaltImpl() override;
 
-  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws);
+  ExecutionStatus PollInputFuture(UserInterface& ui, Workspace& ws, IUserInputFuture& future);
+
+  void SetFuture(std::shared_ptr<IUserInputFuture> future);
+
+  std::shared_ptr<IUserInputFuture> GetFuture() const;
 };
 
 }  // namespace oac_tree
-- 
2.43.0


From 50085ea357cfe512f1ded61dbf473f5bf6f5e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 07/12] fix: SimpleJobStateMonitor wakes every waiting thread

With two threads in WaitForFinished() only one of them returned.
---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 73a9120ca47f7e813288fb172f4a13a845279b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 08/12] fix: AsyncInputAdapter wakes every thread that waits
 for a reply

With two futures waited for, the reply could wake the wrong waiter, and the right one returned only at its timeout.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..74aa2be 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From 36987f9e4950a66da085ffcb877ebe0d3e4e5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 09/12] fix: AsyncInputAdapter waits for its handler thread
 before its members are destroyed

The mutex and condition variables are declared after the future that joins the thread, so they were destroyed while
the thread could still use them.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 74aa2be..6317d03 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler thread uses members that are destroyed before its future
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From e1ac5a2ced5834a6ba0b1187a1e96e667025989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 10/12] fix: Procedure resets its instructions before their
 workspaces and included procedures are torn down

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..2b5daf6 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Asynchronous instructions may use the workspaces until they are reset
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,13 +319,18 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
+  // Asynchronous instructions may use the workspaces until they are reset
+  auto root = RootInstruction();
+  if (root != nullptr)
+  {
+    root->Reset(ui);  // instructions are reset instead of torn down.
+  }
   m_workspace->Teardown();
   m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  if (root == nullptr)
   {
     return;
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
   m_attribute_handler.ClearFailedConstraints();
 }
 
-- 
2.43.0


From 21bb5bc93e2a2148a3442d94c982fd263e17212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 11/12] fix: InstructionTree cannot be copied, since copies
 would delete the same children

---
 src/lib/sup/oac-tree/instruction_tree.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/instruction_tree.h b/src/lib/sup/oac-tree/instruction_tree.h
index 4d00f50..9e81e78 100644
--- a/src/lib/sup/oac-tree/instruction_tree.h
+++ b/src/lib/sup/oac-tree/instruction_tree.h
@@ -42,6 +42,11 @@ public:
 
   ~InstructionTree();
 
+  // The tree owns its children through plain pointers:
+  InstructionTree(const InstructionTree& other) = delete;
+  InstructionTree& operator=(const InstructionTree& other) = delete;
+  InstructionTree(InstructionTree&& other) = default;
+
   bool IsEmpty() const;
 
   const Instruction* GetInstruction() const;
-- 
2.43.0


From bc28956291955e0e5f2d608b99162bb8b23b5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 12/12] fix: a procedure written as XML keeps its attributes

---
 .../sup/oac-tree/parser/procedure_to_treedata_utils.cpp    | 4 ++++
 src/lib/sup/oac-tree/procedure.h                           | 7 +++++++
 src/lib/sup/oac-tree/procedure/procedure.cpp               | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..c8a83d4 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -235,6 +235,13 @@ public:
    */
   std::string GetAttributeString(const std::string& name) const;
 
+  /**
+   * @brief Get all attributes.
+   *
+   * @return List of all attribute names and values.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Set attribute with given name and value.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 2b5daf6..30d8628 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -247,6 +247,11 @@ std::string Procedure::GetAttributeString(const std::string &name) const
   return GetStringAttributeValue(m_attribute_handler.GetStringAttributes(), name);
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 bool Procedure::AddAttribute(const std::string &name, const std::string &value)
 {
   return m_attribute_handler.AddStringAttribute(name, value);
-- 
2.43.0

