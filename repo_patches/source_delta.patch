From 3d6108318a70a2196269e0f9e1449174d4b311c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 01/22] fix: resources plugin: has_any() must not depend on a
 wrapping sum of counters

---
 src/rotor/plugin/resources.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/resources.cpp b/src/rotor/plugin/resources.cpp
index 36c858c..1bdfbf1 100644
--- a/src/rotor/plugin/resources.cpp
+++ b/src/rotor/plugin/resources.cpp
@@ -6,7 +6,7 @@
 
 #include "rotor/plugin/resources.h"
 #include "rotor/supervisor.h"
-#include <numeric>
+#include <algorithm>
 
 using namespace rotor;
 using namespace rotor::plugin;
@@ -90,6 +90,5 @@ std::uint32_t resources_plugin_t::has(resource_id_t id) noexcept {
 }
 
 bool resources_plugin_t::has_any() noexcept {
-    auto sum = std::accumulate(resources.begin(), resources.end(), 0);
-    return sum > 0;
+    return std::any_of(resources.begin(), resources.end(), [](auto count) { return count > 0; });
 }
-- 
2.43.0


From 54ceab2dfb9125d19365997bb6a294c5c11c7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 02/22] fix: link server: a timed out unlink must forget the
 client it was sent to

An unlink response with an error has an empty payload, so a root supervisor (which has
no shutdown request to fail) looked up a null client address, hit the assertion (or
erased end()) and never continued its shutdown.
---
 src/rotor/plugin/link_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..3189d3c 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -89,7 +89,8 @@ void link_server_plugin_t::on_unlink_response(message::unlink_response_t &messag
         return;
     }
 
-    auto &client = message.payload.res.client_addr;
+    // a failed response carries no client address, the request was sent to the client
+    auto &client = ec ? message.payload.req->address : message.payload.res.client_addr;
     auto it = linked_clients.find(client);
 
     // no idea, how to trigger/cause the race
-- 
2.43.0


From f0e7261d2130bb6de82a6eb3076ca16d17ff0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 03/22] fix: thread backend: a timer is detached before its
 callback runs

A callback that starts or cancels a timer while an I/O handler is intercepted
updates the time again and saw the expired timer once more: it fired endlessly.
Cancelling an expired timer there fired it first and then failed to find it.
---
 src/rotor/thread/system_context_thread.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..1801404 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -95,9 +95,11 @@ void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
     auto it = timer_nodes.begin();
     while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+        // the callback might start or cancel timers and thus update the time again: the timer should not be seen there
+        auto handler = it->handler;
+        timer_nodes.erase(it);
+        handler->owner->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
+        it = timer_nodes.begin();
     }
 }
 
@@ -115,14 +117,14 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
-    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    auto handler = it->handler;
     timer_nodes.erase(it);
+    handler->owner->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    if (intercepting)
+        update_time();
 }
 
 } // namespace rotor
-- 
2.43.0


From e40d973e9fb6a4ba272f52a13422e7e9847e736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 04/22] fix: do not iterate over a reallocated vector of
 message recipients

A handler which subscribes (any actor) to the message being delivered appends
to, and possibly reallocates, the vector of handlers local_delivery_t is
iterating over: the remaining recipients were read from freed memory.
---
 src/rotor/plugin/delivery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..ed5ead7 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -44,8 +44,10 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
-        handler->call(message);
+    // a handler might subscribe to the message being delivered, i.e. reallocate the recipients vector
+    auto &internal = local_recipients.internal;
+    for (size_t i = 0, count = internal.size(); i < count; ++i) {
+        internal[i]->call(message);
     }
 }
 
-- 
2.43.0


From 9f05b7fa986f7723e0582965fe3b5f0349516150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 05/22] fix: tell lambda handlers of one message type apart by
 their type, not by the message's

---
 include/rotor/handler.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..ceb32d1 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -321,12 +321,12 @@ const void *handler_t<Handler, std::enable_if_t<details::is_plugin_handler_v<Han
 /**
  * \brief handler specialization for lambda handler
  */
-template <typename Handler, typename M>
-struct handler_t<lambda_holder_t<Handler, M>,
-                 std::enable_if_t<details::is_lambda_handler_v<lambda_holder_t<Handler, M>>>>
+template <typename M, typename Handler>
+struct handler_t<lambda_holder_t<M, Handler>,
+                 std::enable_if_t<details::is_lambda_handler_v<lambda_holder_t<M, Handler>>>>
     final : public handler_base_t {
     /** \brief alias type for lambda, which will actually process messages */
-    using handler_backend_t = lambda_holder_t<Handler, M>;
+    using handler_backend_t = lambda_holder_t<M, Handler>;
 
     /** \brief actually lambda function for message processing */
     handler_backend_t handler;
@@ -360,9 +360,9 @@ struct handler_t<lambda_holder_t<Handler, M>,
     using final_message_t = typename handler_backend_t::message_t;
 };
 
-template <typename Handler, typename M>
-const void *handler_t<lambda_holder_t<Handler, M>,
-                      std::enable_if_t<details::is_lambda_handler_v<lambda_holder_t<Handler, M>>>>::handler_type =
+template <typename M, typename Handler>
+const void *handler_t<lambda_holder_t<M, Handler>,
+                      std::enable_if_t<details::is_lambda_handler_v<lambda_holder_t<M, Handler>>>>::handler_type =
     static_cast<const void *>(typeid(Handler).name());
 
 } // namespace rotor
-- 
2.43.0


From 06a10e113a94ee8644bc0c72a7bb10f3f4eff9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 06/22] fix: unsubscribe an actor's handler through the actor's
 own lifetime plugin

---
 include/rotor/supervisor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..16c5b7f 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -500,12 +500,12 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
 } // namespace plugin
 
 template <typename Handler, typename Enabled> void actor_base_t::unsubscribe(Handler &&h) noexcept {
-    supervisor->unsubscribe_actor(address, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), address);
 }
 
 template <typename Handler, typename Enabled>
 void actor_base_t::unsubscribe(Handler &&h, address_ptr_t &addr) noexcept {
-    supervisor->unsubscribe_actor(addr, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), addr);
 }
 
 template <typename T>
-- 
2.43.0


From 587881a0ecdfaf3ba9262498640b8d298b19b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 07/22] fix: release an actor's own subscription to an address
 of another locality

---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..8a40f1c 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -117,6 +117,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         auto it = points.find(point);
         plugin_base_t::forget_subscription(*it);
         points.erase(it);
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         result = true;
         if (points.empty()) {
             plugin_base_t::deactivate();
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..cb1a2f2 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From 26c9f180c53cf7b64961c706d1a713fb9a8d21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 08/22] fix: registry plugin: a shutdown while a registration
 is in flight

---
 src/rotor/plugin/registry.cpp | 40 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..7f81260 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -64,7 +64,7 @@ void registry_plugin_t::register_name(const std::string &name, const address_ptr
         link_registry();
     }
 
-    register_map.emplace(name, register_info_t{address, state_t::REGISTERING});
+    register_map.emplace(name, register_info_t{address, state_t::LINKING});
 }
 
 registry_plugin_t::discovery_task_t &registry_plugin_t::discover_name(const std::string &name, address_ptr_t &address,
@@ -85,13 +85,21 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
     assert(it != register_map.end());
+    bool shutting_down = actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN;
     if (ee) {
         register_map.erase(it);
+    } else if (shutting_down) {
+        actor->send<payload::deregistration_service_t>(actor->get_supervisor().get_registry_address(), it->first);
+        register_map.erase(it);
     } else {
         it->second.state = state_t::OPERATIONAL;
     }
 
-    if (!has_registering() || ee) {
+    if (shutting_down) {
+        if (register_map.empty()) {
+            actor->shutdown_continue();
+        }
+    } else if (!has_registering() || ee) {
         continue_init(error_code_t::registration_failed, ee);
     }
 }
@@ -106,7 +114,9 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    if (!init_request) {
+        return; // already answered, i.e. linking failed
+    }
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
@@ -134,6 +144,7 @@ void registry_plugin_t::on_link(const extended_error_ptr_t &ec) noexcept {
         auto timeout = actor->access<to::init_timeout>();
         for (auto &it : register_map) {
             actor->request<payload::registration_request_t>(registry_addr, it.first, it.second.address).send(timeout);
+            it.second.state = state_t::REGISTERING;
         }
         for (auto &it : discovery_map) {
             it.second.do_discover();
@@ -154,13 +165,16 @@ bool registry_plugin_t::handle_init(message::init_request_t *) noexcept {
 bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
     if (!register_map.empty()) {
         auto &registry_addr = actor->get_supervisor().get_registry_address();
-        for (auto &it : register_map) {
-            if (it.second.state == state_t::OPERATIONAL) {
-                actor->send<payload::deregistration_service_t>(registry_addr, it.first);
-                it.second.state = state_t::UNREGISTERING;
+        for (auto it = register_map.begin(); it != register_map.end();) {
+            if (it->second.state == state_t::REGISTERING) {
+                ++it; // the request is in flight, its outcome is unknown yet
+            } else {
+                if (it->second.state == state_t::OPERATIONAL) {
+                    actor->send<payload::deregistration_service_t>(registry_addr, it->first);
+                }
+                it = register_map.erase(it);
             }
         }
-        register_map.clear();
     }
 
     if (!discovery_map.empty()) {
@@ -171,17 +185,19 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
                 ++it;
             }
         }
-        if (!discovery_map.empty())
-            return false;
-        // discovery_map.clear();
     }
 
+    if (!register_map.empty() || !discovery_map.empty())
+        return false;
+
     aliases_map.clear();
     return plugin_base_t::handle_shutdown(req);
 }
 
 bool registry_plugin_t::has_registering() noexcept {
-    auto in_progress_predicate = [](auto it) { return it.second.state == state_t::REGISTERING; };
+    auto in_progress_predicate = [](auto &it) {
+        return it.second.state == state_t::REGISTERING || it.second.state == state_t::LINKING;
+    };
     return !std::none_of(register_map.begin(), register_map.end(), in_progress_predicate);
 }
 
-- 
2.43.0


From f2e77cb8a5d6a4b47423c561d3a81b195e74c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:31 +0000
Subject: [PATCH 09/22] fix: registry plugin: a shutdown while a discovery or
 its link is in flight

---
 src/rotor/plugin/registry.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 7f81260..07b9c62 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -205,7 +205,9 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) {
+        return; // the task has been cancelled by shutdown
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -222,20 +224,25 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
     auto actor_state = plugin->actor->access<to::state>();
     if (actor_state == rotor::state_t::INITIALIZING) {
         if (!ec) {
+            state = state_t::LINKING;
             auto &aliases = plugin->access<to::aliases_map>();
             if (!aliases.count(*address)) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
+                link_plugin.link(*address, operational_only, [plugin = plugin, name = service_name](auto &ec) {
                     auto &am = plugin->access<to::aliases_map>();
                     auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
+                    auto it = dm.find(name);
+                    if (it == dm.end()) {
+                        return; // the task has been cancelled by shutdown
+                    }
+                    for (auto &alias : am.at(*it->second.address)) {
                         auto &callback = dm.at(alias).task_callback;
                         if (callback) {
                             callback(phase_t::linking, ec);
                         }
                     }
-                    post_discovery(ec);
+                    it->second.post_discovery(ec);
                 });
                 aliases.emplace(*address, names_t{service_name});
             } else {
@@ -286,6 +293,9 @@ void registry_plugin_t::discovery_task_t::do_discover() noexcept {
 }
 
 bool registry_plugin_t::discovery_task_t::do_cancel() noexcept {
+    if (state == state_t::CANCELLING) {
+        return false;
+    }
     if (delayed && state == state_t::DISCOVERING) {
         using payload_t = rotor::message::discovery_cancel_t::payload_t;
         auto &actor_ = plugin->actor;
-- 
2.43.0


From a8acfd831cfeda24d44d7d692c5557c7e4d6165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 10/22] fix: child manager: start children initialized after a
 synchronized start

---
 src/rotor/plugin/child_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..c9f5a6b 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -293,7 +293,8 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         if (actor_found) {
             it_actor->second->initialized = true;
             bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+                                                              : (!sup.access<to::synchronize_start>() ||
+                                                                 (self_state == state_t::OPERATIONAL));
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
-- 
2.43.0


From 36a909955a3db7fa8237d50bd14c726a222b8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 11/22] fix: escalate the failure of a supervisor to its
 parent, not to itself

---
 src/rotor/actor_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..3cdf43b 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -104,14 +104,15 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
-    if (!spawner_address) {
+    // a supervisor is supervised by its parent
+    auto upstream = supervisor == this ? supervisor->parent : supervisor;
+    if (!spawner_address && upstream) {
+        auto &sup = upstream->get_address();
         if ((continuation_mask & ESCALATE_FALIURE) && shutdown_reason && shutdown_reason->root()->ec) {
-            auto &sup = supervisor->get_address();
             auto ee = make_error(make_error_code(error_code_t::failure_escalation), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
         if (continuation_mask & AUTOSHUTDOWN_SUPERVISOR) {
-            auto &sup = supervisor->get_address();
             auto ee = make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
-- 
2.43.0


From ee8a31a96d001506135d637db5d4e35d4f1a7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 12/22] fix: child manager: do not discard an unrelated request
 with the id of the parent's init request

---
 src/rotor/plugin/child_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index c9f5a6b..4a5c1da 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -322,6 +322,9 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
+    if (child == actor && sup.access<to::parent>()) {
+        return; // the request and its id belong to the parent
+    }
     auto &init_request = child->access<to::init_request>();
     if (init_request) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
-- 
2.43.0


From 83e2334d34c0e6ca3319dd8cf6ecf801bc025ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 13/22] fix: link client: a late link response must not
 continue initialization of an actor that shuts down

---
 src/rotor/plugin/link_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..6841aef 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,7 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        if (actor->access<to::init_request>() && actor->access<to::state>() == rotor::state_t::INITIALIZING) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From 61d6ae4874019e0d584c211a75de05f3ddb475f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 14/22] fix: init_continue() after the init request has been
 answered with an error

---
 src/rotor/actor_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 3cdf43b..ac34095 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -147,7 +147,9 @@ void actor_base_t::shutdown_finish() noexcept {
 
 void actor_base_t::init_continue() noexcept {
     assert(state == state_t::INITIALIZING);
-    assert(init_request);
+    if (!init_request) {
+        return; // already answered (with an error), the shutdown is about to come
+    }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
     std::size_t in_progress = plugins.size();
-- 
2.43.0


From 4f27759a4cedf9cefc1b6ddd8788dc87f15cb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 15/22] fix: link client: a server must forget the client whose
 link request timed out

---
 src/rotor/plugin/link_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 6841aef..9589f66 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -64,6 +64,10 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
 
     auto callback = it->second.callback;
     if (ec) {
+        if (ec->ec == make_error_code(error_code_t::request_timeout)) {
+            // the server might have (or will) accept the link, let it forget the client
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
         servers_map.erase(it);
     }
 
-- 
2.43.0


From ff1ca1f8b4b35a62419e2ae7d1090985287131c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 16/22] fix: registry plugin: an init request answered with an
 error must not be continued

---
 src/rotor/plugin/registry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 07b9c62..4eb9c5c 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -120,6 +120,7 @@ void registry_plugin_t::continue_init(const error_code_t &possible_ec, const ext
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset(); // answered, the initialization must not be continued
     } else {
         actor->init_continue();
     }
-- 
2.43.0


From 56c7a2ea14ea0885acd6ee12e5dada20cd5206e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 17/22] fix: a link request that timed out must not be
 discarded or looked up again

---
 src/rotor/plugin/link_client.cpp | 4 +++-
 src/rotor/supervisor.cpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 9589f66..7f870bd 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -60,7 +60,9 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto &address = message.payload.req->address;
     auto &ec = message.payload.ee;
     auto it = servers_map.find(address);
-    assert(it != servers_map.end());
+    if (it == servers_map.end()) {
+        return; // timed out, but has already been forgotten upon shutdown
+    }
 
     auto callback = it->second.callback;
     if (ec) {
diff --git a/src/rotor/supervisor.cpp b/src/rotor/supervisor.cpp
index f7c08ac..ac2eaa8 100644
--- a/src/rotor/supervisor.cpp
+++ b/src/rotor/supervisor.cpp
@@ -138,7 +138,9 @@ void supervisor_t::on_request_trigger(request_id_t timer_id, bool cancelled) noe
 }
 
 void supervisor_t::discard_request(request_id_t request_id) noexcept {
-    assert(request_map.find(request_id) != request_map.end());
+    if (request_map.find(request_id) == request_map.end()) {
+        return; // timed out already, the error response is in flight
+    }
     cancel_timer(request_id);
     request_map.erase(request_id);
 }
-- 
2.43.0


From 1fde976c068f8c9da313c926e558297aebed757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 18/22] fix: child manager: no instance is spawned by a
 supervisor that shuts down

---
 src/rotor/plugin/child_manager.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 4a5c1da..d6e7105 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -217,6 +217,15 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     if (!info.active) {
         return;
     }
+    auto &own_state = actor->access<to::state>();
+    if (own_state > state_t::OPERATIONAL) {
+        // too late, the supervisor shuts down
+        info.active = false;
+        if (own_state == state_t::SHUTTING_DOWN) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     info.spawn_attempt();
 
     try {
@@ -500,13 +509,13 @@ void child_manager_plugin_t::on_spawn_timer(request_id_t timer_id, bool cancelle
     auto info = it->second;
     info->timer_id = 0;
     spawning_map.erase(it);
-    if (cancelled) {
+    auto &state = actor->access<to::state>();
+    if (cancelled || state > state_t::OPERATIONAL) {
         info->active = false;
-        auto &state = actor->access<to::state>();
         if (state == state_t::SHUTTING_DOWN) {
             actor->shutdown_continue();
         }
-    } else if (actor->access<to::state>() <= state_t::OPERATIONAL) {
+    } else {
         actor->send<payload::spawn_actor_t>(actor->get_address(), info->address);
     }
 }
-- 
2.43.0


From c077a4d5babf8a983424d0ba307380fa7cf6b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:33 +0000
Subject: [PATCH 19/22] fix: an answered discovery is settled itself, even if
 its address is known under other names

---
 src/rotor/plugin/registry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 4eb9c5c..e4b26ab 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -262,7 +262,8 @@ void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_pt
     assert(it != dm.end());
 
     auto &am = p->aliases_map;
-    auto ait = am.find(*it->second.address);
+    // only those names which are being linked, do share the outcome with other names of the address
+    auto ait = state == state_t::LINKING ? am.find(*it->second.address) : am.end();
     if (ait != am.end()) {
         for (auto &alias : ait->second) {
             dm.erase(alias);
-- 
2.43.0


From fcb47e7d5f6719c3c020a9a4935087730f38d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 20/22] fix: a service discovered after its address was linked
 under another name is settled

---
 src/rotor/plugin/registry.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index e4b26ab..7947392 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -247,7 +247,15 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
                 });
                 aliases.emplace(*address, names_t{service_name});
             } else {
-                aliases.at(*address).emplace_back(service_name);
+                auto &names = aliases.at(*address);
+                bool linked = !plugin->access<to::discovery_map>().count(names.front());
+                names.emplace_back(service_name);
+                if (linked) { // the address has already been linked (under another name)
+                    if (task_callback) {
+                        task_callback(phase_t::linking, ec);
+                    }
+                    post_discovery(ec);
+                }
             }
             return;
         }
-- 
2.43.0


From be40248149c09fb79c902e9d6bc41c210a5f72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 21/22] fix: a client with clients of its own that is asked to
 unlink is told so and shuts down

---
 src/rotor/plugin/link_client.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 7f870bd..abcab09 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -101,6 +101,19 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    if (actor->access<to::state>() < state_t::SHUTTING_DOWN && actor->access<to::link_server>()->has_clients()) {
+        // own clients have to be unlinked first, they are asked to upon shutdown
+        it->second.state = link_state_t::UNLINKING;
+        if (actor->access<to::on_unlink, const address_ptr_t &>(server_addr)) {
+            unlink_queue.emplace_back(&message);
+            actor->do_shutdown(make_error(make_error_code(shutdown_code_t::unlink_requested)));
+        } else {
+            actor->reply_to(message, actor->get_address());
+            servers_map.erase(server_addr);
+        }
+        return;
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -115,9 +128,12 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
                 actor->reply_to(message, actor->get_address());
+                auto notified = server_it->second.state == link_state_t::UNLINKING;
                 servers_map.erase(server_it);
-                auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
-                shutdown_needed |= result;
+                if (!notified) {
+                    auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
+                    shutdown_needed |= result;
+                }
             }
         }
         if (attempt_shutdown && shutdown_needed) {
-- 
2.43.0


From 633443997bf5a494f969dee6442add4fc23c8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 22/22] fix: link requests which are still pending at shutdown
 are refused

---
 src/rotor/plugin/link_client.cpp |  8 +++++---
 src/rotor/plugin/link_server.cpp | 11 ++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index abcab09..9f3e144 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -168,9 +168,13 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     if (servers_map.empty())
         return plugin_base_t::handle_shutdown(req);
 
+    auto link_server = actor->access<to::link_server>();
+    if (link_server->has_clients()) {
+        link_server->notify_shutdown();
+    }
+
     try_forget_links(false);
 
-    auto link_server = actor->access<to::link_server>();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -181,8 +185,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index 3189d3c..01ff897 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -122,7 +122,15 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) {
+            // too late, the link will never be established
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            actor->reply_with_error(*link_info.request, make_error(ec, {}, link_info.request));
+            it = linked_clients.erase(it);
+            continue;
+        }
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
@@ -130,5 +138,6 @@ void link_server_plugin_t::notify_shutdown() noexcept {
             link_info.state = link_state_t::UNLINKING;
             link_info.unlink_request = request_id;
         }
+        ++it;
     }
 }
-- 
2.43.0

