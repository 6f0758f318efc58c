"""Names of the fields and constants the contracts talk about; offsets, sizes and values come from the compiler."""
HEADERS = ["rotor.hpp", "rotor/thread.hpp", "rotor/detail/child_info.h", "rotor/plugin/child_manager.h", "rotor/address_mapping.h", "rotor/ev.hpp"]
R = "rotor::"
P = "rotor::plugin::"
FIELDS = {
    R + "actor_base_t": ["init_request", "shutdown_request", "address", "spawner_address", "identity", "supervisor",
                         "plugins", "plugins_storage", "init_timeout", "shutdown_timeout", "state", "address_maker",
                         "lifetime", "link_server", "resources", "activating_plugins", "deactivating_plugins",
                         "timers_map", "active_requests", "continuation_mask", "shutdown_reason"],
    R + "supervisor_t": ["context", "queue", "last_req_id", "request_map", "subscription_map", "parent", "delivery",
                         "manager", "locality_leader", "inbound_queue", "inbound_queue_size", "poll_duration",
                         "shutdown_flag", "shutdown_poll_frequency", "create_registry", "synchronize_start",
                         "registry_address", "alive_actors", "policy", "address_mapping"],
    P + "plugin_base_t": ["actor", "own_subscriptions", "reaction", "phase"],
    P + "resources_plugin_t": ["resources", "configured"],
    P + "lifetime_plugin_t": ["points"],
    P + "foreigners_support_plugin_t": ["foreign_points"],
    R + "message_base_t": ["type_index", "address", "next_route"],
    R + "address_t": ["supervisor", "locality"],
    R + "subscription_point_t": ["handler", "owner_ptr", "address", "owner_tag"],
    R + "subscription_info_t": ["internal_address", "internal_handler", "state", "handler", "address", "owner_ptr", "owner_tag"],
    R + "handler_base_t": ["handler_type", "actor_ptr"],
    R + "extended_error_t": ["context", "ec", "next", "request"],
    R + "registry_t": ["registered_map", "reverse_map", "promises"],
    R + "system_context_t": ["supervisor"],
    R + "detail::child_info_t": ["address", "factory", "actor", "policy", "restart_period", "shutdown", "max_attempts",
                                 "attempts", "active", "escalate_failure", "timer_id", "last_instantiation", "initialized", "started"],
    P + "link_client_plugin_t": ["servers_map", "unlink_queue", "unlink_reaction", "configured"],
    P + "link_server_plugin_t": ["linked_clients"],
    P + "child_manager_plugin_t": ["actors_map", "spawning_map"],
    P + "registry_plugin_t": ["discovery_map", "aliases_map", "register_map", "plugin_state"],
    P + "starter_plugin_t": ["tracked", "configured"],
    P + "delivery_plugin_base_t": ["queue", "address", "subscription_map", "stringifier"],
    R + "subscription_t": ["main_address", "mine_handlers", "internal_infos"],
    R + "address_mapping_t": ["actor_map"],
    R + "request_curry_t": ["fn", "origin", "request_message", "source"],
    R + "timer_handler_base_t": ["owner", "request_id"],
    R + "ev::supervisor_ev_t": ["loop", "async_watcher", "timers_map"],
    R + "ev::supervisor_ev_t::timer_t": ["data", "cb", "at", "repeat", "handler"],
    R + "thread::system_context_thread_t": ["mutex", "cv", "now", "intercepting", "timer_nodes"],
    R + "plugin::registry_plugin_t::discovery_task_t": ["plugin", "address", "service_name", "delayed", "request_id", "state", "task_callback", "link_on_discovery", "operational_only"],
    P + "link_client_plugin_t::server_record_t": ["callback", "state", "request_id"],
    P + "link_server_plugin_t::link_info_t": ["state", "request", "unlink_request", "shutdown_notified"],
    P + "registry_plugin_t::register_info_t": ["address", "state"],
    R + "subscription_t::joint_handlers_t": ["internal", "external"],
    R + "request_builder_t<rotor::payload::unlink_request_t>": ["sup", "actor", "request_id", "destination", "reply_to", "do_install_handler", "req", "imaginary_address"],
    R + "thread::system_context_thread_t::deadline_info_t": ["handler", "deadline"],
    R + "timer_handler_t<rotor::supervisor_t, void (rotor::supervisor_t::*)(unsigned long, bool) noexcept>": ["object", "method"],
}
M = R + "message::"
REQ = ["payload.id", "payload.reply_to", "payload.origin"]
FIELDS.update({
    M + "shutdown_trigger_t": ["payload.actor_address", "payload.reason"],
    M + "shutdown_request_t": REQ + ["payload.request_payload.reason"],
    M + "shutdown_response_t": ["payload.req", "payload.ee"],
    M + "init_request_t": REQ,
    M + "init_response_t": ["payload.req", "payload.ee"],
    M + "create_actor_t": ["payload.actor", "payload.timeout"],
    M + "spawn_actor_t": ["payload.spawner_address"],
    M + "handler_call_t": ["payload.orig_message", "payload.handler"],
    M + "external_subscription_t": ["payload.point"],
    M + "subscription_t": ["payload.point"],
    M + "unsubscription_external_t": ["payload.point"],
    M + "commit_unsubscription_t": ["payload.point"],
    M + "unsubscription_t": ["payload.point"],
    M + "registration_request_t": REQ + ["payload.request_payload.service_name", "payload.request_payload.service_addr"],
    M + "registration_response_t": ["payload.req", "payload.ee"],
    M + "deregistration_notify_t": ["payload.service_addr"],
    M + "deregistration_service_t": ["payload.service_name"],
    M + "discovery_request_t": REQ + ["payload.request_payload.service_name"],
    M + "discovery_response_t": ["payload.req", "payload.ee", "payload.res"],
    M + "discovery_promise_t": REQ + ["payload.request_payload.service_name"],
    M + "discovery_future_t": ["payload.req", "payload.ee", "payload.res"],
    M + "discovery_cancel_t": ["payload.id", "payload.source"],
    M + "link_request_t": REQ + ["payload.request_payload.operational_only"],
    M + "link_response_t": ["payload.req", "payload.ee"],
    M + "unlink_notify_t": ["payload.client_addr"],
    M + "unlink_request_t": REQ + ["payload.request_payload.server_addr"],
    M + "unlink_response_t": ["payload.req", "payload.ee", "payload.res"],
    M + "start_trigger_t": ["payload"],
})
CONSTS = {}
for s in ("UNKNOWN", "NEW", "INITIALIZING", "INITIALIZED", "OPERATIONAL", "SHUTTING_DOWN", "SHUT_DOWN"):
    CONSTS["state_t::" + s] = "(long)rotor::state_t::" + s
for s in ("INIT", "SHUTDOWN", "SUBSCRIPTION", "START"):
    CONSTS["reaction_t::" + s] = "(long)rotor::plugin::plugin_base_t::" + s
for s in ("PROGRESS_INIT", "PROGRESS_SHUTDOWN"):
    CONSTS[s] = "(long)rotor::actor_base_t::" + s

for s in ("SUBSCRIBING", "ESTABLISHED", "UNSUBSCRIBING"):
    CONSTS["subinfo::" + s] = "(long)rotor::subscription_info_t::" + s
for s in ("ANONYMOUS", "PLUGIN", "SUPERVISOR", "FOREIGN"):
    CONSTS["owner_tag_t::" + s] = "(long)rotor::owner_tag_t::" + s
for s in ("LINKING", "OPERATIONAL", "UNLINKING"):
    CONSTS["lc::" + s] = "(long)rotor::plugin::link_client_plugin_t::link_state_t::" + s
for s in ("PENDING", "OPERATIONAL", "UNLINKING"):
    CONSTS["ls::" + s] = "(long)rotor::plugin::link_server_plugin_t::link_state_t::" + s
for s in ("always", "never", "ask_actor", "normal_only", "fail_only"):
    CONSTS["policy::" + s] = "(long)rotor::restart_policy_t::" + s
for s in ("REGISTERING", "LINKING", "OPERATIONAL", "UNREGISTERING"):
    CONSTS["rp::" + s] = "(long)rotor::plugin::registry_plugin_t::state_t::" + s
for s in ("CONFIGURED", "LINKING", "LINKED"):
    CONSTS["rpp::" + s] = "(long)rotor::plugin::registry_plugin_t::plugin_state_t::" + s
for s in ("PASSIVE", "DISCOVERING", "LINKING", "OPERATIONAL", "CANCELLING"):
    CONSTS["dt::" + s] = "(long)rotor::plugin::registry_plugin_t::discovery_task_t::state_t::" + s
for s in ("discovering", "linking"):
    CONSTS["dphase::" + s] = "(long)rotor::plugin::registry_plugin_t::phase_t::" + s
for s in ("none", "sent", "confirmed"):
    CONSTS["shutdown::" + s] = "(long)rotor::detail::shutdown_state_t::" + s
for s in ("shutdown_self", "shutdown_failed"):
    CONSTS["suppol::" + s] = "(long)rotor::supervisor_policy_t::" + s
for s in ("ESCALATE_FALIURE", "AUTOSHUTDOWN_SUPERVISOR"):
    CONSTS[s] = "(long)rotor::actor_base_t::" + s

for s in ("unknown_service", "request_timeout", "supervisor_defined", "already_registered", "actor_misconfigured", "actor_not_linkable",
          "already_linked", "failure_escalation", "registration_failed", "discovery_failed", "cancelled", "success"):
    CONSTS["error_code_t::" + s] = "(long)rotor::error_code_t::" + s
for s in ("normal", "supervisor_shutdown", "child_init_failed", "child_down", "init_failed", "unlink_requested"):
    CONSTS["shutdown_code_t::" + s] = "(long)rotor::shutdown_code_t::" + s
