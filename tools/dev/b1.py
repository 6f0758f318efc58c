A="src/rotor/actor_base.cpp"; LS="src/rotor/plugin/link_server.cpp"; LC="src/rotor/plugin/link_client.cpp"; R="src/rotor/plugin/resources.cpp"; RG="src/rotor/registry.cpp"; CI="src/rotor/detail/child_info.cpp"
SEEDS={
"s06a":[(A,"            if (plugin->handle_shutdown(shutdown_request.get())) {\n                plugin->reaction_off(plugin_base_t::SHUTDOWN);\n                --in_progress;\n                continue;\n            }\n            break;","            if (plugin->handle_shutdown(shutdown_request.get())) {\n                plugin->reaction_off(plugin_base_t::SHUTDOWN);\n                --in_progress;\n            }\n            continue;")],
"s06b":[(A,"    reply_to(*init_request);\n    init_request.reset();\n    state = state_t::INITIALIZED;","    reply_to(*init_request);\n    state = state_t::INITIALIZED;")],
"s06c":[(A,"                plugin->reaction_off(plugin_base_t::INIT);\n                --in_progress;","                --in_progress;")],
"s06d":[(A,"    for (auto &plugin : plugins) {\n        if (plugin->get_reaction() & plugin_base_t::INIT) {\n            if (plugin->handle_init(init_request.get())) {\n                plugin->reaction_off(plugin_base_t::INIT);\n                --in_progress;\n                continue;\n            }\n            break;\n        }","    for (auto &plugin : plugins) {\n        if (plugin->get_reaction() & plugin_base_t::INIT) {\n            if (plugin->handle_init(init_request.get())) {\n                plugin->reaction_off(plugin_base_t::INIT);\n                --in_progress;\n            }\n            continue;\n        }")],
"s07a":[(A,"    if (!shutdown_reason) {\n        shutdown_reason = std::move(reason);","    if (!shutdown_reason || !shutdown_reason->root()->ec) {\n        shutdown_reason = std::move(reason);")],
"s07b":[(A,"shutdown_reason && shutdown_reason->root()->ec) {","shutdown_reason && shutdown_reason->ec) {")],
"s07c":[(A,"make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);","make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason ? shutdown_reason->next : shutdown_reason);")],
"s07d":[(A,"    if (state < state_t::SHUTTING_DOWN) {\n        extended_error_ptr_t r;","    if (state < state_t::SHUTTING_DOWN && !shutdown_request) {\n        extended_error_ptr_t r;"),],
"s08a":[(R,"} else if (state >= state_t::OPERATIONAL) {","} else if (state == state_t::OPERATIONAL) {")],
"s08b":[(R,"    bool has_acquired = has_any();","    bool has_acquired = value > 0;")],
"s08c":[(R,"[](auto count) { return count > 0; }","[](auto count) { return count & 1; }")],
"s09a":[(RG,"return msg->payload.id == request_id && msg->payload.origin == client_addr;","return msg->payload.id == request_id;"),(RG,"    auto &client_addr = notify.payload.source;\n","")],
"s09b":[(RG,"    while (it != promises.end()) {","    if (it != promises.end()) {")],
"s09c":[(RG,"        it = find(it);","        it = find(std::next(it, it != promises.end() ? 1 : 0));")],
"s09d":[(RG,"        names.erase(name);\n","")],
"s11a":[(CI,"    if (max_attempts && attempts >= max_attempts) {\n        active = false;","    if (max_attempts && attempts > max_attempts) {\n        active = false;")],
"s11b":[(CI,"    if (policy == restart_policy_t::fail_only && !abnormal_shutdown) {\n        active = false;","    if (policy == restart_policy_t::fail_only && !abnormal_shutdown && attempts > 1) {\n        active = false;")],
"s11c":[(CI,"    last_instantiation = clock_t::local_time();","    if (last_instantiation.is_not_a_date_time()) {\n        last_instantiation = clock_t::local_time();\n    }")],
"s12a":[(LS,"    if (unlink_request) {\n        actor->get_supervisor().cancel_timer(*unlink_request);\n    }\n","")],
"s12b":[(LS,"        if (it.second.state == link_state_t::PENDING) {\n            actor->reply_to(*it.second.request);\n            it.second.state = link_state_t::OPERATIONAL;","        if (it.second.state == link_state_t::PENDING) {\n            actor->reply_to(*it.second.request);")],
"s12c":[(LC,"                shutdown_needed |= result;","                shutdown_needed = result;")],
"s12d":[(LC,"    if (servers_map.empty()) {\n        return plugin_base_t::handle_shutdown(req);\n    }\n\n    return false;","    return plugin_base_t::handle_shutdown(req);")],
"s12e":[(LS,"    if (linked_clients.find(client_addr) != linked_clients.end()) {","    auto it = linked_clients.find(client_addr);\n    if (it != linked_clients.end() && it->second.state == link_state_t::OPERATIONAL) {")],
}
