"""property id -> contracts, scenarios, level"""
BUDGET = {"quick": 150, "thorough": 600}
TRUSTED = ["clang 18 C++ front end (source -> LLVM IR at -O0)", "engine/ir.py + engine/sym.py (IR semantics, VC generation)",
           "engine/stl.py (assumed contracts of libstdc++/boost containers, strings, std::function, smart-pointer counts)", "z3"]
COMMON_ASSUMPTIONS = [
    "contracts assumed on dependencies: std::vector/deque/list/set/unordered_*/boost::unordered_map behave as mathematical sequences, sets and maps; element order of hashed containers is arbitrary",
    "std::string values are compared as opaque values (equality exact, concatenation uninterpreted)",
    "operator new never fails; no exception is thrown by the library's dependencies; the only exceptional edges followed are those of user callbacks that may throw (the factory of a spawned actor)",
    "reference counts are ghost: use-after-free and leaks are outside these contracts",
    "container sizes and indexes stay below 2^31; other machine integers are exact bit-vectors",
    "objects of different classes do not overlap in memory; functions run sequentially (single actor thread), as the library requires",
    "assert() is compiled in, as in the repository's default build: an assertion that can fail is a failed obligation",
]
PROPS = {
    "P01": {"scenarios": ["msg"], "title": "Messages of a locality are processed in order, each exactly once", "level": "proof", "contracts": ["c_delivery", "c_ev", "c_asio", "c_fltk"], "only": {"c_ev": ["ev enqueue", "ev on_async", "ev on_async (follower)", "ev move_inbound_queue", "ev move_inbound_queue (follower)"], "c_asio": ["asio enqueue", "asio woken up", "asio do_process", "asio do_process (follower)"], "c_fltk": ["fltk enqueue", "fltk inbound queue"]},
            "note": "the processing loop of a locality, put, the priority of answers and the calls of a message's handlers are verified for any queue, any route table and any behaviour of the handlers"},
    "P02": {"scenarios": ["msg"], "title": "A delivered message reaches exactly the current subscribers of its type", "level": "proof", "contracts": ["c_subscription", "c_delivery", "c_lifetime"],
            "only": {"c_lifetime": ["on_call", "supervisor subscribe"], "c_delivery": ["local delivery", "inspected delivery"]},
            "note": "the index of subscriptions and the calls made from it are verified for any set of subscriptions"},
    "P08": {"scenarios": ["life"], "title": "Held resources gate initialization and shutdown", "level": "proof", "contracts": ["c_resources"],
            "note": "every function of the resources plugin is verified against its contract for all inputs and map contents; container contracts assumed"},
    "P11": {"scenarios": ["spawn"], "title": "Spawned actors are restarted exactly as their policy says", "level": "proof", "contracts": ["c_child_info", "c_children"],
            "only": {"c_children": ["child manager spawn", "on_spawn", "on_spawn_timer", "remove_child", "create_child", "request_shutdown of all"]},
            "note": "the restart decision, the attempt bookkeeping and the child manager's part in spawning are verified for all policies, counters, clocks and records, with factories that may throw"},
    "P13": {"scenarios": ["life", "spawn"], "title": "A supervisor starts after its children and finishes after all of them", "level": "proof", "contracts": ["c_children"],
            "note": "every function of the child manager plugin but its activation is verified for arbitrary records of children, and the supervisor's own shutdown entry points"},
    "P06": {"scenarios": ["life"], "title": "Life cycle phases advance in order and each is reached once", "level": "proof", "contracts": ["c_lifecycle", "c_plugins", "c_lifetime"],
            "only": {"c_lifetime": ["starter handle_init", "starter handle_subscription", "starter deactivate"]},
            "note": "the phase transitions of actor_base_t, the activation of its plugins, the starter and the init/shutdown plugin are verified for all states and plugin lists"},
    "P14": {"scenarios": ["msg", "life"], "title": "Subscriptions are released completely before an actor is gone", "level": "proof",
            "contracts": ["c_lifetime", "c_mapping", "c_subscription", "c_plugins"],
            "only": {"c_subscription": ["forget", "points.find", "materialize"], "c_plugins": ["deactivate_plugins", "commit_plugin_deactivation", "commit_plugin_activation"]},
            "note": "the lifetime and foreigners plugins, the record of a plugin's own subscriptions, the supervisor's index and the map of reply addresses are verified for any sets of subscriptions"},
    "P07": {"scenarios": ["life"], "title": "The first shutdown reason survives and escalation follows policy", "level": "proof", "contracts": ["c_lifecycle", "c_children", "c_plugins"],
            "only": {"c_plugins": ["on_shutdown", "init_shutdown handle_shutdown"], "c_children": ["supervisor do_shutdown", "request_shutdown of one actor", "on_shutdown_trigger", "child manager handle_shutdown", "remove_child"]},
            "note": "the shutdown entry points of actor_base_t are verified for all flags and reasons"},
    "P09": {"scenarios": ["reg"], "title": "The registry maps every name to one address and answers every question once", "level": "proof", "contracts": ["c_registry"],
            "note": "all six handlers of the registry are verified for arbitrary contents of its three tables"},
    "P10": {"scenarios": ["life", "disc"], "title": "An actor's own registrations and discoveries settle before it proceeds", "level": "proof", "contracts": ["c_discovery"],
            "note": "every function of the registry plugin but its activation is verified for arbitrary records of registrations and discoveries, with aliases of an address, and any callbacks that do not re-enter the plugin"},
    "P12": {"scenarios": ["life"], "title": "Links keep servers alive until their clients let go", "level": "proof", "contracts": ["c_links"],
            "note": "both link plugins are verified for arbitrary tables of clients and servers"},
    "P16": {"scenarios": ["err"], "title": "An error report keeps its whole chain of causes", "level": "proof", "contracts": ["c_errors"],
            "note": "root, text and construction of error chains are verified for chains of any length (loop invariant and termination measure)"},
    "P03": {"scenarios": ["req", "life"], "title": "Every request is answered at most once: by the reply or by the timeout", "level": "proof", "contracts": ["c_requests"],
            "note": "building, sending, answering, timing out and discarding of requests are verified for arbitrary tables of pending requests (template instance: initialize_actor_t)"},
    "P05": {"scenarios": ["thread"], "title": "Thread backend: timers fire in deadline order, never early, never lost", "level": "proof", "contracts": ["c_thread"],
            "note": "the timer list of the thread backend, its clock and its waiting loop are verified for any timers, clock readings and callbacks"},
    "P04": {"scenarios": ["req", "thread"], "title": "An actor timer calls back exactly once, and none survives its actor", "level": "proof", "contracts": ["c_requests", "c_lifecycle", "c_ev", "c_asio", "c_fltk"],
            "only": {"c_ev": ["ev start_timer", "ev cancel_timer", "ev timer due"], "c_asio": ["asio start_timer", "asio timer fired", "asio cancel_timer", "asio timer due", "asio timer gone"], "c_fltk": ["fltk start_timer", "fltk cancel_timer", "fltk timer due"], "c_requests": ["next_request_id", "start_timer", "start_timer (new identifier)", "cancel_timer", "on_timer_trigger", "timer_handler::trigger"],
                     "c_lifecycle": ["shutdown_finish"]},
            "note": "start, cancel, trigger and release of timers are verified for arbitrary tables of timers (template instance: timers of supervisor_t)"},
    "P18": {"title": "Event-loop backends: timers settle once, foreign messages are handed over", "level": "proof", "contracts": ["c_ev", "c_asio", "c_fltk"],
            "note": "the functions of the libev, boost::asio and FLTK backends that start, cancel and settle timers and that take messages of other threads are verified for any tables of timers, any queues and any behaviour of the callbacks; the event loops themselves are assumed to call back once what was handed to them"},
}
