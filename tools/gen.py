"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})


p("P01", "Messages of a locality are processed in order, each exactly once",
  "Within one locality every message sent is taken from the queue exactly once and in the order in which it was put, including those sent while handlers run, and a processing round ends only with an empty queue. "
  "A message whose address belongs to the locality is delivered to that address's subscribers there, and a message whose address belongs to another supervisor of the same context or to another locality is passed, once and unchanged, to that supervisor and to no other. "
  "A prioritised message overtakes the others only where the API says so.",
  ["histories", "inputs"], "every sequence of put/send operations before and during processing, every assignment of addresses to supervisors and localities",
  "tests send a handful of messages between at most three supervisors and look at the end state; order and exactly-once under sends from inside handlers, and routing for every address/supervisor relation, quantify over histories",
  ["include/rotor/plugin/delivery.h", "src/rotor/plugin/delivery.cpp", "include/rotor/supervisor.h", "src/rotor/supervisor.cpp", "src/rotor/plugin/locality.cpp"],
  [("delivery_plugin_t::process", "include/rotor/plugin/delivery.h"), ("local_delivery_t::delivery / inspected_local_delivery_t::delivery", "src/rotor/plugin/delivery.cpp"),
   ("supervisor_t::put / enqueue / do_process", "include/rotor/supervisor.h, src/rotor/supervisor.cpp"), ("locality leader selection", "src/rotor/plugin/locality.cpp")],
  [("supervisor_t::queue", "pending messages of the locality", "include/rotor/supervisor.h")])
p("P02", "A delivered message reaches exactly the current subscribers of its type",
  "When a message is delivered to an address, exactly those handlers are run, once each and in subscription order, that are subscribed to that address and accept the message's type; handlers of the same type on another address, or of another type on that address, never run. "
  "A handler subscribed before a message is delivered sees it, a handler unsubscribed before it does not, and subscribing the same handler twice to the same point does not create a second delivery route when one is removed. "
  "A handler owned by an actor of another locality is not run in this one: the message is forwarded to that locality together with the handler.",
  ["histories", "inputs"], "every interleaving of subscribe, unsubscribe and delivery, for every set of handlers, addresses and message types",
  "the subscription index is history-dependent (internal vs external handlers, last handler of a type removed, removal of one of several); tests use one or two handlers per address",
  ["include/rotor/subscription.h", "src/rotor/subscription.cpp", "src/rotor/plugin/delivery.cpp", "include/rotor/handler.h", "src/rotor/handler.cpp"],
  [("subscription_t::materialize / get_recipients / forget / empty", "src/rotor/subscription.cpp"), ("local_delivery_t::delivery", "src/rotor/plugin/delivery.cpp"), ("handler_t::call / select", "include/rotor/handler.h")],
  [("subscription_t::internal_infos / mine_handlers / foreign_handlers", "subscription index", "include/rotor/subscription.h")])
p("P03", "Every request is answered at most once: by the reply or by the timeout",
  "For every request the requester's response handler runs exactly once: with the reply or the error reply if one arrives while the request is pending, otherwise with a request-timeout error once the timeout fires, and the request's timer is released in the first case. "
  "A reply that arrives after the timeout is dropped, and no reply is ever matched to a different request: pending requests of one locality have distinct identifiers. "
  "The reply carries the original request, whose payload, origin and reply address are unchanged.",
  ["schedules", "histories", "inputs"], "every order of send, reply, error reply, timeout and shutdown, and every number of pending requests, including identifier wrap-around",
  "the race of reply and timeout, wrap-around of request identifiers and the bookkeeping left behind are not reachable by sampling; tests cover a few fixed orders with few requests",
  ["include/rotor/request.hpp", "include/rotor/supervisor.h", "src/rotor/supervisor.cpp", "include/rotor/plugin/delivery.h", "include/rotor/actor_base.h"],
  [("request_builder_t::send / timeout", "include/rotor/request.hpp, include/rotor/supervisor.h"), ("supervisor_t::on_request_trigger", "src/rotor/supervisor.cpp"),
   ("supervisor_t::next_request_id", "include/rotor/supervisor.h"), ("response delivery discards unknown requests", "include/rotor/supervisor.h, src/rotor/supervisor.cpp")],
  [("supervisor_t::request_map", "pending requests: id -> requester, reply, timer", "include/rotor/supervisor.h")])
p("P04", "An actor timer calls back exactly once, and none survives its actor",
  "Each timer an actor starts leads to exactly one callback: not cancelled if its time came, cancelled if it was cancelled first or the actor began to shut down; nothing is called back for an unknown identifier. "
  "Identifiers of an actor's pending timers are distinct, and after an actor finished shutting down it has no timer left.",
  ["schedules", "histories"], "every interleaving of start, cancel, trigger and shutdown of any number of timers",
  "the outcome depends on the order of cancel, trigger and shutdown; tests fix one order per case",
  ["src/rotor/actor_base.cpp", "include/rotor/actor_base.h", "include/rotor/supervisor.h", "include/rotor/timer_handler.hpp"],
  [("actor_base_t::start_timer / cancel_timer / on_timer_trigger / cancel_timers", "src/rotor/actor_base.cpp"), ("supervisor_t::alive / timers", "src/rotor/supervisor.cpp")],
  [("actor_base_t::timers_map", "pending timers of the actor", "include/rotor/actor_base.h")])
p("P05", "Thread backend: timers fire in deadline order, never early, never lost",
  "In the thread backend the pending timers are always ordered by deadline, a timer fires only when the current time has reached its deadline, every timer whose deadline was reached is fired before waiting again, each fires once, and a cancelled one never fires. "
  "A backend that waits never waits past the earliest deadline.",
  ["schedules", "histories", "inputs"], "every sequence of timer starts, cancellations and clock values",
  "tests run one or two timers against the real clock; ordering and never-early must hold for every set of deadlines and every clock",
  ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp", "include/rotor/thread/system_context_thread.h"],
  [("system_context_thread_t::start_timer / cancel_timer / update_time / check", "src/rotor/thread/system_context_thread.cpp"), ("supervisor_thread_t::do_start_timer / do_cancel_timer", "src/rotor/thread/supervisor_thread.cpp")],
  [("system_context_thread_t::timer_nodes", "pending timers in order of deadline", "include/rotor/thread/system_context_thread.h")])
p("P06", "An actor's life cycle advances one step at a time and only when all agree",
  "The state of an actor only ever moves forward: created, configured, initializing, initialized, operational, shutting down, shut down; it becomes initialized only after every plugin agreed that initialization is over, and shut down only after every plugin agreed that shutdown is over. "
  "A plugin that is not ready is asked again and blocks those after it, a plugin that is done is not asked again, and plugins are asked in order of configuration for initialization and in reverse order for shutdown. "
  "Shutdown can be requested in any state, more than once, and is carried out once; the initialization and shutdown confirmations are sent exactly once each to the supervisor that asked.",
  ["histories", "programs"], "every list of plugins, every pattern of ready/not-ready answers, every order of initialization, polling and shutdown events",
  "each test drives one order of events with the standard plugins; the protocol must hold for every plugin set and every history",
  ["src/rotor/actor_base.cpp", "include/rotor/actor_base.h", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/plugin_base.cpp"],
  [("actor_base_t::init_continue / shutdown_continue / do_initialize / init_start / init_finish / shutdown_start / shutdown_finish / on_start", "src/rotor/actor_base.cpp"),
   ("actor_base_t::activate_plugins / commit_plugin_activation / deactivate_plugins / commit_plugin_deactivation", "src/rotor/actor_base.cpp"),
   ("init_shutdown_plugin_t", "src/rotor/plugin/init_shutdown.cpp"), ("starter_plugin_t", "src/rotor/plugin/starter.cpp")],
  [("actor_base_t::state / plugins / activating_plugins / deactivating_plugins", "life cycle", "include/rotor/actor_base.h")])
p("P07", "The first shutdown reason wins and reaches those it concerns",
  "The reason of an actor's shutdown is the first one given to it and is never replaced or lost by later requests. "
  "A shutdown request for an actor that is not shutting down yet is passed to its supervisor once, with that reason; an actor that is configured to bring its supervisor down does so, with its own reason as the cause, and one that is not does not.",
  ["histories", "configurations"], "every order and number of shutdown requests from outside, from the supervisor, from links and from the actor itself, and every combination of the shutdown and escalation flags",
  "tests trigger a single shutdown with a single reason; competing reasons and flag combinations are a product space",
  ["src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/child_manager.cpp", "src/rotor/extended_error.cpp"],
  [("actor_base_t::do_shutdown / assign_shutdown_reason / shutdown_start / make_error", "src/rotor/actor_base.cpp"), ("supervisor_t::do_shutdown", "src/rotor/supervisor.cpp"), ("child_manager_plugin_t::cancel_init / remove_child / on_shutdown_fail / unsubscribe_all", "src/rotor/plugin/child_manager.cpp")],
  [("actor_base_t::shutdown_reason", "first reason", "include/rotor/actor_base.h")])
p("P08", "Held resources gate initialization and shutdown",
  "As long as an actor holds at least one resource it neither finishes initialization nor finishes shutdown; when the last one is released, exactly the phase that was waiting continues, and none is skipped or continued twice. "
  "The number of holdings of each resource is the number of acquisitions minus the number of releases, independent of other resources.",
  ["histories", "inputs"], "every sequence of acquire/release over any set of resource identifiers, interleaved with initialization and shutdown",
  "tests use one or two resources released in one order; the guard must hold for every count and every interleaving",
  ["src/rotor/plugin/resources.cpp", "include/rotor/plugin/resources.h"],
  [("resources_plugin_t::acquire / release / has / has_any / handle_init / handle_shutdown", "src/rotor/plugin/resources.cpp")],
  [("resources_plugin_t::resources", "holdings per resource", "include/rotor/plugin/resources.h")])
p("P09", "The registry maps a name to its one live registration",
  "A service name is registered to at most one address at a time: registering a free name succeeds, registering a taken one is answered with an error and changes nothing, deregistering a service or a whole address removes exactly those names, after which they can be registered again and are no longer found. "
  "A discovery request is answered at once, with the registered address or with an unknown-service error. "
  "A promise for a name is answered exactly once: immediately if it is registered, otherwise when it gets registered, unless it is cancelled first, and cancelling one promise affects no other.",
  ["histories", "inputs"], "every sequence of register, deregister, discover, promise and cancel requests by any number of clients and names",
  "the registry is a map kept in two directions plus a list of promises: agreement between them is a history property; tests walk single short scenarios",
  ["src/rotor/registry.cpp", "include/rotor/registry.h"],
  [("registry_t::on_reg / on_dereg / on_dereg_service / on_discovery / on_promise / on_cancel", "src/rotor/registry.cpp")],
  [("registry_t::registered_map / revese_map / promises", "service maps", "include/rotor/registry.h")])
p("P10", "An actor's own registrations and discoveries settle before it proceeds",
  "An actor that registers names or discovers services during initialization becomes initialized only after each registration was confirmed and each discovery was answered (and, where it asked for linking, linked); if any of them fails the actor shuts down with that failure as the cause. "
  "On shutdown every name the actor registered is deregistered, a pending discovery or promise is cancelled, and the actor finishes only after the registry confirmed that no registration is left. "
  "Each discovery invokes its callback exactly once, with the answer that belongs to its name.",
  ["histories", "fault_sequences"], "every set of registrations and discoveries, every order of the answers, errors, timeouts and of a shutdown between them",
  "tests take one registration and one or two discoveries with the answers in order",
  ["src/rotor/plugin/registry.cpp", "include/rotor/plugin/registry.h"],
  [("registry_plugin_t::on_registration / on_discovery / on_future / handle_init / handle_shutdown / continue_init", "src/rotor/plugin/registry.cpp"), ("register_name / discover_name / on_link; discovery_task_t::do_discover / on_discovery / post_discovery / do_cancel", "src/rotor/plugin/registry.cpp")],
  [("registry_plugin_t::register_map / discovery_map", "own registrations and discoveries", "include/rotor/plugin/registry.h")])
p("P11", "Spawned actors are restarted exactly as their policy says",
  "A spawned actor is restarted after its termination if and only if the policy allows it for the way it terminated (always; only after a normal termination; only after a failure; if the actor itself asks for it; never), the supervisor is not shutting down and the allowed number of attempts is not used up. "
  "The restart happens not earlier than the restart period after the previous instantiation, at once when the period has already elapsed; while it is pending it can be cancelled only by shutdown of the supervisor. "
  "Every attempt counts, a factory that throws counts as a failed attempt, and when a failed actor cannot be restarted any more and escalation is requested the supervisor shuts down because of it.",
  ["histories", "configurations", "inputs"], "every policy, attempt limit, restart period, clock and termination reason, and every history of terminations",
  "the decision is a function of seven inputs and a history; tests sample one path per policy",
  ["src/rotor/detail/child_info.cpp", "src/rotor/spawner.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/child_manager.cpp"],
  [("child_info_t::next_spawn / spawn_attempt", "src/rotor/detail/child_info.cpp"), ("spawner_t", "src/rotor/spawner.cpp"), ("supervisor_t::spawn", "src/rotor/supervisor.cpp"), ("child_manager_plugin_t::on_spawn / spawn / on_spawn_timer / remove_child", "src/rotor/plugin/child_manager.cpp")],
  [("child_info_t::attempts / max_attempts / policy / last_instantiation / active", "restart bookkeeping", "include/rotor/detail/child_info.h")])
p("P12", "Linked actors: a client never outlives the link's shutdown handshake",
  "A link request is accepted by a server that can accept it (operational, or merely not shutting down where operational was not required), kept until the server can accept it, and refused when the server is shutting down; each request is answered once. "
  "A server that shuts down asks every linked client to unlink and finishes its shutdown only when each of them has confirmed or gone; a client asked to unlink shuts down unless it declared that it tolerates that, and confirms the unlink once it can. "
  "A client that shuts down tells each server it is linked to, and a server forgets exactly the client that told it so.",
  ["histories", "schedules", "fault_sequences"], "every set of links in either direction, every order of link, unlink, error, timeout and shutdown events on both sides",
  "a two-party protocol with two independent life cycles; tests run some hand-picked orders",
  ["src/rotor/plugin/link_server.cpp", "src/rotor/plugin/link_client.cpp", "include/rotor/plugin/link_server.h", "include/rotor/plugin/link_client.h"],
  [("link_server_plugin_t::on_link_request / on_unlink_response / on_unlink_notify / handle_shutdown / handle_start", "src/rotor/plugin/link_server.cpp"), ("link_client_plugin_t::link / on_link_response / on_unlink_request / forget_link / handle_init / handle_shutdown", "src/rotor/plugin/link_client.cpp")],
  [("link_server_plugin_t::linked_clients", "clients of a server", "include/rotor/plugin/link_server.h"), ("link_client_plugin_t::servers_map", "servers of a client", "include/rotor/plugin/link_client.h")])
p("P13", "A supervisor starts after its children and finishes after all of them",
  "A supervisor asks every child it created to initialize, becomes initialized only when each of them did or was dealt with by policy, and starts its children only when it starts itself. "
  "On shutdown it asks every living child to shut down exactly once, and finishes only when no child is left; a child that failed to initialize is shut down, and with the strict policy that brings the supervisor down. "
  "A child that terminates is removed together with its subscriptions, and no record of it remains (the record of a spawned actor that is restarted keeps no terminated instance).",
  ["histories", "fault_sequences"], "every set of children, every order of their init confirmations, failures, timeouts, shutdowns and of the supervisor's own shutdown",
  "tests use trees of up to three actors failing in fixed places",
  ["src/rotor/plugin/child_manager.cpp", "src/rotor/supervisor.cpp", "include/rotor/plugin/child_manager.h"],
  [("child_manager_plugin_t::create_child / on_init / on_shutdown_trigger / on_shutdown_confirm / on_shutdown_fail / remove_child / handle_init / handle_shutdown / request_shutdown / cancel_init / init_continue", "src/rotor/plugin/child_manager.cpp")],
  [("supervisor_t::alive_actors, child_manager_plugin_t::actors_map", "children of the supervisor", "include/rotor/supervisor.h, include/rotor/plugin/child_manager.h")])
p("P14", "Subscriptions are released completely before an actor is gone",
  "Each subscription an actor holds is confirmed to it once and released once, an actor finishes shutting down only when all its subscriptions were released, and after that nothing of it is left in its supervisor's index of subscriptions. "
  "Subscriptions to addresses of another locality are requested from and released by that locality.",
  ["histories", "schedules"], "every set of local and foreign subscription points and every order of subscribe, unsubscribe and shutdown",
  "tests check that maps are empty at the end of a few scenarios",
  ["src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/foreigners_support.cpp", "src/rotor/address_mapping.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/plugin_base.cpp", "src/rotor/subscription_point.cpp"],
  [("lifetime_plugin_t", "src/rotor/plugin/lifetime.cpp"), ("foreigners_support_plugin_t", "src/rotor/plugin/foreigners_support.cpp"), ("supervisor_t::commit_unsubscription / subscribe / unsubscribe", "src/rotor/supervisor.cpp"), ("address_mapping_t", "src/rotor/address_mapping.cpp")],
  [("lifetime_plugin_t::points", "subscriptions of the actor", "include/rotor/plugin/lifetime.h")])
p("P15", "Thread backend and queues are safe under concurrent use",
  "Messages sent concurrently from any number of threads to one supervisor are each processed exactly once by that supervisor's thread, messages of one sender in order; no wake-up is lost; there is no data race in the library however actors are spread over threads.",
  ["schedules"], "every interleaving of senders and the receiving thread",
  "a test runs one interleaving per execution",
  ["src/rotor/thread/supervisor_thread.cpp", "src/rotor/thread/system_context_thread.cpp", "include/rotor/supervisor.h"],
  [("supervisor_thread_t::enqueue / intercept", "src/rotor/thread/supervisor_thread.cpp"), ("inbound queue", "include/rotor/supervisor.h")])
p("P16", "An error report keeps its whole chain of causes",
  "An error made from a cause keeps that cause and the request that failed; the root of a chain of errors is its last element, and the text of an error contains the context and code of every error of the chain in order from the outermost to the root.",
  ["inputs"], "every chain length and every combination of contexts, codes and causes",
  "tests use chains of length one to three",
  ["src/rotor/extended_error.cpp", "include/rotor/extended_error.h", "src/rotor/actor_base.cpp"],
  [("extended_error_t::root / message", "src/rotor/extended_error.cpp"), ("make_error", "src/rotor/extended_error.cpp, src/rotor/actor_base.cpp")])
p("P18", "Event-loop backends: timers settle once, foreign messages are handed over",
  "On the libev, boost::asio and FLTK backends a started timer is recorded under its identifier and handed to the event loop once; when the loop reports it due, its owner is called back exactly once as not cancelled and the record is gone; when it is cancelled, the owner is called back exactly once as cancelled, the loop's timer is stopped while it still exists, and a late expiry calls nobody back. Other timers are unaffected. A message sent from another thread is put to the inbound queue of the locality once and then the loop is woken up; the loop takes every message of that queue, in order, once (and, on libev and boost::asio, leaves none of them unprocessed).",
  ["schedules", "configurations"], "every table of pending timers, every queue content, every behaviour of the callbacks, every order in which expiry and cancellation arrive",
  "tests run one interleaving per backend, and only with one or two timers",
  ["src/rotor/asio/supervisor_asio.cpp", "src/rotor/ev/supervisor_ev.cpp", "src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/fltk/system_context_fltk.cpp"],
  [("do_start_timer / do_cancel_timer / enqueue / do_process / on_async of each backend", "src/rotor/*/supervisor_*.cpp")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")

NA = {
    "P15": "quantifies over interleavings of threads and the C++ memory model (lock-free queue, mutex/condition variable of the backend): the sequential contracts of this verifier (function-by-function, one thread) have no thread ownership logic, and no deductive verifier for concurrent C++ is installed; the sequential part (routing, draining, timers) is in P01 and P05",
}
sys.path.insert(0, os.path.join(HERE, "contracts"))
import importlib.util
spec = importlib.util.spec_from_file_location("RP", os.path.join(HERE, "contracts", "registry_of_properties.py"))
RP = importlib.util.module_from_spec(spec)
spec.loader.exec_module(RP)
checks, na = [], []
for x in P:
    i = x["id"]
    if i in RP.PROPS:
        pr = RP.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": pr.get("technique", "deductive verification of function contracts on the LLVM IR of the real sources (own VC generator, z3)"),
                       "level": pr["level"], "level_note": pr["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: contracts for the functions it depends on are not written")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
           "notes": "no hooks in /repo; the checks compile /repo's working tree to LLVM IR and verify the functions under contract; see DESIGN.md"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
