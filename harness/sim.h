// A deterministic backend for the real library: timers fire when the driver says so, nothing runs concurrently.
// Compiled with -fno-access-control so that drivers can observe the internals of the objects under test.
#pragma once
#include "rotor.hpp"
#include <cstdio>
#include <cstdlib>
#include <list>
#include <vector>
#include <functional>
#include <string>

namespace sim {
namespace r = rotor;

inline r::pt::time_duration ms(int n) { return r::pt::milliseconds{n}; }

struct sup_t : r::supervisor_t {
    using r::supervisor_t::supervisor_t;
    struct timer_t {
        r::request_id_t id;
        r::timer_handler_base_t *handler;
        long due;
    };
    std::list<timer_t> timers;
    long now = 0;
    std::function<void(sup_t &, r::plugin::plugin_base_t &)> configurer;

    void do_start_timer(const r::pt::time_duration &interval, r::timer_handler_base_t &h) noexcept override {
        timers.push_back({h.request_id, &h, now + (long)interval.total_milliseconds()});
    }
    void do_cancel_timer(r::request_id_t id) noexcept override {
        for (auto it = timers.begin(); it != timers.end(); ++it)
            if (it->id == id) {
                auto h = it->handler;
                timers.erase(it);
                h->owner->on_timer_trigger(id, true);
                return;
            }
    }
    void start() noexcept override {}
    void shutdown() noexcept override { do_shutdown(); }
    void enqueue(r::message_ptr_t m) noexcept override {
        static_cast<sup_t *>(locality_leader)->queue.emplace_back(std::move(m));
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::supervisor_t::configure(p);
        if (configurer)
            configurer(*this, p);
    }
    // fire the timer that is due first; false if there is none
    bool fire_next() {
        if (timers.empty())
            return false;
        auto best = timers.begin();
        for (auto it = timers.begin(); it != timers.end(); ++it)
            if (it->due < best->due)
                best = it;
        auto t = *best;
        timers.erase(best);
        if (t.due > now)
            now = t.due;
        t.handler->owner->on_timer_trigger(t.id, false);
        return true;
    }
    bool fire(r::request_id_t id) {
        for (auto it = timers.begin(); it != timers.end(); ++it)
            if (it->id == id) {
                auto t = *it;
                timers.erase(it);
                t.handler->owner->on_timer_trigger(t.id, false);
                return true;
            }
        return false;
    }
};
using sup_ptr_t = r::intrusive_ptr_t<sup_t>;

struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    std::function<void(actor_t &, r::plugin::plugin_base_t &)> configurer;
    std::function<void(actor_t &)> started, finished;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        if (configurer)
            configurer(*this, p);
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        if (started)
            started(*this);
    }
    void shutdown_finish() noexcept override {
        r::actor_base_t::shutdown_finish();
        if (finished)
            finished(*this);
    }
};
using actor_ptr_t = r::intrusive_ptr_t<actor_t>;

struct ctx_t : r::system_context_t {
    std::vector<std::string> errors;
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) noexcept override { errors.push_back(ec->message()); }
};

[[noreturn]] inline void fail(const char *what) {
    std::printf("FAILED: %s\n", what);
    std::fflush(stdout);
    std::_Exit(1);
}
inline void check(bool ok, const char *what) {
    if (!ok)
        fail(what);
}
} // namespace sim
