// P16: random chains of errors.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;

static void history(rng_t &rng, long) {
    std::vector<extended_error_ptr_t> chain; // the root first
    std::vector<std::string> texts;
    ctx_t ctx;
    auto sup = ctx.create_supervisor<sup_t>().timeout(ms(1000)).finish();
    auto act = sup->create_actor<sim::actor_t>().timeout(ms(1000)).finish();
    int n = rng.chance(10) ? 200 : 1 + rng.below(8);
    message_ptr_t req = new message_t<payload::start_actor_t>(act->get_address());
    for (int i = 0; i < n; ++i) {
        std::error_code ec;
        if (rng.chance(30)) ec = make_error_code(shutdown_code_t(rng.below(8)));
        else if (rng.chance(80)) ec = make_error_code(error_code_t(1 + rng.below(8)));
        std::string context = rng.chance(10) ? "" : "c" + std::to_string(rng.below(1000));
        auto next = chain.empty() ? extended_error_ptr_t{} : chain.back();
        auto with = rng.chance(30) ? req : message_ptr_t{};
        extended_error_ptr_t e;
        bool own = rng.chance(30);
        if (own) { e = static_cast<actor_base_t &>(*act).make_error(ec, next, with); context = act->get_identity(); }
        else e = make_error(context, ec, next, with);
        note("%s '%s' of %d, request %d", own ? "an actor's error" : "error", context.c_str(), ec.value(), (bool)with);
        REQ("P16", e && e->context == context && e->ec == ec && e->next == next && e->request == with, "error %d does not keep what it was made of", i);
        chain.push_back(e);
        texts.push_back(context + " " + ec.message());
        auto r = e->root();
        REQ("P16", r == chain.front(), "the root of error %d is not the first cause", i);
        std::string text;
        for (int k = i; k >= 0; --k) text += (k == i ? "" : " <- ") + texts[k];
        auto got = e->message();
        if (text != got) { // in order, every context and code
            std::size_t at = 0;
            for (int k = i; k >= 0; --k) {
                auto p = got.find(texts[k], at);
                REQ("P16", p != std::string::npos, "the text of error %d lacks its cause %d: %s", i, k, got.substr(0, 200).c_str());
                at = p + texts[k].size();
            }
        }
    }
    sup->do_process();
    sup->do_shutdown();
    sup->do_process();
    for (auto &e : chain) REQ("P16", e->root() == chain.front(), "a chain of errors changed");
}
int main(int argc, char **argv) { return run(argc, argv, history); }
