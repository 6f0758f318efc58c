// Emits the inline functions of rotor/supervisor.h (no code of its own): the verifier needs a translation unit that uses them.
#include "rotor.hpp"
namespace rotor {
size_t emit(plugin::delivery_plugin_t<plugin::local_delivery_t> &d) {
    return d.plugin::delivery_plugin_t<plugin::local_delivery_t>::process();
}
size_t emit(plugin::delivery_plugin_t<plugin::inspected_local_delivery_t> &d) {
    return d.plugin::delivery_plugin_t<plugin::inspected_local_delivery_t>::process();
}
size_t emit(supervisor_t &s) { return s.do_process(); }
} // namespace rotor
