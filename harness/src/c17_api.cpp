// The calls under test, compiled with the instrumentation of the thread sanitizer. The run-time library of
// the sanitizer is not linked: c17.cpp supplies the hooks and schedules the threads at them.
#include <cetl/pf17/sys/memory_resource.hpp>

namespace pm = cetl::pf17::pmr;
extern "C" {
void* api_get_default() { return pm::get_default_resource(); }
void* api_set_default(void* r) { return pm::set_default_resource(static_cast<pm::memory_resource*>(r)); }
void* api_get_new_delete() { return pm::new_delete_resource(); }
void* api_set_new_delete(void* r) { return pm::deviant::set_new_delete_resource(static_cast<pm::memory_resource*>(r)); }
void* api_null() { return pm::null_memory_resource(); }
/// Looks at the object behind a pointer that a call has returned.
int api_touch(void* r) { return static_cast<pm::memory_resource*>(r)->is_equal(*static_cast<pm::memory_resource*>(r)) ? 1 : 0; }
}
