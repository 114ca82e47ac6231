#include "C19.hpp"
namespace {
C19_WRAP(dyn, "dynamic", if (mc::flip()) wrap_all(build<dart::heap>(v), v, "heap", which); else wrap_all(build<dart::unsafe_heap>(v), v, "unsafe heap", which))
MC_SPACE(rep1, "assignment, heap", "every pool value's wrapper over heap reassigned from native values") { auto& v = pick(pool()); MC_NOTE(dump(v)); replace<dart::heap>(v); mc::nontrivial(); mc::state(hash(v)); }
}
