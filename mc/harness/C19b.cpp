#include "C19.hpp"
namespace {
C19_WRAP(fin_, "finalized", if (mc::flip()) wrap_all(fin<dart::buffer, dart::heap>(v), v, "buffer", which); else wrap_all(fin<dart::unsafe_buffer, dart::unsafe_heap>(v), v, "unsafe buffer", which))
}
