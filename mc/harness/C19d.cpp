#include "C19.hpp"
namespace {
C19_WRAP(views, "views", switch (choose(4)) { case 0: { auto h = build<dart::heap>(v); wrap_all(dart::heap::view(h), v, "heap view", which); break; } case 1: { auto b = fin<dart::buffer, dart::heap>(v); wrap_all(dart::buffer::view(b), v, "buffer view", which); break; } case 2: { auto p = build<dart::packet>(v); wrap_all(dart::packet::view(p), v, "packet view", which); break; } default: { auto p = dart::packet(fin<dart::buffer, dart::heap>(v)); wrap_all(dart::packet::view(p), v, "finalized packet view", which); } })
}
