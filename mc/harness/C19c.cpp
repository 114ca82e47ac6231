#include "C19.hpp"
namespace {
C19_WRAP(pkt, "packets", switch (choose(3)) { case 0: wrap_all(build<dart::packet>(v), v, "packet", which); break; case 1: wrap_all(dart::packet(fin<dart::buffer, dart::heap>(v)), v, "finalized packet", which); break; default: wrap_all(build<dart::unsafe_packet>(v), v, "unsafe packet", which); })
MC_SPACE(rep2, "assignment, packet", "every pool value's wrapper over packet reassigned from native values") { auto& v = pick(pool()); MC_NOTE(dump(v)); replace<dart::packet>(v); mc::nontrivial(); mc::state(hash(v)); }
}
