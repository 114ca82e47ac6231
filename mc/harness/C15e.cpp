// C15: typed wrappers.
#include "c15.hpp"
namespace {
MC_SPACE(wrap, "wrappers", "every ordered pair of the 76 values, the left in a typed wrapper over 4 representations, the right bare in 6 representations") {
  int r1 = choose(4), r2 = std::vector<int> {0, 1, 2, 3, 4, 8}[choose(6)]; auto& a = pick(fam()); auto& b = pick(fam()); if (a.s.size() > 60000 || b.s.size() > 60000) mc::prune(); MC_NOTE(std::string("wrapped ") + rep_name[r1] + " " + dump(a) + " and " + rep_name[r2] + " " + dump(b));
  with_w(r1, a, [&] (auto const& x) { with(r2, b, [&] (auto& y) { cmp(x, y, same(a, b), "wrapper and value"); }); cmp(x, x, true, "wrapper and itself"); }); mc::state(mc::mix(hash(a), hash(b)));
}
}
