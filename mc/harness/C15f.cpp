// C15: pairs of typed wrappers, produced values.
#include "c15.hpp"
namespace {
MC_SPACE(wrapw, "wrapper-pairs", "every ordered pair of the 76 values, both in typed wrappers, over every pair of 4 representations") {
  int r1 = choose(4), r2 = choose(4); auto& a = pick(fam()); auto& b = pick(fam()); if (a.s.size() > 60000 || b.s.size() > 60000) mc::prune(); MC_NOTE("wrapped " + dump(a) + " and wrapped " + dump(b));
  auto go = [&] (auto const& x, auto const& y) { cmp(x, y, same(a, b), "two wrappers"); };
  with_w(r1, a, [&] (auto const& x) { with_w(r2, b, [&] (auto const& y) { go(x, y); }); }); mc::state(mc::mix(hash(a), hash(b)));
}
MC_SPACE(made, "produced", "finalized values of 17x17 layouts made in all 24 ways: equal to each other, to the dynamic value and unequal to a neighbour") {
  int path = choose(paths::kPaths); Val v = Val::obj({{"a", layout_values()[choose(17)]}, {"bb", layout_values()[choose(17)]}}); dart::buffer b; if (!paths::produce(path, v, b)) mc::prune(); auto h = build<dart::heap>(v); auto f = h.finalize(); std::string w = paths::name(path);
  cmp(b, f, true, w); cmp(b, h, true, w); cmp(dart::packet(b), h, true, w); cmp(b.lift(), f, true, w); cmp(b.lift(), h, true, w); Val o = v; o.o["a"] = Val::str("other"); auto oh = build<dart::heap>(o); cmp(b, oh, same(v, o), w); cmp(b, oh.finalize(), same(v, o), w); o = v; o.o["c"] = Val::null(); cmp(b, build<dart::heap>(o).finalize(), false, w); mc::state(hash(v));
}
MC_SPACE(alias, "shared-parts", "values compared with copies, mutated copies and their own elements, for every value as an element") {
  auto& v = pick(fam()); if (v.s.size() > 60000) mc::prune(); Val w = Val::obj({{"w", v}}); auto h = build<dart::heap>(w); auto c = h; auto f = h.finalize(), g = f; auto p = dart::packet(f); auto q = p; cmp(h, c, true, "copy"); cmp(f, g, true, "copy"); cmp(p, q, true, "copy"); c.add_field("w", "changed"); cmp(h, c, same(v, Val::str("changed")), "changed copy"); q.lift().add_field("x", 1); cmp(p, q, false, "changed packet copy");
  cmp(h["w"], f["w"], true, "element"); cmp(h["w"], h, same(v, w), "element and whole"); cmp(f["w"], f, same(v, w), "element and whole"); h = build<dart::heap>(v); cmp(h, f["w"], true, "value and element"); h = dart::heap::make_null(); cmp(h, f["w"], v.k == Val::Null, "null and element"); mc::state(hash(v));
}
}
