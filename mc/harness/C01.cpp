// C01: finalize / definalize preserve values exactly.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

struct Kit {   // every way down and up again
  static void roundtrip(Val const& v) {
    auto h = build<dart::heap>(v);
    MC_NOTE("value " + dump(v));
    mc::state(hash(v));
    expect(h, v, "the dynamic value itself");
    auto b = h.finalize(); mc::step();
    expect(b, v, "heap.finalize()");
    expect(h, v, "the source after finalize()");
    auto up = b.definalize(); mc::step();
    expect(up, v, "buffer.definalize()");
    auto again = up.lower(); mc::step();
    expect(again, v, "heap.lower() of the definalized value");
    mc::nontrivial();
  }
};

// Two fields: all neighbouring key lengths and value layouts.
MC_SPACE(two, "two-fields", "objects of 0..2 fields, key lengths 0..8 x 17 value layouts per field") {
  int n = choose(3);
  Val v = Val::obj();
  for (int i = 0; i < n; ++i) { std::string k = rep(char('a' + i), choose(9)); Val x = pick(layout_values()); v.o[k] = x; }
  Kit::roundtrip(v);
}
MC_SPACE(three, "three-fields", "objects of 3 fields, key lengths 1,2,3 (thorough 0..4), 17 value layouts per field (quick: 11)") {
  Val v = Val::obj();
  for (int i = 0; i < 3; ++i) {
    int kl = mc::thorough() ? choose(5) : 1 + choose(3);
    v.o[rep(char('a' + i), kl)] = layout_values()[choose(mc::thorough() ? 17 : 11)];
  }
  Kit::roundtrip(v);
}
MC_SPACE(scal, "scalar-boundaries", "every boundary scalar under key lengths 0..3, directly and as the only or second element of an array") {
  Val x = pick(scalars()); std::string k = rep('k', choose(4));
  switch (choose(5)) {
    case 0: Kit::roundtrip(Val::obj({{k, x}})); break;
    case 1: Kit::roundtrip(Val::obj({{k, Val::arr({x})}})); break;
    case 2: Kit::roundtrip(Val::obj({{k, Val::arr({Val::boolean(true), x})}})); break;
    case 3: Kit::roundtrip(Val::obj({{k, Val::arr({x, Val::boolean(true), x})}})); break;
    case 4: Kit::roundtrip(Val::obj({{k, Val::obj({{"q", x}})}, {k + "z", x}})); break;
  }
}
MC_SPACE(arrs, "array-elements", "arrays of 0..4 (thorough 5) elements over 13 layouts, under key lengths 0..2") {
  static std::vector<Val> const e(layout_values().begin(), layout_values().begin() + 13);
  int n = choose(mc::thorough() ? 5 : 4);
  std::string k = rep('k', choose(3));
  Val a = Val::arr(); for (int i = 0; i < n; ++i) a.a.push_back(pick(e));
  Kit::roundtrip(Val::obj({{k, a}}));
}
Val tree(int& budget, int depth) {
  static Val const leaves[] = {Val::null(), Val::integer(3), Val::str("abc"), Val::decimal(0.1)};
  int kind = depth == 0 || budget <= 0 ? 0 : choose(3);
  if (kind == 0) return pick(leaves);
  int most = std::min(budget, 3), n = choose(most + 1);
  budget -= n;
  Val v = kind == 1 ? Val::arr() : Val::obj();
  for (int i = 0; i < n; ++i) { Val c = tree(budget, depth - 1); if (kind == 1) v.a.push_back(c); else v.o[rep(char('a' + i), 1 + i % 2)] = c; }
  return v;
}
MC_SPACE_X(trees, "trees", "every object tree with at most 5 (thorough 6) nodes below the root, depth 4, 4 leaf layouts", 4, true) {
  int budget = mc::thorough() ? 6 : 5;
  int n = choose(4); budget -= n;
  Val v = Val::obj();
  for (int i = 0; i < n; ++i) v.o[rep(char('a' + i), 1 + i % 2)] = tree(budget, 3);
  Kit::roundtrip(v);
}
MC_SPACE_X(deep, "deep-nesting", "chains of nested aggregates of depth 0..64 (thorough 200), objects, arrays and alternating, with every key length 0..3", 1, true) {
  int d = choose(mc::thorough() ? 201 : 65); int mode = choose(3); std::string k = rep('d', choose(4));
  Val v = Val::str("leaf");
  for (int i = 0; i < d; ++i) v = (mode == 0 || (mode == 2 && i % 2)) ? Val::obj({{k, v}, {k + "x", Val::boolean(true)}}) : Val::arr({v, Val::integer(i)});
  Kit::roundtrip(Val::obj({{k, v}}));
}
MC_SPACE_X(flat, "flat-sizes", "flat objects and arrays of every size 0..300 (thorough 2000) with values cycling through all layouts at 17 phases", 2, true) {
  int n = choose(mc::thorough() ? 2001 : 301), phase = choose(mc::thorough() ? 17 : 4), mode = choose(2);
  Val v = mode ? Val::arr() : Val::obj();
  for (int i = 0; i < n; ++i) {
    Val const& x = layout_values()[(i * 7 + phase) % 17];
    if (mode) v.a.push_back(x); else v.o[std::to_string(i * (1 + phase))] = x;
  }
  Kit::roundtrip(mode ? Val::obj({{"a", v}}) : v);
}
MC_SPACE_X(lens, "string-and-key-lengths", "every string length and key length 0..300 plus 65530..65540 (keys to 65535), before and after every value layout", 2, true) {
  int which = choose(2), l = choose(301 + 11);
  if (l > 300) l = 65530 + (l - 301);
  if (which == 1 && l > 65535) mc::prune();
  Val x = layout_values()[choose(l > 300 ? 6 : 11)];
  if (which == 0) Kit::roundtrip(Val::obj({{"b", Val::str(rep('z', l))}, {"c", x}, {"d", Val::arr({Val::str(rep('y', l)), x})}}));
  else Kit::roundtrip(Val::obj({{rep('k', l), x}, {rep('l', l), x}, {"", x}}));
}

// Histories of conversions, over all packet types and conversion entry points.
template <class H, class B, class P> void histories() {
  static std::vector<Val> const vals = {Val::obj(), Val::obj({{"a", Val::integer(1)}, {"bb", Val::str("x")}}),
    Val::obj({{"", Val::arr({Val::null(), Val::obj({{"z", Val::decimal(0.1)}}), Val::str(rep('q', 20))})}, {"n", Val::null()}})};
  Val v = pick(vals); MC_NOTE("value " + dump(v));
  P cur = build<P>(v);
  int steps = choose(mc::thorough() ? 5 : 4) ;
  for (int i = 0; i <= steps; ++i) {
    int op = choose(12); mc::step();
    MC_NOTE("conversion " + std::to_string(op));
    switch (op) {
      case 0: cur.finalize(); break;
      case 1: cur.definalize(); break;
      case 2: cur.lower(); break;
      case 3: cur.lift(); break;
      case 4: cur = P {H {cur}}; break;
      case 5: cur = P {B {cur}}; break;
      case 6: cur = P {H {std::move(cur)}}; break;
      case 7: cur = P {B {std::move(cur)}}; break;
      case 8: { H h {cur}; B b {h}; H h2 {b}; cur = P {h2.finalize()}; break; }
      case 9: { B b {cur}; cur = P {b.lift()}; break; }
      case 10: cur = P {std::move(cur).finalize()}; break;
      case 11: { P copy = cur; copy.lower(); expect(copy, v, "the finalized copy"); cur = std::move(copy).definalize(); break; }
    }
    expect(cur, v, "packet after conversions");
    bool want = op == 0 || op == 2 || op == 5 || op == 7 || op == 8 || op == 10;
    MC_CHECK(cur.is_finalized() == want, "finalized state", "is_finalized() is wrong after conversion " + std::to_string(op));
    mc::state(mc::mix(hash(v), mc::mix(i, cur.is_finalized())));
  }
  mc::nontrivial();
}
MC_SPACE(hist, "conversion-histories", "every sequence of 1..4 (thorough 5) of 12 conversion operations on 3 objects, std::shared_ptr") { histories<dart::heap, dart::buffer, dart::packet>(); }
MC_SPACE(histu, "conversion-histories-unsafe", "the same with unsafe_ptr") { histories<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>(); }

// Values that cannot be finalized are rejected and stay intact.
MC_SPACE(roots, "non-object-roots", "every scalar and array as the root of finalize()") {
  Val x = pick(scalars()); if (choose(2)) x = Val::arr({x});
  MC_NOTE("value " + dump(x));
  auto h = build<dart::heap>(x); dart::packet p = h; mc::step(2);
  bool isobj = x.k == Val::Obj;
  expect_err(attempt([&] { auto b = h.finalize(); expect(b, x, "finalized object"); }), isobj ? Err::none : Err::type, "finalize() of a root");
  expect_err(attempt([&] { p.finalize(); }), isobj ? Err::none : Err::type, "packet finalize() of a root");
  expect(h, x, "value after a rejected finalize()"); expect(p, x, "packet after a rejected finalize()");
  mc::nontrivial();
}

}
