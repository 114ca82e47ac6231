#include "C19.hpp"
namespace {
// Between representations.
template <class B> struct final_only { static constexpr bool value = false; };
template <template <class> class R> struct final_only<dart::basic_buffer<R>> { static constexpr bool value = true; };
template <template <class> class W, class A, class B> void across(Val const& v, A const& src, bool finalized, std::string const& who) {
  if (!Kind<W<A>>::takes(v)) mc::prune(); W<A> a(src); mc::nontrivial(); mc::step();
  bool want = !final_only<B>::value || finalized || v.k == Val::Obj || v.k == Val::Null;
  std::unique_ptr<W<B>> b; Err e = attempt([&] { b.reset(new W<B>(a)); }); MC_CHECK((e == Err::none) == want && (want || e == Err::type), "conversion of wrappers: " + who, who + " of " + dump(v) + " gives " + name(e)); if (want) judge(*b, v, who); judge(a, v, who + " source");
}
template <template <class> class W> void across_all(Val const& v, int how) {
  switch (how) {
    case 0: across<W, dart::heap, dart::packet>(v, build<dart::heap>(v), false, "heap to packet"); break;
    case 1: across<W, dart::buffer, dart::packet>(v, fin<dart::buffer, dart::heap>(v), true, "buffer to packet"); break;
    case 2: across<W, dart::packet, dart::heap>(v, build<dart::packet>(v), false, "packet to heap"); break;
    case 3: across<W, dart::packet, dart::heap>(v, dart::packet(fin<dart::buffer, dart::heap>(v)), true, "finalized packet to heap"); break;
    case 4: across<W, dart::packet, dart::buffer>(v, build<dart::packet>(v), false, "packet to buffer"); break;
    case 5: across<W, dart::packet, dart::buffer>(v, dart::packet(fin<dart::buffer, dart::heap>(v)), true, "finalized packet to buffer"); break;
    case 6: across<W, dart::buffer, dart::heap>(v, fin<dart::buffer, dart::heap>(v), true, "buffer to heap"); break;
    default: across<W, dart::heap, dart::buffer>(v, build<dart::heap>(v), false, "heap to buffer"); break;
  }
}
MC_SPACE(cross, "across representations", "every pool value's wrapper in every representation converted to the wrapper of every other, then judged") {
  auto& v = pick(pool()); int how = choose(8); MC_NOTE(dump(v));
  switch (v.k) { case Val::Obj: across_all<dart::basic_object>(v, how); break; case Val::Arr: across_all<dart::basic_array>(v, how); break; case Val::Str: across_all<dart::basic_string>(v, how); break; case Val::Bool: across_all<dart::basic_flag>(v, how); break; case Val::Null: across_all<dart::basic_null>(v, how); break; default: across_all<dart::basic_number>(v, how); }
  mc::state(mc::mix(hash(v), how));
}
// Objects and arrays are also made straight from other representations.
template <class B, class A> void direct(A const& a, Val const& v, bool finalized, std::string const& who) {
  using O = dart::basic_object<B>; bool fine = !final_only<B>::value || finalized || v.k == Val::Obj; mc::step(4); if (v.k == Val::Obj) mc::nontrivial();
  auto one = [&] (auto&& make) { std::unique_ptr<O> o; Err e = attempt([&] { o.reset(new O(make())); }); MC_CHECK(e == (fine && v.k == Val::Obj ? Err::none : Err::type), "object from " + who, "object from " + who + " " + dump(v) + " gives " + name(e)); if (o) judge(*o, v, "object from " + who); };
  one([&] { return O(a); }); one([&] { A t = a; return O(std::move(t)); }); Val after = read(a); MC_CHECK(same(after, v), "source changed", who);
}
MC_SPACE(direct_, "objects from other representations", "every pool value in every representation into the object wrapper of every other") {
  auto& v = pick(pool()); int how = choose(6); MC_NOTE(dump(v)); mc::state(mc::mix(hash(v), how));
  switch (how) { case 0: direct<dart::packet>(build<dart::heap>(v), v, false, "heap to packet"); break; case 1: direct<dart::packet>(fin<dart::buffer, dart::heap>(v), v, true, "buffer to packet"); break; case 2: direct<dart::heap>(build<dart::packet>(v), v, false, "packet to heap"); break; case 3: direct<dart::heap>(fin<dart::buffer, dart::heap>(v), v, true, "buffer to heap"); break; case 4: direct<dart::buffer>(build<dart::heap>(v), v, false, "heap to buffer"); break; default: direct<dart::buffer>(dart::packet(fin<dart::buffer, dart::heap>(v)), v, true, "finalized packet to buffer"); }
}
// Arithmetic against native operands, in both orders.
template <class P, class T> void arith(P const& p, Val const& v, T x, std::string const& who) {
  dart::basic_number<P> w(p); double n = v.k == Val::Int ? (double) v.i : v.d; mc::step(8); mc::nontrivial();
  auto is = [&] (double got, double want, char const* op) { MC_CHECK(bits(got) == bits(want) || (std::isnan(got) && std::isnan(want)), std::string("arithmetic ") + op + ", " + who, who + " " + dump(v) + ": " + op + " with " + std::to_string(x) + " gives " + std::to_string(got) + ", expected " + std::to_string(want)); };
  is(w + x, n + x, "w + x"); is(x + w, x + n, "x + w"); is(w - x, n - x, "w - x"); is(x - w, x - n, "x - w"); is(w * x, n * x, "w * x"); is(x * w, x * n, "x * w"); is(w / x, n / x, "w / x"); is(x / w, x / n, "x / w"); expect(w, v, who + " after arithmetic");
}
template <class P, class T> void update(P const& p, Val const& v, T x, std::string const& who) {
  double n = v.k == Val::Int ? (double) v.i : v.d; mc::step(4); dart::basic_number<P> w(p), c = w;
  auto is = [&] (dart::basic_number<P> const& r, double want, char const* op) { MC_CHECK(&r == &w, "returns itself", op); double got = w.numeric(); MC_CHECK(bits(got) == bits(want) || (std::isnan(got) && std::isnan(want)), std::string("update ") + op + ", " + who, who + " " + dump(v) + " " + op + " gives " + std::to_string(got) + ", expected " + std::to_string(want)); MC_CHECK(w.is_decimal() || w.is_integer(), "kind", who); w = c; };
  is(w += x, n + x, "+="); is(w -= x, n - x, "-="); is(w *= x, n * x, "*="); is(w /= x, n / x, "/="); is(++w, n + 1, "++w"); is(--w, n - 1, "--w");
  { auto old = w++; expect(old, v, "result of w++"); is(w, n + 1, "w++"); } { auto old = w--; expect(old, v, "result of w--"); is(w, n - 1, "w--"); } expect(c, v, who + " copy of an updated number");
}
template <class F> void each_native(F&& f) {
  switch (choose(10)) {
    case 0: f(pick({0, 1, -3, INT_MAX, INT_MIN})); break; case 1: f(pick({0u, 7u, UINT_MAX})); break; case 2: f((short) pick({-5, 32767})); break; case 3: f(pick({INT64_MIN, INT64_MAX, int64_t(1) << 53, int64_t(9007199254740993)})); break; case 4: f(pick({uint64_t(3), UINT64_MAX})); break;
    case 5: f(pick({0.1f, -2.5f})); break; case 6: f(pick({0.0, -0.0, 0.1, 1e300, -1e-300, 1.0 / 3})); break; case 7: f('a'); break; case 8: f(true); break; default: f((unsigned char) 200); break;
  }
}
std::vector<Val> numbers() { std::vector<Val> r; for (auto& v : scalars()) if (v.k == Val::Int || v.k == Val::Dec) r.push_back(v); return r; }
MC_SPACE(arithmetic, "arithmetic", "every boundary number in 6 representations, + - * / with 26 native operands of 10 types in both orders, and += -= *= /= ++ -- where mutable") {
  static auto const ns = numbers(); auto& v = pick(ns); int r = choose(6); MC_NOTE(dump(v));
  each_native([&] (auto x) {
    switch (r) {
      case 0: { auto h = build<dart::heap>(v); arith(h, v, x, "heap"); update(h, v, x, "heap"); break; }
      case 1: { auto b = fin<dart::buffer, dart::heap>(v); arith(b, v, x, "buffer"); break; }
      case 2: { auto p = build<dart::packet>(v); arith(p, v, x, "packet"); update(p, v, x, "packet"); break; }
      case 3: { auto p = dart::packet(fin<dart::buffer, dart::heap>(v)); arith(p, v, x, "finalized packet"); update(p, v, x, "finalized packet"); break; }
      case 4: { auto b = fin<dart::buffer, dart::heap>(v); arith(dart::buffer::view(b), v, x, "buffer view"); break; }
      default: { auto h = build<dart::unsafe_heap>(v); arith(h, v, x, "unsafe heap"); update(h, v, x, "unsafe heap"); }
    }
    mc::state(mc::mix(mc::mix(hash(v), r), bits((double) x) ^ sizeof x));
  });
}
// Concatenation in written order.
template <class P> void concat(P const& p, std::string const& a, std::string const& b, std::string const& who) {
  dart::basic_string<P> w(p); mc::step(8); mc::nontrivial(); Val ab = Val::str(a + b), ba = Val::str(b + a);
  judge(w + b, ab, who + " + std::string"); judge(b + w, ba, "std::string + " + who); judge(w + sv(b), ab, who + " + string_view"); judge(sv(b) + w, ba, "string_view + " + who);
  if (b.find('\0') == std::string::npos) { judge(w + b.c_str(), ab, who + " + char const*"); judge(b.c_str() + w, ba, "char const* + " + who); }
  auto c = w; auto& r = (c += sv(b)); MC_CHECK(&r == &c, "returns itself", "+="); judge(c, ab, who + " += string_view"); expect(w, Val::str(a), "copy of an extended string"); c = w; c += c.strv(); judge(c, Val::str(a + a), who + " += itself"); judge(dart::basic_string<P>(sv(a), sv(b)), ab, "made of two parts");
  expect(P::make_string(sv(a), sv(b)), ab, "make_string of two parts");
}
MC_SPACE(concatenation, "concatenation", "8 x 8 strings (empty, NULs, around the inline limit, around the 16 bit length) concatenated both ways as std::string, string_view and char const*, 4 representations") {
  static std::vector<std::string> const ss {"", "a", std::string("b\0c", 3), rep('d', 7), rep('e', 8), rep('f', 15), rep('g', 33), rep('h', 65530)};
  auto& a = pick(ss); auto& b = pick(ss); Val v = Val::str(a); MC_NOTE(mc::show(a.substr(0, 20)) + " with " + mc::show(b.substr(0, 20)));
  int r = choose(4); mc::state(mc::mix(mc::mix(mc::hash_str(a), mc::hash_str(b)), r));
  switch (r) { case 0: concat(build<dart::heap>(v), a, b, "heap"); break; case 1: concat(build<dart::packet>(v), a, b, "packet"); break; case 2: concat(dart::packet(fin<dart::buffer, dart::heap>(v)), a, b, "finalized packet"); break; default: concat(build<dart::unsafe_heap>(v), a, b, "unsafe heap"); }
}
MC_SPACE(literal, "literals", "string, integer and decimal literals") {
  using namespace dart::literals;
  switch (choose(3)) { case 0: judge("text"_dart, Val::str("text"), "string literal"); judge(""_dart, Val::str(""), "string literal"); judge("n\0l"_dart, Val::str(std::string("n\0l", 3)), "string literal"); judge("sixteen and more characters"_dart, Val::str("sixteen and more characters"), "string literal"); break;
    case 1: judge(0_dart, Val::integer(0), "integer literal"); judge(9223372036854775807_dart, Val::integer(INT64_MAX), "integer literal"); judge(4294967296_dart, Val::integer(1ll << 32), "integer literal"); break;
    default: judge(2.5_dart, Val::decimal(2.5), "decimal literal"); judge(0.1_dart, Val::decimal((double) 0.1L), "decimal literal"); judge(1e300_dart, Val::decimal((double) 1e300L), "decimal literal"); }
  mc::nontrivial(); mc::state(1);
}

// Assigning to a handle replaces what it holds, whatever that was.
template <class P> void rebind(P const& was, Val const& v, std::string const& who) {
  auto one = [&] (auto&& x, Val const& want, char const* what) { P p = was, c = was; auto& r = (p = x); mc::step(); MC_CHECK(&r == &p, "returns itself", what); expect(p, want, who + " " + dump(v) + " assigned " + what); expect(c, v, who + " copy of a value assigned " + what); P q = was; q = std::move(x); expect(q, want, who + " " + dump(v) + " move assigned " + what); expect(was, v, who + " original"); };
  Val o = Val::obj({{"z", Val::integer(1)}}), a = Val::arr({Val::integer(1), Val::integer(2)}); mc::nontrivial();
  one(5, Val::integer(5), "int"); one(2.5, Val::decimal(2.5), "double"); one(true, Val::boolean(true), "bool"); one(nullptr, Val::null(), "nullptr"); one(std::string("text"), Val::str("text"), "string"); one("literal", Val::str("literal"), "literal"); one(sv("view"), Val::str("view"), "string_view"); one(std::vector<int> {1, 2}, a, "vector"); one(std::map<std::string, int> {{"z", 1}}, o, "map");
  one(dart::heap(build<dart::heap>(o)), o, "heap"); one(dart::buffer(build<dart::heap>(o).finalize()), o, "buffer"); one(build<dart::packet>(a), a, "packet");
  one(dart::heap::object("z", 1), o, "heap object"); one(dart::packet::array(1, 2), a, "packet array"); one(dart::packet::number(5), Val::integer(5), "packet number"); one(dart::packet::string("text"), Val::str("text"), "packet string"); one(dart::packet::null(), Val::null(), "packet null"); one(dart::packet::flag(true), Val::boolean(true), "packet flag");
  { P p = was; p = p; expect(p, v, who + " assigned itself"); auto& self = p; p = std::move(self); expect(p, v, who + " move assigned itself"); }
}
MC_SPACE(rebinding, "assignment", "every pool value in 3 representations assigned natives of 9 kinds, dynamic, finalized and general values, typed wrappers and itself") {
  auto& v = pick(pool()); int r = choose(3); MC_NOTE(dump(v)); mc::state(mc::mix(hash(v), r));
  switch (r) { case 0: rebind(build<dart::heap>(v), v, "heap"); break; case 1: rebind(build<dart::packet>(v), v, "packet"); break; default: rebind(dart::packet(fin<dart::buffer, dart::heap>(v)), v, "finalized packet"); }
}
}
