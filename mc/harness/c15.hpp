// C15: equality. Shared by the translation units of the check.
#pragma once
#include "paths.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {

// Semantic equality of model values (no NaN or signed zeros in the alphabet).
template <class A, class B> void cmp(A const& a, B const& b, bool want, std::string const& what) {
  mc::step();
  bool e = a == b, n = a != b, r = b == a, rn = b != a;
  if (e != want || r != want || n == want || rn == want) mc::fail("wrong equality: " + what, what + ": == gives " + (e ? "true" : "false") + ", reversed " + (r ? "true" : "false") + ", != gives " + (n ? "true" : "false") + ", reversed " + (rn ? "true" : "false") + "; expected " + (want ? "equal" : "unequal"));
}
template <class B> B fin(Val const& v, B*) { B root = build<typename std::conditional<std::is_same<B, dart::buffer>::value, dart::heap, typename std::conditional<std::is_same<B, dart::unsafe_buffer>::value, dart::unsafe_heap, dart::basic_heap<dart::skinny_ptr>>::type>::type>(Val::obj({{"w", v}})).finalize(); return root["w"]; }
enum { kReps = 13 };
char const* rep_name[kReps] = {"heap", "buffer", "packet (dynamic)", "packet (finalized)", "unsafe heap", "unsafe buffer", "unsafe packet (finalized)", "heap view", "buffer view", "packet view (dynamic)", "packet view (finalized)", "skinny heap", "skinny buffer"};
template <class F> void with(int r, Val const& v, F&& f) {
  switch (r) {
    case 0: { auto h = build<dart::heap>(v); f(h); break; }
    case 1: { auto b = fin<dart::buffer>(v, nullptr); f(b); break; }
    case 2: { auto p = build<dart::packet>(v); f(p); break; }
    case 3: { auto p = dart::packet(fin<dart::buffer>(v, nullptr)); f(p); break; }
    case 4: { auto h = build<dart::unsafe_heap>(v); f(h); break; }
    case 5: { auto b = fin<dart::unsafe_buffer>(v, nullptr); f(b); break; }
    case 6: { auto p = dart::unsafe_packet(fin<dart::unsafe_buffer>(v, nullptr)); f(p); break; }
    case 7: { auto h = build<dart::heap>(v); dart::heap::view w(h); f(w); break; }
    case 8: { auto b = fin<dart::buffer>(v, nullptr); dart::buffer::view w(b); f(w); break; }
    case 9: { auto p = build<dart::packet>(v); dart::packet::view w(p); f(w); break; }
    case 10: { auto p = dart::packet(fin<dart::buffer>(v, nullptr)); dart::packet::view w(p); f(w); break; }
    case 11: { auto h = build<dart::basic_heap<dart::skinny_ptr>>(v); f(h); break; }
    default: { auto b = fin<dart::basic_buffer<dart::skinny_ptr>>(v, nullptr); f(b); break; }
  }
}
template <class F> void with_a(int r, Val const& v, F&& f) {
  switch (r) {
    case 0: { auto h = build<dart::heap>(v); f(h); break; }
    case 1: { auto b = fin<dart::buffer>(v, nullptr); f(b); break; }
    case 2: { auto p = build<dart::packet>(v); f(p); break; }
  }
}
template <class F> void with_b(int r, Val const& v, F&& f) {
  switch (r) {
    case 3: { auto p = dart::packet(fin<dart::buffer>(v, nullptr)); f(p); break; }
    case 4: { auto h = build<dart::unsafe_heap>(v); f(h); break; }
    case 5: { auto b = fin<dart::unsafe_buffer>(v, nullptr); f(b); break; }
  }
}
template <class F> void with_c(int r, Val const& v, F&& f) {
  switch (r) {
    case 6: { auto p = dart::unsafe_packet(fin<dart::unsafe_buffer>(v, nullptr)); f(p); break; }
    case 7: { auto h = build<dart::heap>(v); dart::heap::view w(h); f(w); break; }
    case 8: { auto b = fin<dart::buffer>(v, nullptr); dart::buffer::view w(b); f(w); break; }
    case 9: { auto p = build<dart::packet>(v); dart::packet::view w(p); f(w); break; }
  }
}
template <class F> void with_d(int r, Val const& v, F&& f) {
  switch (r) {
    case 10: { auto p = dart::packet(fin<dart::buffer>(v, nullptr)); dart::packet::view w(p); f(w); break; }
    case 11: { auto h = build<dart::basic_heap<dart::skinny_ptr>>(v); f(h); break; }
    case 12: { auto b = fin<dart::basic_buffer<dart::skinny_ptr>>(v, nullptr); f(b); break; }
  }
}
std::vector<Val> const& fam() {
  static std::vector<Val> const v = [] {
    using V = Val; auto I = [] (int64_t i) { return V::integer(i); }; auto S = [] (std::string s) { return V::str(s); }; std::vector<V> r {
      V::null(), V::boolean(true), V::boolean(false), I(0), I(1), I(-1), I(65536), I(65537), I(1ll << 32), I((1ll << 32) + 1), I(INT64_MAX), V::decimal(0), V::decimal(1), V::decimal(-1), V::decimal(0.1), V::decimal(0.1f), V::decimal(65536), V::decimal(INFINITY),
      S(""), S(std::string(1, '\0')), S("a"), S("b"), S("aa"), S(std::string("a\0b", 3)), S(std::string("a\0c", 3)), S("1"), S("true"), S("null"), S(rep('s', 14)), S(rep('s', 15)), S(rep('s', 15) + "t"), S(rep('s', 16)), S(rep('s', 300)), S(rep('s', 299) + "t"), S(rep('s', 65535)), S(rep('s', 65536)), S(rep('s', 65535) + "t"), S(rep('s', 18) + std::string("\0t", 2)), S(rep('s', 18) + std::string("\0u", 2)),
      V::arr(), V::arr({V::null()}), V::arr({I(0)}), V::arr({V::boolean(false)}), V::arr({S("")}), V::arr({V::arr()}), V::arr({V::obj()}), V::arr({I(1), I(2)}), V::arr({I(2), I(1)}), V::arr({I(1), I(2), V::null()}), V::arr({I(1), V::decimal(2)}), V::arr({V::arr({I(1)})}), V::arr({V::arr({I(2)})}), V::arr({S(rep('s', 20)), S("x")}), V::arr({S(rep('s', 20)), S("y")}),
      V::obj(), V::obj({{"", V::null()}}), V::obj({{"a", V::null()}}), V::obj({{"b", V::null()}}), V::obj({{"a", I(1)}}), V::obj({{"b", I(1)}}), V::obj({{"a", V::decimal(1)}}), V::obj({{"a", S("1")}}), V::obj({{"a", I(1)}, {"b", V::null()}}), V::obj({{"a", I(1)}, {"c", V::null()}}), V::obj({{"a", I(1)}, {"bb", V::null()}}), V::obj({{"a", V::obj({{"b", I(1)}})}}), V::obj({{"a", V::obj({{"b", I(2)}})}}), V::obj({{"a", V::arr({I(1)})}}),
      V::obj({{"ab1", I(1)}}), V::obj({{"ab2", I(1)}}), V::obj({{rep('k', 300), I(1)}}), V::obj({{rep('k', 299) + "l", I(1)}}), V::obj({{"a", I(1)}, {"b", I(2)}, {"c", V::arr({V::obj({{"x", V::null()}})})}}), V::obj({{"a", I(1)}, {"b", I(2)}, {"c", V::arr({V::obj({{"y", V::null()}})})}}), V::obj({{"a", V::obj()}}), V::obj({{"a", V::arr()}}) };
    return r; }();
  return v;
}
// Typed wrappers on either side.
template <class P, class F> void wrapped(P const& p, Val const& v, F&& f) {
  switch (v.k) { case Val::Obj: f(dart::basic_object<P>(p)); break; case Val::Arr: f(dart::basic_array<P>(p)); break; case Val::Str: f(dart::basic_string<P>(p)); break; case Val::Int: case Val::Dec: f(dart::basic_number<P>(p)); break; case Val::Bool: f(dart::basic_flag<P>(p)); break; default: f(dart::basic_null<P>(p)); }
}
template <class F> void with_w(int r, Val const& v, F&& f) {
  switch (r) {
    case 0: wrapped(build<dart::heap>(v), v, f); break; case 1: wrapped(fin<dart::buffer>(v, nullptr), v, f); break; case 2: wrapped(build<dart::packet>(v), v, f); break;
    default: wrapped(dart::packet(fin<dart::buffer>(v, nullptr)), v, f); break;
  }
}
}
void c15_both_a(int, int, mdl::Val const&, mdl::Val const&); void c15_both_b(int, int, mdl::Val const&, mdl::Val const&); void c15_both_c(int, int, mdl::Val const&, mdl::Val const&); void c15_both_d(int, int, mdl::Val const&, mdl::Val const&);
#define C15_BOTH(x) void c15_both_##x(int r1, int r2, Val const& a, Val const& b) { \
  with_##x(r1, a, [&] (auto& p) { with(r2, b, [&] (auto& q) { cmp(p, q, same(a, b), std::string(rep_name[r1]) + " and " + rep_name[r2]); }); cmp(p, p, true, std::string(rep_name[r1]) + " and itself"); auto c = p; cmp(p, c, true, std::string(rep_name[r1]) + " and its copy"); }); }
