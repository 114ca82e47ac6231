// C19: typed wrappers hold only values of their type and behave as the values they wrap.
#pragma once
#include "../model.hpp"
#include <map>
#include <sstream>
using namespace mdl;
using mc::choose; using mc::pick;
namespace conv = dart::convert;
namespace {
template <class W> struct Kind;
template <class P> struct Kind<dart::basic_object<P>> { static constexpr char const* name = "object"; static bool takes(Val const& v) { return v.k == Val::Obj; } };
template <class P> struct Kind<dart::basic_array<P>> { static constexpr char const* name = "array"; static bool takes(Val const& v) { return v.k == Val::Arr; } };
template <class P> struct Kind<dart::basic_string<P>> { static constexpr char const* name = "string"; static bool takes(Val const& v) { return v.k == Val::Str; } };
template <class P> struct Kind<dart::basic_number<P>> { static constexpr char const* name = "number"; static bool takes(Val const& v) { return v.k == Val::Int || v.k == Val::Dec; } };
template <class P> struct Kind<dart::basic_flag<P>> { static constexpr char const* name = "flag"; static bool takes(Val const& v) { return v.k == Val::Bool; } };
template <class P> struct Kind<dart::basic_null<P>> { static constexpr char const* name = "null"; static bool takes(Val const& v) { return v.k == Val::Null; } };

// The values to wrap.
inline std::vector<Val> const& pool() {
  static std::vector<Val> const p = [] {
    std::vector<Val> r = scalars(); for (auto& v : layout_values()) r.push_back(v);
    r.push_back(Val::arr({Val::integer(1), Val::str("two"), Val::arr({Val::null()})})); r.push_back(Val::obj({{"a", Val::integer(1)}, {"bb", Val::obj({{"c", Val::str(rep('c', 20))}})}})); r.push_back(Val::obj({{"", Val::null()}})); r.push_back(Val::str(std::string("n\0l", 3)));
    return r;
  }();
  return p;
}
template <class B, class H> B fin(Val const& v) { B b = build<H>(Val::obj({{"w", v}})).finalize(); return b["w"]; }
template <class P> bool real(double d) { return !std::isnan(d); }
using DT = dart::detail::type;
inline DT type_of(Val const& v) { switch (v.k) { case Val::Null: return DT::null; case Val::Bool: return DT::boolean; case Val::Int: return DT::integer; case Val::Dec: return DT::decimal; case Val::Str: return DT::string; case Val::Arr: return DT::array; default: return DT::object; } }

template <class W> void own(W const& w, std::true_type, Val const& v, std::string const& who) { auto o = w.as_owner(); MC_CHECK(!o.is_view(), "as_owner", who + " as_owner() is a view"); expect(o, v, who + " as_owner()"); }
template <class W> void own(W const&, std::false_type, Val const&, std::string const&) {}
// Everything wrappers have in common.
template <class W> void common(W const& w, Val const& v, std::string const& who) {
  using P = typename W::value_type; mc::step(20);
  P const& d = w.dynamic(); expect(d, v, who + " dynamic()");
  auto say = [&] (bool got, bool want, char const* f) { MC_CHECK(got == want, std::string(f) + " of " + who, std::string(f) + " of " + who + " holding " + dump(v) + " says " + (got ? "true" : "false")); };
  say(w.get_type() == type_of(v), true, "get_type()"); say(w.is_object(), v.k == Val::Obj, "is_object()"); say(w.is_array(), v.k == Val::Arr, "is_array()"); say(w.is_aggregate(), v.aggregate(), "is_aggregate()"); say(w.is_str(), v.k == Val::Str, "is_str()"); say(w.is_integer(), v.k == Val::Int, "is_integer()"); say(w.is_decimal(), v.k == Val::Dec, "is_decimal()"); say(w.is_numeric(), v.k == Val::Int || v.k == Val::Dec, "is_numeric()"); say(w.is_boolean(), v.k == Val::Bool, "is_boolean()"); say(w.is_null(), v.k == Val::Null, "is_null()"); say(w.is_primitive(), !v.aggregate(), "is_primitive()");
  if (v.k != Val::Null) say(w.is_finalized(), d.is_finalized(), "is_finalized()");
  say(w.is_view(), !P::is_owning_type::value, "is_view()"); say(w.refcount() == d.refcount(), true, "refcount()");
  { P p = w; expect(p, v, who + " converted back"); } { W c = w; P p = std::move(c); expect(p, v, who + " consumed"); } { W c = w; P p = std::move(c).dynamic(); expect(p, v, who + " consumed by dynamic()"); }
  { W c = w; W m = std::move(c); expect(m, v, who + " moved"); say(c.is_null(), true, "is_null() after moving"); c = m; expect(c, v, who + " assigned"); c = std::move(m); expect(c, v, who + " move assigned"); say(c == w, true, "=="); say(c != w, false, "!="); say(c == d, true, "== value"); say(d == c, true, "value =="); say(d != c, false, "value !="); }
  { typename W::view vw = w; expect(vw, v, who + " view"); say(vw.is_view(), true, "view is_view()"); say(vw == w, true, "view =="); own(vw, std::true_type(), v, who + " view"); }
  own(w, std::integral_constant<bool, !P::is_owning_type::value>(), v, who);
}
inline void json(std::string const& got, std::string const& want, std::string const& who) { MC_CHECK(got == want, "to_json() of " + who, who + " prints " + mc::show(got) + " rather than " + mc::show(want)); }
template <class W> void printed(W const& w, Val const& v, std::string const& who) {
  bool bad = false; std::function<void (Val const&)> look = [&] (Val const& x) { if (x.k == Val::Dec && !std::isfinite(x.d)) bad = true; for (auto& e : x.a) look(e); for (auto& e : x.o) look(e.second); }; look(v); if (bad) return;
  json(w.to_json(), w.dynamic().to_json(), who); std::ostringstream a, b; a << w; b << w.dynamic(); json(a.str(), w.dynamic().to_json(), who + " streamed"); json(b.str(), w.dynamic().to_json(), who + " value streamed");
}
template <class P> void special(dart::basic_object<P> const& w, Val const& v, std::string const& who) { mc::step(3); MC_CHECK(w.size() == v.o.size() && w.empty() == v.o.empty() && (bool) w, "size of " + who, who + " size"); for (auto& e : v.o) { MC_CHECK(w.has_key(sv(e.first)), "has_key", who); auto x = w[sv(e.first)]; expect(x, e.second, who + " subscript"); } MC_CHECK(!w.has_key("no such"), "has_key", who); }
template <class P> void special(dart::basic_array<P> const& w, Val const& v, std::string const& who) { mc::step(3); MC_CHECK(w.size() == v.a.size() && w.empty() == v.a.empty() && (bool) w, "size of " + who, who + " size"); for (size_t i = 0; i < v.a.size(); ++i) { auto x = w[i]; expect(x, v.a[i], who + " subscript"); } }
template <class P> void special(dart::basic_string<P> const& w, Val const& v, std::string const& who) {
  mc::step(8); std::string const& s = v.s; auto is = [&] (dart::shim::string_view x, char const* f) { MC_CHECK(std::string(x.data(), x.size()) == s, std::string(f) + " of " + who, who + " " + dump(v) + " " + f + " is different"); };
  is(w.strv(), "strv()"); is(*w, "operator *"); is((dart::shim::string_view) w, "string_view"); std::string t = std::string(w); is(sv(t), "std::string"); MC_CHECK(!memcmp(w.str(), s.c_str(), s.size() + 1), "str() of " + who, who); MC_CHECK(w.size() == s.size() && w.empty() == s.empty() && (bool) w, "size of " + who, who + " size");
  for (size_t i = 0; i < s.size() + 3; i += i > 40 && i + 40 < s.size() ? s.size() / 3 : 1) MC_CHECK(w[i] == (i < s.size() ? s[i] : '\0'), "subscript of " + who, who + " [" + std::to_string(i) + "]"); MC_CHECK(w[SIZE_MAX] == '\0', "subscript of " + who, who);
  MC_CHECK(w == sv(s) && sv(s) == w && !(w != sv(s)) && w != "\x01 no" && "\x01 no" != w, "comparing " + who, who + " against native strings");
}
template <class P> void special(dart::basic_number<P> const& w, Val const& v, std::string const& who) {
  mc::step(8); double n = v.k == Val::Int ? (double) v.i : v.d; auto is = [&] (double x, char const* f) { MC_CHECK(bits(x) == bits(n) || (std::isnan(x) && std::isnan(n)), std::string(f) + " of " + who, who + " " + dump(v) + " " + f + " is " + std::to_string(x)); };
  is(w.numeric(), "numeric()"); is(*w, "operator *"); MC_CHECK((bool) w, "truth of " + who, who);
  Err ei = attempt([&] { MC_CHECK(w.integer() == v.i, "integer() of " + who, who); }), ed = attempt([&] { is(w.decimal(), "decimal()"); });
  MC_CHECK(ei == (v.k == Val::Int ? Err::none : Err::type), "integer() of " + who, who + " " + dump(v) + " integer() " + name(ei)); MC_CHECK(ed == (v.k == Val::Dec ? Err::none : Err::type), "decimal() of " + who, who + " " + dump(v) + " decimal() " + name(ed));
  is((double) w, "double"); if (v.k == Val::Int) { MC_CHECK((int64_t) w == v.i && (uint64_t) w == (uint64_t) v.i && (int) w == (int) v.i && (short) w == (short) v.i && (float) w == (float) v.i, "conversion of " + who, who + " " + dump(v)); MC_CHECK(w == v.i && v.i == w && !(w != v.i) && w != v.i / 2 + 7000, "comparing " + who, who + " " + dump(v)); }
  else { if (std::fabs(n) < 2e9) MC_CHECK((int) w == (int) n && (int64_t) w == (int64_t) n, "conversion of " + who, who + " " + dump(v)); if (std::isfinite(n)) MC_CHECK(w == n && n == w && !(w != n), "comparing " + who, who + " " + dump(v)); }
}
template <class P> void special(dart::basic_flag<P> const& w, Val const& v, std::string const& who) { mc::step(4); MC_CHECK(w.boolean() == v.b && *w == v.b && (bool) w == v.b && w == v.b && v.b == w && w != !v.b, "value of " + who, who + " " + dump(v)); }
template <class P> void special(dart::basic_null<P> const& w, Val const&, std::string const& who) { mc::step(); MC_CHECK(!w && w == nullptr && nullptr == w && !(w != nullptr), "value of " + who, who); }
template <class W> void judge(W const& w, Val const& v, std::string const& who) { common(w, v, who); printed(w, v, who); special(w, v, who); }

template <class W, class F> void accept(F&& make, Val const& v, std::string const& who) {
  bool want = Kind<W>::takes(v); mc::step(); if (want) mc::nontrivial();
  std::unique_ptr<W> w; Err e = attempt([&] { w.reset(new W(make())); }); std::string what = std::string(Kind<W>::name) + " " + who;
  MC_CHECK(e == (want ? Err::none : Err::type), "acceptance: " + what, what + " from " + dump(v) + " gives " + name(e));
  if (want) judge(*w, v, what);
}
// One wrapper type from its own representation.
template <class W, class P> void wrap(P const& src, Val const& v, std::string const& who) {
  accept<W>([&] { return W(src); }, v, "constructed over " + who);
  accept<W>([&] { P t = src; return W(std::move(t)); }, v, "constructed over temporary " + who);
  accept<W>([&] { return conv::cast<W>(src); }, v, "cast from " + who);
  accept<W>([&] { P t = src; return conv::cast<W>(std::move(t)); }, v, "cast from temporary " + who);
  accept<W>([&] { return src.template as<W>(); }, v, "as<> from " + who);
  Val after = read(src); MC_CHECK(same(after, v), "source changed", who + " " + dump(v) + " became " + dump(after) + " by wrapping it");
}
template <class P> void wrap_all(P const& src, Val const& v, std::string const& who, int which) {
  switch (which) {
    case 0: wrap<dart::basic_object<P>>(src, v, who); break; case 1: wrap<dart::basic_array<P>>(src, v, who); break; case 2: wrap<dart::basic_string<P>>(src, v, who); break;
    case 3: wrap<dart::basic_number<P>>(src, v, who); break; case 4: wrap<dart::basic_flag<P>>(src, v, who); break; default: wrap<dart::basic_null<P>>(src, v, who);
  }
}
// Replaces what a wrapper holds, and its operators.
template <class P> void replace(Val const& was) {
  if (was.k == Val::Str) {
    for (auto& n : {std::string(), std::string("short"), std::string("n\0l", 3), rep('q', 15), rep('q', 16), rep('q', 300)}) { dart::basic_string<P> w(sv(was.s)); auto c = w; w = sv(n); judge(w, Val::str(n), "reassigned string"); judge(c, was, "copy of a reassigned string"); }
  } else if (was.k == Val::Int || was.k == Val::Dec) {
    auto make = [&] { return dart::basic_number<P>(build<P>(was)); };
    { auto w = make(), c = w; w = 5; judge(w, Val::integer(5), "reassigned number"); w = 2.5; judge(w, Val::decimal(2.5), "reassigned number"); w = 3u; judge(w, Val::integer(3), "reassigned number"); w = INT64_MIN; judge(w, Val::integer(INT64_MIN), "reassigned number"); w = 0.1f; judge(w, Val::decimal(0.1f), "reassigned number"); judge(c, was, "copy of a reassigned number"); }
  } else if (was.k == Val::Bool) { dart::basic_flag<P> w(was.b), c = w; w = !was.b; judge(w, Val::boolean(!was.b), "reassigned flag"); judge(c, was, "copy of a reassigned flag"); }
  else if (was.k == Val::Null) { dart::basic_null<P> w; w = nullptr; judge(w, was, "reassigned null"); judge(dart::basic_null<P>(nullptr), was, "null"); }
  else if (was.k == Val::Obj) {
    dart::basic_object<P> w(build<P>(was)), c = w; std::map<std::string, int> m {{"x", 1}, {"yy", 70000}}; w = m; Val now = Val::obj({{"x", Val::integer(1)}, {"yy", Val::integer(70000)}}); judge(w, now, "object assigned from a map"); judge(c, was, "copy of a reassigned object");
    std::unordered_map<std::string, std::string> u {{"k", "v"}}; w = u; judge(w, Val::obj({{"k", Val::str("v")}}), "object assigned from an unordered_map"); std::multimap<std::string, int> mm {{"k", 1}, {"k", 2}}; w = mm; judge(w, Val::obj({{"k", Val::arr({Val::integer(1), Val::integer(2)})}}), "object assigned from a multimap"); w = std::map<std::string, int>(); judge(w, Val::obj(), "object assigned from an empty map"); auto back = std::map<std::string, int>(dart::basic_object<P>("x", 1, "yy", 70000)); MC_CHECK(back == m, "object converted to a map", "object converted to a map");
    judge(dart::basic_object<P>("a", 1, "b", nullptr, "c", build<P>(was)), Val::obj({{"a", Val::integer(1)}, {"b", Val::null()}, {"c", was}}), "object made of pairs");
  } else {
    dart::basic_array<P> w(build<P>(was)), c = w; std::vector<int> m {1, 70000}; w = m; judge(w, Val::arr({Val::integer(1), Val::integer(70000)}), "array assigned from a vector"); judge(c, was, "copy of a reassigned array"); auto back = std::vector<int>(w); MC_CHECK(back == m, "array converted to a vector", "array converted to a vector");
    w = std::array<std::string, 2> {{"a", rep('b', 20)}}; judge(w, Val::arr({Val::str("a"), Val::str(rep('b', 20))}), "array assigned from an array"); w = std::vector<double>(); judge(w, Val::arr(), "array assigned from an empty vector");
    judge(dart::basic_array<P>(1, "two", 3.5, nullptr), Val::arr({Val::integer(1), Val::str("two"), Val::decimal(3.5), Val::null()}), "array made of elements");
  }
}
}
#define C19_WRAP(id, name, ...) MC_SPACE(id, name, "every value of a pool of 50 over all kinds into each of the 6 wrappers: constructed, cast and as<> from lvalues and temporaries, then every read, conversion, view, comparison, printing, move and assignment") { auto& v = pick(pool()); int which = choose(6); MC_NOTE(dump(v)); __VA_ARGS__; mc::state(mc::mix(hash(v), which)); }
