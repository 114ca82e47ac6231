// C20: native values convert in and out unchanged, compare as equal, and are refused where they do not fit.
#pragma once
#include "../model.hpp"
#include <array>
#include <chrono>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace mdl;
using mc::choose; using mc::pick;
namespace conv = dart::convert;
namespace {
// What the library promises about a native type: its values, their dynamic counterpart, which dynamic values it takes
// (and as what), and when a native and a dynamic value are equal.
template <class T, class = void> struct N;
template <class T> using opt = std::unique_ptr<T>;
template <class T> opt<T> some(T v) { return opt<T>(new T(std::move(v))); }

template <class T> struct N<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  using L = std::numeric_limits<T>;
  static std::vector<T> values() {
    std::vector<T> r {0, 1, L::min(), L::max()}; if (L::is_signed) r.push_back((T) -1);
    for (int64_t i : {int64_t(127), int64_t(128), int64_t(-128), int64_t(-129), int64_t(255), int64_t(256), int64_t(32767), int64_t(32768), int64_t(-32768), int64_t(-32769), int64_t(65535), int64_t(65536), int64_t(2147483647), int64_t(2147483648), int64_t(-2147483648ll), int64_t(-2147483649ll), int64_t(4294967295), int64_t(4294967296), int64_t(9007199254740993), INT64_MAX, INT64_MIN})
      if ((int64_t) (T) i == i && (L::is_signed || i >= 0)) r.push_back((T) i);
    return r;
  }
  static Val val(T x) { return Val::integer((int64_t) x); }
  static opt<T> fits(Val const& v) { if (v.k != Val::Int) return {}; if (sizeof(T) < 8 && (int64_t) (T) v.i != v.i) return {}; return some((T) v.i); }
  static bool eq(Val const& v, T x) { return v.k == Val::Int ? v.i == (int64_t) x : v.k == Val::Dec && v.d == (double) (int64_t) x; }
  static std::string show(T x) { return std::to_string((long long) x); }
};
template <class T> struct N<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static std::vector<T> values() { return {T(0), T(1), T(-1.5), T(0.1), T(16777217), T(1e30), T(-1e-30), T(3.4028234663852886e38), T(5), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<float>::denorm_min(), T(std::is_same<T, float>::value ? 3.25f : 1.7976931348623157e308)}; }
  static Val val(T x) { return Val::decimal((double) x); }
  static opt<T> fits(Val const& v) { return v.k == Val::Dec ? some((T) v.d) : opt<T>(); }
  static bool eq(Val const& v, T x) { return v.k == Val::Int ? (double) v.i == (double) x : v.k == Val::Dec && v.d == (double) x; }
};
template <> struct N<bool> {
  static std::vector<bool> values() { return {true, false}; }
  static Val val(bool x) { return Val::boolean(x); }
  static opt<bool> fits(Val const& v) { return some(v.k == Val::Bool ? v.b : v.k != Val::Null); }   // truthiness
  static bool eq(Val const& v, bool x) { return v.k == Val::Bool && v.b == x; }
};
template <> struct N<std::nullptr_t> {
  static std::vector<std::nullptr_t> values() { return {nullptr}; }
  static Val val(std::nullptr_t) { return Val::null(); }
  static opt<std::nullptr_t> fits(Val const& v) { return v.k == Val::Null ? some(nullptr) : opt<std::nullptr_t>(); }
  static bool eq(Val const& v, std::nullptr_t) { return v.k == Val::Null; }
};
template <> struct N<std::string> {
  static std::vector<std::string> values() { return {"", "a", "b", std::string("x\0y", 3), "\xff\x80", rep('s', 14), rep('s', 15), rep('s', 16), rep('t', 40)}; }
  static Val val(std::string x) { return Val::str(std::move(x)); }
  static opt<std::string> fits(Val const& v) { return v.k == Val::Str ? some(v.s) : opt<std::string>(); }
  static bool eq(Val const& v, std::string const& x) { return v.k == Val::Str && v.s == x; }
};
// A few values of T, for use inside compounds.
template <class T> std::vector<T> few(size_t n = 4) { auto v = N<T>::values(); std::vector<T> r; for (size_t i = 0; i < v.size() && r.size() < n; ++i) r.push_back(v[i]); return r; }
template <class T> Val of(T const& x) { return N<T>::val(x); }

template <class T> struct N<dart::shim::optional<T>> {
  using O = dart::shim::optional<T>;
  static std::vector<O> values() { std::vector<O> r; r.push_back(O {}); for (auto const& x : N<T>::values()) r.push_back(O {T(x)}); return r; }
  static Val val(O const& x) { return x ? N<T>::val(*x) : Val::null(); }
  static opt<O> fits(Val const& v) { if (v.k == Val::Null) return some(O {}); auto i = N<T>::fits(v); return i ? some(O {*i}) : opt<O>(); }
  static bool eq(Val const& v, O const& x) { return x ? N<T>::eq(v, *x) : v.k == Val::Null; }
};
template <class... Ts> struct N<dart::shim::variant<Ts...>> {
  using V = dart::shim::variant<Ts...>;
  static std::vector<V> values() { std::vector<V> r; int dummy[] = {([&] { for (auto const& x : N<Ts>::values()) { Ts y = x; auto back = fits(N<Ts>::val(y)); if (back && *back == V(y)) r.push_back(V(y)); } }(), 0)...}; (void) dummy; return r; }
  static Val val(V const& x) { return dart::shim::visit([] (auto& y) { return N<std::decay_t<decltype(y)>>::val(y); }, x); }
  static opt<V> fits(Val const& v) { opt<V> r; int dummy[] = {([&] { if (!r) { auto i = N<Ts>::fits(v); if (i) r = some(V(*i)); } }(), 0)...}; (void) dummy; return r; }
  static bool eq(Val const& v, V const& x) { return dart::shim::visit([&] (auto& y) { return N<std::decay_t<decltype(y)>>::eq(v, y); }, x); }
};
template <class A, class B> struct N<std::pair<A, B>> {
  using P = std::pair<A, B>;
  static std::vector<P> values() { std::vector<P> r; for (auto const& a : few<A>(5)) for (auto const& b : few<B>(3)) r.push_back(P(a, b)); return r; }
  static Val val(P const& x) { return Val::arr({N<A>::val(x.first), N<B>::val(x.second)}); }
  static opt<P> fits(Val const& v) { if (v.k != Val::Arr || v.a.size() != 2) return {}; auto a = N<A>::fits(v.a[0]); auto b = N<B>::fits(v.a[1]); return a && b ? some(P(*a, *b)) : opt<P>(); }
  static bool eq(Val const& v, P const& x) { return v.k == Val::Arr && v.a.size() == 2 && N<A>::eq(v.a[0], x.first) && N<B>::eq(v.a[1], x.second); }
};
template <> struct N<std::tuple<>> {
  using T = std::tuple<>;
  static std::vector<T> values() { return {T {}}; }
  static Val val(T const&) { return Val::arr(); }
  static opt<T> fits(Val const& v) { return v.k == Val::Arr && v.a.empty() ? some(T {}) : opt<T>(); }
  static bool eq(Val const& v, T const&) { return v.k == Val::Arr && v.a.empty(); }
};
template <class A, class... Ts> struct N<std::tuple<A, Ts...>> {
  using T = std::tuple<A, Ts...>; using R = std::tuple<Ts...>;
  static std::vector<T> values() { std::vector<T> r; for (auto const& a : few<A>(4)) for (auto const& t : few<R>(9)) r.push_back(std::tuple_cat(std::tuple<A>(a), t)); return r; }
  template <size_t... I> static R tail(T const& x, std::index_sequence<I...>) { return R(std::get<I + 1>(x)...); }
  static R tail(T const& x) { return tail(x, std::index_sequence_for<Ts...>()); }
  static Val val(T const& x) { Val r = Val::arr({N<A>::val(std::get<0>(x))}); for (auto& e : N<R>::val(tail(x)).a) r.a.push_back(e); return r; }
  static Val rest(Val const& v) { Val r = v; r.a.erase(r.a.begin()); return r; }
  static opt<T> fits(Val const& v) { if (v.k != Val::Arr || v.a.empty()) return {}; auto a = N<A>::fits(v.a[0]); auto t = N<R>::fits(rest(v)); return a && t ? some(std::tuple_cat(std::tuple<A>(*a), *t)) : opt<T>(); }
  static bool eq(Val const& v, T const& x) { return v.k == Val::Arr && !v.a.empty() && N<A>::eq(v.a[0], std::get<0>(x)) && N<R>::eq(rest(v), tail(x)); }
};
// Sequences.
template <class S> struct Seq {
  using E = typename S::value_type;
  static std::vector<S> values() {
    std::vector<S> r; auto es = few<E>(mc::thorough() ? 5 : 4); r.push_back(S {}); for (auto const& a : es) { r.push_back(S {a}); for (auto const& b : es) { r.push_back(S {a, b}); } }
    for (auto const& a : es) r.push_back(S {es[0], a, es.back()}); { S s(9, E(es[0])); r.push_back(s); } return r;
  }
  static Val val(S const& x) { Val r = Val::arr(); for (auto& e : x) r.a.push_back(N<E>::val(e)); return r; }
  static opt<S> fits(Val const& v) { if (v.k != Val::Arr) return {}; std::vector<E> t; for (auto& e : v.a) { auto i = N<E>::fits(e); if (!i) return {}; t.push_back(*i); } return some(S(t.begin(), t.end())); }
  static bool eq(Val const& v, S const& x) { if (v.k != Val::Arr) return false; size_t n = 0; for (auto& e : x) { if (n == v.a.size() || !N<E>::eq(v.a[n], e)) return false; ++n; } return n == v.a.size(); }
};
template <class T> struct N<std::vector<T>> : Seq<std::vector<T>> {};
template <class T> struct N<std::deque<T>> : Seq<std::deque<T>> {};
template <class T> struct N<std::list<T>> : Seq<std::list<T>> {};
template <class T> struct N<std::forward_list<T>> : Seq<std::forward_list<T>> {};
template <class T, size_t n> struct N<std::array<T, n>> {
  using S = std::array<T, n>;
  static S make(std::vector<T> const& t) { S s; std::copy(t.begin(), t.end(), s.begin()); return s; }
  static std::vector<S> values() { std::vector<S> r; auto es = few<T>(3); std::vector<size_t> ix(n, 0); for (;;) { std::vector<T> t; for (auto i : ix) t.push_back(es[i]); r.push_back(make(t)); size_t k = 0; while (k < n && ++ix[k] == es.size()) ix[k++] = 0; if (k == n) break; } return r; }
  static Val val(S const& x) { Val r = Val::arr(); for (auto& e : x) r.a.push_back(N<T>::val(e)); return r; }
  static opt<S> fits(Val const& v) { if (v.k != Val::Arr || v.a.size() != n) return {}; std::vector<T> t; for (auto& e : v.a) { auto i = N<T>::fits(e); if (!i) return {}; t.push_back(*i); } return some(make(t)); }
  static bool eq(Val const& v, S const& x) { if (v.k != Val::Arr || v.a.size() != n) return false; for (size_t i = 0; i < n; ++i) if (!N<T>::eq(v.a[i], x[i])) return false; return true; }
};
// Sets are arrays in any order.  A repeated element collapses in a set, as it does in C++.
template <class S, bool multi> struct Sets {
  using E = typename S::value_type; static constexpr bool unordered = true;
  static std::vector<S> values() { std::vector<S> r; auto es = few<E>(4); r.push_back(S {}); for (auto const& a : es) { r.push_back(S {a}); for (auto const& b : es) { r.push_back(S {a, b}); r.push_back(S {a, b, es[0]}); } } r.push_back(S(es.begin(), es.end())); return r; }
  static Val val(S const& x) { Val r = Val::arr(); for (auto& e : x) r.a.push_back(N<E>::val(e)); return r; }
  static opt<S> fits(Val const& v) { if (v.k != Val::Arr) return {}; S s; for (auto& e : v.a) { auto i = N<E>::fits(e); if (!i) return {}; s.insert(*i); } return some(std::move(s)); }
  static bool eq(Val const& v, S const& x) { if (v.k != Val::Arr || v.a.size() != x.size()) return false; std::vector<bool> used(v.a.size()); for (auto& e : x) { bool hit = false; for (size_t i = 0; i < v.a.size() && !hit; ++i) if (!used[i] && N<E>::eq(v.a[i], e)) used[i] = hit = true; if (!hit) return false; } return true; }
};
template <class T> struct N<std::set<T>> : Sets<std::set<T>, false> {};
template <class T> struct N<std::unordered_set<T>> : Sets<std::unordered_set<T>, false> {};
template <class T> struct N<std::multiset<T>> : Sets<std::multiset<T>, true> {};
template <class T> struct N<std::unordered_multiset<T>> : Sets<std::unordered_multiset<T>, true> {};
// Maps are objects.
template <class M> struct Maps {
  using E = typename M::mapped_type;
  static std::vector<M> values() { std::vector<M> r; auto es = few<E>(4); r.push_back(M {}); for (auto const& a : es) { for (auto k : {"", "a", "bb"}) r.push_back(M {{k, a}}); for (auto const& b : es) { r.push_back(M {{"a", a}, {"b", b}}); r.push_back(M {{"a", a}, {"bb", b}, {"c", a}}); } } return r; }
  static Val val(M const& x) { Val r = Val::obj(); for (auto& e : x) r.o[e.first] = N<E>::val(e.second); return r; }
  static opt<M> fits(Val const& v) { if (v.k != Val::Obj) return {}; M m; for (auto& e : v.o) { auto i = N<E>::fits(e.second); if (!i) return {}; m.emplace(e.first, *i); } return some(std::move(m)); }
  static bool eq(Val const& v, M const& x) { if (v.k != Val::Obj || v.o.size() != x.size()) return false; for (auto& e : x) { auto it = v.o.find(e.first); if (it == v.o.end() || !N<E>::eq(it->second, e.second)) return false; } return true; }
};
template <class T> struct N<std::map<std::string, T>> : Maps<std::map<std::string, T>> {};
template <class T> struct N<std::unordered_map<std::string, T>> : Maps<std::unordered_map<std::string, T>> {};
// Multimaps are objects of arrays; a lone value stands for itself on the way out.
template <class M> struct Multimaps {
  using E = typename M::mapped_type; static constexpr bool unordered = true;
  static std::vector<M> values() { std::vector<M> r; auto es = few<E>(3); r.push_back(M {}); for (auto const& a : es) { for (auto k : {"", "a"}) r.push_back(M {{k, a}}); for (auto const& b : es) { r.push_back(M {{"a", a}, {"b", b}}); r.push_back(M {{"a", a}, {"a", b}}); r.push_back(M {{"a", a}, {"b", b}, {"a", a}, {"b", a}}); } } return r; }
  static Val val(M const& x) { Val r = Val::obj(); for (auto& e : x) { auto& s = r.o[e.first]; s.k = Val::Arr; s.a.push_back(N<E>::val(e.second)); } return r; }
  static opt<M> fits(Val const& v) { if (v.k != Val::Obj) return {}; M m; for (auto& e : v.o) { auto each = e.second.k == Val::Arr ? e.second.a : std::vector<Val> {e.second}; for (auto& x : each) { auto i = N<E>::fits(x); if (!i) return {}; m.emplace(e.first, *i); } } return some(std::move(m)); }
  static bool eq(Val const& v, M const& x) {
    if (v.k != Val::Obj) return false; std::set<std::string> ks; for (auto& e : x) ks.insert(e.first); if (ks.size() != v.o.size()) return false;
    for (auto& k : ks) { auto it = v.o.find(k); if (it == v.o.end()) return false; std::multiset<std::string> none; std::vector<E> es; auto r = x.equal_range(k); for (auto i = r.first; i != r.second; ++i) es.push_back(i->second);
      Val const& a = it->second; if (a.k != Val::Arr || a.a.size() != es.size()) return false; std::vector<bool> used(es.size()); for (auto& e : es) { bool hit = false; for (size_t i = 0; i < es.size() && !hit; ++i) if (!used[i] && N<E>::eq(a.a[i], e)) used[i] = hit = true; if (!hit) return false; } }
    return true;
  }
};
template <class T> struct N<std::multimap<std::string, T>> : Multimaps<std::multimap<std::string, T>> {};
template <class T> struct N<std::unordered_multimap<std::string, T>> : Multimaps<std::unordered_multimap<std::string, T>> {};
// Whole seconds.
template <class D> struct N<std::chrono::time_point<std::chrono::system_clock, D>> {
  using T = std::chrono::time_point<std::chrono::system_clock, D>;
  static std::vector<std::pair<int64_t, char const*>> const& known() {
    static std::vector<std::pair<int64_t, char const*>> const k {{0, "1970-01-01T00:00:00.000Z"}, {1, "1970-01-01T00:00:01.000Z"}, {-1, "1969-12-31T23:59:59.000Z"}, {951782400, "2000-02-29T00:00:00.000Z"}, {951868799, "2000-02-29T23:59:59.000Z"}, {2147483647, "2038-01-19T03:14:07.000Z"}, {2147483648ll, "2038-01-19T03:14:08.000Z"}, {4107542399ll, "2100-02-28T23:59:59.000Z"}, {4107542400ll, "2100-03-01T00:00:00.000Z"}, {-2208988800ll, "1900-01-01T00:00:00.000Z"}, {1599999999, "2020-09-13T12:26:39.000Z"}};
    return k;
  }
  static std::vector<T> values() { std::vector<T> r; for (auto& k : known()) r.push_back(T(std::chrono::duration_cast<D>(std::chrono::seconds(k.first)))); return r; }
  static Val val(T x) { auto s = std::chrono::duration_cast<std::chrono::seconds>(x.time_since_epoch()).count(); for (auto& k : known()) if (k.first == s) return Val::str(k.second); abort(); }
  static opt<T> fits(Val const& v) { if (v.k != Val::Str) return {}; for (auto& k : known()) if (v.s == k.second) return some(T(std::chrono::duration_cast<D>(std::chrono::seconds(k.first)))); return {}; }
  static bool eq(Val const& v, T x) { return v.k == Val::Str && v.s == val(x).s; }
};
template <class T, T c> struct N<std::integral_constant<T, c>> {
  using C = std::integral_constant<T, c>;
  static std::vector<C> values() { return {C {}}; }
  static Val val(C) { return N<T>::val(c); }
  static opt<C> fits(Val const& v) { return N<T>::eq(v, c) ? some(C {}) : opt<C>(); }
  static bool eq(Val const& v, C) { return N<T>::eq(v, c); }
};
// A type the user teaches the library about.
struct Point { int x; std::string name; bool operator ==(Point const& o) const { return x == o.x && name == o.name; } };
template <> struct N<Point> {
  static std::vector<Point> values() { return {{0, ""}, {5, "five"}, {-70000, rep('n', 30)}}; }
  static Val val(Point const& p) { return Val::obj({{"x", Val::integer(p.x)}, {"name", Val::str(p.name)}}); }
  static opt<Point> fits(Val const& v) { if (v.k != Val::Obj || !v.o.count("x") || !v.o.count("name")) return {}; auto x = N<int>::fits(v.o.at("x")); auto n = N<std::string>::fits(v.o.at("name")); return x && n ? some(Point {*x, *n}) : opt<Point>(); }
  static bool eq(Val const& v, Point const& p) { return v.k == Val::Obj && v.o.count("x") && v.o.count("name") && N<int>::eq(v.o.at("x"), p.x) && N<std::string>::eq(v.o.at("name"), p.name); }
};
}
namespace dart { namespace convert {
  template <> struct conversion_traits<Point> {
    template <class P> P to_dart(Point const& p) { return P::make_object("x", p.x, "name", p.name); }
    template <class P> Point from_dart(P const& p) { return Point {p["x"].template as<int>(), p["name"].template as<std::string>()}; }
    template <class P> bool compare(P const& p, Point const& pt) { return p.is_object() && p["x"] == pt.x && p["name"] == pt.name; }
  };
}}
namespace {
// Dynamic values to try against a native type: everything of every kind, the type's own, and those slightly damaged.
inline std::vector<Val> damaged(Val const& v) {
  std::vector<Val> r;
  if (v.k == Val::Arr) {
    { Val d = v; d.a.push_back(Val::null()); r.push_back(d); d.a.back() = Val::integer(3); r.push_back(d); }
    if (!v.a.empty()) { Val d = v; d.a.pop_back(); r.push_back(d); d = v; d.a.front() = Val::null(); r.push_back(d); d = v; d.a.back() = Val::arr({Val::integer(1)}); r.push_back(d); d = v; std::reverse(d.a.begin(), d.a.end()); r.push_back(d); d = v; d.a.push_back(v.a[0]); r.push_back(d); d = v; d.a.back() = Val::integer(1ll << 40); r.push_back(d); for (auto& e : damaged(v.a.front())) { d = v; d.a.front() = e; r.push_back(d); } }
  } else if (v.k == Val::Obj) {
    { Val d = v; d.o["zz"] = Val::null(); r.push_back(d); d.o["zz"] = Val::arr(); r.push_back(d); d.o["zz"] = Val::integer(1); r.push_back(d); d.o["zz"] = v.o.empty() ? Val::str("") : v.o.begin()->second; r.push_back(d); }
    if (!v.o.empty()) { Val d = v; auto k = d.o.begin()->first; Val was = d.o.begin()->second; d.o.erase(k); r.push_back(d); d.o["q"] = was; r.push_back(d); d = v; d.o[k] = Val::null(); r.push_back(d); d.o[k] = Val::integer(1ll << 40); r.push_back(d); for (auto& e : damaged(was)) { d = v; d.o[k] = e; r.push_back(d); } }
  } else if (v.k == Val::Int) { r = {Val::integer((int64_t) ((uint64_t) v.i + 1)), Val::decimal((double) v.i), Val::str(std::to_string(v.i)), Val::boolean(v.i)}; }
  else if (v.k == Val::Dec) { if (std::fabs(v.d) < 9e18) r.push_back(Val::integer((int64_t) v.d)); r.push_back(Val::decimal(v.d * 0.5)); }
  else if (v.k == Val::Str) { r = {Val::str(v.s + "x"), Val::str(v.s + std::string(1, '\0'))}; if (!v.s.empty()) r.push_back(Val::str(v.s.substr(0, v.s.size() - 1))); }
  else if (v.k == Val::Bool) { r = {Val::boolean(!v.b), Val::integer(v.b)}; }
  return r;
}
// Whether 5.0 is the integral constant 5 is for nobody to say.
template <class T> struct contested { static bool is(Val const&) { return false; } };
template <class T, T c> struct contested<std::integral_constant<T, c>> { static bool is(Val const& v) { return v.k == Val::Dec && v.d == (double) c; } };
template <class T> struct Pool {
  static std::vector<Val> const& get() {
    static std::vector<Val> const p = [] {
      std::vector<Val> r; auto add = [&] (Val const& v) { if (contested<T>::is(v)) return; for (auto& e : r) if (same(e, v)) return; r.push_back(v); };
      for (auto& v : scalars()) add(v); for (auto& v : layout_values()) add(v);
      for (auto& v : {Val::arr({Val::integer(1)}), Val::arr({Val::integer(1), Val::integer(2)}), Val::arr({Val::str("a")}), Val::arr({Val::integer(1), Val::str("a")}), Val::obj({{"a", Val::integer(1)}}), Val::obj({{"a", Val::null()}}), Val::obj({{"a", Val::arr()}}), Val::obj({{"a", Val::arr({Val::integer(0)})}}), Val::obj({{"x", Val::integer(1)}}), Val::integer(5), Val::decimal(5), Val::str("5")}) add(v);
      for (auto const& x : N<T>::values()) { Val v = N<T>::val(x); add(v); for (auto& d : damaged(v)) add(d); }
      return r;
    }();
    return p;
  }
};
// Every representation of a dynamic value.
constexpr int kReps = 11;
template <class F> void in_rep(int r, Val const& v, F&& f) {
  auto h = build<dart::heap>(v); auto wrap = [&] { return dart::heap::make_object("w", h); };
  switch (r) {
    case 0: { f(h, "dynamic"); break; }
    case 1: { auto b = wrap().finalize(); auto e = b["w"]; f(e, "finalized"); break; }
    case 2: { dart::packet p(h); f(p, "dynamic packet"); break; }
    case 3: { dart::packet p(wrap().finalize()); auto e = p["w"]; f(e, "finalized packet"); break; }
    case 4: { dart::heap::view w = h; f(w, "dynamic view"); break; }
    case 5: { auto b = wrap().finalize(); auto e = b["w"]; dart::buffer::view w = e; f(w, "finalized view"); break; }
    case 6: { dart::packet p(h); dart::packet::view w = p; f(w, "packet view"); break; }
    case 7: { dart::packet p(wrap().finalize()); auto e = p["w"]; dart::packet::view w = e; f(w, "finalized packet view"); break; }
    case 8: { auto u = build<dart::unsafe_heap>(v); f(u, "dynamic, unsafe counter"); break; }
    case 9: { auto u = build<dart::unsafe_heap>(Val::obj({{"w", v}})).finalize(); auto e = u["w"]; f(e, "finalized, unsafe counter"); break; }
    default: { auto u = build<dart::basic_packet<dart::skinny_ptr>>(v); f(u, "packet, skinny counter"); break; }
  }
}
template <class T, class P> struct Out {
  static void go(P& p, Val const& v, std::string const& who) {
    auto want = N<T>::fits(v); mc::step(4); if (want) mc::nontrivial();
    auto one = [&] (auto&& get, char const* how) {
      opt<T> got; Err e = attempt([&] { got = some<T>(get()); });
      std::string what = std::string(how) + " from " + who;
      if (want) { MC_CHECK(e == Err::none, "refused: " + what, what + " of " + dump(v) + " gave " + name(e)); MC_CHECK(*got == *want, "altered: " + what, what + " of " + dump(v) + " reads back as " + dump(N<T>::val(*got))); }
      else MC_CHECK(e == Err::type, "accepted: " + what, what + " of " + dump(v) + " gave " + name(e) + ", expected type_error");
    };
    one([&] { return conv::cast<T>(p); }, "cast"); one([&] { return p.template as<T>(); }, "as");
    one([&] { P q = p; return conv::cast<T>(std::move(q)); }, "consuming cast"); one([&] { P q = p; return std::move(q).template as<T>(); }, "consuming as");
    Val after = read(p); MC_CHECK(same(after, v), "source changed", who + " " + dump(v) + " became " + dump(after) + " by converting it");
  }
};
template <class T, class P, class O> void maybe(O&& o, Val const& v, std::string const& who) {
  auto want = N<T>::fits(v); mc::step();
  MC_CHECK(!!o == !!want, "maybe_as", "maybe_as from " + who + " " + dump(v) + (o ? " gave a value" : " gave nothing")); if (want) MC_CHECK(*o == *want, "maybe_as altered", "maybe_as from " + who + " " + dump(v) + " is altered");
}
// Not every type compares with every representation: maps need one that keys can be made in.
template <class T> struct needs_mutable : std::false_type {};
template <class M> struct never_comparable : std::false_type {};   // sequences of maps do not compile
template <class T> struct never_comparable<std::vector<std::map<std::string, T>>> : std::true_type {};
template <class T, T c> struct needs_mutable<std::integral_constant<T, c>> : std::true_type {};
template <class T, class P> using comparable = std::integral_constant<bool, conv::are_comparable<T, P>::value && !never_comparable<T>::value && (!needs_mutable<T>::value || conv::is_castable<int, P>::value)>;
template <class T, class P> void native_eq_in(T const&, P const&, Val const&, bool, std::string const&, std::false_type) {}
template <class T, class P> void native_eq_in(T const& x, P const& p, Val const& v, bool want, std::string const& who, std::true_type);
template <class T> void native_eq(T const& x, Val const& v, int r) {
  bool want = N<T>::eq(v, x); if (want) mc::nontrivial();
  in_rep(r, v, [&] (auto& p, std::string const& who) { native_eq_in(x, p, v, want, who, comparable<T, std::decay_t<decltype(p)>>()); });
}
template <class T, class P> void native_eq_in(T const& x, P const& p, Val const& v, bool want, std::string const& who, std::true_type) {
    mc::step(4); auto say = [&] (bool got, char const* op) { MC_CHECK(got == want, std::string(op) + ", " + who, std::string(op) + " of " + who + " " + dump(v) + " and native " + dump(N<T>::val(x)) + " says " + (got ? "equal" : "different")); };
    say(p == x, "p == x"); say(x == p, "x == p"); say(!(p != x), "p != x"); say(!(x != p), "x != p"); say(conv::compare(p, x), "compare(p, x)"); say(conv::compare(x, p), "compare(x, p)");
}
template <class T> void eq_all(int r) { auto xs = N<T>::values(); auto& vs = Pool<T>::get(); T const x = xs[choose((int) xs.size())]; for (auto& v : vs) native_eq<T>(x, v, r); mc::state(mc::mix(hash(N<T>::val(x)), r)); }
template <class T> void out_all(int r) { auto& v = pick(Pool<T>::get()); MC_NOTE(dump(v)); in_rep(r, v, [&] (auto& p, std::string const& who) { Out<T, std::decay_t<decltype(p)>>::go(p, v, who); }); mc::state(mc::mix(hash(v), r)); }
template <class T> struct opt_as { template <class P> static void go(P& p, Val const& v, std::string const& who) { maybe<T, P>(p.template maybe_as<T>(), v, who); P q = p; maybe<T, P>(std::move(q).template maybe_as<T>(), v, who); } };
template <class T> void maybe_all(int r) { auto& v = pick(Pool<T>::get()); in_rep(r, v, [&] (auto& p, std::string const& who) { opt_as<T>::go(p, v, who); }); mc::state(mc::mix(hash(v), r)); }
// Into the library, through every door.
inline bool same_any_order(Val const& a, Val const& b) {
  if (a.k != b.k) return false;
  if (a.k == Val::Arr) { if (a.a.size() != b.a.size()) return false; std::vector<bool> u(b.a.size()); for (auto& e : a.a) { bool hit = false; for (size_t i = 0; i < b.a.size() && !hit; ++i) if (!u[i] && same_any_order(e, b.a[i])) u[i] = hit = true; if (!hit) return false; } return true; }
  if (a.k == Val::Obj) { if (a.o.size() != b.o.size()) return false; for (auto& e : a.o) { auto i = b.o.find(e.first); if (i == b.o.end() || !same_any_order(e.second, i->second)) return false; } return true; }
  return same(a, b);
}
template <class T, class = void> struct any_order : std::false_type {};
template <class T> struct any_order<T, std::enable_if_t<N<T>::unordered>> : std::true_type {};
template <class T, class P> void expect_in(P const& p, T const& x, Val const& want, std::string const& what) {
  Val got = read(p); mc::step(); bool ok = any_order<T>::value ? same_any_order(got, want) : same(got, want);
  MC_CHECK(ok, "altered on the way in: " + what, what + " gave " + dump(got) + ", expected " + dump(want));
  native_eq_in(x, p, want, true, what, comparable<T, P>()); auto back = conv::cast<T>(p); MC_CHECK(back == x, "round trip: " + what, what + " of " + dump(want) + " comes back as " + dump(N<T>::val(back)));
}
template <class T, class P> void into(T const& x, std::string const& who) {
  Val want = N<T>::val(x); if (!(want.k == Val::Null)) mc::nontrivial();
  expect_in<T>(conv::cast<P>(x), x, want, "cast to " + who);
  { T y = x; expect_in<T>(conv::cast<P>(std::move(y)), x, want, "consuming cast to " + who); }
  { P p = P::make_array(); p.push_back(x); expect_in<T>(p[0], x, want, "push_back on " + who); T y = x; p.push_back(std::move(y)); expect_in<T>(p[1], x, want, "consuming push_back on " + who); p.push_front(x); expect_in<T>(p.front(), x, want, "push_front on " + who); p.resize(5, x); expect_in<T>(p[4], x, want, "resize on " + who); p.set(1, x); expect_in<T>(p[1], x, want, "set on " + who); auto it = p.insert(0, x); expect_in<T>(*it, x, want, "insert on " + who); }
  { P p = P::make_object("k", x); expect_in<T>(p["k"], x, want, "make_object on " + who); p.add_field("l", x); expect_in<T>(p["l"], x, want, "add_field on " + who); T y = x; p.set("k", std::move(y)); expect_in<T>(p["k"], x, want, "consuming set on " + who); expect_in<T>(p.get_or("none", x), x, want, "get_or on " + who);
    auto q = p.inject("m", x); expect_in<T>(q["m"], x, want, "inject on " + who); auto f = p.finalize(); expect_in<T>(f["l"], x, want, "finalized " + who); }
  { P p = P::make_array(x, x); expect_in<T>(p.back(), x, want, "make_array on " + who); }
}
template <class T> void in_all(int r) {
  auto xs = N<T>::values(); T const x = xs[choose((int) xs.size())]; MC_NOTE(dump(N<T>::val(x)));
  switch (r) { case 0: into<T, dart::heap>(x, "heap"); break; case 1: into<T, dart::packet>(x, "packet"); break; default: into<T, dart::unsafe_heap>(x, "heap, unsafe counter"); }
  mc::state(mc::mix(hash(N<T>::val(x)), r));
}
using Fn = void (*)(int);
struct Entry { char const* name; Fn in, out, eq; };
template <class T> Entry entry(char const* name) { return {name, &in_all<T>, &out_all<T>, &eq_all<T>}; }
}
#define C20_SPACES(table) \
  MC_SPACE(into, "into, " table, "every value of the boundary alphabet of every listed native type through every way in (cast, push, set, insert, resize, make, inject, get_or), 3 representations, then read, compared and converted back") { auto& e = pick(kTable); MC_NOTE(e.name); e.in(choose(3)); } \
  MC_SPACE(out, "out of, " table, "every dynamic value of a pool (all kinds, the type's own values and those with one part damaged) to every listed native type, 11 representations, cast and as<T> from lvalues and temporaries") { auto& e = pick(kTable); MC_NOTE(e.name); e.out(choose(kReps)); } \
  MC_SPACE(eq, "compare, " table, "every native value against every dynamic value of the pool, both operand orders, == and !=, 11 representations") { auto& e = pick(kTable); MC_NOTE(e.name); e.eq(choose(kReps)); }
