// Native types in and out, typed wrappers, operators. The world's target is what a conversion reads; natives are built inside.
#include "C18.hpp"
namespace {
template <class T> dart::shim::optional<T> some(T t) { return dart::shim::optional<T>(std::move(t)); }
std::vector<Val> const& shapes() { static std::vector<Val> const v {Val::arr({Val::str(kLong), Val::str("s"), Val::str(kKey)}), Val::arr({Val::integer(1), Val::integer(2), Val::integer(3)}), Val::obj({{"a", Val::str(kLong)}, {kKey, Val::str("v")}}), Val::obj({{"a", Val::arr({Val::str(kLong), Val::str("b")})}}), Val::str(kLong), Val::integer(4), Val::null(), Val::str("2001-09-09T01:46:40.000Z")}; return v; }
template <class P> void natives_out(bool f) {
  using Q = P; Opt o; o.t = pick(shapes()); o.tf = f; Menu<P, Q> m; Effect e = strong; using S = std::string;
  GIVES("as string", w.t.template as<S>()) GIVES("as vector of strings", w.t.template as<std::vector<S>>()) GIVES("as vector of ints", w.t.template as<std::vector<int>>()) GIVES("as list", w.t.template as<std::list<S>>()) GIVES("as deque", w.t.template as<std::deque<S>>()) GIVES("as set", w.t.template as<std::set<S>>()) GIVES("as unordered_set", w.t.template as<std::unordered_set<S>>())
  GIVES("as map", (w.t.template as<std::map<S, S>>())) GIVES("as unordered_map", (w.t.template as<std::unordered_map<S, S>>())) GIVES("as multimap", (w.t.template as<std::multimap<S, S>>())) GIVES("as map of vectors", (w.t.template as<std::map<S, std::vector<S>>>())) GIVES("as pair", (w.t.template as<std::pair<S, S>>()))
  GIVES("as optional", w.t.template as<dart::shim::optional<S>>()) GIVES("as array", (w.t.template as<std::array<S, 3>>())) GIVES("as tuple", std::get<2>(w.t.template as<std::tuple<S, S, S>>()))
  GIVES("as variant", ([&] { auto v = w.t.template as<dart::shim::variant<S, std::vector<S>, int, std::nullptr_t, std::map<S, S>>>(); return std::to_string(v.index()) + (v.index() == 0 ? dart::shim::get<0>(v) : S()); }()))
  GIVES("as variant with truth", ([&] { auto v = w.t.template as<dart::shim::variant<int, S, bool>>(); return std::to_string(v.index()); }())) GIVES("as time_point", w.t.template as<std::chrono::system_clock::time_point>().time_since_epoch().count()) GIVES("explicit cast", static_cast<S>(w.t))
  m.run(o);
}
template <class P> void natives_in() {
  using Q = P; Opt o; o.t = Val::arr({Val::str("kept"), Val::str(kLong)}); Menu<P, Q> m; Effect e = strong; using S = std::string;
  GIVES("from string", conv::cast<P>(kLong)) GIVES("from vector", conv::cast<P>(std::vector<S> {kLong, "b", kKey})) GIVES("from list", conv::cast<P>(std::list<S> {kLong, "b"})) GIVES("from set", conv::cast<P>(std::set<S> {kLong, "b"})) GIVES("from map", (conv::cast<P>(std::map<S, S> {{kKey, kLong}, {"a", "b"}}))) GIVES("from multimap", (conv::cast<P>(std::multimap<S, S> {{"a", kLong}, {"a", "b"}, {"c", "d"}, {"c", kKey}})))
  GIVES("from unordered_map", (conv::cast<P>(std::unordered_map<S, std::vector<S>> {{kKey, {kLong, "x"}}}))) GIVES("from pair", conv::cast<P>(std::make_pair(kLong, 1))) GIVES("from tuple", conv::cast<P>(std::make_tuple(kLong, 1, S("x"), std::vector<int> {1, 2}))) GIVES("from optional", conv::cast<P>(some(kLong))) GIVES("from variant", (conv::cast<P>(dart::shim::variant<int, S>(kLong)))) GIVES("from time_point", conv::cast<P>(std::chrono::system_clock::time_point {std::chrono::seconds(1000000000)}))
  GIVES("from nested vectors", (conv::cast<P>(std::vector<std::map<S, std::vector<S>>> {{{"k", {kLong, "y"}}}, {}}))) GIVES("compare with vector", w.t == (std::vector<S> {"kept", kLong})) GIVES("compare with map", (std::map<S, S> {{"a", kLong}} == w.t)) GIVES("compare with string", w.t.back() == kLong) DOES("push_back of a vector", w.t.push_back(std::vector<S> {kLong, "z"})) DOES("set from a map", (w.t.set(0, std::map<S, S> {{kKey, kLong}}))) DOES("resize with a vector", w.t.resize(5, std::vector<S> {kLong}))
  GIVES("from a vector of values", conv::cast<P>(std::vector<P> {w.t, w.q, P::make_string(kLong)})) GIVES("from a map of values", (conv::cast<P>(std::map<S, P> {{"a", w.t}, {kKey, w.q}})))
  m.run(o);
}
template <class P> void wrappers() {
  using Q = P; Opt o; int which = choose(3); o.t = which == 0 ? pick(objects()) : which == 1 ? pick(arrays()) : pick(args()); o.q = pick(args()); Menu<P, Q> m; Effect e = strong;
  using Ob = dart::basic_object<P>; using Ar = dart::basic_array<P>; using St = dart::basic_string<P>; using Nu = dart::basic_number<P>;
  if (which == 0) {
    GIVES("object from value", Ob(w.t)) GIVES("array from an object", Ar(w.t)) GIVES("object of pairs", Ob("a", w.q, kKey, kLong)) GIVES("object injected", Ob(w.t).inject("x", w.q)) GIVES("object projected", Ob(w.t).project(std::vector<std::string> {"a", kKey})) GIVES("object grown", [&] { Ob x(w.t); x.insert(kKey, w.q); x.erase("a"); return x; }()) GIVES("object keys", Ob(w.t).keys()) GIVES("object has_key", Ob(w.t).has_key(kKey)) GIVES("object subscript", Ob(w.t)["a"])
  } else if (which == 1) {
    GIVES("array from value", Ar(w.t)) GIVES("object from an array", Ob(w.t)) GIVES("array of elements", Ar(1, w.q, kLong)) GIVES("array grown", [&] { Ar x(w.t); x.push_back(w.q).push_front(kLong); x.set(0, 2); x.insert(1, "y"); x.pop_back(); return x; }()) GIVES("array resized", [&] { Ar x(w.t); x.resize(9, w.q); x.reserve(30); return x; }()) GIVES("array front", Ar(1, w.q).front())
  } else {
    GIVES("string from text", St(kLong)) GIVES("string from value", St(w.t)) GIVES("string of two", St(kLong, kKey)) GIVES("string + text", St(kLong) + kKey) GIVES("text + string", kKey + St(kLong)) GIVES("string += text", [&] { St s(kLong); s += kKey; return s; }()) GIVES("number from value", Nu(w.t)) GIVES("number + 1", Nu(5) + 1) GIVES("2 * number", 2 * Nu(5)) GIVES("number update", [&] { Nu n(5); n += 3; n -= 1; n *= 2; ++n; n++; --n; return n; }()) GIVES("number /=", [&] { Nu n(5); n /= 2; return n; }()) GIVES("flag", dart::basic_flag<P>(true)) GIVES("null", dart::basic_null<P>())
    GIVES("string equals text", St(kLong) == kLong) GIVES("value of string", P(St(kLong))) GIVES("string assigned", [&] { St s("a"); s = kLong; return s; }())
  }
  m.run(o);
}
template <class P> void frozen() {
  using Q = P; Opt o; o.t = pick(objects()); o.tf = true; o.q = Val::integer(0); Menu<P, Q> m; Effect e = strong; using Ob = dart::basic_object<P>; 
  GIVES("object from value", Ob(w.t)) GIVES("object injected", Ob(w.t).inject("x", kLong)) GIVES("object projected", Ob(w.t).project(std::vector<std::string> {"a", kKey})) GIVES("object values", Ob(w.t).values()) GIVES("array inside", dart::basic_array<P>(w.t["b"])) GIVES("string inside", dart::basic_string<P>(w.t["a"])) GIVES("finalized wrapper", Ob(w.t).finalize()) GIVES("dynamic wrapper", Ob(w.t).definalize())
  m.run(o);
}
MC_SPACE_X(natout, "natives out", "19 native types out of 8 values in 8 representations", 3, true) {
  switch (choose(6)) { case 0: natives_out<Hs>(false); break; case 1: natives_out<Hu>(false); break; case 2: natives_out<Bs>(true); break; case 3: natives_out<Bu>(true); break; case 4: natives_out<Ps>(flip()); break; default: natives_out<Pu>(flip()); }
}
MC_SPACE_X(natin, "natives in", "21 native values into heaps and packets of both counters, compared, inserted", 3, true) { switch (choose(4)) { case 0: natives_in<Hs>(); break; case 1: natives_in<Hu>(); break; case 2: natives_in<Ps>(); break; default: natives_in<Pu>(); } }
MC_SPACE_X(wrap, "wrappers", "40 uses of typed wrappers and operators, heaps, packets and buffers", 3, true) { switch (choose(6)) { case 0: wrappers<Hs>(); break; case 1: wrappers<Hu>(); break; case 2: wrappers<Ps>(); break; case 3: wrappers<Pu>(); break; case 4: frozen<Bs>(); break; default: frozen<Ps>(); } }
}
