// C03: mutable objects are maps, under every bounded history.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

std::vector<std::string> const& keys() { static std::vector<std::string> const k {"a", "", "b", "ab", "aa"}; return k; }
Val nth_value(int n) {
  switch (n) { case 0: return Val::integer(1); case 1: return Val::str("value long enough to allocate"); case 2: return Val::obj({{"a", Val::null()}}); default: return Val::arr({Val::decimal(0.5)}); }
}

// Position of an iterator: number of steps to the end.
template <class T, class I> long to_end(T const& t, I it, long most) { long n = 0; for (; it != t.end(); ++it) if (++n > most) break; return n; }
template <class T, class I> long to_key_end(T const& t, I it, long most) { long n = 0; for (; it != t.key_end(); ++it) if (++n > most) break; return n; }

template <class T> struct Gen {    // basic_heap, basic_packet
  using H = T;
  static T make() { return T::make_object(); }
  static constexpr bool full = true;
};
template <class T> struct Typed {  // typename T::object
  using H = T;
};

// A handle under test with its model, and snapshots (copies) that must never change.
template <class T, class P> struct State {
  T t; Val m = Val::obj();
  std::vector<std::pair<T, Val>> snaps;
  explicit State(T x) : t(std::move(x)) {}
  void check(char const* what) {
    Val got = read(t);
    if (!same(got, m)) mc::fail(std::string("contents after ") + what, std::string("after ") + what + " the object is " + dump(got) + ", expected " + dump(m));
    MC_CHECK(t.size() == m.o.size() && t.empty() == m.o.empty(), "size", "size()/empty() disagree with the contents");
    for (auto& s : snaps) { Val g = read(s.first); if (!same(g, s.second)) mc::fail(std::string("copy changed by ") + what, std::string("a copy became ") + dump(g) + ", was " + dump(s.second)); }
    mc::state(mc::mix(hash(m), snaps.size()));
  }
};

template <class S, class I> void check_iter(S& s, I it, std::string const& key, char const* what) {
  auto f = s.m.o.find(key);
  MC_CHECK(it != s.t.end(), what, std::string(what) + " returned the end");
  Val got = read(*it);
  if (!same(got, f->second)) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator to " + dump(got) + ", expected " + dump(f->second));
  long want = std::distance(f, s.m.o.end());
  if (to_end(s.t, it, 20) != want) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator at the wrong position");
}
// Iterator after an erase: at the successor of `key`.
template <class S, class I> void check_after(S& s, I it, std::string const& key, bool erased, char const* what) {
  auto f = s.m.o.upper_bound(key);
  long want = erased ? std::distance(f, s.m.o.end()) : 0;
  if (to_end(s.t, it, 20) != want) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator " + std::to_string(to_end(s.t, it, 20)) + " from the end, expected " + std::to_string(want));
  if (want) { Val got = read(*it); if (!same(got, f->second)) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator to " + dump(got)); }
}

// Operations every form has. Returns false when `op` is out of range.
enum { kCommon = 9 };
template <class S, class T, class P> void common_op(S& s, int op, int nk, int nv) {
  switch (op) {
    case 0: { auto k = keys()[choose(nk)]; Val v = nth_value(choose(nv)); MC_NOTE("add_field " + mc::show(k) + " = " + dump(v)); s.t.add_field(sv(k), build<P>(v)); s.m.o[k] = v; s.check("add_field"); break; }
    case 1: { auto k = keys()[choose(nk)]; Val v = nth_value(choose(nv)); MC_NOTE("rvalue add_field " + mc::show(k) + " = " + dump(v)); T tmp = std::move(s.t).add_field(sv(k), build<P>(v)); s.t = std::move(tmp); s.m.o[k] = v; s.check("rvalue add_field"); break; }
    case 2: { auto k = keys()[choose(nk)]; Val v = nth_value(choose(nv)); MC_NOTE("insert " + mc::show(k) + " = " + dump(v)); auto it = s.t.insert(sv(k), build<P>(v)); s.m.o[k] = v; s.check("insert"); check_iter(s, it, k, "insert"); break; }
    case 3: {
      auto k = keys()[choose(nk)]; Val v = nth_value(choose(nv)); bool have = s.m.o.count(k); MC_NOTE("set " + mc::show(k) + " = " + dump(v));
      typename T::iterator it; Err e = attempt([&] { it = s.t.set(sv(k), build<P>(v)); });
      expect_err(e, have ? Err::none : Err::range, "set(key)");
      if (have) s.m.o[k] = v;
      s.check("set"); if (have) check_iter(s, it, k, "set"); break;
    }
    case 4: { auto k = keys()[choose(nk)]; MC_NOTE("erase " + mc::show(k)); auto it = s.t.erase(sv(k)); bool had = s.m.o.erase(k); s.check("erase"); check_after(s, it, k, had, "erase"); break; }
    case 5: { auto k = keys()[choose(nk)]; MC_NOTE("remove_field " + mc::show(k)); s.t.remove_field(sv(k)); s.m.o.erase(k); s.check("remove_field"); break; }
    case 6: { auto k = keys()[choose(nk)]; MC_NOTE("rvalue remove_field " + mc::show(k)); T tmp = std::move(s.t).remove_field(sv(k)); s.t = std::move(tmp); s.m.o.erase(k); s.check("rvalue remove_field"); break; }
    case 7: { MC_NOTE("clear"); s.t.clear(); s.m.o.clear(); s.check("clear"); break; }
    case 8: { if (s.snaps.size() >= 2) mc::prune(); MC_NOTE("keep a copy"); s.snaps.emplace_back(s.t, s.m); s.check("copy"); break; }
  }
}
// Iterator based and heterogeneous-key operations, heap and packet only.
enum { kExtra = 13 };
template <class S, class T> void extra_op(S& s, int op, int nv) {
  auto nth = [&] (int n) { auto it = s.m.o.begin(); std::advance(it, n); return it; };
  int size = (int) s.m.o.size();
  switch (op) {
    case 0: { if (!size) mc::prune(); int n = choose(size); Val v = nth_value(choose(nv)); MC_NOTE("insert at iterator " + std::to_string(n)); auto k = nth(n)->first; auto pos = s.t.begin(); std::advance(pos, n); auto it = s.t.insert(pos, build<T>(v)); s.m.o[k] = v; s.check("insert(iterator)"); check_iter(s, it, k, "insert(iterator)"); break; }
    case 1: { if (!size) mc::prune(); int n = choose(size); Val v = nth_value(choose(nv)); MC_NOTE("set at iterator " + std::to_string(n)); auto k = nth(n)->first; auto pos = s.t.begin(); std::advance(pos, n); auto it = s.t.set(pos, build<T>(v)); s.m.o[k] = v; s.check("set(iterator)"); check_iter(s, it, k, "set(iterator)"); break; }
    case 2: { if (!size) mc::prune(); int n = choose(size); MC_NOTE("erase at iterator " + std::to_string(n)); auto k = nth(n)->first; auto pos = s.t.begin(); std::advance(pos, n); auto it = s.t.erase(pos); s.m.o.erase(k); s.check("erase(iterator)"); check_after(s, it, k, true, "erase(iterator)"); break; }
    case 3: { if (!size) mc::prune(); int n = choose(size); MC_NOTE("erase at key iterator " + std::to_string(n)); auto k = nth(n)->first; auto pos = s.t.key_begin(); std::advance(pos, n); auto it = s.t.erase(pos); s.m.o.erase(k); s.check("erase(key iterator)");
      auto f = s.m.o.upper_bound(k); long want = std::distance(f, s.m.o.end());
      MC_CHECK(to_key_end(s.t, it, 20) == want, "erase(key iterator) position", "erase(key iterator) returned a wrong position");
      if (want) { auto kv = *it; MC_CHECK(same(read(kv), Val::str(f->first)), "erase(key iterator) key", "erase(key iterator) does not return the next key"); }
      break; }
    case 4: { auto k = keys()[choose(2)]; Val v = nth_value(choose(nv)); MC_NOTE("insert dart key " + mc::show(k)); auto dk = T::make_string(sv(k)); s.t.insert(dk, build<T>(v)); s.m.o[k] = v; s.check("insert(dart key)"); break; }
    case 5: { auto k = keys()[choose(2)]; bool have = s.m.o.count(k); MC_NOTE("erase dart key " + mc::show(k)); auto dk = T::make_string(sv(k)); auto it = s.t.erase(dk); s.m.o.erase(k); s.check("erase(dart key)"); check_after(s, it, k, have, "erase(dart key)"); break; }
    case 6: { if (!size) mc::prune(); MC_NOTE("erase using the object's own key"); auto k = nth(0)->first; auto own = *s.t.key_begin(); s.t.remove_field(own); s.m.o.erase(k); s.check("remove_field(own key)"); break; }
    case 7: { // iterator taken from a copy made earlier
      if (s.snaps.empty() || s.snaps[0].second.o.empty()) mc::prune();
      auto k = s.snaps[0].second.o.begin()->first; Val v = nth_value(0); MC_NOTE("insert at an iterator of the first copy");
      auto it = s.t.insert(s.snaps[0].first.begin(), build<T>(v)); s.m.o[k] = v; s.check("insert(foreign iterator)"); check_iter(s, it, k, "insert(foreign iterator)"); break; }
    case 8: { if (s.snaps.empty() || s.snaps[0].second.o.empty()) mc::prune();
      auto k = s.snaps[0].second.o.begin()->first; MC_NOTE("erase at an iterator of the first copy"); bool had = s.m.o.count(k);
      auto pos = s.snaps[0].first.begin(); auto it = s.t.erase(pos); s.m.o.erase(k); s.check("erase(foreign iterator)"); check_after(s, it, k, had, "erase(foreign iterator)"); break; }
    case 9: { // iterator held across mutations of its own (now copied-out) object
      if (!size) mc::prune();
      auto it = s.t.begin(); auto held = s.t; Val before = s.m; MC_NOTE("mutate while an iterator and a copy exist");
      s.t.add_field("zz", 5); s.m.o["zz"] = Val::integer(5); s.check("add_field with live iterator");
      MC_CHECK(same(read(*it), before.o.begin()->second), "iterator of a copy", "an iterator into shared data changed");
      expect(held, before, "the held copy"); break; }
    case 10: { MC_NOTE("move out and back"); T tmp = std::move(s.t); MC_CHECK(s.t.is_null(), "moved-from", "moved-from handle is not null"); s.t = std::move(tmp); s.check("move"); break; }
    case 11: { MC_NOTE("self assignment"); auto& self = s.t; s.t = self; s.check("self assignment"); break; }
    case 12: { if (s.snaps.empty()) mc::prune(); MC_NOTE("restore the first copy"); s.t = s.snaps[0].first; s.m = s.snaps[0].second; s.check("restore"); break; }
  }
}
// Misuse: must be rejected with this kind of error and change nothing.
enum { kBad = 17 };
template <class S, class T> void bad_op(S& s, int op) {
  auto& t = s.t; Err want = Err::type, got; MC_NOTE("misuse " + std::to_string(op));
  typename T::iterator none;
  switch (op) {
    case 0: got = attempt([&] { t.insert(rep('k', 65536), 1); }); want = Err::invalid; break;
    case 1: got = attempt([&] { t.add_field(rep('k', 70000), 1); }); want = Err::invalid; break;
    case 2: got = attempt([&] { t.insert(true, 1); }); break;
    case 3: got = attempt([&] { t.insert(nullptr, 1); }); break;
    case 4: got = attempt([&] { t.insert(0.5, 1); }); break;
    case 5: got = attempt([&] { t.insert(0, 1); }); break;
    case 6: got = attempt([&] { t.set(0, 1); }); break;
    case 7: got = attempt([&] { t.set(true, 1); }); break;
    case 8: got = attempt([&] { t.push_back(1); }); break;
    case 9: got = attempt([&] { t.push_front(1); }); break;
    case 10: got = attempt([&] { t.pop_back(); }); break;
    case 11: got = attempt([&] { t.pop_front(); }); break;
    case 12: got = attempt([&] { t.insert(none, 1); }); want = Err::invalid; break;
    case 13: got = attempt([&] { t.set(none, 1); }); want = Err::invalid; break;
    case 14: got = attempt([&] { t.erase(none); }); want = Err::invalid; break;
    case 15: got = attempt([&] { t.reserve(10); }); break;
    case 16: got = attempt([&] { t.resize(3); }); break;
  }
  expect_err(got, want, "misuse " + std::to_string(op) + " on an object");
  s.check("rejected operation");
}

template <class T> void generic_history(int depth, int nk, int nv, bool bad) {
  State<T, T> s {T::make_object()};
  int n = depth;
  for (int i = 0; i < n; ++i) {
    int op = choose(kCommon + kExtra + (bad ? 1 : 0)); mc::step();
    if (op < kCommon) common_op<State<T, T>, T, T>(s, op, nk, nv);
    else if (op < kCommon + kExtra) extra_op<State<T, T>, T>(s, op - kCommon, nv);
    else bad_op<State<T, T>, T>(s, choose(kBad));
  }
  mc::nontrivial();
}
template <class T, class P> void typed_history(int depth, int nk, int nv) {
  State<T, P> s {T {P::make_object()}};
  for (int i = 0; i < depth; ++i) { mc::step(); common_op<State<T, P>, T, P>(s, choose(kCommon), nk, nv); }
  mc::nontrivial();
}

MC_SPACE_X(h_s, "heap", "every history of 4 (thorough 5) operations out of 23 kinds, 2 keys, 1 value, dart::heap", 3, true) { generic_history<dart::heap>(mc::thorough() ? 5 : 4, 2, 1, true); }
MC_SPACE_X(h_w, "heap-wide", "every history of 3 operations, 5 keys x 4 values, dart::heap", 2, true) { generic_history<dart::heap>(3, 5, 4, true); }
MC_SPACE_X(p_s, "packet", "every history of 3 (thorough 4) operations, 3 keys, 2 values, dart::packet", 2, true) { generic_history<dart::packet>(mc::thorough() ? 4 : 3, 3, 2, true); }
MC_SPACE_X(u_s, "unsafe-heap", "every history of 3 (thorough 4) operations, 3 keys, 2 values, unsafe_heap", 2, true) { generic_history<dart::unsafe_heap>(mc::thorough() ? 4 : 3, 3, 2, true); }
MC_SPACE_X(ht, "heap-object", "every history of 3 (thorough 4) keyed operations, 3 keys, 2 values, dart::heap::object", 2, true) { typed_history<dart::heap::object, dart::heap>(mc::thorough() ? 4 : 3, 3, 2); }
MC_SPACE_X(pt, "packet-object", "every history of 3 (thorough 4) keyed operations, 3 keys, 2 values, dart::packet::object", 2, true) { typed_history<dart::packet::object, dart::packet>(mc::thorough() ? 4 : 3, 3, 2); }

// Finalized packets reject every mutation, at any point of a finalize/mutate history.
MC_SPACE(fin, "finalized-packet", "every mutation on a finalized packet of 0..2 fields, then definalize and repeat it") {
  Val m = Val::obj(); int n = choose(3); for (int i = 0; i < n; ++i) m.o[keys()[i]] = nth_value(i);
  dart::packet p = build<dart::packet>(m); dart::packet dyn = p;
  p.finalize(); int op = choose(16); mc::step(); MC_NOTE(dump(m) + " finalized, operation " + std::to_string(op));
  dart::packet::iterator it = p.begin(), none;
  Err got = Err::none, want = Err::state; bool deref = n > 0;
  switch (op) {
    case 0: got = attempt([&] { p.add_field("a", 1); }); break;
    case 1: got = attempt([&] { p.insert("a", 1); }); break;
    case 2: got = attempt([&] { p.set("a", 1); }); break;
    case 3: got = attempt([&] { p.erase("a"); }); break;
    case 4: got = attempt([&] { p.remove_field("a"); }); break;
    case 5: got = attempt([&] { p.clear(); }); break;
    case 6: got = attempt([&] { auto q = std::move(p).add_field("a", 1); }); break;
    case 7: got = attempt([&] { auto q = std::move(p).remove_field("a"); }); break;
    case 8: got = attempt([&] { p.push_back(1); }); break;
    case 9: got = attempt([&] { p.pop_front(); }); break;
    case 10: got = attempt([&] { p.reserve(4); }); break;
    case 11: got = attempt([&] { p.resize(4); }); break;
    case 12: got = attempt([&] { p.insert(none, 1); }); want = Err::invalid; break;
    case 13: if (!deref) mc::prune(); got = attempt([&] { p.insert(it, 1); }); want = Err::type; break;
    case 14: if (!deref) mc::prune(); got = attempt([&] { p.erase(it); }); want = Err::type; break;
    case 15: if (!deref) mc::prune(); got = attempt([&] { p.set(it, 1); }); want = Err::type; break;
  }
  expect_err(got, want, "mutation " + std::to_string(op) + " of a finalized packet");
  expect(p, m, "finalized packet after a rejected mutation"); expect(dyn, m, "dynamic copy");
  MC_CHECK(p.is_finalized(), "finalized state", "a rejected mutation changed the state");
  p.definalize(); p.add_field("new", 1); m.o["new"] = Val::integer(1); expect(p, m, "definalized packet after add_field");
  mc::nontrivial();
}
// Mutations of values that are not objects.
MC_SPACE(wrong, "non-object-mutation", "every keyed mutation on every boundary scalar and on arrays, heap and packet") {
  static std::vector<Val> const vals = [] { auto v = scalars(); v.push_back(Val::arr({Val::integer(1)})); return v; }();
  Val v = pick(vals); if (v.k == Val::Obj) mc::prune();
  auto h = build<dart::heap>(v); dart::packet p = h; auto held = h; int op = choose(6); mc::step(); MC_NOTE(dump(v) + " operation " + std::to_string(op));
  auto go = [&] (auto& t) {
    Err e = Err::none;
    switch (op) {
      case 0: e = attempt([&] { t.add_field("a", 1); }); break;
      case 1: e = attempt([&] { t.insert("a", 1); }); break;
      case 2: e = attempt([&] { t.set("a", 1); }); break;
      case 3: e = attempt([&] { t.erase("a"); }); break;
      case 4: e = attempt([&] { t.remove_field("a"); }); break;
      case 5: if (v.k == Val::Arr) return; e = attempt([&] { t.clear(); }); break;
    }
    expect_err(e, Err::type, "keyed mutation " + std::to_string(op) + " of a non-object");
  };
  go(h); go(p);
  expect(h, v, "value after a rejected mutation"); expect(p, v, "packet after a rejected mutation"); expect(held, v, "copy");
  mc::nontrivial();
}
// Construction from pairs is a sequence of insertions.
MC_SPACE(make, "make-object", "make_object and inject from every list of up to 3 pairs over 3 keys, duplicates included, heap and packet spans") {
  int n = choose(4); Val m = Val::obj(); std::vector<dart::heap> h; std::vector<dart::packet> p; std::string log;
  for (int i = 0; i < n; ++i) { auto k = keys()[choose(3)]; Val v = nth_value(i); m.o[k] = v; h.push_back(dart::heap::make_string(sv(k))); h.push_back(build<dart::heap>(v)); log += mc::show(k) + " "; }
  for (auto& x : h) p.push_back(x);
  MC_NOTE("pairs with keys " + log); mc::step(4); mc::state(hash(m));
  expect(dart::heap::make_object(gsl::span<dart::heap const>(h.data(), h.size())), m, "heap::make_object(span)");
  expect(dart::packet::make_object(gsl::span<dart::heap const>(h.data(), h.size())), m, "packet::make_object(heap span)");
  expect(dart::packet::make_object(gsl::span<dart::packet const>(p.data(), p.size())), m, "packet::make_object(packet span)");
  expect(dart::heap::make_object(gsl::span<dart::packet const>(p.data(), p.size())), m, "heap::make_object(packet span)");
  mc::nontrivial();
}

}
