// C04: mutable arrays are sequences, under every bounded history.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

Val nth_value(int n) {
  switch (n) { case 0: return Val::integer(1); case 1: return Val::str("value long enough to allocate"); case 2: return Val::arr({Val::null(), Val::integer(2)}); case 3: return Val::obj({{"a", Val::decimal(0.5)}}); default: return Val::null(); }
}
template <class T, class I> long to_end(T const& t, I it, long most) { long n = 0; for (; it != t.end(); ++it) if (++n > most) break; return n; }

template <class T> struct State {
  T t; Val m = Val::arr(); int counter = 0;
  std::vector<std::pair<T, Val>> snaps;
  explicit State(T x) : t(std::move(x)) {}
  void check(char const* what) {
    Val got = read(t);
    if (!same(got, m)) mc::fail(std::string("contents after ") + what, std::string("after ") + what + " the array is " + dump(got) + ", expected " + dump(m));
    MC_CHECK(t.size() == m.a.size() && t.empty() == m.a.empty(), "size", "size()/empty() disagree with the contents");
    MC_CHECK(t.capacity() >= m.a.size(), "capacity", "capacity() is smaller than size()");
    for (auto& s : snaps) { Val g = read(s.first); if (!same(g, s.second)) mc::fail(std::string("copy changed by ") + what, std::string("a copy became ") + dump(g) + ", was " + dump(s.second)); }
    mc::state(mc::mix(hash(m), snaps.size()));
  }
  // Distinct values by default, so that order and identity are visible.
  Val value(int nv) { ++counter; int c = choose(nv); return c == 0 ? Val::integer(counter) : nth_value(c); }
};
template <class S, class I> void check_iter(S& s, I it, size_t idx, char const* what) {
  if (to_end(s.t, it, 30) != (long) (s.m.a.size() - idx)) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator " + std::to_string(to_end(s.t, it, 30)) + " from the end, expected " + std::to_string(s.m.a.size() - idx));
  if (idx < s.m.a.size()) { Val got = read(*it); if (!same(got, s.m.a[idx])) mc::fail(std::string(what) + " iterator", std::string(what) + " returned an iterator to " + dump(got) + ", expected " + dump(s.m.a[idx])); }
}
template <class V> typename std::vector<V>::iterator at(std::vector<V>& v, size_t i) { return v.begin() + i; }

// Indices relative to the size: all valid ones, one past the end, and far out.
size_t any_index(size_t size, bool far = true) {
  size_t i = choose((int) size + 1 + (far ? 3 : 0));
  if (i <= size) return i;
  return i == size + 1 ? size + 1 : i == size + 2 ? (size_t) INT64_MAX : (size_t) -1;
}

enum { kCommon = 16 };
template <class T, class P> void common_op(State<T>& s, int op, int nv, size_t max) {
  auto& a = s.m.a;
  switch (op) {
    case 0: { if (a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("push_back " + dump(v)); s.t.push_back(build<P>(v)); a.push_back(v); s.check("push_back"); break; }
    case 1: { if (a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("push_front " + dump(v)); s.t.push_front(build<P>(v)); a.insert(a.begin(), v); s.check("push_front"); break; }
    case 2: { if (a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("rvalue push_back " + dump(v)); T tmp = std::move(s.t).push_back(build<P>(v)); s.t = std::move(tmp); a.push_back(v); s.check("rvalue push_back"); break; }
    case 3: { if (a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("rvalue push_front " + dump(v)); T tmp = std::move(s.t).push_front(build<P>(v)); s.t = std::move(tmp); a.insert(a.begin(), v); s.check("rvalue push_front"); break; }
    case 4: { MC_NOTE("pop_back"); s.t.pop_back(); if (!a.empty()) a.pop_back(); s.check("pop_back"); break; }
    case 5: { MC_NOTE("pop_front"); s.t.pop_front(); if (!a.empty()) a.erase(a.begin()); s.check("pop_front"); break; }
    case 6: { MC_NOTE("rvalue pop_back"); T tmp = std::move(s.t).pop_back(); s.t = std::move(tmp); if (!a.empty()) a.pop_back(); s.check("rvalue pop_back"); break; }
    case 7: { MC_NOTE("rvalue pop_front"); T tmp = std::move(s.t).pop_front(); s.t = std::move(tmp); if (!a.empty()) a.erase(a.begin()); s.check("rvalue pop_front"); break; }
    case 8: {
      size_t i = any_index(a.size()); if (i <= a.size() && a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("insert " + std::to_string(i) + " = " + dump(v));
      typename T::iterator it; Err e = attempt([&] { it = s.t.insert(i, build<P>(v)); });
      expect_err(e, i <= a.size() ? Err::none : Err::range, "insert(index)");
      if (i <= a.size()) { a.insert(at(a, i), v); s.check("insert"); check_iter(s, it, i, "insert"); } else s.check("rejected insert"); break;
    }
    case 9: {
      size_t i = any_index(a.size()); Val v = s.value(nv); MC_NOTE("set " + std::to_string(i) + " = " + dump(v));
      typename T::iterator it; Err e = attempt([&] { it = s.t.set(i, build<P>(v)); });
      expect_err(e, i < a.size() ? Err::none : Err::range, "set(index)");
      if (i < a.size()) { a[i] = v; s.check("set"); check_iter(s, it, i, "set"); } else s.check("rejected set"); break;
    }
    case 10: { size_t i = any_index(a.size()); MC_NOTE("erase " + std::to_string(i)); auto it = s.t.erase(i); bool in = i < a.size(); if (in) a.erase(at(a, i)); s.check("erase"); check_iter(s, it, in ? i : a.size(), "erase"); break; }
    case 11: { MC_NOTE("clear"); s.t.clear(); a.clear(); s.check("clear"); break; }
    case 12: { size_t n = choose(5); MC_NOTE("resize " + std::to_string(n)); s.t.resize(n); a.resize(n, Val::null()); s.check("resize"); break; }
    case 13: { size_t n = choose(5); Val v = s.value(nv); MC_NOTE("resize " + std::to_string(n) + " with " + dump(v)); s.t.resize(n, build<P>(v)); a.resize(n, v); s.check("resize with default"); break; }
    case 14: { size_t n = choose(2) ? 20 : 0; MC_NOTE("reserve " + std::to_string(n)); s.t.reserve(n); MC_CHECK(s.t.capacity() >= n, "reserve", "capacity() is below the reserved amount"); s.check("reserve"); break; }
    case 15: { if (s.snaps.size() >= 2) mc::prune(); MC_NOTE("keep a copy"); s.snaps.emplace_back(s.t, s.m); s.check("copy"); break; }
  }
}
enum { kExtra = 12 };
template <class T> void extra_op(State<T>& s, int op, int nv, size_t max) {
  auto& a = s.m.a; int size = (int) a.size();
  switch (op) {
    case 0: { if (a.size() >= max) mc::prune(); int i = choose(size + 1); Val v = s.value(nv); MC_NOTE("insert at iterator " + std::to_string(i)); auto p = s.t.begin(); std::advance(p, i); auto it = s.t.insert(p, build<T>(v)); a.insert(at(a, i), v); s.check("insert(iterator)"); check_iter(s, it, i, "insert(iterator)"); break; }
    case 1: { if (!size) mc::prune(); int i = choose(size); Val v = s.value(nv); MC_NOTE("set at iterator " + std::to_string(i)); auto p = s.t.begin(); std::advance(p, i); auto it = s.t.set(p, build<T>(v)); a[i] = v; s.check("set(iterator)"); check_iter(s, it, i, "set(iterator)"); break; }
    case 2: { int i = choose(size + 1); MC_NOTE("erase at iterator " + std::to_string(i)); auto p = s.t.begin(); std::advance(p, i); auto it = s.t.erase(p); if (i < size) a.erase(at(a, i)); s.check("erase(iterator)"); check_iter(s, it, i < size ? i : size, "erase(iterator)"); break; }
    case 3: { // dart integer as the index
      size_t i = any_index(a.size(), false); if (i <= a.size() && a.size() >= max) mc::prune(); Val v = s.value(nv); MC_NOTE("insert at dart index " + std::to_string(i)); auto di = T::make_integer((int64_t) i);
      s.t.insert(di, build<T>(v)); a.insert(at(a, i), v); s.check("insert(dart index)"); break; }
    case 4: { if (!size) mc::prune(); int i = choose(size); MC_NOTE("erase dart index " + std::to_string(i)); auto di = T::make_integer(i); auto it = s.t.erase(di); a.erase(at(a, i)); s.check("erase(dart index)"); check_iter(s, it, i, "erase(dart index)"); break; }
    case 5: { typename T::number num(T::make_integer(choose(size + 1))); MC_NOTE("erase number " + std::to_string(num.integer())); size_t i = num.integer(); auto it = s.t.erase(num); if (i < a.size()) a.erase(at(a, i)); s.check("erase(number)"); check_iter(s, it, i < (size_t) size ? i : a.size(), "erase(number)"); break; }
    case 6: { // own element as value
      if (!size || a.size() >= max) mc::prune(); int i = choose(size); MC_NOTE("push_back own element " + std::to_string(i)); auto own = s.t[i]; s.t.push_back(own); Val v = a[i]; a.push_back(v); s.check("push_back(own element)"); break; }
    case 7: { if (!size || a.size() >= max) mc::prune(); MC_NOTE("insert the dereferenced first element at 0"); Val v = a[0]; s.t.insert(0, *s.t.begin()); a.insert(a.begin(), v); s.check("insert(*begin)"); break; }
    case 8: { if (!size) mc::prune(); auto it = s.t.begin(); auto held = s.t; Val before = s.m; MC_NOTE("mutate while an iterator and a copy exist");
      s.t.set(0, "replaced"); a[0] = Val::str("replaced"); s.check("set with live iterator");
      MC_CHECK(same(read(*it), before.a[0]), "iterator of a copy", "an iterator into shared data changed"); expect(held, before, "the held copy"); break; }
    case 9: { MC_NOTE("move out and back"); T tmp = std::move(s.t); MC_CHECK(s.t.is_null(), "moved-from", "moved-from handle is not null"); s.t = std::move(tmp); s.check("move"); break; }
    case 10: { if (s.snaps.empty()) mc::prune(); MC_NOTE("restore the first copy"); s.t = s.snaps[0].first; s.m = s.snaps[0].second; s.check("restore"); break; }
    case 11: { if (a.size() >= max || s.m.a.size() > 2) mc::prune(); if (hash(s.m) && dump(s.m).size() > 120) mc::prune(); MC_NOTE("push_back itself"); Val v = s.m; s.t.push_back(s.t); a.push_back(v); s.check("push_back(self)"); break; }
  }
}
enum { kBad = 16 };
template <class T> void bad_op(State<T>& s, int op) {
  auto& t = s.t; Err want = Err::type, got = Err::none; MC_NOTE("misuse " + std::to_string(op));
  typename T::iterator none; auto other = T::make_object("k", 1);
  switch (op) {
    case 0: got = attempt([&] { t.insert("a", 1); }); break;
    case 1: got = attempt([&] { t.add_field("a", 1); }); break;
    case 2: got = attempt([&] { t.insert(true, 1); }); break;
    case 3: got = attempt([&] { t.insert(nullptr, 1); }); break;
    case 4: got = attempt([&] { t.insert(0.5, 1); }); break;
    case 5: got = attempt([&] { t.set("a", 1); }); break;
    case 6: got = attempt([&] { t.set(true, 1); }); break;
    case 7: got = attempt([&] { t.erase("a"); }); break;
    case 8: got = attempt([&] { t.remove_field("a"); }); break;
    case 9: got = attempt([&] { t.insert(none, 1); }); want = Err::invalid; break;
    case 10: got = attempt([&] { t.set(none, 1); }); want = Err::invalid; break;
    case 11: got = attempt([&] { t.erase(none); }); want = Err::invalid; break;
    case 12: got = attempt([&] { t.insert(other.begin(), 1); }); break;
    case 13: got = attempt([&] { t.erase(other.begin()); }); break;
    case 14: got = attempt([&] { t.insert(-1, 1); }); want = Err::range; break;
    case 15: got = attempt([&] { t.set(-1, 1); }); want = Err::range; break;
  }
  expect_err(got, want, "misuse " + std::to_string(op) + " on an array");
  s.check("rejected operation");
}
template <class T> void generic_history(int depth, int nv, size_t max) {
  State<T> s {T::make_array()};
  for (int i = 0; i < depth; ++i) {
    int op = choose(kCommon + kExtra + 1); mc::step();
    if (op < kCommon) common_op<T, T>(s, op, nv, max);
    else if (op < kCommon + kExtra) extra_op<T>(s, op - kCommon, nv, max);
    else bad_op<T>(s, choose(kBad));
  }
  mc::nontrivial();
}
// Starts from an array of 2 elements so that index arithmetic matters at once.
template <class T> void seeded_history(int depth, int nv, size_t max) {
  State<T> s {T::make_array()};
  for (int i = 0; i < 2; ++i) { Val v = nth_value(i * 2); s.t.push_back(build<T>(v)); s.m.a.push_back(v); }
  for (int i = 0; i < depth; ++i) {
    int op = choose(kCommon + kExtra + 1); mc::step();
    if (op < kCommon) common_op<T, T>(s, op, nv, max);
    else if (op < kCommon + kExtra) extra_op<T>(s, op - kCommon, nv, max);
    else bad_op<T>(s, choose(kBad));
  }
  mc::nontrivial();
}
template <class T, class P> void typed_history(int depth, int nv) {
  State<T> s {T {P::make_array()}};
  for (int i = 0; i < depth; ++i) { mc::step(); common_op<T, P>(s, choose(kCommon), nv, 5); }
  mc::nontrivial();
}

MC_SPACE_X(h_s, "heap", "every history of 3 (thorough 4) operations out of 29 kinds with every index up to size+1 and far out, 1 value kind, dart::heap", 3, true) { generic_history<dart::heap>(mc::thorough() ? 4 : 3, 1, 5); }
MC_SPACE_X(h_d, "heap-seeded", "every history of 3 operations from a 2-element array, 2 value kinds (thorough 5), dart::heap", 3, true) { seeded_history<dart::heap>(3, mc::thorough() ? 5 : 1, 5); }
MC_SPACE_X(h_w, "heap-wide", "every history of 2 (thorough 3) operations, 5 value kinds, dart::heap", 2, true) { generic_history<dart::heap>(mc::thorough() ? 3 : 2, 5, 6); }
MC_SPACE_X(p_s, "packet", "every history of 2 (thorough 3) operations from a 2-element array, 3 value kinds, dart::packet", 2, true) { seeded_history<dart::packet>(mc::thorough() ? 3 : 2, 3, 5); }
MC_SPACE_X(p_e, "packet-empty", "every history of 3 (thorough 4) operations, 1 value kind, dart::packet", 2, true) { generic_history<dart::packet>(mc::thorough() ? 4 : 3, 1, 5); }
MC_SPACE_X(u_s, "unsafe-heap", "every history of 2 (thorough 3) operations from a 2-element array, 3 value kinds, unsafe_heap", 2, true) { seeded_history<dart::unsafe_heap>(mc::thorough() ? 3 : 2, 3, 5); }
MC_SPACE_X(ht, "heap-array", "every history of 3 (thorough 4) operations out of 16 kinds, 2 (thorough 1) value kinds, dart::heap::array", 2, true) { typed_history<dart::heap::array, dart::heap>(mc::thorough() ? 4 : 3, mc::thorough() ? 1 : 2); }
MC_SPACE_X(pt, "packet-array", "every history of 3 (thorough 4) operations out of 16 kinds, 2 (thorough 1) value kinds, dart::packet::array", 2, true) { typed_history<dart::packet::array, dart::packet>(mc::thorough() ? 4 : 3, mc::thorough() ? 1 : 2); }

// Growth: every size up to a bound reached by every single way of growing, then emptied by every way of shrinking.
MC_SPACE(grow, "growth", "arrays grown to every size 0..40 (thorough 200) by each of 4 ways, with and without a live copy, and drained by each of 3 ways") {
  int n = choose(mc::thorough() ? 201 : 41), how = choose(4), drain = choose(3); bool shared = mc::flip();
  auto h = dart::heap::make_array(); std::vector<int64_t> m; std::vector<std::pair<dart::heap, size_t>> kept;
  MC_NOTE("grow to " + std::to_string(n) + " by way " + std::to_string(how) + ", drain by way " + std::to_string(drain));
  for (int i = 0; i < n; ++i) {
    switch (how) { case 0: h.push_back(i); m.push_back(i); break; case 1: h.push_front(i); m.insert(m.begin(), i); break; case 2: h.insert(m.size() / 2, i); m.insert(m.begin() + m.size() / 2, i); break; default: h.resize(i + 1, i); m.resize(i + 1, i); break; }
    if (shared && (i % 7) == 3) kept.emplace_back(h, m.size());
  }
  auto check = [&] { MC_CHECK(h.size() == m.size(), "size", "wrong size"); for (size_t i = 0; i < m.size(); ++i) { auto e = h[i]; MC_CHECK(e.integer() == m[i], "element", "wrong element at " + std::to_string(i)); } };
  check(); mc::step(n);
  while (!m.empty()) { switch (drain) { case 0: h.pop_back(); m.pop_back(); break; case 1: h.pop_front(); m.erase(m.begin()); break; default: h.erase(m.size() / 2); m.erase(m.begin() + m.size() / 2); break; } if (m.size() % 5 == 0) check(); }
  check(); for (auto& k : kept) MC_CHECK(k.first.size() == k.second, "copy", "a copy changed its size");
  mc::state(n * 100 + how * 10 + drain); mc::nontrivial();
}

MC_SPACE(fin, "finalized-array", "every mutation on a finalized array of 0..2 elements inside a packet") {
  int n = choose(3); Val m = Val::arr(); for (int i = 0; i < n; ++i) m.a.push_back(nth_value(i));
  dart::packet root = build<dart::packet>(Val::obj({{"arr", m}})); root.finalize(); dart::packet p = root["arr"]; int op = choose(14); mc::step();
  MC_NOTE(dump(m) + " finalized, operation " + std::to_string(op)); dart::packet::iterator none; Err got = Err::none, want = Err::state;
  switch (op) {
    case 0: got = attempt([&] { p.push_back(1); }); break;
    case 1: got = attempt([&] { p.push_front(1); }); break;
    case 2: got = attempt([&] { p.pop_back(); }); break;
    case 3: got = attempt([&] { p.pop_front(); }); break;
    case 4: got = attempt([&] { p.insert(0, 1); }); break;
    case 5: got = attempt([&] { p.set(0, 1); }); break;
    case 6: got = attempt([&] { p.erase(0); }); break;
    case 7: got = attempt([&] { p.clear(); }); break;
    case 8: got = attempt([&] { p.resize(1); }); break;
    case 9: got = attempt([&] { p.reserve(9); }); break;
    case 10: got = attempt([&] { auto q = std::move(p).push_back(1); }); break;
    case 11: got = attempt([&] { auto q = std::move(p).pop_back(); }); break;
    case 12: got = attempt([&] { auto q = std::move(p).push_front(1); }); break;
    case 13: got = attempt([&] { auto q = std::move(p).pop_front(); }); break;
  }
  expect_err(got, want, "mutation " + std::to_string(op) + " of a finalized array");
  expect(p, m, "finalized array after a rejected mutation");
  p.definalize(); p.push_back(9); m.a.push_back(Val::integer(9)); expect(p, m, "definalized array after push_back");
  mc::nontrivial();
}
MC_SPACE(wrong, "non-array-mutation", "every array mutation on every boundary scalar and on objects, heap and packet") {
  static std::vector<Val> const vals = [] { auto v = scalars(); v.push_back(Val::obj({{"a", Val::integer(1)}})); return v; }();
  Val v = pick(vals); if (v.k == Val::Arr) mc::prune();
  auto h = build<dart::heap>(v); dart::packet p = h; auto held = h; int op = choose(9); mc::step(); MC_NOTE(dump(v) + " operation " + std::to_string(op));
  auto go = [&] (auto& t) {
    Err e = Err::none;
    switch (op) {
      case 0: e = attempt([&] { t.push_back(1); }); break;
      case 1: e = attempt([&] { t.push_front(1); }); break;
      case 2: e = attempt([&] { t.pop_back(); }); break;
      case 3: e = attempt([&] { t.pop_front(); }); break;
      case 4: e = attempt([&] { t.insert(0, 1); }); break;
      case 5: e = attempt([&] { t.set(0, 1); }); break;
      case 6: e = attempt([&] { t.erase(0); }); break;
      case 7: e = attempt([&] { t.resize(2); }); break;
      case 8: e = attempt([&] { t.reserve(2); }); break;
    }
    expect_err(e, Err::type, "array mutation " + std::to_string(op) + " of a non-array");
  };
  go(h); go(p);
  expect(h, v, "value after a rejected mutation"); expect(p, v, "packet after a rejected mutation"); expect(held, v, "copy");
  mc::nontrivial();
}
// Construction from lists is a sequence of pushes.
MC_SPACE(make, "make-array", "make_array from every list of up to 3 values of 5 kinds, in heap, buffer-element and packet spans") {
  int n = choose(4); Val m = Val::arr(); std::vector<dart::heap> h; std::vector<dart::packet> p, pf; std::vector<dart::buffer> b;
  for (int i = 0; i < n; ++i) { Val v = nth_value(choose(5)); m.a.push_back(v); h.push_back(build<dart::heap>(v)); }
  for (auto& x : h) { p.push_back(x); auto o = dart::heap::make_object("k", x); auto fin = o.finalize(); b.push_back(fin["k"]); pf.push_back(fin["k"]); }
  MC_NOTE("list " + dump(m)); mc::step(6); mc::state(hash(m));
  expect(dart::heap::make_array(gsl::span<dart::heap const>(h.data(), h.size())), m, "heap::make_array(heap span)");
  expect(dart::heap::make_array(gsl::span<dart::packet const>(p.data(), p.size())), m, "heap::make_array(packet span)");
  expect(dart::heap::make_array(gsl::span<dart::buffer const>(b.data(), b.size())), m, "heap::make_array(buffer span)");
  expect(dart::packet::make_array(gsl::span<dart::heap const>(h.data(), h.size())), m, "packet::make_array(heap span)");
  expect(dart::packet::make_array(gsl::span<dart::packet const>(p.data(), p.size())), m, "packet::make_array(packet span)");
  expect(dart::packet::make_array(gsl::span<dart::packet const>(pf.data(), pf.size())), m, "packet::make_array(finalized packet span)");
  expect(dart::packet::make_array(gsl::span<dart::buffer const>(b.data(), b.size())), m, "packet::make_array(buffer span)");
  mc::nontrivial();
}

}
