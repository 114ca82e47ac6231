// C05: copies are independent under every bounded history over several handles.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

Val start_value(int n) {
  Val inner = Val::obj({{"x", Val::integer(2)}});
  switch (n) {
    case 0: return Val::obj({{"a", Val::arr({Val::integer(1), inner})}, {"s", Val::str("a string long enough to be allocated")}});
    default: return Val::arr({inner, Val::arr({Val::integer(1)}), Val::str("short")});
  }
}

template <class T> struct has_fin : std::false_type {};
template <template <class> class R> struct has_fin<dart::basic_packet<R>> : std::true_type {};

size_t weight(Val const& v) { size_t n = 1; for (auto& e : v.a) n += weight(e); for (auto& e : v.o) n += weight(e.second); return n; }

template <class T> struct World {
  static constexpr int N = 3;
  T h[N]; Val m[N]; bool fin[N] = {false, false, false}; uint64_t tag = 0;
  explicit World(int start) {
    Val v = start_value(start);
    h[0] = build<T>(v); h[1] = h[0];
    // third handle: a nested element
    if (v.k == Val::Obj) { h[2] = h[0]["a"]; m[2] = v.o["a"]; } else { h[2] = h[0][0]; m[2] = v.a[0]; }
    m[0] = m[1] = v;
  }
  void check(std::string const& what) {
    uint64_t s = tag;
    for (int i = 0; i < N; ++i) {
      Val got = read(h[i]);
      if (!same(got, m[i])) mc::fail("handle changed by " + what, "after " + what + " handle " + std::to_string(i) + " reads " + dump(got) + ", expected " + dump(m[i]));
      s = mc::mix(s, hash(m[i])); s = mc::mix(s, fin[i]);
    }
    mc::state(s);
  }
};

enum { kMut = 20, kPair = 8, kFin = 2 };
char const* mut_name[kMut] = {"add_field", "add_field new", "insert iterator", "set first", "remove_field first", "erase iterator", "clear", "push_back", "push_front", "pop_back", "pop_front", "array insert", "array set", "erase index", "resize up", "resize down", "reserve", "mutate through a typed copy", "mutate through a typed move", "mutate nested element"};

// Applies mutator op to handle i; the model says whether it must succeed.
template <class T> void mutate(World<T>& w, int i, int op) {
  T& h = w.h[i]; Val& m = w.m[i]; bool obj = m.k == Val::Obj, arr = m.k == Val::Arr, ok = true, fin = w.fin[i];
  Val next = m; std::string what = std::string(mut_name[op]) + " on handle " + std::to_string(i); MC_NOTE(what);
  Err e = Err::none; Val nv = Val::integer(7);
  auto run = [&] (auto&& f) { e = attempt(f); };
  switch (op) {
    case 0: ok = obj; run([&] { h.add_field("a", 7); }); if (ok) next.o["a"] = nv; break;
    case 1: ok = obj; run([&] { h.add_field("zz", "another string long enough to allocate"); }); if (ok) next.o["zz"] = Val::str("another string long enough to allocate"); break;
    case 2: if (!m.aggregate() || (obj && m.o.empty())) mc::prune(); run([&] { h.insert(h.begin(), 7); }); if (obj) next.o.begin()->second = nv; else next.a.insert(next.a.begin(), nv); break;
    case 3: if (!m.aggregate() || !m.size()) mc::prune(); run([&] { h.set(h.begin(), 7); }); if (obj) next.o.begin()->second = nv; else next.a[0] = nv; break;
    case 4: { if (obj && m.o.empty()) mc::prune(); ok = obj; std::string k = obj ? m.o.begin()->first : "a"; run([&] { h.remove_field(sv(k)); }); if (ok) next.o.erase(k); break; }
    case 5: if (!m.aggregate() || !m.size()) mc::prune(); run([&] { h.erase(h.begin()); }); if (obj) next.o.erase(next.o.begin()); else next.a.erase(next.a.begin()); break;
    case 6: ok = m.aggregate(); run([&] { h.clear(); }); if (obj) next.o.clear(); else next.a.clear(); break;
    case 7: ok = arr; run([&] { h.push_back(7); }); if (ok) next.a.push_back(nv); break;
    case 8: ok = arr; run([&] { h.push_front(7); }); if (ok) next.a.insert(next.a.begin(), nv); break;
    case 9: ok = arr; run([&] { h.pop_back(); }); if (ok && !next.a.empty()) next.a.pop_back(); break;
    case 10: ok = arr; run([&] { h.pop_front(); }); if (ok && !next.a.empty()) next.a.erase(next.a.begin()); break;
    case 11: ok = arr && m.a.size() >= 1; run([&] { h.insert(1, 7); }); if (ok) next.a.insert(next.a.begin() + 1, nv); break;
    case 12: ok = arr && m.a.size() >= 2; run([&] { h.set(1, 7); }); if (ok) next.a[1] = nv; break;
    case 13: ok = arr; run([&] { h.erase(1); }); if (ok && next.a.size() > 1) next.a.erase(next.a.begin() + 1); break;
    case 14: ok = arr; run([&] { h.resize(4, 7); }); if (ok) next.a.resize(4, nv); break;
    case 15: ok = arr; run([&] { h.resize(1); }); if (ok) next.a.resize(1, Val::null()); break;
    case 16: ok = arr; run([&] { h.reserve(40); }); break;
    case 17: { // a typed wrapper made from a copy must not write through
      if (fin || !m.aggregate()) mc::prune();
      if (obj) { typename T::object o(h); o.add_field("typed", 1); o.clear(); MC_CHECK(o.empty(), "typed clear", "typed object not empty after clear"); }
      else { typename T::array a(h); a.push_back(1); a.resize(0); MC_CHECK(a.empty(), "typed resize", "typed array not empty"); }
      break; }
    case 18: { if (fin || !m.aggregate()) mc::prune();
      if (obj) { typename T::object o(std::move(h)); o.add_field("tm", 7); h = std::move(o); next.o["tm"] = nv; }
      else { typename T::array a(std::move(h)); a.push_front(7); h = std::move(a); next.a.insert(next.a.begin(), nv); }
      MC_CHECK(!fin, "typed", "unreachable"); break; }
    case 19: { // extract, mutate the element, put nothing back
      if (!m.aggregate() || !m.size()) mc::prune();
      Val const& f = obj ? m.o.begin()->second : m.a[0]; if (!f.aggregate()) mc::prune();
      T x = *h.begin(); if (fin) x = T(x); Err e2 = attempt([&] { if (f.k == Val::Obj) x.add_field("n", 7); else x.push_back(7); });
      expect_err(e2, fin ? Err::state : Err::none, "mutating an extracted element");
      break; }
  }
  if (op < 17) {
    if (fin) { MC_CHECK(e != Err::none, "finalized mutated", what + " of a finalized value did not throw"); }
    else { MC_CHECK((e == Err::none) == ok, "wrong acceptance: " + std::string(mut_name[op]), what + " gave " + name(e) + " on " + dump(m)); if (ok) m = next; }
  } else m = next;
  w.check(what);
}

// Operations over two handles.
char const* pair_name[kPair] = {"copy", "move", "extract first", "insert as first key", "append", "swap", "resize with", "consume first"};
template <class T> void pair_op(World<T>& w, int op, int i, int j) {
  T &a = w.h[i], &b = w.h[j]; Val &ma = w.m[i], &mb = w.m[j]; bool fa = w.fin[i];
  std::string what = std::string(pair_name[op]) + " " + std::to_string(i) + "," + std::to_string(j); MC_NOTE(what);
  switch (op) {
    case 0: a = b; ma = Val(mb); w.fin[i] = w.fin[j]; break;
    case 1: if (i == j) mc::prune(); a = std::move(b); ma = mb; w.fin[i] = w.fin[j]; mb = Val::null(); w.fin[j] = b.is_finalized(); break;
    case 2: { if (!mb.aggregate() || !mb.size()) mc::prune(); Val v = mb.k == Val::Obj ? mb.o.begin()->second : mb.a[0]; a = *b.begin(); ma = v; w.fin[i] = w.fin[j]; break; }
    case 3: { if (fa || ma.k != Val::Obj || weight(ma) + weight(mb) > 24) mc::prune(); Val v = mb; a.add_field("a", b); ma.o["a"] = v; break; }
    case 4: { if (fa || ma.k != Val::Arr || weight(ma) + weight(mb) > 24) mc::prune(); Val v = mb; a.push_back(b); ma.a.push_back(v); break; }
    case 5: { if (i >= j) mc::prune(); std::swap(a, b); std::swap(ma, mb); std::swap(w.fin[i], w.fin[j]); break; }
    case 6: { if (fa || ma.k != Val::Arr || weight(ma) + weight(mb) * 4 > 40) mc::prune(); Val v = mb; a.resize(3, b); ma.a.resize(3, v); break; }
    case 7: { // consuming access of a copy: the original must be unaffected
      if (!mb.aggregate() || !mb.size()) mc::prune(); T tmp = b; Val v;
      if (mb.k == Val::Obj) { std::string k = mb.o.begin()->first; v = mb.o.begin()->second; a = std::move(tmp)[sv(k)]; } else { v = mb.a[0]; a = std::move(tmp)[0]; }
      ma = v; w.fin[i] = w.fin[j]; break; }
  }
  w.check(what);
}
template <class T> void fin_op(World<T>&, int, int, std::false_type) { mc::prune(); }
template <class T> void fin_op(World<T>& w, int op, int i, std::true_type) {
  if (op == 0) {
    if (w.m[i].k != Val::Obj && !w.fin[i]) { Err e = attempt([&] { w.h[i].finalize(); }); MC_CHECK(e != Err::none, "finalize non-object", "finalizing a non-object did not throw"); MC_NOTE("rejected finalize"); w.check("rejected finalize"); return; }
    MC_NOTE("finalize " + std::to_string(i)); w.h[i].finalize(); w.fin[i] = true; w.check("finalize");
  } else { MC_NOTE("definalize " + std::to_string(i)); w.h[i].definalize(); w.fin[i] = false; w.check("definalize"); }
}

template <class T> void history(int depth, int start = -1) {
  World<T> w(start < 0 ? choose(2) : start); w.check("start");
  constexpr bool f = has_fin<T>::value; constexpr int ops = kMut + kPair * 3 + (f ? kFin : 0);
  for (int d = 0; d < depth; ++d) {
    int op = choose(ops * 3); mc::step(); int i = op / ops; op %= ops;
    if (op < kMut) mutate(w, i, op);
    else if (op < kMut + kPair * 3) { op -= kMut; pair_op(w, op / 3, i, op % 3); }
    else fin_op(w, op - kMut - kPair * 3, i, has_fin<T> {});
  }
  // destruction in every order is covered by handle order; drop one early
  w.h[0] = T::make_null(); w.m[0] = Val::null(); w.check("dropping handle 0"); mc::nontrivial();
}
}
MC_SPACE_X(heap, "heap", "every history of 3 (thorough 4) operations over 3 handles (20 mutators x 3 + 8 transfers x 9), start value 0 (thorough: both), dart::heap", 2, true) { history<dart::heap>(mc::thorough() ? 4 : 3, mc::thorough() ? -1 : 0); }
MC_SPACE_X(packet, "packet", "the same with finalize/definalize, start value 1 (thorough: both), dart::packet", 2, true) { history<dart::packet>(mc::thorough() ? 4 : 3, mc::thorough() ? -1 : 1); }
MC_SPACE_X(uheap, "unsafe-heap", "every history of 2 (thorough 3), unsafe_heap", 2, true) { history<dart::unsafe_heap>(mc::thorough() ? 3 : 2); }
MC_SPACE_X(upacket, "unsafe-packet", "every history of 2 (thorough 3), unsafe_packet", 2, true) { history<dart::unsafe_packet>(mc::thorough() ? 3 : 2); }
MC_SPACE_X(sheap, "skinny-heap", "every history of 2 (thorough 3), basic_heap<skinny_ptr>", 2, true) { history<dart::basic_heap<dart::skinny_ptr>>(mc::thorough() ? 3 : 2); }
