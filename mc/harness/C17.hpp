// C17: ownership histories.
#pragma once
#include "../model.hpp"
#include "tracked.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace own {
template <class T> struct kind; // 0 heap, 1 buffer, 2 packet
template <template <class> class R> struct kind<dart::basic_heap<R>> { static constexpr int value = 0; using heap = dart::basic_heap<R>; template <class U> using counter = R<U>; };
template <template <class> class R> struct kind<dart::basic_buffer<R>> { static constexpr int value = 1; using heap = dart::basic_heap<R>; template <class U> using counter = R<U>; };
template <template <class> class R> struct kind<dart::basic_packet<R>> { static constexpr int value = 2; using heap = dart::basic_heap<R>; template <class U> using counter = R<U>; };
template <int n> using K = std::integral_constant<int, n>;
template <class T> using kind_t = K<kind<T>::value>;
template <class R> struct tracked_counter : std::false_type {};
template <class T> struct tracked_counter<tracked_ptr<T>> : std::true_type {};
template <class T> struct is_tracked : tracked_counter<typename kind<T>::template counter<int>> {};

inline Val start(int n) {
  Val deep = Val::obj({{"x", Val::arr({Val::str("another string too long to be kept inline"), Val::integer(2)})}});
  if (n == 0) return Val::obj({{"a", Val::arr({Val::integer(1), deep})}, {"mm", Val::str("a string long enough to be allocated")}, {"zzz", Val::obj({{"in", deep}, {"n", Val::null()}})}});
  return Val::obj({{"a key long enough to be allocated itself", deep}, {"b", Val::arr({Val::arr({Val::boolean(true)}), Val::str("s")})}});
}
inline int children(Val const& v) { return v.k == Val::Obj ? (int) v.o.size() : v.k == Val::Arr ? (int) v.a.size() : 0; }
inline Val child(Val const& v, int c) { if (v.k == Val::Obj) { auto it = v.o.begin(); std::advance(it, c); return it->second; } return v.a[c]; }
inline std::string child_key(Val const& v, int c) { auto it = v.o.begin(); std::advance(it, c); return it->first; }
// Upper bound on the blocks a dynamic value owns when nothing is shared.
inline long weight(Val const& v) { long n = v.aggregate() || v.k == Val::Str; for (auto& e : v.a) n += weight(e); for (auto& e : v.o) n += 1 + weight(e.second); return n; }

// ---- extraction by every access form ----
enum { kForms = 12 };
inline char const* form_name(int f) { static char const* n[kForms] = {"operator[]", "get", "at", "operator[] by value", "get by value", "at by value", "front", "back", "at_front", "at_back", "get_nested", "wrapper key"}; return n[f]; }
template <class T> typename kind<T>::heap keyv(Val const& m, int c) { return m.k == Val::Obj ? kind<T>::heap::make_string(sv(child_key(m, c))) : kind<T>::heap::make_integer(c); }
template <class T> T keyT(K<1>, Val const& m, int c) { return m.k == Val::Obj ? T(build<typename kind<T>::heap>(Val::obj({{child_key(m, c), Val::null()}})).finalize().key_begin().operator *()) : T(build<typename kind<T>::heap>(Val::obj({{"k", Val::integer(c)}})).finalize()["k"]); }
template <class T, int n> T keyT(K<n>, Val const& m, int c) { return m.k == Val::Obj ? T::make_string(sv(child_key(m, c))) : T::make_integer(c); }
// X is T const& or T&&.
template <class T, class X> bool extract(X&& h, Val const& m, int c, int form, T& out) {
  bool obj = m.k == Val::Obj; std::string k = obj ? child_key(m, c) : ""; int n = children(m);
  switch (form) {
    case 0: if (obj) out = std::forward<X>(h)[sv(k)]; else out = std::forward<X>(h)[c]; return true;
    case 1: if (obj) out = std::forward<X>(h).get(sv(k)); else out = std::forward<X>(h).get(c); return true;
    case 2: if (obj) out = std::forward<X>(h).at(sv(k)); else out = std::forward<X>(h).at(c); return true;
    case 3: { T key = keyT<T>(kind_t<T> {}, m, c); out = std::forward<X>(h)[key]; return true; }
    case 4: { T key = keyT<T>(kind_t<T> {}, m, c); out = std::forward<X>(h).get(key); return true; }
    case 5: { T key = keyT<T>(kind_t<T> {}, m, c); out = std::forward<X>(h).at(key); return true; }
    case 6: if (obj || c != 0) return false; out = std::forward<X>(h).front(); return true;
    case 7: if (obj || c != n - 1) return false; out = std::forward<X>(h).back(); return true;
    case 8: if (obj || c != 0) return false; out = std::forward<X>(h).at_front(); return true;
    case 9: if (obj || c != n - 1) return false; out = std::forward<X>(h).at_back(); return true;
    case 10: if (!obj) return false; out = std::forward<X>(h).get_nested(sv(k)); return true;
    default: if (obj) { typename T::string key(keyT<T>(kind_t<T> {}, m, c)); out = std::forward<X>(h)[key]; } else { typename T::number key(keyT<T>(kind_t<T> {}, m, c)); out = std::forward<X>(h)[key]; } return true;
  }
}

template <class T> struct Start;
template <template <class> class R> struct Start<dart::basic_heap<R>> { static dart::basic_heap<R> make(Val const& v, bool) { return build<dart::basic_heap<R>>(v); } };
template <template <class> class R> struct Start<dart::basic_buffer<R>> { static dart::basic_buffer<R> make(Val const& v, bool) { return build<dart::basic_heap<R>>(v).finalize(); } };
template <template <class> class R> struct Start<dart::basic_packet<R>> { static dart::basic_packet<R> make(Val const& v, bool fin) { auto p = build<dart::basic_packet<R>>(v); if (fin) p.finalize(); return p; } };

enum { N = 3 };
template <class T> struct World {
  using byte_ptr = typename kind<T>::template counter<gsl::byte const>;
  static constexpr int kd = kind<T>::value;
  T h[N] = {T::make_null(), T::make_null(), T::make_null()}; Val m[N]; bool fin[N]; int root[N] = {0, 0, 0}; int roots = 0;
  // holders besides the plain handles
  bool has_it = false, it_fin = false; typename T::iterator it, it_end; std::vector<Val> rest; int it_root = 0, it_slot = -1;
  bool has_w = false; std::unique_ptr<typename T::object> wo; std::unique_ptr<typename T::array> wa; Val wm; bool w_fin = false; int w_root = 0;
  bool has_b = false; dart::shareable_ptr<byte_ptr> b {nullptr}; size_t b_len = 0; Val bm; int b_root = 0;
  std::vector<std::string> log;

  explicit World(int s, bool f) {
    Val v = start(s); h[0] = Start<T>::make(v, f); m[0] = v; fin[0] = kd == 1 || (kd == 2 && f); root[0] = fin[0] ? ++roots : 0;
    h[1] = h[0]; m[1] = v; fin[1] = fin[0]; root[1] = root[0];
    h[2] = h[0][sv(child_key(v, (int) v.o.size() - 1))]; m[2] = child(v, (int) v.o.size() - 1); fin[2] = fin[0]; root[2] = root[0];
  }
  void set(int i, Val v, bool f, int r) { m[i] = std::move(v); fin[i] = f; root[i] = f ? r : 0; }
  void touch(int i) { if (has_it && !it_fin && it_slot == i) drop_it(); }
  void drop_it() { it = typename T::iterator {}; it_end = typename T::iterator {}; has_it = false; it_root = 0; rest.clear(); it_slot = -1; }
  void drop_w() { wo.reset(); wa.reset(); has_w = false; w_root = 0; wm = Val::null(); w_fin = false; }
  void check(std::string const& what) {
    MC_NOTE(what); mc::step(); uint64_t s = kd;
    for (int i = 0; i < N; ++i) {
      Val got = read(h[i]); if (!same(got, m[i])) mc::fail("handle reads wrong after " + what.substr(0, what.find(' ')), "after " + what + " handle " + std::to_string(i) + " reads " + dump(got) + ", expected " + dump(m[i]));
      s = mc::mix(s, hash(m[i])); s = mc::mix(s, root[i] * 2 + fin[i]);
    }
    if (has_it) { auto i = it; size_t n = 0; for (; i != it_end; ++i, ++n) { if (n >= rest.size()) mc::fail("iterator overruns", "an iterator visits too much after " + what); Val got = read(*i); if (!same(got, rest[n])) mc::fail("iterator reads wrong", "after " + what + " an iterator reads " + dump(got) + ", expected " + dump(rest[n])); } MC_CHECK(n == rest.size(), "iterator stops early", "an iterator stops early after " + what); s = mc::mix(s, 5 + rest.size()); s = mc::mix(s, it_root); }
    if (has_w) { Val got = wo ? read(*wo) : read(*wa); if (!same(got, wm)) mc::fail("wrapper reads wrong", "after " + what + " a typed wrapper reads " + dump(got) + ", expected " + dump(wm)); s = mc::mix(s, hash(wm) + w_root); }
    if (has_b) { Bytes want = encode(bm); if (b_len != want.size() || memcmp(b.get(), want.data(), b_len)) mc::fail("bytes change", "after " + what + " shared bytes differ from the value they were taken from"); s = mc::mix(s, hash(bm) + b_root); }
    if (is_tracked<T>::value) {
      std::map<int, bool> must; long up = 0; // root -> required
      auto add = [&] (bool f, int r, Val const& v) { if (f && r) { bool& x = must[r]; x = x || v.k != Val::Null; } else if (!f) up += weight(v); };
      for (int i = 0; i < N; ++i) add(fin[i], root[i], m[i]); if (has_it && it_fin) must[it_root] = true; if (has_w) add(w_fin, w_root, wm); if (has_b) must[b_root] = true;
      // A heap iterator does not own, it shares nothing.
      long lo = 0; for (auto& e : must) lo += e.second; long hi = (long) must.size() + up, got = trk::stats().blocks - base;
      if (got < lo || got > hi) mc::fail(got > hi ? "data outlives its last user" : "data is gone early", "after " + what + " " + std::to_string(got) + " blocks are alive, expected " + std::to_string(lo) + " to " + std::to_string(hi));
    }
    mc::state(s);
  }
  long base = 0;
};

// ---- histories ----
template <class T> struct Ops {
  using W = World<T>; static constexpr int kd = kind<T>::value;
  enum { kPair = 9, kSingle = 14, kInsert = 2, kAll = kPair * 9 + kSingle * 3 + kInsert * 9 };
  static std::string ij(char const* n, int i, int j) { return std::string(n) + " " + std::to_string(i) + "," + std::to_string(j); }
  static void need(bool x) { if (!x) mc::prune(); }
  static int pick_child(Val const& v, bool last) { need(v.aggregate() && children(v) > 0); return last ? children(v) - 1 : 0; }

  static void pair(W& w, int op, int i, int j) {
    T &a = w.h[i], &b = w.h[j]; Val mv = w.m[j]; bool f = w.fin[j]; int r = w.root[j];
    switch (op) {
      case 0: a = b; w.touch(i); w.set(i, mv, f, r); return w.check(ij("copy", i, j));
      case 1: need(i != j); a = std::move(b); w.touch(i); w.touch(j); w.set(i, mv, f, r); MC_CHECK(b.is_null(), "moved from", "a moved-from handle is not null"); w.set(j, Val::null(), b.is_finalized() && kd, 0); return w.check(ij("move", i, j));
      case 2: { int c = pick_child(mv, false); extract<T>(const_cast<T const&>(b), mv, c, 0, a); w.touch(i); w.set(i, child(mv, c), f, r); return w.check(ij("extract first", i, j)); }
      case 3: { int c = pick_child(mv, true); consume(w, i, j, c); return w.check(ij("consume last", i, j)); }
      case 4: { // a chain on a temporary copy
        int c = pick_child(mv, true); Val v = child(mv, c); int c2 = pick_child(v, false); { T key = keyT<T>(kind_t<T> {}, mv, c), key2 = keyT<T>(kind_t<T> {}, v, c2); a = T(b)[key][key2]; } w.touch(i); w.set(i, child(v, c2), f, r); return w.check(ij("chain on a temporary", i, j)); }
      case 5: { typename T::view v(b); typename T::view v2 = v; T o = v2.as_owner(); a = std::move(o); w.touch(i); w.set(i, mv, f, r); return w.check(ij("as_owner of a view", i, j)); }
      case 6: { int c = pick_child(mv, false); typename T::view v(b); T o = T::make_null(); { auto it = v.begin(); auto e = *it; o = e.as_owner(); } a = std::move(o); w.touch(i); w.set(i, child(mv, c), f, r); return w.check(ij("as_owner of a view's element", i, j)); }
      case 7: { need(i != j); a.~T(); new(&a) T(std::move(b)); w.touch(i); w.touch(j); w.set(i, mv, f, r); MC_CHECK(b.is_null(), "moved from", "a moved-from handle is not null"); w.set(j, Val::null(), b.is_finalized() && kd, 0); return w.check(ij("move construct", i, j)); }
      default: { need(i < j); using std::swap; swap(a, b); w.touch(i); w.touch(j); Val t = w.m[i]; bool tf = w.fin[i]; int tr = w.root[i]; w.set(i, mv, f, r); w.set(j, t, tf, tr); return w.check(ij("swap", i, j)); }
    }
  }
  static void consume(W& w, int i, int j, int c) {
    Val mv = w.m[j]; bool f = w.fin[j]; int r = w.root[j]; extract<T>(std::move(w.h[j]), mv, c, 0, w.h[i]); w.touch(i); w.touch(j);
    if (i != j) { if (f) { MC_CHECK(w.h[j].is_null(), "consumed from", "a handle consumed by an access and moved on is not null"); } else read(w.h[j]); w.h[j] = T::make_null(); w.set(j, Val::null(), kd == 1, 0); }
    w.set(i, child(mv, c), f, r);
  }
  static void single(W& w, int op, int i) { single(w, op, i, kind_t<T> {}); }
  static void common(W& w, int op, int i) {
    T& a = w.h[i]; Val mv = w.m[i]; bool f = w.fin[i]; int r = w.root[i];
    switch (op) {
      case 0: { T n = T::make_null(); a = n; w.touch(i); w.set(i, Val::null(), kd == 1, 0); return w.check(ij("drop", i, i)); }
      case 1: { need(mv.aggregate()); w.drop_it(); w.it = a.begin(); w.it_end = a.end(); w.has_it = true; w.it_fin = f; w.it_root = f ? r : 0; w.it_slot = i; for (int c = 0; c < children(mv); ++c) w.rest.push_back(child(mv, c)); return w.check(ij("iterate", i, i)); }
      case 2: { need(w.has_it && !w.rest.empty()); T e = *w.it; Val v = w.rest[0]; bool itf = w.it_fin; int itr = w.it_root; w.touch(i); a = std::move(e); w.set(i, v, itf, itr); return w.check(ij("dereference", i, i)); }
      case 3: { need(i == 0 && w.has_it && !w.rest.empty()); auto old = w.it++; Val got = read(*old); MC_CHECK(same(got, w.rest[0]), "iterator", "post increment returns the wrong position"); w.rest.erase(w.rest.begin()); return w.check("advance"); }
      case 4: { need(i < 2 && w.has_it); if (i == 0) { w.drop_it(); return w.check("drop the iterator"); } auto x = std::move(w.it); w.it = x; auto y = w.it_end; w.it_end = std::move(y); return w.check("pass the iterator around"); }
      case 5: { need(mv.aggregate()); w.drop_w(); if (mv.k == Val::Obj) w.wo.reset(new typename T::object(a)); else w.wa.reset(new typename T::array(a)); w.has_w = true; w.wm = mv; w.w_fin = f; w.w_root = f ? r : 0; return w.check(ij("wrap a copy", i, i)); }
      case 6: { need(mv.aggregate()); w.drop_w(); if (mv.k == Val::Obj) w.wo.reset(new typename T::object(std::move(a))); else w.wa.reset(new typename T::array(std::move(a))); w.touch(i); w.has_w = true; w.wm = mv; w.w_fin = f; w.w_root = f ? r : 0; MC_CHECK(a.is_null(), "moved from", "a handle moved into a wrapper is not null"); w.set(i, Val::null(), a.is_finalized() && kd, 0); return w.check(ij("wrap by move", i, i)); }
      case 7: { need(w.has_w); if (w.wo) a = *w.wo; else a = *w.wa; w.touch(i); w.set(i, w.wm, w.w_fin, w.w_root); return w.check(ij("unwrap a copy", i, i)); }
      case 8: { need(w.has_w); if (w.wo) a = std::move(*w.wo).dynamic(); else a = std::move(*w.wa).dynamic(); w.touch(i); w.set(i, w.wm, w.w_fin, w.w_root); if (w.wo) MC_CHECK(w.wo->is_null(), "moved from", "a moved-from wrapper is not null"); if (w.wa) MC_CHECK(w.wa->is_null(), "moved from", "a moved-from wrapper is not null"); w.drop_w(); return w.check(ij("unwrap by move", i, i)); }
      case 9: { need(mv.aggregate()); { auto vs = a.values(); MC_CHECK((int) vs.size() == children(mv), "values", "values() has the wrong size"); if (vs.empty()) mc::prune(); T x = vs.back(); a = std::move(x); } w.touch(i); w.set(i, child(mv, children(mv) - 1), f, r); return w.check(ij("last of values()", i, i)); }
      case 10: { need(mv.k == Val::Obj && !mv.o.empty()); { auto ks = a.keys(); T x = std::move(ks[0]); a = x; } w.touch(i); w.set(i, Val::str(child_key(mv, 0)), f, r); return w.check(ij("first of keys()", i, i)); }
    }
  }
  template <class X> static void bytes(W& w, int op, int i) {
    T& a = w.h[i]; Val mv = w.m[i]; bool f = w.fin[i]; int r = w.root[i];
    if (op == 11) { // only the root object hands out itself, a nested value its whole buffer
      need(f && mv.k == Val::Obj); Bytes want = encode(mv); auto own = a.get_bytes(); need((size_t) own.size() == want.size()); size_t n = a.share_bytes(w.b.raw()); if (n != want.size() || memcmp(w.b.get(), want.data(), n)) { w.b.reset(); w.has_b = false; w.b_root = 0; w.check("drop the bytes"); mc::prune(); }
      w.has_b = true; w.b_len = n; w.bm = mv; w.b_root = r; return w.check(ij("share_bytes", i, i)); }
    if (op == 12) { need(w.has_b); a = T(w.b); w.touch(i); w.set(i, w.bm, true, w.b_root); return w.check(ij("import shared bytes", i, i)); }
    need(f && mv.k == Val::Obj); a = T(a.dup_bytes()); w.touch(i); w.set(i, mv, true, ++w.roots); return w.check(ij("dup_bytes and import", i, i));
  }
  static void single(W& w, int op, int i, K<1>) { if (op < 11) return common(w, op, i); bytes<T>(w, op, i); }
  static void shrink(W& w, int i) { // remove the first element
    T& a = w.h[i]; need(!w.fin[i] && w.m[i].aggregate() && children(w.m[i])); a.erase(a.begin()); w.touch(i); Val v = w.m[i]; if (v.k == Val::Obj) v.o.erase(v.o.begin()); else v.a.erase(v.a.begin()); w.set(i, v, false, 0); w.check(ij("erase first", i, i));
  }
  static void single(W& w, int op, int i, K<0>) { if (op < 11) return common(w, op, i); need(op == 11); shrink(w, i); }
  static void single(W& w, int op, int i, K<2>) {
    if (op < 11) return common(w, op, i); T& a = w.h[i]; Val mv = w.m[i]; bool f = w.fin[i];
    if (op == 13) { if (f) return bytes<T>(w, 13, i); return shrink(w, i); }
    if (w.fin[i] && mv.k != Val::Obj && op == 12) mc::prune();
    if (op == 11) { need(mv.k == Val::Obj); if (i == 1) a = std::move(a).finalize(); else a.finalize(); w.touch(i); w.set(i, mv, true, f ? w.root[i] : ++w.roots); return w.check(ij("finalize", i, i)); }
    if (i == 1) a = std::move(a).definalize(); else a.definalize(); w.touch(i); w.set(i, mv, false, 0); w.check(ij("definalize", i, i));
  }
  static void insert(W&, int, int, int, K<1>) { mc::prune(); }
  template <int n> static void insert(W& w, int how, int i, int j, K<n>) {
    T &a = w.h[i], &b = w.h[j]; Val mv = w.m[j]; need(!w.fin[i] && w.m[i].aggregate() && weight(w.m[i]) + weight(mv) < 40); if (how) need(i != j); bool obj = w.m[i].k == Val::Obj;
    if (obj) { if (how) a.add_field("a", std::move(b)); else a.add_field("a", b); } else { if (how) a.push_front(std::move(b)); else a.push_front(b); }
    w.touch(i); Val v = w.m[i]; if (obj) v.o["a"] = mv; else v.a.insert(v.a.begin(), mv); w.set(i, v, false, 0);
    if (how) { w.touch(j); if (w.fin[j] && !b.is_null()) { expect(b, mv, "a finalized handle inserted by move"); b = T::make_null(); } MC_CHECK(b.is_null(), "moved from", "a handle inserted by move is not null"); w.set(j, Val::null(), b.is_finalized() && kd, 0); }
    w.check(ij(how ? "insert by move" : "insert a copy", i, j));
  }
  static void one(W& w) {
    int op = choose(kAll);
    if (op < kPair * 9) return pair(w, op / 9, op % 9 / 3, op % 3); op -= kPair * 9;
    if (op < kSingle * 3) return single(w, op / 3, op % 3); op -= kSingle * 3;
    insert(w, op / 9, op % 9 / 3, op % 3, kind_t<T> {});
  }
};
template <class T> void history(int depth) {
  long h0 = trk::stats().handles, b0 = trk::stats().blocks;
  { int s = mc::thorough() ? choose(2) : 0; bool f = kind<T>::value == 2 ? choose(2) : false; World<T> w(s, f); w.base = b0; w.check("start"); for (int d = 0; d < depth; ++d) Ops<T>::one(w);
    // drop the plain handles in turn: the holders go on
    int first = depth > 2 ? 0 : choose(2); for (int k = 0; k < N; ++k) { int i = first ? N - 1 - k : k; w.touch(i); w.h[i] = T::make_null(); w.set(i, Val::null(), kind<T>::value == 1, 0); w.check("final drop"); } mc::nontrivial(); }
  MC_CHECK(trk::stats().blocks == b0, "blocks left", "blocks are left when the last handle is gone"); MC_CHECK(trk::stats().handles == h0, "counters left", "reference counters were never destroyed");
}
// every access form, on lvalues, const lvalues, rvalues and temporaries; then the source goes first
template <class T> void forms() {
  long h0 = trk::stats().handles, b0 = trk::stats().blocks;
  { int s = choose(2), how = choose(4), form = choose(kForms), form2 = choose(kForms); bool f = kind<T>::value == 2 ? choose(2) : kind<T>::value == 1; Val v = start(s); int c = choose(children(v)); Val v1 = child(v, c); T out = T::make_null(), src = Start<T>::make(v, f);
    auto again = [&] (T&& x) -> T { // a second consuming extraction, off what the first gave
      if (children(v1) == 0) return std::move(x); T o = T::make_null(); if (!extract<T>(std::move(x), v1, children(v1) - 1, form2, o)) mc::prune(); return o; };
    if (how == 0) { if (!extract<T>(const_cast<T const&>(src), v, c, form, out)) mc::prune(); expect(src, v, "the source of an access"); }
    else if (how == 1) { if (!extract<T>(std::move(src), v, c, form, out)) mc::prune(); }
    else if (how == 2) { if (!extract<T>(T(src), v, c, form, out)) mc::prune(); expect(src, v, "the source of a copy"); }
    else { T keep = src; if (!extract<T>(std::move(keep), v, c, form, out)) mc::prune(); keep = T::make_null(); expect(src, v, "the other handle"); }
    MC_NOTE(dump(v) + " child " + std::to_string(c) + " by " + form_name(form) + " then " + form_name(form2) + " how " + std::to_string(how));
    src = T::make_null(); mc::step(); expect(out, v1, std::string(form_name(form)) + " after its source is gone");
    T kept = out; T next = again(std::move(out)); out = T::make_null(); expect(kept, v1, "what was extracted"); Val v2 = children(v1) ? child(v1, children(v1) - 1) : v1; kept = T::make_null(); expect(next, v2, std::string(form_name(form2)) + " after its source is gone");
    if (children(v2)) { // failing consuming accesses leave the value alone
      bool obj = v2.k == Val::Obj; T copy = next; Err e = attempt([&] { if (obj) { T x = std::move(next)[0]; } else { T x = std::move(next)["a"]; } }); expect_err(e, Err::type, "consuming access of the wrong kind"); expect(next, v2, "a value after a failing consuming access");
      e = attempt([&] { if (obj) { T x = std::move(next).at("missing"); } else { T x = std::move(next).at(99); } }); expect_err(e, Err::range, "consuming at() of a missing element"); expect(next, v2, "a value after a failing consuming at()"); expect(copy, v2, "a copy"); 
      T x = T(next)[obj ? keyT<T>(kind_t<T> {}, Val::obj({{"missing", Val::null()}}), 0) : keyT<T>(kind_t<T> {}, Val::arr(), 99)]; MC_CHECK(x.is_null(), "missing", "a missing element is not null"); }
    mc::nontrivial(); mc::state(mc::mix(hash(v2), form * 100 + form2)); }
  MC_CHECK(trk::stats().blocks == b0, "blocks left", "blocks are left when the last handle is gone"); MC_CHECK(trk::stats().handles == h0, "counters left", "reference counters were never destroyed");
}
}
#define C17_HIST(id, name, bounds, T, q, t) MC_SPACE_X(id, name, bounds, 2, true) { own::history<T>(mc::thorough() ? t : q); }
#define C17_FORMS(id, name, T) MC_SPACE_X(id, name, "every access form twice in a row, on lvalues, rvalues, temporaries and copies, 2 values, every child, " #T, 2, true) { own::forms<T>(); }
