// C16: short thread programs over handles to shared data, under every schedule with a bounded number of preemptions.
#pragma once
#include "../model.hpp"
#include "../sched.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
#ifndef MC_COUNTED // which pointer counts the references: by default one whose counter is a scheduling point
# define MC_COUNTED sched_ptr
# define par par_sched
template <class T> using sched_ptr = std::conditional_t<std::is_array<T>::value, dart::detail::counted_array_ptr_impl<T, sched::Counter>, dart::detail::counted_ptr_impl<T, sched::Counter>>;
#endif
namespace par {
using H = dart::basic_heap<MC_COUNTED>; using B = dart::basic_buffer<MC_COUNTED>; using P = dart::basic_packet<MC_COUNTED>;
inline Val value() { return Val::obj({{"a", Val::arr({Val::integer(1), Val::str("a string long enough to be shared")})}, {"o", Val::obj({{"x", Val::integer(2)}})}}); }
template <class T> struct Own { static T make(Val const& v, bool) { return build<T>(v); } };
template <> struct Own<B> { static B make(Val const& v, bool) { return build<H>(v).finalize(); } };
template <> struct Own<P> { static P make(Val const& v, bool f) { P p = build<P>(v); if (f) p.finalize(); return p; } };
template <class T> struct Prog { // what one thread owns
  T a = T::make_null(), b = T::make_null(); Val ma, mb; bool fin = false, fb = false; int id = 0; std::string wrong;
  void expect(bool ok, char const* what) { if (!ok && wrong.empty()) { mc::NoFault nf; wrong = what; } }
};
enum { kOps = 18 };
inline char const* op_name(int o) { static char const* n[kOps] = {"read", "copy and drop", "change a copy", "change", "change a nested value", "become the nested value", "move around", "drop", "finalize", "hold itself", "typed wrapper", "iterate", "view and own", "erase", "compare with a copy", "read a string", "clear", "definalize"}; return n[o]; }
template <class T> bool is_dyn(Prog<T>& p) { return !p.fin; }
inline void grow(Val& v, int id) { if (v.k == Val::Obj) v.o["m"] = Val::integer(id); else v.a.push_back(Val::integer(id)); }
template <class T> void grow(T& t, Val const& v, int id) { if (v.k == Val::Obj) t.add_field("m", id); else t.push_back(id); }
inline Val first(Val const& v) { return v.k == Val::Obj ? v.o.begin()->second : v.a.front(); }
template <class T> T first(T const& t) { return *t.begin(); }
template <class T> struct Dyn { // operations only dynamic values have
  static void op(Prog<T>& p, int o) {
    T& a = p.a; Val& m = p.ma; int id = p.id;
    switch (o) {
      case 2: { T c(a); grow(c, m, id); Val w = m; grow(w, id); p.expect(same(read(c), w), "a changed copy"); p.b = std::move(c); p.mb = w; p.fb = false; break; }
      case 3: grow(a, m, id); grow(m, id); break;
      case 4: { if (!m.size()) break; Val f = first(m); if (!f.aggregate()) break; T n = first(a); grow(n, f, id); grow(f, id); a.set(a.begin(), std::move(n)); if (m.k == Val::Obj) m.o.begin()->second = f; else m.a[0] = f; break; }
      case 9: { Val c = m; if (m.k == Val::Obj) { a.add_field("s", a); m.o["s"] = c; } else { a.push_back(a); m.a.push_back(c); } break; }
      case 10: if (m.k == Val::Obj) { typename T::object w(a); w.add_field("w", id); Val e = m; e.o["w"] = Val::integer(id); p.expect(same(read(w), e), "a changed wrapper"); } else { typename T::array w(a); w.push_back(id); Val e = m; e.a.push_back(Val::integer(id)); p.expect(same(read(w), e), "a changed wrapper"); } break;
      case 13: if (!m.size()) break; a.erase(a.begin()); if (m.k == Val::Obj) m.o.erase(m.o.begin()); else m.a.erase(m.a.begin()); break;
      case 16: a.clear(); m.o.clear(); m.a.clear(); break;
    }
  }
};
template <> struct Dyn<B> { static void op(Prog<B>& p, int o) {
  B& a = p.a; Val& m = p.ma;
  switch (o) {
    case 2: { dart::shareable_ptr<MC_COUNTED<gsl::byte const>> s(nullptr); a.share_bytes(s.raw()); B c(std::move(s)); p.expect(c.is_object(), "shared bytes"); p.b = c; p.mb = read(c); p.fb = true; break; }
    case 3: if (m.k == Val::Obj) { std::vector<H> kv; kv.push_back(H::make_string("m")); kv.push_back(H::make_integer(p.id)); a = a.inject(gsl::span<H const>(kv.data(), 2)); m.o["m"] = Val::integer(p.id); } break;
    case 4: { if (!m.size()) break; Val f = first(m); B c = m.k == Val::Obj ? std::move(a)[sv(m.o.begin()->first)] : std::move(a)[0]; a = std::move(c); m = f; break; }
    case 9: { if (m.k != Val::Obj) break; size_t n; auto d = a.dup_bytes(n); B c(std::move(d)); p.expect(read(c).k != Val::Null, "copied bytes"); break; }
    case 10: if (m.k == Val::Obj) { typename B::object w(a); p.expect(same(read(w), m), "a wrapper"); } else { typename B::array w(a); p.expect(same(read(w), m), "a wrapper"); } break;
    case 13: if (m.k == Val::Obj) { std::vector<dart::shim::string_view> keys; if (m.size()) keys.push_back(sv(m.o.begin()->first)); a = a.project(gsl::span<dart::shim::string_view const>(keys.data(), keys.size())); Val n = Val::obj(); if (m.size()) n.o.insert(*m.o.begin()); m = n; } break;
    default: break;
  } } };
inline void state_op(Prog<H>& p, int o) { if (o == 8) { if (p.ma.k != Val::Obj) return; B f = p.a.finalize(); p.expect(same(read(f), p.ma), "a finalized copy"); } }
inline void state_op(Prog<B>& p, int o) { if (o == 17) { H h = p.a.definalize(); p.expect(same(read(h), p.ma), "a dynamic copy"); } }
inline void state_op(Prog<P>& p, int o) { if (o == 8) { if (p.ma.k != Val::Obj || p.fin) return; p.a.finalize(); p.fin = true; } else if (p.fin) { p.a.definalize(); p.fin = false; } }
template <class T> bool applies(int o) { if (std::is_same<T, B>::value) return o != 16 && o != 8; if (std::is_same<T, H>::value) return o != 17; return true; }
template <class T> void op(Prog<T>& p, int o) {
  T& a = p.a; Val& m = p.ma; if (m.k == Val::Null) return; // dropped
  switch (o) {
    case 0: p.expect(same(read(a), m), "reading"); break;
    case 1: { T c(a); T d(std::move(c)); p.expect(c.is_null() && d.get_type() == a.get_type(), "a copy"); break; }
    case 5: if (!m.aggregate() || !m.size()) break; { T n = first(a); a = std::move(n); Val f = first(m); m = f; } break;
    case 6: { T c(std::move(a)); T d; d = std::move(c); p.expect(a.is_null(), "moved from"); a = std::move(d); break; }
    case 7: a = T::make_null(); m = Val::null(); break;
    case 8: case 17: state_op(p, o); break;
    case 11: if (!m.aggregate()) break; { auto it = a.begin(), e = a.end(); size_t n = 0; while (it != e) { auto k = it; T x = *k; ++it; ++n; } p.expect(n == m.size(), "iterating"); } break;
    case 12: { typename T::view v(a); T c = v.as_owner(); p.expect(c.get_type() == a.get_type(), "owning a view"); p.b = std::move(c); p.mb = m; p.fb = p.fin; break; }
    case 14: { T c(a); p.expect(a == c, "comparing"); break; }
    case 15: { if (m.k == Val::Obj && m.o.count("a") && m.o["a"].a.size() > 1) { T s = a["a"][1]; auto v = s.strv(); p.expect(std::string(v.data(), v.size()) == m.o["a"].a[1].s, "a string"); } break; }
    default: if (m.aggregate() && (!p.fin || std::is_same<T, B>::value)) Dyn<T>::op(p, o);
  }
}
template <class T> void judge(Prog<T>& p, std::string const& what) {
  if (!p.wrong.empty()) mc::fail("thread observes: " + p.wrong, what + ": thread " + std::to_string(p.id) + " observes wrong: " + p.wrong);
  Val got = read(p.a); if (!same(got, p.ma)) mc::fail("thread ends with the wrong value", what + ": thread " + std::to_string(p.id) + " ends with " + dump(got) + ", expected " + dump(p.ma));
  got = read(p.b); if (!same(got, p.mb)) mc::fail("thread ends with the wrong value", what + ": thread " + std::to_string(p.id) + " keeps " + dump(got) + ", expected " + dump(p.mb));
}
template <class T> void wrap(Prog<T>& q, T const& root, Val const& v) { q.a = T::make_array(root); q.ma = Val::arr({v}); }
inline void wrap(Prog<B>&, B const&, Val const&) {}
// sharing: 0 everybody the root; 1 thread 1 a nested value; 2 thread 1 something that holds the root
template <class T> void threads(int n, int len, int bound, std::vector<int> const& ops, bool keep_choice = true) {
  int sharing = choose(3); bool fin = std::is_same<T, P>::value ? choose(2) : std::is_same<T, B>::value; bool keep = keep_choice ? choose(2) : false;
  if (sharing == 2 && fin) mc::prune(); std::vector<std::vector<int>> prog(n); std::string what;
  for (int t = 0; t < n; ++t) { for (int k = 0; k < len; ++k) { int o = ops[choose((int) ops.size())]; if (!applies<T>(o)) mc::prune(); prog[t].push_back(o); what += std::string(k ? ", " : t ? "; thread: " : "thread: ") + op_name(o); } if (t && sharing == 0 && prog[t] < prog[t - 1]) mc::prune(); } // symmetric
  static char const* sh[3] = {"all share the root", "thread 1 has a nested value", "thread 1 has something holding the root"}; what += std::string("; ") + sh[sharing] + (fin ? ", finalized" : "") + (keep ? ", kept" : ""); MC_NOTE(what);
  { Val v = value(); T root = Own<T>::make(v, fin); std::vector<std::unique_ptr<Prog<T>>> p;
    for (int t = 0; t < n; ++t) { p.emplace_back(new Prog<T>); Prog<T>& q = *p.back(); q.id = t; q.fin = fin; q.fb = std::is_same<T, B>::value; q.a = root; q.ma = v; if (t == 1 && sharing == 1) { q.a = first(root); q.ma = first(v); } }
    if (sharing == 2) wrap(*p[1], root, v); T kept = T::make_null(); Val mk; if (keep) { kept = root; mk = v; } root = T::make_null();
    std::vector<std::function<void()>> ts; for (int t = 0; t < n; ++t) { Prog<T>* q = p[t].get(); std::vector<int> const* pr = &prog[t]; ts.emplace_back([q, pr] { bool f = true; for (int o : *pr) { if (!f) sched::point(); f = false; op(*q, o); } }); }
    sched::run(ts, bound); for (auto& q : p) judge(*q, what); Val got = read(kept); if (!same(got, mk)) mc::fail("another handle changes", what + ": the handle kept reads " + dump(got));
    if (sched::points()) mc::nontrivial(); uint64_t h = sharing * 4 + fin * 2 + keep; for (auto& q : p) h = mc::mix(mc::mix(h, hash(q->ma)), hash(q->mb)); mc::state(h); }
}
inline std::vector<int> all_ops() { std::vector<int> r; for (int i = 0; i < kOps; ++i) r.push_back(i); return r; }
inline std::vector<int> few_ops() { return {0, 1, 3, 4, 5, 7, 8, 13, 17}; }

// The counted pointer by itself.
struct Cell { int alive = 0x5eed; static std::atomic<int>& count() { static std::atomic<int> c {0}; return c; } Cell() { count().fetch_add(1, std::memory_order_relaxed); } Cell(Cell const&) = delete; ~Cell() { if (alive != 0x5eed) sched::complain("destroyed twice"); alive = 0; count().fetch_sub(1, std::memory_order_relaxed); } };
using CP = MC_COUNTED<Cell>;
enum { kPtr = 10 };
inline char const* ptr_name(int o) { static char const* n[kPtr] = {"copy", "move", "copy assign", "move assign", "reset", "reset to new", "self assign", "drop", "count", "own if unique"}; return n[o]; }
inline void ptr_op(CP& a, CP& b, int o) {
  if (a && a->alive != 0x5eed) sched::complain("used after it was destroyed");
  switch (o) {
    case 0: { CP c(a); if (c && c->alive != 0x5eed) sched::complain("used after it was destroyed"); break; }
    case 1: { CP c(std::move(a)); if (a) sched::complain("moved-from pointer is not null"); a = std::move(c); break; }
    case 2: b = a; break;
    case 3: b = std::move(a); break;
    case 4: a.reset(); break;
    case 5: a.reset(new Cell); break;
    case 6: { CP& x = a; a = x; a = std::move(x); break; }
    case 7: { CP c; a = c; break; }
    case 8: { auto n = a.use_count(); if (a ? n < 1 : n != 0) sched::complain("an owner's count is too low"); break; }
    default: if (a && a.unique()) { if (a.use_count() != 1) sched::complain("a unique pointer has company"); } break;
  }
}
inline void pointers(int n, int len, int bound) {
  std::vector<std::vector<int>> prog(n); std::string what; for (int t = 0; t < n; ++t) { for (int k = 0; k < len; ++k) { int o = choose(kPtr); prog[t].push_back(o); what += std::string(k ? ", " : t ? "; thread: " : "thread: ") + ptr_name(o); } if (t && prog[t] < prog[t - 1]) mc::prune(); } MC_NOTE(what);
  int before = Cell::count(); { std::vector<std::pair<CP, CP>> p(n); { CP root(new Cell); for (auto& x : p) x.first = root; }
    std::vector<std::function<void()>> ts; for (int t = 0; t < n; ++t) { auto* x = &p[t]; auto* pr = &prog[t]; ts.emplace_back([x, pr] { for (int o : *pr) ptr_op(x->first, x->second, o); x->first.reset(); x->second.reset(); }); }
    sched::run(ts, bound); if (Cell::count() != before) mc::fail("not destroyed exactly once", what + ": " + std::to_string(Cell::count() - before) + " objects are alive after the last owner is gone"); }
  mc::nontrivial(); uint64_t h = 1; for (auto& q : prog) for (int o : q) h = mc::mix(h, o); mc::state(mc::mix(h, sched::points()));
}
}
