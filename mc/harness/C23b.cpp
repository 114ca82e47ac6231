// C23: dart::optional against std::optional, and the counted, shareable and view pointers against std::shared_ptr,
// over every operation history up to the bound, the two driven side by side.
#include "../model.hpp"
#include "tracked.hpp"
#include <dart/support/optional.h>
#include <dart/support/ptrs.h>
#include <optional>
using namespace mdl;
using mc::choose;
namespace {
// ------------------------------------------------------------------------------------------------- optional
// An element which counts its instances, and throws when told to.
struct Boom {};
long g_alive = 0, g_throw = -1;
void tick() { if (g_throw >= 0 && g_throw-- == 0) throw Boom {}; }
struct El {
  int v; bool live = true;
  El(int v) : v(v) { tick(); ++g_alive; }
  El(int a, int b) : v(a * 10 + b) { tick(); ++g_alive; }
  El(El const& o) : v(o.v) { use(o); tick(); ++g_alive; }
  El(El&& o) noexcept(false) : v(o.v) { use(o); tick(); o.v = -1; ++g_alive; }
  El& operator =(El const& o) { use(*this); use(o); if (this == &o) return *this; tick(); v = o.v; return *this; }
  El& operator =(El&& o) { use(*this); use(o); tick(); int t = o.v; o.v = -1; v = t; return *this; }
  ~El() { use(*this); live = false; --g_alive; }
  static void use(El const& e) { if (!e.live) mc::fail("optional element lifetime", "an element is used which is not alive"); }
  bool operator ==(El const& o) const { return v == o.v; } bool operator !=(El const& o) const { return v != o.v; } bool operator <(El const& o) const { return v < o.v; } bool operator <=(El const& o) const { return v <= o.v; } bool operator >(El const& o) const { return v > o.v; } bool operator >=(El const& o) const { return v >= o.v; }
};
struct DOpt { template <class T> using opt = dart::optional<T>; static auto null() { return dart::nullopt; } using bad = dart::bad_optional_access; };
struct SOpt { template <class T> using opt = std::optional<T>; static auto null() { return std::nullopt; } using bad = std::bad_optional_access; };
enum { kOptOps = 24 };
template <class L> struct OptSys {
  using O = typename L::template opt<El>; using I = typename L::template opt<int>;
  O a, b; std::string out;
  void put(long long x) { out += std::to_string(x) + ";"; }
  void snap(O const& o) { put(o.has_value()); put(bool(o)); if (o) { El::use(*o); put(o->v); put((*o).v); put(o.value().v); } else { try { (void) o.value(); put(77); } catch (typename L::bad const&) { put(-77); } } }
  void run(int op, O& x, O& y, int val) {
    try {
      switch (op) {
        case 0: x = L::null(); break; case 1: x = El(val); break; case 2: { El e(val); x = e; break; } case 3: x = val; break; case 4: x = y; break; case 5: x = std::move(y); break; case 6: x = static_cast<O&>(x); break;
        case 7: x.reset(); break; case 8: { auto& r = x.emplace(val); put(&r == &*x); break; } case 9: { x.emplace(val, 3); break; } case 10: { O t(x); snap(t); break; } case 11: { O t(std::move(x)); snap(t); snap(x); break; } case 12: { O t(val); snap(t); y = t; break; }
        case 13: { El e = x.value_or(El(val)); put(e.v); break; } case 14: { El e = std::move(x).value_or(val); put(e.v); break; } case 15: { El e = std::move(x).value(); put(e.v); break; } case 16: { El const& e = static_cast<O const&>(x).value(); put(e.v); break; } case 17: if (x) { El e = *std::move(x); put(e.v); } break;
        case 18: if (x) { (*x).v = val; x->v += 1; } break; case 19: { I i(val); x = i; break; } case 20: { I i; x = i; break; } case 21: { I i(val); x = std::move(i); break; } case 22: { I i(val); O t(i); snap(t); break; } default: { El e = static_cast<O const&&>(x).value(); put(e.v); break; }
      }
    } catch (Boom const&) { put(-99); } catch (typename L::bad const&) { put(-98); }
  }
  void observe() {
    snap(a); snap(b);
    put(a == b); put(a != b); put(a < b); put(a <= b); put(a > b); put(a >= b); put(a == L::null()); put(L::null() == a); put(a != L::null()); put(L::null() != a); put(a < L::null()); put(L::null() < a); put(a <= L::null()); put(L::null() <= a);
    for (int k : {1, 2}) { El e(k); put(a == e); put(e == a); put(a != e); put(e != a); put(a < e); put(e < a); put(a <= e); put(e <= a); put(a > e); put(e > a); put(a >= e); put(e >= a); }
  }
};
template <class Sys> std::string opt_history(std::vector<std::array<int, 3>> const& h, long fault) {
  g_alive = 0; std::string out; { Sys s; for (auto& o : h) { auto& x = o[1] & 1 ? s.b : s.a; auto& y = o[1] & 1 ? s.a : s.b; g_throw = &o == &h.back() ? fault : -1; s.run(o[0], x, y, o[2]); g_throw = -1; s.put(g_alive); s.observe(); s.put(g_alive); } out = s.out; } out += "end" + std::to_string(g_alive); return out;
}
MC_SPACE(optional, "optional histories", "every sequence of up to 3 (thorough 4) of 24 operations on two optionals (assign from null, value, native, the other, itself; emplace, reset, copy and move construction, value, value_or, dereference on every value category, conversions), elements throwing at the 1st, 2nd, 3rd construction or assignment of the last operation or never; engagement, values, every comparison, element lifetimes, against std::optional") {
  int len = 1 + choose(mc::thorough() ? 4 : 3); std::vector<std::array<int, 3>> h;
  for (int i = 0; i < len; ++i) h.push_back({choose(kOptOps), choose(2), 1 + i});
  long fault = choose(4) - 1; mc::step(len); mc::nontrivial();
  auto lib = opt_history<OptSys<DOpt>>(h, fault); auto ref = opt_history<OptSys<SOpt>>(h, fault);
  mc::state(mc::hash_str(ref)); if (mc::noting()) { std::string t; for (auto& o : h) t += "op " + std::to_string(o[0]) + " on " + "ab"[o[1]] + " "; MC_NOTE(t + "fault " + std::to_string(fault)); }
  if (lib != ref) { size_t i = 0; while (i < lib.size() && i < ref.size() && lib[i] == ref[i]) ++i; mc::fail("optional disagrees with std::optional", "observations " + lib.substr(i > 20 ? i - 20 : 0, 60) + " instead of " + ref.substr(i > 20 ? i - 20 : 0, 60)); }
}
// ------------------------------------------------------------------------------------------------- pointers
long g_objs = 0;
struct Base { int id; bool live = true; Base(int id) : id(id) { ++g_objs; } virtual ~Base() { if (!live) mc::fail("destroyed twice", "an object is destroyed twice"); live = false; --g_objs; } };
long g_deleted = 0;
struct Del { int tag; template <class T> void operator ()(T* p) { g_deleted += tag; delete p; } };
template <class T> using unsafe = dart::unsafe_ptr<T>;
template <class T> using skinny = dart::skinny_ptr<T>;
template <class T> using shared = std::shared_ptr<T>;
// One system of handles: two owning, one to const, one to base, and every object may own another.
template <template <class> class P> struct PtrSys {
  struct N : Base { P<N> next; N(int id) : Base(id) {} };
  P<N> a, b; P<N const> c; P<Base> d; std::string out; int ids = 0;
  void put(long long x) { out += std::to_string(x) + ";"; }
  N* fresh() { return new N(++ids); }
  template <class Q> void snap(Q const& p) { put(bool(p)); put(p.use_count()); put(p.use_count() == 1); put(p.get() ? p.get()->id : 0); if (p) { put(p->id); put((*p).id); if (!p->live) mc::fail("use after free", "a dead object is reachable"); } put(p == p); put(p != Q()); put(p == Q(nullptr)); }
  static bool reaches(N const* from, N const* to) { for (int i = 0; from && i < 32; ++i) { if (from == to) return true; from = from->next.get(); } return false; }
  enum { kOps = 30 };
  // Returns false when the operation makes no sense in this state (it would form a cycle or dereference null).
  bool run(int op) {
    switch (op) {
      case 0: a = P<N>(fresh()); break; case 1: a.reset(); break; case 2: a.reset(fresh()); break; case 3: a = b; break; case 4: b = a; break; case 5: b = std::move(a); break; case 6: a = std::move(b); break; case 7: a = static_cast<P<N>&>(a); break; case 8: a = static_cast<P<N>&&>(a); break;
      case 9: if (!a) return false; a = a->next; break; case 10: if (!a) return false; a = std::move(a->next); break; case 11: if (!a || reaches(b.get(), a.get())) return false; a->next = b; break; case 12: if (!a || reaches(b.get(), a.get())) return false; a->next = std::move(b); break; case 13: if (!a) return false; a->next.reset(); break;
      case 14: c = a; break; case 15: c = std::move(a); break; case 16: c.reset(); break; case 17: d = a; break; case 18: d = std::move(a); break; case 19: d.reset(); break; case 20: a = std::unique_ptr<N>(fresh()); break; case 21: a = P<N>(fresh(), Del {1}); break; case 22: a.reset(fresh(), Del {100}); break; case 23: d = std::unique_ptr<N>(fresh()); break;
      case 24: { P<N> t(a); P<N> u(std::move(t)); snap(t); snap(u); P<Base> v(u); snap(v); P<N const> w(std::move(u)); snap(w); snap(u); break; } case 25: a = nullptr; break; case 26: { P<N> t(std::unique_ptr<N> {}); snap(t); a = t; break; } case 27: a = P<N>(static_cast<N*>(nullptr)); put(bool(a)); put(a.get() == nullptr); put(a == P<N>()); a.reset(); break; case 28: d = c ? P<Base>() : d; break; default: { std::unique_ptr<N> u(fresh()); P<N> t(std::move(u)); put(!u); b = std::move(t); break; }
    }
    return true;
  }
  void observe() { snap(a); snap(b); snap(c); snap(d); put(a == b); put(a != b); put((a < b) == (a.get() < b.get())); put((a <= b) == (a.get() <= b.get())); put((a > b) == (a.get() > b.get())); put((a >= b) == (a.get() >= b.get())); put(g_objs); put(g_deleted); }
};
template <class S> bool ptr_history(std::vector<int> const& h, std::string& out) { g_objs = g_deleted = 0; { S s; for (int op : h) { if (!s.run(op)) return false; s.out += "|"; s.observe(); } out = s.out; } out += "end" + std::to_string(g_objs) + "," + std::to_string(g_deleted); return true; }
void diff(std::string const& lib, std::string const& ref, char const* what) { if (lib == ref) return; size_t i = 0; while (i < lib.size() && i < ref.size() && lib[i] == ref[i]) ++i; mc::fail(std::string(what) + " disagrees with std::shared_ptr", "observations " + lib.substr(i > 20 ? i - 20 : 0, 60) + " instead of " + ref.substr(i > 20 ? i - 20 : 0, 60)); }
MC_SPACE(counted, "counted pointer histories", "every sequence of up to 3 (thorough 4) of 30 operations over two handles, a handle to const and a handle to base, objects which own each other (assignment from inside what is owned), custom deleters, unique_ptr, null payloads: unsafe_ptr and skinny_ptr; identity, counts, order, lifetimes, deleter calls, against std::shared_ptr") {
  int len = 1 + choose(mc::thorough() ? 4 : 3); std::vector<int> h; for (int i = 0; i < len; ++i) h.push_back(choose(30));
  std::string ref, lib; if (!ptr_history<PtrSys<shared>>(h, ref)) mc::prune(); mc::step(2 * len); mc::nontrivial(); mc::state(mc::hash_str(ref));
  if (mc::noting()) { std::string t; for (int o : h) t += "op " + std::to_string(o) + " "; MC_NOTE(t); }
  ptr_history<PtrSys<unsafe>>(h, lib); diff(lib, ref, "unsafe_ptr"); ptr_history<PtrSys<skinny>>(h, lib); diff(lib, ref, "skinny_ptr");
}
// The shareable pointer, over each counter it can wrap, with the operations any counter supports.
template <class Shr, class Raw> struct ShrSys {
  Shr a, b; std::string out; int ids = 0;
  using N = typename Shr::element_type;
  void put(long long x) { out += std::to_string(x) + ";"; }
  void snap(Shr const& p) { put(bool(p)); put(p.use_count()); put(p.use_count() == 1); put(p.get() ? p.get()->id : 0); if (p) { put(p->id); put((*p).id); } put(p == p); put(p != nullptr); put(p == Shr(nullptr)); put(p == Shr()); }
  bool run(int op);
  void observe() { snap(a); snap(b); put(a == b); put(a != b); put((a < b) == (a.get() < b.get())); put((a <= b) == (a.get() <= b.get())); put((a > b) == (a.get() > b.get())); put((a >= b) == (a.get() >= b.get())); put(g_objs); put(g_deleted); }
};
enum { kShrOps = 20 };
template <class Shr, class Raw> struct ShrOps {
  static Shr make(int id) { return dart::make_shareable<Raw>(id); }
};
template <class N> struct ShrOps<std::shared_ptr<N>, std::shared_ptr<N>> { static std::shared_ptr<N> make(int id) { return std::make_shared<N>(id); } };
template <class N> void raw_of(std::shared_ptr<N>& p, std::shared_ptr<N> const& q, int how) { if (how == 0) p = std::shared_ptr<N>(q); else if (how == 1) { auto t = q; p = std::move(t); } else p = q; }
template <class Raw> void raw_of(dart::shareable_ptr<Raw>& p, dart::shareable_ptr<Raw> const& q, int how) {
  if (how == 0) p = q.raw(); // from a raw counter
  else { auto t = q; alignas(Raw) char mem[sizeof(Raw)]; auto& r = *reinterpret_cast<Raw*>(mem); dart::refcount_traits<Raw>::take(&r, nullptr, std::default_delete<typename Raw::element_type> {}); if (how == 1) std::move(t).transfer(r); else q.share(r); t = nullptr; p = std::move(r); r.~Raw(); }
}
template <class Shr, class Raw> bool ShrSys<Shr, Raw>::run(int op) {
  auto unique = [&] { return std::unique_ptr<N>(new N(++ids)); };
  switch (op) {
    case 0: a = Shr(new N(++ids)); break; case 1: a.reset(); break; case 2: a = b; break; case 3: b = a; break; case 4: b = std::move(a); break; case 5: a = std::move(b); break; case 6: a = static_cast<Shr&>(a); break; case 7: a = static_cast<Shr&&>(a); break; case 8: a = nullptr; break; case 9: a = unique(); break; case 10: { Shr t(unique()); b = std::move(t); break; }
    case 11: a = Shr(new N(++ids), Del {1}); break; case 12: a = ShrOps<Shr, Raw>::make(++ids); break; case 13: { Shr t(a); Shr u(std::move(t)); snap(t); snap(u); break; } case 14: raw_of(a, b, 0); break; case 15: raw_of(a, b, 1); break; case 16: raw_of(a, b, 2); break;
    case 17: if (!a || !a->can_take(b)) return false; a->next = b; break; case 18: if (!a) return false; a = std::move(a->next); break; default: if (!a) return false; { auto t = a->next; a = t; } break;
  }
  return true;
}
struct EStd : Base { std::shared_ptr<EStd> next; EStd(int id) : Base(id) {} bool can_take(std::shared_ptr<EStd> const& p) const { for (auto* e = p.get(); e; e = e->next.get()) if (e == this) return false; return true; } };
template <template <class> class Rc> struct EShr : Base { dart::shareable_ptr<Rc<EShr>> next; EShr(int id) : Base(id) {} bool can_take(dart::shareable_ptr<Rc<EShr>> const& p) const { for (auto* e = p.get(); e; e = e->next.get()) if (e == this) return false; return true; } };
template <class S> bool shr_history(std::vector<int> const& h, std::string& out) { g_objs = g_deleted = 0; { S s; for (int op : h) { if (!s.run(op)) return false; s.out += "|"; s.observe(); } out = s.out; } out += "end" + std::to_string(g_objs) + "," + std::to_string(g_deleted); return true; }
template <template <class> class Rc> using SysOf = ShrSys<dart::shareable_ptr<Rc<EShr<Rc>>>, Rc<EShr<Rc>>>;
MC_SPACE(shareable, "shareable pointer histories", "every sequence of up to 3 (thorough 4) of 20 operations over two handles to objects which own each other, wrapping std::shared_ptr, unsafe_ptr and skinny_ptr: constructed from raw, unique, make_shareable, raw counters, share and transfer; against std::shared_ptr itself") {
  int len = 1 + choose(mc::thorough() ? 4 : 3); std::vector<int> h; for (int i = 0; i < len; ++i) h.push_back(choose(kShrOps));
  std::string ref, lib; if (!shr_history<ShrSys<std::shared_ptr<EStd>, std::shared_ptr<EStd>>>(h, ref)) mc::prune(); mc::step(3 * len); mc::nontrivial(); mc::state(mc::hash_str(ref));
  if (mc::noting()) { std::string t; for (int o : h) t += "op " + std::to_string(o) + " "; MC_NOTE(t); }
  shr_history<SysOf<shared>>(h, lib); diff(lib, ref, "shareable_ptr of shared_ptr"); shr_history<SysOf<unsafe>>(h, lib); diff(lib, ref, "shareable_ptr of unsafe_ptr"); shr_history<SysOf<skinny>>(h, lib); diff(lib, ref, "shareable_ptr of skinny_ptr");
}
// ------------------------------------------------------------------------------------------- array pointers
struct Cell { int v = 0; bool live = true; Cell() { ++g_objs; } ~Cell() { if (!live) mc::fail("destroyed twice", "an array element is destroyed twice"); live = false; --g_objs; } };
struct ADel { template <class T> void operator ()(T* p) { ++g_deleted; delete[] p; } };
template <template <class> class P> struct ArrSys {
  P<Cell[]> a, b; std::string out; int ids = 0;
  void put(long long x) { out += std::to_string(x) + ";"; }
  Cell* fresh() { auto* c = new Cell[3]; for (int i = 0; i < 3; ++i) c[i].v = ++ids; return c; }
  template <class Q> void snap(Q const& p) { put(bool(p)); put(p.use_count()); if (p) for (int i = 0; i < 3; ++i) { put(p[i].v); put(p[i].live); put(p.get()[i].v); } }
  void run(int op) {
    switch (op) {
      case 0: a = P<Cell[]>(fresh()); break; case 1: a.reset(); break; case 2: { P<Cell[]> t(a); a = P<Cell[]>(fresh()); snap(t); break; } case 3: a = b; break; case 4: b = a; break; case 5: b = std::move(a); break; case 6: a = std::move(b); break; case 7: a = static_cast<P<Cell[]>&>(a); break; case 8: a = static_cast<P<Cell[]>&&>(a); break;
      case 9: a = nullptr; break; case 10: a = P<Cell[]>(fresh(), ADel {}); break; case 11: b = P<Cell[]>(fresh(), ADel {}); break; case 12: { P<Cell[]> t(a); P<Cell[]> u(std::move(t)); snap(t); snap(u); break; } case 13: b = P<Cell[]>(std::unique_ptr<Cell[]>(fresh())); break; default: if (a) a[1].v += 100; break;
    }
  }
  void observe() { snap(a); snap(b); put(a == b); put(a != b); put(g_objs); put(g_deleted); }
};
template <class S> std::string arr_history(std::vector<int> const& h) { g_objs = g_deleted = 0; std::string out; { S s; for (int op : h) { s.run(op); s.out += "|"; s.observe(); } out = s.out; } return out + "end" + std::to_string(g_objs) + "," + std::to_string(g_deleted); }
MC_SPACE(counted_array, "counted array pointer histories", "every sequence of up to 3 (thorough 5) of 15 operations over two handles to arrays, custom deleters and unique_ptr: unsafe_ptr and skinny_ptr against std::shared_ptr") {
  int len = 1 + choose(mc::thorough() ? 5 : 3); std::vector<int> h; for (int i = 0; i < len; ++i) h.push_back(choose(15));
  auto ref = arr_history<ArrSys<shared>>(h); mc::step(2 * len); mc::nontrivial(); mc::state(mc::hash_str(ref)); if (mc::noting()) { std::string t; for (int o : h) t += "op " + std::to_string(o) + " "; MC_NOTE(t); }
  diff(arr_history<ArrSys<unsafe>>(h), ref, "unsafe_ptr to an array"); diff(arr_history<ArrSys<skinny>>(h), ref, "skinny_ptr to an array");
}
MC_SPACE_X(made, "make_unsafe and make_skinny", "objects and arrays of 0, 1 and 3", 1, true) {
  int n = choose(3); n = n == 2 ? 3 : n; g_objs = 0;
  { auto u = dart::make_unsafe<Cell[]>(n); auto s = dart::make_skinny<Cell[]>(n); MC_CHECK(g_objs == 2 * n, "made arrays", "wrong number of elements"); for (int i = 0; i < n; ++i) { u[i].v = i; s[i].v = i; } auto o = dart::make_unsafe<Base>(7); auto p = dart::make_skinny<Base>(8); MC_CHECK(o->id == 7 && p->id == 8 && o.unique() && p.unique() && o && p && u && s && u.use_count() == 1, "made objects", "values or counts"); mc::step(4); mc::nontrivial(); }
  MC_CHECK(g_objs == 0, "made objects", "not all destroyed");
}
// ----------------------------------------------------------------------------------------------- view pointer
template <template <class> class Rc, class Make> void view_history(Make make, char const* who) {
  using V = typename dart::view_ptr_context<Rc>::template view_ptr<Base>; using O = Rc<Base>; g_objs = 0;
  {
    O x = make(1), y = make(2), none; O const* owners[3] = {&x, &y, &none}; V v, w; O const* mv = nullptr; O const* mw = nullptr; int len = 1 + choose(mc::thorough() ? 5 : 4);
    for (int i = 0; i < len; ++i) {
      mc::step(); int op = choose(12);
      switch (op) {
        case 0: case 1: case 2: v = *owners[op]; mv = owners[op]; break; case 3: v = w; mv = mw; break; case 4: w = std::move(v); mw = mv; mv = nullptr; break; case 5: v.reset(); mv = nullptr; break; case 6: v = static_cast<V&&>(v); break; case 7: w = V(*owners[0]); mw = owners[0]; break; case 8: { V t(w); V u(std::move(t)); MC_CHECK(u == w && !t, "view pointer", "copy"); v = u; mv = mw; break; } case 9: v = V(nullptr); mv = nullptr; break;
        case 10: { int thrown = 0; auto* raw = new Base(9); try { V t(raw); } catch (std::logic_error const&) { ++thrown; } try { V t(raw, std::default_delete<Base> {}); } catch (std::logic_error const&) { ++thrown; } delete raw; MC_CHECK(thrown == 2, "view pointer", "took ownership"); break; }
        default: if (mv) { O const& o = v; O copy = o; MC_CHECK(copy.get() == mv->get() && copy.use_count() == (mv->get() ? 2 : 0) && &v.raw() == mv, "view pointer", "owner"); } break;
      }
      auto check = [&] (V const& p, O const* m, char const* n) {
        Base* want = m ? m->get() : nullptr; MC_CHECK(p.get() == want && bool(p) == (want != nullptr) && p == p && !(p != p) && (p == V()) == !want, std::string("view pointer, ") + who, std::string(n) + " points elsewhere"); if (want) MC_CHECK(p->id == want->id && (*p).id == want->id, "view pointer", n);
        MC_CHECK(p.use_count() == (m ? (m->get() ? 1u : 1u) : 0u), std::string("view pointer count, ") + who, std::string(n) + " counts " + std::to_string(p.use_count()));
      };
      check(v, mv, "v"); check(w, mw, "w"); auto* gv = v.get(); auto* gw = w.get(); MC_CHECK((v == w) == (gv == gw) && (v != w) == (gv != gw) && (v < w) == (gv < gw) && (v <= w) == (gv <= gw) && (v > w) == (gv > gw) && (v >= w) == (gv >= gw), "view pointer order", who);
      MC_CHECK(x.use_count() == 1 && y.use_count() == 1, "view pointer ownership", "a view counts as an owner"); mc::nontrivial();
    }
  }
  MC_CHECK(g_objs == 0, "view pointer ownership", "objects left");
}
MC_SPACE(views, "view pointer histories", "every sequence of up to 4 (thorough 5) of 12 operations over two views of two live owners and an empty one, over std::shared_ptr, unsafe_ptr and skinny_ptr; against plain pointers") {
  switch (choose(3)) { case 0: view_history<shared>([] (int i) { return std::make_shared<Base>(i); }, "shared_ptr"); break; case 1: view_history<unsafe>([] (int i) { return dart::make_unsafe<Base>(i); }, "unsafe_ptr"); break; default: view_history<skinny>([] (int i) { return dart::make_skinny<Base>(i); }, "skinny_ptr"); break; }
}
}
