// C23: the variant the library supplies where the language has none, against std::variant, over every operation history
// up to the bound, the two driven side by side.
#include "../model.hpp"
#include "tracked.hpp"
#include <dart/support/variant.h>
#include <variant>
using namespace mdl;
using mc::choose;
namespace {
// Elements which count their instances, and throw when told to: one whose move may throw, one whose move may not.
struct Boom {};
long g_alive = 0, g_throw = -1;
void tick() { if (g_throw >= 0 && g_throw-- == 0) throw Boom {}; }
template <bool nothrow> struct Elem {
  int v; bool live = true;
  static void may() { if (!nothrow) tick(); }
  explicit Elem(int v) : v(v) { tick(); ++g_alive; }
  Elem(int a, int b) : v(a * 10 + b) { tick(); ++g_alive; }
  Elem(std::initializer_list<int> l, int b) : v(b * 100 + (int) l.size()) { tick(); ++g_alive; }
  Elem(Elem const& o) : v(o.v) { use(o); tick(); ++g_alive; }
  Elem(Elem&& o) noexcept(nothrow) : v(o.v) { use(o); may(); o.v = -1; ++g_alive; }
  Elem& operator =(Elem const& o) { use(*this); use(o); if (this == &o) return *this; tick(); v = o.v + 1000; return *this; }
  Elem& operator =(Elem&& o) noexcept(nothrow) { use(*this); use(o); may(); int t = o.v; o.v = -1; v = t + 2000; return *this; }
  ~Elem() { use(*this); live = false; --g_alive; }
  static void use(Elem const& e) { if (!e.live) mc::fail("variant element lifetime", "an element is used which is not alive"); }
  friend bool operator ==(Elem const& a, Elem const& b) { return a.v == b.v; } friend bool operator !=(Elem const& a, Elem const& b) { return a.v != b.v; } friend bool operator <(Elem const& a, Elem const& b) { return a.v < b.v; } friend bool operator <=(Elem const& a, Elem const& b) { return a.v <= b.v; } friend bool operator >(Elem const& a, Elem const& b) { return a.v > b.v; } friend bool operator >=(Elem const& a, Elem const& b) { return a.v >= b.v; }
};
using El = Elem<false>; using Nx = Elem<true>;
}
namespace std { template <> struct hash<El> { size_t operator ()(El const& e) const { return e.v; } }; template <> struct hash<Nx> { size_t operator ()(Nx const& e) const { return e.v; } }; }
namespace {
// The two namespaces, reached alike.
#define LIB(NAME, NS) struct NAME { \
  template <class... Ts> using var = NS::variant<Ts...>; using mono = NS::monostate; using bad = NS::bad_variant_access; \
  template <size_t I> using idx = NS::in_place_index_t<I>; template <class T> using typ = NS::in_place_type_t<T>; \
  template <size_t I, class V> static decltype(auto) get(V&& v) { return NS::get<I>(std::forward<V>(v)); } template <class T, class V> static decltype(auto) gett(V&& v) { return NS::get<T>(std::forward<V>(v)); } \
  template <size_t I, class V> static auto get_if(V* v) { return NS::get_if<I>(v); } template <class T, class V> static auto gett_if(V* v) { return NS::get_if<T>(v); } template <class T, class V> static bool holds(V const& v) { return NS::holds_alternative<T>(v); } \
  template <class F, class... Vs> static decltype(auto) visit(F&& f, Vs&&... vs) { return NS::visit(std::forward<F>(f), std::forward<Vs>(vs)...); } template <class V> static size_t size() { return NS::variant_size<V>::value; } template <size_t I, class V> using alt = NS::variant_alternative_t<I, V>; static size_t npos() { return NS::variant_npos; } };
LIB(Lib, mpark) LIB(Std, std)
long value(int i) { return 10 + i; } long value(El const& e) { El::use(e); return e.v; } long value(Nx const& e) { Nx::use(e); return 50000 + e.v; } long value(std::string const& s) { long h = 7; for (char c : s) h = h * 31 + c; return h; }
long value(std::monostate) { return 3; } long value(mpark::monostate) { return 3; }
enum { kOps = 33, kSwap = 17, kSwapEnd = 20 };
template <class L> struct Sys {
  // The first alternative is repeated, so that only its place tells the two apart.
  using V = typename L::template var<int, El, Nx, std::string, int, typename L::mono>;
  V a, b; std::string out;
  void put(long long x) { out += std::to_string(x) + ";"; }
  template <size_t I> void at(V& v) {
    auto* p = L::template get_if<I>(&v); auto* q = L::template get_if<I>(static_cast<V const*>(&v)); put(p == q); put(!!p); if (p) put(value(*p)); put(p ? (char*) p - (char*) &v < (long) sizeof(V) : 1);
    try { auto& r = L::template get<I>(v); put(&r == p); put(value(r)); } catch (typename L::bad const&) { put(-97); } try { auto const& r = L::template get<I>(static_cast<V const&>(v)); put(&r == p); } catch (typename L::bad const&) { put(-97); }
    try { auto&& r = L::template get<I>(std::move(v)); put(&r == p); } catch (typename L::bad const&) { put(-97); } try { auto&& r = L::template get<I>(static_cast<V const&&>(v)); put(&r == p); } catch (typename L::bad const&) { put(-97); }
    put(L::template get_if<I>(static_cast<V*>(nullptr)) == nullptr);
  }
  template <class T> void of(V& v) {
    put(L::template holds<T>(v)); auto* p = L::template gett_if<T>(&v); auto* q = L::template gett_if<T>(static_cast<V const*>(&v)); put(p == q); if (p) put(value(*p));
    try { auto& r = L::template gett<T>(v); put(value(r)); } catch (typename L::bad const&) { put(-97); } try { auto&& r = L::template gett<T>(std::move(v)); put(&r == p); } catch (typename L::bad const&) { put(-97); } try { auto const& r = L::template gett<T>(static_cast<V const&>(v)); put(&r == p); } catch (typename L::bad const&) { put(-97); }
  }
  void snap(V& v) {
    put(v.valueless_by_exception()); put(v.index() == L::npos() ? -1 : (long) v.index());
    at<0>(v); at<1>(v); at<2>(v); at<3>(v); at<4>(v); at<5>(v); of<El>(v); of<Nx>(v); of<std::string>(v); of<typename L::mono>(v);
    try { put(L::visit([] (auto const& x) { return value(x); }, static_cast<V const&>(v))); } catch (typename L::bad const&) { put(-96); }
  }
  struct Pair { template <class A, class B> long operator ()(A const& a, B const& b) const { return value(a) * 100003 + value(b); } };
  struct Add { long operator ()(int& i) const { return i += 5; } template <bool n> long operator ()(Elem<n>& e) const { return e.v += 7; } long operator ()(std::string& s) const { s += "+"; return 1; } long operator ()(typename L::mono&) const { return 2; } };
  struct Take { long operator ()(int i) const { return i; } template <bool n> long operator ()(Elem<n>&& e) const { Elem<n> t(std::move(e)); return t.v; } template <bool n> long operator ()(Elem<n>& e) const { return -e.v; } long operator ()(std::string&& s) const { auto t = std::move(s); s = "taken"; return (long) t.size(); } long operator ()(std::string&) const { return -5; } long operator ()(typename L::mono) const { return 2; } };
  void run(int op, V& x, V& y, int val) {
    using std::swap;
    try {
      switch (op) {
        case 0: x = y; break; case 1: x = std::move(y); break; case 2: x = static_cast<V&>(x); break; case 3: x = El(val); break; case 4: { El e(val); x = e; break; } case 5: x = Nx(val); break; case 6: { Nx e(val); x = e; break; } case 7: x = std::string("text") + char('0' + val); break; case 8: x = typename L::mono {}; break;
        case 9: { auto& r = x.template emplace<0>(val); put(r); break; } case 10: { auto& r = x.template emplace<1>(val); put(r.v); break; } case 11: { auto& r = x.template emplace<2>(val, 3); put(r.v); break; } case 12: { auto& r = x.template emplace<El>(val, 4); put(r.v); break; } case 13: { auto& r = x.template emplace<Nx>({1, 2, val}, val); put(r.v); break; } case 14: { auto& r = x.template emplace<1>({1, val}, val); put(r.v); break; } case 15: x.template emplace<4>(val + 100); break; case 16: x.template emplace<3>(3, char('a' + val)); break;
        case 17: x.swap(y); break; case 18: swap(x, y); break; case 19: { V t(y); x.swap(t); snap(t); break; } case 20: x.swap(x); break;
        case 21: { V t(x); snap(t); break; } case 22: { V t(std::move(x)); snap(t); snap(x); break; } case 23: { V t(typename L::template idx<1> {}, val); snap(t); y = std::move(t); break; } case 24: { V t(typename L::template typ<Nx> {}, {7, 8}, val); snap(t); y = t; break; } case 25: { V t {El(val)}; snap(t); V u {std::string("made")}; snap(u); x = std::move(u); break; } case 26: { V t(typename L::template idx<4> {}, val); y = t; break; }
        case 27: put(L::visit(Add {}, x)); break; case 28: put(L::visit(Take {}, std::move(x))); break; case 29: put(L::visit(Take {}, x)); break; case 30: put(L::visit(Pair {}, x, static_cast<V const&>(y))); break; case 31: put(L::visit(Pair {}, std::move(y), x)); break; default: { El e = L::template get<1>(std::move(x)); put(e.v); break; }
      }
    } catch (Boom const&) { put(-99); } catch (typename L::bad const& e) { put(-98); std::exception const& s = e; put(s.what() != nullptr); }
  }
  void observe() {
    snap(a); snap(b); put(a == b); put(a != b); put(a < b); put(a <= b); put(a > b); put(a >= b); put(a == a); put(a < a); put(a <= a); std::hash<V> h; put((h(a) == h(b)) || !(a == b)); put(h(a) == h(a));
    V const& c = a; V const& d = b; try { put(L::visit(Pair {}, c, d)); } catch (typename L::bad const&) { put(-96); } try { put(L::visit(Pair {}, std::move(a), std::move(b))); } catch (typename L::bad const&) { put(-96); }
  }
};
template <class S> std::string history(std::vector<std::array<int, 3>> const& h, long fault) {
  g_alive = 0; std::string out; { S s; for (auto& o : h) { auto& x = o[1] & 1 ? s.b : s.a; auto& y = o[1] & 1 ? s.a : s.b; g_throw = &o == &h.back() ? fault : -1; s.run(o[0], x, y, o[2]); g_throw = -1; s.put(g_alive); s.observe(); s.put(g_alive); } out = s.out; } out += "end" + std::to_string(g_alive); return out;
}
MC_SPACE(variants, "variant histories", "every sequence of up to 2 (thorough 3) of 33 operations on two variants of int, an element whose move may throw, one whose move may not, string, int again and the empty alternative (assign from the other, itself and each alternative; emplace by place, type and list; swap; copy, move and in-place construction; visits of one and two variants on every value category; get by place and type), elements throwing at the 1st, 2nd, 3rd construction or assignment of the last operation or never; place, values, every comparison, hashes, element lifetimes, against std::variant") {
  int len = 1 + choose(mc::thorough() ? 3 : 2); std::vector<std::array<int, 3>> h;
  for (int i = 0; i < len; ++i) { int op = choose(kOps); h.push_back({op, choose(2), 1 + i}); }
  long fault = choose(4) - 1; mc::step(len); mc::nontrivial();
  auto lib = history<Sys<Lib>>(h, fault);
  if (mc::noting()) { std::string t; for (auto& o : h) t += "op " + std::to_string(o[0]) + " on " + "ab"[o[1]] + " "; MC_NOTE(t + "fault " + std::to_string(fault)); }
  MC_CHECK(lib.substr(lib.rfind("end")) == "end0", "variant element lifetime", "elements left behind: " + lib.substr(lib.rfind("end")));
  // Which of the moves a swap makes comes first is its own affair, so what is left after one of them throws is not compared.
  if (fault >= 0 && h.back()[0] >= kSwap && h.back()[0] <= kSwapEnd) return;
  auto ref = history<Sys<Std>>(h, fault); mc::state(mc::hash_str(ref));
  if (lib != ref) { size_t i = 0; while (i < lib.size() && i < ref.size() && lib[i] == ref[i]) ++i; mc::fail("variant disagrees with std::variant", "observations " + lib.substr(i > 20 ? i - 20 : 0, 60) + " instead of " + ref.substr(i > 20 ? i - 20 : 0, 60)); }
}
// What the type system is told.
struct Mv { Mv(Mv&&) = default; Mv& operator =(Mv&&) = default; }; struct Cp { Cp(Cp const&) {} Cp& operator =(Cp const&) = delete; }; struct None { None(None&&) = delete; }; struct NoDef { NoDef(int) {} };
template <class V> std::string traits() {
  std::string s; auto put = [&] (bool b) { s += b ? '1' : '0'; };
  put(std::is_default_constructible<V>::value); put(std::is_copy_constructible<V>::value); put(std::is_move_constructible<V>::value); put(std::is_copy_assignable<V>::value); put(std::is_move_assignable<V>::value); put(std::is_nothrow_move_constructible<V>::value); put(std::is_nothrow_move_assignable<V>::value); put(std::is_trivially_destructible<V>::value); put(std::is_nothrow_default_constructible<V>::value);
  return s;
}
template <class... Ts> void compare(char const* who) { auto l = traits<mpark::variant<Ts...>>(), r = traits<std::variant<Ts...>>(); mc::step(); mc::nontrivial(); MC_NOTE(who); MC_CHECK(l == r, "variant traits", std::string(who) + ": " + l + " instead of " + r); MC_CHECK(Lib::size<mpark::variant<Ts...>>() == sizeof...(Ts), "variant size", who); }
MC_SPACE_X(traits, "variant type traits", "11 lists of alternatives x 9 traits against std::variant", 1, true) {
  switch (choose(11)) { case 0: compare<int>("int"); break; case 1: compare<int, El>("int, throwing"); break; case 2: compare<Nx, int>("non-throwing, int"); break; case 3: compare<std::unique_ptr<int>, int>("move only"); break; case 4: compare<Mv, int>("moved only"); break; case 5: compare<int, Cp>("not assignable"); break; case 6: compare<int, None>("immovable"); break; case 7: compare<NoDef, int>("no default"); break; case 8: compare<std::string, int, double>("string"); break; case 9: compare<int, double, char>("trivial"); break; default: compare<std::vector<int>, std::string, Nx, El>("many"); break; }
}
}
