// C21: every mutating C function, alone and in histories, next to the C++ operation it stands for.
#include "cabi.hpp"
namespace {
std::string const kLong = "a string that does not fit inside a handle";
struct Key { std::string s; };
std::vector<std::string> const& keys() { static std::vector<std::string> k {"a", "o", "", "missing", std::string("n\0l", 3)}; return k; }
std::vector<size_t> const& idxs() { static std::vector<size_t> k {0, 1, 2, 3, size_t(-1) / 2}; return k; }
std::vector<Val> const& bases() {
  static std::vector<Val> b {Val::obj(), Val::obj({{"a", Val::integer(1)}, {"o", Val::obj({{"x", Val::str(kLong)}})}, {"", Val::boolean(true)}, {std::string("n\0l", 3), Val::null()}}), Val::arr(), Val::arr({Val::integer(1), Val::str(kLong)}), Val::str("abc"), Val::integer(7), Val::decimal(2.5), Val::boolean(true), Val::null()};
  return b;
}
template <class T, class = void> struct Mut : std::false_type {};
template <class T> struct Mut<T, std::enable_if_t<!is_buffer<T>>> : std::true_type {};
template <class T, class F> Res on_twin(T& t, std::true_type, F&& f) { return outcome([&] { f(t); }); }
template <class T, class F> Res on_twin(T&, std::false_type, F&&) { return client(); }

// One mutation, by number, on the C handle and on the twin.
enum { kScalarOps = 38, kValOps = 12 };
template <class Api, class T> void scalar_op(Hd<T>& h, T& t, int op, std::string const& k, size_t ix, int vv) {
  auto* c = *h; char const* ks = k.c_str(); auto kz = dart::shim::string_view(ks); auto kl = sv(k);
  static int64_t const is[] = {0, -1, INT64_MAX}; static double const ds[] = {1.5, -0.0, 1e300}; static int const bs[] = {0, 1, 7}; static std::string const ss[] = {"", kLong, std::string("x\0y", 3)}; static size_t const rs[] = {0, 1, 5};
  int64_t i = is[vv]; double d = ds[vv]; int b = bs[vv]; std::string const& s = ss[vv]; auto sz = dart::shim::string_view(s.c_str()); auto sl = sv(s);
  dart_err_t e; Res want; std::string what; prep();
#define CASE(n, call, ...) case n: what = #call; e = Api::call; want = on_twin(t, Mut<T> {}, [&] (auto& t) { __VA_ARGS__; }); break;
  switch (op) {
    CASE(0, oi_str(c, ks, s.c_str()), t.insert(kz, sz)) CASE(1, oi_str_len(c, k.data(), k.size(), s.data(), s.size()), t.insert(kl, sl)) CASE(2, oi_int(c, ks, i), t.insert(kz, i)) CASE(3, oi_int_len(c, k.data(), k.size(), i), t.insert(kl, i))
    CASE(4, oi_dcm(c, ks, d), t.insert(kz, d)) CASE(5, oi_dcm_len(c, k.data(), k.size(), d), t.insert(kl, d)) CASE(6, oi_bool(c, ks, b), t.insert(kz, b != 0)) CASE(7, oi_bool_len(c, k.data(), k.size(), b), t.insert(kl, b != 0)) CASE(8, oi_null(c, ks), t.insert(kz, nullptr)) CASE(9, oi_null_len(c, k.data(), k.size()), t.insert(kl, nullptr))
    CASE(10, os_str(c, ks, s.c_str()), t.set(kz, sz)) CASE(11, os_str_len(c, k.data(), k.size(), s.data(), s.size()), t.set(kl, sl)) CASE(12, os_int(c, ks, i), t.set(kz, i)) CASE(13, os_int_len(c, k.data(), k.size(), i), t.set(kl, i))
    CASE(14, os_dcm(c, ks, d), t.set(kz, d)) CASE(15, os_dcm_len(c, k.data(), k.size(), d), t.set(kl, d)) CASE(16, os_bool(c, ks, b), t.set(kz, b != 0)) CASE(17, os_bool_len(c, k.data(), k.size(), b), t.set(kl, b != 0)) CASE(18, os_null(c, ks), t.set(kz, nullptr)) CASE(19, os_null_len(c, k.data(), k.size()), t.set(kl, nullptr))
    CASE(20, ai_str(c, ix, s.c_str()), t.insert(ix, sz)) CASE(21, ai_str_len(c, ix, s.data(), s.size()), t.insert(ix, sl)) CASE(22, ai_int(c, ix, i), t.insert(ix, i)) CASE(23, ai_dcm(c, ix, d), t.insert(ix, d)) CASE(24, ai_bool(c, ix, b), t.insert(ix, b != 0)) CASE(25, ai_null(c, ix), t.insert(ix, nullptr))
    CASE(26, as_str(c, ix, s.c_str()), t.set(ix, sz)) CASE(27, as_str_len(c, ix, s.data(), s.size()), t.set(ix, sl)) CASE(28, as_int(c, ix, i), t.set(ix, i)) CASE(29, as_dcm(c, ix, d), t.set(ix, d)) CASE(30, as_bool(c, ix, b), t.set(ix, b != 0)) CASE(31, as_null(c, ix), t.set(ix, nullptr))
    CASE(32, o_clear(c), t.clear()) CASE(33, a_clear(c), t.clear()) CASE(34, o_erase(c, ks), t.erase(kz)) CASE(35, o_erase_len(c, k.data(), k.size()), t.erase(kl)) CASE(36, a_erase(c, ix), t.erase(ix))
    default: if (vv == 2) { what = "a_reserve(c, n)"; e = Api::a_reserve(c, rs[vv]); want = on_twin(t, Mut<T> {}, [&] (auto& t) { t.reserve(rs[vv]); }); } else { size_t n = vv == 1 ? 1 : ix; what = "a_resize(c, n)"; e = Api::a_resize(c, n); want = on_twin(t, Mut<T> {}, [&] (auto& t) { t.resize(n); }); } break;
  }
#undef CASE
  what = Api::name() + what; MC_NOTE(what + " key " + mc::show(k) + " index " + std::to_string(ix) + " value " + std::to_string(vv) + " on " + dump(read(t))); judge(e, want, what); match(h, t, what);
}
bool uses_key(int op) { return op < 20 || op == 34 || op == 35; }
bool uses_idx(int op) { return (op >= 20 && op < 32) || op == 36 || op == 37; }
bool uses_val(int op) { return (op < 32 && op != 8 && op != 9 && op != 18 && op != 19 && op != 25 && op != 31) || op == 37; }

template <class A, class B> struct Fits : std::integral_constant<bool, Mut<A>::value && Tr<A>::rc == Tr<B>::rc && !(is_heap<A> && is_packet<B> && false)> {};
// Inserting another handle's value.
template <class Api, class T, class U> void val_op(Hd<T>& h, T& t, int op, std::string const& k, size_t ix, Hd<U>& x, U& u) {
  auto* c = *h; auto* v = *x; char const* ks = k.c_str(); auto kz = dart::shim::string_view(ks); auto kl = sv(k); dart_err_t e; std::string what; Val before = read(t), val = read(u); prep();
  switch (op) {
    case 0: what = "oi_val"; e = Api::oi_val(c, ks, v); break; case 1: what = "oi_val_len"; e = Api::oi_val_len(c, k.data(), k.size(), v); break; case 2: what = "oi_take"; e = Api::oi_take(c, ks, v); break; case 3: what = "oi_take_len"; e = Api::oi_take_len(c, k.data(), k.size(), v); break;
    case 4: what = "os_val"; e = Api::os_val(c, ks, v); break; case 5: what = "os_val_len"; e = Api::os_val_len(c, k.data(), k.size(), v); break; case 6: what = "os_take"; e = Api::os_take(c, ks, v); break; case 7: what = "os_take_len"; e = Api::os_take_len(c, k.data(), k.size(), v); break;
    case 8: what = "ai_val"; e = Api::ai_val(c, ix, v); break; case 9: what = "ai_take"; e = Api::ai_take(c, ix, v); break; case 10: what = "as_val"; e = Api::as_val(c, ix, v); break; default: what = "as_take"; e = Api::as_take(c, ix, v); break;
  }
  what = Api::name() + what; bool take = op == 2 || op == 3 || op == 6 || op == 7 || op == 9 || op == 11;
  MC_NOTE(what + " key " + mc::show(k) + " index " + std::to_string(ix) + " on " + dump(before) + " value " + dump(val));
  Res want; bool fits = Mut<T>::value && Tr<T>::rc == Tr<U>::rc;
  if (!fits) { MC_CHECK(e != DART_NO_ERROR, "accepted: " + what, what + " accepted a mismatched pair of handles"); want = any_error(e); }
  else {
    // The value goes in as a dynamic value of the target's kind.
    using D = std::conditional_t<is_buffer<T>, P1, T>;
    want = on_twin(t, Mut<T> {}, [&] (auto& t) { D d = build<D>(val); bool z = !(op & 1) || op >= 8; (void) z; switch (op) { case 0: case 2: t.insert(kz, d); break; case 1: case 3: t.insert(kl, d); break; case 4: case 6: t.set(kz, d); break; case 5: case 7: t.set(kl, d); break; case 8: case 9: t.insert(ix, d); break; default: t.set(ix, d); } });
    if (!want.e && take) u = U::make_null();
  }
  judge(e, want, what); match(h, t, what);
  // A failed take may or may not have moved from the value.
  if (want.e && take && read(x.v()).k == Val::Null) { match<U>(v, Val::null(), "value after failed " + what); return; }
  Val now = read(u); match<U>(v, now, "value after " + what);
}
template <class F> void compat(Gen, int k, F&& f) { with_kind(k, f); }
template <class F> void compat(Heap, int k, F&& f) { if (k == 0) f(tag<H1> {}, false); else f(tag<H2> {}, false); }
template <class Api, int Lo, int Hi> void one_op() {
  int k = Lo + choose(Hi - Lo), bi = choose((int) bases().size()), op = choose(kScalarOps + kValOps); Val const& base = bases()[bi]; bool val = op >= kScalarOps; int vop = op - kScalarOps;
  bool key = val ? vop < 8 : uses_key(op), idx = val ? vop >= 8 : uses_idx(op);
  std::string kk = key ? pick(keys()) : "a"; size_t ix = idx ? pick(idxs()) : 0; if (op == 37 && ix > 100) mc::prune();
  compat(Api {}, k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type;
    auto go = [&] (auto api) { using A = decltype(api); T v = make<T>(base, fin); Hd<T> h(v), other(v); T twin = make<T>(base, fin); v = T::make_null();
      if (!val) { int vv = uses_val(op) ? choose(3) : 0; scalar_op<A>(h, twin, op, kk, ix, vv); }
      else { int uk = choose(A::generic ? kKinds : 2), uv = choose(3); static Val const vals[] = {Val::obj({{"z", Val::arr({Val::str(kLong)})}}), Val::str("v"), Val::decimal(0.5)};
        compat(api, uk, [&] (auto ut, bool ufin) { using U = typename decltype(ut)::type; U src = make<U>(vals[uv], ufin); Hd<U> x(src); val_op<A>(h, twin, vop, kk, ix, x, src); }); }
      match<T>(*other, base, "copy of the value made before"); mc::state(mc::mix(hash(read(twin)), k)); mc::nontrivial(); };
    go(Api {}); });
}
MC_SPACE(gen_ops, "generic mutations", "every mutating dart_ function on each of the 8 kinds of handle x 9 values x 5 keys or indices x 3 arguments, or x 8 kinds of value handle x 3 values; code, message, value, value handle and a copy made before are compared") { one_op<Gen, 0, 8>(); }
MC_SPACE(heap_ops, "heap mutations", "the same for every mutating dart_heap_ function with both counters") { one_op<Heap, 0, 2>(); }

// Histories over two handles of one kind and their twins.
enum { kHist = 36 };
template <class Api, class T> struct Hist {
  using C = typename Tr<T>::C; Hd<T> h[2]; T t[2]; Hist(Val const& a, Val const& b, bool fin) : h {Hd<T>(make<T>(a, fin)), Hd<T>(make<T>(b, false))}, t {make<T>(a, fin), make<T>(b, false)} {}
  template <class I, class F> void replace(int x, char const* what, I&& init, F&& twin) {
    Mem<C> m; prep(); dart_err_t e = init((C*) m); T nt; Res want = outcome([&] { nt = twin(); }); judge(e, want, what); if (e) { failed_init<T>(m, what); return; } h[x] = Hd<T>(typename Hd<T>::adopt {}, std::move(m)); t[x] = nt; }
  void other_forms(std::true_type, int x, int y, int op) {
    if (op == 34) replace(x, "dart_lower_err", [&] (C* m) { return flip_like(x) ? dart_finalize_err(m, *h[y]) : dart_lower_err(m, *h[y]); }, [&] { T c = t[y]; return T(std::move(c).lower()); });
    else replace(x, "dart_lift_err", [&] (C* m) { return dart_lift_err(m, *h[y]); }, [&] { T c = t[y]; return T(std::move(c).lift()); }); }
  void other_forms(std::false_type, int x, int y, int op) { if (op == 34) { prep(); Mem<dart_buffer_t> b; dart_err_t e = dart_heap_lower_err(b, *h[y]); using B = typename Tr<T>::B; B bb; Res want = outcome([&] { bb = t[y].lower(); }); judge(e, want, "dart_heap_lower_err"); if (e) { failed_init<B>(b, "dart_heap_lower_err"); return; } Hd<B> hb(typename Hd<B>::adopt {}, std::move(b)); match(hb, bb, "lowered"); replace(x, "dart_buffer_lift_err", [&] (C* m) { return dart_buffer_lift_err(reinterpret_cast<dart_heap_t*>(m), *hb); }, [&] { return lifted(bb); }); }
    else replace(x, "from_json", [&] (C* m) { return Api::fj_len_rc_err(m, Tr<T>::rc, "{\"a\":[1,{}],\"o\":\"s\"}", 20); }, [&] { return T::from_json("{\"a\":[1,{}],\"o\":\"s\"}"); }); }
  template <class B> static T lifted(B const& b) { return T(build<T>(read(b))); }
  // A finalized packet that was moved from is null, but may still count as finalized.
  template <class Q> static std::enable_if_t<is_packet<Q>, Q> moved_from(Q const&, bool fin) { return fin ? Q(typename Tr<Q>::B {}) : Q(); }
  template <class Q> static std::enable_if_t<!is_packet<Q>, Q> moved_from(Q const&, bool) { return Q(); }
  bool flip_like(int x) { return x != 0; }
  void op(int x, int o) {
    int y = 1 - x; auto *c = *h[x], *v = *h[y]; T &p = t[x], &q = t[y]; dart_err_t e = DART_NO_ERROR; Res want; char const* what = "";
    MC_NOTE("operation " + std::to_string(o) + " on " + dump(read(p)) + " other " + dump(read(q))); prep();
#define CASE(n, call, ...) case n: what = #call; e = Api::call; want = outcome([&] { __VA_ARGS__; }); break;
#define TAKE(n, call, ...) case n: what = #call; e = Api::call; want = outcome([&] { T d = q.is_finalized() && !std::is_same<T, H1>::value && !std::is_same<T, H2>::value ? build<T>(read(q)) : q; __VA_ARGS__; }); if (!want.e || (!q.is_null() && h[y].v().is_null())) q = T::make_null(); break;
#define PUT(n, call, ...) case n: what = #call; e = Api::call; want = outcome([&] { __VA_ARGS__; }); break;
    switch (o) {
      CASE(0, oi_int(c, "a", 5), p.insert("a", 5)) CASE(1, oi_str(c, "b", kLong.c_str()), p.insert("b", sv(kLong))) CASE(2, oi_null(c, "c"), p.insert("c", nullptr)) CASE(3, os_bool(c, "a", 1), p.set("a", true)) CASE(4, os_dcm_len(c, "ob", 1, 0.5), p.set("o", 0.5))
      PUT(5, oi_val(c, "o", v), p.insert("o", q)) TAKE(6, oi_take(c, "t", v), p.insert("t", d)) PUT(7, os_val(c, "a", v), p.set("a", q)) TAKE(8, os_take(c, "a", v), p.set("a", d)) CASE(9, o_erase(c, "a"), p.erase("a")) CASE(10, o_clear(c), p.clear())
      CASE(11, ai_int(c, 0, 9), p.insert(0, 9)) CASE(12, ai_dcm(c, 1, 2.5), p.insert(1, 2.5)) PUT(13, ai_val(c, 0, v), p.insert(0, q)) TAKE(14, ai_take(c, 0, v), p.insert(0, d)) PUT(15, as_val(c, 0, v), p.set(0, q)) TAKE(16, as_take(c, 0, v), p.set(0, d)) CASE(17, as_str(c, 0, kLong.c_str()), p.set(0, sv(kLong))) CASE(18, a_erase(c, 0), p.erase(0)) CASE(19, a_clear(c), p.clear()) CASE(20, a_resize(c, 2), p.resize(2)) CASE(21, a_reserve(c, 4), p.reserve(4)) CASE(22, ai_bool(c, 5, 1), p.insert(5, true))
      case 23: replace(x, "obj_init", [&] (C* m) { return Api::obj_rc_err(m, Tr<T>::rc); }, [&] { return T::make_object(); }); return;
      case 24: replace(x, "arr_init", [&] (C* m) { return Api::arr_rc_err(m, Tr<T>::rc); }, [&] { return T::make_array(); }); return;
      case 25: replace(x, "str_init", [&] (C* m) { return Api::nstr_rc_err(m, Tr<T>::rc, kLong.c_str()); }, [&] { return T::make_string(sv(kLong)); }); return;
      case 26: replace(x, "copy", [&] (C* m) { return Api::copy_err(m, v); }, [&] { return q; }); return;
      case 27: replace(x, "move", [&] (C* m) { return Api::move_err(m, v); }, [&] { return T(std::move(q)); }); q = moved_from(q, dart_is_finalized(v) != 0); return;
      case 28: replace(x, "obj_get a", [&] (C* m) { return Api::og_err(m, v, "a"); }, [&] { return T(q.get("a")); }); return;
      case 29: replace(x, "obj_get o", [&] (C* m) { return Api::og_len_err(m, v, "oz", 1); }, [&] { return T(q.get("o")); }); return;
      case 30: replace(x, "arr_get 0", [&] (C* m) { return Api::ag_err(m, v, 0); }, [&] { return T(q.get(0)); }); return;
      case 31: replace(x, "arr_get 7", [&] (C* m) { return Api::ag_err(m, v, 7); }, [&] { return T(q.get(7)); }); return;
      CASE(32, oi_val(c, "self", c), T d = p; p.insert("self", d))
      case 33: MC_CHECK(Api::equal(c, v) == (int) (p == q) && Api::equal(v, c) == (int) (q == p), "equality", "equality of the C handles differs from C++"); return;
      default: other_forms(std::integral_constant<bool, is_packet<T>> {}, x, y, o); return;
    }
#undef CASE
#undef TAKE
#undef PUT
    judge(e, want, what);
  }
  void check() { for (int x = 0; x < 2; ++x) match(h[x], t[x], x ? "second handle" : "first handle"); }
};
template <class Api, class T> void history(bool fin, int depth) {
  static Val const first[] = {Val::obj({{"a", Val::arr({Val::integer(1)})}, {"o", Val::obj({{"a", Val::str(kLong)}})}}), Val::arr({Val::obj({{"a", Val::null()}}), Val::str("x")})};
  int s = fin ? 0 : choose(2); Hist<Api, T> x(first[s], first[1 - s], fin);
  for (int d = 0; d < depth; ++d) { int o = choose(kHist * 2); x.op(o & 1, o >> 1); x.check(); mc::state(mc::mix(hash(read(x.t[0])), hash(read(x.t[1])))); }
  mc::nontrivial();
}
int depth() { return mc::thorough() ? 3 : 2; }
#define BOUND3 "every sequence of 3 of 36 calls on either of two handles holding nested objects and arrays, compared after each call with the C++ operations on twins"
#define BOUND "every sequence of 2 (thorough: 3) of 36 calls on either of two handles holding nested objects and arrays, compared after each call with the C++ operations on twins"
MC_SPACE(h_heap, "heap history", "dart_heap_: " BOUND) { history<Heap, H1>(false, depth()); }
MC_SPACE(h_uheap, "unsafe heap history", "dart_heap_, thread-unsafe counter: " BOUND) { history<Heap, H2>(false, depth()); }
MC_SPACE(h_packet, "packet history", "dart_: " BOUND3) { history<Gen, P1>(false, 3); }
MC_SPACE(h_upacket, "unsafe packet history", "dart_, thread-unsafe counter: " BOUND) { history<Gen, P2>(false, depth()); }
MC_SPACE(h_fpacket, "finalized packet history", "dart_, first handle finalized: " BOUND) { history<Gen, P1>(true, depth()); }
}
