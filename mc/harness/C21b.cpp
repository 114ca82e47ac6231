// C21: every reading and converting C function on every kind of handle, next to the model and the C++ operation.
#include "cabi.hpp"
namespace {
std::string const kLong = "a string that does not fit inside a handle";
std::vector<Val> const& values() {
  static std::vector<Val> v = [] { auto r = scalars(); for (auto& x : layout_values()) r.push_back(x);
    r.push_back(Val::obj({{"a", Val::integer(1)}, {"o", Val::obj({{"x", Val::str(kLong)}})}, {"", Val::boolean(true)}, {std::string("n\0l", 3), Val::arr({Val::decimal(0.25), Val::null()})}}));
    r.push_back(Val::arr({Val::arr({Val::obj({{"a", Val::arr()}})}), Val::str(kLong), Val::integer(1ll << 40)})); return r; }();
  return v;
}
std::vector<Val> const& few() {
  static std::vector<Val> v {Val::null(), Val::boolean(true), Val::integer(0), Val::integer(7), Val::decimal(7), Val::decimal(0.1), Val::str(""), Val::str(kLong), Val::arr(), Val::arr({Val::integer(7), Val::str("x")}), Val::arr({Val::decimal(7), Val::str("x")}), Val::obj(), Val::obj({{"a", Val::integer(7)}}), Val::obj({{"a", Val::decimal(7)}}), Val::obj({{"b", Val::integer(7)}}), values()[values().size() - 2]};
  return v;
}
std::vector<std::string> const& keys() { static std::vector<std::string> k {"a", "o", "", "k", "n", std::string("n\0l", 3), "missing"}; return k; }
std::vector<size_t> const& idxs() { static std::vector<size_t> k {0, 1, 2, 3, size_t(-1)}; return k; }

template <class Api, class T> struct Out { using type = typename Tr<T>::P; };
template <class T> struct Out<Heap, T> { using type = T; };
template <class T> struct Out<Buf, T> { using type = T; };

// A handle returned by value: a plain copy of its bytes is as good as the original.
template <class R> struct Ret { Mem<typename Tr<R>::C> m; explicit Ret(typename Tr<R>::C const& c) { memcpy(m.p, &c, sizeof(c)); } ~Ret() { dart_destroy(m.p); } operator typename Tr<R>::C*() { return m.p; } };
template <class R> void returned(typename Tr<R>::C const& c, Res const& want, Val const& v, std::string const& what) {
  Ret<R> r(c); if (!want.e) { match<R>(r, v, what); return; }
  MC_CHECK(dart_is_null(r) == 1, "not null after failure: " + what, what + " failed and returned something other than null"); MC_CHECK(std::string(dart_get_error()) == want.msg || want.msg == "*", "wrong message: " + what, what + " says \"" + dart_get_error() + "\", expected \"" + want.msg + "\"");
}
// Runs the _err and the returning form of an initialiser.
template <class R, class E, class V> void both(E&& err, V&& val, Res const& want, Val const& v, std::string const& what, int fin = -1) {
  { Mem<typename Tr<R>::C> m; prep(); judge(err(m.p), want, what + "_err"); if (want.e) failed_init<R>(m.p, what + "_err"); else { match<R>(m.p, v, what + "_err"); if (fin >= 0) MC_CHECK(dart_is_finalized(m.p) == fin, "finalized: " + what, what + " gives the wrong finalized state"); dart_destroy(m.p); } }
  prep(); returned<R>(val(), want, v, what);
}
Val child(Val const& v, std::string const& k) { auto it = v.o.find(k); return it == v.o.end() ? Val::null() : it->second; }

template <class Api, class T> struct Reader {
  using C = typename Tr<T>::C; using R = typename Out<Api, T>::type; Hd<T> h; T t; Val v; C* c; std::string fam = Api::name();
  Reader(Val const& x, bool fin) : h(make<T>(x, fin)), t(make<T>(x, fin)), v(x), c(*h) { MC_NOTE(fam + " on " + Tr<T>::name() + (fin ? " (finalized) " : " ") + dump(v)); }
  void scalar() {
    int flags = Api::is_obj(c) | Api::is_arr(c) << 1 | Api::is_str(c) << 2 | Api::is_int(c) << 3 | Api::is_dcm(c) << 4 | Api::is_bool(c) << 5 | Api::is_null(c) << 6; static int const at[] = {6, 5, 3, 4, 2, 1, 0}; static dart_type_t const ty[] = {DART_NULL, DART_BOOLEAN, DART_INTEGER, DART_DECIMAL, DART_STRING, DART_ARRAY, DART_OBJECT};
    MC_CHECK(flags == 1 << at[v.k], "predicates", fam + " predicates give " + std::to_string(flags)); MC_CHECK(Api::type(c) == ty[v.k], "type", fam + " type is " + std::to_string((int) Api::type(c)));
    bool sized = v.k == Val::Str || v.aggregate(); prep(); size_t n = Api::size(c); MC_CHECK(n == (sized ? v.size() : (size_t) DART_FAILURE), "size", fam + " size is " + std::to_string(n)); if (!sized) message(outcome([&] { t.size(); }), "size");
    prep(); char const* s = Api::str(c); if (v.k == Val::Str) MC_CHECK(s && std::string(s, v.s.size() + 1) == v.s + '\0', "string", "str_get is wrong"); else { MC_CHECK(!s, "string", "str_get of something else is not null"); message(outcome([&] { t.strv(); }), "str_get"); }
    prep(); size_t len = 12345; s = Api::str_len(c, &len); if (v.k == Val::Str) MC_CHECK(s && len == v.s.size() && std::string(s, len) == v.s && !s[len], "string", "str_get_len is wrong"); else { MC_CHECK(!s, "string", "str_get_len of something else is not null"); message(outcome([&] { t.strv(); }), "str_get_len"); }
    prep(); int64_t i = Api::integer(c); MC_CHECK(i == (v.k == Val::Int ? v.i : 0), "integer", "int_get is " + std::to_string(i)); if (v.k != Val::Int) message(outcome([&] { t.integer(); }), "int_get");
    prep(); i = 77; judge(Api::int_err(c, &i), outcome([&] { t.integer(); }), fam + "int_get_err"); MC_CHECK(v.k != Val::Int || i == v.i, "integer", "int_get_err is wrong");
    prep(); double d = Api::dcm(c); MC_CHECK(v.k == Val::Dec ? bits(d) == bits(v.d) : std::isnan(d), "decimal", "dcm_get is " + std::to_string(d)); if (v.k != Val::Dec) message(outcome([&] { t.decimal(); }), "dcm_get");
    prep(); d = 77; judge(Api::dcm_err(c, &d), outcome([&] { t.decimal(); }), fam + "dcm_get_err"); MC_CHECK(v.k != Val::Dec || bits(d) == bits(v.d), "decimal", "dcm_get_err is wrong");
    prep(); int b = Api::boolean(c); MC_CHECK(b == (v.k == Val::Bool && v.b), "boolean", "bool_get is " + std::to_string(b)); if (v.k != Val::Bool) message(outcome([&] { t.boolean(); }), "bool_get");
    prep(); b = 77; judge(Api::bool_err(c, &b), outcome([&] { t.boolean(); }), fam + "bool_get_err"); MC_CHECK(v.k != Val::Bool || b == (int) v.b, "boolean", "bool_get_err is wrong");
    MC_CHECK(dart_is_finalized(c) == (int) t.is_finalized(), "finalized", "dart_is_finalized is wrong");
    if (!std::is_same<Api, Gen>::value) MC_CHECK(Api::equal(c, c) == !(v.k == Val::Dec && std::isnan(v.d)), "equal", "a handle differs from itself");
  }
  void message(Res const& want, char const* what) { MC_CHECK(want.e && want.msg == dart_get_error(), std::string("message: ") + what, fam + what + " says \"" + dart_get_error() + "\", expected \"" + want.msg + "\""); }
  void key(std::string const& k) {
    char const* z = k.c_str(); std::string kz = z; auto szv = dart::shim::string_view(z); bool o = v.k == Val::Obj; MC_NOTE("key " + mc::show(k));
    prep(); MC_CHECK(Api::has(c, z) == (int) (o && v.o.count(kz)), "has_key", fam + "obj_has_key is wrong"); MC_CHECK(Api::has_len(c, k.data(), k.size()) == (int) (o && v.o.count(k)), "has_key_len", fam + "obj_has_key_len is wrong");
    Res w = outcome([&] { t.get(szv); }); both<R>([&] (auto* m) { return Api::og_err(m, c, z); }, [&] { return Api::og(c, z); }, w, o ? child(v, kz) : Val::null(), fam + "obj_get");
    w = outcome([&] { t.get(sv(k)); }); both<R>([&] (auto* m) { return Api::og_len_err(m, c, k.data(), k.size()); }, [&] { return Api::og_len(c, k.data(), k.size()); }, w, o ? child(v, k) : Val::null(), fam + "obj_get_len"); MC_CHECK((w.e != 0) == !o, "get", "C++ and model disagree about get");
  }
  void index(size_t ix) {
    MC_NOTE("index " + std::to_string(ix)); Res w = outcome([&] { t.get(ix); }); bool in = v.k == Val::Arr && ix < v.a.size(); both<R>([&] (auto* m) { return Api::ag_err(m, c, ix); }, [&] { return Api::ag(c, ix); }, w, in ? v.a[ix] : Val::null(), fam + "arr_get"); MC_CHECK((w.e != 0) == (v.k != Val::Arr), "get", "C++ and model disagree about get");
  }
  void json() {
    std::string s; Res w = outcome([&] { s = t.to_json(); });
    for (int withlen = 0; withlen < 2; ++withlen) { prep(); size_t len = 0; char* j = Api::json(c, withlen ? &len : nullptr); if (w.e) { MC_CHECK(!j, "json", fam + "to_json did not fail"); message(w, "to_json"); continue; } MC_CHECK(j, "json", fam + "to_json failed: " + dart_get_error()); std::string g = withlen ? std::string(j, len) : std::string(j); MC_CHECK(g == s && j[g.size()] == 0, "json", fam + "to_json gives " + g + ", expected " + s); free(j); }
  }
  void still() { match(h, t, "the handle that was read"); }
};
template <class F> void for_api(F&& f) {
  int a = choose(3);
  if (a == 0) with_kind(choose(kKinds), [&] (auto tg, bool fin) { f(Gen {}, tg, fin); });
  else if (a == 1) { if (flip()) f(Heap {}, tag<H2> {}, false); else f(Heap {}, tag<H1> {}, false); }
  else { if (flip()) f(Buf {}, tag<B2> {}, true); else f(Buf {}, tag<B1> {}, true); }
}
bool representable(bool fin, Val const& v) { (void) fin; (void) v; return true; }
MC_SPACE(reads, "reading", "every predicate, accessor, has_key, obj_get, arr_get and to_json function (dart_ on 8 kinds of handle, dart_heap_, dart_buffer_ with both counters) x 61 values x 7 keys, 5 indices: result, sentinel, code, message and the handle afterwards") {
  for_api([] (auto api, auto tg, bool fin) { using T = typename decltype(tg)::type; using A = decltype(api); Val const& v = pick(values()); Reader<A, T> r(v, fin);
    int what = choose(4); switch (what) { case 0: r.scalar(); break; case 1: r.key(pick(keys())); break; case 2: r.index(pick(idxs())); break; default: r.json(); }
    r.still(); mc::state(mc::mix(hash(v), what)); mc::nontrivial(); });
}

MC_SPACE(equal, "equality", "dart_equal over every pair of the 8 kinds of handle with the same counter, dart_heap_equal and dart_buffer_equal over all, x 16 x 16 values; unequal counters in the typed functions") {
  int ka = choose(kKinds), kb = choose(kKinds); Val const &a = pick(few()), &b = pick(few());
  with_kind(ka, [&] (auto ta, bool fa) { with_kind(kb, [&] (auto tb, bool fb) { using A = typename decltype(ta)::type; using B = typename decltype(tb)::type; 
    Hd<A> x(make<A>(a, fa)); Hd<B> y(make<B>(b, fb)); bool one = Tr<A>::rc == Tr<B>::rc; bool want = build<H1>(a) == build<H1>(b);
    MC_NOTE(std::string(kind_name(ka)) + " " + dump(a) + " and " + kind_name(kb) + " " + dump(b)); mc::step();
    if (one) { int g = dart_equal(*x, *y); MC_CHECK(g == (int) want, "dart_equal", "dart_equal is " + std::to_string(g) + ", expected " + std::to_string(want)); }
    void *p = *x, *q = *y; if (is_heap<A> && is_heap<B>) { int g = dart_heap_equal((dart_heap_t*) p, (dart_heap_t*) q); MC_CHECK(g == (int) (one && want), "dart_heap_equal", "dart_heap_equal is " + std::to_string(g)); }
    if (is_buffer<A> && is_buffer<B>) { int g = dart_buffer_equal((dart_buffer_t*) p, (dart_buffer_t*) q); MC_CHECK(g == (int) (one && want), "dart_buffer_equal", "dart_buffer_equal is " + std::to_string(g)); }
    mc::state(mc::mix(hash(a), hash(b))); mc::nontrivial(); }); });
}

// Conversions between the kinds.
Res lowering(Val const& v) { return v.k == Val::Obj ? Res {} : outcome([&] { build<H1>(v).lower(); }); }
template <class T> struct Typed { static void run(Hd<T>&, Val const&, int) { mc::prune(); } };
template <class T> void heap_down(Hd<T>& h, Val const& v, int f) { using B = typename Tr<T>::B; auto* c = *h; if (f) both<B>([&] (auto* m) { return dart_heap_finalize_err(m, c); }, [&] { return dart_heap_finalize(c); }, lowering(v), v, "dart_heap_finalize", 1); else both<B>([&] (auto* m) { return dart_heap_lower_err(m, c); }, [&] { return dart_heap_lower(c); }, lowering(v), v, "dart_heap_lower", 1); }
template <class T> void buffer_up(Hd<T>& h, Val const& v, int f) { using H = typename Tr<T>::H; auto* c = *h; if (f) both<H>([&] (auto* m) { return dart_buffer_definalize_err(m, c); }, [&] { return dart_buffer_definalize(c); }, Res {}, v, "dart_buffer_definalize", 0); else both<H>([&] (auto* m) { return dart_buffer_lift_err(m, c); }, [&] { return dart_buffer_lift(c); }, Res {}, v, "dart_buffer_lift", 0); }
template <> struct Typed<H1> { static void run(Hd<H1>& h, Val const& v, int f) { heap_down(h, v, f); } }; template <> struct Typed<H2> { static void run(Hd<H2>& h, Val const& v, int f) { heap_down(h, v, f); } };
template <> struct Typed<B1> { static void run(Hd<B1>& h, Val const& v, int f) { buffer_up(h, v, f); } }; template <> struct Typed<B2> { static void run(Hd<B2>& h, Val const& v, int f) { buffer_up(h, v, f); } };
// A copy, made by `init`, is independent of the source, which is null afterwards if it was moved.
template <class T, class I> void duplicate(Hd<T>& h, Val const& v, bool fin, bool moved, std::string const& what, I&& init) {
  Mem<typename Tr<T>::C> m; prep(); judge(init(m.p), Res {}, what); match<T>(m.p, v, what); MC_CHECK(dart_is_finalized(m.p) == (int) (fin && !is_heap<T>), "finalized: " + what, what + " changes the finalized state");
  Hd<T> d(typename Hd<T>::adopt {}, std::move(m)); if (moved) match<T>(*h, Val::null(), "source of " + what);
  if (!fin && v.k == Val::Obj) { MC_CHECK(!dart_obj_set_int(*d, "a", 99) || !v.o.count("a"), "copy", "cannot change the copy"); if (!moved) match<T>(*h, v, "source of " + what + " after changing the copy"); }
  if (!moved) { h = Hd<T>(T::make_null()); if (fin || v.k != Val::Obj) match<T>(*d, v, what + " after destroying the source"); }
}
template <class C> dart_err_t by_value(C* m, C const& v) { memcpy(m, &v, sizeof(C)); return DART_NO_ERROR; }
template <class T, std::enable_if_t<is_heap<T>, int> = 0> void typed_dup(Hd<T>& h, Val const& v, bool fin, int f) { auto* c = *h; duplicate(h, v, fin, f & 1, f & 1 ? "dart_heap_move" : "dart_heap_copy", [&] (auto* m) { switch (f) { case 0: return dart_heap_copy_err(m, c); case 1: return dart_heap_move_err(m, c); case 2: return by_value(m, dart_heap_copy(c)); default: return by_value(m, dart_heap_move(c)); } }); }
template <class T, std::enable_if_t<is_buffer<T>, int> = 0> void typed_dup(Hd<T>& h, Val const& v, bool fin, int f) { auto* c = *h; duplicate(h, v, fin, f & 1, f & 1 ? "dart_buffer_move" : "dart_buffer_copy", [&] (auto* m) { switch (f) { case 0: return dart_buffer_copy_err(m, c); case 1: return dart_buffer_move_err(m, c); case 2: return by_value(m, dart_buffer_copy(c)); default: return by_value(m, dart_buffer_move(c)); } }); }
template <class T, std::enable_if_t<is_packet<T>, int> = 0> void typed_dup(Hd<T>&, Val const&, bool, int) { mc::prune(); }
MC_SPACE(convert, "conversion", "to_heap, to_buffer, lower, finalize, lift, definalize, copy, move (generic and typed, both forms) on 8 kinds of handle x 61 values: value, finalized state, failures and the source afterwards") {
  int k = choose(kKinds), op = choose(14); Val const& v = pick(values());
  with_kind(k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type; using H = typename Tr<T>::H; using B = typename Tr<T>::B; using P = typename Tr<T>::P; Hd<T> h(make<T>(v, fin)); auto* c = *h; Res ok, down = fin ? ok : lowering(v); bool f = fin;
    MC_NOTE("conversion " + std::to_string(op) + " of " + kind_name(k) + " " + dump(v)); bool keeps = true;
    switch (op) {
      case 0: both<H>([&] (auto* m) { return dart_to_heap_err(m, c); }, [&] { return dart_to_heap(c); }, ok, v, "dart_to_heap", 0); break;
      case 1: both<B>([&] (auto* m) { return dart_to_buffer_err(m, c); }, [&] { return dart_to_buffer(c); }, down, v, "dart_to_buffer", 1); break;
      case 2: both<P>([&] (auto* m) { return dart_lower_err(m, c); }, [&] { return dart_lower(c); }, down, v, "dart_lower", 1); break;
      case 3: both<P>([&] (auto* m) { return dart_finalize_err(m, c); }, [&] { return dart_finalize(c); }, down, v, "dart_finalize", 1); break;
      case 4: both<P>([&] (auto* m) { return dart_lift_err(m, c); }, [&] { return dart_lift(c); }, ok, v, "dart_lift", 0); break;
      case 5: both<P>([&] (auto* m) { return dart_definalize_err(m, c); }, [&] { return dart_definalize(c); }, ok, v, "dart_definalize", 0); break;
      case 6: case 7: Typed<T>::run(h, v, op - 6); break;
      case 8: duplicate(h, v, f, false, "dart_copy", [&] (auto* m) { return dart_copy_err(m, c); }); keeps = false; break;
      case 9: duplicate(h, v, f, true, "dart_move", [&] (auto* m) { return dart_move_err(m, c); }); keeps = false; break;
      default: typed_dup(h, v, f, op - 10); keeps = false; break;
    }
    if (keeps) match<T>(c, v, "source of the conversion"); mc::state(mc::mix(hash(v), k * 16 + op)); mc::nontrivial(); });
}
template <class C> C* low(C* c) { return c; }
template <class T, std::enable_if_t<is_buffer<T>, int> = 0> void const* typed_bytes(Hd<T>& h, size_t* n) { return dart_buffer_get_bytes(*h, n); }
template <class T, std::enable_if_t<!is_buffer<T>, int> = 0> void const* typed_bytes(Hd<T>&, size_t*) { mc::prune(); }
template <class T, std::enable_if_t<is_buffer<T>, int> = 0> void* typed_dup_bytes(Hd<T>& h, size_t* n) { return dart_buffer_dup_bytes(*h, n); }
template <class T, std::enable_if_t<!is_buffer<T>, int> = 0> void* typed_dup_bytes(Hd<T>&, size_t*) { mc::prune(); }
template <class T, class F> void rebuilt(F&& init, Val const& v, std::string const& what) { Mem<typename Tr<T>::C> m; prep(); judge(init(m.p), Res {}, what); match<T>(m.p, v, what); MC_CHECK(dart_is_finalized(m.p), "finalized: " + what, what + " is not finalized"); dart_destroy(m.p); }
std::vector<Val> const& objects() { static std::vector<Val> o = [] { std::vector<Val> r; for (auto& v : values()) if (v.k == Val::Obj) r.push_back(v); for (auto& v : values()) if (v.k != Val::Dec || !std::isnan(v.d)) r.push_back(Val::obj({{"x", v}})); return r; }(); return o; }
// Owned, exactly sized, aligned bytes.
struct Owned { void* p = nullptr; Owned(void const* b, size_t n) { if (posix_memalign(&p, 8, n)) abort(); memcpy(p, b, n); } ~Owned() { free(p); } void* release() { void* r = p; p = nullptr; return r; } };
MC_SPACE(bytes, "bytes", "get_bytes, dup_bytes, from_bytes (exact length and longer), take_bytes, is_valid, generic and typed, both counters, on objects holding each of 61 values: bytes equal the independent encoding, every rebuilt handle reads equal") {
  int k = choose(kKinds), op = choose(8); Val const& v = pick(objects());
  with_kind(k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type; using B = typename Tr<T>::B; using P = typename Tr<T>::P; Hd<T> h(make<T>(v, fin)); auto* c = *h; MC_NOTE("bytes " + std::to_string(op) + " of " + kind_name(k) + " " + dump(v)); Bytes enc = encode(v); constexpr bool safe = Tr<T>::rc == DART_RC_SAFE; auto rc = Tr<T>::rc;
    auto sameb = [&] (void const* p, size_t n, char const* what) { MC_CHECK(p && n == enc.size() && !memcmp(p, enc.data(), n), std::string("bytes: ") + what, std::string(what) + " differs from the encoding of the value"); };
    if (op < 4) { bool dup = op & 1, ty = op & 2; size_t n = 0; prep(); bool wl = flip(); size_t* np = wl ? &n : nullptr; void* own = nullptr; void const* p;
      if (dup) p = own = ty ? typed_dup_bytes(h, np) : dart_dup_bytes(c, np); else p = ty ? typed_bytes(h, np) : dart_get_bytes(c, np); if (!wl) n = enc.size();
      char const* what = dup ? "dup_bytes" : "get_bytes"; if (!fin) { MC_CHECK(!p && reported(what), std::string("bytes: ") + what, std::string(what) + " on a dynamic value does not fail"); } else sameb(p, n, what);
      if (own) { MC_CHECK(dart_buffer_is_valid(own, n) == 1, "is_valid", "duplicated bytes are not valid"); h = Hd<T>(T::make_null()); sameb(own, n, "dup_bytes after destroying the handle"); if (flip()) dart_aligned_free(own); else rebuilt<B>([&] (auto* m) { return dart_buffer_take_bytes_rc_err(m, rc, own); }, v, "dart_buffer_take_bytes_rc_err"); } }
    else if (k == 2 || k == 3 || k >= 6) { size_t extra = op == 4 ? 0 : op == 5 ? 8 : 0; bool take = op >= 6, ty = flip(); int form = choose(4); if (form >= 2 && !safe) mc::prune(); Owned o(enc.data(), enc.size() + 0); std::vector<unsigned char> big(enc); big.resize(enc.size() + extra, 0xee); Owned src(big.data(), big.size()); size_t n = big.size();
      if (op == 7) { size_t cut = enc.size(); MC_CHECK(dart_buffer_is_valid(src.p, n) == 1, "is_valid", "good bytes are not valid"); for (size_t l = 0; l < cut; ++l) { Owned part(enc.data(), l); MC_CHECK(dart_buffer_is_valid(part.p, l) == 0, "is_valid", "bytes cut to " + std::to_string(l) + " of " + std::to_string(cut) + " count as valid"); } return; }
      auto go = [&] (auto rt, auto f) { using R = typename decltype(rt)::type; rebuilt<R>([&] (auto* m) { dart_err_t e = f(m); return e; }, v, take ? "take_bytes" : "from_bytes"); }; void* q = take ? src.release() : src.p;
      if (ty) go(tag<B> {}, [&] (dart_buffer_t* m) { if (take) switch (form) { case 0: return dart_buffer_take_bytes_rc_err(m, rc, q); case 1: return by_value(m, dart_buffer_take_bytes_rc(q, rc)); case 2: return dart_buffer_take_bytes_err(m, q); default: return by_value(m, dart_buffer_take_bytes(q)); } else switch (form) { case 0: return dart_buffer_from_bytes_rc_err(m, rc, q, n); case 1: return by_value(m, dart_buffer_from_bytes_rc(q, rc, n)); case 2: return dart_buffer_from_bytes_err(m, q, n); default: return by_value(m, dart_buffer_from_bytes(q, n)); } });
      else go(tag<P> {}, [&] (dart_packet_t* m) { if (take) switch (form) { case 0: return dart_take_bytes_rc_err(m, rc, q); case 1: return by_value(m, dart_take_bytes_rc(q, rc)); case 2: return dart_take_bytes_err(m, q); default: return by_value(m, dart_take_bytes(q)); } else switch (form) { case 0: return dart_from_bytes_rc_err(m, rc, q, n); case 1: return by_value(m, dart_from_bytes_rc(q, rc, n)); case 2: return dart_from_bytes_err(m, q, n); default: return by_value(m, dart_from_bytes(q, n)); } }); }
    else mc::prune();
    mc::state(mc::mix(hash(v), k * 16 + op)); mc::nontrivial(); });
}
MC_SPACE(counts, "reference counts", "dart_refcount after 0..3 copies and destructions in every order on 8 kinds of handle x 16 values") {
  int k = choose(kKinds); Val const& v = pick(few());
  with_kind(k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type; std::vector<Hd<T>> hs; hs.emplace_back(make<T>(v, fin)); MC_NOTE(std::string(kind_name(k)) + " " + dump(v));
    size_t base = dart_refcount(*hs[0]); MC_CHECK(base == hs[0].v().refcount(), "refcount", "dart_refcount is " + std::to_string(base)); bool counted = T(hs[0].v()).refcount() == base + 1;
    for (int d = 0; d < 5; ++d) { int n = (int) hs.size(), o = choose(n < 4 ? 2 * n : n); if (o >= n) { Mem<typename Tr<T>::C> m; dart_copy_err(m.p, *hs[o - n]); hs.emplace_back(typename Hd<T>::adopt {}, std::move(m)); MC_NOTE("copy"); } else { if (n == 1) break; hs.erase(hs.begin() + o); MC_NOTE("destroy"); } mc::step();
      for (auto& h : hs) { size_t r = dart_refcount(*h), w = counted ? base + hs.size() - 1 : base; MC_CHECK(r == w, "refcount", "dart_refcount is " + std::to_string(r) + " with " + std::to_string(hs.size()) + " handles, expected " + std::to_string(w)); } }
    for (auto& h : hs) match<T>(*h, v, "surviving handle"); mc::state(mc::mix(hash(v), hs.size())); mc::nontrivial(); });
}
}
