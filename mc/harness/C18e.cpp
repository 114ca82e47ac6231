// C18 through the C interface: every allocation of every call is failed in turn. The call must report an error (or do
// without), change nothing, leak nothing, leave destroyable handles, and work when tried again.
#include "cabi.hpp"
#if __has_include(<../src/helpers.h>)
# include <../src/helpers.h>
#endif
// The text of the last error, if the library still keeps it under this name.
namespace dart { namespace detail { namespace absent { static thread_local std::string errmsg; } using namespace absent; } }
static long long ok_size = -1; // mallocs of this very size fail
extern "C" void* __real_malloc(size_t); extern "C" void* __wrap_malloc(size_t n) { if (ok_size >= 0 && n == (size_t) ok_size) return nullptr; return __real_malloc(n); }
namespace {
std::string const kLong = "a string that does not fit inside a handle", kKey = "a key that does not fit in place anywhere at all";
union Any { dart_type_id_t id; dart_heap_t h; dart_buffer_t b; dart_packet_t p; };
struct Cell { Any* p; Cell() { void* m = nullptr; if (posix_memalign(&m, 16, sizeof(Any))) abort(); memset(m, 0xbe, sizeof(Any)); p = static_cast<Any*>(m); } Cell(Cell const&) = delete; ~Cell() { dart_destroy(p); free(p); } };
void start(Any* m, int kind, Val const& v) { with_kind(kind, [&] (auto t, bool fin) { using T = typename decltype(t)::type; m->id = {Tr<T>::p, Tr<T>::rc}; void* at = is_packet<T> ? (void*) &m->p.bytes : is_heap<T> ? (void*) &m->h.bytes : (void*) &m->b.bytes; new(at) T(make<T>(v, fin)); }); }

// Nothing fails and nothing is counted while one of these lives.
struct Quiet { mc::NoFault f; long long seen = mc::alloc_seen; ~Quiet() { mc::alloc_seen = seen; } };
long long seen;
void through() { seen = mc::alloc_seen; mc::alloc_fail_at = -1; }
struct R { dart_err_t e = DART_NO_ERROR; std::string res, sentinel; bool has_code = true; };
template <class C> R made(C* d, R r) { // what an initialiser left behind
  through();
  if (r.e) { MC_CHECK(dart_is_null(d) == 1, "not null", "a call that failed left something other than null"); r.res = "failed"; }
  else r.res = dump(cread(d)) + (dart_is_finalized(d) ? "F" : "D");
  MC_CHECK(dart_destroy(d) == DART_NO_ERROR, "not destroyable", "a handle cannot be destroyed"); return r;
}
template <class C, class F> R init(F&& f) { Mem<C> d; R r; r.e = f(d.p); return made<C>(d.p, r); }
template <class C, class F> R give(F&& f) { Mem<C> d; *d.p = f(); through(); R r; r.has_code = false; r.sentinel = "nullD"; r.res = dump(cread(d)) + (dart_is_finalized(d) ? "F" : "D"); if (r.res == "nullF") r.res = "nullD"; MC_CHECK(dart_destroy(d) == DART_NO_ERROR, "not destroyable", "a handle cannot be destroyed"); return r; }
template <class F> R mutate(F&& f) { R r; r.e = f(); through(); return r; }
template <class F> R number(F&& f, long long sentinel) { R r; r.has_code = false; auto v = f(); through(); r.res = std::to_string(v); r.sentinel = std::to_string((decltype(v)) sentinel); return r; }

enum Flags { plain = 0, arg = 1, takes = 2, reads = 4 };
struct Item { char const* name; int flags; R (*op)(void* t, void* a); };
#define OP(fl, text, ...) {text, fl, [] (void* t, void* a) -> R { (void) t; (void) a; __VA_ARGS__; }},
#define L kKey.c_str()
#define V kLong.c_str()
// F: function family, H: its handle type.
template <class F, class H> std::vector<Item> const& mutations() {
#define T static_cast<H*>(t)
#define A static_cast<H*>(a)
  static std::vector<Item> const v {
    OP(arg, "obj_insert value", return mutate([&] { return F::oi_val(T, L, A); })) OP(arg, "obj_insert value over", return mutate([&] { return F::oi_val_len(T, "a", 1, A); }))
    OP(arg | takes, "obj_insert_take", return mutate([&] { return F::oi_take(T, L, A); })) OP(arg | takes, "obj_insert_take over", return mutate([&] { return F::oi_take_len(T, "a", 1, A); }))
    OP(plain, "obj_insert_str", return mutate([&] { return F::oi_str(T, L, V); })) OP(plain, "obj_insert_str_len", return mutate([&] { return F::oi_str_len(T, "a", 1, V, 30); })) OP(plain, "obj_insert_int", return mutate([&] { return F::oi_int(T, L, 5); })) OP(plain, "obj_insert_dcm", return mutate([&] { return F::oi_dcm(T, "zz", 0.5); }))
    OP(plain, "obj_insert_bool", return mutate([&] { return F::oi_bool(T, L, 1); })) OP(plain, "obj_insert_null", return mutate([&] { return F::oi_null(T, "a"); }))
    OP(arg, "obj_set value", return mutate([&] { return F::os_val(T, "a", A); })) OP(arg | takes, "obj_set_take", return mutate([&] { return F::os_take(T, "a", A); })) OP(arg, "obj_set absent", return mutate([&] { return F::os_val(T, L, A); }))
    OP(plain, "obj_set_str", return mutate([&] { return F::os_str(T, "a", V); })) OP(plain, "obj_set_int", return mutate([&] { return F::os_int(T, "a", 7); })) OP(plain, "obj_set_null", return mutate([&] { return F::os_null(T, "a"); }))
    OP(plain, "obj_erase", return mutate([&] { return F::o_erase(T, "a"); })) OP(plain, "obj_erase absent", return mutate([&] { return F::o_erase_len(T, L, kKey.size()); })) OP(plain, "obj_clear", return mutate([&] { return F::o_clear(T); }))
    OP(arg, "arr_insert value", return mutate([&] { return F::ai_val(T, 0, A); })) OP(arg | takes, "arr_insert_take", return mutate([&] { return F::ai_take(T, 0, A); })) OP(plain, "arr_insert_str", return mutate([&] { return F::ai_str(T, 0, V); })) OP(plain, "arr_insert_int", return mutate([&] { return F::ai_int(T, 0, 9); })) OP(plain, "arr_insert_null beyond", return mutate([&] { return F::ai_null(T, 99); }))
    OP(arg, "arr_set value", return mutate([&] { return F::as_val(T, 0, A); })) OP(arg | takes, "arr_set_take", return mutate([&] { return F::as_take(T, 0, A); })) OP(plain, "arr_set_str", return mutate([&] { return F::as_str(T, 0, V); })) OP(plain, "arr_set_dcm beyond", return mutate([&] { return F::as_dcm(T, 99, 0.5); }))
    OP(plain, "arr_erase", return mutate([&] { return F::a_erase(T, 0); })) OP(plain, "arr_clear", return mutate([&] { return F::a_clear(T); })) OP(plain, "arr_resize", return mutate([&] { return F::a_resize(T, 40); })) OP(plain, "arr_reserve", return mutate([&] { return F::a_reserve(T, 64); })) OP(plain, "arr_resize down", return mutate([&] { return F::a_resize(T, 1); }))
  };
  return v;
}
template <class F, class H, class N> std::vector<Item> const& reading() { // N: what lookups produce
  static std::vector<Item> const v {
    OP(reads, "obj_get_err", return init<N>([&] (N* d) { return F::og_err(d, T, "a"); })) OP(reads, "obj_get_err long", return init<N>([&] (N* d) { return F::og_err(d, T, L); })) OP(reads, "obj_get", return give<N>([&] { return F::og(T, L); })) OP(reads, "obj_get_len", return give<N>([&] { return F::og_len(T, "a", 1); }))
    OP(reads, "arr_get_err", return init<N>([&] (N* d) { return F::ag_err(d, T, 0); })) OP(reads, "arr_get", return give<N>([&] { return F::ag(T, 0); })) OP(reads, "arr_get_err beyond", return init<N>([&] (N* d) { return F::ag_err(d, T, 99); }))
    OP(reads, "has_key", return number([&] { return F::has(T, L); }, 0)) OP(reads, "has_key_len", return number([&] { return F::has_len(T, "a", 1); }, 0)) OP(reads, "size", return number([&] { return F::size(T); }, (long long) DART_FAILURE))
    OP(reads, "int_get_err", int64_t x = 0; R r = mutate([&] { return F::int_err(T, &x); }); r.res = std::to_string(x); return r) OP(reads, "dcm_get_err", double x = 0; R r = mutate([&] { return F::dcm_err(T, &x); }); r.res = std::to_string(x); return r) OP(reads, "bool_get_err", int x = 0; R r = mutate([&] { return F::bool_err(T, &x); }); r.res = std::to_string(x); return r)
    OP(reads, "str_get", auto* s = F::str(T); through(); R r; r.has_code = false; r.res = s ? s : "(null)"; r.sentinel = "(null)"; return r)
    OP(arg | reads, "equal", return number([&] { return F::equal(T, A); }, 0)) OP(reads, "equal to itself", return number([&] { return F::equal(T, T); }, 0))
    OP(reads, "get_type", return number([&] { return (int) F::type(T); }, (long long) DART_INVALID)) OP(reads, "is_str", return number([&] { return F::is_str(T); }, 0))
    OP(reads, "to_json", size_t n = 0; char* j = F::json(T, &n); through(); R r; r.has_code = false; r.res = j ? std::string(j, n) : "(null)"; r.sentinel = "(null)"; free(j); return r)
    OP(reads, "copy_err", return init<H>([&] (H* d) { return F::copy_err(d, T); })) OP(reads, "copy", return give<H>([&] { return F::copy(T); })) OP(takes, "move_err", return init<H>([&] (H* d) { return F::move_err(d, T); }))
  };
  return v;
}
#undef T
#undef A
std::vector<Item> const& generic() {
  using P = dart_packet_t; using H = dart_heap_t; using B = dart_buffer_t; using I = dart_iterator_t;
  static std::vector<Item> const v {
    OP(reads, "dart_lower_err", return init<P>([&] (P* d) { return dart_lower_err(d, t); })) OP(reads, "dart_lower", return give<P>([&] { return dart_lower(t); })) OP(reads, "dart_finalize_err", return init<P>([&] (P* d) { return dart_finalize_err(d, t); })) OP(reads, "dart_finalize", return give<P>([&] { return dart_finalize(t); }))
    OP(reads, "dart_lift_err", return init<P>([&] (P* d) { return dart_lift_err(d, t); })) OP(reads, "dart_lift", return give<P>([&] { return dart_lift(t); })) OP(reads, "dart_definalize_err", return init<P>([&] (P* d) { return dart_definalize_err(d, t); })) OP(reads, "dart_definalize", return give<P>([&] { return dart_definalize(t); }))
    OP(reads, "dart_to_heap_err", return init<H>([&] (H* d) { return dart_to_heap_err(d, t); })) OP(reads, "dart_to_heap", return give<H>([&] { return dart_to_heap(t); })) OP(reads, "dart_to_buffer_err", return init<B>([&] (B* d) { return dart_to_buffer_err(d, t); })) OP(reads, "dart_to_buffer", return give<B>([&] { return dart_to_buffer(t); }))
    OP(reads, "dart_refcount", return number([&] { return dart_refcount(t); }, (long long) DART_FAILURE))
    OP(reads, "dart_get_bytes", size_t n = 0; auto* p = dart_get_bytes(t, &n); through(); R r; r.has_code = false; r.res = p ? std::string((char const*) p, n) : "(null)"; r.sentinel = "(null)"; return r)
    OP(reads, "dart_dup_bytes", size_t n = 0; auto* p = dart_dup_bytes(t, &n); through(); R r; r.has_code = false; r.res = p ? std::string((char const*) p, n) : "(null)"; r.sentinel = "(null)"; if (p) dart_aligned_free(p); return r)
    OP(reads, "dart_from_bytes_rc_err", size_t n = 0; void const* p; { Quiet q; p = dart_get_bytes(t, &n); } if (!p) { through(); return R {}; } return init<P>([&] (P* d) { return dart_from_bytes_rc_err(d, DART_RC_SAFE, p, n); }))
    OP(reads, "dart_buffer_from_bytes_rc_err", size_t n = 0; void const* p; { Quiet q; p = dart_get_bytes(t, &n); } if (!p) { through(); return R {}; } return init<B>([&] (B* d) { return dart_buffer_from_bytes_rc_err(d, DART_RC_UNSAFE, p, n); }))
    OP(reads, "dart_buffer_is_valid", size_t n = 0; void const* p; { Quiet q; p = dart_get_bytes(t, &n); } if (!p) { through(); return R {}; } return number([&] { return dart_buffer_is_valid(p, n); }, 0))
    OP(reads, "dart_take_bytes_rc_err", size_t n = 0; void* p; { Quiet q; p = dart_dup_bytes(t, &n); } if (!p) { through(); return R {}; } return init<P>([&] (P* d) { return dart_take_bytes_rc_err(d, DART_RC_SAFE, p); }))
    OP(reads, "dart_buffer_take_bytes_rc_err", size_t n = 0; void* p; { Quiet q; p = dart_dup_bytes(t, &n); } if (!p) { through(); return R {}; } return init<B>([&] (B* d) { return dart_buffer_take_bytes_rc_err(d, DART_RC_UNSAFE, p); }))
    OP(reads, "iterating", Mem<I> it; R r = mutate([&] { return dart_iterator_init_from_err(it, t); }); if (!r.e) { int n = 0; for (; !dart_iterator_done(it); dart_iterator_next(it)) ++n; r.res = std::to_string(n); } dart_iterator_destroy(it); return r)
    OP(reads, "iterating keys", Mem<I> it; R r = mutate([&] { return dart_iterator_init_key_from_err(it, t); }); if (!r.e) { int n = 0; for (; !dart_iterator_done(it); dart_iterator_next(it)) ++n; r.res = std::to_string(n); } dart_iterator_destroy(it); return r)
#define ITER(key, call) Mem<I> it; { Quiet q; if (key ? dart_iterator_init_key_from_err(it, t) : dart_iterator_init_from_err(it, t)) { dart_iterator_destroy(it); through(); return R {}; } } R r = call; dart_iterator_destroy(it); return r
    OP(reads, "dart_iterator_get_err", ITER(false, init<P>([&] (P* d) { return dart_iterator_get_err(d, it); }))) OP(reads, "dart_iterator_get", ITER(false, give<P>([&] { return dart_iterator_get(it); }))) OP(reads, "dart_iterator_get_err of a key", ITER(true, init<P>([&] (P* d) { return dart_iterator_get_err(d, it); })))
    OP(reads, "dart_iterator_next", ITER(false, mutate([&] { return dart_iterator_next(it); }))) OP(reads, "dart_iterator_copy_err", ITER(false, [&] { Mem<I> c; R x = mutate([&] { return dart_iterator_copy_err(c, it); }); if (!x.e) x.res = std::to_string(dart_iterator_done(c)); dart_iterator_destroy(c); return x; } ()))
    OP(reads, "dart_iterator_done_destroy", ITER(false, [&] { Mem<I> c; Mem<P> v; { Quiet q; dart_iterator_copy_err(c, it); dart_iterator_get_err(v, c); } R x; x.has_code = false; int done = dart_iterator_done_destroy(c, v); through(); if (!done) { dart_iterator_destroy(c); dart_destroy(v); } x.res = std::to_string(done); return x; } ()))
    OP(reads, "dart_for_each", R r; r.has_code = false; int n = 0; { Mem<P> v; dart_for_each(t, v.p) ++n; } through(); r.res = std::to_string(n); r.sentinel = "fewer"; return r)
  };
  return v;
}
std::vector<Item> const& typed_forms(bool buffer) {
  using H = dart_heap_t; using B = dart_buffer_t;
  static std::vector<Item> const h {
#define T static_cast<H*>(t)
    OP(reads, "dart_heap_lower_err", return init<B>([&] (B* d) { return dart_heap_lower_err(d, T); })) OP(reads, "dart_heap_finalize", return give<B>([&] { return dart_heap_finalize(T); })) OP(reads, "dart_heap_lower", return give<B>([&] { return dart_heap_lower(T); })) OP(reads, "dart_heap_finalize_err", return init<B>([&] (B* d) { return dart_heap_finalize_err(d, T); }))
#undef T
#define T static_cast<B*>(t)
  }, b {
    OP(reads, "dart_buffer_lift_err", return init<H>([&] (H* d) { return dart_buffer_lift_err(d, T); })) OP(reads, "dart_buffer_definalize", return give<H>([&] { return dart_buffer_definalize(T); })) OP(reads, "dart_buffer_lift", return give<H>([&] { return dart_buffer_lift(T); })) OP(reads, "dart_buffer_definalize_err", return init<H>([&] (H* d) { return dart_buffer_definalize_err(d, T); }))
    OP(reads, "dart_buffer_dup_bytes", size_t n = 0; auto* p = dart_buffer_dup_bytes(T, &n); through(); R r; r.has_code = false; r.res = p ? std::string((char const*) p, n) : "(null)"; r.sentinel = "(null)"; if (p) dart_aligned_free(p); return r)
#undef T
  };
  return buffer ? b : h;
}
#define TEXT "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"}],\"s\":\"x\",\"a key that does not fit in place anywhere at all\":null}"
template <class F, class N, dart_rc_type_t rc> std::vector<Item> const& inits() {
  static std::vector<Item> const v {
    OP(plain, "obj_init_rc_err", return init<N>([&] (N* d) { return F::obj_rc_err(d, rc); })) OP(plain, "arr_init_rc_err", return init<N>([&] (N* d) { return F::arr_rc_err(d, rc); })) OP(plain, "obj_init_rc", return give<N>([&] { return F::obj_rc(rc); })) OP(plain, "arr_init_rc", return give<N>([&] { return F::arr_rc(rc); }))
    OP(plain, "str_init_rc_err", return init<N>([&] (N* d) { return F::nstr_rc_err(d, rc, V); })) OP(plain, "str_init_rc_len_err", return init<N>([&] (N* d) { return F::nstr_rc_len_err(d, rc, V, 35); })) OP(plain, "str_init_rc", return give<N>([&] { return F::nstr_rc(rc, V); })) OP(plain, "int_init_rc_err", return init<N>([&] (N* d) { return F::nint_rc_err(d, rc, 5); }))
    OP(plain, "obj_init_va_rc_err", return init<N>([&] (N* d) { return F::obj_va_rc_err(d, rc, "sas,oi", "k", V, L, V, "o", "n", 5); })) OP(plain, "arr_init_va_rc_err", return init<N>([&] (N* d) { return F::arr_va_rc_err(d, rc, "sas,os,d", V, V, "n", V, 0.5); })) OP(plain, "obj_init_va_rc", return give<N>([&] { return F::obj_va_rc(rc, "so,", "k", V, L); })) OP(plain, "arr_init_va_rc", return give<N>([&] { return F::arr_va_rc(rc, "ssa", V, V); }))
    OP(plain, "malformed obj_init_va_rc_err", return init<N>([&] (N* d) { return F::obj_va_rc_err(d, rc, "sos!", "a", V, "b", "c", V, "d"); })) OP(plain, "malformed arr_init_va_rc_err", return init<N>([&] (N* d) { return F::arr_va_rc_err(d, rc, "sas?", V, V); }))
    OP(plain, "from_json_rc_err", return init<N>([&] (N* d) { return F::fj_rc_err(d, rc, TEXT); })) OP(plain, "from_json_len_rc_err", return init<N>([&] (N* d) { return F::fj_len_rc_err(d, rc, TEXT, sizeof(TEXT) - 1); })) OP(plain, "from_json_rc", return give<N>([&] { return F::fj_rc(rc, TEXT); })) OP(plain, "bad from_json_rc_err", return init<N>([&] (N* d) { return F::fj_rc_err(d, rc, "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"},"); }))
  };
  return v;
}
template <dart_rc_type_t rc> std::vector<Item> const& buffer_inits() {
  using N = dart_buffer_t; using F = Buf;
  static std::vector<Item> const v {
    OP(plain, "from_json_rc_err", return init<N>([&] (N* d) { return F::fj_rc_err(d, rc, TEXT); })) OP(plain, "from_json_len_rc_err", return init<N>([&] (N* d) { return F::fj_len_rc_err(d, rc, TEXT, sizeof(TEXT) - 1); })) OP(plain, "from_json_rc", return give<N>([&] { return F::fj_rc(rc, TEXT); })) OP(plain, "bad from_json_rc_err", return init<N>([&] (N* d) { return F::fj_rc_err(d, rc, "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"},"); }))
  };
  return v;
}

std::string sdig(void* h) { Val v = cread(h); return dump(v) + (dart_is_finalized(h) ? "F" : "D"); }
void forget() { std::string().swap(dart::detail::errmsg); } // so that reporting an error allocates
void drill(char const* family, Item const& it, int tk, Val const& tv, int ak, Val const& av) {
  bool ts = !(it.flags & reads) && flip(), as = (it.flags & arg) && flip(); std::string what = std::string(family) + it.name;
  MC_NOTE(what + " on " + kind_name(tk) + " " + dump(tv) + (ts ? " shared" : "") + " with " + kind_name(ak) + " " + dump(av) + (as ? " shared" : ""));
  struct World { Cell t, a, ts, as; }; auto fill = [&] (World& w) { start(w.t.p, tk, tv); start(w.a.p, ak, av); start(w.ts.p, tk, Val::null()); start(w.as.p, ak, Val::null()); auto dup = [] (Any* d, Any* s) { dart_destroy(d); if (dart_copy_err(d, s)) mc::fail("setup", "cannot copy a handle"); }; if (ts) dup(w.ts.p, w.t.p); if (as) dup(w.as.p, w.a.p); };
  struct Out { R r; std::string post, arg; };
  auto run = [&] (World& w, long long k) { Out o; forget(); mc::alloc_fail_at = k; o.r = it.op(w.t.p, w.a.p); mc::alloc_fail_at = -1; forget(); mc::step(); o.post = sdig(w.t.p); o.arg = sdig(w.a.p); return o; };
  Out ref; long long n; { World w; fill(w); ref = run(w, -1); } { World w; fill(w); forget(); auto before = mc::alloc_seen; it.op(w.t.p, w.a.p); n = seen - before; forget(); }
  auto id = mc::hash_str(what + kind_name(tk) + dump(tv) + kind_name(ak) + dump(av)); mc::state(id); if (!n) { MC_NOTE("no allocations"); return; }
  World w; fill(w); auto t0 = sdig(w.t.p), a0 = sdig(w.a.p), ts0 = sdig(w.ts.p), as0 = sdig(w.as.p); auto tc = dart_refcount(w.t.p), ac = dart_refcount(w.a.p);
  auto bystanders = [&] { MC_CHECK(sdig(w.ts.p) == ts0, "sharer changed: " + what, what + " changed a handle that shares the target"); MC_CHECK(sdig(w.as.p) == as0, "sharer changed: " + what, what + " changed a handle that shares the argument"); };
  for (int round = 0; round < (mc::thorough() ? 2 : 1); ++round) {
    long long k = choose((int) n); MC_NOTE("allocation " + std::to_string(k + 1) + " of " + std::to_string(n) + " fails"); mc::nontrivial(); mc::state(mc::mix(id, k + 1));
    Out o = run(w, k); bystanders();
    if (o.r.e == ref.r.e && o.r.res == ref.r.res && o.post == ref.post && o.arg == ref.arg) return; // did without
    if (o.r.has_code) MC_CHECK(o.r.e != DART_NO_ERROR, "not reported: " + what, what + " without memory returned no error and gave " + o.r.res + " leaving " + o.post + ", expected " + ref.r.res + " leaving " + ref.post);
    else if (o.r.sentinel != "fewer") MC_CHECK(o.r.res == o.r.sentinel, "wrong outcome: " + what, what + " without memory gave " + o.r.res + ", expected " + ref.r.res + " or " + o.r.sentinel);
    if (!(it.flags & takes)) {
      MC_CHECK(o.post == t0, "target changed: " + what, "after " + what + " ran out of memory the target is " + o.post + ", was " + t0); MC_CHECK(o.arg == a0, "argument changed: " + what, "after " + what + " ran out of memory the argument is " + o.arg + ", was " + a0);
      MC_CHECK((dart_refcount(w.t.p) == tc || (ts && dart_refcount(w.t.p) == 1)) && dart_refcount(w.a.p) == ac, "owners: " + what, "after " + what + " ran out of memory the numbers of owners changed");
    } else {
      if (it.flags & arg) { MC_CHECK(o.post == t0, "target changed: " + what, "after " + what + " ran out of memory the target is " + o.post + ", was " + t0); MC_CHECK(o.arg == a0 || o.arg.substr(0, 4) == "null", "argument changed: " + what, "after " + what + " ran out of memory the argument is " + o.arg); }
      return;
    }
  }
  Out again = run(w, -1); bystanders();
  MC_CHECK(again.r.e == ref.r.e && again.r.res == ref.r.res && again.post == ref.post && again.arg == ref.arg, "retry: " + what, what + " retried gave code " + std::to_string(again.r.e) + " and " + again.r.res + " leaving " + again.post + ", expected " + std::to_string(ref.r.e) + " and " + ref.r.res + " leaving " + ref.post);
}
std::vector<Val> const& targets() { static std::vector<Val> const v {Val::obj({{"a", Val::str(kLong)}, {"b", Val::arr({Val::integer(2), Val::obj({{kKey, Val::str("s")}})})}, {kKey, Val::decimal(0.5)}}), Val::arr({Val::str(kLong), Val::arr({Val::null(), Val::str(kLong)}), Val::integer(7)}), Val::obj(), Val::arr(), Val::str(kLong), Val::str("short"), Val::integer(5), Val::null()}; return v; }
std::vector<Val> const& args() { static std::vector<Val> const v {Val::str(kLong), Val::obj({{"z", Val::arr({Val::str(kLong)})}}), Val::integer(3), Val::arr({Val::integer(1)})}; return v; }
// The arguments' kinds that share the target's counter.
int arg_kind(int tk) { static int const base[] = {0, 2, 4, 6}; return base[choose(4)] + (tk & 1); }

MC_SPACE_X(c_mut, "C mutations", "33 mutating calls, generic on 8 kinds of handle and dart_heap_ with both counters, on 8 targets, with arguments of 4 kinds and 4 values, shared or not", 3, true) {
  if (flip()) { int tk = choose(2); auto& it = pick(mutations<Heap, dart_heap_t>()); bool a = it.flags & arg; Val const& tv = pick(targets()); drill("dart_heap_", it, tk, tv, tk, a ? pick(args()) : Val::null()); }
  else { int tk = choose(8); auto& it = pick(mutations<Gen, void>()); bool a = it.flags & arg; Val const& tv = pick(targets()); int ak = a ? arg_kind(tk) : tk; drill("dart_", it, tk, tv, ak, a ? pick(args()) : Val::null()); }
}
MC_SPACE_X(c_read, "C reading and conversion", "23 reads and 27 conversions, exports, imports and iterator calls, generic on 8 kinds of handle, and the typed functions, on 8 values", 3, true) {
  int fam = choose(4), tk; std::vector<Item> const* m; char const* f = "";
  switch (fam) { case 0: tk = choose(8); m = &reading<Gen, dart_packet_t, dart_packet_t>(); f = "dart_"; if (true) break; case 1: tk = choose(2); m = flip() ? &typed_forms(false) : (f = "dart_heap_", &reading<Heap, dart_heap_t, dart_heap_t>()); break; case 2: tk = 2 + choose(2); m = flip() ? &typed_forms(true) : (f = "dart_buffer_", &reading<Buf, dart_buffer_t, dart_buffer_t>()); break; default: tk = choose(8); m = &generic(); }
  auto& it = pick(*m); Val const& tv = pick(targets()); drill(f, it, tk, tv, tk, (it.flags & arg) ? tv : Val::null());
}
MC_SPACE_X(c_init, "C initialisers", "18 initialisers and parsers of each family with both counters", 2, true) {
  int f = choose(6); auto& m = f == 0 ? inits<Gen, dart_packet_t, DART_RC_SAFE>() : f == 1 ? inits<Gen, dart_packet_t, DART_RC_UNSAFE>() : f == 2 ? inits<Heap, dart_heap_t, DART_RC_SAFE>() : f == 3 ? inits<Heap, dart_heap_t, DART_RC_UNSAFE>() : f == 4 ? buffer_inits<DART_RC_SAFE>() : buffer_inits<DART_RC_UNSAFE>();
  static char const* names[] = {"dart_", "dart_", "dart_heap_", "dart_heap_", "dart_buffer_", "dart_buffer_"}; drill(names[f], pick(m), 0, Val::null(), 0, Val::null());
}
// The text handed out by to_json comes from malloc.
MC_SPACE_X(c_json, "C serialization", "dart_to_json on 8 kinds of handle, dart_heap_to_json and dart_buffer_to_json, when the text itself cannot be allocated", 2, true) {
  int tk = choose(8); bool own = flip(); Val const& v = targets()[choose(6)]; Cell c; start(c.p, tk, v); auto print = [&] { size_t n = 0; return !own ? dart_to_json(c.p, &n) : tk < 2 ? dart_heap_to_json(&c.p->h, &n) : tk < 4 ? dart_buffer_to_json(&c.p->b, &n) : dart_to_json(c.p, nullptr); };
  MC_NOTE(std::string("to_json of ") + kind_name(tk) + " " + dump(v)); char* j = print(); MC_CHECK(j, "to_json", "to_json failed"); std::string was = j; free(j); std::string before = sdig(c.p);
  forget(); dart_get_error(); ok_size = was.size() + 1; j = print(); ok_size = -1; forget(); mc::step(); mc::nontrivial(); mc::state(mc::hash_str(was + kind_name(tk)));
  if (j) { MC_CHECK(was == j, "to_json", "to_json without memory gives another text"); free(j); }
  MC_CHECK(sdig(c.p) == before, "to_json", "to_json without memory changed its handle"); j = print(); MC_CHECK(j && was == j, "to_json", "to_json retried gives another text"); free(j);
}
}
