// The C interface next to a C++ twin of every handle. Shared by C21 and C22.
#pragma once
#include "../model.hpp"
#include <dart/abi.h>
#include <dart/api_swap.h>
#include <stdlib.h>
using namespace mdl;
using mc::choose; using mc::pick; using mc::flip;
namespace {

using H1 = dart::heap; using H2 = dart::basic_heap<dart::unsafe_ptr>; using B1 = dart::buffer; using B2 = dart::basic_buffer<dart::unsafe_ptr>; using P1 = dart::packet; using P2 = dart::basic_packet<dart::unsafe_ptr>;
template <class T> struct Tr;
#define MC_TR(T, CT, pid, rcid, nm, HH, BB, PP) template <> struct Tr<T> { using C = CT; using H = HH; using B = BB; using P = PP; static constexpr dart_packet_type_t p = pid; static constexpr dart_rc_type_t rc = rcid; static char const* name() { return nm; } }
MC_TR(H1, dart_heap_t, DART_HEAP, DART_RC_SAFE, "heap", H1, B1, P1); MC_TR(H2, dart_heap_t, DART_HEAP, DART_RC_UNSAFE, "unsafe heap", H2, B2, P2);
MC_TR(B1, dart_buffer_t, DART_BUFFER, DART_RC_SAFE, "buffer", H1, B1, P1); MC_TR(B2, dart_buffer_t, DART_BUFFER, DART_RC_UNSAFE, "unsafe buffer", H2, B2, P2);
MC_TR(P1, dart_packet_t, DART_PACKET, DART_RC_SAFE, "packet", H1, B1, P1); MC_TR(P2, dart_packet_t, DART_PACKET, DART_RC_UNSAFE, "unsafe packet", H2, B2, P2);
template <class T> constexpr bool is_heap = Tr<T>::p == DART_HEAP;
template <class T> constexpr bool is_buffer = Tr<T>::p == DART_BUFFER;
template <class T> constexpr bool is_packet = Tr<T>::p == DART_PACKET;
template <class T> struct tag { using type = T; };

// Errors: code and message, as documented for the exceptions of the C++ interface.
struct Res { dart_err_t e = DART_NO_ERROR; std::string msg; };
template <class F> Res outcome(F&& f) {
  Res r; auto set = [&] (dart_err_t e, char const* m) { r.e = e; r.msg = m; };
  try { f(); } catch (dart::type_error const& x) { set(DART_TYPE_ERROR, x.what()); } catch (dart::state_error const& x) { set(DART_STATE_ERROR, x.what()); } catch (dart::parse_error const& x) { set(DART_PARSE_ERROR, x.what()); }
  catch (std::logic_error const& x) { set(DART_LOGIC_ERROR, x.what()); } catch (std::runtime_error const& x) { set(DART_RUNTIME_ERROR, x.what()); } catch (std::exception const&) { set(DART_UNKNOWN_ERROR, "*"); }
  return r;
}
char const* ename(int e) { static char const* n[] = {"no error", "type error", "logic error", "state error", "parse error", "runtime error", "client error", "unknown error"}; return e >= 0 && e < 8 ? n[e] : "an undocumented code"; }
// Each call is preceded by a failure with a text of its own, so that stale text is not mistaken for a report.
// (The text is only ever looked at through dart_get_error.)
std::string const& stale() {
  static std::string const text = [] { mc::NoFault quiet; auto seen = mc::alloc_seen; dart_iterator_t it; memset(&it, 0, sizeof it); it.rtti = {(dart_packet_type_t) 0, DART_RC_SAFE}; dart_iterator_next(&it); std::string t = dart_get_error(); mc::alloc_seen = seen; return t; }();
  return text;
}
void prep() { stale(); mc::NoFault quiet; auto seen = mc::alloc_seen; dart_iterator_t it; it.rtti = {(dart_packet_type_t) 0, DART_RC_SAFE}; dart_iterator_next(&it); mc::alloc_seen = seen; mc::step(); }
bool reported(std::string const& what) { std::string m = dart_get_error(); return !m.empty() && (m != stale() || what.find("iterator") != std::string::npos); }
bool silent() { std::string m = dart_get_error(); return m.empty() || m == stale(); }
void judge(dart_err_t got, Res const& want, std::string const& what) {
  if (got != want.e) mc::fail("wrong code: " + what, what + " returned " + ename(got) + " (\"" + dart_get_error() + "\"), expected " + ename(want.e) + (want.e ? " (\"" + want.msg + "\")" : ""));
  if (got) { std::string m = dart_get_error(); MC_CHECK(reported(what), "no message: " + what, what + " failed without a message"); if (want.msg != "*") MC_CHECK(m == want.msg, "wrong message: " + what, what + " says \"" + m + "\", expected \"" + want.msg + "\""); }
}
Res any_error(dart_err_t got) { return {got ? got : DART_CLIENT_ERROR, "*"}; }
Res client() { return {DART_CLIENT_ERROR, "*"}; }

// Exactly sized memory for a handle, so that writes past it are seen.
template <class C> struct Mem {
  C* p; Mem() { mc::NoFault quiet; auto seen = mc::alloc_seen; void* m = nullptr; if (posix_memalign(&m, 16, sizeof(C))) abort(); memset(m, 0xbe, sizeof(C)); p = static_cast<C*>(m); mc::alloc_seen = seen; }
  Mem(Mem const&) = delete; Mem(Mem&& o) : p(o.p) { o.p = nullptr; } Mem& operator =(Mem&& o) { std::swap(p, o.p); return *this; } ~Mem() { free(p); }
  operator C*() const { return p; } C* operator ->() const { return p; }
};
template <class T> T& cxx(typename Tr<T>::C* c) { return *reinterpret_cast<T*>(&c->bytes); }
// A live handle: destroyed once.
template <class T> struct Hd {
  using C = typename Tr<T>::C; Mem<C> m;
  explicit Hd(T const& v) { m->rtti = {Tr<T>::p, Tr<T>::rc}; new(&m->bytes) T(v); }
  struct adopt {}; Hd(adopt, Mem<C> x) : m(std::move(x)) {}
  Hd(Hd&& o) : m(std::move(o.m)) {} Hd& operator =(Hd&& o) { std::swap(m.p, o.m.p); return *this; }
  ~Hd() { if (m.p) dart_destroy(m.p); }
  C* operator *() const { return m.p; } T& v() const { return cxx<T>(m.p); }
};
template <class T> void typed(typename Tr<T>::C const* c, dart_packet_type_t p, std::string const& what) { MC_CHECK(c->rtti.p_id == p && c->rtti.rc_id == Tr<T>::rc, "handle type: " + what, what + " is tagged " + std::to_string((int) c->rtti.p_id) + "/" + std::to_string((int) c->rtti.rc_id)); }

// Reading through C only.
Val cread(void const* h) {
  dart_type_t t = dart_get_type(h); int flags = dart_is_obj(h) * 1 + dart_is_arr(h) * 2 + dart_is_str(h) * 4 + dart_is_int(h) * 8 + dart_is_dcm(h) * 16 + dart_is_bool(h) * 32 + dart_is_null(h) * 64;
  MC_CHECK(t >= DART_OBJECT && t <= DART_NULL && flags == 1 << (t - 1), "type predicates", "type " + std::to_string((int) t) + " with predicates " + std::to_string(flags));
  switch (t) {
    case DART_NULL: return Val::null();
    case DART_BOOLEAN: return Val::boolean(dart_bool_get(h) != 0);
    case DART_INTEGER: return Val::integer(dart_int_get(h));
    case DART_DECIMAL: return Val::decimal(dart_dcm_get(h));
    case DART_STRING: { size_t n = 0; auto* s = dart_str_get_len(h, &n); MC_CHECK(s && s[n] == 0, "string", "string is not terminated"); MC_CHECK(dart_str_get(h) == s, "string", "dart_str_get gives another pointer"); MC_CHECK(dart_size(h) == n, "size", "dart_size of a string is " + std::to_string(dart_size(h))); return Val::str({s, n}); }
    case DART_ARRAY: { Val r = Val::arr(); Mem<dart_iterator_t> it; MC_CHECK(!dart_iterator_init_from_err(it, h), "iteration", "cannot iterate an array"); size_t n = dart_size(h);
      while (!dart_iterator_done(it)) { Mem<dart_packet_t> x; MC_CHECK(!dart_iterator_get_err(x, it), "iteration", "cannot read an element"); r.a.push_back(cread(x)); dart_destroy(x); dart_iterator_next(it); }
      dart_iterator_destroy(it); MC_CHECK(n == r.a.size(), "size", "dart_size is " + std::to_string(n) + ", iteration gives " + std::to_string(r.a.size())); return r; }
    default: { Val r = Val::obj(); Mem<dart_iterator_t> it, kt; MC_CHECK(!dart_iterator_init_from_err(it, h) && !dart_iterator_init_key_from_err(kt, h), "iteration", "cannot iterate an object"); size_t n = dart_size(h), seen = 0; std::string prev;
      while (!dart_iterator_done(it)) { MC_CHECK(!dart_iterator_done(kt), "iteration", "fewer keys than values"); Mem<dart_packet_t> x, k; MC_CHECK(!dart_iterator_get_err(x, it) && !dart_iterator_get_err(k, kt), "iteration", "cannot read a field"); size_t l = 0; auto* s = dart_str_get_len(k, &l); MC_CHECK(s, "iteration", "key is not a string"); std::string ks(s, l);
        MC_CHECK(!seen || KeyLess {}(prev, ks), "iteration", "keys out of order"); prev = ks; ++seen; r.o[ks] = cread(x); dart_destroy(x); dart_destroy(k); dart_iterator_next(it); dart_iterator_next(kt); }
      MC_CHECK(dart_iterator_done(kt), "iteration", "more keys than values"); dart_iterator_destroy(it); dart_iterator_destroy(kt); MC_CHECK(n == seen, "size", "dart_size is " + std::to_string(n) + ", iteration gives " + std::to_string(seen)); return r; }
  }
}
template <class T> void match(typename Tr<T>::C* c, Val const& want, std::string const& what) {
  typed<T>(c, Tr<T>::p, what); Val a = cread(c); if (!same(a, want)) mc::fail("wrong value: " + what, what + " is " + dump(a) + ", expected " + dump(want));
  Val b = read(cxx<T>(c)); if (!same(b, want)) mc::fail("wrong value: " + what, what + " reads " + dump(b) + " through C++, expected " + dump(want));
}
template <class T> void match(Hd<T> const& h, T const& twin, std::string const& what) { match<T>(*h, read(twin), what); MC_CHECK(dart_is_finalized(*h) == (int) twin.is_finalized(), "finalized: " + what, what + " reports a different finalized state"); }
// A handle some initialiser just failed on: null, and destroyable.
template <class T> void failed_init(typename Tr<T>::C* c, std::string const& what) { typed<T>(c, Tr<T>::p, what); MC_CHECK(dart_is_null(c) == 1, "not null after failure: " + what, what + " failed and left something other than null"); MC_CHECK(dart_destroy(c) == DART_NO_ERROR, "not destroyable: " + what, what + " left a handle that cannot be destroyed"); }

// A value of kind T; finalized where the kind allows a choice. Finalized non-objects are taken out of an object.
template <class T> std::enable_if_t<is_heap<T>, T> make(Val const& v, bool) { return build<T>(v); }
template <class T> std::enable_if_t<is_buffer<T>, T> make(Val const& v, bool) { using H = typename Tr<T>::H; if (v.k == Val::Obj) return build<H>(v).finalize(); T b = build<H>(Val::obj({{"w", v}, {"zz", Val::integer(3)}})).finalize(); return b["w"]; }
template <class T> std::enable_if_t<is_packet<T>, T> make(Val const& v, bool fin) { if (fin) return T(make<typename Tr<T>::B>(v, true)); return build<T>(v); }
enum { kKinds = 8 };
// Calls f(tag<T>, finalized).
template <class F> void with_kind(int k, F&& f) {
  switch (k) { case 0: f(tag<H1> {}, false); break; case 1: f(tag<H2> {}, false); break; case 2: f(tag<B1> {}, true); break; case 3: f(tag<B2> {}, true); break; case 4: f(tag<P1> {}, false); break; case 5: f(tag<P2> {}, false); break; case 6: f(tag<P1> {}, true); break; default: f(tag<P2> {}, true); }
}
char const* kind_name(int k) { static char const* n[] = {"heap", "unsafe heap", "buffer", "unsafe buffer", "packet", "unsafe packet", "finalized packet", "finalized unsafe packet"}; return n[k]; }

// The two function families behind one set of names.
#define MC_F(mine, theirs) template <class... A> static auto mine(A&&... a) { return theirs(std::forward<A>(a)...); }
struct Gen {
  static constexpr bool generic = true; static char const* name() { return "dart_"; }
  MC_F(oi_val, dart_obj_insert_dart) MC_F(oi_val_len, dart_obj_insert_dart_len) MC_F(oi_take, dart_obj_insert_take_dart) MC_F(oi_take_len, dart_obj_insert_take_dart_len)
  MC_F(os_val, dart_obj_set_dart) MC_F(os_val_len, dart_obj_set_dart_len) MC_F(os_take, dart_obj_set_take_dart) MC_F(os_take_len, dart_obj_set_take_dart_len)
  MC_F(ai_val, dart_arr_insert_dart) MC_F(ai_take, dart_arr_insert_take_dart) MC_F(as_val, dart_arr_set_dart) MC_F(as_take, dart_arr_set_take_dart)
#define MC_SCALARS(pre) \
  MC_F(oi_str, pre##obj_insert_str) MC_F(oi_str_len, pre##obj_insert_str_len) MC_F(oi_int, pre##obj_insert_int) MC_F(oi_int_len, pre##obj_insert_int_len) MC_F(oi_dcm, pre##obj_insert_dcm) MC_F(oi_dcm_len, pre##obj_insert_dcm_len) MC_F(oi_bool, pre##obj_insert_bool) MC_F(oi_bool_len, pre##obj_insert_bool_len) MC_F(oi_null, pre##obj_insert_null) MC_F(oi_null_len, pre##obj_insert_null_len) \
  MC_F(os_str, pre##obj_set_str) MC_F(os_str_len, pre##obj_set_str_len) MC_F(os_int, pre##obj_set_int) MC_F(os_int_len, pre##obj_set_int_len) MC_F(os_dcm, pre##obj_set_dcm) MC_F(os_dcm_len, pre##obj_set_dcm_len) MC_F(os_bool, pre##obj_set_bool) MC_F(os_bool_len, pre##obj_set_bool_len) MC_F(os_null, pre##obj_set_null) MC_F(os_null_len, pre##obj_set_null_len) \
  MC_F(ai_str, pre##arr_insert_str) MC_F(ai_str_len, pre##arr_insert_str_len) MC_F(ai_int, pre##arr_insert_int) MC_F(ai_dcm, pre##arr_insert_dcm) MC_F(ai_bool, pre##arr_insert_bool) MC_F(ai_null, pre##arr_insert_null) \
  MC_F(as_str, pre##arr_set_str) MC_F(as_str_len, pre##arr_set_str_len) MC_F(as_int, pre##arr_set_int) MC_F(as_dcm, pre##arr_set_dcm) MC_F(as_bool, pre##arr_set_bool) MC_F(as_null, pre##arr_set_null) \
  MC_F(o_clear, pre##obj_clear) MC_F(a_clear, pre##arr_clear) MC_F(o_erase, pre##obj_erase) MC_F(o_erase_len, pre##obj_erase_len) MC_F(a_erase, pre##arr_erase) MC_F(a_resize, pre##arr_resize) MC_F(a_reserve, pre##arr_reserve)
#define MC_READS(pre) \
  MC_F(has, pre##obj_has_key) MC_F(has_len, pre##obj_has_key_len) MC_F(og, pre##obj_get) MC_F(og_err, pre##obj_get_err) MC_F(og_len, pre##obj_get_len) MC_F(og_len_err, pre##obj_get_len_err) MC_F(ag, pre##arr_get) MC_F(ag_err, pre##arr_get_err) \
  MC_F(str, pre##str_get) MC_F(str_len, pre##str_get_len) MC_F(integer, pre##int_get) MC_F(int_err, pre##int_get_err) MC_F(dcm, pre##dcm_get) MC_F(dcm_err, pre##dcm_get_err) MC_F(boolean, pre##bool_get) MC_F(bool_err, pre##bool_get_err) MC_F(size, pre##size) MC_F(equal, pre##equal) \
  MC_F(is_obj, pre##is_obj) MC_F(is_arr, pre##is_arr) MC_F(is_str, pre##is_str) MC_F(is_int, pre##is_int) MC_F(is_dcm, pre##is_dcm) MC_F(is_bool, pre##is_bool) MC_F(is_null, pre##is_null) MC_F(type, pre##get_type) MC_F(json, pre##to_json) \
  MC_F(copy, pre##copy) MC_F(copy_err, pre##copy_err) MC_F(move, pre##move) MC_F(move_err, pre##move_err) MC_F(destroy, pre##destroy) \
  MC_F(init, pre##init) MC_F(init_err, pre##init_err) MC_F(init_rc, pre##init_rc) MC_F(init_rc_err, pre##init_rc_err) \
  MC_F(fj, pre##from_json) MC_F(fj_err, pre##from_json_err) MC_F(fj_rc, pre##from_json_rc) MC_F(fj_rc_err, pre##from_json_rc_err) MC_F(fj_len, pre##from_json_len) MC_F(fj_len_err, pre##from_json_len_err) MC_F(fj_len_rc, pre##from_json_len_rc) MC_F(fj_len_rc_err, pre##from_json_len_rc_err)
#define MC_INITS(pre) \
  MC_F(obj, pre##obj_init) MC_F(obj_err, pre##obj_init_err) MC_F(obj_rc, pre##obj_init_rc) MC_F(obj_rc_err, pre##obj_init_rc_err) MC_F(arr, pre##arr_init) MC_F(arr_err, pre##arr_init_err) MC_F(arr_rc, pre##arr_init_rc) MC_F(arr_rc_err, pre##arr_init_rc_err) \
  MC_F(nstr, pre##str_init) MC_F(nstr_err, pre##str_init_err) MC_F(nstr_len, pre##str_init_len) MC_F(nstr_len_err, pre##str_init_len_err) MC_F(nstr_rc, pre##str_init_rc) MC_F(nstr_rc_err, pre##str_init_rc_err) MC_F(nstr_rc_len, pre##str_init_rc_len) MC_F(nstr_rc_len_err, pre##str_init_rc_len_err) \
  MC_F(nint, pre##int_init) MC_F(nint_err, pre##int_init_err) MC_F(nint_rc, pre##int_init_rc) MC_F(nint_rc_err, pre##int_init_rc_err) MC_F(ndcm, pre##dcm_init) MC_F(ndcm_err, pre##dcm_init_err) MC_F(ndcm_rc, pre##dcm_init_rc) MC_F(ndcm_rc_err, pre##dcm_init_rc_err) \
  MC_F(nbool, pre##bool_init) MC_F(nbool_err, pre##bool_init_err) MC_F(nbool_rc, pre##bool_init_rc) MC_F(nbool_rc_err, pre##bool_init_rc_err) MC_F(nnull, pre##null_init) MC_F(nnull_err, pre##null_init_err) MC_F(nnull_rc, pre##null_init_rc) MC_F(nnull_rc_err, pre##null_init_rc_err) \
  template <class... A> static auto obj_va(A... a) { return pre##obj_init_va(a...); } template <class... A> static auto obj_va_err(A... a) { return pre##obj_init_va_err(a...); } template <class... A> static auto obj_va_rc(A... a) { return pre##obj_init_va_rc(a...); } template <class... A> static auto obj_va_rc_err(A... a) { return pre##obj_init_va_rc_err(a...); } \
  template <class... A> static auto arr_va(A... a) { return pre##arr_init_va(a...); } template <class... A> static auto arr_va_err(A... a) { return pre##arr_init_va_err(a...); } template <class... A> static auto arr_va_rc(A... a) { return pre##arr_init_va_rc(a...); } template <class... A> static auto arr_va_rc_err(A... a) { return pre##arr_init_va_rc_err(a...); }
  MC_SCALARS(dart_) MC_READS(dart_) MC_INITS(dart_)
};
struct Heap {
  static constexpr bool generic = false; static char const* name() { return "dart_heap_"; }
  MC_F(oi_val, dart_heap_obj_insert_heap) MC_F(oi_val_len, dart_heap_obj_insert_heap_len) MC_F(oi_take, dart_heap_obj_insert_take_heap) MC_F(oi_take_len, dart_heap_obj_insert_take_heap_len)
  MC_F(os_val, dart_heap_obj_set_heap) MC_F(os_val_len, dart_heap_obj_set_heap_len) MC_F(os_take, dart_heap_obj_set_take_heap) MC_F(os_take_len, dart_heap_obj_set_take_heap_len)
  MC_F(ai_val, dart_heap_arr_insert_heap) MC_F(ai_take, dart_heap_arr_insert_take_heap) MC_F(as_val, dart_heap_arr_set_heap) MC_F(as_take, dart_heap_arr_set_take_heap)
  MC_SCALARS(dart_heap_) MC_READS(dart_heap_) MC_INITS(dart_heap_)
};
struct Buf { static constexpr bool generic = false; static char const* name() { return "dart_buffer_"; } MC_READS(dart_buffer_) };

}
