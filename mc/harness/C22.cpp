// C22: histories of C calls, failing ones included, with every allocation accounted for on each execution.
#include "cabi.hpp"
namespace {
std::string const kLong = "a string that does not fit inside a handle";
union Any { dart_type_id_t id; dart_heap_t h; dart_buffer_t b; dart_packet_t p; };
template <class T> struct Box { T* p; Box() { void* m = nullptr; if (posix_memalign(&m, 16, sizeof(T))) abort(); memset(m, 0xbe, sizeof(T)); p = static_cast<T*>(m); } Box(Box const&) = delete; ~Box() { free(p); } operator T*() const { return p; } T* operator ->() const { return p; } };

struct World {
  Box<Any> cell[3]; Any* s[3] {cell[0], cell[1], cell[2]}; Val v[2]; // two live handles and a spare cell
  Box<dart_iterator_t> itcell[2]; dart_iterator_t *it = itcell[0], *it2 = itcell[1]; bool iter = false; int iter_src = 0; bool iter_owns = false; std::vector<Val> rest;
  char const* str = nullptr; std::string str_is; int str_of = 0; void const* bytes = nullptr; std::string bytes_is; int bytes_of = 0; void* own = nullptr; size_t own_n = 0; Val own_v;

  void drop_iter() { if (iter) { MC_CHECK(dart_iterator_destroy(it) == DART_NO_ERROR, "destroy", "cannot destroy an iterator"); iter = false; memset(it, 0xbe, sizeof *it); } }
  // Whatever was borrowed from a handle ends with the handle or with its next change.
  void ends(int x) { if (iter && iter_src == x && !iter_owns) drop_iter(); if (str && str_of == x) str = nullptr; if (bytes && bytes_of == x) bytes = nullptr; }
  void destroy(int x) { ends(x); MC_CHECK(dart_destroy(s[x]) == DART_NO_ERROR, "destroy", "a handle cannot be destroyed"); memset(s[x], 0xbe, sizeof(Any)); }
  // Replaces handle x by what `init` makes in the spare cell; the old one is destroyed afterwards.
  template <class F> bool put(int x, char const* what, F&& init) {
    prep(); dart_err_t e = init(s[2]); if (e) { MC_CHECK(reported(what), std::string("no message: ") + what, std::string(what) + " failed without a message"); MC_CHECK(dart_is_null(s[2]) == 1, std::string("failed: ") + what, std::string(what) + " failed and left something other than null"); }
    destroy(x); std::swap(s[x], s[2]); v[x] = cread(s[x]); return !e; }
  void swap_values(int x) { v[x] = cread(s[x]); }
  bool fin(int x) { return dart_is_finalized(s[x]); }
  bool obj(int x) { return v[x].k == Val::Obj; }
  void op(int x, int o) {
    int y = 1 - x; void *a = s[x], *b = s[y]; dart_rc_type_t rc = s[x]->id.rc_id, rcb = s[y]->id.rc_id; mc::step(); MC_NOTE("operation " + std::to_string(o) + " on handle " + std::to_string(x) + " " + dump(v[x]) + " other " + dump(v[y]));
    auto change = [&] (dart_err_t e) { if (e) { Val n = cread(a); MC_CHECK(same(n, v[x]), "failure", "a failed call changed its target to " + dump(n)); } v[x] = cread(a); };
    switch (o) {
      // Making values.
      case 0: put(x, "dart_obj_init_va", [&] (Any* m) { return dart_obj_init_va_rc_err(&m->p, rc, "sas,i", "a", kLong.c_str(), "b", "x", "c", 5); }); break;
      case 1: put(x, "malformed dart_obj_init_va", [&] (Any* m) { return dart_obj_init_va_rc_err(&m->p, rc, "sos!", "a", kLong.c_str(), "b", "c", kLong.c_str(), "d"); }); break;
      case 2: put(x, "malformed dart_heap_arr_init_va", [&] (Any* m) { return dart_heap_arr_init_va_rc_err(&m->h, rc, "sas?", kLong.c_str(), kLong.c_str()); }); break;
      case 3: put(x, "dart_from_json", [&] (Any* m) { return dart_from_json_rc_err(&m->p, rc, "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"}],\"s\":\"x\"}"); }); break;
      case 4: put(x, "bad dart_from_json", [&] (Any* m) { return dart_from_json_rc_err(&m->p, rc, "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"},"); }); break;
      case 5: put(x, "dart_heap_from_json", [&] (Any* m) { return dart_heap_from_json_rc_err(&m->h, rc, "[\"a string that does not fit inside a handle\",[2]]"); }); break;
      case 6: put(x, "bad dart_heap_from_json", [&] (Any* m) { return dart_heap_from_json_rc_err(&m->h, rc, "[\"a string that does not fit inside a handle\",[2"); }); break;
      case 7: put(x, "bad dart_buffer_from_json", [&] (Any* m) { return dart_buffer_from_json_rc_err(&m->b, rc, "{\"a\":\"a string that does not fit inside a handle\"]"); }); break;
      case 8: put(x, "dart_str_init", [&] (Any* m) { return dart_str_init_rc_err(&m->p, rc, kLong.c_str()); }); break;
      // Copies, moves and conversions of the other handle.
      case 9: put(x, "dart_copy_err", [&] (Any* m) { return dart_copy_err(m, b); }); break;
      case 10: { ends(y); put(x, "dart_move_err", [&] (Any* m) { return dart_move_err(m, b); }); v[y] = cread(b); MC_CHECK(v[y].k == Val::Null, "move", "a moved-from handle is not null"); break; }
      case 11: put(x, "dart_lower_err", [&] (Any* m) { return dart_lower_err(&m->p, b); }); break;
      case 12: put(x, "dart_lift_err", [&] (Any* m) { return dart_lift_err(&m->p, b); }); break;
      case 13: put(x, "dart_to_heap_err", [&] (Any* m) { return dart_to_heap_err(&m->h, b); }); break;
      case 14: put(x, "dart_to_buffer_err", [&] (Any* m) { return dart_to_buffer_err(&m->b, b); }); break;
      case 15: put(x, "dart_obj_get_err", [&] (Any* m) { return dart_obj_get_err(&m->p, b, "a"); }); break;
      case 16: put(x, "dart_arr_get_err", [&] (Any* m) { return dart_arr_get_err(&m->p, b, 0); }); break;
      case 17: put(x, "returned dart_obj_get", [&] (Any* m) { m->p = dart_obj_get(b, "a"); return DART_NO_ERROR; }); break;
      case 18: put(x, "returned dart_to_buffer", [&] (Any* m) { m->b = dart_to_buffer(b); return DART_NO_ERROR; }); break;
      // Changes, of which many fail depending on the kinds.
      case 19: ends(x); prep(); change(dart_obj_insert_dart(a, "n", b)); break;
      case 20: ends(x); ends(y); prep(); change(dart_obj_insert_take_dart(a, "n", b)); v[y] = cread(b); break;
      case 21: ends(x); prep(); change(dart_obj_set_dart(a, "a", b)); break;
      case 22: ends(x); prep(); change(dart_arr_insert_dart(a, 0, b)); break;
      case 23: ends(x); ends(y); prep(); change(dart_arr_insert_take_dart(a, 0, b)); v[y] = cread(b); break;
      case 24: ends(x); ends(y); prep(); change(dart_arr_set_take_dart(a, 0, b)); v[y] = cread(b); break;
      case 25: ends(x); prep(); change(dart_obj_insert_str(a, "s", kLong.c_str())); break;
      case 26: ends(x); prep(); change(dart_obj_erase(a, "a")); break;
      case 27: ends(x); prep(); change(dart_obj_clear(a)); break;
      case 28: ends(x); prep(); change(dart_arr_erase(a, 0)); break;
      case 29: ends(x); prep(); change(dart_arr_resize(a, 3)); break;
      case 30: ends(x); prep(); change(dart_obj_insert_dart(a, "self", a)); break;
      case 31: ends(x); prep(); change(dart_obj_set_str(a, "a", kLong.c_str())); break;
      // Data handed out.
      case 32: { size_t n = 0; char* j = dart_to_json(a, &n); if (j) { MC_CHECK(strlen(j) == n, "json", "wrong length"); free(j); } break; }
      case 33: { str = dart_str_get(a); str_of = x; if (str) str_is = str; break; }
      case 34: { size_t n = 0; bytes = dart_get_bytes(a, &n); bytes_of = x; if (bytes) bytes_is.assign((char const*) bytes, n); break; }
      case 35: { if (own) { put(x, "dart_take_bytes", [&] (Any* m) { void* q = own; own = nullptr; return dart_take_bytes_rc_err(&m->p, rc, q); }); MC_CHECK(same(v[x], own_v), "take bytes", "taken bytes read " + dump(v[x])); } else { own = dart_dup_bytes(a, &own_n); own_v = v[x]; if (own && v[x].k != Val::Obj) { dart_aligned_free(own); own = nullptr; } } break; }
      case 36: { if (fin(x) && obj(x)) put(y, "dart_from_bytes", [&] (Any* m) { size_t n = 0; auto* q = dart_get_bytes(a, &n); return dart_from_bytes_rc_err(&m->p, rcb, q, n); }); else mc::prune(); break; }
      // Iteration.
      case 37: case 38: { drop_iter(); bool keys = o == 38; prep(); dart_err_t e = keys ? dart_iterator_init_key_from_err(it, a) : dart_iterator_init_from_err(it, a); iter = true; iter_src = x; iter_owns = fin(x) || e; rest.clear(); if (!e) { if (v[x].k == Val::Arr) rest = v[x].a; else for (auto& f : v[x].o) rest.push_back(keys ? Val::str(f.first) : f.second); } break; }
      case 39: { if (!iter) mc::prune(); bool end = rest.empty(); Val w = end ? Val::null() : rest[0]; if (iter_src == x && !iter_owns) mc::prune(); put(x, "dart_iterator_get_err", [&] (Any* m) { return dart_iterator_get_err(&m->p, it); }); MC_CHECK(same(v[x], w), "iterator", "an iterator gives " + dump(v[x]) + ", expected " + dump(w)); break; }
      case 40: { if (!iter) mc::prune(); dart_iterator_next(it); if (!rest.empty()) rest.erase(rest.begin()); break; }
      case 41: { if (!iter) mc::prune(); prep(); judge(x ? dart_iterator_move_err(it2, it) : dart_iterator_copy_err(it2, it), {}, "copying an iterator"); dart_iterator_destroy(it); memset(it, 0xbe, sizeof *it); std::swap(it, it2); break; }
      default: { size_t n = 0; Box<Any> val; if (x) { dart_for_each_key(b, &val->p) ++n; } else { dart_for_each(b, &val->p) { Val e = cread(&val->p); (void) e; ++n; } } MC_CHECK(n == (v[y].k == Val::Obj || (v[y].k == Val::Arr && !x) ? v[y].size() : 0), "for each", "the loop ran " + std::to_string(n) + " times"); break; }
    }
  }
  void check() {
    for (int x = 0; x < 2; ++x) { Val n = cread(s[x]); MC_CHECK(same(n, v[x]), "another handle changed", "handle " + std::to_string(x) + " is " + dump(n) + ", expected " + dump(v[x])); }
    if (str) MC_CHECK(str_is == str, "borrowed string", "a borrowed string changed"); if (bytes) MC_CHECK(!memcmp(bytes, bytes_is.data(), bytes_is.size()), "borrowed bytes", "borrowed bytes changed");
    if (iter) MC_CHECK(dart_iterator_done(it) == (int) rest.empty(), "iterator", "an iterator is done too early or too late");
  }
  ~World() { if (iter) dart_iterator_destroy(it); dart_destroy(s[0]); dart_destroy(s[1]); if (own) dart_aligned_free(own); }
};
enum { kOps = 43 };
template <class T> void start(Any* m, Val const& v, bool fin) { m->id = {Tr<T>::p, Tr<T>::rc}; void* at = std::is_same<typename Tr<T>::C, dart_packet_t>::value ? (void*) &m->p.bytes : std::is_same<typename Tr<T>::C, dart_heap_t>::value ? (void*) &m->h.bytes : (void*) &m->b.bytes; new(at) T(make<T>(v, fin)); }
void lives(bool unsafe, int depth, int pair) {
  static Val const o = Val::obj({{"a", Val::arr({Val::str(kLong), Val::obj({{"x", Val::integer(1)}})})}, {"s", Val::str(kLong)}}), a = Val::arr({Val::str(kLong), Val::arr({Val::null()})});
  World w; int first = pair >= 0 ? pair / 3 : choose(4), second = pair >= 0 ? pair % 3 : choose(3);
  auto go = [&] (auto H, auto B, auto P) { using HT = typename decltype(H)::type; using BT = typename decltype(B)::type; using PT = typename decltype(P)::type;
    switch (first) { case 0: start<HT>(w.s[0], o, false); break; case 1: start<BT>(w.s[0], o, true); break; case 2: start<PT>(w.s[0], o, false); break; default: start<PT>(w.s[0], o, true); }
    w.v[0] = o; switch (second) { case 0: start<PT>(w.s[1], a, false); w.v[1] = a; break; case 1: start<BT>(w.s[1], Val::str(kLong), true); w.v[1] = Val::str(kLong); break; default: start<HT>(w.s[1], Val::null(), false); w.v[1] = Val::null(); } };
  if (unsafe) go(tag<H2> {}, tag<B2> {}, tag<P2> {}); else go(tag<H1> {}, tag<B1> {}, tag<P1> {});
  for (int d = 0; d < depth; ++d) { int c = choose(kOps * 2); w.op(c & 1, c >> 1); w.check(); mc::state(mc::mix(mc::mix(hash(w.v[0]), hash(w.v[1])), w.iter)); }
  mc::nontrivial();
}
#define CALLS "43 calls (initialisers good and malformed, JSON good and broken, copy, move, conversions, lookups, insertions by copy and by taking, erasure, borrowed strings and bytes, owned bytes, iterators, loops) on either of two handles"
MC_SPACE(life, "lifetimes", "every sequence of 2 (thorough: 3) of " CALLS " from 4 x 3 pairs of kinds; leaks and sanitizer reports on every execution") { lives(false, mc::thorough() ? 3 : 2, -1); }
MC_SPACE(deep, "longer lifetimes", "every sequence of 3 of the calls from a finalized packet and a dynamic array") { lives(false, 3, 9); }
MC_SPACE(ulife, "lifetimes, unsafe counter", "the same with the thread-unsafe counter, sequences of 2 (thorough: 3)") { lives(true, mc::thorough() ? 3 : 2, -1); }

// Failing and succeeding initialisers of every family, and nothing else.
template <class C> void finish(C* m, dart_err_t e, char const* what) { if (e) MC_CHECK(dart_is_null(m) == 1, std::string("failed: ") + what, std::string(what) + " failed and left something other than null"); MC_CHECK(dart_destroy(m) == DART_NO_ERROR, std::string("destroy: ") + what, std::string(what) + " left a handle that cannot be destroyed"); }
MC_SPACE_X(formats, "formats", "obj_init_va and arr_init_va of both families and counters over every format of up to 4 of s S d o a , and an unknown character", 3, true) {
  static std::string const alpha = "sSdoa,!"; std::string f; int n = mc::thorough() ? 5 : 4; for (int d = 0; d < n; ++d) { int c = choose((int) alpha.size() + 1); if (c == (int) alpha.size()) break; f += alpha[c]; }
  bool obj = flip(), heap = flip(); dart_rc_type_t rc = flip() ? DART_RC_UNSAFE : DART_RC_SAFE; std::string text = "a string that does not fit inside a handle"; // One argument class per register file on x86-64.
  int64_t g[15]; bool key = obj; std::vector<bool> in {obj}; int n_g = 0; auto put = [&] (int64_t x) { g[n_g++] = x; }; for (auto& x : g) x = (int64_t) text.c_str();
  for (char c : f) { key = in.back(); if (c == ',') { if (in.size() == 1) break; in.pop_back(); continue; } if (key) put((int64_t) text.c_str()); if (c == '!') break; if (c == 's') put((int64_t) text.c_str()); if (c == 'S') { put((int64_t) text.c_str()); put(30); } if (c == 'o') in.push_back(true); if (c == 'a') in.push_back(false); }
  MC_NOTE("format \"" + f + "\""); mc::step(); char const* fs = f.c_str(); dart_err_t e;
#define G g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], 1.5, 2.5, 3.5, 4.5, 5.5, 6.5
  if (heap) { Mem<dart_heap_t> m; e = obj ? dart_heap_obj_init_va_rc_err(m, rc, fs, G) : dart_heap_arr_init_va_rc_err(m, rc, fs, G); finish<dart_heap_t>(m, e, "dart_heap_*_init_va"); }
  else { Mem<dart_packet_t> m; e = obj ? dart_obj_init_va_rc_err(m, rc, fs, G) : dart_arr_init_va_rc_err(m, rc, fs, G); finish<dart_packet_t>(m, e, "dart_*_init_va"); }
#undef G
  mc::state(mc::hash_str(f)); mc::nontrivial();
}
MC_SPACE(texts, "JSON", "from_json of the three families and both counters on every text of up to 4 (thorough: 5) of 9 tokens, and documents cut at every byte; then lower, lift and print the result") {
  std::string s; if (flip()) { static std::vector<std::string> const alpha {"", "{", "}", "[", "]", "\"a string that does not fit inside a handle\"", ":", ",", "1", "x"}; int n = mc::thorough() ? 5 : 4; for (int d = 0; d < n; ++d) { auto& t = pick(alpha); if (t.empty()) break; s += t; } }
  else { static std::string const doc = "{\"a\":[1,{\"b\":\"a string that does not fit inside a handle\"}],\"c\":{\"d\":\"\\u0041\",\"d\":null},\"e\":[[],{}]}"; s = doc.substr(0, choose((int) doc.size() + 1)); }
  int fam = choose(3); dart_rc_type_t rc = flip() ? DART_RC_UNSAFE : DART_RC_SAFE; MC_NOTE("text " + mc::show(s)); mc::step(); dart_err_t e;
  auto more = [&] (void* h) { Mem<dart_packet_t> a, b; Mem<dart_heap_t> c; Mem<dart_buffer_t> d; finish<dart_packet_t>(a, dart_lower_err(a, h), "dart_lower_err"); finish<dart_packet_t>(b, dart_lift_err(b, h), "dart_lift_err"); finish<dart_heap_t>(c, dart_to_heap_err(c, h), "dart_to_heap_err"); finish<dart_buffer_t>(d, dart_to_buffer_err(d, h), "dart_to_buffer_err"); free(dart_to_json(h, nullptr)); };
  if (fam == 0) { Mem<dart_packet_t> m; e = dart_from_json_len_rc_err(m, rc, s.data(), s.size()); more(m); finish<dart_packet_t>(m, e, "dart_from_json"); } else if (fam == 1) { Mem<dart_heap_t> m; e = dart_heap_from_json_len_rc_err(m, rc, s.data(), s.size()); more(m); finish<dart_heap_t>(m, e, "dart_heap_from_json"); } else { Mem<dart_buffer_t> m; e = dart_buffer_from_json_len_rc_err(m, rc, s.data(), s.size()); more(m); finish<dart_buffer_t>(m, e, "dart_buffer_from_json"); }
  mc::state(mc::hash_str(s)); mc::nontrivial();
}
}
