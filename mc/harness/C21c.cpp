// C21: initialisers, variadic formats, JSON, iterators and corrupted handles.
#include "cabi.hpp"
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
namespace {
std::string const kLong = "a string that does not fit inside a handle";
template <class C> dart_err_t by_value(C* m, C const& v) { memcpy(m, &v, sizeof(C)); return DART_NO_ERROR; }
template <class T> struct Is { using type = T; };
// The kinds a family of functions can create.
template <class F> void created(Gen, bool unsafe, F&& f) { if (unsafe) f(Is<P2> {}); else f(Is<P1> {}); }
template <class F> void created(Heap, bool unsafe, F&& f) { if (unsafe) f(Is<H2> {}); else f(Is<H1> {}); }
template <class F> void created(Buf, bool unsafe, F&& f) { if (unsafe) f(Is<B2> {}); else f(Is<B1> {}); }
// Runs one of the four forms of an initialiser: plain, _err, _rc, _rc_err.
enum { kForms = 6 };
bool with_rc(int form) { return form >= 2; } bool unsafe_rc(int form) { return form >= 4; } bool value_form(int form) { return !(form & 1); }
template <class T> void init_done(typename Tr<T>::C* m, dart_err_t e, int form, Res const& want, Val const& v, std::string const& what, int fin = -1) {
  if (value_form(form)) { if (want.e) { MC_CHECK(dart_is_null(m) == 1, "not null after failure: " + what, what + " failed and returned something other than null"); MC_CHECK(want.msg == "*" || want.msg == dart_get_error(), "wrong message: " + what, what + " says \"" + dart_get_error() + "\""); dart_destroy(m); return; } MC_CHECK(silent(), "failed: " + what, what + " failed: " + dart_get_error()); }
  else { judge(e, want, what); if (want.e) { failed_init<T>(m, what); return; } }
  match<T>(m, v, what); if (fin >= 0) MC_CHECK(dart_is_finalized(m) == fin, "finalized: " + what, what + " gives the wrong finalized state");
  MC_CHECK(dart_destroy(m) == DART_NO_ERROR, "destroy", "cannot destroy the result of " + what);
}
#define FORM(N, ...) [&] { dart_rc_type_t rc = unsafe_rc(form) ? DART_RC_UNSAFE : DART_RC_SAFE; (void) rc; switch (form) { case 0: return by_value(m.p, A::N(__VA_ARGS__)); case 1: return A::N##_err(m.p, ##__VA_ARGS__); case 2: case 4: return by_value(m.p, A::N##_rc(rc, ##__VA_ARGS__)); default: return A::N##_rc_err(m.p, rc, ##__VA_ARGS__); } }()
#define FORM0(N) [&] { dart_rc_type_t rc = unsafe_rc(form) ? DART_RC_UNSAFE : DART_RC_SAFE; switch (form) { case 0: return by_value(m.p, A::N()); case 1: return A::N##_err(m.p); case 2: case 4: return by_value(m.p, A::N##_rc(rc)); default: return A::N##_rc_err(m.p, rc); } }()
#define FORML(N, ...) [&] { dart_rc_type_t rc = unsafe_rc(form) ? DART_RC_UNSAFE : DART_RC_SAFE; switch (form) { case 0: return by_value(m.p, A::N##_len(__VA_ARGS__)); case 1: return A::N##_len_err(m.p, __VA_ARGS__); case 2: case 4: return by_value(m.p, A::N##_rc_len(rc, __VA_ARGS__)); default: return A::N##_rc_len_err(m.p, rc, __VA_ARGS__); } }()
#define FORMJ(N, ...) [&] { dart_rc_type_t rc = unsafe_rc(form) ? DART_RC_UNSAFE : DART_RC_SAFE; switch (form) { case 0: return by_value(m.p, A::N##_len(__VA_ARGS__)); case 1: return A::N##_len_err(m.p, __VA_ARGS__); case 2: case 4: return by_value(m.p, A::N##_len_rc(rc, __VA_ARGS__)); default: return A::N##_len_rc_err(m.p, rc, __VA_ARGS__); } }()

template <class A> void init_one(A api, int form, int op, Val const& v) {
  created(api, unsafe_rc(form), [&] (auto is) { using T = typename decltype(is)::type; Mem<typename Tr<T>::C> m; dart_err_t e; MC_NOTE(std::string(A::name()) + " initialiser " + std::to_string(op) + " form " + std::to_string(form) + " of " + dump(v)); prep(); std::string what = A::name();
    switch (op) {
      case 0: e = FORM0(init); what += "init"; break; case 1: e = FORM0(obj); what += "obj_init"; break; case 2: e = FORM0(arr); what += "arr_init"; break; case 3: e = FORM0(nnull); what += "null_init"; break;
      case 4: e = FORM(nstr, v.s.c_str()); what += "str_init"; break; case 5: e = FORML(nstr, v.s.data(), v.s.size()); what += "str_init_len"; break; case 6: e = FORM(nint, v.i); what += "int_init"; break; case 7: e = FORM(ndcm, v.d); what += "dcm_init"; break; default: e = FORM(nbool, v.b ? 4 : 0); what += "bool_init"; break;
    }
    Val w = op == 0 ? Val::null() : op == 1 ? Val::obj() : op == 2 ? Val::arr() : op == 4 ? Val::str(v.s.c_str()) : v; init_done<T>(m, e, form, {}, w, what, 0); mc::state(mc::mix(hash(w), form * 16 + op)); mc::nontrivial(); });
}
MC_SPACE(inits, "initialisers", "every plain initialiser of dart_ and dart_heap_ in all forms (returning, _err, _rc with both counters) x 44 scalars") {
  bool heap = flip(); int form = choose(kForms), op = choose(9); Val::Kind k = op < 4 ? Val::Null : op < 6 ? Val::Str : op == 6 ? Val::Int : op == 7 ? Val::Dec : Val::Bool;
  std::vector<Val> vs; for (auto& v : scalars()) if (v.k == k) vs.push_back(v); if (k == Val::Str) { vs.push_back(Val::str(kLong)); vs.push_back(Val::str(rep('q', 300))); }
  Val v = pick(vs); if (heap) init_one(Heap {}, form, op, v); else init_one(Gen {}, form, op, v);
}

// Variadic initialisers. Fixed number of integer and floating registers and slots on x86-64: the callee takes
// what it needs from each class in order, so one call passes any sequence of arguments.
struct Args { int64_t g[16]; double d[8]; int ng = 0, nd = 0; };
struct Parser {
  std::vector<std::string> const& toks; Args& a; size_t at = 0; bool contested = false, invalid = false; int keyno = 0, strno = 0, num = 0;
  static char const* key(int n) { static char const* k[] = {"b", "a", "", "cc", "b", "d", "e", "f", "g", "h"}; return k[n % 10]; }
  static char const* text(int n) { static char const* k[] = {"", "a string that does not fit inside a handle", "x"}; return k[n % 3]; }
  int64_t& g() { if (a.ng >= 16) abort(); return a.g[a.ng++]; }
  Val value() {
    std::string const& t = toks[at++];
    if (t == "o") { Val r = Val::obj(); pairs(r); return r; } if (t == "a") { Val r = Val::arr(); vals(r); return r; }
    if (t == "s") { auto* s = text(strno++); g() = (int64_t) s; return Val::str(s); }
    if (t == "S") { auto* s = text(strno++); size_t n = strlen(s); n -= n / 2; g() = (int64_t) s; g() = (int64_t) n; return Val::str({s, n}); }
    ++num; bool e = num & 1;
    if (t == "i") { int v = e ? -5 : INT32_MAX; g() = v; return Val::integer(v); } if (t == "ui") { unsigned v = e ? 4000000000u : 3; g() = v; return Val::integer(v); }
    if (t == "l") { long v = e ? LONG_MIN : 1l << 40; g() = v; return Val::integer(v); } if (t == "ul") { unsigned long v = e ? (unsigned long) LONG_MAX : 1ul << 33; g() = (int64_t) v; return Val::integer((int64_t) v); }
    if (t == "d") { double v = e ? 0.1 : -2.5; a.d[a.nd++] = v; return Val::decimal(v); } if (t == "b") { int v = e ? 2 : 0; g() = v; return Val::boolean(v); } if (t == " " || t == "n") return Val::null();
    invalid = true; return Val::null();
  }
  bool more() { return !invalid && at < toks.size() && toks[at] != ","; }
  void close() { if (invalid) return; if (at < toks.size()) ++at; }
  void vals(Val& r) { while (more()) { Val v = value(); if (invalid) return; r.a.push_back(v); } close(); }
  void pairs(Val& r) { while (more()) { char const* k = key(keyno++); g() = (int64_t) k; Val v = value(); if (invalid) return; r.o[k] = v; } close(); }
};
template <class A> void call_va(A api, bool obj, int form, std::string const& fmt, Args const& a, bool contested, Res const& want, Val const& v) {
  created(api, unsafe_rc(form), [&] (auto is) { using T = typename decltype(is)::type; Mem<typename Tr<T>::C> m; dart_rc_type_t rc = unsafe_rc(form) ? DART_RC_UNSAFE : DART_RC_SAFE; dart_err_t e; char const* f = fmt.c_str(); prep();
#define G a.g[0], a.g[1], a.g[2], a.g[3], a.g[4], a.g[5], a.g[6], a.g[7], a.g[8], a.g[9], a.g[10], a.g[11], a.g[12], a.g[13], a.g[14], a.g[15], a.d[0], a.d[1], a.d[2], a.d[3], a.d[4], a.d[5], a.d[6], a.d[7]
    if (obj) switch (form) { case 0: e = by_value(m.p, A::obj_va(f, G)); break; case 1: e = A::obj_va_err((typename Tr<T>::C*) m.p, f, G); break; case 2: case 4: e = by_value(m.p, A::obj_va_rc(rc, f, G)); break; default: e = A::obj_va_rc_err((typename Tr<T>::C*) m.p, rc, f, G); }
    else switch (form) { case 0: e = by_value(m.p, A::arr_va(f, G)); break; case 1: e = A::arr_va_err((typename Tr<T>::C*) m.p, f, G); break; case 2: case 4: e = by_value(m.p, A::arr_va_rc(rc, f, G)); break; default: e = A::arr_va_rc_err((typename Tr<T>::C*) m.p, rc, f, G); }
#undef G
    std::string what = std::string(A::name()) + (obj ? "obj_init_va" : "arr_init_va"); if (contested) { cread(m); MC_CHECK(dart_destroy(m) == DART_NO_ERROR, "destroy", "not destroyable: " + what); return; }
    init_done<T>(m, e, form, want, v, what, 0); });
}
MC_SPACE_X(variadic, "variadic initialisers", "obj_init_va and arr_init_va of dart_ and dart_heap_ in all forms, on every format of up to 3 (thorough: 4) of the 15 specifiers o a s S i ui l ul d b n ' ' , x ux: value, or a logic error for an unknown specifier", 3, true) {
  static std::vector<std::string> const alpha {"", "o", "a", "s", "S", "i", "ui", "l", "ul", "d", "b", "n", " ", ",", "x", "ux"}; std::vector<std::string> toks; std::string fmt; bool obj = flip(); int n = mc::thorough() ? 4 : 3;
  for (int d = 0; d < n; ++d) { auto& t = pick(alpha); if (t.empty()) break; toks.push_back(t); fmt += t; }
  bool heap = flip(); int form = choose(kForms); Args a; for (auto& x : a.g) x = 0x5555555555555555; for (auto& x : a.d) x = 1e99; Parser p {toks, a}; Val v = obj ? Val::obj() : Val::arr(); 
  // Spellings with a comma at the top level stop the documented grammar.
  int depth = 0; bool contested = false; for (auto& t : toks) { if (t == "o" || t == "a") ++depth; if (t == "," && --depth < 0) contested = true; if (t == "x" || t == "ux") break; }
  if (obj) p.pairs(v); else p.vals(v);
  for (size_t x = p.at; x < toks.size(); ++x) contested = contested || !p.invalid;
  MC_NOTE("format \"" + fmt + "\" form " + std::to_string(form)); Res want; if (p.invalid) want = {DART_LOGIC_ERROR, "invalid varargs character"};
  if (heap) call_va(Heap {}, obj, form, fmt, a, contested, want, v); else call_va(Gen {}, obj, form, fmt, a, contested, want, v); mc::state(mc::hash_str(fmt)); mc::nontrivial();
}
MC_SPACE(va_long, "long variadic calls", "formats of repeated and nested specifiers that use up the argument registers, all forms") {
  static std::vector<std::vector<std::string>> const fs {{"s", "s", "s", "s", "s", "s", "s"}, {"d", "i", "d", "i", "d", "i", "d", "i"}, {"S", "S", "S", "S"}, {"o", "s", "i", ",", "d", "a", "d", "d", "b", ",", "s"}, {"a", "a", "a", "i", ",", ",", ",", "i"}, {"o", "o", "o", "i", ",", "i", ",", "i", ",", "i"}, {"a", "o", "s", "a", "d", ",", ",", "ui", ",", "l", "n", "ul"}, {"d", "d", "d", "d", "d", "d", "d", "d"}, {"a", ",", "o", ",", "a"}, {"i", "o", "a", "s"}};
  auto& toks = pick(fs); bool obj = flip(), heap = flip(); int form = choose(kForms); std::string fmt; for (auto& t : toks) fmt += t; Args a; Parser p {toks, a}; Val v = obj ? Val::obj() : Val::arr(); if (obj) p.pairs(v); else p.vals(v);
  MC_NOTE("format \"" + fmt + "\" form " + std::to_string(form)); if (heap) call_va(Heap {}, obj, form, fmt, a, false, {}, v); else call_va(Gen {}, obj, form, fmt, a, false, {}, v); mc::state(mc::hash_str(fmt)); mc::nontrivial();
}

// JSON.
template <class A> void json_one(A api, int form, bool len, std::string const& text) {
  created(api, unsafe_rc(form), [&] (auto is) { using T = typename decltype(is)::type; Mem<typename Tr<T>::C> m; dart_err_t e; T t; std::string seen = len ? text : std::string(text.c_str()); Res want = outcome([&] { t = T::from_json(sv(seen)); }); prep();
    // Exactly sized text: reads past its end are seen.
    std::vector<char> exact(text.begin(), text.end()); exact.shrink_to_fit(); if (len) e = FORMJ(fj, exact.data(), exact.size()); else { exact.push_back(0); exact.shrink_to_fit(); e = FORM(fj, exact.data()); }
    init_done<T>(m, e, form, want, want.e ? Val::null() : read(t), std::string(A::name()) + "from_json", want.e ? -1 : t.is_finalized()); });
}
void json_text(std::string const& text) {
  int fam = choose(3), form = choose(kForms); bool len = flip(); MC_NOTE("text " + mc::show(text) + " form " + std::to_string(form)); if (fam == 0) json_one(Gen {}, form, len, text); else if (fam == 1) json_one(Heap {}, form, len, text); else json_one(Buf {}, form, len, text); mc::state(mc::hash_str(text)); mc::nontrivial();
}
MC_SPACE(json_short, "JSON, short", "from_json of dart_, dart_heap_ and dart_buffer_ in all 12 forms on every text of up to 3 (thorough: 4) of 10 tokens, next to the C++ parser") {
  static std::vector<std::string> const alpha {"", "{", "}", "[", "]", "\"a\"", ":", ",", "1", "null", "x"}; std::string s; int n = mc::thorough() ? 4 : 3; for (int d = 0; d < n; ++d) { auto& t = pick(alpha); if (t.empty()) break; s += t; } json_text(s);
}
MC_SPACE(json_doc, "JSON, documents", "the same on 14 documents, each also cut at every byte") {
  static std::vector<std::string> const docs {"{\"a\":1,\"b\":[true,null,1.5],\"c\":{\"d\":\"e\"}}", "{}", "[]", " {\"k\" : \"v\\u0041\\n\" } ", "{\"a\":-9223372036854775808,\"b\":9223372036854775807}", "{\"dup\":1,\"dup\":2}", "{\"a\":[[[[{}]]]]}", "[1,\"x\",{\"y\":false}]", "{\"\":\"\"}", "{\"a\":1e3,\"b\":0.1,\"c\":-0}", "nope", "{\"a\":tru}", "{\"a\":\"\\ud83d\\ude00\"}", "\"scalar\""};
  std::string const& d = pick(docs); size_t cut = choose((int) d.size() + 1); json_text(d.substr(0, cut));
}

// Iterators.
std::vector<Val> const& few() {
  static std::vector<Val> v {Val::null(), Val::integer(7), Val::str(kLong), Val::arr(), Val::arr({Val::integer(7)}), Val::arr({Val::str(kLong), Val::obj({{"x", Val::integer(1)}}), Val::null()}), Val::obj(), Val::obj({{"a", Val::integer(7)}}), Val::obj({{"a", Val::arr({Val::decimal(0.5)})}, {"", Val::str(kLong)}, {"long key that does not fit inside", Val::obj()}})};
  return v;
}
struct It { Mem<dart_iterator_t> m; size_t at; bool live = true; It() : at(0) {} It(It&& o) : m(std::move(o.m)), at(o.at), live(o.live) { o.live = false; } It& operator =(It&& o) { std::swap(m.p, o.m.p); std::swap(at, o.at); std::swap(live, o.live); return *this; } ~It() { if (live) dart_iterator_destroy(m); } };
MC_SPACE(iterators, "iterators", "every sequence of 4 (thorough: 5) of next, get (both forms), done, copy, move, done_destroy and re-initialisation on value and key iterators over 8 kinds of handle x 9 values, next to the model's sequence of elements; the iterators survive the handle where they own it") {
  int k = choose(kKinds); Val const& v = pick(few()); bool keys = flip();
  with_kind(k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type; using P = typename Tr<T>::P; T t = make<T>(v, fin); Hd<T> h(t); std::vector<Val> seq; MC_NOTE(std::string(keys ? "key" : "value") + " iterator over " + kind_name(k) + " " + dump(v));
    Res want = keys ? outcome([&] { (void) t.key_begin(); }) : outcome([&] { (void) t.begin(); }); if (!want.e) { if (v.k == Val::Arr) seq = v.a; else for (auto& f : v.o) seq.push_back(keys ? Val::str(f.first) : f.second); } else MC_CHECK(keys ? v.k != Val::Obj : !v.aggregate(), "iterate", "C++ refuses to iterate " + dump(v));
    auto init = [&] (It& i) { prep(); judge(keys ? dart_iterator_init_key_from_err(i.m, *h) : dart_iterator_init_from_err(i.m, *h), want, keys ? "dart_iterator_init_key_from_err" : "dart_iterator_init_from_err"); i.at = 0; };
    It it; init(it); int n = mc::thorough() ? 5 : 4; bool gone = false;
    for (int d = 0; d < n && !gone; ++d) {
      int op = choose(8); mc::step(); MC_NOTE("iterator operation " + std::to_string(op) + " at " + std::to_string(it.at)); bool end = it.at >= seq.size();
      auto check_get = [&] (dart_packet_t* m, dart_err_t e, bool val, std::string const& what) {
        if (end) { if (!val) { judge(e, {DART_RUNTIME_ERROR, "dart_iterator has been exhausted"}, what); failed_init<P>(m, what); } else { MC_CHECK(dart_is_null(m), "exhausted: " + what, what + " past the end is not null"); dart_destroy(m); } }
        else { if (!val) judge(e, {}, what); match<P>(m, seq[it.at], what); dart_destroy(m); } };
      switch (op) {
        case 0: case 1: { prep(); MC_CHECK(dart_iterator_next(it.m) == DART_NO_ERROR, "next", "dart_iterator_next failed"); if (!end) ++it.at; if (op == 0) break; }
        // fallthrough: next and then read
        case 2: { end = it.at >= seq.size(); Mem<dart_packet_t> m; prep(); dart_err_t e = dart_iterator_get_err(m, it.m); check_get(m, e, false, "dart_iterator_get_err"); break; }
        case 3: { Mem<dart_packet_t> m; prep(); by_value(m.p, dart_iterator_get(it.m)); check_get(m, {}, true, "dart_iterator_get"); break; }
        case 4: { It c; prep(); judge(dart_iterator_copy_err(c.m, it.m), {}, "dart_iterator_copy_err"); c.at = it.at; if (flip()) { dart_iterator_next(it.m); it = std::move(c); } else { dart_iterator_next(c.m); } break; }
        case 5: { It c; prep(); judge(dart_iterator_move_err(c.m, it.m), {}, "dart_iterator_move_err"); c.at = it.at; std::swap(c, it); break; }
        case 6: { It c; init(c); it = std::move(c); break; }
        default: { Mem<dart_packet_t> m; bool with = flip(); if (with) dart_init_err(m); int g = dart_iterator_done_destroy(it.m, with ? (dart_packet_t*) m : nullptr); MC_CHECK(g == (int) end, "done_destroy", "dart_iterator_done_destroy is " + std::to_string(g)); if (g) { it.live = false; gone = true; } else if (with) dart_destroy(m); break; }
      }
      if (!gone) { int g = dart_iterator_done(it.m); MC_CHECK(g == (int) (it.at >= seq.size()), "done", "dart_iterator_done is " + std::to_string(g) + " at " + std::to_string(it.at) + " of " + std::to_string(seq.size())); }
      mc::state(mc::mix(hash(v), it.at * 64 + k * 2 + keys)); }
    match(h, t, "the handle that was iterated"); mc::nontrivial(); });
}
MC_SPACE(for_each, "for each", "dart_for_each and dart_for_each_key over 8 kinds of handle x 9 values, leaving the loop at every point, nested") {
  int k = choose(kKinds); Val const& v = pick(few()); bool keys = flip(); int stop = choose(5);
  with_kind(k, [&] (auto tg, bool fin) { using T = typename decltype(tg)::type; T t = make<T>(v, fin); Hd<T> h(t); std::vector<Val> seq, got; MC_NOTE(std::string("for each ") + (keys ? "key" : "value") + " of " + kind_name(k) + " " + dump(v)); mc::step();
    if (v.k == Val::Arr && !keys) seq = v.a; if (v.k == Val::Obj) for (auto& f : v.o) seq.push_back(keys ? Val::str(f.first) : f.second);
    Mem<dart_packet_t> m, n; size_t inner = 0, want_inner = 0; int left = stop;
    // Leaving early by break is not offered by the macro; the loop runs to its end.
    if (keys) { dart_for_each_key(*h, (dart_packet_t*) m) { got.push_back(cread(m)); if (left-- > 0) { dart_for_each_key(*h, (dart_packet_t*) n) ++inner; want_inner += seq.size(); } } }
    else { dart_for_each(*h, (dart_packet_t*) m) { got.push_back(cread(m)); if (left-- > 0) { dart_for_each((dart_packet_t*) m, (dart_packet_t*) n) ++inner; auto& e = seq[got.size() - 1]; want_inner += e.aggregate() ? e.size() : 0; } } }
    MC_CHECK(got.size() == seq.size() && inner == want_inner, "for each", "the loop ran " + std::to_string(got.size()) + " times, expected " + std::to_string(seq.size())); for (size_t x = 0; x < seq.size(); ++x) MC_CHECK(same(got[x], seq[x]), "for each", "element " + std::to_string(x) + " is " + dump(got[x]));
    match(h, t, "the handle that was iterated"); mc::state(mc::mix(hash(v), k * 2 + keys)); mc::nontrivial(); });
}
MC_SPACE(iter_default, "default iterator", "operations on a default initialised iterator and copies and moves of it") {
  Mem<dart_iterator_t> it; dart_iterator_init_err(it); int d = 3;
  while (d--) { int op = choose(5); mc::step(); switch (op) { case 0: MC_CHECK(dart_iterator_done(it) == 1, "done", "a default iterator is not done"); break; case 1: dart_iterator_next(it); break; case 2: { Mem<dart_packet_t> m; prep(); judge(dart_iterator_get_err(m, it), {DART_RUNTIME_ERROR, "dart_iterator has been exhausted"}, "dart_iterator_get_err"); failed_init<P1>(m, "dart_iterator_get_err"); break; } case 3: { Mem<dart_iterator_t> c; judge(dart_iterator_copy_err(c, it), {}, "copy"); dart_iterator_destroy(it); std::swap(c.p, it.p); break; } default: { Mem<dart_iterator_t> c; judge(dart_iterator_move_err(c, it), {}, "move"); dart_iterator_destroy(it); std::swap(c.p, it.p); } } mc::state(op); }
  dart_iterator_destroy(it); mc::nontrivial();
}

// Corrupted or mismatched handles are refused, with an explanation, and never touched.
void refuse(dart_err_t e, char const* what) { judge(e, client(), what); }
void sentinel(bool ok, char const* what) { MC_CHECK(ok, std::string("sentinel: ") + what, std::string(what) + " on a corrupted handle gives a value"); MC_CHECK(reported(what), std::string("no message: ") + what, std::string(what) + " on a corrupted handle reports nothing"); }
MC_SPACE(corrupt, "corrupted handles", "every dart_ function and every family's mutators and readers on handles whose type or counter tag is out of range") {
  static int const bad[] = {0, 3}; int fam = choose(3), op = choose(64), which = choose(2), b = pick(bad); int p = fam == 0 ? (which ? DART_PACKET : 0) : fam == 1 ? DART_HEAP : DART_BUFFER, r = fam == 0 && !which ? DART_RC_SAFE : b; if (fam && which) mc::prune();
  Mem<dart_packet_t> m; Mem<dart_heap_t> hp; Mem<dart_buffer_t> bf; dart_type_id_t id {(dart_packet_type_t) p, (dart_rc_type_t) r}; m->rtti = hp->rtti = bf->rtti = id; MC_NOTE("tags " + std::to_string(p) + "/" + std::to_string(r) + " function " + std::to_string(op)); size_t n = 1; int64_t i = 0; double d = 0; int bo = 0; Mem<dart_iterator_t> it, it2; it->rtti = id;
  Hd<P1> obj(build<P1>(Val::obj({{"a", Val::integer(1)}}))), arr(build<P1>(Val::arr({Val::integer(1)}))); Hd<H1> hobj(build<H1>(Val::obj({{"a", Val::integer(1)}}))), harr(build<H1>(Val::arr({Val::integer(1)}))); Hd<B1> buf(make<B1>(Val::obj({{"a", Val::integer(1)}}), true)); prep();
#define R(N, e) case N: refuse(e, #e); break;
#define S(N, e) case N: sentinel(e, #e); break;
  if (fam == 0) { dart_packet_t* x = m; Mem<dart_packet_t> out; Mem<dart_heap_t> oh; Mem<dart_buffer_t> ob; switch (op) {
    R(0, dart_obj_insert_int(x, "a", 1)) R(1, dart_obj_set_str(x, "a", "b")) R(2, dart_obj_insert_null(x, "a")) R(3, dart_obj_set_dcm(x, "a", 1)) R(4, dart_obj_insert_bool(x, "a", 1)) R(5, dart_obj_erase(x, "a")) R(6, dart_obj_clear(x)) R(7, dart_arr_insert_int(x, 0, 1)) R(8, dart_arr_set_str(x, 0, "b")) R(9, dart_arr_erase(x, 0)) R(10, dart_arr_clear(x)) R(11, dart_arr_resize(x, 1)) R(12, dart_arr_reserve(x, 1))
    R(13, dart_obj_insert_dart(x, "a", *obj)) R(14, dart_obj_insert_dart(*obj, "a", x)) R(15, dart_obj_insert_take_dart(*obj, "a", x)) R(16, dart_obj_set_dart(*obj, "a", x)) R(17, dart_obj_set_take_dart(*obj, "a", x)) R(18, dart_arr_insert_dart(*arr, 0, x)) R(19, dart_arr_insert_take_dart(*arr, 0, x)) R(20, dart_arr_set_dart(*arr, 0, x)) R(21, dart_arr_set_take_dart(*arr, 0, x))
    R(22, dart_int_get_err(x, &i)) R(23, dart_dcm_get_err(x, &d)) R(24, dart_bool_get_err(x, &bo)) R(25, dart_destroy(x)) R(26, dart_copy_err(out, x)) R(27, dart_move_err(out, x)) R(28, dart_obj_get_err(out, x, "a")) R(29, dart_arr_get_err(out, x, 0)) R(30, dart_to_heap_err(oh, x)) R(31, dart_to_buffer_err(ob, x)) R(32, dart_lower_err(out, x)) R(33, dart_lift_err(out, x)) R(34, dart_iterator_init_from_err(it, x)) R(35, dart_iterator_init_key_from_err(it, x))
    S(36, dart_obj_has_key(x, "a") == 0) S(37, !dart_str_get(x)) S(38, dart_int_get(x) == 0) S(39, std::isnan(dart_dcm_get(x))) S(40, dart_bool_get(x) == 0) S(41, dart_size(x) == (size_t) DART_FAILURE) S(42, dart_equal(x, *obj) == 0) S(43, dart_equal(*obj, x) == 0) S(44, dart_is_obj(x) == 0) S(45, dart_is_null(x) == 0) S(46, dart_is_finalized(x) == 0) S(47, dart_get_type(x) == DART_INVALID) S(48, dart_refcount(x) == (size_t) DART_FAILURE) S(49, !dart_to_json(x, &n)) S(50, !dart_get_bytes(x, &n)) S(51, !dart_dup_bytes(x, &n)) S(52, dart_is_arr(x) == 0) S(53, dart_is_str(x) == 0)
    R(54, dart_iterator_next(it)) S(55, dart_iterator_done(it) == 1) R(56, dart_iterator_destroy(it)) R(57, dart_iterator_get_err(out, it)) R(58, dart_iterator_copy_err(it2, it)) case 59: { auto v = dart_copy(x); sentinel(dart_is_null(&v), "dart_copy"); dart_destroy(&v); break; } case 60: { auto v = dart_obj_get(x, "a"); sentinel(dart_is_null(&v), "dart_obj_get"); dart_destroy(&v); break; } case 61: { auto v = dart_lower(x); sentinel(dart_is_null(&v), "dart_lower"); dart_destroy(&v); break; }
    default: { if (!which) mc::prune(); Mem<dart_packet_t> o2; switch (op - 62) { R(0, dart_obj_init_rc_err(o2, id.rc_id)) default: refuse(dart_from_json_len_rc_err(o2, id.rc_id, "{}", 2), "dart_from_json_len_rc_err"); } } } }
  else if (fam == 1) { dart_heap_t* x = hp; Mem<dart_heap_t> out; Mem<dart_buffer_t> ob; switch (op) {
    R(0, dart_heap_obj_insert_int(x, "a", 1)) R(1, dart_heap_obj_set_str(x, "a", "b")) R(2, dart_heap_obj_insert_null(x, "a")) R(3, dart_heap_obj_set_dcm(x, "a", 1)) R(4, dart_heap_obj_insert_bool(x, "a", 1)) R(5, dart_heap_obj_erase(x, "a")) R(6, dart_heap_obj_clear(x)) R(7, dart_heap_arr_insert_int(x, 0, 1)) R(8, dart_heap_arr_set_str(x, 0, "b")) R(9, dart_heap_arr_erase(x, 0)) R(10, dart_heap_arr_clear(x)) R(11, dart_heap_arr_resize(x, 1)) R(12, dart_heap_arr_reserve(x, 1))
    R(13, dart_heap_obj_insert_heap(x, "a", *hobj)) R(14, dart_heap_obj_insert_heap(*hobj, "a", x)) R(15, dart_heap_obj_insert_take_heap(*hobj, "a", x)) R(16, dart_heap_obj_set_heap(*hobj, "a", x)) R(17, dart_heap_obj_set_take_heap(*hobj, "a", x)) R(18, dart_heap_arr_insert_heap(*harr, 0, x)) R(19, dart_heap_arr_insert_take_heap(*harr, 0, x)) R(20, dart_heap_arr_set_heap(*harr, 0, x)) R(21, dart_heap_arr_set_take_heap(*harr, 0, x))
    R(22, dart_heap_int_get_err(x, &i)) R(23, dart_heap_dcm_get_err(x, &d)) R(24, dart_heap_bool_get_err(x, &bo)) R(25, dart_heap_destroy(x)) R(26, dart_heap_copy_err(out, x)) R(27, dart_heap_move_err(out, x)) R(28, dart_heap_obj_get_err(out, x, "a")) R(29, dart_heap_arr_get_err(out, x, 0)) R(30, dart_heap_lower_err(ob, x)) S(31, dart_heap_obj_has_key(x, "a") == 0) S(32, !dart_heap_str_get(x)) S(33, dart_heap_int_get(x) == 0) S(34, std::isnan(dart_heap_dcm_get(x))) S(35, dart_heap_bool_get(x) == 0) S(36, dart_heap_size(x) == (size_t) DART_FAILURE) S(37, dart_heap_equal(x, *hobj) == 0) S(38, dart_heap_equal(*hobj, x) == 0) S(39, dart_heap_is_obj(x) == 0) S(40, dart_heap_get_type(x) == DART_INVALID) S(41, !dart_heap_to_json(x, &n)) R(42, dart_heap_init_rc_err(out, id.rc_id)) R(43, dart_heap_obj_init_rc_err(out, id.rc_id)) R(44, dart_heap_from_json_rc_err(out, id.rc_id, "{}")) R(45, dart_heap_str_init_rc_err(out, id.rc_id, "x"))
    default: mc::prune(); } }
  else { dart_buffer_t* x = bf; Mem<dart_buffer_t> out; Mem<dart_heap_t> oh; switch (op) {
    R(0, dart_buffer_int_get_err(x, &i)) R(1, dart_buffer_dcm_get_err(x, &d)) R(2, dart_buffer_bool_get_err(x, &bo)) R(3, dart_buffer_destroy(x)) R(4, dart_buffer_copy_err(out, x)) R(5, dart_buffer_move_err(out, x)) R(6, dart_buffer_obj_get_err(out, x, "a")) R(7, dart_buffer_arr_get_err(out, x, 0)) R(8, dart_buffer_lift_err(oh, x)) S(9, dart_buffer_obj_has_key(x, "a") == 0) S(10, !dart_buffer_str_get(x)) S(11, dart_buffer_int_get(x) == 0) S(12, std::isnan(dart_buffer_dcm_get(x))) S(13, dart_buffer_bool_get(x) == 0) S(14, dart_buffer_size(x) == (size_t) DART_FAILURE) S(15, dart_buffer_equal(x, *buf) == 0) S(16, dart_buffer_equal(*buf, x) == 0) S(17, dart_buffer_is_obj(x) == 0) S(18, dart_buffer_get_type(x) == DART_INVALID) S(19, !dart_buffer_to_json(x, &n)) S(20, !dart_buffer_get_bytes(x, &n)) S(21, !dart_buffer_dup_bytes(x, &n)) R(22, dart_buffer_init_rc_err(out, id.rc_id)) R(23, dart_buffer_from_json_rc_err(out, id.rc_id, "{}")) R(24, dart_buffer_from_bytes_rc_err(out, id.rc_id, "xxxxxxxx", 8))
    default: mc::prune(); } }
  match<P1>(*obj, Val::obj({{"a", Val::integer(1)}}), "bystander"); match<P1>(*arr, Val::arr({Val::integer(1)}), "bystander"); match<H1>(*hobj, Val::obj({{"a", Val::integer(1)}}), "bystander"); match<H1>(*harr, Val::arr({Val::integer(1)}), "bystander"); match<B1>(*buf, Val::obj({{"a", Val::integer(1)}}), "bystander"); mc::state(fam * 64 + op); mc::nontrivial();
}

// Every thread has a last error of its own. Two threads take turns, call by call, in every order.
struct Turn { std::mutex m; std::condition_variable c; std::function<void()> job; bool quit = false; std::thread t;
  Turn() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [&] { return job || quit; }); if (quit) return; job(); job = nullptr; c.notify_all(); } }) {}
  ~Turn() { { std::lock_guard<std::mutex> l(m); quit = true; } c.notify_all(); t.join(); }
  void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); c.notify_all(); c.wait(l, [&] { return !job; }); } };
MC_SPACE_X(per_thread, "errors per thread", "two threads, every sequence of 4 (thorough 6) turns, each one of: a call failing with one of 2 texts, a call that works; after every turn each thread's message is that of its own last failure", 2, true) {
  prep(); int n = mc::thorough() ? 6 : 4; std::string last[2], got[2]; dart_err_t e[2]; std::string hist;
  { Turn th[2];
    for (int k = 0; k < n; ++k) { int who = k ? choose(2) : 0, what = choose(3); hist += std::string(k ? ", " : "") + "thread " + std::to_string(who) + (what == 0 ? " reads a string as an integer" : what == 1 ? " parses broken JSON" : " makes a string");
      th[who].run([&] { dart_heap_t s; int64_t v; dart_heap_str_init_err(&s, "text"); if (what == 0) e[who] = dart_heap_int_get_err(&s, &v); else if (what == 1) { dart_heap_t j; e[who] = dart_heap_from_json_err(&j, "{\"a\":"); dart_heap_destroy(&j); } else e[who] = DART_NO_ERROR; dart_heap_destroy(&s); if (what < 2) last[who] = dart_get_error(); });
      mc::step(); MC_CHECK((e[who] != DART_NO_ERROR) == (what < 2), "code", "a call in a thread gives the wrong code; " + hist); if (what < 2) MC_CHECK(!last[who].empty(), "no message", "a call in a thread fails without a message; " + hist);
      for (int t = 0; t < 2; ++t) { th[t].run([&] { got[t] = dart_get_error(); }); MC_CHECK(got[t] == last[t], "another thread's message", "after " + hist + ": the message of thread " + std::to_string(t) + " is \"" + got[t] + "\", its own last failure said \"" + last[t] + "\""); } } }
  MC_CHECK(dart_get_error() == stale(), "another thread's message", "after " + hist + ": the main thread's own last failure is gone");
  MC_NOTE(hist); mc::nontrivial(); mc::state(mc::hash_str(last[0] + "|" + last[1]));
}
}
