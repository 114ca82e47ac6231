// Typed objects and arrays forward every access and every change to the value they wrap.
#include "C19.hpp"
namespace {
template <class P> P make(Val const& v, bool f);
template <> dart::heap make(Val const& v, bool) { return build<dart::heap>(v); }
template <> dart::unsafe_heap make(Val const& v, bool) { return build<dart::unsafe_heap>(v); }
template <> dart::buffer make(Val const& v, bool root) { if (root && v.k == Val::Obj) return build<dart::heap>(v).finalize(); return fin<dart::buffer, dart::heap>(v); }
template <> dart::unsafe_buffer make(Val const& v, bool root) { if (root && v.k == Val::Obj) return build<dart::unsafe_heap>(v).finalize(); return fin<dart::unsafe_buffer, dart::unsafe_heap>(v); }
template <> dart::packet make(Val const& v, bool f) { if (f) return dart::packet(make<dart::buffer>(v, true)); return build<dart::packet>(v); }
template <> dart::unsafe_packet make(Val const& v, bool f) { if (f) return dart::unsafe_packet(make<dart::unsafe_buffer>(v, true)); return build<dart::unsafe_packet>(v); }

template <class P, class = decltype(std::declval<P const&>().get_type())> std::string dig(P const& p, int = 0) { return dump(read(p)) + (p.is_finalized() ? "F" : "D"); }
inline std::string dig(std::string const& s) { return s; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> dig(T v) { return std::to_string(v); }
template <class P> std::string dig(std::vector<P> const& c) { std::string o; for (auto& e : c) o += dig(e) + ";"; return o; }
inline std::string dig(gsl::span<gsl::byte const> s) { return std::string((char const*) s.data(), s.size()); }
template <class I> std::string walk(I a, I b) { std::string o; for (; a != b; ++a) o += dig(*a) + ";"; return o; }
template <class T> std::string walk2(T a, T b) { std::string o; auto k = std::get<0>(a); auto v = std::get<1>(a); for (; v != std::get<1>(b); ++k, ++v) o += dig(*k) + "=" + dig(*v) + ";"; o += k == std::get<0>(b) ? "." : "?"; return o; }
// A position returned by a change, as its distance from the end.
template <class X, class I> std::string place(X& x, I i) { int n = 0; for (auto it = x.begin(); it != x.end(); ++it, ++n) if (it == i) return std::to_string(n) + " " + dig(*i); return i == x.end() ? "end" : "?"; }

template <class F, class X> std::string result(F&& f, X& x) { std::string r; Err e = attempt([&] { r = f(x); }); return e == Err::none ? "gives " + r : std::string(mdl::name(e)); }
std::string g_rep; Val g_v;
#define BOTH(text, ...) { mc::step(2); auto f = [&] (auto&& x) -> std::string { __VA_ARGS__; }; auto a = result(f, w), b = result(f, p); MC_CHECK(a == b, std::string(text) + " of typed " + g_rep, std::string(text) + " on a typed " + g_rep + " holding " + dump(g_v) + " " + a + ", but the value " + b); }
#define G(text, ...) BOTH(text, return dig(__VA_ARGS__))

template <class W, class P> void object_reads(W const& w, P const& p) {
  static std::vector<std::string> const ks {"a", "bb", "", "ccc", "no", std::string("n\0l", 3), rep('k', 260)}; Val const& v = g_v;
  for (auto& k : ks) {
    auto dk = dart::heap::make_string(sv(k)); dart::heap::string sk(dk); std::string path = k + ".c";
    G("[key]", x[sv(k)]) G("[dart key]", x[dk]) G("[string]", x[sk]) G("get(key)", x.get(sv(k))) G("get(dart key)", x.get(dk)) G("at(key)", x.at(sv(k))) G("at(dart key)", x.at(dk)) G("has_key", x.has_key(sv(k))) G("has_key(dart key)", x.has_key(dk)) G("has_key(string)", x.has_key(sk))
    G("get_nested", x.get_nested(sv(path))) G("get_nested, other separator", x.get_nested(sv(k), '.'))
    BOTH("find", auto i = x.find(sv(k)); return place(x, i)) BOTH("find_key", auto i = x.find_key(sv(k)); return i == x.key_end() ? std::string("end") : dig(*i))
  }
  G("size", x.size()) G("empty", x.empty()) G("keys", x.keys()) G("values", x.values()) BOTH("begin", return walk(x.begin(), x.end())) BOTH("cbegin", return walk(x.cbegin(), x.cend())) BOTH("rbegin", return walk(x.rbegin(), x.rend())) BOTH("key_begin", return walk(x.key_begin(), x.key_end())) BOTH("rkey_begin", return walk(x.rkey_begin(), x.rkey_end())) BOTH("kvbegin", return walk2(x.kvbegin(), x.kvend())) BOTH("rkvbegin", return walk2(x.rkvbegin(), x.rkvend()))
  (void) v;
}
template <class W, class P> void owner_reads(dart::basic_object<W> const& w, P const& p) {
  for (auto k : {"a", "", "no"}) { auto dk = dart::heap::make_string(k); G("get_or", x.get_or(sv(k), "default")) G("get_or(dart key)", x.get_or(dk, 5)) G("get_or(packet)", x.get_or(sv(k), nullptr)) }
}
template <class W, class P> void array_reads(W const& w, P const& p) {
  for (size_t i : {(size_t) 0, (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 1000, (size_t) -1}) { dart::heap::number n((int64_t) (i > 2000 ? 2000 : i)); auto d = n.dynamic(); G("[index]", x[i]) G("get(index)", x.get(i)) G("at(index)", x.at(i)) G("[dart index]", x[d]) G("get(dart index)", x.get(d)) G("at(dart index)", x.at(d)) G("[number]", x[n]) }
  G("front", x.front()) G("back", x.back()) G("at_front", x.at_front()) G("at_back", x.at_back()) G("size", x.size()) G("empty", x.empty()) G("values", x.values()) BOTH("begin", return walk(x.begin(), x.end())) BOTH("cbegin", return walk(x.cbegin(), x.cend())) BOTH("rbegin", return walk(x.rbegin(), x.rend()))
}
template <class W, class P> void owner_reads(dart::basic_array<W> const& w, P const& p) {
  for (size_t i : {(size_t) 0, (size_t) 2, (size_t) 3, (size_t) -1}) { dart::heap::number n((int64_t) (i > 2000 ? 2000 : i)); auto d = n.dynamic(); G("get_or", x.get_or(i, "default")) G("get_or(dart index)", x.get_or(d, 5)) }
  G("front_or", x.front_or("default")) G("back_or", x.back_or(2.5))
}
// Merging and projection, through a typed object and its value.
template <class H, class W, class P> void derive(W const& w, P const& p) {
  std::vector<std::string> ks {"a", "ccc", "no", ""}; std::vector<dart::shim::string_view> vs(ks.begin(), ks.end()); gsl::span<std::string const> ss(ks); gsl::span<dart::shim::string_view const> sv_(vs);
  G("project{}", x.project({"a", "bb"})) G("project(none)", x.project(std::initializer_list<dart::shim::string_view> {})) G("project(strings)", x.project(ss)) G("project(views)", x.project(sv_)) G("project(absent)", x.project({"zz", "y"}))
  G("inject(pair)", x.inject("a", 5)) G("inject(pairs)", x.inject("new", "value", "bb", nullptr)) G("inject()", x.inject())
  std::vector<H> hs; hs.push_back(H::make_string("a")); hs.push_back(H::make_array(1, "two")); hs.push_back(H::make_string("new")); hs.push_back(H::make_object("k", 0.5)); gsl::span<H const> hspan(hs); G("inject(span)", x.inject(hspan)) hs.pop_back(); gsl::span<H const> odd(hs); BOTH("inject(odd span)", return dig(x.inject(odd)))
}
template <class W, class P> void bytes(W const& w, P const& p) {
  BOTH("get_bytes", return dig(x.get_bytes())) BOTH("dup_bytes", std::size_t n = 0; auto b = x.dup_bytes(n); return std::string((char const*) b.get(), n)) BOTH("dup_bytes()", auto b = x.dup_bytes(); return b ? std::string((char const*) b.get(), x.get_bytes().size()) : std::string("null"))
}
template <class W, class P> void shares(W& w, P& p, std::true_type) { BOTH("share_bytes", std::shared_ptr<gsl::byte const> s; auto n = x.share_bytes(s); return std::to_string(n) + std::string((char const*) s.get(), n)) }
template <class W, class P> void shares(W&, P&, std::false_type) {}

// Changes: made to a typed copy and to a plain copy; result, value afterwards and the untouched original are compared.
#define CHANGE(text, ...) { mc::step(2); W w(p0); P p = p0; auto f = [&] (auto& x) -> std::string { __VA_ARGS__; }; auto a = result(f, w), b = result(f, p); a += " leaving " + dig(w); b += " leaving " + dig(p); MC_CHECK(a == b, std::string(text) + " of typed " + g_rep, std::string(text) + " on a typed " + g_rep + " holding " + dump(g_v) + " " + a + ", but the value " + b); auto was = dig(p0); MC_CHECK(was == d0, std::string(text) + " of typed " + g_rep, std::string(text) + " on a typed " + g_rep + " changed the value it was made from: " + was); }
template <class W, class P> void object_changes(P const& p0) {
  auto d0 = dig(p0); P nested = make<P>(Val::obj({{"x", Val::arr({Val::integer(1)})}}), false); dart::heap::string sk(dart::heap::make_string("a"));
  for (auto k : {"a", "bb", "new", ""}) {
    auto dk = dart::heap::make_string(k); auto pk = nested; (void) pk;
    CHANGE("add_field", x.add_field(k, 1); return "") CHANGE("add_field(value)", x.add_field(k, nested); return "") CHANGE("add_field on a temporary", auto y = std::move(x).add_field(k, "v").add_field("second", 2.5); x = y; return dig(y)) CHANGE("remove_field", x.remove_field(k); return "") CHANGE("remove_field(dart key)", x.remove_field(dk); return "") CHANGE("remove_field on a temporary", auto y = std::move(x).remove_field(k); x = y; return "")
    CHANGE("insert", return place(x, x.insert(k, 7))) CHANGE("insert(value)", return place(x, x.insert(k, nested))) CHANGE("set", return place(x, x.set(k, "set"))) CHANGE("set(value)", return place(x, x.set(k, nested))) CHANGE("erase", return place(x, x.erase(k))) CHANGE("erase(dart key)", return place(x, x.erase(dk)))
  }
  CHANGE("clear", x.clear(); return "") CHANGE("insert(itself)", x.insert("self", x); return "") CHANGE("erase(iterator)", return x.empty() ? std::string() : place(x, x.erase(x.begin()))) CHANGE("set(iterator)", return x.empty() ? std::string() : place(x, x.set(x.begin(), 3))) CHANGE("erase(number)", return place(x, x.erase(dart::heap::make_integer(0))))
}
template <class W, class P> void array_changes(P const& p0) {
  auto d0 = dig(p0); P nested = make<P>(Val::obj({{"x", Val::arr({Val::integer(1)})}}), false);
  CHANGE("push_front", x.push_front(1); return "") CHANGE("push_front(value)", x.push_front(nested); return "") CHANGE("push_back", x.push_back("b"); return "") CHANGE("push_back(value)", x.push_back(nested); return "") CHANGE("pop_front", x.pop_front(); return "") CHANGE("pop_back", x.pop_back(); return "")
  CHANGE("push_front on a temporary", auto y = std::move(x).push_front(1).push_front(2); x = y; return dig(y)) CHANGE("push_back on a temporary", auto y = std::move(x).push_back(1).push_back(2); x = y; return dig(y)) CHANGE("pop_front on a temporary", auto y = std::move(x).pop_front(); x = y; return "") CHANGE("pop_back on a temporary", auto y = std::move(x).pop_back(); x = y; return "")
  for (int i : {0, 1, 2, 3, 9}) { auto d = P::make_integer(i); CHANGE("insert", return place(x, x.insert(i, 7))) CHANGE("insert(value)", return place(x, x.insert(i, nested))) CHANGE("insert(dart index)", return place(x, x.insert(d, 7))) CHANGE("set", return place(x, x.set(i, "set"))) CHANGE("set(dart index)", return place(x, x.set(d, nested))) CHANGE("erase", return place(x, x.erase(i))) CHANGE("erase(dart index)", return place(x, x.erase(d))) CHANGE("resize", x.resize(i, "fill"); return "") CHANGE("resize()", x.resize(i); return "") CHANGE("reserve", x.reserve(i); return "") }
  CHANGE("clear", x.clear(); return "") CHANGE("push_back(itself)", x.push_back(x); return "") CHANGE("insert(iterator)", return place(x, x.insert(x.begin(), 3))) CHANGE("insert(end)", return place(x, x.insert(x.end(), 3))) CHANGE("erase(iterator)", return x.empty() ? std::string() : place(x, x.erase(x.begin()))) CHANGE("set(iterator)", return x.empty() ? std::string() : place(x, x.set(x.begin(), 3)))
}
// Conversions between forms, through a typed object and its value.
#define FORMS(text, call) CHANGE(text, return dig(x.call())) CHANGE(std::string(text) + " on a temporary", return dig(std::move(x).call()))
template <class W, class P> void down(P const& p0) { auto d0 = dig(p0); FORMS("finalize", finalize) FORMS("lower", lower) }
template <class W, class P> void up(P const& p0) { auto d0 = dig(p0); FORMS("definalize", definalize) FORMS("lift", lift) }
template <class P, class H, class F> void kinds(Val const& v, bool f, F&&) { (void) v; (void) f; }

template <class P> constexpr bool has_defaults = true; template <template <class> class R> constexpr bool has_defaults<dart::basic_buffer<R>> = false;
template <class W, class P> void defaults(W const& w, P const& p, std::true_type) { owner_reads(w, p); }
template <class W, class P> void defaults(W const&, P const&, std::false_type) {}
template <class P> void reads(Val const& v, bool f, std::string const& rep) {
  g_rep = rep; g_v = v; P p = make<P>(v, f); mc::nontrivial(); typename P::view pv = p;
  if (v.k == Val::Obj) { dart::basic_object<P> w(p); object_reads(w, p); defaults(w, p, std::integral_constant<bool, has_defaults<P>> {}); g_rep = "view of " + rep; typename dart::basic_object<P>::view wv = w; object_reads(wv, pv); }
  else { dart::basic_array<P> w(p); array_reads(w, p); defaults(w, p, std::integral_constant<bool, has_defaults<P>> {}); g_rep = "view of " + rep; typename dart::basic_array<P>::view wv = w; array_reads(wv, pv); }
}
std::vector<Val> const& aggregates() {
  static std::vector<Val> const p = [] { std::vector<Val> r; for (auto& v : pool()) if (v.aggregate()) r.push_back(v);
    r.push_back(Val::obj()); r.push_back(Val::arr()); r.push_back(Val::arr({Val::obj({{"c", Val::integer(1)}})})); r.push_back(Val::obj({{"a", Val::obj({{"c", Val::integer(1)}, {"bb", Val::null()}})}, {"bb", Val::arr({Val::integer(1), Val::null()})}, {"ccc", Val::str(rep('s', 30))}})); r.push_back(Val::obj({{"", Val::obj({{"c", Val::boolean(true)}})}, {std::string("n\0l", 3), Val::decimal(0.1)}, {rep('k', 260), Val::integer(-1)}})); return r; } ();
  return p;
}
MC_SPACE(forward_reads, "forwarded reads", "every aggregate of the pool and more, in 8 representations and as views: 60 accesses of a typed object or array next to the same access of its value") {
  auto& v = pick(aggregates()); int k = choose(8); MC_NOTE(dump(v)); mc::state(mc::mix(hash(v), k));
  switch (k) { case 0: reads<dart::heap>(v, false, "heap"); break; case 1: reads<dart::unsafe_heap>(v, false, "unsafe heap"); break; case 2: reads<dart::buffer>(v, false, "buffer element"); break; case 3: reads<dart::buffer>(v, true, "buffer"); break; case 4: reads<dart::unsafe_buffer>(v, true, "unsafe buffer"); break; case 5: reads<dart::packet>(v, false, "packet"); break; case 6: reads<dart::packet>(v, true, "finalized packet"); break; default: reads<dart::unsafe_packet>(v, true, "finalized unsafe packet"); }
}
template <class P> void changes(Val const& v, bool f, std::string const& rep) { g_rep = rep; g_v = v; P p = make<P>(v, f); mc::nontrivial(); if (v.k == Val::Obj) object_changes<dart::basic_object<P>>(p); else array_changes<dart::basic_array<P>>(p); }
MC_SPACE(forward_changes, "forwarded changes", "every aggregate of the pool and more, in 6 representations: 40 changes, successful and rejected, through a typed object or array next to the same change of its value") {
  auto& v = pick(aggregates()); int k = choose(6); MC_NOTE(dump(v)); mc::state(mc::mix(hash(v), k));
  switch (k) { case 0: changes<dart::heap>(v, false, "heap"); break; case 1: changes<dart::unsafe_heap>(v, false, "unsafe heap"); break; case 2: changes<dart::packet>(v, false, "packet"); break; case 3: changes<dart::packet>(v, true, "finalized packet"); break; case 4: changes<dart::unsafe_packet>(v, false, "unsafe packet"); break; default: changes<dart::unsafe_packet>(v, true, "finalized unsafe packet"); }
}
template <class P, class H> void derived(Val const& v, bool f, std::string const& rep) { g_rep = rep; g_v = v; P p = make<P>(v, f); dart::basic_object<P> w(p); mc::nontrivial(); derive<H>(w, p); }
MC_SPACE(forward_derived, "forwarded merges, projections and conversions", "every object of the pool and more in 8 representations: merges, projections, conversions between forms and exports through a typed object next to its value") {
  auto& v = pick(aggregates()); if (v.k != Val::Obj) mc::prune(); int k = choose(8); MC_NOTE(dump(v)); mc::state(mc::mix(hash(v), k));
  switch (k) {
    case 0: derived<dart::heap, dart::heap>(v, false, "heap"); down<dart::heap::object>(build<dart::heap>(v)); break;
    case 1: derived<dart::unsafe_heap, dart::unsafe_heap>(v, false, "unsafe heap"); down<dart::unsafe_heap::object>(build<dart::unsafe_heap>(v)); break;
    case 2: case 3: { derived<dart::buffer, dart::heap>(v, k == 3, "buffer"); auto p = make<dart::buffer>(v, k == 3); dart::buffer::object w(p); bytes(w, p); shares(w, p, std::true_type {}); up<dart::buffer::object>(p); break; }
    case 4: { derived<dart::unsafe_buffer, dart::unsafe_heap>(v, true, "unsafe buffer"); auto p = make<dart::unsafe_buffer>(v, true); dart::unsafe_buffer::object w(p); bytes(w, p); up<dart::unsafe_buffer::object>(p); break; }
    case 5: { derived<dart::packet, dart::heap>(v, false, "packet"); auto p = make<dart::packet>(v, false); dart::packet::object w(p); BOTH("get_bytes", return dig(x.get_bytes())) down<dart::packet::object>(p); up<dart::packet::object>(p); break; }
    case 6: { derived<dart::packet, dart::heap>(v, true, "finalized packet"); auto p = make<dart::packet>(v, true); dart::packet::object w(p); bytes(w, p); shares(w, p, std::true_type {}); down<dart::packet::object>(p); up<dart::packet::object>(p); break; }
    default: { derived<dart::unsafe_packet, dart::unsafe_heap>(v, true, "finalized unsafe packet"); auto p = make<dart::unsafe_packet>(v, true); dart::unsafe_packet::object w(p); bytes(w, p); down<dart::unsafe_packet::object>(p); up<dart::unsafe_packet::object>(p); break; }
  }
}
}
