// Construction, copying, conversion between forms and counters, merging, projection, access.
#include "C18.hpp"
namespace {
std::vector<Val> const& roots() { static std::vector<Val> const v {objects()[0], objects()[2], Val::obj({{"n", Val::null()}, {"i", Val::integer(1ll << 40)}, {"s", Val::str(rep('s', 300))}, {"arr", arrays()[2]}})}; return v; }
std::vector<Val> const& anything() { static std::vector<Val> const v {objects()[0], objects()[2], arrays()[0], arrays()[2], Val::str(kLong), Val::integer(3), Val::null()}; return v; }
template <class P> std::string walk(P const& p) { std::string o; for (auto it = p.begin(); it != p.end(); ++it) { auto cp = it; auto post = cp++; o += post == it ? "" : "!"; auto v = *it; o += std::to_string((int) v.get_type()); } return o; }
template <class P> std::string walk_back(P const& p) { std::string o; for (auto it = p.rbegin(); it != p.rend(); ++it) { auto v = *it; o += std::to_string((int) v.get_type()); } return o; }
template <class P> std::string walk_keys(P const& p) { std::string o; for (auto it = p.key_begin(); it != p.key_end(); ++it) { auto v = *it; o += std::to_string((int) v.size()); } return o; }
template <class P> std::string fields(P const& p) { std::string o; typename P::iterator k, v; std::tie(k, v) = p.kvbegin(); for (auto e = p.end(); v != e; ++k, ++v) { auto kk = *k; o += std::to_string(kk.size()); } return o; }

template <class P, class Q> void reading(bool tf, bool qf) {
  Opt o; o.t = pick(anything()); o.tf = tf; o.q = o.t; o.qf = qf; Menu<P, Q> m; Effect e = strong;
  GIVES("copy", P(w.t)) GIVES("keys", w.t.keys()) GIVES("values", w.t.values()) GIVES("get by key", w.t.get(kKey)) GIVES("get by index", w.t.get(0)) GIVES("at by key", w.t.at("a")) GIVES("at by index", w.t.at(1)) GIVES("get_nested", w.t.get_nested("arr.x")) GIVES("subscript", w.t["b"]) GIVES("back", w.t.back()) GIVES("find", w.t.find("a") == w.t.end())
  GIVES("iteration", walk(w.t)) GIVES("backward iteration", walk_back(w.t)) GIVES("key iteration", walk_keys(w.t)) GIVES("pair iteration", fields(w.t)) GIVES("equality", w.t == w.q) GIVES("inequality", w.q != w.t) GIVES("equality with a native string", w.t == kLong) GIVES("size", w.t.size()) GIVES("strv", std::string(w.t.strv().data(), w.t.strv().size())) GIVES("integer", w.t.integer()) GIVES("has_key", w.t.has_key(kKey))
  GIVES("view", read(typename P::view(w.t)).size()) GIVES("get_or", w.t.get_nested("missing.path.somewhere"))
  m.run(o);
}
template <class P, class Q> void merging(bool tf, bool qf) {
  Opt o; o.t = pick(roots()); o.tf = tf; o.q = pick(args()); o.qf = qf; Menu<P, Q> m; Effect e = strong;
  GIVES("inject one", w.t.inject("new", w.q)) GIVES("inject over", w.t.inject("a", w.q, kKey, w.q)) GIVES("inject strings", w.t.inject("x", kLong, kKey + "?", 1.5)) GIVES("project", w.t.project({"a", "arr", kKey, "nope"})) GIVES("project none", w.t.project(std::vector<std::string> {})) GIVES("project strings", w.t.project(std::vector<std::string> {kKey, "b"}))
  GIVES("project many", w.t.project(std::vector<std::string> {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"}))
  GIVES("inject many", w.t.inject("a", 1, "b", 2, "c", 3, "d", 4, "e", 5, "f", 6, "g", 7, "h", 8, "i", 9, "j", 10, "k", 11, "l", 12, "m", 13, "n", 14, "o", 15, "p", 16, "q", 17, "r", kLong))
  m.run(o);
}
template <class H> void heap_forms() {
  using P = H; using Q = H; using B = dart::basic_buffer<dart::unsafe_ptr>; Opt o; o.t = pick(anything()); o.q = pick(args()); Menu<P, Q> m; Effect e = strong;
  GIVES("finalize", w.t.finalize()) GIVES("lower", w.t.lower()) GIVES("lift a copy", H(w.t).lift()) GIVES("definalize", H(w.t).definalize()) GIVES("make_object", H::make_object("a", w.t, kKey, w.q)) GIVES("make_array", H::make_array(w.t, w.q, kLong, 5)) GIVES("make_string", H::make_string(kLong)) GIVES("make_string of two", H::make_string(kLong, kKey)) GIVES("make_object, nested", H::make_object("o", H::make_object("a", H::make_array(w.t, 1)), "p", w.q)) GIVES("finalize, changed, finalize", H(H::make_array(w.t, w.q)).lift())
  GIVES("make_array of a span", H::make_array(gsl::span<H const>(&w.t, 1))) GIVES("finalize of a pair", H::make_object("one", w.t, "two", w.q).finalize())
  m.run(o);
}
template <class P> void packet_forms(bool f) {
  using Q = P; Opt o; o.t = pick(roots()); o.tf = f; o.q = pick(args()); Menu<P, Q> m; Effect e = strong;
  DOES("finalize", w.t.finalize()) DOES("lower", w.t.lower()) DOES("definalize", w.t.definalize()) DOES("lift", w.t.lift()) GIVES("make_object", P::make_object("a", w.t, kKey, w.q)) GIVES("make_array", P::make_array(w.t, w.q, kLong)) GIVES("make_string", P::make_string(kLong))
  GIVES("nested get, made dynamic", P(w.t.get(kKey)).definalize()) GIVES("to a heap", dig(typename kind<P>::heap(conv::cast<typename kind<P>::heap>(w.t))))
  e = consumes; GIVES("finalize, given away", std::move(w.t).finalize()) GIVES("definalize, given away", std::move(w.t).definalize()) 
  m.run(o);
}
template <class B, class RC> void buffer_forms() {
  using P = B; using Q = B; using H = typename kind<B>::heap; Opt o; o.t = pick(roots()); o.tf = o.qf = true; o.q = pick(args()); Menu<P, Q> m; Effect e = strong;
  GIVES("definalize", B(w.t).definalize()) GIVES("lift", B(w.t).lift()) GIVES("to a heap", conv::cast<H>(w.t)) GIVES("copy of the bytes", [&] { size_t n = 0; auto b = w.t.dup_bytes(n); return std::to_string(n) + std::string((char const*) b.get(), 8); }()) GIVES("from viewed bytes", B(w.t.get_bytes())) GIVES("from copied bytes", B(w.t.dup_bytes())) GIVES("shared bytes", [&] { RC r; return w.t.share_bytes(r); }()) GIVES("nested copy of the bytes", B(w.t.get(kKey)).is_object() ? dig(B(w.t.get(kKey).get_bytes())) : std::string("none"))
  GIVES("make_object", B::make_object("a", w.t, kKey, w.q)) GIVES("is_valid", dart::is_valid(w.t.get_bytes())) GIVES("from shared bytes", [&] { RC r; w.t.share_bytes(r); return B(std::move(r)); }())
  m.run(o);
}
template <class To, class P> void counters(bool tf) {
  using Q = P; Opt o; o.t = pick(anything()); if (kind<P>::always_final || tf) o.t = pick(roots()); o.tf = tf; o.q = Val::null(); Menu<P, Q> m; Effect e = strong;
  GIVES("transmogrify", dump(read(P::template transmogrify<To::template rc>(w.t))))
  m.run(o);
}
struct ToSafe { template <class T> using rc = std::shared_ptr<T>; }; struct ToUnsafe { template <class T> using rc = dart::unsafe_ptr<T>; }; struct ToSkinny { template <class T> using rc = dart::skinny_ptr<T>; };
MC_SPACE_X(read_, "reading", "25 accessors, iterations and comparisons on 7 values in 8 representations", 3, true) {
  switch (choose(6)) { case 0: reading<Hs, Hs>(false, false); break; case 1: reading<Bs, Hs>(true, false); break; case 2: reading<Ps, Ps>(flip(), flip()); break; case 3: reading<Hu, Bu>(false, true); break; case 4: reading<Bs, Bs>(true, true); break; default: reading<Pu, Hu>(flip(), false); }
}
MC_SPACE_X(merge, "merging and projection", "8 merges and projections of 3 objects with 5 arguments in 9 configurations of representation", 3, true) {
  switch (choose(7)) { case 0: merging<Hs, Hs>(false, false); break; case 1: merging<Bs, Bs>(true, true); break; case 2: merging<Ps, Ps>(flip(), flip()); break; case 3: merging<Hs, Bs>(false, true); break; case 4: merging<Bs, Hs>(true, false); break; case 5: merging<Hu, Hu>(false, false); break; default: merging<Pu, Pu>(flip(), flip()); }
}
MC_SPACE_X(forms, "forms", "construction and every conversion between dynamic and finalized forms, of heaps, packets and buffers, both counters", 3, true) {
  switch (choose(6)) { case 0: heap_forms<Hs>(); break; case 1: heap_forms<Hu>(); break; case 2: packet_forms<Ps>(flip()); break; case 3: packet_forms<Pu>(flip()); break; case 4: buffer_forms<Bs, std::shared_ptr<gsl::byte const>>(); break; default: buffer_forms<Bu, dart::unsafe_ptr<gsl::byte const>>(); }
}
MC_SPACE_X(rc, "counters", "every value from each counter to the others, in every representation", 3, true) {
  switch (choose(8)) { case 0: counters<ToUnsafe, Hs>(false); break; case 1: counters<ToSafe, Hu>(false); break; case 2: counters<ToSkinny, Hs>(false); break; case 3: counters<ToUnsafe, Bs>(true); break; case 4: counters<ToSkinny, Bu>(true); break; case 5: counters<ToUnsafe, Ps>(flip()); break; case 6: counters<ToSkinny, Pu>(flip()); break; default: counters<ToSafe, Bu>(true); }
}
}
