// C26: switching reference counters. One translation unit per source counter.
#include "tracked.hpp"
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {
template <template <class> class R> using H = dart::basic_heap<R>;
template <template <class> class R> using B = dart::basic_buffer<R>;
template <template <class> class R> using P = dart::basic_packet<R>;

// The result is an equal, self-sufficient value; the source has not noticed.
template <class To, class From> void judge(From src, Val const& v, std::string const& what) {
  auto before = src.refcount(); Val was = read(src); MC_CHECK(same(was, v), "bad source: " + what, what + " is " + dump(was));
  auto got = [&] () -> decltype(From::template transmogrify<To::template counter>(src)) { try { return From::template transmogrify<To::template counter>(src); } catch (std::exception const& e) { mc::fail("refused: " + what, "switching counters of " + what + " " + dump(v) + " throws " + e.what()); } }();
  mc::step(); MC_CHECK(src.refcount() == before, "source shared: " + what, "the reference count of the source changed from " + std::to_string(before) + " to " + std::to_string(src.refcount()));
  expect(got, v, "value after switching, " + what); expect(src, v, "source after switching, " + what);
  MC_CHECK(got.is_null() || got.is_primitive() || got.refcount() <= 1, "result shared: " + what, "the result of switching has reference count " + std::to_string(got.refcount()));
  MC_CHECK(got.is_finalized() == src.is_finalized() || got.is_null(), "form: " + what, what + " changes form when switched");
  auto copy = got; src = From::make_null(); expect(got, v, "value after the source is gone, " + what); got = decltype(got)::make_null(); expect(copy, v, "copy of the value, " + what); mc::nontrivial();
}
template <template <class> class R> struct Tag { template <class T> using counter = R<T>; };
template <template <class> class S, class To> void reps(int r, Val const& v) {
  auto h = build<H<S>>(v); H<S> w = H<S>::make_object("pad", "x", "w", h, "y", true);
  switch (r) {
    case 0: judge<To>(h, v, "dynamic"); break;
    case 1: judge<To>(P<S>(h), v, "dynamic packet"); break;
    case 2: if (!h.is_object()) mc::prune(); judge<To>(h.finalize(), v, "finalized"); break;
    case 3: { if (!h.is_object()) mc::prune(); P<S> p(h); p.finalize(); judge<To>(std::move(p), v, "finalized packet"); break; }
    case 4: { auto f = w.finalize(); auto e = f["w"]; judge<To>(e, v, "element of finalized"); expect(f["w"], v, "enclosing value"); break; }
    case 5: { P<S> f(w); f.finalize(); auto e = f["w"]; judge<To>(e, v, "element of finalized packet"); expect(f["w"], v, "enclosing value"); break; }
    case 6: { auto e = w["w"]; h = H<S>::make_null(); judge<To>(e, v, "element of dynamic"); expect(w["w"], v, "enclosing value"); break; }
    case 7: { auto a = H<S>::make_object("a", H<S>::make_array(1, h, "s")).finalize(); auto e = a["a"][1]; judge<To>(e, v, "array element of finalized"); break; }
    case 8: { typename H<S>::view x = h; auto got = H<S>::view::template transmogrify<To::template counter>(x); expect(got, v, "switched view"); h = H<S>::make_null(); w = H<S>::make_null(); expect(got, v, "switched view, source gone"); break; }
    case 9: { auto f = w.finalize(); typename B<S>::view x = f; auto y = x["w"]; auto got = B<S>::view::template transmogrify<To::template counter>(y); expect(got, v, "switched finalized view"); f = B<S>::make_null(); expect(got, v, "switched finalized view, source gone"); break; }
    default: { P<S> f(w); if (choose(2)) f.finalize(); typename P<S>::view x = f; auto y = x["w"]; auto got = P<S>::view::template transmogrify<To::template counter>(y); expect(got, v, "switched packet view"); f = P<S>::make_null(); expect(got, v, "switched packet view, source gone"); break; }
  }
}
enum { kReps = 11 };
template <template <class> class S> void to(int t, int r, Val const& v) {
  switch (t) { case 0: reps<S, Tag<std::shared_ptr>>(r, v); break; case 1: reps<S, Tag<dart::unsafe_ptr>>(r, v); break; case 2: reps<S, Tag<dart::skinny_ptr>>(r, v); break; default: reps<S, Tag<tracked_ptr>>(r, v); }
  auto& s = trk::stats(); MC_CHECK(s.handles == 0 && s.blocks == 0, "user counter leaked", std::to_string(s.handles) + " handles and " + std::to_string(s.blocks) + " blocks of the user-supplied counter remain");
}
// Mutating one side never shows on the other.
template <template <class> class S, template <class> class R> void apart() {
  bool pk = choose(2), fin = pk && choose(2); Val v = Val::obj({{"a", Val::arr({Val::integer(1), Val::str("two")})}, {"o", Val::obj({{"k", Val::str(rep('z', 30))}})}});
  auto go = [&] (auto src) {
    using X = decltype(src); if (fin) src.finalize(); auto dst = X::template transmogrify<R>(src); Val ms = v, md = v; int n = mc::thorough() ? 4 : 3;
    auto op = [] (auto& x, Val& m, int o) {
      using Y = std::decay_t<decltype(x)>; if (x.is_null()) mc::prune();
      switch (o) {
        case 0: x.definalize(); x.add_field("n", 1); m.o["n"] = Val::integer(1); break; case 1: x.definalize(); x.remove_field("a"); m.o.erase("a"); break; case 2: x.definalize(); { if (!m.o.count("a")) mc::prune(); auto a = x["a"]; a.push_back(true); x.set("a", a); m.o["a"].a.push_back(Val::boolean(true)); } break;
        case 3: x.definalize(); x.clear(); m.o.clear(); break; case 4: { if (!m.o.count("o")) mc::prune(); auto o2 = std::move(x)["o"]; x = Y(o2); Val t = m.o["o"]; m = t; break; } case 5: x = Y::make_null(); m = Val::null(); break; default: { auto y = x; y.definalize(); y.clear(); } } };
    for (int i = 0; i < n; ++i) { int o = choose(14); MC_NOTE(std::string(o < 7 ? "source" : "result") + " op " + std::to_string(o % 7)); if (o < 7) op(src, ms, o); else op(dst, md, o - 7); mc::step(); expect(src, ms, "source after independent histories"); expect(dst, md, "result after independent histories"); mc::state(mc::mix(hash(ms), hash(md))); }
    mc::nontrivial(); };
  if (pk) go(build<P<S>>(v)); else go(build<H<S>>(v));
}
// The buffer handed over is released with the source, not with the result.
template <template <class> class S, template <class> class R> void released() {
  Val v = Val::obj({{"s", Val::str(rep('q', 40))}, {"o", Val::obj({{"x", Val::integer(70000)}})}}); auto bytes = encode(v); static thread_local int freed; freed = 0;
  void* m = nullptr; if (posix_memalign(&m, 8, bytes.size())) abort(); memcpy(m, bytes.data(), bytes.size()); auto del = [] (gsl::byte const* p) { ++freed; free(const_cast<gsl::byte*>(p)); };
  { std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)> own(static_cast<gsl::byte const*>(m), del);
    B<S> src(std::move(own)); bool nested = choose(2), pk = choose(2); Val w = nested ? v.o["o"] : v;
    if (pk) { P<S> p(nested ? src["o"] : src); src = B<S>::make_null(); auto got = P<S>::template transmogrify<R>(p); MC_CHECK(freed == 0, "source freed early", "switching released the source"); p = P<S>::make_null(); MC_CHECK(freed == 1, "source kept alive", "the result keeps the buffer of the source alive"); expect(got, w, "result after release"); }
    else { auto s = nested ? src["o"] : src; src = B<S>::make_null(); auto got = B<S>::template transmogrify<R>(s); MC_CHECK(freed == 0, "source freed early", "switching released the source"); s = B<S>::make_null(); MC_CHECK(freed == 1, "source kept alive", "the result keeps the buffer of the source alive"); expect(got, w, "result after release"); auto again = B<R>::template transmogrify<S>(got); got = B<R>::make_null(); expect(again, w, "switched back"); }
  }
  MC_CHECK(freed == 1, "released twice", "the source was released " + std::to_string(freed) + " times"); mc::step(); mc::nontrivial();
}
}
#define C26_SPACES(S, name) \
MC_SPACE(val_##S, "values-" name, "17 layouts and all boundary scalars alone, in arrays and in objects, every representation (dynamic, finalized, packet, elements, views), from the " name " counter to each of shared, unsafe, skinny and a user-supplied counter") { \
  int t = choose(4), r = choose(kReps), k = choose(3); auto const& sc = scalars(); auto const& ly = layout_values(); int n = choose((int) (sc.size() + ly.size())); Val v = n < (int) sc.size() ? sc[n] : ly[n - sc.size()]; if (k == 1) v = Val::arr({v, Val::null(), v}); else if (k == 2) v = Val::obj({{"", v}, {"k", v}, {"kk", Val::arr({v})}}); \
  MC_NOTE(dump(v) + " to counter " + std::to_string(t) + " representation " + std::to_string(r)); to<S>(t, r, v); mc::state(mc::mix(hash(v), t * 16 + r)); } \
MC_SPACE(tree_##S, "trees-" name, "objects of up to 3 fields over 9 layouts, all representations, from the " name " counter") { \
  int t = choose(4), r = choose(kReps); Val v = Val::obj(); for (int i = 0; i < 3; ++i) { int c = choose(mc::thorough() ? 18 : 8); if (c) v.o[rep(char('a' + i), i * 2)] = layout_values()[(c - 1) * (mc::thorough() ? 1 : 2)]; } \
  MC_NOTE(dump(v) + " to counter " + std::to_string(t) + " representation " + std::to_string(r)); to<S>(t, r, v); mc::state(mc::mix(hash(v), t * 16 + r)); } \
MC_SPACE(hist_##S, "independence-" name, "every pair of histories of mutations on source and result, 3 (thorough 4) steps in all, 14 operations, dynamic and finalized packets, from the " name " counter to each other") { switch (choose(4)) { case 0: apart<S, std::shared_ptr>(); break; case 1: apart<S, dart::unsafe_ptr>(); break; case 2: apart<S, dart::skinny_ptr>(); break; default: apart<S, tracked_ptr>(); } } \
MC_SPACE(rel_##S, "release-" name, "adopted buffers with a counting deleter, roots and nested objects, buffers and packets, from the " name " counter") { switch (choose(4)) { case 0: released<S, std::shared_ptr>(); break; case 1: released<S, dart::unsafe_ptr>(); break; case 2: released<S, dart::skinny_ptr>(); break; default: released<S, tracked_ptr>(); } }
