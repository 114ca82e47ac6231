// C27: a separated path is a chain of key lookups.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {
// The model: split, descend, trailing separator ignored.
Val walk(Val const& root, std::string const& path, char sep) {
  Val const* cur = &root; size_t at = 0; static Val const null;
  while (at < path.size()) {
    if (cur->k != Val::Obj) return null;
    size_t stop = path.find(sep, at); std::string key = path.substr(at, stop == std::string::npos ? std::string::npos : stop - at);
    auto it = cur->o.find(key); cur = it == cur->o.end() ? &null : &it->second; at = stop == std::string::npos ? path.size() : stop + 1;
  }
  return *cur;
}
std::vector<std::string> const& paths(char sep, int max) {
  static std::map<std::pair<char, int>, std::vector<std::string>> cache; auto& r = cache[{sep, max}];
  if (r.empty()) { r.push_back(""); for (size_t i = 0; i < r.size(); ++i) if ((int) r[i].size() < max) { auto p = r[i]; for (char c : {'a', 'b', sep}) r.push_back(p + c); } }
  return r;
}
template <class P> void probe(P const& p, Val const& v, char sep, int max, char const* who) {
  for (auto& path : paths(sep, max)) {
    Val want = walk(v, path, sep); mc::step(); if (want.k != Val::Null) mc::nontrivial();
    auto got = p.get_nested(sv(path), sep); Val g = read(got);
    MC_CHECK(same(g, want), std::string("wrong value at path, ") + who, std::string(who) + " of " + dump(v) + " at " + mc::show(path) + " separated by " + mc::show(std::string(1, sep)) + " is " + dump(g) + ", expected " + dump(want));
    if (sep == '.') { Val d = read(p.get_nested(sv(path))); MC_CHECK(same(d, want), "default separator", "get_nested without separator differs at " + mc::show(path)); }
  }
}
enum { kReps = 16 };
void rep_probe(int r, Val const& v, char sep, int max) {
  auto h = build<dart::heap>(v);
  switch (r) {
    case 0: probe(h, v, sep, max, "dynamic"); break;
    case 1: probe(h.finalize(), v, sep, max, "finalized"); break;
    case 2: probe(dart::packet(h), v, sep, max, "dynamic packet"); break;
    case 3: { dart::packet p(h); p.finalize(); probe(p, v, sep, max, "finalized packet"); break; }
    case 4: { dart::heap::view w = h; probe(w, v, sep, max, "dynamic view"); break; }
    case 5: { auto b = h.finalize(); dart::buffer::view w = b; probe(w, v, sep, max, "finalized view"); break; }
    case 6: { dart::packet p(h); dart::packet::view w = p; probe(w, v, sep, max, "packet view"); break; }
    case 7: { dart::packet p(h.finalize()); dart::packet::view w = p; probe(w, v, sep, max, "finalized packet view"); break; }
    case 8: { dart::heap::object o(h); probe(o, v, sep, max, "typed dynamic"); break; }
    case 9: { dart::buffer::object o(h.finalize()); probe(o, v, sep, max, "typed finalized"); break; }
    case 10: { dart::packet::object o {dart::packet(h)}; probe(o, v, sep, max, "typed packet"); break; }
    case 11: { auto u = build<dart::unsafe_heap>(v); probe(u, v, sep, max, "dynamic, unsafe counter"); probe(u.finalize(), v, sep, max, "finalized, unsafe counter"); break; }
    case 12: { auto b = build<dart::heap>(Val::obj({{"w", v}})).finalize(); probe(b["w"], v, sep, max, "nested finalized"); break; }
    case 13: { dart::packet p = dart::packet::make_object(); for (auto& e : v.o) { Val w = Val::obj({{"w", e.second}}); p.add_field(sv(e.first), dart::packet(build<dart::heap>(w).finalize())["w"]); } probe(p, v, sep, max, "packet holding finalized fields"); break; }
    case 14: { dart::packet p(h.finalize()); probe(p.lift(), v, sep, max, "lifted packet"); break; }
    default: { auto u = build<dart::basic_heap<dart::skinny_ptr>>(v); probe(u, v, sep, max, "dynamic, skinny counter"); break; }
  }
}
Val arr() { return Val::arr({Val::obj({{"", Val::integer(9)}, {"a", Val::integer(8)}})}); }
// Second and third levels.
std::vector<Val> const& subs() {
  static std::vector<Val> r;
  if (r.empty()) {
    auto I = [] (int i) { return Val::integer(i); }; Val deep = Val::obj({{"", I(31)}, {"a", Val::obj({{"a", I(32)}, {"", Val::str("deepest")}})}, {"ab", Val::decimal(3.5)}});
    r = {Val::null(), I(7), Val::str("a"), Val::boolean(false), arr(), Val::obj(), Val::obj({{"", I(1)}}), Val::obj({{"a", I(2)}}), Val::obj({{"ab", Val::str("x.y")}}), Val::obj({{"a", Val::null()}, {"ab", I(3)}}), Val::obj({{"", deep}}), Val::obj({{"a", deep}, {"", Val::str("")}}), Val::obj({{"ab", deep}, {"a", arr()}})};
  }
  return r;
}
MC_SPACE(trees, "trees", "objects over keys {'', a, ab} each absent or one of 13 values up to 4 levels, every path of up to 4 (thorough 6) characters over {a, b, separator}, 16 representations, separator '.'") {
  int r = choose(kReps); Val v = Val::obj(); for (auto k : {"", "a", "ab"}) { int c = choose((int) subs().size() + 1); if (c) v.o[k] = subs()[c - 1]; }
  MC_NOTE(dump(v) + " representation " + std::to_string(r)); rep_probe(r, v, '.', mc::thorough() ? 6 : 4); mc::state(mc::mix(hash(v), r));
}
MC_SPACE(seps, "separators", "every byte value as separator (keys containing other bytes, letters as separators), 16 representations, paths up to 5 characters") {
  int r = choose(kReps); char sep = (char) choose(256); Val leaf = Val::obj({{"", Val::integer(1)}, {"a", Val::obj({{"b", Val::integer(2)}, {"", Val::integer(3)}})}, {"b", Val::integer(4)}, {"ab", Val::integer(5)}, {std::string("a") + sep + "b", Val::integer(6)}});
  MC_NOTE("separator " + mc::show(std::string(1, sep)) + " representation " + std::to_string(r));
  Val v = Val::obj({{"a", leaf}, {"b", leaf}, {"", leaf}, {std::string("a") + sep, Val::integer(7)}, {std::string(1, sep), Val::str("sep")}}); rep_probe(r, v, sep, 5); mc::state(mc::mix((unsigned char) sep, r));
}
// Long components, prefixes of each other, and roots which are not objects.
MC_SPACE(lengths, "lengths", "components of every length 0..20 and around 255/256/65535, chains of 1..40 levels, and non-object roots, all representations that express them") {
  int kind = choose(3);
  if (kind == 0) {
    int r = choose(kReps); static size_t const ls[] = {0, 1, 2, 7, 8, 15, 16, 20, 254, 255, 256, 257, 65534, 65535}; size_t a = pick(ls), b = pick(ls); std::string ka = rep('x', a), kb = rep('y', b);
    Val v = Val::obj({{ka, Val::obj({{kb, Val::integer(1)}, {rep('z', 3), Val::integer(2)}})}}); auto h = build<dart::heap>(v); dart::packet p(h); if (r & 1) p.finalize();
    for (auto& path : {ka + "." + kb, ka + "." + kb + ".", ka, ka + ".", ka + kb, ka + "." + kb + "x", ka + "." + kb + ".x", ka + ".zzz", ka + ".zz", ka + "x", std::string("."), std::string("")}) { mc::step(); expect(p.get_nested(sv(path)), walk(v, path, '.'), "value at long path"); if (r & 2) expect(h.finalize().get_nested(sv(path)), walk(v, path, '.'), "finalized value at long path"); }
    mc::nontrivial(); mc::state(mc::mix(a, b));
  } else if (kind == 1) {
    int n = 1 + choose(40), r = choose(kReps); Val v = Val::integer(n); std::string path; for (int i = 0; i < n; ++i) { v = Val::obj({{i % 3 ? "k" : "", v}, {"other", Val::integer(i)}}); }
    std::vector<std::string> ks; for (int i = n; i--;) ks.push_back(i % 3 ? "k" : ""); auto h = build<dart::heap>(v); dart::packet p(h); if (r & 1) p.finalize();
    for (auto& k : ks) { std::string o = path + (path.empty() && &k == &ks[0] ? "" : "/") + "other"; expect(p.get_nested(sv(o), '/'), walk(v, o, '/'), "value along a chain"); path += (&k == &ks[0] ? "" : "/") + k; expect(p.get_nested(sv(path), '/'), walk(v, path, '/'), "value down a chain"); mc::step(2); }
    mc::nontrivial(); mc::state(n);
  } else {
    Val v = pick(layout_values()); if (v.k == Val::Obj) v = Val::null(); int r = choose(4); auto h = build<dart::heap>(v);
    for (auto path : {"", ".", "a", "a.", ".a", "a.a", "0"}) {
      Val want = walk(v, path, '.'); mc::step();
      if (r == 0) expect(h.get_nested(path), want, "path into a dynamic non-object"); else if (r == 1) expect(dart::packet(h).get_nested(path), want, "path into a packet non-object");
      else if (r == 2) { dart::heap w = dart::heap::make_object("w", h); expect(w.finalize()["w"].get_nested(path), want, "path into a finalized non-object"); } else { dart::heap w = dart::heap::make_object("w", h); expect(dart::packet(w.finalize())["w"].get_nested(path), want, "path into a finalized packet non-object"); }
    }
    mc::state(mc::mix(hash(v), r));
  }
}
// The result outlives the value it was found in, and owns its own copy.
template <class P> void lives(P p, Val const& v, std::string const& path) {
  auto got = p.get_nested(sv(path)); auto tmp = P(p).get_nested(sv(path)); p = P::make_null(); Val want = walk(v, path, '.'); expect(got, want, "nested value after its source is gone"); expect(tmp, want, "nested value of a temporary"); mc::step(2); if (want.k >= Val::Str) mc::nontrivial();
}
MC_SPACE(life, "lifetime", "results used after the value they were found in is destroyed; heap, buffer, packet in both forms and the unsafe counter; all paths up to 3 characters") {
  int r = choose(5); Val v = Val::obj(); for (auto k : {"", "a", "ab"}) { int c = choose(3); if (c) v.o[k] = c == 1 ? Val::str(std::string(40, 'q')) : subs()[10 + (k[0] ? 1 : 0)]; }
  auto path = pick(paths('.', 3)); MC_NOTE(dump(v) + " at " + path);
  switch (r) { case 0: lives(build<dart::heap>(v), v, path); break; case 1: { auto b = build<dart::heap>(v).finalize(); lives<dart::buffer>(std::move(b), v, path); } break; case 2: lives(build<dart::packet>(v), v, path); break; case 3: lives(build<dart::packet>(v).finalize(), v, path); break; default: lives(build<dart::unsafe_heap>(v), v, path); }
  mc::state(mc::mix(hash(v), mc::hash_str(path)));
}
}
