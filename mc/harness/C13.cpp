// C13: JSON out, and back.
#include "jsonmodel.hpp"
#include "paths.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {

std::string want_text, off; bool have_text;
void text_is(std::string const& t, std::string const& what) {
  if (!have_text) { want_text = t; have_text = true; return; }
  if (t != want_text) mc::fail("text differs: " + what, what + " serializes to " + mc::show(t, 300) + ", the dynamic value to " + mc::show(want_text, 300));
}
template <class P> std::string stream(P const& p) { std::ostringstream o; o << p; return o.str(); }
template <class P> void out(P const& p, std::string const& what) { mc::step(); text_is(p.to_json(), what); text_is(stream(p), what + " (stream)"); }
template <class P> void typed(P const& p, Val const& v, std::string const& w) {
  switch (v.k) {
    case Val::Obj: out(dart::basic_object<P>(p), w + " as typed object"); break;
    case Val::Arr: out(dart::basic_array<P>(p), w + " as typed array"); break;
    case Val::Str: out(dart::basic_string<P>(p), w + " as typed string"); break;
    case Val::Int: case Val::Dec: out(dart::basic_number<P>(p), w + " as typed number"); break;
    case Val::Bool: out(dart::basic_flag<P>(p), w + " as typed flag"); break;
    default: out(dart::basic_null<P>(p), w + " as typed null");
  }
}
template <class P> void back(P const& p, Val const& v, std::string const& what) {
  Val got = read(p); if (same(got, v)) return;
  if (near_same(got, v)) { off = what + " is " + dump(got) + " instead of " + dump(v); return; }
  mc::fail("parsing back gives another value: " + what, what + " is " + dump(got) + ", the text " + mc::show(want_text, 300) + " was made from " + dump(v));
}
// Judges the text already obtained: well-formed, denotes v, parses back.
void denotes(Val const& v) {
  off.clear(); Val got; auto st = jm::parse(want_text, got, 0);
  MC_CHECK(st == jm::ok, "malformed text", dump(v) + " serializes to " + mc::show(want_text, 300) + ", which is not JSON");
  MC_CHECK(same(got, v), "text denotes another value", dump(v) + " serializes to " + mc::show(want_text, 300) + ", which denotes " + dump(got));
  if (!v.aggregate()) return;
  dart::heap h; Err e = attempt([&] { h = dart::heap::from_json(want_text); }); MC_CHECK(e == Err::none, "own text rejected", "parsing " + mc::show(want_text, 300) + " gives " + name(e));
  back(h, v, "the dynamic value parsed back");
  if (v.k == Val::Obj) { dart::buffer b; e = attempt([&] { b = dart::buffer::from_json(want_text); }); MC_CHECK(e == Err::none, "own text rejected", "parsing " + mc::show(want_text, 300) + " gives " + name(e)); back(b, v, "the finalized value parsed back");
    if (off.empty()) MC_CHECK(b == build<dart::heap>(v) && h == b, "parsed back value is not equal", "the value parsed back from " + mc::show(want_text, 300) + " compares unequal"); }
  else if (off.empty()) MC_CHECK(h == build<dart::heap>(v), "parsed back value is not equal", "the value parsed back from " + mc::show(want_text, 300) + " compares unequal");
  if (!off.empty()) mc::fail("decimal off in its last places (RapidJSON default precision)", off);
}
void judge(Val const& v, bool all = true) {
  MC_NOTE("serialize " + dump(v)); have_text = false;
  auto h = build<dart::heap>(v); out(h, "dynamic value");
  if (all) {
    typed(h, v, "dynamic value"); out(dart::heap::view(h), "dynamic view");
    auto p = build<dart::packet>(v); out(p, "dynamic packet"); typed(p, v, "dynamic packet"); out(dart::packet::view(p), "dynamic packet view");
    auto uh = build<dart::unsafe_heap>(v); out(uh, "unsafe dynamic value");
    auto w = build<dart::heap>(Val::obj({{"w", v}})); dart::buffer root = w.finalize(); dart::buffer b = root["w"]; out(b, "finalized element"); typed(b, v, "finalized element"); out(dart::buffer::view(b), "finalized view");
    dart::packet pw {root}; dart::packet pb = pw["w"]; out(pb, "finalized packet element"); typed(pb, v, "finalized packet");
    out(b.definalize(), "definalized element");
    if (v.aggregate()) {} { auto ur = dart::buffer::transmogrify<dart::unsafe_ptr>(root); auto ub = ur["w"]; out(ub, "finalized element, other counter"); }
  }
  if (v.k == Val::Obj) { auto b = h.finalize(); out(b, "finalized object"); dart::packet p(b); out(p, "finalized packet"); }
  denotes(v); mc::nontrivial(); mc::state(hash(v));
}

MC_SPACE(scal, "scalars", "every finite boundary scalar at the root, as field, as element and nested, in 15 representations and wrappers") {
  Val v = pick(scalars()); if (v.k == Val::Dec && !std::isfinite(v.d)) mc::prune();
  switch (choose(4)) { case 0: judge(v); break; case 1: judge(Val::obj({{"a", v}, {"", v}})); break; case 2: judge(Val::arr({v, Val::null(), v})); break; default: judge(Val::obj({{"x", Val::arr({Val::obj({{"y", v}})})}})); }
}
void utf8(unsigned c, std::string& o) { jm::Parser::utf8(c, o); }
MC_SPACE(bytes, "code-points", "every code point up to U+0800 and those around every UTF-8 boundary, as string and as key, alone, first, last, doubled") {
  int c = choose(2048 + 24); static unsigned const hi[] = {0x800, 0x801, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x7ff, 0x80, 0xff};
  std::string s; utf8(c < 2048 ? c : hi[c - 2048], s); int pos = choose(4); std::string t = pos == 0 ? s : pos == 1 ? s + "z" : pos == 2 ? "z" + s : s + s;
  if (choose(2)) judge(Val::obj({{t, Val::str("v")}}), pos == 0); else judge(Val::obj({{"k", Val::str(t)}}), pos == 0);
}
MC_SPACE_X(pieces, "strings", "every string of 0..4 (thorough 5) pieces over 14: quote, backslash, slash, control characters, NUL, DEL, letters that follow a backslash in escapes, 2- 3- and 4-byte UTF-8; as value and key", 3, true) {
  static std::string const c[] = {"\"", "\\", "/", std::string(1, '\0'), "\x01", "\x1f", "\n", "\x7f", "u", "n", "0", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}; int key = choose(2), n = choose(mc::thorough() ? 6 : 5); std::string s; for (int i = 0; i < n; ++i) s += c[choose(14)];
  judge(key ? Val::obj({{s, Val::integer(1)}}) : Val::obj({{"k", Val::str(s)}}), n < 2);
}
MC_SPACE(ints, "integers", "every power of two and of ten, its neighbours and negations") {
  int k = choose(64 + 19), d = choose(5) - 2; uint64_t u = k < 64 ? 1ull << k : [&] { uint64_t t = 1; for (int i = 64; i < k; ++i) t *= 10; return t; }(); int64_t i = (int64_t) (u + d); if (choose(2)) i = (int64_t) (0 - (uint64_t) i); judge(Val::obj({{"i", Val::integer(i)}, {"a", Val::arr({Val::integer(i)})}}), false);
}
MC_SPACE(decs, "decimals", "15 mantissas times every power of ten from -330 to 308 and every power of two with its neighbours, both signs") {
  double d; int neg = choose(2);
  if (choose(2)) { int e = choose(2098) - 1074, n = choose(3); d = ldexp(1.0, e); if (n) d = nextafter(d, n == 1 ? 0 : INFINITY); }
  else { static char const* m[] = {"1", "1.5", "2", "9", "9.9", "1.1", "1.23456789012345", "1.7976931348623157", "2.2250738585072014", "9.007199254740993", "3.3333333333333335", "5", "4.9406564584124654", "6.02214076", "1.0000000000000002"}; int e = choose(640) - 330; d = strtod((std::string(pick(m)) + "e" + std::to_string(e)).c_str(), nullptr); }
  if (!std::isfinite(d)) mc::prune(); if (neg) d = -d; judge(Val::obj({{"d", Val::decimal(d)}}), false);
}
MC_SPACE(fixed, "fixed-point", "every decimal k / 10^n with k up to 2000 and n up to 8, and every half, quarter and eighth up to 512") {
  double d; if (choose(2)) { int n = choose(9), k = choose(2000); d = k; for (int i = 0; i < n; ++i) d /= 10; char b[64]; snprintf(b, sizeof b, "%de-%d", k, n); d = strtod(b, nullptr); } else d = choose(4096) / 8.0; judge(Val::obj({{"d", Val::decimal(d)}}), false);
}
Val gen(int& budget, int depth) {
  int k = choose(depth ? 7 : 5);
  switch (k) { case 0: return Val::null(); case 1: return Val::boolean(true); case 2: return Val::integer(7); case 3: return Val::str("s"); case 4: return Val::decimal(1); default: break; }
  int n = choose(std::min(budget, 3) + 1); budget -= n; Val r = k == 5 ? Val::arr() : Val::obj(); static char const* keys[] = {"a", "", "bb"};
  for (int i = 0; i < n; ++i) { Val e = gen(budget, depth - 1); if (k == 5) r.a.push_back(e); else r.o[keys[i]] = e; } return r;
}
MC_SPACE_X(trees, "trees", "every object tree of at most 4 (thorough 5) nodes below the root, depth 3, 5 leaves, in all representations", 4, true) {
  int budget = mc::thorough() ? 5 : 4; Val r = Val::obj(); static char const* keys[] = {"a", "", "bb"}; int n = choose(4); budget -= n; for (int i = 0; i < n; ++i) r.o[keys[i]] = gen(budget, 2); judge(r, true);
}
MC_SPACE(made, "produced", "values of 3 field layouts out of 17 each over all 24 producing paths: the text does not depend on how the value came to be") {
  int path = choose(paths::kPaths); Val v = Val::obj({{"a", layout_values()[choose(17)]}, {"bb", layout_values()[choose(17)]}, {"", Val::str("e")}}); dart::buffer b; if (!paths::produce(path, v, b)) mc::prune();
  have_text = false; out(build<dart::heap>(v), "dynamic value"); out(b, paths::name(path)); out(b.lift(), std::string("lifted: ") + paths::name(path)); denotes(v);
}
MC_SPACE(big, "large", "strings, keys, arrays and objects of sizes around 13..17, 255, 256, 512 and 65535, deep nesting") {
  static int const l[] = {0, 1, 13, 14, 15, 16, 17, 254, 255, 256, 257, 511, 512, 513, 65535, 65536}; int n = pick(l); Val v;
  switch (choose(6)) { case 0: v = Val::obj({{"s", Val::str(rep('x', n))}}); break; case 1: if (n > 65535) mc::prune(); v = Val::obj({{rep('k', n), Val::str("\"")}}); break; case 2: v = Val::obj({{"s", Val::str(rep('\1', n))}}); break;
    case 3: { Val a = Val::arr(); for (int i = 0; i < n && n < 1000; ++i) a.a.push_back(Val::integer(i)); v = Val::obj({{"a", a}}); break; }
    case 4: { v = Val::obj(); for (int i = 0; i < n && n < 1000; ++i) v.o["f" + std::to_string(i)] = Val::boolean(i % 2); break; }
    default: { v = Val::integer(1); for (int i = 0; i < n && n < 600; ++i) v = i % 2 ? Val::arr({v}) : Val::obj({{"d", v}}); v = Val::obj({{"r", v}}); } }
  judge(v, n < 600);
}
MC_SPACE(nonfin, "non-finite-with-flag", "NaN and infinities as field, element and nested, written with the write_nan flag, in every representation, and parsed back with parse_nan") {
  static double const x[] = {NAN, INFINITY, -INFINITY}; Val d = Val::decimal(pick(x)); Val v = Val::obj(); int k = choose(4); v = k == 0 ? Val::obj({{"n", d}}) : k == 1 ? Val::obj({{"a", Val::arr({d, Val::integer(1), d})}}) : k == 2 ? Val::obj({{"o", Val::obj({{"n", d}, {"z", d}})}}) : Val::obj({{"", Val::decimal(1.5)}, {"n", d}});
  MC_NOTE(dump(v)); have_text = false; auto h = build<dart::heap>(v); text_is(h.to_json<dart::write_nan>(), "dynamic"); auto b = h.finalize(); text_is(b.to_json<dart::write_nan>(), "finalized"); text_is(dart::packet(b).to_json<dart::write_nan>(), "packet"); text_is(build<dart::packet>(v).to_json<dart::write_nan>(), "dynamic packet"); text_is(dart::heap::object(h).to_json<dart::write_permissive>(), "typed");
  Val got; MC_CHECK(jm::parse(want_text, got, jm::Nan) == jm::ok && same(got, v), "write_nan", dump(v) + " is written as " + mc::show(want_text, 200)); expect(dart::heap::from_json<dart::parse_nan>(want_text), v, "non-finite parsed back (dynamic)"); expect(dart::buffer::from_json<dart::parse_nan>(want_text), v, "non-finite parsed back (finalized)"); mc::step(); mc::nontrivial(); mc::state(hash(v));
}
}
