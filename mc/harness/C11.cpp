// C11: the bytes are a function of the value alone and follow the documented layout.
#include "paths.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {
// Fills recycled memory with a chosen byte before producing, so that stale contents would show.
void poison(int fill, size_t upto) { static size_t const sizes[] = {16, 24, 32, 40, 48, 64, 72, 80, 96, 112, 128, 160, 192, 256, 320, 384, 512, 1024, 2048}; for (size_t s : sizes) if (s <= upto) for (int k = 0; k < 2; ++k) { void* v; if (posix_memalign(&v, 64, s)) abort(); memset(v, fill, s); free(v); } }
void judge(dart::buffer const& b, Val const& v, std::string const& what) {
  Bytes want = encode(v); auto got = b.get_bytes(); mc::step();
  if ((size_t) got.size() != want.size() || memcmp(got.data(), want.data(), want.size())) mc::fail("wrong bytes: " + what, dump(v) + " by " + what + " is\n  " + hex((unsigned char const*) got.data(), got.size()) + "\nbut the format says\n  " + hex(want.data(), want.size()));
  MC_CHECK(got.size() % 8 == 0 && (uintptr_t) got.data() % 8 == 0, "alignment: " + what, what + " is not laid out on 8 byte boundaries");
  mc::state(mc::fnv(want.data(), want.size())); mc::nontrivial();
}
void nested(dart::buffer const& b, Val const& v, std::string const& what) {
  if (v.k == Val::Obj) { judge(b, v, what); for (auto& e : v.o) if (e.second.aggregate()) { dart::buffer x = b[sv(e.first)]; nested(x, e.second, "a nested value of " + what); } }
  else if (v.k == Val::Arr) for (size_t i = 0; i < v.a.size(); ++i) if (v.a[i].aggregate()) { dart::buffer x = b[i]; nested(x, v.a[i], "an element of " + what); }
}
void go(int path, Val const& v) { MC_NOTE(dump(v) + " by " + paths::name(path)); dart::buffer b; if (!paths::produce(path, v, b)) mc::prune(); nested(b, v, paths::name(path)); size_t n = b.get_bytes().size(), m = 0; auto d = b.dup_bytes(m); MC_CHECK(m == n && !memcmp(d.get(), b.get_bytes().data(), n), "dup_bytes", "dup_bytes() differs from get_bytes()"); }
MC_SPACE(one, "one-field", "every boundary scalar and layout value under keys of 13 shapes, by all 28 producing paths") {
  static std::vector<std::string> const ks {"", "a", "ab", "abc", rep('k', 7), rep('k', 8), rep('k', 254), rep('k', 255), rep('k', 256), std::string("\0", 1), std::string("\0b", 2), "\x7f\x01", "\x01z"};
  int path = choose(paths::kPaths), i = choose((int) (scalars().size() + layout_values().size())); auto& k = pick(ks); go(path, Val::obj({{k, i < (int) scalars().size() ? scalars()[i] : layout_values()[i - scalars().size()]}}));
}
MC_SPACE(two, "two-fields", "objects of 2 fields: 17 x 17 layouts x 12 key length pairs, by all paths") {
  int path = choose(paths::kPaths), kl = choose(12); auto& a = pick(layout_values()); auto& b = pick(layout_values()); go(path, Val::obj({{rep('a', kl / 3), a}, {rep('b', kl % 3 + (kl > 2)), b}}));
}
MC_SPACE(three, "three-fields", "objects of 3 (thorough 4) fields over 17^3 (17^4) layouts, by all paths") {
  int path = choose(paths::kPaths); auto& a = pick(layout_values()); auto& b = pick(layout_values()); auto& c = pick(layout_values()); Val v = Val::obj({{"a", a}, {"bb", b}, {"ccc", c}}); if (mc::thorough()) v.o["dddd"] = pick(layout_values()); go(path, v);
}
MC_SPACE(arrs, "arrays", "arrays of 0..3 elements over 17^3 layouts in an object, by all paths") {
  int path = choose(paths::kPaths), n = choose(4); Val a = Val::arr(); for (int i = 0; i < n; ++i) a.a.push_back(pick(layout_values())); go(path, Val::obj({{"k", a}, {"kk", Val::boolean(true)}}));
}
MC_SPACE(keys, "key-order", "every ordered selection of 3 (thorough 4) out of 12 keys (prefixes of each other, bytes around 0x7f/0x80, NULs, lengths around 255), inserted in that order into the dynamic form and into a span for the finalized form") {
  static std::vector<std::string> const ks {"", "a", "b", "aa", "ab", std::string("a\0", 2), "\x7f", "\x80", "\xff", rep('x', 254) + "a", rep('x', 254) + "b", rep('x', 255) + "a"};
  int n = mc::thorough() ? 4 : 3, how = choose(3); std::vector<int> o; Val v = Val::obj(); for (int i = 0; i < n; ++i) { int k = choose(12); for (int x : o) if (x == k) mc::prune(); o.push_back(k); v.o[ks[k]] = layout_values()[(k * 5 + 3) % 17]; }
  std::string s; for (int k : o) s += mc::show(ks[k]) + " "; MC_NOTE("insert " + s + "form " + std::to_string(how)); dart::buffer b;
  if (how == 0) { auto h = dart::heap::make_object(); for (int k : o) h.add_field(sv(ks[k]), build<dart::heap>(v.o[ks[k]])); b = h.finalize(); }
  else if (how == 1) { std::vector<dart::packet> kv; for (int k : o) { kv.push_back(dart::packet::make_string(sv(ks[k]))); kv.push_back(build<dart::packet>(v.o[ks[k]])); } b = dart::buffer::make_object(gsl::span<dart::packet const>(kv.data(), kv.size())); }
  else { b = dart::heap::make_object().finalize(); for (int k : o) { std::vector<dart::heap> kv {dart::heap::make_string(sv(ks[k])), build<dart::heap>(v.o[ks[k]])}; b = b.inject(gsl::span<dart::heap const>(kv.data(), 2)); } }
  judge(b, v, how == 0 ? "finalize()" : how == 1 ? "make_object(span)" : "repeated inject");
}
MC_SPACE(big, "large", "strings around the 16 bit length, flat objects and arrays of 0..200 (thorough 600) elements, nesting 0..40, by all paths") {
  int path = choose(paths::kPaths), kind = choose(4); Val v;
  if (kind == 0) { static size_t const l[] = {13, 14, 15, 16, 17, 65534, 65535, 65536, 65537, 70000}; v = Val::obj({{"s", Val::str(rep('x', pick(l)))}, {"t", layout_values()[choose(17)]}}); }
  else if (kind == 1) { int n = choose(mc::thorough() ? 601 : 21) * (mc::thorough() ? 1 : 10); v = Val::obj(); for (int i = 0; i < n; ++i) v.o[rep('f', i % 4) + std::to_string(i)] = layout_values()[i * 7 % 17]; }
  else if (kind == 2) { int n = choose(mc::thorough() ? 601 : 21) * (mc::thorough() ? 1 : 10); v = Val::arr(); for (int i = 0; i < n; ++i) v.a.push_back(layout_values()[i * 5 % 17]); v = Val::obj({{"a", v}}); }
  else { int d = choose(41); v = Val::str("x"); for (int i = 0; i < d; ++i) v = i % 2 ? Val::arr({Val::boolean(true), v}) : Val::obj({{"d", v}, {"e", Val::integer(i)}}); v = Val::obj({{"r", v}}); }
  go(path, v);
}
MC_SPACE(stale, "stale-memory", "17 x 17 layouts by 12 paths, with recycled memory filled with 0x00, 0xff and 0x5a beforehand: identical bytes each time") {
  static int const ps[] = {0, 4, 5, 8, 11, 14, 17, 12, 21, 24, 25, 26}; int path = pick(ps), fill = std::vector<int> {0, 255, 0x5a}[choose(3)]; auto& a = pick(layout_values()); auto& b = pick(layout_values()); poison(fill, 2048); go(path, Val::obj({{"a", a}, {"bcd", b}, {"q", Val::boolean(true)}}));
}
}
