// C10: everything produced validates; nothing shorter does.
#include "paths.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {
struct Region {
  gsl::byte* p; size_t n;
  Region(void const* src, size_t len, size_t extra, int fill) : n(len + extra) { void* v = nullptr; if (posix_memalign(&v, 64, n ? n : 1)) abort(); p = static_cast<gsl::byte*>(v); if (len) memcpy(p, src, len); if (extra) memset(p + len, fill, extra); }
  ~Region() { free(p); }
  Region(Region const&) = delete;
};
bool valid(Region const& r) {
  bool a = dart::is_valid(r.p, r.n), b = dart::is_valid(gsl::span<gsl::byte const>(r.p, r.n)); Err e = attempt([&] { dart::validate(r.p, r.n); });
  MC_CHECK(a == b && a == (e == Err::none), "validators disagree", "is_valid(pointer), is_valid(span) and validate() disagree"); MC_CHECK(a || e == Err::validation, "wrong error", std::string("validate() gives ") + name(e)); return a;
}
// All prefixes when small; near the ends and at every alignment step otherwise.
void judge(dart::buffer const& b, std::string const& what) {
  auto bytes = b.get_bytes(); size_t n = bytes.size(); mc::step();
  MC_CHECK(n >= 8, "too small", what + " reports " + std::to_string(n) + " bytes");
  { Region r(bytes.data(), n, 0, 0); MC_CHECK(valid(r), "rejected: " + what, what + " is rejected by validation: " + hex((unsigned char const*) bytes.data(), n)); }
  for (size_t extra : {1, 8, 64}) for (int fill : {0, 255}) { Region r(bytes.data(), n, extra, fill); MC_CHECK(valid(r), "larger region rejected: " + what, what + " is rejected when followed by " + std::to_string(extra) + " more bytes"); }
  for (size_t k = 0; k < n; ++k) { if (n > 400 && k > 64 && k + 64 < n && k % 97) continue; Region r(bytes.data(), k, 0, 0); MC_CHECK(!valid(r), "prefix accepted: " + what, "the first " + std::to_string(k) + " of the " + std::to_string(n) + " bytes of " + what + " are accepted"); }
  mc::state(mc::fnv(bytes.data(), n)); mc::nontrivial();
}
void nested(dart::buffer const& b, std::string const& what, int depth) { for (auto it = b.begin(); depth && it != b.end(); ++it) { dart::buffer e = *it; if (e.is_object()) judge(e, "a nested object of " + what); if (e.is_object() || e.is_array()) nested(e, what, depth - 1); } }
void go(int path, Val const& v) {
  MC_NOTE(dump(v) + " by " + paths::name(path)); dart::buffer b; if (!paths::produce(path, v, b)) mc::prune();
  expect(b, v, paths::name(path)); judge(b, paths::name(path)); nested(b, paths::name(path), 3);
}
MC_SPACE(two, "two-fields", "objects of 1..2 fields, 3 key lengths each, 17 value layouts each, by all 24 producing paths") {
  int path = choose(paths::kPaths), n = 1 + choose(2); Val v = Val::obj(); for (int i = 0; i < n; ++i) { static int const kl[] = {0, 1, 3, 6}; std::string k = rep(char('a' + i), kl[choose(mc::thorough() ? 4 : 2 + i)]); Val x = pick(layout_values()); v.o[k] = x; } go(path, v);
}
MC_SPACE(three, "three-fields", "objects of 3 fields over 9 (thorough 17) layouts, by 6 (thorough all) paths") {
  int path = mc::thorough() ? choose(paths::kPaths) : std::vector<int> {0, 4, 5, 8, 17, 23}[choose(6)], L = mc::thorough() ? 17 : 9; Val v = Val::obj(); for (int i = 0; i < 3; ++i) v.o[rep(char('a' + i), 1 + i)] = layout_values()[choose(L) * (mc::thorough() ? 1 : 2) % 17]; go(path, v);
}
MC_SPACE(arrs, "arrays", "arrays of 0..3 elements over 17 layouts inside an object, by 5 (thorough all) paths") {
  int path = mc::thorough() ? choose(paths::kPaths) : std::vector<int> {0, 6, 8, 11, 17}[choose(5)], n = choose(mc::thorough() ? 4 : 4); Val a = Val::arr(); for (int i = 0; i < n; ++i) a.a.push_back(layout_values()[mc::thorough() || i < 2 ? choose(17) : choose(5) * 3]); go(path, Val::obj({{"k", a}, {"z", Val::null()}}));
}
MC_SPACE(scal, "scalars", "every boundary scalar under keys of every length 0..4 and 253..257, alone, in arrays and nested, by all paths") {
  int path = choose(paths::kPaths), kl = choose(10); Val x = pick(scalars()); std::string k = rep('k', kl < 5 ? kl : 248 + kl);
  switch (choose(3)) { case 0: go(path, Val::obj({{k, x}})); break; case 1: go(path, Val::obj({{k, Val::arr({x, Val::null(), x})}})); break; default: go(path, Val::obj({{k, Val::obj({{k, x}, {"", x}})}})); }
}
MC_SPACE(nulls, "nulls", "every arrangement of nulls and one-byte values in objects and arrays of up to 5 elements, by all paths") {
  int path = choose(paths::kPaths), n = choose(6), mask = choose(1 << n), arr = choose(2); Val v = arr ? Val::arr() : Val::obj(); for (int i = 0; i < n; ++i) { Val x = mask >> i & 1 ? Val::null() : Val::boolean(true); if (arr) v.a.push_back(x); else v.o[std::string(1, char('a' + i))] = x; } go(path, arr ? Val::obj({{"a", v}}) : v);
}
MC_SPACE(big, "large", "strings and keys around 255, 256, 65535 and 65536 bytes, deep nesting up to 60 and objects up to 120 fields, by all paths") {
  int path = choose(paths::kPaths), kind = choose(4); Val v;
  if (kind == 0) { static size_t const l[] = {254, 255, 256, 65534, 65535, 65536, 65537}; v = Val::obj({{"s", Val::str(rep('x', pick(l)))}, {"t", layout_values()[choose(17)]}}); }
  else if (kind == 1) { static size_t const l[] = {254, 255, 256, 65534, 65535}; auto n = pick(l); v = Val::obj({{rep('k', n), layout_values()[choose(17)]}, {rep('l', n), Val::null()}}); }
  else if (kind == 2) { int d = choose(61); v = Val::integer(1); for (int i = 0; i < d; ++i) v = i % 2 ? Val::arr({v, Val::null()}) : Val::obj({{"d", v}}); v = Val::obj({{"r", v}}); }
  else { int n = choose(13) * 10; v = Val::obj(); for (int i = 0; i < n; ++i) v.o["f" + std::to_string(i)] = layout_values()[i * 7 % 17]; }
  go(path, v);
}
}
