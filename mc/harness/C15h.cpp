// C15: values that differ in exactly one byte, one bit or one element, at every position.
#include "c15.hpp"
namespace {
void both(int r1, int r2, Val const& a, Val const& b) {
  (r1 < 3 ? c15_both_a : r1 < 6 ? c15_both_b : r1 < 10 ? c15_both_c : c15_both_d)(r1, r2, a, b);
  mc::state(mc::mix(hash(a), hash(b))); if (!same(a, b)) mc::nontrivial();
}
MC_SPACE(bytes, "one-byte", "strings of lengths 1 to 18, 31 to 33, 40 (thorough also 255 to 257, 300) differing at every position in one of 6 byte pairs, over 3 fillings, alone and as an element, in 13 representations against 6 (thorough 13)") {
  static std::vector<int> const lens = [] { std::vector<int> r; for (int i = 1; i <= 18; ++i) r.push_back(i); for (int i : {31, 32, 33, 40}) r.push_back(i); if (mc::thorough()) for (int i : {255, 256, 257, 300}) r.push_back(i); return r; }();
  int len = pick(lens), pos = choose(len); if (!mc::thorough() && len > 18 && pos % 3 && pos != len - 1) mc::prune();
  int fill = choose(3);
  static std::pair<char, char> const pairs[] = {{'a', 'b'}, {'\0', 'a'}, {'a', '\0'}, {'\x7f', '\x80'}, {'\xff', '\0'}, {'A', 'a'}};
  auto pr = pairs[choose(6)];
  std::string a(len, fill == 0 ? 's' : fill == 1 ? '\0' : '\xff'); if (fill == 2) for (int i = 0; i < len; i += 2) a[i] = '\0';
  std::string b = a; a[pos] = pr.first; b[pos] = pr.second; if (a == b) mc::prune();
  bool nested = mc::flip(); Val va = Val::str(a), vb = Val::str(b); if (nested) { va = Val::arr({va, Val::integer(1)}); vb = Val::arr({vb, Val::integer(1)}); }
  MC_NOTE("strings of " + std::to_string(len) + " bytes differing at " + std::to_string(pos));
  int r1 = choose(mc::thorough() ? 13 : 6); static int const rs[] = {0, 1, 2, 3, 5, 8}; int r2 = mc::thorough() ? choose(13) : rs[choose(6)];
  both(mc::thorough() ? r1 : rs[r1], r2, va, vb);
  if (!mc::thorough() || r2 == 0) both(mc::thorough() ? r1 : rs[r1], r2, va, va);
}
MC_SPACE(lengths, "one-longer", "strings where one is the other followed by one byte (null or not), all lengths 0 to 40, in 13 by 13 representations") {
  int len = choose(41), t = choose(3), f = choose(2); std::string a(len, f ? '\0' : 's'), b = a + (t == 0 ? '\0' : t == 1 ? 's' : '\xff');
  int r1 = choose(13), r2 = choose(13); MC_NOTE("strings of " + std::to_string(len) + " and one more"); both(r1, r2, Val::str(a), Val::str(b)); both(r1, r2, Val::str(b), Val::str(a));
}
MC_SPACE(bits, "one-bit", "integers and finite decimals differing in exactly one of 64 bits, over 8 integers and 6 decimals, in 13 by 13 representations") {
  bool dec = mc::flip(); int bit = choose(64); Val a, b;
  if (dec) {
    static double const ds[] = {1.0, 0.1, -2.5, 1e300, 5e-310, 16777216.0}; double d = pick(std::vector<double>(ds, ds + 6)), e; uint64_t u; memcpy(&u, &d, 8); u ^= 1ull << bit; memcpy(&e, &u, 8); if (e != e || e == d) mc::prune(); a = Val::decimal(d); b = Val::decimal(e);
  } else { static int64_t const is[] = {0, 1, -1, 32767, -32768, 2147483647, INT64_MAX, INT64_MIN}; int64_t i = pick(std::vector<int64_t>(is, is + 8)); a = Val::integer(i); b = Val::integer(int64_t(uint64_t(i) ^ 1ull << bit)); }
  int r1 = choose(13), r2 = choose(13); if (!mc::thorough() && r1 != r2 && r2 > 3) mc::prune(); MC_NOTE(dump(a) + " and " + dump(b)); both(r1, r2, a, b);
}
MC_SPACE(elems, "one-element", "arrays and objects of 1 to 12 members differing in exactly one member or key, in 13 by 6 representations") {
  int n = 1 + choose(12), at = choose(n), how = choose(4); bool obj = how > 0; Val a = obj ? Val::obj() : Val::arr(), b = a;
  std::vector<std::pair<std::string, Val>> fa, fb; std::vector<Val> ea, eb;
  for (int i = 0; i < n; ++i) { std::string k = "k" + std::string(1, char('a' + i)); Val v = Val::integer(i); if (obj) { fa.push_back({k, v}); if (i != at) fb.push_back({k, v}); else if (how == 1) fb.push_back({k, Val::integer(100)}); else if (how == 2) fb.push_back({k + "x", v}); else fb.push_back({k, Val::null()}); } else { ea.push_back(v); eb.push_back(i == at ? Val::str("x") : v); } }
  if (obj) { for (auto& f : fa) a.o[f.first] = f.second; for (auto& f : fb) b.o[f.first] = f.second; } else { a.a = ea; b.a = eb; }
  static int const rs[] = {0, 1, 2, 3, 5, 8}; int r1 = choose(13), r2 = rs[choose(6)]; MC_NOTE(dump(a) + " and " + dump(b)); both(r1, r2, a, b); both(r1, r2, a, a);
}
}
