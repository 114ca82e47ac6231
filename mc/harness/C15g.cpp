// C15: native operands.
#include "c15.hpp"
namespace {
// Native operands: numbers are compared as C++ compares them.
template <class T> void native(Val const& v, T const& n, bool want, std::string const& what) { for (int r = 0; r < kReps; ++r) with(r, v, [&] (auto& x) { cmp(x, n, want, std::string(rep_name[r]) + " and native " + what); }); for (int r = 0; r < 4; ++r) with_w(r, v, [&] (auto const& x) { cmp(x, n, want, std::string("wrapped ") + rep_name[r] + " and native " + what); }); }
template <class T> void num(Val const& v, T n, char const* what) { bool want = v.k == Val::Int ? (std::is_integral<T>::value ? v.i == (int64_t) n : (double) v.i == (double) n) : v.k == Val::Dec ? (std::is_integral<T>::value ? v.d == (double) (int64_t) n : v.d == (double) n) : false; native(v, n, want, what); }
std::vector<Val> const& nums() { static std::vector<Val> const v = [] { auto r = scalars(); for (int64_t i : {127, 128, 255, 256, -128, 65535, 65536}) { r.push_back(Val::integer(i)); r.push_back(Val::decimal((double) i)); } r.push_back(Val::decimal(1)); r.push_back(Val::decimal(-1)); r.push_back(Val::decimal(9.2233720368547758e18)); r.push_back(Val::decimal(0.1f)); return r; }(); return v; }
template <class T> void boundary(Val const& v, char const* what) { T const x[] = {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(127), T(65535), T(100)}; num(v, pick(x), what); }
MC_SPACE(natnum, "native-numbers", "60 scalars against boundary values of 13 native number types, in 13 representations and 4 wrappers, both operand orders") {
  auto& v = pick(nums()); MC_NOTE(dump(v) + " and a native number");
  switch (choose(13)) { case 0: boundary<signed char>(v, "int8"); break; case 1: boundary<unsigned char>(v, "uint8"); break; case 2: boundary<short>(v, "int16"); break; case 3: boundary<unsigned short>(v, "uint16"); break; case 4: boundary<int>(v, "int"); break; case 5: boundary<unsigned>(v, "unsigned"); break; case 6: boundary<long>(v, "long"); break; case 7: boundary<unsigned long>(v, "unsigned long"); break; case 8: boundary<long long>(v, "long long"); break; case 9: boundary<char>(v, "char"); break;
    case 10: { float const x[] = {0.f, 1.f, -1.f, .1f, 1.5f, INFINITY, 3.4028234663852886e38f}; num(v, pick(x), "float"); break; } case 11: { double const x[] = {0, 1, -1, .1, (double) .1f, 1.5, INFINITY, 9007199254740992.0, 32767, 1e300, 5e-324}; num(v, pick(x), "double"); break; } default: { bool b = choose(2); native(v, b, v.k == Val::Bool && v.b == b, "bool"); } } mc::state(hash(v));
}
MC_SPACE(natstr, "native-strings", "all 76 values against 14 native strings as char pointer, array, std::string and string_view, nullptr") {
  auto& v = pick(fam()); if (v.s.size() > 60000) mc::prune(); static std::string const s[] = {"", "a", "b", "aa", std::string("a\0b", 3), std::string("a\0", 2), std::string(1, '\0'), "1", "null", rep('s', 15), rep('s', 16), rep('s', 300), rep('s', 18) + std::string("\0t", 2), rep('s', 18) + std::string("\0u", 2)}; auto& t = pick(s); int k = choose(5); MC_NOTE(dump(v) + " and " + mc::show(t));
  if (k == 0) native(v, t, v.k == Val::Str && v.s == t, "string"); else if (k == 1) native(v, sv(t), v.k == Val::Str && v.s == t, "string_view"); else if (k == 2) native(v, t.c_str(), v.k == Val::Str && v.s == t.c_str(), "char const*"); else if (k == 3) { if (&t != s) mc::prune(); native(v, nullptr, v.k == Val::Null, "nullptr"); } else { if (&t != s) mc::prune(); native(v, "aa", v.k == Val::Str && v.s == "aa", "literal"); } mc::state(hash(v));
}
}
