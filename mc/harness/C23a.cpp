// C23: ordered integers and the string view against native integers and std::string_view.
#include "../model.hpp"
#include <dart/support/ordered.h>
#include <dart/support/string_view.h>
#include <sstream>
#include <string_view>
using namespace mdl;
using mc::choose;
namespace {
// ------------------------------------------------------------------------------------------------ ordered
template <class T> std::vector<T> values() {
  std::vector<T> r;
  if (std::is_floating_point<T>::value) { for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -3.25, 100.0, 300.0, 1e9, -1e9, 3.0e18, 1e-3}) r.push_back(T(d)); return r; }
  if (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) r.push_back(T(i)); return r; }
  auto mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
  for (int i : {0, 1, 2, 3, 7, 100, 127}) r.push_back(T(i));
  for (T t : {mn, T(mn + 1), T(mx - 1), mx, T(mx / 2), T(mx / 2 + 1), T(0x0123456789abcdefull), T(0xfedcba9876543210ull), T(0x8000), T(0xff00), T(0x00ff), T(-1), T(-2), T(-3), T(-128), T(300), T(-300)}) r.push_back(t);
  return r;
}
std::string num(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
template <class T> std::enable_if_t<std::is_floating_point<T>::value, std::string> str(T t) { return num(t); }
template <class T> std::enable_if_t<std::is_integral<T>::value, std::string> str(T t) { return t < T(0) ? std::to_string((long long) t) : std::to_string((unsigned long long) t); }
template <class T> bool same_bits(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }
// Is x op= w defined in C++?
template <class T, class W> bool defined(int op, T x, W w) {
  using P = decltype(x + w);
  P a = P(x), b = P(w), r {};
  if constexpr (std::is_floating_point<P>::value) {
    if (op == 3 && b == 0) return false;
    r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
    if (std::isnan(r)) return false;
    if (std::is_integral<T>::value) { long double l = r; if (l <= (long double) std::numeric_limits<T>::min() - 1 || l >= (long double) std::numeric_limits<T>::max() + 1) return false; }
    else if (std::isinf(r) || std::fabs((long double) r) > (long double) std::numeric_limits<T>::max()) return false;
    return true;
  } else {
    if (op == 3) { if (b == 0) return false; if (std::is_signed<P>::value && a == std::numeric_limits<P>::min() && b == P(-1)) return false; return true; }
    if (!std::is_signed<P>::value) return true;
    return op == 0 ? !__builtin_add_overflow(a, b, &r) : op == 1 ? !__builtin_sub_overflow(a, b, &r) : op == 2 ? !__builtin_mul_overflow(a, b, &r) : true;
  }
}
template <class T> void want_bytes(void const* p, T v, bool big, std::string const& what) {
  unsigned char w[sizeof(T)]; std::memcpy(w, &v, sizeof v); if (big) std::reverse(w, w + sizeof v);
  MC_CHECK(std::memcmp(p, w, sizeof v) == 0, "stored bytes", what + ": the stored bytes of " + str(v) + " are not in the declared order");
}
template <class T, class O> void want(dart::detail::ordered<T, O> const& o, T v, bool big, std::string const& what) {
  MC_CHECK(same_bits(o.get(), v) && same_bits(T(o), v), "ordered value", what + " is " + str(o.get()) + ", the native integer is " + str(v));
  want_bytes(&o, v, big, what);
}
char const* const kOps[] = {"+=", "-=", "*=", "/=", "&=", "|=", "^="};
template <class T, class O, class W> void arith(bool big) {
  using D = dart::detail::ordered<T, O>; static_assert(sizeof(D) == sizeof(T), "size");
  int op = choose(7);
  for (T x : values<T>()) for (W w : values<W>()) {
    if (op < 4) {
      if (!defined(op, x, w)) continue;
      T n = x; D d(x); mc::step(); mc::nontrivial();
      if (op == 0) { n += w; d += w; } else if (op == 1) { n -= w; d -= w; } else if (op == 2) { n *= w; d *= w; } else { n /= w; d /= w; }
      want(d, n, big, str(x) + " " + kOps[op] + " " + str(w));
    } else if constexpr (std::is_integral<T>::value && std::is_integral<W>::value) {
      T n = x; D d(x); mc::step();
      if (op == 4) { n &= w; d &= w; } else if (op == 5) { n |= w; d |= w; } else { n ^= w; d ^= w; }
      want(d, n, big, str(x) + " " + kOps[op] + " " + str(w));
    }
  }
  mc::state(op);
}
template <class T, class O> void unary(bool big) {
  using D = dart::detail::ordered<T, O>;
  auto vs = values<T>(); if (sizeof(T) == 2 && std::is_integral<T>::value) { vs.clear(); for (int i = 0; i < 65536; ++i) vs.push_back(T(i)); }
  for (T x : vs) {
    mc::step(); D z; want(z, T(0), big, "default"); D d(x); want(d, x, big, "constructed"); D c(d); want(c, x, big, "copied"); D m(std::move(c)); want(m, x, big, "moved"); z = x; want(z, x, big, "assigned"); D y; y = d; want(y, x, big, "assigned from another");
    T back = y.set(T(1)); want(y, T(1), big, "set"); MC_CHECK(back == T(1), "ordered value", "set() returned something else"); D raw; std::memcpy(&raw, &d, sizeof raw); want(raw, x, big, "reconstructed from its bytes");
    MC_CHECK(d == raw && !(d != raw), "ordered equality", str(x)); if (!same_bits(x, T(1)) && x != T(1)) MC_CHECK(d != y && !(d == y), "ordered equality", str(x));
    dart::detail::ordered<T, dart::detail::little_endian_tag> l(x); dart::detail::ordered<T, dart::detail::big_endian_tag> b(x); MC_CHECK(l == b && b == l && !(l != b), "ordered equality", "across byte orders: " + str(x));
    if (sizeof(T) > 1 && x != T(1)) { l.set(T(1)); MC_CHECK(l != b, "ordered equality", "across byte orders: " + str(x)); }
    T n = x;
    if (defined(0, x, 1)) { D e(x); MC_CHECK(same_bits(e++, x), "ordered increment", "post"); want(e, T(n + 1), big, "++"); D f(x); MC_CHECK(&++f == &f, "ordered increment", "pre"); want(f, T(n + 1), big, "++"); }
    if (defined(1, x, 1)) { D e(x); MC_CHECK(same_bits(e--, x), "ordered decrement", "post"); want(e, T(n - 1), big, "--"); D f(x); MC_CHECK(&--f == &f, "ordered decrement", "pre"); want(f, T(n - 1), big, "--"); }
    for (T w : {T(1), T(2), T(3)}) {
      if (defined(0, x, w)) { D e(x); MC_CHECK(same_bits(e.increment(w), T(x + w)), "ordered increment", "returned value"); want(e, T(x + w), big, "increment"); }
      if (defined(2, x, w)) { D e(x); MC_CHECK(same_bits(e.scale(w), T(x * w)), "ordered scale", "returned value"); want(e, T(x * w), big, "scale"); }
      if (defined(3, x, w)) { D e(x); MC_CHECK(same_bits(e.shrink(w), T(x / w)), "ordered shrink", "returned value"); want(e, T(x / w), big, "shrink"); }
      if constexpr (std::is_integral<T>::value) { D e(x); e.mask(w); want(e, T(x & w), big, "mask"); D f(x); f.fill(w); want(f, T(x | w), big, "fill"); D g(x); g.flip(w); want(g, T(x ^ w), big, "flip"); }
    }
  }
}
template <class T, class O> void ordered_type(bool big) {
  switch (choose(11)) {
    case 0: unary<T, O>(big); break;
    case 1: arith<T, O, int8_t>(big); break; case 2: arith<T, O, uint8_t>(big); break; case 3: arith<T, O, int16_t>(big); break; case 4: arith<T, O, uint16_t>(big); break;
    case 5: arith<T, O, int32_t>(big); break; case 6: arith<T, O, uint32_t>(big); break; case 7: arith<T, O, int64_t>(big); break; case 8: arith<T, O, uint64_t>(big); break;
    case 9: arith<T, O, float>(big); break; default: arith<T, O, double>(big); break;
  }
}
template <class O> void ordered_order(bool big) {
  switch (choose(10)) {
    case 0: ordered_type<int8_t, O>(big); break; case 1: ordered_type<uint8_t, O>(big); break; case 2: ordered_type<int16_t, O>(big); break; case 3: ordered_type<uint16_t, O>(big); break;
    case 4: ordered_type<int32_t, O>(big); break; case 5: ordered_type<uint32_t, O>(big); break; case 6: ordered_type<int64_t, O>(big); break; case 7: ordered_type<uint64_t, O>(big); break;
    case 8: ordered_type<float, O>(big); break; default: ordered_type<double, O>(big); break;
  }
}
MC_SPACE_X(ordered, "ordered integers", "{little, big} x 10 scalar types x 10 operand types x {construct, copy, assign, get, set, convert, ==, !=, ++, --, += -= *= /= &= |= ^=, named forms}: every 8-bit pair, every 16-bit value, boundary values of the rest; against the native type wherever the native operation is defined; stored bytes", 2, false) {
  if (choose(2)) ordered_order<dart::detail::big_endian_tag>(true); else ordered_order<dart::detail::little_endian_tag>(false);
}
MC_SPACE_X(ordered_misc, "ordered pointers, enumerations and flags", "pointer arithmetic, dereference and booleans in both orders", 1, false) {
  bool big = choose(2); int a[4] = {10, 11, 12, 13};
  auto go = [&] (auto o) {
    using P = decltype(o); o = &a[1]; MC_CHECK(o.get() == &a[1] && *o == 11, "ordered pointer", "deref"); want_ptr: (void) 0;
    ++o; MC_CHECK(*o == 12, "ordered pointer", "++"); o--; o -= 1; MC_CHECK(*o == 10, "ordered pointer", "-="); o += 3; MC_CHECK(*o == 13, "ordered pointer", "+="); P q(o); MC_CHECK(q == o, "ordered pointer", "copy"); mc::step(6); mc::nontrivial();
    int* raw = q; MC_CHECK(raw == &a[3], "ordered pointer", "conversion"); goto done; goto want_ptr; done:;
  };
  auto gob = [&] (auto o) { for (bool b : {false, true, false}) { o = b; MC_CHECK(o.get() == b && bool(o) == b && *reinterpret_cast<unsigned char*>(&o) == b, "ordered flag", "value"); } };
  enum class E : uint16_t {A = 1, B = 0x1234}; auto goe = [&] (auto o) { o = E::B; MC_CHECK(o.get() == E::B, "ordered enumeration", "value"); auto* c = reinterpret_cast<unsigned char*>(&o); MC_CHECK(c[0] == (big ? 0x12 : 0x34), "stored bytes", "enumeration"); };
  if (big) { go(dart::big_order<int*>()); gob(dart::big_order<bool>()); goe(dart::big_order<E>()); } else { go(dart::little_order<int*>()); gob(dart::little_order<bool>()); goe(dart::little_order<E>()); }
}
// -------------------------------------------------------------------------------------------- string view
template <class C> std::vector<std::basic_string<C>> words(std::initializer_list<C> alpha, size_t max) {
  std::vector<std::basic_string<C>> r(1); for (size_t i = 0; i < r.size(); ++i) if (r[i].size() < max) { auto w = r[i]; for (C c : alpha) r.push_back(w + c); } return r;
}
template <class C> std::string show(std::basic_string<C> const& s) { std::string r; for (C c : s) r += char(c); return mc::show(r); }
int sign(int i) { return (i > 0) - (i < 0); }
// An exactly sized allocation, so that reading past the end is caught.
template <class C> struct Exact { std::unique_ptr<C[]> p; size_t n; Exact(std::basic_string<C> const& s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); } dart::basic_string_view<C> d() const { return {p.get(), n}; } std::basic_string_view<C> s() const { return {p.get(), n}; } };
template <class F, class G> void agree(F&& lib, G&& ref, char const* what, std::string const& ctx) {
  mc::step(); long long a = 0, b = 0; bool ta = false, tb = false; std::string odd;
  try { b = (long long) ref(); } catch (std::out_of_range const&) { tb = true; }
  try { a = (long long) lib(); } catch (std::out_of_range const&) { ta = true; } catch (mc::Violation const&) { throw; } catch (std::exception const& e) { odd = e.what(); }
  MC_CHECK(odd.empty(), std::string("unexpected exception from ") + what, ctx + ": " + odd);
  if (b != -1) mc::nontrivial();
  MC_CHECK(ta == tb && a == b, std::string("string_view::") + what + " disagrees with std::string_view", ctx + ": " + (ta ? "out_of_range" : std::to_string(a)) + ", std gives " + (tb ? "out_of_range" : std::to_string(b)));
}
#define SV_BOTH(name, ctx, ...) agree([&] { return d.name(__VA_ARGS__); }, [&] { return s.name(__VA_ARGS__); }, #name, ctx)
template <class C> struct SvDomain { size_t base, target; std::initializer_list<C> alpha; };
template <class C> void search(std::initializer_list<C> alpha, size_t nb, size_t nt) {
  auto bases = words<C>(alpha, nb); auto targets = words<C>(alpha, nt); int fn = choose(6); size_t part = choose(16); auto npos = std::basic_string_view<C>::npos;
  std::vector<size_t> offs; for (size_t i = 0; i <= nb + 1; ++i) offs.push_back(i); offs.push_back(npos); offs.push_back(npos - 1); offs.push_back(npos / 2);
  for (size_t bi = part; bi < bases.size(); bi += 16) {
    Exact<C> e(bases[bi]); auto d = e.d(); auto s = e.s();
    for (auto& t : targets) {
      Exact<C> te(t); auto dt = te.d(); auto st = te.s(); bool z = t.find(C()) == t.npos; auto* c = t.c_str(); std::string ctx = show(bases[bi]) + " / " + show(t);
#define SV_SEARCH(name)                                                                                                                    \
      { agree([&] { return d.name(dt); }, [&] { return s.name(st); }, #name, ctx); if (z) SV_BOTH(name, ctx + " (pointer)", c);             \
        if (t.size() == 1) SV_BOTH(name, ctx + " (character)", t[0]);                                                                       \
        for (size_t o : offs) { std::string cx = ctx + " from " + (o > 100 ? "npos-" + std::to_string(npos - o) : std::to_string(o));       \
          agree([&] { return d.name(dt, o); }, [&] { return s.name(st, o); }, #name, cx); if (z) SV_BOTH(name, cx + " (pointer)", c, o);    \
          SV_BOTH(name, cx + " (pointer, count)", te.p.get(), o, te.n); if (t.size() == 1) SV_BOTH(name, cx + " (character)", t[0], o); } }
      switch (fn) { case 0: SV_SEARCH(find) break; case 1: SV_SEARCH(rfind) break; case 2: SV_SEARCH(find_first_of) break; case 3: SV_SEARCH(find_last_of) break; case 4: SV_SEARCH(find_first_not_of) break; default: SV_SEARCH(find_last_not_of) break; }
    }
  }
  mc::state(fn * 16 + part);
}
MC_SPACE_X(sv_search, "string view searches", "every string over {a, b, NUL} up to length 4 (thorough 6) x every target up to length 2 (thorough 3) x {find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of} x {view, character, pointer, pointer and count} x {no offset, 0..length+1, npos and neighbours}", 2, false) { search<char>({'a', 'b', '\0'}, mc::thorough() ? 6 : 4, mc::thorough() ? 3 : 2); }
MC_SPACE_X(sv_search16, "16-bit string view searches", "the same over char16_t with characters sharing a byte, lengths 3 and 2", 2, false) { search<char16_t>({u'a', char16_t(0x6161), char16_t(0x6100)}, mc::thorough() ? 4 : 3, 2); }
template <class C> void relate(std::initializer_list<C> alpha, size_t nb, size_t nt) {
  auto bases = words<C>(alpha, nb); auto targets = words<C>(alpha, nt); size_t part = choose(16), npos = std::basic_string_view<C>::npos;
  std::vector<size_t> offs; for (size_t i = 0; i <= nb + 1; ++i) offs.push_back(i); offs.push_back(npos);
  for (size_t bi = part; bi < bases.size(); bi += 16) {
    Exact<C> e(bases[bi]); auto d = e.d(); auto s = e.s(); std::string cb = show(bases[bi]);
    MC_CHECK(d.size() == s.size() && d.length() == s.size() && d.empty() == s.empty() && d.data() == s.data(), "string_view basics", cb);
    std::basic_string<C> f(d.begin(), d.end()), cf(d.cbegin(), d.cend()), r(d.rbegin(), d.rend()), cr(d.crbegin(), d.crend()); auto rev = bases[bi]; std::reverse(rev.begin(), rev.end());
    MC_CHECK(f == bases[bi] && cf == f && r == rev && cr == rev, "string_view iteration", cb); MC_CHECK(std::basic_string<C>(d) == bases[bi], "string_view conversion", cb); std::basic_string_view<C> conv(d); MC_CHECK(conv == s && dart::basic_string_view<C>(s) == d && dart::basic_string_view<C>(bases[bi]) == d, "string_view conversion", cb);
    if (!s.empty()) MC_CHECK(d.front() == s.front() && d.back() == s.back(), "string_view ends", cb);
    for (size_t o : offs) { if (o < s.size()) MC_CHECK(d[o] == s[o], "string_view index", cb); agree([&] { return d.at(o); }, [&] { return s.at(o); }, "at", cb + " at " + std::to_string(o));
      for (size_t n : offs) {
        std::string cx = cb + " (" + std::to_string(o) + ", " + std::to_string(n) + ")"; bool td = false, ts = false; std::basic_string<C> rd, rs; size_t od = 0, os = 0; try { auto x = d.substr(o, n); rd.assign(x.data(), x.size()); od = x.data() - d.data(); } catch (std::out_of_range const&) { td = true; } try { auto x = s.substr(o, n); rs = x; os = x.data() - s.data(); } catch (std::out_of_range const&) { ts = true; }
        mc::step(); MC_CHECK(td == ts && rd == rs && od == os, "string_view::substr", cx);
        std::basic_string<C> bd(8, C('.')), bs(8, C('.')); td = ts = false; size_t nd = 0, ns = 0; try { nd = d.copy(&bd[0], n, o); } catch (std::out_of_range const&) { td = true; } try { ns = s.copy(&bs[0], n, o); } catch (std::out_of_range const&) { ts = true; } MC_CHECK(td == ts && nd == ns && bd == bs, "string_view::copy", cx);
        if (o == 0 && n <= s.size()) { auto x = d; auto y = s; x.remove_prefix(n); y.remove_prefix(n); MC_CHECK(x.data() == y.data() && x.size() == y.size(), "string_view::remove_prefix", cx); x = d; y = s; x.remove_suffix(n); y.remove_suffix(n); MC_CHECK(x.data() == y.data() && x.size() == y.size(), "string_view::remove_suffix", cx); }
      } }
    for (auto& t : targets) {
      Exact<C> te(t); auto dt = te.d(); auto st = te.s(); bool z = t.find(C()) == t.npos; auto* c = t.c_str(); std::string ctx = cb + " / " + show(t); mc::nontrivial();
      agree([&] { return sign(d.compare(dt)); }, [&] { return sign(s.compare(st)); }, "compare", ctx); if (z) agree([&] { return sign(d.compare(c)); }, [&] { return sign(s.compare(c)); }, "compare", ctx + " (pointer)");
      MC_CHECK((d == dt) == (s == st) && (d != dt) == (s != st) && (d < dt) == (s < st) && (d <= dt) == (s <= st) && (d > dt) == (s > st) && (d >= dt) == (s >= st), "string_view comparison operators", ctx);
      if (z) MC_CHECK((d == c) == (s == c) && (c < d) == (c < s) && (d >= c) == (s >= c) && (d == t) == (s == t) && (t > d) == (t > s), "string_view comparison operators", ctx + " (mixed)");
      auto sw = [&] (auto a, auto b) { return a.size() >= b.size() && a.substr(0, b.size()) == b; }; auto ew = [&] (auto a, auto b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; };
      MC_CHECK(d.starts_with(dt) == sw(s, st) && d.ends_with(dt) == ew(s, st), "string_view prefix and suffix", ctx); if (z) MC_CHECK(d.starts_with(c) == sw(s, st) && d.ends_with(c) == ew(s, st), "string_view prefix and suffix", ctx); if (t.size() == 1) MC_CHECK(d.starts_with(t[0]) == sw(s, st) && d.ends_with(t[0]) == ew(s, st), "string_view prefix and suffix", ctx);
      auto x = d, y = dt; x.swap(y); MC_CHECK(x.data() == dt.data() && x.size() == dt.size() && y.data() == d.data() && y.size() == d.size(), "string_view::swap", ctx); x.swap(x); MC_CHECK(x.data() == dt.data(), "string_view::swap", ctx);
      for (size_t o : offs) for (size_t n : offs) {
        std::string cx = ctx + " (" + std::to_string(o) + ", " + std::to_string(n) + ")";
        agree([&] { return sign(d.compare(o, n, dt)); }, [&] { return sign(s.compare(o, n, st)); }, "compare", cx); if (z) agree([&] { return sign(d.compare(o, n, c)); }, [&] { return sign(s.compare(o, n, c)); }, "compare", cx + " (pointer)");
        agree([&] { return sign(d.compare(o, n, te.p.get(), te.n)); }, [&] { return sign(s.compare(o, n, te.p.get(), te.n)); }, "compare", cx + " (pointer, count)");
        for (size_t o2 = 0; o2 <= t.size() + 1; ++o2) for (size_t n2 : {size_t(0), size_t(1), npos}) agree([&] { return sign(d.compare(o, n, dt, o2, n2)); }, [&] { return sign(s.compare(o, n, st, o2, n2)); }, "compare", cx + " (" + std::to_string(o2) + ", " + std::to_string(n2) + ")");
      }
    }
  }
  mc::state(part);
}
MC_SPACE_X(sv_relate, "string view comparisons and substrings", "every string over {a, byte 0xe9, NUL} up to length 3 (thorough 4) x every other up to length 2 (thorough 3): compare (every overload, every range), operators, prefix, suffix, substr, copy, at, iteration, remove_prefix/suffix, swap, conversions", 1, false) { relate<char>({'a', char(0xe9), '\0'}, mc::thorough() ? 4 : 3, mc::thorough() ? 3 : 2); }
MC_SPACE_X(sv_wide, "wide string view comparisons", "the same over char32_t, lengths 2 and 2", 1, false) { relate<char32_t>({U'a', U'\u6161', U'\U00016100'}, mc::thorough() ? 3 : 2, 2); }
MC_SPACE_X(sv_stream, "string view output", "every string over {a, NUL} up to length 4, widths 0..6, both alignments, and a view into the middle of a longer string", 1, false) {
  auto all = words<char>({'a', '\0'}, 4); auto& w = all[choose((int) all.size())];
  for (int width = 0; width <= 6; ++width) for (bool left : {false, true}) {
    Exact<char> e(w); std::ostringstream a, b; if (left) { a << std::left; b << std::left; } a.width(width); b.width(width); a << e.d() << '|'; b << e.s() << '|'; mc::step(); mc::nontrivial();
    MC_CHECK(a.str() == b.str(), "string_view output", mc::show(a.str()) + " instead of " + mc::show(b.str()));
  }
  std::string longer = w + "tail"; std::ostringstream c; c << dart::string_view(longer.data(), w.size()); MC_CHECK(c.str() == w, "string_view output", "a view into a longer string gives " + mc::show(c.str())); std::ostringstream n; n << dart::string_view(); MC_CHECK(n.str().empty(), "string_view output", "default");
}
}
