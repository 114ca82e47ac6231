#include "C20.hpp"
namespace {
using MFn = void (*)(int);
MFn const kMaybe[] = {&maybe_all<short>, &maybe_all<int>, &maybe_all<unsigned>, &maybe_all<int64_t>, &maybe_all<double>, &maybe_all<std::string>, &maybe_all<std::vector<int>>, &maybe_all<std::array<int, 2>>, &maybe_all<std::map<std::string, int>>, &maybe_all<std::set<int>>, &maybe_all<std::pair<std::string, double>>, &maybe_all<dart::shim::variant<int, std::string>>, &maybe_all<std::multimap<std::string, int>>, &maybe_all<Point>};
MC_SPACE(maybe, "maybe_as", "every dynamic value of the pool to 14 native types through maybe_as, 11 representations: a value where it fits, nothing otherwise") { auto f = pick(kMaybe); f(choose(kReps)); }
// Borrowed strings and spans go in but are not owned coming out.
template <class P> void borrowed(std::string const& who) {
  auto s = pick(N<std::string>::values()); Val want = Val::str(s); mc::step(6); mc::nontrivial();
  expect(conv::cast<P>(sv(s)), want, "string_view into " + who); P p = conv::cast<P>(s); auto back = conv::cast<dart::shim::string_view>(p); MC_CHECK(std::string(back.data(), back.size()) == s, "string_view out", "string_view out of " + who); MC_CHECK(p == sv(s) && sv(s) == p, "string_view compare", "string_view compare on " + who);
  if (s.find('\0') == std::string::npos) { char const* c = s.c_str(); expect(conv::cast<P>(c), want, "char const* into " + who); MC_CHECK(p == c && c == p, "char const* compare", "char const* compare on " + who); char const* out = conv::cast<char const*>(p); MC_CHECK(s == out, "char const* out", "char const* out of " + who); }
  for (auto& v : scalars()) if (v.k != Val::Str) { P q = build<P>(v); expect_err(attempt([&] { conv::cast<dart::shim::string_view>(q); }), Err::type, "string_view out of " + dump(v)); expect_err(attempt([&] { conv::cast<char const*>(q); }), Err::type, "char const* out of " + dump(v)); }
  std::vector<int> ints; int n = choose(4); for (int i = 0; i < n; ++i) ints.push_back(pick({0, 70000, -5})); gsl::span<int const> span(ints.data(), ints.size()); P a = conv::cast<P>(span); expect(a, N<std::vector<int>>::val(ints), "span into " + who); MC_CHECK(a == span, "span compare", "span compare on " + who);
  if (n) { auto shorter = ints; shorter.pop_back(); gsl::span<int const> sh(shorter.data(), shorter.size()); MC_CHECK(a != sh, "span compare", "shorter span equal on " + who); ints[0] += 1; MC_CHECK(a != span, "span compare", "changed span equal on " + who); }
  mc::state(mc::mix(mc::hash_str(s), n));
}
MC_SPACE(views, "borrowed", "string_view, char const* and span: in, compared, and (strings) out, with every length class, heap, packet and unsafe counter") { switch (choose(3)) { case 0: borrowed<dart::heap>("heap"); break; case 1: borrowed<dart::packet>("packet"); break; default: borrowed<dart::unsafe_heap>("unsafe heap"); } }
}
