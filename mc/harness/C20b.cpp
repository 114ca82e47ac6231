#include "C20.hpp"
#include "../locale.hpp"
namespace {
Entry const kTable[] = {entry<float>("float"), entry<double>("double"), entry<std::string>("string"), entry<std::nullptr_t>("nullptr"), entry<std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>>("time_point in seconds"), entry<std::chrono::system_clock::time_point>("time_point"), entry<std::integral_constant<int, 5>>("integral constant"), entry<Point>("user type")};
C20_SPACES("scalars")

// Every day of boundary years against an independent civil calendar, whole strings only, nothing out of range.
bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int month_days(int y, int m) { static int const d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
int64_t days_since_epoch(int y, int m, int d) { int64_t n = 0; for (int i = 1970; i < y; ++i) n += leap(i) ? 366 : 365; for (int i = 1969; i >= y; --i) n -= leap(i) ? 366 : 365; for (int i = 1; i < m; ++i) n += month_days(y, i); return n + d - 1; }
// The process's own time zone is no part of what a time point means.
struct Zone { explicit Zone(char const* tz) { setenv("TZ", tz, 1); tzset(); } ~Zone() { setenv("TZ", "UTC0", 1); tzset(); } };
template <class D> void calendar() {
  int where = choose(mc::kLocales);
  char const* tz = pick({"UTC0", "XYZ5", "ABC-9:30XBC,M3.2.0,M11.1.0"}); Zone zone(tz);
  using T = std::chrono::time_point<std::chrono::system_clock, D>;
  int y = pick({1700, 1900, 1904, 1969, 1970, 1972, 2000, 2020, 2100, 2199, 2261}), m = choose(14), d = mc::thorough() || (!strcmp(tz, "UTC0") && !where) ? choose(33) : pick({0, 1, 15, 28, 29, 31}), clock = choose(8);
  static int const times[8][3] = {{0, 0, 0}, {23, 59, 59}, {0, 0, 59}, {12, 34, 56}, {24, 0, 0}, {0, 60, 0}, {0, 0, 61}, {9, 7, 5}}; auto& t = times[clock];
  bool ok = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m) && clock < 7 && clock != 4 && clock != 5 && clock != 6; if (clock == 7) ok = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
  mc::Locale locale(where); char text[64]; snprintf(text, sizeof text, "%04d-%02d-%02dT%02d:%02d:%02d.000Z", y, m, d, t[0], t[1], t[2]); MC_NOTE(std::string(text) + ", the locale being " + mc::locale_name(where)); mc::step(3);
  if (ok) mc::nontrivial();
  dart::packet p = dart::packet::make_string(text); opt<T> got; Err e = attempt([&] { got = some(conv::cast<T>(p)); });
  if (!ok) MC_CHECK(e == Err::type, "impossible date accepted", std::string(text) + " gave " + name(e));
  else {
    T want(std::chrono::duration_cast<D>(std::chrono::seconds(days_since_epoch(y, m, d) * 86400 + t[0] * 3600 + t[1] * 60 + t[2])));
    MC_CHECK(e == Err::none && *got == want, "date in", std::string(text) + " gave " + name(e) + (got ? " " + std::to_string(got->time_since_epoch().count()) : ""));
    Val back = read(conv::cast<dart::heap>(want)); MC_CHECK(same(back, Val::str(text)), "date out", std::string(text) + " is written as " + dump(back)); MC_CHECK(p == want && want == p, "date compare", text);
  }
  for (auto bad : {std::string(text) + " ", std::string(text) + "Z", std::string(text).substr(0, strlen(text) - 1), "x" + std::string(text), std::string(text) + std::string(1, '\0'), std::string(text).substr(0, 10), std::string(text).replace(19, 1, ","), std::string(text).replace(19, 1, "\xd9\xab")}) { p = dart::packet::make_string(bad); Err f = attempt([&] { conv::cast<T>(p); }); MC_CHECK(f == Err::type, "text around a date accepted", bad + " gave " + name(f)); mc::step(); }
  mc::state(mc::hash_str(text));
}
MC_SPACE(dates, "dates", "11 boundary years, months 0-13, days 0-32, 8 times of day (3 impossible), 8 damaged texts each, seconds and native resolution, in three process time zones and three locales (other than the plain ones: 6 days of the month in quick): read, written and compared as an independent calendar says") { if (mc::flip()) calendar<std::chrono::seconds>(); else calendar<std::chrono::system_clock::duration>(); }
}
