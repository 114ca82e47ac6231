// The locales a process may have chosen for itself: none, one with a decimal comma, one whose decimal point is of two bytes.
#pragma once
#include <locale.h>
#include <stdlib.h>
namespace mc {
enum { kLocales = 3 };
inline locale_t locale(int n) {
  static char const* const name[] = {"C", "comma", "arabic"};
  static locale_t all[kLocales]; if (!all[n]) all[n] = newlocale(LC_ALL_MASK, name[n], nullptr); return all[n];
}
// Takes effect until the end of the block. Locales which could not be prepared are not explored.
struct Locale {
  locale_t before; explicit Locale(int n) { if (!locale(n)) mc::prune(); before = uselocale(locale(n)); } Locale(Locale const&) = delete; ~Locale() { uselocale(before); }
};
inline char const* locale_name(int n) { static char const* const s[] = {"C", "one with a decimal comma", "one with a decimal point of two bytes"}; return s[n]; }
}
