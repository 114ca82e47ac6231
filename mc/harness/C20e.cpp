#include "C20.hpp"
namespace {
template <class... T> using var = dart::shim::variant<T...>;
template <class T> using opt_t = dart::shim::optional<T>;
Entry const kTable[] = {entry<opt_t<int>>("optional<int>"), entry<opt_t<std::string>>("optional<string>"), entry<opt_t<std::vector<int>>>("optional<vector<int>>"), entry<var<int, double, std::string>>("variant<int, double, string>"), entry<var<short, int64_t, std::nullptr_t>>("variant<short, int64, nullptr>"), entry<var<std::vector<int>, std::string, bool>>("variant<vector<int>, string, bool>"), entry<std::pair<std::string, double>>("pair<string, double>"), entry<std::tuple<int, std::string, bool>>("tuple<int, string, bool>"), entry<std::tuple<>>("tuple<>")};
C20_SPACES("sums and products")
}
