#include "C20.hpp"
namespace {
template <class... T> using var = dart::shim::variant<T...>;
template <class T> using opt_t = dart::shim::optional<T>;
Entry const kTable[] = {entry<opt_t<bool>>("optional<bool>"), entry<opt_t<double>>("optional<double>"), entry<std::vector<opt_t<bool>>>("vector<optional<bool>>"), entry<opt_t<std::map<std::string, int>>>("optional<map<string, int>>"), entry<std::tuple<bool, opt_t<bool>, double>>("tuple<bool, optional<bool>, double>"), entry<std::map<std::string, bool>>("map<string, bool>"), entry<std::deque<std::pair<int, std::string>>>("deque<pair<int, string>>"), entry<std::array<opt_t<int>, 2>>("array<optional<int>, 2>"), entry<opt_t<var<bool, std::string>>>("optional<variant<bool, string>>"), entry<std::multimap<std::string, opt_t<int>>>("multimap<string, optional<int>>")};
C20_SPACES("more")
}
