#include "C20.hpp"
namespace {
template <class... T> using var = dart::shim::variant<T...>;
template <class T> using opt_t = dart::shim::optional<T>;
Entry const kTable[] = {entry<std::map<std::string, std::vector<opt_t<int>>>>("map<string, vector<optional<int>>>"), entry<std::map<std::string, opt_t<std::string>>>("map<string, optional<string>>"), entry<std::vector<std::map<std::string, short>>>("vector<map<string, short>>"), entry<std::vector<var<int, std::string>>>("vector<variant<int, string>>"), entry<std::pair<std::vector<std::string>, opt_t<double>>>("pair<vector<string>, optional<double>>"), entry<std::tuple<std::vector<int>, std::map<std::string, int>>>("tuple<vector<int>, map<string, int>>"), entry<std::unordered_map<std::string, std::unordered_set<int>>>("unordered_map<string, unordered_set<int>>"), entry<std::list<Point>>("list<user type>"), entry<opt_t<Point>>("optional<user type>")};
C20_SPACES("nested")
}
