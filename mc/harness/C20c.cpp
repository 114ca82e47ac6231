#include "C20.hpp"
namespace {
Entry const kTable[] = {entry<std::vector<int>>("vector<int>"), entry<std::vector<std::string>>("vector<string>"), entry<std::vector<std::vector<short>>>("vector<vector<short>>"), entry<std::array<int, 2>>("array<int, 2>"), entry<std::array<std::string, 3>>("array<string, 3>"), entry<std::deque<double>>("deque<double>"), entry<std::list<short>>("list<short>"), entry<std::forward_list<int>>("forward_list<int>"), entry<std::forward_list<std::string>>("forward_list<string>")};
C20_SPACES("sequences")
}
