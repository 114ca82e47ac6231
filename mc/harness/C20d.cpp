#include "C20.hpp"
namespace {
Entry const kTable[] = {entry<std::map<std::string, int>>("map<string, int>"), entry<std::unordered_map<std::string, std::string>>("unordered_map<string, string>"), entry<std::map<std::string, std::nullptr_t>>("map<string, nullptr>"), entry<std::multimap<std::string, int>>("multimap<string, int>"), entry<std::unordered_multimap<std::string, std::string>>("unordered_multimap<string, string>"), entry<std::set<int>>("set<int>"), entry<std::unordered_set<std::string>>("unordered_set<string>"), entry<std::multiset<short>>("multiset<short>"), entry<std::unordered_multiset<std::string>>("unordered_multiset<string>")};
C20_SPACES("maps and sets")
}
