#include "C20.hpp"
namespace {
Entry const kTable[] = {entry<bool>("bool"), entry<signed char>("signed char"), entry<unsigned char>("unsigned char"), entry<char>("char"), entry<short>("short"), entry<unsigned short>("unsigned short"), entry<int>("int"), entry<unsigned>("unsigned"), entry<long>("long"), entry<unsigned long>("unsigned long"), entry<long long>("long long"), entry<unsigned long long>("unsigned long long")};
C20_SPACES("integers")
}
