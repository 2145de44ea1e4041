#include "p14_common.hpp"
#define SQ(...) REG("at " #__VA_ARGS__, (&seq<__VA_ARGS__>));
SQ(std::vector<int>) SQ(std::vector<std::string>) SQ(std::vector<bool>) SQ(std::deque<std::string>) SQ(std::array<int, 5>) SQ(std::array<int, 1>) SQ(std::array<int, 0>) SQ(std::array<std::string, 3>) SQ(std::list<std::string>) SQ(std::string) SQ(std::string_view) SQ(std::vector<opt::option<int>>) SQ(std::deque<opt::option<std::string>>) SQ(Spy<0>) SQ(Spy<1>) SQ(Spy<2>)
#include <unordered_set>
#define AS(...) REG("lookup " #__VA_ARGS__, (&assoc<__VA_ARGS__>));
AS(std::map<int, std::string>) AS(std::map<std::string, int>) AS(std::map<std::string, int, std::less<>>) AS(std::unordered_map<int, std::string>) AS(std::unordered_map<std::string, bool>) AS(std::multimap<int, int>) AS(std::map<int, opt::option<bool>>) AS(std::set<int>) AS(std::set<std::string>) AS(std::multiset<int>) AS(std::unordered_set<std::string>) AS(std::map<int, double*>) AS(std::unordered_multimap<int, bool>)
