// Stands in for the library's state machine: every registration is recorded. Public headers are the real ones.
#pragma once
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include <hsmcpp/hsm.hpp>

namespace rec {
struct Names { std::map<int, std::string> states, events, timers; };
extern std::vector<std::string> lines;
extern std::string called;
extern const Names* names;
void begin(int id);
void end();
bool hit(const char* what);
void name(const char* kind, const char* n, int value);
}  // namespace rec
