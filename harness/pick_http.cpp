#include "checks.hpp"
bool pickCheck(const std::string& prop, RunSpec& s) { return httpCheck(prop, s); }
