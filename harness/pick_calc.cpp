#include "checks.hpp"
bool pickCheck(const std::string& prop, RunSpec& s) { return calcCheck(prop, s) || dataCheck(prop, s); }
