#pragma once
#include "runner.hpp"
// Fill in the case function for a property; false when the property is not theirs
bool calcCheck(const std::string& prop, RunSpec& s);
bool dataCheck(const std::string& prop, RunSpec& s);
bool httpCheck(const std::string& prop, RunSpec& s);
bool raceCheck(const std::string& prop, RunSpec& s);
// Each driver binary defines which of them it links
bool pickCheck(const std::string& prop, RunSpec& s);
