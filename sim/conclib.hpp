// Operations of the library on octets and times, for threads (C12)
#pragma once
#include "reg.hpp"
std::string conc_octets(const uint8_t*, size_t, int how); // what the library says about the octets
std::string conc_value(uint64_t seed, int how);           // what it makes of numbers, texts and times
extern const int CONC_OCTETS, CONC_VALUES;
