// The library's own types, registered besides the generated ones, with the operations only they have
#pragma once
#include "core.hpp"
#include "reg.hpp"

struct Mutation
{
    const char* op = "";
    std::string error; // empty: as the model says
};
struct LifeType
{
    size_t   type = 0; // in the registry
    int      mode = M_MANDATORY;
    Val      def;
    Mutation (*mutate)(void*, Val& model, bool& known, uint64_t seed) = nullptr;
    std::string (*observe)(const void*, const Val&)                   = nullptr; // "" or what disagrees
};
struct Cross // conversions between types which differ in identifier or storage
{
    size_t d, s;
    void (*f)(void* d, void* s, int how);
    int  hows;
    bool moves; // how == hows - 1 moves from s
};
std::vector<LifeType>& life_types();
std::vector<Cross>&    life_crosses();
void                   register_library_types();
