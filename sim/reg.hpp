// Registry of the generated types behind a neutral interface. No fast_ber headers in here.
#pragma once
#include "val.hpp"

struct TypeOps
{
    std::string name; // "Module.Type"
    Use         use;
    size_t      size = 0;
    void* (*create)();
    void (*destroy)(void*);
    void* (*copy)(const void*);
    void* (*move)(void*);
    void (*assign)(void*, const void*);
    void (*move_assign)(void*, void*);
    int (*equal)(const void*, const void*); // 0, 1 or 2: reported malformed content by an exception
    int (*nequal)(const void*, const void*);
    size_t (*encoded_length)(const void*, int api); // api 0: member function, 1: free function
    bool (*encode)(const void*, uint8_t* buf, size_t cap, size_t& len, int api);
    bool (*decode)(void*, const uint8_t*, size_t, int api); // 0: member with BerView, 1: free with Span, 2: iterator, 3: free with BerView
    size_t (*frame)(const uint8_t*, size_t); // length of the first packet according to BerView, 0 if there is none
    std::string (*print)(const void*);
    void (*to_val)(const void*, Val&);
    void (*from_val)(const Val&, void*, int style);
};
std::vector<TypeOps>& registry();

// An object of a registered type
struct Obj
{
    const TypeOps* t = nullptr;
    void*          p = nullptr;
    Obj() {}
    explicit Obj(const TypeOps& x) : t(&x), p(x.create()) {}
    Obj(const TypeOps& x, void* y) : t(&x), p(y) {}
    Obj(Obj&& o) noexcept : t(o.t), p(o.p) { o.p = nullptr; }
    Obj& operator=(Obj&& o) noexcept { std::swap(t, o.t); std::swap(p, o.p); return *this; }
    Obj(const Obj&) = delete;
    ~Obj() { if (p) t->destroy(p); }
    Val    val() const { Val v; t->to_val(p, v); return v; }
    size_t length(int api = 0) const { return t->encoded_length(p, api); }
    Bytes  bytes(bool* ok = nullptr) const
    {
        Bytes  b(length());
        size_t n = 0;
        bool   good = t->encode(p, b.data(), b.size(), n, 0) && n == b.size();
        if (ok) *ok = good;
        return b;
    }
};

// Number of basic blocks of library code executed
extern "C" uint64_t sim_steps();
extern "C" void     sim_step_limit(uint64_t from_now); // 0: unlimited. The process ends with a report when it is exceeded
