// The life world: histories of value objects (C09), also with failing allocations (C11). A plain model value is kept next
// to every object; after every step every object has to hold, report, encode and compare as its model.
#include "core.hpp"
#include "life.hpp"
#include "reg.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <execinfo.h>
#include <fcntl.h>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>

#ifndef GROUPS
#error GROUPS
#endif
#define X(g) namespace g_##g { void register_types(); }
GROUPS
#undef X
void world_init()
{
    register_library_types();
#define X(g) g_##g::register_types();
    GROUPS
#undef X
}

namespace
{
const LifeType* life_of(const TypeOps* t)
{
    for (auto& l : life_types()) if (&registry()[l.type] == t) return &l;
    return nullptr;
}
struct Slot
{
    Obj             o;
    const LifeType* l     = nullptr;
    Val             m;            // the model
    bool            known = true; // the model was derived independently of the object
    bool            canon = true; // no part was received in another form
    bool            dirty = true; // involved in the latest operation
    Bytes           octets;       // encoding when it was last looked at
    const Use&      use() const { return o.t->use; }
    int             mode() const { return l ? l->mode : M_MANDATORY; }
};

// An allocation is about to fail. Whether the operation is one which then ends the process is found out by a copy of it
bool g_child = false, g_ends = false;
bool probe()
{
    // what happens is a matter of which functions are being executed: after three agreeing trials it is known
    static std::map<uint64_t, int> known;
    void*    frame[48];
    int      n = backtrace(frame, 48);
    uint64_t h = g_alloc.fail_len;
    for (int i = 0; i < n; i++) h = hash64(h, (uint64_t)frame[i]);
    int& k = known[h];
    if (n < 48 && (k >= 3 || k <= -3)) return !(g_ends = k < 0);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1); dup2(null, 2);
        return g_child = true;
    }
    int st = 0;
    waitpid(pid, &st, 0);
    g_ends = WIFEXITED(st) && WEXITSTATUS(st) == 95;
    k      = g_ends ? (k > 0 ? 0 : k - 1) : (k < 0 ? 0 : k + 1);
    return !g_ends;
}
struct World
{
    static const size_t N = 8;
    Ctx&                  c;
    std::unique_ptr<Slot> slot[N];
    std::string           profile;
    uint64_t              fail_at = 0, fail_len = 1;
    const char*           doing   = "";
    std::map<std::string, uint64_t> later; // counters, kept out of the scope of counted allocations

    World(Ctx& x, const std::string& p) : c(x), profile(p) {}

    // ------------------------------------------------------------------------------------------------ library calls
    // Runs library code within a scope of counted allocations. False: an allocation failed and was reported
    template <class F> bool lib(F f)
    {
        uint64_t n = fail_at, k = fail_len;
        fail_at = 0;
        g_child = g_ends = false;
        g_alloc.probe    = probe;
        AllocScope s(n, k);
        bool       threw = false;
        try { f(); } catch (const std::bad_alloc&) { threw = true; }
        s.stop();
        g_alloc.probe = nullptr;
        if (g_child) _exit(42);
        hit |= g_ends || s.failed();
        if (n > s.count() && !s.failed() && !g_ends) { fail_at = n - s.count(); fail_len = k; } // ... in what follows of this operation
        if (g_ends) { c.tick("fault_alloc_terminates"); c.ev("terminates"); }
        if (s.failed()) c.tick(threw ? "fault_alloc_threw" : "fault_alloc_absorbed");
        if (threw && !s.failed()) c.fail("bad_alloc", "%s: bad_alloc though no allocation failed", doing);
        if (!threw && s.failed()) absorbed = true;
        return !threw;
    }
    bool     hit = false;   // the failing allocation was reached
    uint64_t sweep = 0;
    bool absorbed = false; // an allocation failed, and the operation did not report it by an exception

    void fail(const char* kind, const Slot& s, const std::string& what)
    {
        c.fail(kind, "%s: %s: %s (model %s)", doing, s.o.t->name.c_str(), what.c_str(), s.m.str().substr(0, 300).c_str());
    }
    static Val normal(const Use& u, Val v) // alternatives with the same identifier are received as the first of them
    {
        if (u.body->kind == K_CHOICE && v.alt >= 0)
            for (size_t i = 0; i < u.body->fields.size(); i++)
                if (u.body->fields[i].use.tags == u.body->fields[(size_t)v.alt].use.tags && !u.body->fields[i].use.tags.empty()) { v.alt = (int)i; break; }
        return v;
    }
    static bool same(const Use& u, int mode, const Val& a, const Val& b, std::string* w)
    {
        if (mode == M_OPTIONAL && a.present != b.present) { if (w) *w = "presence"; return false; }
        if (mode == M_OPTIONAL && !a.present) return true;
        Val x = a, y = b;
        x.present = y.present = true;
        return val_equal(u, x, y, w);
    }
    static Bytes reference(const Use& u, int mode, const Val& v)
    {
        if (mode != M_MANDATORY && !v.present) return Bytes();
        Val x = v;
        x.present = true;
        return ref_encode(u, x);
    }
    static bool empty_value(int mode, const Val& v) { return mode != M_MANDATORY && !v.present; }

    // --------------------------------------------------------------------------------------------------------- checks
    Bytes encode(Slot& s)
    {
        size_t   n = 0, w = 0;
        bool     ok;
        Bytes    b;
        uint64_t allocs = 0;
        {
            AllocScope a;
            n = s.o.length(0);
            a.stop();
            allocs += a.count();
        }
        b.resize(n);
        {
            AllocScope a;
            ok = s.o.t->encode(s.o.p, b.data(), n, w, 0);
            a.stop();
            allocs += a.count();
        }
        if (!ok || w != n) fail("encode", s, "encoding into encoded_length() = " + std::to_string(n) + " octets " + (ok ? "wrote " + std::to_string(w) : "failed"));
        if (allocs && !has_real(s.use(), s.m)) fail("encode-allocates", s, "encoding allocated memory");
        if (s.o.length(1) != n) fail("encode", s, "fast_ber::encoded_length() differs from encoded_length()");
        return b;
    }
    void check(size_t i, bool full)
    {
        Slot& s = *slot[i];
        bool  valueless = has_valueless(s.use(), s.m);
        if (!full && !s.dirty)
        {
            if (!valueless && encode(s) != s.octets) fail("untouched", s, "its encoding changed although it was not involved");
            return;
        }
        std::string w;
        Val         v;
        v = s.o.val();
        if (!same(s.use(), s.mode(), v, s.m, &w) || (s.mode() == M_DEFAULT && v.present != s.m.present)) fail("value", s, "holds another value: " + w);
        if (s.l && s.known)
        {
            std::string e;
            e = s.l->observe(s.o.p, s.m);
            if (!e.empty()) fail("observe", s, "disagrees with its value: " + e);
        }
        if (valueless) { s.octets.clear(); s.dirty = false; return; }
        Bytes b = encode(s);
        if (!s.dirty && b != s.octets) fail("untouched", s, "its encoding changed although it was not involved");
        s.octets = b;
        s.dirty  = false;
        if (empty_value(s.mode(), s.m)) { if (!b.empty()) fail("encoding", s, "absent, but encoded as " + hex(b).substr(0, 100)); return; }
        if (s.known && s.canon && !has_real(s.use(), s.m))
        {
            Bytes r = reference(s.use(), s.mode(), s.m);
            if (b != r) fail("encoding", s, "encoded as " + hex(b).substr(0, 200) + " instead of " + hex(r).substr(0, 200));
        }
        else if (s.known)
        {
            RefDecode d = ref_decode(s.use(), b.data(), b.size());
            if (!d.ok || d.consumed != b.size()) fail("encoding", s, "encoded as " + hex(b).substr(0, 200) + ", which is not an encoding of its type: " + d.why);
            if (!val_equal(s.use(), normal(s.use(), d.val), normal(s.use(), s.m), &w)) fail("encoding", s, "encoded as another value: " + w);
        }
        // a second object which reads the encoding agrees
        if (s.known)
        {
            Obj o(*s.o.t);
            if (!s.o.t->decode(o.p, b.data(), b.size(), (int)(b.size() % 4))) fail("encoding", s, "its encoding is rejected: " + hex(b).substr(0, 200));
            Val r = o.val();
            if (!same(s.use(), s.mode(), r, normal(s.use(), s.m), &w)) fail("encoding", s, "its encoding is read as another value: " + w);
        }
    }
    void check_all(bool full)
    {
        for (size_t i = 0; i < N; i++) if (slot[i]) check(i, full);
    }
    // The object's value is not determined by the operation: whatever it holds now, it has to keep
    void refresh(Slot& s)
    {
        s.m     = s.o.val();
        s.known = false;
        s.canon = false;
        s.dirty = true;
        if (!has_valueless(s.use(), s.m)) s.o.t->print(s.o.p);
    }
    void touch(Slot& s, const Val& m, bool known, bool canon)
    {
        s.m     = m;
        s.known = known;
        s.canon = canon;
        s.dirty = true;
    }
    static Val generate(const TypeOps& t, const LifeType* l, uint64_t seed, int size)
    {
        Val v    = gen_value(t.use, seed, size);
        int mode = l ? l->mode : M_MANDATORY;
        v.present = true;
        if (mode == M_OPTIONAL && hash64(seed, 1) % 4 == 0) { v = Val(); v.present = false; }
        if (mode == M_DEFAULT)
        {
            if (hash64(seed, 1) % 3 == 0) v = l->def;
            v.present = !val_equal(t.use, v, l->def);
        }
        return v;
    }
    std::unique_ptr<Slot> fresh(const TypeOps& t, void* p)
    {
        std::unique_ptr<Slot> s(new Slot());
        s->o = Obj(t, p);
        s->l = life_of(&t);
        return s;
    }
    // Octets in memory of exactly their length
    struct Exact
    {
        uint8_t* p;
        size_t   n;
        explicit Exact(const Bytes& b) : p((uint8_t*)malloc(b.size())), n(b.size()) { if (n) memcpy(p, b.data(), n); }
        ~Exact() { if (p) { memset(p, 0xA5, n); free(p); } }
        Exact(const Exact&) = delete;
    };

    // ----------------------------------------------------------------------------------------------------- operations
    void run(const Op& o)
    {
        auto&  R = registry();
        size_t a = (size_t)((uint64_t)o.arg(0) % N), b = (size_t)((uint64_t)o.arg(1) % N);
        doing    = o.name.c_str();
        absorbed = false;
        if (o.name == "new")
        {
            const TypeOps& t = R[(size_t)((uint64_t)o.arg(1) % R.size())];
            slot[a].reset();
            void* p = nullptr;
            if (!lib([&]() { p = t.create(); })) return;
            slot[a] = fresh(t, p);
            Slot& s = *slot[a];
            s.m = s.o.val();
            s.dirty = true;
            if (s.mode() == M_OPTIONAL && s.m.present) fail("value", s, "a new optional has a value");
            if (s.mode() == M_DEFAULT && (s.m.present || !val_equal(s.use(), s.m, s.l->def))) fail("value", s, "a new object does not hold the default");
            set(s, (uint64_t)o.arg(2), (int)((uint64_t)o.arg(3) % 10), (int)o.arg(4));
        }
        else if (o.name == "cross") // objects of types between which values can be converted
        {
            if (!slot[b]) return;
            auto partner = [&](size_t i) {
                if (!slot[i] || i == b) return false;
                for (auto& x : life_crosses()) if (&R[life_types()[x.d].type] == slot[i]->o.t && &R[life_types()[x.s].type] == slot[b]->o.t) return true;
                return false;
            };
            for (size_t k = 0; k < N && !partner(a); k++) a = (a + 1) % N;
            if (!partner(a)) return;
            size_t n = 0;
            for (int pass = 0; pass < 2; pass++)
            {
                size_t k = 0;
                for (auto& x : life_crosses())
                    if (&R[life_types()[x.d].type] == slot[a]->o.t && &R[life_types()[x.s].type] == slot[b]->o.t)
                    {
                        if (pass == 0) { n++; continue; }
                        if (k++ != (size_t)((uint64_t)o.arg(2) % n)) continue;
                        int   how = (int)((uint64_t)o.arg(3) % (uint64_t)x.hows);
                        Slot &d = *slot[a], &s = *slot[b];
                        bool  moves = x.moves && how == x.hows - 1;
                        bool  ok    = lib([&]() { x.f(d.o.p, s.o.p, how); });
                        later["converted"]++;
                        if (!s.canon && s.known) later["converted_received_in_another_form"]++;
                        bool  known = s.known, canon = s.canon;
                        Val   m = s.m;
                        if (moves) refresh(s);
                        if (!ok) refresh(d);
                        else if (known) touch(d, m, true, canon);
                        else { Val was = m; refresh(d); std::string w; if (!val_equal(d.use(), d.m, was, &w)) fail("value", d, "conversion changed the value: " + w); }
                    }
                if (!n) return;
            }
        }
        else if (!slot[a]) return;
        else if (o.name == "drop") lib([&]() { slot[a].reset(); });
        else if (o.name == "set") set(*slot[a], (uint64_t)o.arg(1), (int)((uint64_t)o.arg(2) % 10), (int)o.arg(3));
        else if (o.name == "mut")
        {
            Slot& s = *slot[a];
            if (!s.l) { set(s, (uint64_t)o.arg(1), (int)((uint64_t)o.arg(1) % 7), (int)(o.arg(1) / 7)); return; }
            Mutation m;
            Val      v     = s.m;
            bool     known = s.known;
            bool     ok    = lib([&]() { m = s.l->mutate(s.o.p, v, known, (uint64_t)o.arg(1)); });
            doing          = m.op;
            later[std::string("op_") + m.op]++;
            if (!ok || (absorbed && !m.error.empty())) { refresh(s); return; }
            if (!m.error.empty()) fail("operation", s, m.error);
            touch(s, v, known, s.canon);
        }
        else if (o.name == "dec" || o.name == "torn" || o.name == "corrupt") // seed size api form
        {
            Slot&    s    = *slot[a];
            uint64_t seed = (uint64_t)o.arg(1);
            Val      v    = generate(*s.o.t, s.l, seed, (int)((uint64_t)o.arg(2) % 10));
            uint64_t forms = 0;
            bool     none  = empty_value(s.mode(), v);
            Val      w     = v;
            w.present      = true;
            bool     alt   = o.arg(4) % 2 == 1;
            Bytes    e     = none ? Bytes() : alt ? ref_encode_alt(s.use(), w, seed + 1, forms, o.arg(4) % 4 == 3 ? 3ull : ~(1ull << 7)) : ref_encode(s.use(), w);
            int      api   = (int)((uint64_t)o.arg(3) % 4);
            if (forms) c.tick("alt_form");
            if (o.name == "torn") { if (e.empty()) return; e.resize((size_t)((uint64_t)o.arg(5) % e.size())); }
            if (o.name == "corrupt") { if (e.empty()) return; e[(size_t)((uint64_t)o.arg(5) % std::min<size_t>(e.size(), 40))] ^= (uint8_t)(o.arg(6) ? o.arg(6) : 1); }
            bool ok = false, threw;
            {
                Exact x(e);
                threw = !lib([&]() { ok = s.o.t->decode(s.o.p, x.p, x.n, api); });
            } // the octets are gone now
            if (threw) { refresh(s); return; }
            if (o.name != "dec") { c.tick(o.name == "torn" ? "fault_torn" : "fault_corrupted"); refresh(s); later[ok ? "decoded_damaged" : "rejected_damaged"]++; return; }
            if (!ok && absorbed) { refresh(s); return; }
            if (!ok)
            {
                if (none && s.mode() == M_MANDATORY) { refresh(s); return; }
                fail("decode", s, "valid octets are rejected: " + hex(e).substr(0, 300));
            }
            if (s.mode() == M_DEFAULT) w.present = !none;
            if (none) w.present = false;
            touch(s, normal(s.use(), w), true, forms == 0);
        }
        else if (!slot[b]) return;
        else if (o.name == "copy") // construct a new object in a
        {
            Slot& s = *slot[b];
            void* p = nullptr;
            if (!lib([&]() { p = s.o.t->copy(s.o.p); })) { s.dirty = true; return; }
            auto n = fresh(*s.o.t, p);
            n->m = s.m; n->known = s.known; n->canon = s.canon; n->dirty = true;
            slot[a] = std::move(n); // a may be b
            if (!slot[a]->known) must_equal(*slot[a], slot[a]->m);
        }
        else if (o.name == "move")
        {
            Slot& s = *slot[b];
            void* p = nullptr;
            if (!lib([&]() { p = s.o.t->move(s.o.p); })) { refresh(s); return; }
            auto n = fresh(*s.o.t, p);
            n->m = s.m; n->known = s.known; n->canon = s.canon; n->dirty = true;
            refresh(s);
            slot[a] = std::move(n);
            if (!slot[a]->known) must_equal(*slot[a], slot[a]->m);
        }
        else if (o.name == "assign" || o.name == "massign")
        {
            Slot &d = *slot[a], &s = *slot[b];
            if (d.o.t != s.o.t) return;
            bool mv = o.name == "massign";
            bool ok = lib([&]() { if (mv) d.o.t->move_assign(d.o.p, s.o.p); else d.o.t->assign(d.o.p, s.o.p); });
            if (a == b)
            {
                later[mv ? "self_move" : "self_assignment"]++;
                if (mv || !ok) refresh(d); else d.dirty = true;
                return;
            }
            Val  m = s.m;
            bool known = s.known, canon = s.canon;
            if (mv) refresh(s);
            if (!ok) { refresh(d); return; }
            touch(d, m, known, canon);
            if (!known) must_equal(d, m);
        }
        else if (o.name == "swap")
        {
            Slot &d = *slot[a], &s = *slot[b];
            if (d.o.t != s.o.t || a == b) return;
            void* t  = nullptr;
            bool  ok = lib([&]() {
                t = d.o.t->move(d.o.p);
                d.o.t->move_assign(d.o.p, s.o.p);
                d.o.t->move_assign(s.o.p, t);
            });
            if (t) d.o.t->destroy(t);
            if (!ok) { refresh(d); refresh(s); return; }
            std::swap(d.m, s.m); std::swap(d.known, s.known); std::swap(d.canon, s.canon);
            d.dirty = s.dirty = true;
        }
        else if (o.name == "recode")
        {
            Slot &d = *slot[a], &s = *slot[b];
            if (d.o.t != s.o.t || a == b || !s.known || has_valueless(s.use(), s.m)) return;
            Bytes e = encode(s);
            bool  ok = false, threw;
            {
                Exact x(e);
                threw = !lib([&]() { ok = d.o.t->decode(d.o.p, x.p, x.n, (int)((uint64_t)o.arg(2) % 4)); });
            }
            if (threw || (!ok && absorbed)) { refresh(d); return; }
            if (!ok) fail("decode", s, "its own encoding is rejected: " + hex(e).substr(0, 300));
            touch(d, normal(d.use(), s.m), true, s.canon);
        }
        else if (o.name == "cmp")
        {
            Slot &d = *slot[a], &s = *slot[b];
            if (d.o.t != s.o.t) return;
            int e = 0, n = 0;
            if (!lib([&]() { e = d.o.t->equal(d.o.p, s.o.p); n = d.o.t->nequal(d.o.p, s.o.p); })) return;
            if (e != 2 && n != 2 && (e != 0) == (n != 0)) fail("compare", d, "== and != agree");
            bool want = same(d.use(), d.mode(), d.m, s.m, nullptr);
            bool fuzzy = has_real(d.use(), d.m) || has_real(s.use(), s.m);
            if (d.known && s.known && !fuzzy && !has_valueless(d.use(), d.m) && !has_valueless(s.use(), s.m))
            {
                if (want && e != 1) fail("compare", d, "equal values compare unequal");
                if (!want && e == 1 && !has_time(d.use())) fail("compare", d, "unequal values compare equal");
            }
            later[want ? "compared_equal" : "compared_unequal"]++;
        }
        else return;
        c.events++;
    }
    static bool has_time(const Use& u) // two spellings of the same time are equal
    {
        static std::map<const Body*, bool> memo;
        auto it = memo.find(u.body);
        if (it != memo.end()) return it->second;
        memo[u.body] = false;
        bool r = u.body->kind == K_GTIME;
        for (auto& f : u.body->fields) r |= has_time(f.use);
        if (u.body->elem.body) r |= has_time(u.body->elem);
        return memo[u.body] = r;
    }
    void must_equal(Slot& d, const Val& m)
    {
        std::string w;
        Val         v = d.o.val();
        if (!same(d.use(), d.mode(), v, m, &w)) fail("value", d, "differs from what was copied: " + w);
        d.dirty = true;
    }
    void set(Slot& s, uint64_t seed, int size, int style)
    {
        Val v = generate(*s.o.t, s.l, seed, size);
        if (!lib([&]() { s.o.t->from_val(v, s.o.p, style); }) || absorbed) { refresh(s); return; }
        touch(s, v, true, true);
    }
    void step(const Op& o)
    {
        if (o.name == "fail") { fail_at = 1 + (uint64_t)o.arg(0) % 1000; fail_len = 1 + (uint64_t)o.arg(1) % 1000; return; }
        if (o.name == "sweep") { sweep = 1 + (uint64_t)o.arg(0) % 40; return; }
        // a sweep repeats the operation with each of its allocations failing in turn
        for (uint64_t k = 1; k <= sweep; k++)
        {
            fail_at  = k;
            fail_len = 1;
            hit      = false;
            run(o);
            check_all(false);
            if (!hit) break;
            c.tick("swept");
        }
        if (!sweep)
        {
            if (fail_at) c.tick("alloc_fault_planned");
            run(o);
            check_all(false);
        }
        sweep = fail_at = 0;
        for (size_t i = 0; i < N; i++)
            if (slot[i])
            {
                c.mix(slot[i]->octets.data(), slot[i]->octets.size());
                c.state(hash64(hash64(hash_str(slot[i]->o.t->name), hash_str(doing)), hash64(slot[i]->known * 2 + slot[i]->canon, std::min<size_t>(slot[i]->octets.size(), 400))));
            }
        c.ev("%s", doing);
    }
};
} // namespace

Plan world_gen(uint64_t seed, const std::string& profile)
{
    Rng  r(seed);
    Plan p;
    auto add = [&](const char* n, std::initializer_list<long long> a) { p.push_back(Op{n, std::vector<long long>(a)}); };
    auto any = [&]() { return (long long)r.below(1000000000); };
    // the types of this run
    std::vector<size_t> ts;
    auto&               L = life_types();
    auto                family = [&]() {
        size_t lists = 0;
        while (lists < L.size() && L[lists].mode == M_MANDATORY && registry()[L[lists].type].use.body->kind != K_SEQOF) lists++;
        size_t k = r.chance(1, 2) ? lists + r.below(L.size() - lists) : r.below(r.chance(1, 4) ? 2 : L.size());
        ts.push_back(L[k].type);
        for (auto& x : life_crosses())
            if (x.d == k && r.chance(1, 2) && std::find(ts.begin(), ts.end(), L[x.s].type) == ts.end()) ts.push_back(L[x.s].type);
    };
    auto generated = [&]() { if (registry().size() > L.size()) ts.push_back(L.size() + r.below(registry().size() - L.size())); };
    switch (r.below(5))
    {
    case 0: generated(); break;
    case 1: family(); generated(); break;
    default: family(); break;
    }
    long slots = r.range(2, World::N), ops = r.range(8, 60);
    int  size  = (int)r.range(profile == "C11" ? 3 : 0, 9);
    bool faults = profile == "C11", damage = r.chance(1, 2);
    for (long i = 0; i < slots; i++) add("new", {i, (long long)ts[(size_t)i < ts.size() ? (size_t)i : r.below(ts.size())], any(), size, any()});
    auto sl = [&]() { return (long long)r.below((uint64_t)slots); };
    while (ops--)
    {
        if (faults && r.chance(1, 3)) add("fail", {r.chance(2, 3) ? (long long)r.below(3) : (long long)r.below(40), r.chance(1, 2) ? 0 : 999});
        else if (faults && r.chance(1, 2)) add("sweep", {(long long)r.below(12)});
        switch (r.below(20))
        {
        case 0: add("new", {sl(), (long long)ts[r.below(ts.size())], any(), size, any()}); break;
        case 1: case 2: add("set", {sl(), any(), (long long)r.below((uint64_t)size + 1), any()}); break;
        case 3: case 4: case 5: case 6: add("mut", {sl(), any()}); if (r.chance(1, 3)) add("mut", {sl(), any()}); break;
        case 7: add("copy", {sl(), sl()}); break;
        case 8: add("move", {sl(), sl()}); break;
        case 9: case 10: add("assign", {sl(), sl()}); break;
        case 11: add("massign", {sl(), sl()}); break;
        case 12: add("swap", {sl(), sl()}); break;
        case 13: case 14: add("cross", {sl(), sl(), any(), any()}); break;
        case 15: case 16: // what was received is used
        {
            long long k = sl();
            add("dec", {k, any(), (long long)r.below((uint64_t)size + 1), any(), any()});
            uint64_t use = r.below(6);
            if (use < 3) add("cross", {sl(), k, any(), any()});
            else if (use < 5) add("mut", {k, any()});
            break;
        }
        case 17: if (damage) add(r.chance(1, 2) ? "torn" : "corrupt", {sl(), any(), (long long)r.below((uint64_t)size + 1), any(), any(), any(), (long long)(1 << r.below(8))}); break;
        case 18: add("recode", {sl(), sl(), any()}); break;
        default: if (r.chance(1, 6)) add("drop", {sl()}); else add("cmp", {sl(), sl()}); break;
        }
    }
    return p;
}
static int64_t execute(const Plan& p, const std::string& profile, Ctx& c)
{
    int64_t start = g_alloc.owned;
    std::map<std::string, uint64_t> counts;
    {
        World w(c, profile);
        for (auto& o : p)
        {
            c.now += 1000;
            sim_step_limit(200000000);
            w.step(o);
        }
        w.check_all(true);
        counts.swap(w.later);
    }
    sim_step_limit(0);
    for (auto& k : counts) c.tick(k.first.c_str(), k.second);
    return g_alloc.owned - start;
}
void world_run(const Plan& p, const std::string& profile, Ctx& c)
{
    int64_t left = execute(p, profile, c);
    if (left > 0)
    {
        // what the library sets up once (tables, time zones) is not a leak: it does not grow when the history repeats
        Ctx d;
        left = execute(p, profile, d);
        if (left > 0) c.fail("leak", "%lld allocated objects are still there after everything was destroyed", (long long)left);
    }
}
