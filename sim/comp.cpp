// The compiler world (C14, C15): the schema compiler runs in copies of this process, while the simulator decides the
// outcome of every system call it makes on its inputs and outputs, its memory layout, environment, clock, working
// directory, and when it is killed or another compiler runs in between.
// The real code: src/compiler and src/compiler_main with its generated parser.
#include "sys.hpp"

#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <memory>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

int sim_compiler_main(int argc, char** argv);

namespace
{
using Files = std::vector<std::pair<std::string, std::string>>; // name, content
// ----------------------------------------------------------------------------------------------------------- schemas
std::vector<Files> g_fixed;
void load_fixed()
{
    auto list = [](const std::string& d) {
        std::vector<std::string> v;
        if (DIR* h = opendir(d.c_str()))
        {
            while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n.find(".asn") != std::string::npos) v.push_back(n); }
            closedir(h);
        }
        std::sort(v.begin(), v.end());
        return v;
    };
    std::string t = std::string(REPO_DIR) + "/testfiles/";
    Files multi;
    for (auto& n : list(t)) (n.find("multi_file") == 0 ? multi : (g_fixed.push_back({}), g_fixed.back())).emplace_back(n, slurp(t + n));
    if (!multi.empty()) { g_fixed.push_back(multi); std::reverse(multi.begin(), multi.end()); g_fixed.push_back(multi); }
    std::map<std::string, Files> groups;
    for (auto& n : list(SCHEMA_DIR)) groups[n.substr(0, n.find('_'))].emplace_back(n, slurp(std::string(SCHEMA_DIR) + "/" + n));
    for (auto& g : groups) g_fixed.push_back(g.second);
}
// Modules with types, values, parameterized types and imports in any order
struct Schemer
{
    Rng r;
    struct Mod { std::string name; std::vector<std::string> types, ints, templates; std::vector<std::pair<std::string, std::string>> uses; std::vector<std::string> text; };
    std::vector<Mod> mods;
    int              depth = 0;
    explicit Schemer(uint64_t seed) : r(seed) {}
    std::string any_type(size_t m, size_t limit) // the name of a type which may be used in m
    {
        if (m > 0 && r.chance(1, 4))
        {
            Mod& o = mods[r.below(m)];
            if (!o.types.empty())
            {
                std::string n = o.types[r.below(o.types.size())];
                auto        u = std::make_pair(o.name, n);
                if (std::find(mods[m].uses.begin(), mods[m].uses.end(), u) == mods[m].uses.end()) mods[m].uses.push_back(u);
                return n;
            }
        }
        if (limit == 0) return "";
        return mods[m].types[r.below(limit)];
    }
    std::string type(size_t m, size_t limit)
    {
        depth++;
        std::string t = type2(m, limit);
        depth--;
        return t;
    }
    std::string members(size_t m, size_t limit, const char* kw)
    {
        std::string s = std::string(kw) + " {";
        size_t      n = r.below(6), ext = r.chance(1, 4) ? r.below(n + 1) : 99;
        bool        choice = !strcmp(kw, "CHOICE"), tagged = r.chance(1, 2);
        if (choice && n == 0) n = 1;
        for (size_t i = 0; i < n; i++)
        {
            if (i) s += ",";
            if (i == ext) s += " ...,";
            s += " m" + std::to_string(i) + "-" + std::string(1, (char)('a' + r.below(26))) + " ";
            if (tagged) s += "[" + std::to_string(i) + "] ";
            s += type(m, limit);
            if (!choice) switch (r.below(4)) { case 0: s += " OPTIONAL"; break; default: break; }
        }
        return s + " }";
    }
    std::string type2(size_t m, size_t limit)
    {
        switch (r.below(depth > 3 ? 14 : 22))
        {
        case 0: return "BOOLEAN";
        case 1: return "INTEGER";
        case 2: return "OCTET STRING";
        case 3: return "NULL";
        case 4: return "OBJECT IDENTIFIER";
        case 5: return "UTF8String";
        case 6: return "REAL";
        case 7: return "INTEGER (0.." + std::to_string(r.below(1000)) + ")";
        case 8: return "IA5String";
        case 9: return "BIT STRING";
        case 10: { std::string s = "ENUMERATED {"; size_t n = 1 + r.below(5); for (size_t i = 0; i < n; i++) s += (i ? ", e" : " e") + std::to_string(i) + (r.chance(1, 3) ? "(" + std::to_string(i * 3) + ")" : ""); return s + " }"; }
        case 11: case 12: case 13: { std::string s = any_type(m, limit); return s.empty() ? "INTEGER" : s; }
        case 14: case 15: return members(m, limit, "SEQUENCE");
        case 16: return members(m, limit, "SET");
        case 17: return members(m, limit, "CHOICE");
        case 18: return "SEQUENCE OF " + type(m, limit);
        case 19: return "SET OF " + type(m, limit);
        case 20: if (!mods[m].templates.empty()) return mods[m].templates[r.below(mods[m].templates.size())] + "{" + (r.chance(1, 2) ? "INTEGER" : "OCTET STRING") + "}"; return "INTEGER";
        default: { std::string s = any_type(m, limit); return s.empty() ? "[" + std::to_string(r.below(40)) + "] OCTET STRING" : s; }
        }
    }
    Files make()
    {
        size_t k = 1 + r.below(4);
        for (size_t m = 0; m < k; m++)
        {
            mods.push_back({});
            mods[m].name = "Mod" + std::string(1, (char)('A' + m)) + std::to_string(r.below(100));
            size_t n = 2 + r.below(12);
            for (size_t i = 0; i < n; i++) mods[m].types.push_back("T" + std::to_string(m) + "-" + std::to_string(r.below(1000)) + "x" + std::to_string(i));
            if (r.chance(1, 3)) { mods[m].templates.push_back("P" + std::to_string(m)); mods[m].text.push_back("P" + std::to_string(m) + "{X} ::= SEQUENCE { pa INTEGER, pb X }"); }
            for (size_t i = 0; i < n; i++)
            {
                bool        loop = r.chance(1, 8);
                std::string body;
                if (loop) body = "SEQUENCE { value INTEGER, next " + mods[m].types[r.below(n)] + " OPTIONAL, more [7] " + mods[m].types[r.below(n)] + " OPTIONAL }";
                else { depth = 0; body = r.chance(2, 3) ? members(m, i, r.chance(1, 4) ? "CHOICE" : "SEQUENCE") : type(m, i); }
                mods[m].text.push_back(mods[m].types[i] + " ::= " + body);
            }
            for (size_t i = r.below(4); i--;)
            {
                std::string v = "val" + std::to_string(m) + "-" + std::to_string(i);
                switch (r.below(3))
                {
                case 0: mods[m].text.push_back(v + " INTEGER ::= " + std::to_string(r.below(100000))); break;
                case 1: mods[m].text.push_back(v + " OBJECT IDENTIFIER ::= { iso(1) standard(0) " + std::to_string(r.below(3000)) + " }"); break;
                default: mods[m].text.push_back(v + " IA5String ::= \"text" + std::to_string(r.below(100)) + "\""); break;
                }
            }
            if (r.chance(3, 4)) for (size_t i = mods[m].text.size(); i-- > 1;) std::swap(mods[m].text[i], mods[m].text[r.below(i + 1)]);
        }
        std::vector<std::string> out;
        for (auto& m : mods)
        {
            static const char* const tags[] = {"", "IMPLICIT TAGS ", "EXPLICIT TAGS ", "AUTOMATIC TAGS "};
            std::string s = m.name + " DEFINITIONS " + tags[r.below(4)] + "::= BEGIN\n\n";
            if (!m.uses.empty())
            {
                s += "IMPORTS\n";
                std::map<std::string, std::vector<std::string>> by;
                for (auto& u : m.uses) by[u.first].push_back(u.second);
                for (auto& u : by) { for (size_t i = 0; i < u.second.size(); i++) s += (i ? ", " : "    ") + u.second[i]; s += " FROM " + u.first + "\n"; }
                s += ";\n\n";
            }
            for (auto& t : m.text) s += t + "\n\n";
            out.push_back(s + "END\n");
        }
        for (size_t i = out.size(); i-- > 1;) std::swap(out[i], out[r.below(i + 1)]);
        Files f;
        for (auto& s : out)
        {
            if (!f.empty() && r.chance(1, 2)) f.back().second += "\n" + s;
            else f.emplace_back("file" + std::to_string(f.size()) + ".asn", s);
        }
        return f;
    }
};
Files input_set(long long kind, long long n)
{
    if (kind == 0 && !g_fixed.empty()) return g_fixed[(size_t)((uint64_t)n % g_fixed.size())];
    return Schemer((uint64_t)n).make();
}

// ---------------------------------------------------------------------------------------------------------- the world
const char* const SUFFIX[] = {".hpp", ".fwd.hpp", ".detail.hpp"};
struct Baseline
{
    bool        ok = false;
    std::string out[3];
};
std::map<std::pair<uint64_t, std::string>, Baseline> g_base; // by inputs and the name of the output
const char* const IN_DIRS[]  = {"in", "other place/input files", "a/b/c/d/e/f"};
const char* const OUT_DIRS[] = {"out", "results \xc3\xa4", "x/y"};
const char* const CWDS[]     = {"", "cwd", "out", "in", "a/b/c"};
const int         OPEN_ERRORS[]  = {EACCES, EMFILE, ENFILE, ENOENT, ENOSPC, EROFS, EIO, ENOMEM, ELOOP, EINTR, EPERM, EDQUOT, EISDIR};
const int         READ_ERRORS[]  = {EIO, EISDIR, ENOMEM, EBADF, ESTALE};
const int         WRITE_ERRORS[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EBADF, EAGAIN};
const int         CLOSE_ERRORS[] = {EIO, ENOSPC, EDQUOT};

int64_t g_now = 0;
bool    g_on  = false;
uint64_t g_env = 0;

struct World
{
    Ctx&        c;
    std::string root;
    Files       in;
    uint64_t    key = 0;
    uint64_t    nested = 0;
    explicit World(Ctx& x) : c(x), root(sys_scratch())
    {
        auto dirs = [&](const std::string& d) { for (size_t i = 1; i <= d.size(); i++) if (i == d.size() || d[i] == '/') mkdir((root + "/" + d.substr(0, i)).c_str(), 0700); };
        for (auto d : IN_DIRS) dirs(d);
        for (auto d : OUT_DIRS) dirs(d);
        for (auto d : CWDS) if (*d) dirs(d);
        dirs("base");
    }
    void use(const Files& f)
    {
        for (auto& x : in) for (auto d : IN_DIRS) unlink((root + "/" + d + "/" + x.first).c_str());
        in  = f;
        key = 1;
        for (auto& x : in)
        {
            key = hash64(hash64(key, hash_str(x.first)), hash_str(x.second));
            for (auto d : IN_DIRS) spit(root + "/" + d + "/" + x.first, x.second);
        }
    }
    SysRun command(const std::string& indir, const std::string& outdir, const std::string& name, const std::string& cwd, bool relative, uint64_t layout, std::vector<std::string> skip = {})
    {
        SysRun      s;
        std::string up = root + "/";
        if (relative) { up.clear(); if (!cwd.empty()) { up = "../"; for (char x : cwd) if (x == '/') up += "../"; } }
        std::vector<std::string> args{"fast_ber_compiler"};
        for (auto& x : in) args.push_back(up + indir + "/" + x.first);
        args.push_back(up + outdir + "/" + name);
        s.scratch = root;
        s.cwd     = root + "/" + cwd;
        s.layout  = layout;
        Rng r(layout);
        static const char* const names[] = {"HOME", "USER", "PATH", "LANG", "LC_ALL", "TZ", "TMPDIR", "VERBOSE", "DEBUG", "SOURCE_DATE_EPOCH"};
        for (auto n : names) if (r.chance(1, 2)) s.env.push_back(std::string(n) + "=" + (r.chance(1, 3) ? "" : r.chance(1, 2) ? "C.UTF-8" : std::to_string(r.below(100000))));
        for (size_t i = r.below(5); i--;) s.env.push_back("PADDING" + std::to_string(i) + "=" + std::string(r.below(3000), 'x'));
        int64_t  now = (int64_t)r.below(4000000000ull) * 1000000000ll;
        uint64_t env = layout <= 1 ? 0 : layout;
        s.main = [args, now, env]() {
            std::vector<char*> v;
            for (auto& a : args) v.push_back(const_cast<char*>(a.c_str()));
            v.push_back(nullptr);
            g_now = now;
            g_env = env;
            g_on  = true;
            return sim_compiler_main((int)args.size(), v.data());
        };
        return s;
    }
    void inputs_intact(const char* when)
    {
        for (auto d : IN_DIRS)
            for (auto& x : in)
            {
                bool        ok;
                std::string s = slurp(root + "/" + d + "/" + x.first, &ok);
                if (!ok || s != x.second) c.fail("input_modified", "%s the input %s is not what it was", when, x.first.c_str());
            }
    }
    const Baseline& baseline(const std::string& name)
    {
        auto k = std::make_pair(key, name);
        auto i = g_base.find(k);
        if (i != g_base.end()) return i->second;
        if (g_base.size() > 400) g_base.clear();
        Baseline  b;
        for (auto s : SUFFIX) unlink((root + "/base/" + name + s).c_str());
        SysResult q = sys_run(command(IN_DIRS[0], "base", name, "", false, 1), c);
        judge(q, "an undisturbed run");
        b.ok = q.status == 0;
        for (int j = 0; j < 3; j++)
        {
            bool ok;
            b.out[j] = slurp(root + "/base/" + name + SUFFIX[j], &ok);
            if (b.ok && (!ok || b.out[j].empty())) c.fail("incomplete", "an undisturbed run exits with status 0 without %s", SUFFIX[j]);
        }
        inputs_intact("after an undisturbed run");
        c.tick(b.ok ? "schema_accepted" : "schema_rejected");
        return g_base[k] = b;
    }
    void judge(const SysResult& q, const char* what)
    {
        if (q.hung) c.fail("hang", "%s does not end", what);
        if (!q.crashed) return;
        if (c.verbose)
        {
            fprintf(stderr, "%s\n", q.err.substr(0, 6000).c_str());
            for (auto& x : in) fprintf(stderr, "--- %s\n%s\n", x.first.c_str(), x.second.c_str());
        }
        std::string e = q.err, why = "status " + std::to_string(q.status);
        for (std::string k : {"ERROR: AddressSanitizer: ", "runtime error: ", "SIM-FATAL "})
        {
            size_t at = e.find(k);
            if (at != std::string::npos) { at += k.size(); why = e.substr(at, e.find_first_of(" \n(", at) - at); break; }
        }
        c.fail("crash", "%s crashes: %s", what, why.c_str());
    }
    void outputs(const std::string& dir, const std::string& name, const Baseline& b, const char* what)
    {
        for (int j = 0; j < 3; j++)
        {
            bool        ok;
            std::string p = root + "/" + dir + "/" + name + SUFFIX[j], s = slurp(p, &ok);
            if (ok && s == b.out[j]) continue;
            if (c.verbose)
            {
                size_t k = 0;
                while (k < s.size() && k < b.out[j].size() && s[k] == b.out[j][k]) k++;
                fprintf(stderr, "%s: %zu octets instead of %zu; at %zu\n--- %s\n--- %s\n", SUFFIX[j], s.size(), b.out[j].size(), k, s.substr(k > 60 ? k - 60 : 0, 200).c_str(), b.out[j].substr(k > 60 ? k - 60 : 0, 200).c_str());
            }
            c.fail("output_differs", "%s exits with status 0, but %s is not that of the undisturbed run", what, SUFFIX[j]);
        }
    }
    static int error_of(int cls, int64_t n)
    {
        size_t k = (size_t)(uint64_t)n;
        switch (cls)
        {
        case SC_OPEN_IN: case SC_OPEN_OUT: return OPEN_ERRORS[k % (sizeof OPEN_ERRORS / sizeof(int))];
        case SC_READ: return READ_ERRORS[k % (sizeof READ_ERRORS / sizeof(int))];
        case SC_WRITE: return WRITE_ERRORS[k % (sizeof WRITE_ERRORS / sizeof(int))];
        default: return CLOSE_ERRORS[k % (sizeof CLOSE_ERRORS / sizeof(int))];
        }
    }
    void earlier(const std::string& dir, const std::string& name, long long how, const Baseline& b)
    {
        Rng r((uint64_t)how);
        int kind = (int)(how % 8);
        if (kind == 0) return; // as the last run left it
        for (int j = 0; j < 3; j++)
        {
            std::string p = root + "/" + dir + "/" + name + SUFFIX[j];
            if (r.chance(1, 4)) continue;
            unlink(p.c_str());
            switch (kind)
            {
            case 1: break;
            case 2: spit(p, b.out[j] + std::string(1 + r.below(5000), '}')); break;
            case 3: spit(p, b.out[j].substr(0, r.below(b.out[j].size() + 1))); break;
            case 4: spit(p, ""); break;
            case 5: spit(p, std::string(b.out[j].size(), '\0')); break;
            case 6: { std::string s = b.out[j]; if (!s.empty()) s[r.below(s.size())] ^= 1; spit(p, s); break; }
            default: spit(p, "#error stale\n"); break;
            }
        }
        c.tick("alt_earlier_outputs");
    }
    // run LAYOUT PLACE EARLIER CAPACITY (CLASS NTH COUNT KIND ARG)*
    void run(const Op& o)
    {
        uint64_t        place = (uint64_t)o.arg(1);
        std::string     indir = IN_DIRS[place % 3], outdir = OUT_DIRS[place / 3 % 3], cwd = CWDS[place / 9 % 5], name = "gen";
        bool            relative = place / 45 % 2;
        const Baseline  b = baseline(name); // a copy: others may be forgotten while the run lasts
        SysRun          s = command(indir, outdir, name, cwd, relative, (uint64_t)o.arg(0));
        earlier(outdir, name, o.arg(2), b);
        if (o.arg(3) > 0) s.capacity = o.arg(3) - 1;
        for (size_t i = 4; i + 4 < o.a.size(); i += 5)
        {
            SysFault f;
            f.cls  = (int)((uint64_t)o.a[i] % SC_CLASSES);
            f.nth  = (uint64_t)o.a[i + 1];
            if (f.nth == 0) continue;
            f.last = f.nth + (uint64_t)o.a[i + 2];
            f.kind = (int)((uint64_t)o.a[i + 3] % SK_KINDS);
            f.arg  = f.kind == SK_ERROR ? error_of(f.cls, o.a[i + 4]) : o.a[i + 4];
            if (f.kind == SK_INTR && f.last - f.nth > 1000) f.last = f.nth + 1000; // it ends some time
            if (f.kind == SK_PAUSE) f.last = f.nth;
            s.faults.push_back(f);
        }
        s.paused = [&]() {
            // another compiler runs from beginning to end, with another output next to this one
            std::string     other = "gen2";
            const Baseline  b2    = baseline(other);
            SysRun          t     = command(indir, outdir, other, cwd, relative, (uint64_t)o.arg(0) ^ 77);
            SysResult       q     = sys_run(t, c);
            judge(q, "a second compiler");
            if ((q.status == 0) != b2.ok) c.fail("status", "a compiler exits with status %d while another runs", q.status);
            if (q.status == 0) outputs(outdir, other, b2, "a second compiler");
            nested++;
        };
        SysResult q = sys_run(s, c);
        std::string what = q.hard ? "a run in which " + q.hard_what : q.killed ? "a run which was killed" : "a run";
        c.now += 1000;
        c.ev("run status %d killed %d hard %d full %d", q.status == 0 ? 0 : 1, (int)q.killed, (int)q.hard, (int)q.full);
        judge(q, what.c_str());
        inputs_intact(("after " + what).c_str());
        c.state(hash64(hash64(key % 1000, hash_str(q.hard_what)), (uint64_t)(q.status == 0) * 4 + q.killed * 2 + q.full));
        if (q.killed) return;
        if (q.hard && q.status == 0) c.fail("false_success", "%s exits with status 0", what.c_str());
        if (!q.hard && (q.status == 0) != b.ok) c.fail("status", "%s exits with status %d, the undisturbed one %s", what.c_str(), q.status, b.ok ? "with 0" : "fails");
        if (q.status == 0) outputs(outdir, name, b, what.c_str());
        if (q.hard) c.tick("failure_reported");
        else if (q.status == 0) c.tick("same_output");
        used.insert(place);
    }
    std::set<uint64_t> used;
    // gone WHICH HOW: an input which is missing or a directory, or an output which cannot be created
    void gone(const Op& o)
    {
        const Baseline& b = baseline("gen");
        uint64_t        which = (uint64_t)o.arg(0);
        int             how   = (int)((uint64_t)o.arg(1) % 4);
        std::string     dir   = how == 3 ? "no/such/directory" : OUT_DIRS[0];
        SysRun          s     = command(IN_DIRS[0], dir, "gen", "", false, (uint64_t)o.arg(2));
        std::string     p     = root + "/" + (how == 2 ? std::string(OUT_DIRS[0]) + "/gen" + SUFFIX[which % 3] : std::string(IN_DIRS[0]) + "/" + in[which % in.size()].first);
        if (how < 3) unlink(p.c_str());
        if (how == 1 || how == 2) mkdir(p.c_str(), 0700);
        SysResult q = sys_run(s, c);
        if (how == 1 || how == 2) rmdir(p.c_str());
        if (how < 2) spit(p, in[which % in.size()].second);
        static const char* const names[] = {"an input is missing", "an input is a directory", "an output is a directory", "the directory of the outputs does not exist"};
        c.tick((std::string("fault_") + (how < 2 ? "bad_input" : "bad_output")).c_str());
        judge(q, names[how]);
        inputs_intact(names[how]);
        c.ev("gone %d status %d", how, q.status == 0 ? 0 : 1);
        if (q.status == 0) c.fail("false_success", "the compiler exits with status 0 although %s", names[how]);
        (void)b;
    }
    void step(const Op& o)
    {
        for (auto x : o.a) c.mix((uint64_t)x);
        if (o.name == "input") use(input_set(o.arg(0), o.arg(1)));
        else if (in.empty()) return;
        else if (o.name == "run") run(o);
        else if (o.name == "gone") gone(o);
        else if (o.name == "tear")
        {
            Files f = in;
            Rng   r((uint64_t)o.arg(2));
            std::string& s = f[(size_t)((uint64_t)o.arg(0) % f.size())].second;
            if (s.empty()) return;
            switch ((uint64_t)o.arg(1) % 5)
            {
            case 0: s.resize(r.below(s.size())); break;
            case 1: { size_t a = r.below(s.size()), n = std::min<size_t>(s.size() - a, 1 + r.below(512)); std::fill(s.begin() + (long)a, s.begin() + (long)(a + n), '\0'); break; }
            case 2: s[r.below(s.size())] ^= (char)(1 + r.below(255)); break;
            case 3: { size_t a = r.below(s.size()), n = std::min<size_t>(s.size() - a, 1 + r.below(100)); s.erase(a, n); break; }
            default: { size_t a = r.below(s.size()), n = std::min<size_t>(s.size() - a, 1 + r.below(100)); s.insert(r.below(s.size()), s.substr(a, n)); break; }
            }
            use(f);
            c.tick("fault_torn_input");
            const Baseline& b = baseline("gen");
            c.ev("torn input accepted %d", (int)b.ok);
            for (auto& x : f) if (b.ok && x.second.find('\0') != std::string::npos) c.fail("cut_off", "an input is silently cut off at a null character");
        }
    }
};
} // namespace

static int64_t real_ns(clockid_t id, timespec* t) { return syscall(SYS_clock_gettime, id, t); }
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    if (!g_on) return (int)real_ns(id, t);
    g_now += 1000;
    t->tv_sec  = g_now / 1000000000;
    t->tv_nsec = g_now % 1000000000;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
extern "C" int gettimeofday(struct timeval* t, void*)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec  = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}

void world_init() { load_fixed(); }
int  world_probe(const std::string&) { return 2; }
Plan world_gen(uint64_t seed, const std::string& profile)
{
    Rng  r(seed);
    Plan p;
    bool c14 = profile == "C14";
    if (r.chance(1, 2)) p.push_back(Op{"input", {0, (long long)r.below(1000)}});
    else p.push_back(Op{"input", {1, (long long)r.below(300)}});
    for (long n = r.range(3, c14 ? 10 : 8); n--;)
    {
        if (c14 && r.chance(1, 10)) { p.push_back(Op{"gone", {(long long)r.below(6), (long long)r.below(4), (long long)r.below(3)}}); continue; }
        if (c14 && r.chance(1, 8)) { p.push_back(Op{"tear", {(long long)r.below(4), (long long)r.below(5), (long long)r.below(1000000)}}); continue; }
        Op o{"run", {r.chance(1, 3) ? 0 : (long long)r.below(1000000), (long long)r.below(90), r.chance(c14 ? 1 : 2, 3) ? (long long)r.below(100000) : 0, 0}};
        auto fault = [&](int cls, long long nth, long long count, int kind, long long arg) { o.a.insert(o.a.end(), {cls, nth, count, kind, arg}); };
        auto some_n = [&](int cls) { return (long long)(cls == SC_ANY ? 1 + r.below(r.chance(1, 3) ? 200 : 24) : 1 + r.below(cls == SC_WRITE ? 9 : cls == SC_READ ? 8 : 4)); };
        if (c14 && r.chance(1, 4)) o.a[3] = 1 + (long long)(r.chance(1, 2) ? r.below(4000) : r.below(200000));
        if (r.chance(c14 ? 2 : 1, 3)) // slow transfers: these come first, so that the numbers below count within them
        {
            int cls = r.chance(1, 2) ? SC_READ : SC_WRITE;
            if (r.chance(1, 2)) fault(cls, some_n(cls), r.chance(1, 2) ? (long long)r.below(5) : 1000000, SK_SHORT, 1 + (long long)(r.chance(1, 3) ? r.below(8) : r.below(5000)));
            if (r.chance(1, 2)) fault(cls, some_n(cls), (long long)r.below(r.chance(1, 3) ? 100 : 3), SK_INTR, 0);
        }
        if (c14 ? r.chance(2, 3) : r.chance(1, 8))
        {
            int cls = (int)r.below(SC_OTHER + 1);
            o.a.insert(o.a.begin() + 4, {cls, some_n(cls), r.chance(1, 2) ? 0 : 1000000, SK_ERROR, (long long)r.below(20)});
        }
        if (r.chance(1, c14 ? 10 : 2)) fault(SC_ANY, some_n(SC_ANY), 0, SK_KILL, 0);
        if (r.chance(1, c14 ? 20 : 3)) fault(SC_ANY, some_n(SC_ANY), 0, SK_PAUSE, 0);
        p.push_back(o);
    }
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    World w(c);
    for (auto& o : p) w.step(o);
    if (w.in.empty()) return;
    // faults have ceased: every place which was used ends up as if nothing had ever happened
    std::set<uint64_t> outs;
    for (auto u : w.used) if (outs.insert(u / 3 % 3).second) w.run(Op{"run", {3, (long long)u, 0, 0}});
}
