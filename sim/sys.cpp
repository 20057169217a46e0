#include "sys.hpp"

#include <algorithm>
#include <cerrno>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

const char* const SC_NAMES[] = {"open_input", "read", "close_input", "open_output", "write", "close_output", "rename", "any"};

extern "C" long sim_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char sim_syscall_ret[];
asm(".text\n.globl sim_syscall\n.globl sim_syscall_ret\nsim_syscall:\n"
    "movq %rdi,%rax\nmovq %rsi,%rdi\nmovq %rdx,%rsi\nmovq %rcx,%rdx\nmovq %r8,%r10\nmovq %r9,%r8\nmovq 8(%rsp),%r9\nsyscall\nsim_syscall_ret:\nret\n");

namespace
{
struct Shared
{
    uint64_t calls[SC_CLASSES];
    uint64_t hits[SK_KINDS];
    uint64_t total;
    int      hard, full, killed, hung;
    char     what[120];
};
Shared*         sh = nullptr;
const SysFault* faults = nullptr;
size_t          n_faults = 0;
int64_t         capacity = -1;
char            prefix[300];
size_t          prefix_n = 0;
uint8_t         fd_class[4096]; // 0 not ours, 1 input, 2 output
uint64_t        fill     = 0; // what fresh memory and randomness hold
bool            in_child = false;
int             to_parent = -1, from_parent = -1;

void hard(int cls, uint64_t n, long err)
{
    if (sh->hard) return;
    sh->hard = 1;
    snprintf(sh->what, sizeof sh->what, "%s call %llu failed with error %ld", SC_NAMES[cls], (unsigned long long)n, err);
}
bool ours(const char* path)
{
    if (!path) return false;
    if (path[0] != '/') return true; // the working directory is a scratch directory
    return strncmp(path, prefix, prefix_n) == 0;
}
// What is to happen to this call? Returns a fault or none
const SysFault* decide(int cls, uint64_t* number)
{
    uint64_t n = ++sh->calls[cls], any = ++sh->calls[SC_ANY];
    *number = n;
    const SysFault* found = nullptr;
    for (size_t i = 0; i < n_faults; i++)
    {
        const SysFault& f = faults[i];
        uint64_t        k = f.cls == SC_ANY ? any : n;
        if ((f.cls != SC_ANY && f.cls != cls) || k < f.nth || k > f.last) continue;
        if (f.kind == SK_PAUSE)
        {
            char b = 'P';
            sh->hits[SK_PAUSE]++;
            sim_syscall(SYS_write, to_parent, (long)&b, 1, 0, 0, 0);
            while (sim_syscall(SYS_read, from_parent, (long)&b, 1, 0, 0, 0) == -EINTR) {}
            continue;
        }
        if (f.kind == SK_KILL)
        {
            sh->hits[SK_KILL]++;
            sh->killed = 1;
            sim_syscall(SYS_exit_group, 9, 0, 0, 0, 0, 0);
        }
        if (!found) found = &f;
    }
    return found;
}
long perform(long nr, const long* a)
{
    return sim_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
long transfer(long nr, const long* a, bool write) // read, write and their relatives
{
    uint64_t        n;
    const SysFault* f   = decide(write ? SC_WRITE : SC_READ, &n);
    bool            vec = nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev;
    uint64_t        len = 0;
    if (vec) for (long i = 0; i < a[2]; i++) len += ((const iovec*)a[1])[i].iov_len;
    else len = (uint64_t)a[2];
    uint64_t limit = len;
    if (f && len)
    {
        if (f->kind == SK_ERROR) { sh->hits[SK_ERROR]++; hard(write ? SC_WRITE : SC_READ, n, f->arg); return -f->arg; }
        if (f->kind == SK_INTR) { sh->hits[SK_INTR]++; return -EINTR; }
        if (f->kind == SK_SHORT) { uint64_t m = f->arg < 1 ? 1 : (uint64_t)f->arg; if (m < limit) { limit = m; sh->hits[SK_SHORT]++; } }
    }
    if (write && capacity >= 0 && len)
    {
        if (capacity == 0) { sh->full = 1; hard(SC_WRITE, n, ENOSPC); return -ENOSPC; }
        if ((uint64_t)capacity < limit) limit = (uint64_t)capacity;
    }
    long r;
    if (limit == len) r = perform(nr, a);
    else if (vec)
    {
        iovec v[64];
        long  k = 0;
        uint64_t left = limit;
        for (long i = 0; i < a[2] && i < 64 && left; i++)
        {
            v[k] = ((const iovec*)a[1])[i];
            if (v[k].iov_len > left) v[k].iov_len = left;
            left -= v[k].iov_len;
            k++;
        }
        long b[6] = {a[0], (long)v, k, a[3], a[4], a[5]};
        r = perform(nr, b);
    }
    else
    {
        long b[6] = {a[0], a[1], (long)limit, a[3], a[4], a[5]};
        r = perform(nr, b);
    }
    if (write && capacity >= 0 && r > 0) capacity -= r;
    return r;
}
long call(long nr, const long* a)
{
    if (++sh->total > 3000000) { sh->hung = 1; sim_syscall(SYS_exit_group, 8, 0, 0, 0, 0, 0); }
    switch (nr)
    {
    case SYS_open: case SYS_openat: case SYS_creat:
    {
        const char* path  = (const char*)(nr == SYS_openat ? a[1] : a[0]);
        long        flags = nr == SYS_openat ? a[2] : nr == SYS_open ? a[1] : O_WRONLY;
        if (!ours(path)) return perform(nr, a);
        bool            out = (flags & O_ACCMODE) != O_RDONLY;
        uint64_t        n;
        const SysFault* f = decide(out ? SC_OPEN_OUT : SC_OPEN_IN, &n);
        if (f && f->kind == SK_ERROR) { sh->hits[SK_ERROR]++; hard(out ? SC_OPEN_OUT : SC_OPEN_IN, n, f->arg); return -f->arg; }
        long fd = perform(nr, a);
        if (fd >= 0 && fd < 4096) fd_class[fd] = out ? 2 : 1;
        return fd;
    }
    case SYS_read: case SYS_readv: case SYS_pread64: case SYS_preadv:
        if (a[0] >= 0 && a[0] < 4096 && fd_class[a[0]]) return transfer(nr, a, false);
        return perform(nr, a);
    case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev:
        if (a[0] >= 0 && a[0] < 4096 && fd_class[a[0]]) return transfer(nr, a, true);
        return perform(nr, a);
    case SYS_close:
        if (a[0] >= 0 && a[0] < 4096 && fd_class[a[0]])
        {
            bool            out = fd_class[a[0]] == 2;
            uint64_t        n;
            const SysFault* f = decide(out ? SC_CLOSE_OUT : SC_CLOSE_IN, &n);
            fd_class[a[0]] = 0;
            long r = perform(nr, a);
            if (f && f->kind == SK_ERROR) { sh->hits[SK_ERROR]++; if (out) hard(SC_CLOSE_OUT, n, f->arg); return -f->arg; }
            return r;
        }
        return perform(nr, a);
    case SYS_dup: case SYS_dup2: case SYS_dup3:
    {
        long r = perform(nr, a);
        if (r >= 0 && r < 4096 && a[0] >= 0 && a[0] < 4096) fd_class[r] = fd_class[a[0]];
        return r;
    }
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat:
    case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate:
    {
        bool path = nr != SYS_fsync && nr != SYS_fdatasync && nr != SYS_ftruncate;
        bool at   = nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_linkat;
        if (path ? !ours((const char*)(at ? a[3] : a[1])) : !(a[0] >= 0 && a[0] < 4096 && fd_class[a[0]])) return perform(nr, a);
        uint64_t        n;
        const SysFault* f = decide(SC_OTHER, &n);
        if (f && f->kind == SK_ERROR) { sh->hits[SK_ERROR]++; hard(SC_OTHER, n, f->arg); return -f->arg; }
        return perform(nr, a);
    }
    case SYS_getrandom: case SYS_getpid: case SYS_gettid:
        if (nr != SYS_getrandom) return 1000 + (long)(fill * 77 % 30000);
        memset((void*)a[0], (int)(fill * 13 + 5), (size_t)a[1]);
        return a[1];
    default: return perform(nr, a);
    }
}
void on_sigsys(int, siginfo_t* i, void* u)
{
    auto* g = ((ucontext_t*)u)->uc_mcontext.gregs;
    long  a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
    g[REG_RAX] = call(i->si_syscall, a);
}
const int TRAPPED[] = {SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_readv, SYS_pread64, SYS_preadv, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_close, SYS_dup, SYS_dup2, SYS_dup3,
                       SYS_getrandom, SYS_getpid, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_fsync, SYS_fdatasync, SYS_ftruncate};
bool install()
{
    struct sigaction s = {};
    s.sa_sigaction     = on_sigsys;
    s.sa_flags         = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &s, nullptr)) return false;
    uint64_t ip = (uint64_t)sim_syscall_ret;
    std::vector<sock_filter> f;
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
    size_t n = sizeof TRAPPED / sizeof *TRAPPED;
    for (size_t i = 0; i < n; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)TRAPPED[i], (uint8_t)(n - i), 0));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    sock_fprog p{(unsigned short)f.size(), f.data()};
    return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}
// Memory handed out in no particular order: several regions, of which one is chosen for each allocation
struct Region { char *at, *end; };
Region   regions[24];
uint64_t layout_state;
void*    place(size_t n)
{
    layout_state = layout_state * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t x   = (layout_state ^ layout_state >> 29) * 0xBF58476D1CE4E5B9ull >> 32;
    size_t   pad = (x >> 8) % 5 * 16;
    n            = (n + 15) / 16 * 16;
    for (size_t k = 0; k < 24; k++)
    {
        Region& r = regions[(x + k) % 24];
        if ((size_t)(r.end - r.at) >= n + pad) { char* p = r.at + pad; r.at = p + n; memset(p, (int)(fill * 37), n); return p; }
    }
    return nullptr;
}
__attribute__((noinline, no_sanitize("address"))) void scribble(int c) // what the stack holds is as arbitrary as what memory holds
{
    volatile char a[200000];
    for (size_t i = 0; i < sizeof a; i++) a[i] = (char)c;
}
} // namespace

std::string slurp(const std::string& path, bool* ok)
{
    std::ifstream     f(path, std::ios::binary);
    std::stringstream s;
    if (ok) *ok = f.good();
    s << f.rdbuf();
    return s.str();
}
void spit(const std::string& path, const std::string& s)
{
    std::ofstream f(path, std::ios::binary);
    f << s;
}
static std::string g_scratch;
static void remove_tree(const std::string& d, bool itself)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h))
    {
        std::string n = e->d_name, p = d + "/" + n;
        if (n == "." || n == "..") continue;
        struct stat s;
        if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) remove_tree(p, true);
        else unlink(p.c_str());
    }
    closedir(h);
    if (itself) rmdir(d.c_str());
}
void sys_remove_scratch()
{
    if (in_child) return;
    if (!g_scratch.empty()) remove_tree(g_scratch, true);
    g_scratch.clear();
}
std::string sys_scratch()
{
    if (g_scratch.empty())
    {
        char t[] = "/tmp/fast_ber_sim_XXXXXX";
        if (!mkdtemp(t)) { fprintf(stderr, "no scratch directory\n"); _exit(3); }
        g_scratch = t;
        atexit(sys_remove_scratch);
    }
    remove_tree(g_scratch, false);
    return g_scratch;
}
SysResult sys_run(const SysRun& r, Ctx& c)
{
    auto* m = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int   up[2], down[2];
    if (m == MAP_FAILED || pipe(up) || pipe(down)) { fprintf(stderr, "no resources\n"); _exit(3); }
    memset(m, 0, sizeof *m);
    std::string err = r.scratch + "/.stderr";
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(up[0]);
        close(down[1]);
        to_parent   = up[1];
        from_parent = down[0];
        sh          = m;
        faults      = r.faults.data();
        n_faults    = r.faults.size();
        capacity    = r.capacity;
        snprintf(prefix, sizeof prefix, "%s/", r.scratch.c_str());
        prefix_n = strlen(prefix);
        if (chdir(r.cwd.empty() ? r.scratch.c_str() : r.cwd.c_str())) _exit(3);
        clearenv();
        static std::vector<std::string> env = r.env;
        for (auto& e : env) putenv(&e[0]);
        int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), o = open(r.out.empty() ? "/dev/null" : r.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        dup2(o, 1);
        dup2(e, 2);
        if (!r.out.empty()) fd_class[1] = 2;
        rlimit cpu{60, 65};
        setrlimit(RLIMIT_CPU, &cpu);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        in_child = true;
        if (r.layout)
        {
            layout_state = fill = r.layout;
            for (size_t i = 0; i < 24; i++)
            {
                const size_t size = 32u << 20;
                char*        p    = (char*)mmap((void*)(0x300000000000ull + i * (size * 2)), size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
                if (p == MAP_FAILED) _exit(3);
                regions[i] = Region{p, p + size};
            }
            for (size_t i = 24; i-- > 1;) { layout_state = layout_state * 6364136223846793005ull + 1442695040888963407ull; std::swap(regions[i], regions[(layout_state >> 33) % (i + 1)]); }
            g_alloc.keep  = true;
            g_alloc.place = place;
            scribble((int)(r.layout * 91));
        }
        if (!install()) { static const char t[] = "SIM-FATAL no-seccomp\n"; (void)!write(2, t, sizeof t - 1); _exit(3); }
        exit(r.main());
    }
    close(up[1]);
    close(down[0]);
    char b;
    for (;;)
    {
        ssize_t n = read(up[0], &b, 1);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        if (r.paused) r.paused();
        (void)!write(down[1], &b, 1);
    }
    close(up[0]);
    close(down[1]);
    int st = 0;
    waitpid(pid, &st, 0);
    SysResult q;
    memcpy(q.calls, m->calls, sizeof q.calls);
    memcpy(q.hits, m->hits, sizeof q.hits);
    q.hard      = m->hard;
    q.full      = m->full;
    q.killed    = m->killed;
    q.hung      = m->hung;
    q.hard_what = m->what;
    munmap(m, sizeof *m);
    q.err = slurp(err);
    unlink(err.c_str());
    if (WIFSIGNALED(st)) { q.crashed = true; q.status = 128 + WTERMSIG(st); if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) q.hung = true; }
    else q.status = WEXITSTATUS(st);
    if (!q.killed && !q.hung && (q.status >= 92 && q.status <= 97)) q.crashed = true;
    if (q.status == 3 && q.err.find("SIM-FATAL") != std::string::npos) { fprintf(stderr, "seccomp is not available\n"); _exit(3); }
    for (int k = 0; k < SC_CLASSES - 1; k++) if (q.calls[k]) c.tick((std::string("calls_") + SC_NAMES[k]).c_str(), q.calls[k]);
    static const char* const kinds[] = {"fault_call_failed", "fault_short_transfer", "fault_interrupted", "fault_killed", "paused"};
    for (int k = 0; k < SK_KINDS; k++) if (q.hits[k]) c.tick(kinds[k], q.hits[k]);
    if (q.full) c.tick("fault_disk_full");
    c.events += q.calls[SC_ANY];
    return q;
}
