// A program run in a copy of this process, with every system call it makes on files of its scratch directory (and its
// standard output) decided by the simulator. The calls are trapped by a seccomp filter, so that it does not matter by
// which library they are made.
#pragma once
#include "core.hpp"

enum SysClass { SC_OPEN_IN, SC_READ, SC_CLOSE_IN, SC_OPEN_OUT, SC_WRITE, SC_CLOSE_OUT, SC_OTHER, SC_ANY, SC_CLASSES };
extern const char* const SC_NAMES[];
enum SysKind { SK_ERROR, SK_SHORT, SK_INTR, SK_KILL, SK_PAUSE, SK_KINDS };
struct SysFault
{
    int      cls = 0, kind = 0;
    uint64_t nth  = 1; // the n-th call of that class
    uint64_t last = 1; // ... up to the last one affected
    int64_t  arg  = 0; // error number, number of octets, or repetitions
};
struct SysRun
{
    std::function<int()>    main;        // in the child
    std::string             scratch;     // directory; files elsewhere are left alone
    std::string             out;         // file which takes standard output
    std::vector<SysFault>   faults;
    int64_t                 capacity = -1; // octets which can be written before the disk is full
    std::function<void()>   paused;      // called while the child is stopped
    uint64_t                layout = 0;  // 0: the allocator of the system, else memory is handed out in an order derived from this
    std::vector<std::string> env;
    std::string             cwd;
};
struct SysResult
{
    int      status = 0; // of the exit
    bool     killed = false, crashed = false, hung = false;
    std::string err;     // what it printed to standard error
    uint64_t calls[SC_CLASSES] = {}; // made
    uint64_t hits[SK_KINDS] = {};
    bool     hard = false; // a call failed for good, other than closing an input
    bool     full = false;
    std::string hard_what;
};
SysResult   sys_run(const SysRun&, Ctx&);
std::string sys_scratch(); // a fresh, empty directory; the same one for every call of one process
void        sys_remove_scratch();
std::string slurp(const std::string& path, bool* ok = nullptr);
void        spit(const std::string& path, const std::string& s);
