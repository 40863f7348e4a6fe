// Deterministic simulator core: seeded choices, fibers, processes, clock,
// simulated file system, pipes and locks
#ifndef ARKISIM_SIM_H
#define ARKISIM_SIM_H

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <ucontext.h>
#include <vector>

namespace sim {

typedef int64_t ns_t;

// Oracle failure
struct Fail
{
    std::string cls, msg;
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    // log-uniform in [1, max]
    unsigned logu(unsigned max)
    {
        unsigned bits = 0;
        while ((1u << bits) < max) ++bits;
        unsigned b = below(bits + 1);
        unsigned v = (1u << b) + below(1u << b);
        return v > max ? 1 + below(max) : v;
    }
};

uint64_t fnv(uint64_t h, const void* p, size_t n);
inline uint64_t fnv(uint64_t h, const std::string& s) { return fnv(h, s.data(), s.size()); }

// ---- files

struct Inode
{
    uint64_t uid = 0;
    ino_t ino    = 0;
    mode_t mode  = 0;
    uint64_t parent = 0;
    std::map<std::string, uint64_t> ents;
    std::string data;
    ns_t mtime = 0;
    int nlink  = 0;
    bool isdir() const { return S_ISDIR(mode); }
    bool isreg() const { return S_ISREG(mode); }
    bool islnk() const { return S_ISLNK(mode); }
};

struct FsOp
{
    enum Kind { CREATE, UNLINK, RENAME, EXCHANGE, LINK, WRITE, TRUNC, SETTIME, CHMOD, FSYNC } kind;
    uint64_t uid = 0, parent = 0, parent2 = 0;
    std::string name, name2, data;
    int64_t off = 0;
    mode_t mode = 0;
    ino_t ino   = 0;
    ns_t t      = 0;
    bool replaced = false;
};

struct FsState
{
    std::map<uint64_t, Inode> inodes;
    uint64_t root = 1;
    void apply(const FsOp& op, bool with_data = true, size_t keep = (size_t)-1);
    Inode* get(uint64_t uid)
    {
        auto i = inodes.find(uid);
        return i == inodes.end() ? nullptr : &i->second;
    }
};

struct Lock
{
    const void* owner;
    short type;
    int64_t start, end; // [start, end)
};

struct Fs
{
    FsState live, base;
    std::vector<FsOp> log;
    uint64_t next_uid = 2;
    ino_t next_ino    = 100;
    bool ino_reuse    = true;
    std::set<ino_t> free_inos;
    std::map<uint64_t, int> opens;
    std::map<uint64_t, std::vector<Lock>> locks;
    int64_t capacity = -1; // bytes, -1 unlimited
    bool da_alloc    = true;
    uint64_t dirseed = 0;

    void reset();
    int64_t used() const;
    // Path resolution. Returns 0 or -errno. uid 0 if the last component is missing
    int resolve(const std::string& path, uint64_t base, bool follow, uint64_t& parent, std::string& name, uint64_t& uid, int depth = 0);
    uint64_t lookup(const std::string& path);
    void commit(FsOp&& op);
    int create(uint64_t parent, const std::string& name, mode_t mode, uint64_t& uid);
    int unlink(uint64_t parent, const std::string& name, bool dir);
    int exchange(uint64_t p1, const std::string& n1, uint64_t p2, const std::string& n2);
    int rename(uint64_t p1, const std::string& n1, uint64_t p2, const std::string& n2);
    void write(uint64_t uid, int64_t off, const char* data, size_t n);
    void truncate(uint64_t uid, int64_t size);
    void fsync(uint64_t uid);
    void ref(uint64_t uid) { ++opens[uid]; }
    void unref(uint64_t uid);
    void gc(uint64_t uid);
    // Revert to what survives a power loss
    void power_loss();
    // Convenience for workloads and oracles (no scheduling, no faults)
    bool exists(const std::string& path) { return lookup(path) != 0; }
    std::string read_all(const std::string& path);
    void put(const std::string& path, const std::string& data); // durable
    void mkdirs(const std::string& path);                       // durable
    std::vector<std::string> tree(const std::string& path); // recursive listing
    uint64_t hash(const std::string& path, bool times = false);
    std::map<std::string, std::string> snapshot(const std::string& path);
    void make_durable();
};

struct Pipe
{
    std::string* tap = nullptr; // records what is written

    std::string buf;
    size_t cap  = 65536;
    int readers = 0, writers = 0;
    uint64_t total_in = 0, total_out = 0;
};

struct OpenFile
{
    enum Kind { FILE_, DIR_, PIPE_R, PIPE_W, NUL } kind = FILE_;
    uint64_t uid  = 0;
    int64_t off   = 0;
    int flags     = 0;
    std::shared_ptr<Pipe> pipe;
    std::string path;
    int refs = 0;
    bool released = false;
    // Give back what is held: also called when the last process that has it
    // open is killed, as its stack may still have references
    void release();
    ~OpenFile();
};
typedef std::shared_ptr<OpenFile> FileP;

struct Process;

struct Fiber
{
    int id;
    Process* proc;
    ucontext_t ctx;
    char* stack        = nullptr;
    size_t stack_size  = 0;
    std::function<void()> fn;
    enum St { READY, BLOCKED, DONE } st = READY;
    std::function<bool()> pred;
    ns_t deadline  = -1;
    bool timed_out = false;
    bool dead      = false;
    void* eh[2]    = {nullptr, nullptr};
    int err        = 0;
    const char* what = "";
    bool detached  = false;
};

struct Process
{
    int pid, ppid;
    std::string name;
    std::map<int, FileP> fds;
    bool alive  = true;
    bool reaped = false;
    int status  = 0; // wait status
    bool killed = false;
    // Outcome of the main fiber
    bool finished = false;
    std::string error; // exception text
    bool has_error = false;
    std::string error_type;
    // Fault injection
    bool faults    = false; // subject to injected errors
    int crash_in   = 0;     // crash before the n-th mutating call, 0 = never
    int crash_kind = 0;     // 1 kill, 2 power loss
    uint64_t muts  = 0;     // mutating calls so far
    uint64_t calls = 0;
    unsigned umask_ = 022;
    bool sigchld    = false; // has a SIGCHLD handler
    ns_t stall_until = 0;
    // fork in progress
    Process* forking_parent = nullptr;
};

struct FaultSpec
{
    std::string name;
    double p = 0;
};

struct Violation
{
    std::string cls, msg;
};

struct Sim
{
    // ---- choices
    Rng rng{1};
    bool replaying = false;
    std::map<std::pair<std::string, unsigned>, unsigned> replay;
    std::map<std::string, unsigned> counters;
    std::string scope; // prefix of choice names: the operation being executed
    void set_scope(const std::string& s) { scope = s; counters.clear(); }
    std::vector<std::tuple<std::string, unsigned, unsigned>> trace; // non-default choices
    unsigned choose(const char* kind, unsigned n, double p);

    // ---- event log
    uint64_t loghash = 1469598103934665603ULL;
    uint64_t schedhash = 1469598103934665603ULL;
    uint64_t events = 0;
    bool verbose = false;
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // ---- clock
    ns_t now0 = 0, now = 0; // kernel time in ns since epoch
    ns_t clock_jump = 0;    // wall clock offset
    ns_t tick = 1000;
    ns_t sim_elapsed = 0;
    ns_t wall() const { return now + clock_jump; }

    // ---- scheduling
    std::vector<std::unique_ptr<Fiber>> fibers;
    std::vector<std::unique_ptr<Process>> procs;
    Fiber* cur = nullptr;
    ucontext_t main_ctx;
    int next_pid = 1000;
    uint64_t steps = 0, max_steps = 400000;
    double p_preempt = 0.1;
    bool stop        = false; // step limit reached
    bool power_lost  = false;
    uint64_t switches = 0;

    Process* spawn(const std::string& name, std::function<void()> fn);
    Fiber* add_fiber(Process* p, std::function<void()> fn);
    enum Outcome { OK, DEADLOCK, LIMIT };
    // Run until every fiber is done (or killed)
    Outcome run();
    // Kill whatever is still there
    void reap();
    int next_fiber = 0;
    std::string blocked_report();
    std::unique_ptr<Fail> failed; // an oracle evaluated in a simulated process failed
    bool inside() const { return cur != nullptr; }
    void yield();
    // Block the current fiber until pred() or deadline (absolute kernel ns; -1 never). false on timeout
    bool block(const char* what, std::function<bool()> pred, ns_t deadline = -1);
    void exit_fiber(); // never returns
    void kill_process(Process* p, int sig);
    void finish_process(Process* p, int status);
    void power_loss();
    void sleep_until(ns_t t);

    // A scheduling point at the entry of a simulated system call. May not return.
    void syscall(const char* name, const std::string& arg, bool mutating);

    // ---- faults
    std::map<std::string, double> fault_p;
    std::map<std::string, uint64_t> fired;
    std::map<std::string, uint64_t> probes;
    void probe(const char* name) { ++probes[name]; }
    int max_faults = 1000000, nfaults = 0;
    bool fault(const char* name);
    std::function<bool(const std::string& path)> fault_path; // restrict by path

    // ---- fork/exec
    struct Program
    {
        std::function<void(std::vector<std::string> argv)> main;
    };
    std::vector<std::string> exec_env; // environment given to the last program started with one
    std::function<int(std::vector<std::string> argv)> exec_handler; // runs in the child; returns exit code

    Fs fs;
    size_t pipe_cap = 65536;

    // ---- threads
    std::map<const void*, Fiber*> mutexes;
    std::map<const void*, uint64_t> cond_seq;
    std::map<const void*, std::vector<std::pair<Fiber*, bool>>> cond_wait;

    std::vector<std::string> denied; // attempts to touch real paths
    std::vector<std::string> stdio;  // output of the code under test on fd 1, 2

    Process* proc() const { return cur ? cur->proc : nullptr; }
    int newfd(Process* p, FileP f, int min = 10000);
    void drop_fds(Process* p);
    void close_pipe(FileP f);
};

extern Sim* S;

} // namespace sim
#endif
