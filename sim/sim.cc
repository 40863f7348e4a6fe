#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
} // namespace __cxxabiv1

namespace sim {

Sim* S = nullptr;

void shared_choice(const std::string& key, unsigned c, unsigned v);
void shared_log(uint64_t h, uint64_t events);

uint64_t fnv(uint64_t h, const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
    {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}

// ------------------------------------------------------------ choices

unsigned Sim::choose(const char* kind, unsigned n, double p)
{
    if (n <= 1) return 0;
    unsigned c = counters[kind]++;
    unsigned v = 0;
    std::string key = scope + kind;
    // Same allocations when replaying and when not: see alloc.cc
    auto i = replay.find(std::make_pair(key, c));
    if (replaying)
    {
        if (i != replay.end()) v = i->second % n;
    }
    else if (p > 0 && rng.chance(p))
        v = 1 + rng.below(n - 1);
    if (v)
    {
        trace.emplace_back(key, c, v);
        shared_choice(key, c, v);
    }
    return v;
}

void Sim::log(const char* fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
    loghash = fnv(loghash, buf, n);
    ++events;
    shared_log(loghash, events);
    if (verbose)
    {
        fprintf(stderr, "[%lld.%09lld %s#%d] %s\n", (long long)(now / 1000000000), (long long)(now % 1000000000),
                cur ? cur->proc->name.c_str() : "-", cur ? cur->id : 0, buf);
    }
}

bool Sim::fault(const char* name)
{
    if (!cur || !cur->proc->faults) return false;
    auto i = fault_p.find(name);
    if (i == fault_p.end()) return false;
    if (nfaults >= max_faults) return false;
    std::string k = std::string("fault.") + name;
    if (!choose(k.c_str(), 2, i->second)) return false;
    ++nfaults;
    ++fired[name];
    log("FAULT %s", name);
    return true;
}

// ------------------------------------------------------------ fibers

static void fiber_main()
{
    Fiber* f = S->cur;
    f->fn();
    S->exit_fiber();
}

static void save_fiber(Fiber* f)
{
    memcpy(f->eh, (void*)__cxxabiv1::__cxa_get_globals(), sizeof(f->eh));
    f->err = errno;
}

static void restore_fiber(Fiber* f)
{
    memcpy((void*)__cxxabiv1::__cxa_get_globals(), f->eh, sizeof(f->eh));
    errno = f->err;
}

static const size_t STACK = 512 * 1024;
static std::vector<char*> stack_pool;

Fiber* Sim::add_fiber(Process* p, std::function<void()> fn)
{
    auto f  = std::make_unique<Fiber>();
    f->id   = next_fiber++;
    f->proc = p;
    f->fn   = fn;
    if (!stack_pool.empty())
    {
        f->stack = stack_pool.back();
        stack_pool.pop_back();
    }
    else
        f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f->stack_size = STACK;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp   = f->stack;
    f->ctx.uc_stack.ss_size = STACK;
    f->ctx.uc_link          = &main_ctx;
    makecontext(&f->ctx, fiber_main, 0);
    Fiber* r = f.get();
    fibers.push_back(std::move(f));
    return r;
}

Process* Sim::spawn(const std::string& name, std::function<void()> fn)
{
    auto p    = std::make_unique<Process>();
    p->pid    = next_pid++;
    p->ppid   = 1;
    p->name   = name;
    Process* r = p.get();
    procs.push_back(std::move(p));
    add_fiber(r, [this, r, fn] {
        try
        {
            fn();
        }
        catch (std::exception& e)
        {
            r->has_error  = true;
            r->error      = e.what();
            r->error_type = typeid(e).name();
        }
        catch (Fail& f)
        {
            if (!failed) failed = std::make_unique<Fail>(f);
        }
        r->finished = true;
        finish_process(r, r->has_error ? (1 << 8) : 0);
    });
    return r;
}

static void free_stack(Fiber* f)
{
    if (f->stack && f->stack_size == STACK)
    {
        stack_pool.push_back(f->stack);
        f->stack = nullptr;
    }
}

void Sim::exit_fiber()
{
    Fiber* f = cur;
    f->st    = Fiber::DONE;
    swapcontext(&f->ctx, &main_ctx);
    abort();
}

void Sim::finish_process(Process* p, int status)
{
    p->alive  = false;
    p->status = status;
    for (auto& f : fibers)
        if (f->proc == p && f.get() != cur) f->dead = true, f->st = Fiber::DONE;
    for (auto i = mutexes.begin(); i != mutexes.end();)
        if (i->second && i->second->proc == p) i = mutexes.erase(i);
        else ++i;
    drop_fds(p);
    log("exit %s %d", p->name.c_str(), status);
}

void Sim::kill_process(Process* p, int sig)
{
    if (!p->alive) return;
    p->killed = true;
    log("kill %s %d", p->name.c_str(), sig);
    finish_process(p, sig);
    if (cur && cur->proc == p)
    {
        cur->dead = true;
        exit_fiber();
    }
}

void Sim::power_loss()
{
    log("power loss");
    power_lost = true;
    Fiber* me  = cur;
    for (auto& p : procs)
        if (p->alive)
        {
            p->killed = true;
            finish_process(p.get(), 9);
        }
    for (auto& f : fibers)
        f->dead = true, f->st = Fiber::DONE;
    fs.power_loss();
    if (me) exit_fiber();
}

Sim::Outcome Sim::run()
{
    Outcome res = OK;
    while (true)
    {
        std::vector<Fiber*> rn;
        ns_t mind = -1;
        bool any  = false;
        for (auto& f : fibers)
        {
            if (f->st == Fiber::DONE) continue;
            any = true;
            if (f->st == Fiber::BLOCKED)
            {
                if (f->pred && f->pred())
                {
                    f->st = Fiber::READY;
                    f->timed_out = false;
                }
                else if (f->deadline >= 0 && f->deadline <= now)
                {
                    f->st = Fiber::READY;
                    f->timed_out = true;
                }
                else
                {
                    if (f->deadline >= 0 && (mind < 0 || f->deadline < mind)) mind = f->deadline;
                    continue;
                }
            }
            rn.push_back(f.get());
        }
        if (!any || failed) break;
        if (rn.empty())
        {
            if (mind < 0)
            {
                res = DEADLOCK;
                break;
            }
            sim_elapsed += mind - now;
            now = mind;
            continue;
        }
        if (stop)
        {
            res = LIMIT;
            break;
        }
        unsigned v = choose("sched", rn.size(), 0.5);
        Fiber* f   = rn[v];
        ++switches;
        cur = f;
        restore_fiber(f);
        swapcontext(&main_ctx, &f->ctx);
        save_fiber(f);
        cur = nullptr;
        if (f->st == Fiber::DONE) free_stack(f);
    }
    // Forget finished fibers
    for (auto i = fibers.begin(); i != fibers.end();)
        if ((*i)->st == Fiber::DONE)
        {
            free_stack(i->get());
            i = fibers.erase(i);
        }
        else
            ++i;
    return res;
}

void Sim::reap()
{
    for (auto& p : procs)
        if (p->alive)
        {
            p->killed = true;
            finish_process(p.get(), 9);
        }
    for (auto& f : fibers)
        f->dead = true, f->st = Fiber::DONE, free_stack(f.get());
    fibers.clear();
    stop = false;
}

std::string Sim::blocked_report()
{
    std::string r;
    for (auto& f : fibers)
        if (f->st != Fiber::DONE)
        {
            if (!r.empty()) r += "; ";
            r += f->proc->name + (f->st == Fiber::BLOCKED ? " blocked in " : " running in ") + f->what;
        }
    return r;
}

void Sim::yield()
{
    Fiber* me = cur;
    if (stop)
    {
        me->st = Fiber::READY;
        swapcontext(&me->ctx, &main_ctx);
        return;
    }
    // Is anybody else able to run?
    unsigned others = 0;
    for (auto& f : fibers)
    {
        if (f.get() == me || f->st == Fiber::DONE) continue;
        if (f->st == Fiber::READY || (f->pred && f->pred()) || (f->deadline >= 0 && f->deadline <= now)) ++others;
    }
    if (!others) return;
    if (!choose("preempt", 2, p_preempt)) return;
    me->st = Fiber::READY;
    swapcontext(&me->ctx, &main_ctx);
}

bool Sim::block(const char* what, std::function<bool()> pred, ns_t deadline)
{
    Fiber* me = cur;
    if (pred && pred()) return true;
    me->what      = what;
    me->pred      = pred;
    me->deadline  = deadline;
    me->timed_out = false;
    me->st        = Fiber::BLOCKED;
    swapcontext(&me->ctx, &main_ctx);
    me->pred     = nullptr;
    me->deadline = -1;
    me->what     = "";
    return !me->timed_out;
}

void Sim::sleep_until(ns_t t) { block("sleep", nullptr, t); }

void Sim::syscall(const char* name, const std::string& arg, bool mutating)
{
    Process* p = cur->proc;
    cur->what  = name;
    if (++steps > max_steps) stop = true;
    now += tick;
    sim_elapsed += tick;
    ++p->calls;
    yield();
    schedhash = fnv(schedhash, &cur->id, sizeof(int));
    schedhash = fnv(schedhash, name, strlen(name));
    log("%s %s", name, arg.c_str());
    if (mutating)
    {
        ++p->muts;
        if (p->crash_in > 0 && --p->crash_in == 0)
        {
            if (p->crash_kind == 2)
            {
                ++fired["power_loss"];
                power_loss();
            }
            else
            {
                ++fired["kill"];
                kill_process(p, 9);
            }
        }
    }
}

int Sim::newfd(Process* p, FileP f, int min)
{
    int fd = min;
    while (p->fds.count(fd)) ++fd;
    p->fds[fd] = f;
    return fd;
}

void Sim::drop_fds(Process* p)
{
    auto fds = std::move(p->fds);
    p->fds.clear();
    for (auto& i : fds)
    {
        bool shared = false;
        for (auto& q : procs)
            for (auto& j : q->fds)
                if (j.second == i.second) shared = true;
        if (!shared && i.second) i.second->release();
    }
}

OpenFile::~OpenFile() { release(); }

void OpenFile::release()
{
    if (!S || released) return;
    released = true;
    if (pipe)
    {
        if (kind == PIPE_R) --pipe->readers;
        else --pipe->writers;
    }
    else if (uid)
    {
        // Release locks owned by this open file description
        auto i = S->fs.locks.find(uid);
        if (i != S->fs.locks.end())
        {
            auto& v = i->second;
            v.erase(std::remove_if(v.begin(), v.end(), [&](const Lock& l) { return l.owner == this; }), v.end());
            if (v.empty()) S->fs.locks.erase(i);
        }
        S->fs.unref(uid);
    }
}

// ------------------------------------------------------------ file system

void FsState::apply(const FsOp& op, bool with_data, size_t keep)
{
    switch (op.kind)
    {
        case FsOp::CREATE: {
            Inode n;
            n.uid    = op.uid;
            n.ino    = op.ino;
            n.mode   = op.mode;
            n.parent = op.parent;
            n.mtime  = op.t;
            n.nlink  = 1;
            if (S_ISLNK(op.mode)) n.data = op.data;
            inodes[op.uid] = n;
            if (auto p = get(op.parent))
            {
                p->ents[op.name] = op.uid;
                p->mtime         = op.t;
            }
            break;
        }
        case FsOp::UNLINK: {
            if (auto p = get(op.parent))
            {
                auto i = p->ents.find(op.name);
                if (i != p->ents.end())
                {
                    if (auto n = get(i->second)) --n->nlink;
                    p->ents.erase(i);
                    p->mtime = op.t;
                }
            }
            break;
        }
        case FsOp::LINK: {
            if (auto p = get(op.parent))
            {
                p->ents[op.name] = op.uid;
                p->mtime         = op.t;
                if (auto n = get(op.uid)) ++n->nlink;
            }
            break;
        }
        case FsOp::RENAME: {
            auto p1 = get(op.parent), p2 = get(op.parent2);
            if (!p1 || !p2) break;
            auto i = p1->ents.find(op.name);
            if (i == p1->ents.end()) break;
            uint64_t u = i->second;
            p1->ents.erase(i);
            auto j = p2->ents.find(op.name2);
            if (j != p2->ents.end())
                if (auto n = get(j->second)) --n->nlink;
            p2->ents[op.name2] = u;
            p1->mtime = p2->mtime = op.t;
            if (auto n = get(u)) n->parent = op.parent2;
            break;
        }
        case FsOp::EXCHANGE: {
            auto p1 = get(op.parent), p2 = get(op.parent2);
            if (!p1 || !p2) break;
            auto i = p1->ents.find(op.name);
            auto j = p2->ents.find(op.name2);
            if (i == p1->ents.end() || j == p2->ents.end()) break;
            std::swap(i->second, j->second);
            p1->mtime = p2->mtime = op.t;
            if (auto n = get(i->second)) n->parent = op.parent;
            if (auto n = get(j->second)) n->parent = op.parent2;
            break;
        }
        case FsOp::WRITE: {
            if (!with_data) break;
            if (auto n = get(op.uid))
            {
                size_t len = std::min(keep, op.data.size());
                if (!len) break;
                if (n->data.size() < (size_t)op.off + len) n->data.resize(op.off + len, 0);
                memcpy(&n->data[op.off], op.data.data(), len);
                n->mtime = op.t;
            }
            break;
        }
        case FsOp::TRUNC:
            if (auto n = get(op.uid))
            {
                n->data.resize(op.off, 0);
                n->mtime = op.t;
            }
            break;
        case FsOp::SETTIME:
            if (auto n = get(op.uid)) n->mtime = op.t;
            break;
        case FsOp::CHMOD:
            if (auto n = get(op.uid)) n->mode = (n->mode & S_IFMT) | (op.mode & 07777);
            break;
        case FsOp::FSYNC: break;
    }
}

void Fs::reset()
{
    live = FsState();
    Inode r;
    r.uid = 1;
    r.ino = 2;
    r.mode = S_IFDIR | 0755;
    r.parent = 1;
    r.nlink  = 1;
    live.inodes[1] = r;
    base = live;
    log.clear();
    opens.clear();
    locks.clear();
}

int64_t Fs::used() const
{
    int64_t r = 0;
    for (auto& i : live.inodes)
        r += i.second.data.size();
    return r;
}

void Fs::commit(FsOp&& op)
{
    op.t = op.kind == FsOp::SETTIME ? op.t : S->wall();
    live.apply(op);
    log.push_back(std::move(op));
}

int Fs::resolve(const std::string& path, uint64_t base, bool follow, uint64_t& parent, std::string& name, uint64_t& uid, int depth)
{
    if (depth > 20) return -ELOOP;
    uint64_t cur = base ? base : live.root;
    size_t pos   = 0;
    if (!path.empty() && path[0] == '/') cur = live.root;
    parent = cur;
    name   = ".";
    uid    = cur;
    bool trailing = path.size() > 1 && path.back() == '/';
    while (pos < path.size())
    {
        while (pos < path.size() && path[pos] == '/') ++pos;
        if (pos >= path.size()) break;
        size_t e = path.find('/', pos);
        if (e == std::string::npos) e = path.size();
        std::string comp = path.substr(pos, e - pos);
        pos              = e;
        // more components?
        size_t q = pos;
        while (q < path.size() && path[q] == '/') ++q;
        bool last = q >= path.size();
        if (uid == 0) return -ENOENT;
        Inode* d = live.get(uid);
        if (!d) return -ENOENT;
        if (!d->isdir()) return -ENOTDIR;
        if (comp.size() > 255) return -ENAMETOOLONG;
        if (comp == ".")
        {
            name = ".";
            continue;
        }
        if (comp == "..")
        {
            uid = d->parent;
            parent = uid;
            name   = "..";
            continue;
        }
        parent = uid;
        name   = comp;
        auto i = d->ents.find(comp);
        if (i == d->ents.end())
        {
            if (!last) return -ENOENT;
            uid = 0;
            continue;
        }
        uid      = i->second;
        Inode* n = live.get(uid);
        if (n && n->islnk() && (!last || follow || trailing))
        {
            std::string rest = n->data;
            uint64_t p2, u2;
            std::string n2;
            int r = resolve(rest, parent, true, p2, n2, u2, depth + 1);
            if (r < 0) return r;
            uid = u2;
            if (last)
            {
                parent = p2;
                name   = n2;
            }
        }
    }
    if (uid && trailing)
    {
        Inode* n = live.get(uid);
        if (n && !n->isdir()) return -ENOTDIR;
    }
    return 0;
}

uint64_t Fs::lookup(const std::string& path)
{
    uint64_t p, u;
    std::string n;
    if (resolve(path, 0, true, p, n, u) < 0) return 0;
    return u;
}

int Fs::create(uint64_t parent, const std::string& name, mode_t mode, uint64_t& uid)
{
    Inode* d = live.get(parent);
    if (!d || d->nlink == 0) return -ENOENT;
    if (d->ents.count(name)) return -EEXIST;
    FsOp op;
    op.kind   = FsOp::CREATE;
    op.uid    = next_uid++;
    op.parent = parent;
    op.name   = name;
    op.mode   = mode;
    if (ino_reuse && !free_inos.empty())
    {
        op.ino = *free_inos.begin();
        free_inos.erase(free_inos.begin());
        S->probe("inode_reused");
    }
    else
        op.ino = next_ino++;
    uid = op.uid;
    commit(std::move(op));
    return 0;
}

void Fs::gc(uint64_t uid)
{
    Inode* n = live.get(uid);
    if (!n || n->nlink > 0) return;
    auto o = opens.find(uid);
    if (o != opens.end() && o->second > 0) return;
    free_inos.insert(n->ino);
    live.inodes.erase(uid);
}

void Fs::unref(uint64_t uid)
{
    auto o = opens.find(uid);
    if (o == opens.end()) return;
    if (--o->second <= 0)
    {
        opens.erase(o);
        gc(uid);
    }
}

int Fs::unlink(uint64_t parent, const std::string& name, bool dir)
{
    Inode* d = live.get(parent);
    if (!d) return -ENOENT;
    auto i = d->ents.find(name);
    if (i == d->ents.end()) return -ENOENT;
    uint64_t u = i->second;
    Inode* n   = live.get(u);
    if (dir && !n->isdir()) return -ENOTDIR;
    if (!dir && n->isdir()) return -EISDIR;
    if (dir && !n->ents.empty()) return -ENOTEMPTY;
    FsOp op;
    op.kind   = FsOp::UNLINK;
    op.parent = parent;
    op.name   = name;
    op.uid    = u;
    commit(std::move(op));
    gc(u);
    return 0;
}

int Fs::rename(uint64_t p1, const std::string& n1, uint64_t p2, const std::string& n2)
{
    Inode *d1 = live.get(p1), *d2 = live.get(p2);
    if (!d1 || !d2) return -ENOENT;
    auto i = d1->ents.find(n1);
    if (i == d1->ents.end()) return -ENOENT;
    uint64_t u = i->second, old = 0;
    auto j = d2->ents.find(n2);
    if (j != d2->ents.end())
    {
        old = j->second;
        if (old == u) return 0;
        Inode *a = live.get(u), *b = live.get(old);
        if (a->isdir() && !b->isdir()) return -ENOTDIR;
        if (!a->isdir() && b->isdir()) return -EISDIR;
        if (b->isdir() && !b->ents.empty()) return -ENOTEMPTY;
    }
    if (live.get(u)->isdir())
    {
        // not into itself
        for (uint64_t c = p2; c != live.root; c = live.get(c)->parent)
            if (c == u) return -EINVAL;
    }
    FsOp op;
    op.kind    = FsOp::RENAME;
    op.parent  = p1;
    op.name    = n1;
    op.parent2 = p2;
    op.name2   = n2;
    op.uid     = u;
    op.replaced = old != 0;
    commit(std::move(op));
    if (old) gc(old);
    return 0;
}

int Fs::exchange(uint64_t p1, const std::string& n1, uint64_t p2, const std::string& n2)
{
    Inode *d1 = live.get(p1), *d2 = live.get(p2);
    if (!d1 || !d2) return -ENOENT;
    auto i = d1->ents.find(n1);
    auto j = d2->ents.find(n2);
    if (i == d1->ents.end() || j == d2->ents.end()) return -ENOENT;
    FsOp op;
    op.kind    = FsOp::EXCHANGE;
    op.parent  = p1;
    op.name    = n1;
    op.parent2 = p2;
    op.name2   = n2;
    op.uid     = i->second;
    commit(std::move(op));
    return 0;
}

void Fs::write(uint64_t uid, int64_t off, const char* data, size_t n)
{
    if (!n) return;
    FsOp op;
    op.kind = FsOp::WRITE;
    op.uid  = uid;
    op.off  = off;
    op.data.assign(data, n);
    commit(std::move(op));
}

void Fs::truncate(uint64_t uid, int64_t size)
{
    FsOp op;
    op.kind = FsOp::TRUNC;
    op.uid  = uid;
    op.off  = size;
    commit(std::move(op));
}

void Fs::fsync(uint64_t uid)
{
    FsOp op;
    op.kind = FsOp::FSYNC;
    op.uid  = uid;
    commit(std::move(op));
}

// The model: an ordered metadata journal. fsync of any file makes every
// earlier metadata operation durable, plus that file's data. What follows the
// last fsync is lost from some point on. Data that was never fsynced may be
// missing from some byte on, with the file size not covering it, unless the
// file was renamed over an existing one and da_alloc is set.
void Fs::power_loss()
{
    size_t total  = log.size();
    size_t commit = 0;
    for (size_t i = 0; i < total; ++i)
        if (log[i].kind == FsOp::FSYNC) commit = i + 1;
    size_t cut = total - S->choose("power.cut", total - commit + 1, 0.75);
    // Last point up to which each file's data are known durable
    std::map<uint64_t, size_t> synced;
    std::set<uint64_t> unsynced;
    for (size_t i = 0; i < cut; ++i)
    {
        const auto& op = log[i];
        if (op.kind == FsOp::FSYNC) synced[op.uid] = i + 1;
        if (op.kind == FsOp::RENAME && op.replaced && da_alloc) synced[op.uid] = i + 1;
    }
    std::map<uint64_t, std::vector<size_t>> pending;
    for (size_t i = 0; i < cut; ++i)
        if (log[i].kind == FsOp::WRITE && (!synced.count(log[i].uid) || synced[log[i].uid] <= i)) pending[log[i].uid].push_back(i);
    std::map<size_t, size_t> keep; // op index -> bytes kept
    for (auto& p : pending)
    {
        size_t bytes = 0;
        for (auto i : p.second)
            bytes += log[i].data.size();
        size_t lost = S->choose("power.data", 4, 0.7);
        size_t kept = bytes;
        if (lost == 1) kept = 0;
        else if (lost == 2)
        {
            // lost from the boundary between two writes
            size_t n = S->choose("power.torn", p.second.size(), 1.0);
            kept     = 0;
            for (size_t j = 0; j < p.second.size() - 1 - n; ++j)
                kept += log[p.second[j]].data.size();
        }
        else if (lost == 3)
        {
            // lost from a block boundary
            size_t nb = bytes / 4096 + 1;
            kept = S->choose("power.torn_block", nb, 1.0) * 4096;
        }
        if (kept < bytes) S->probe("power_lost_data");
        for (auto i : p.second)
        {
            size_t k = std::min(kept, log[i].data.size());
            keep[i]  = k;
            kept -= k;
        }
    }
    for (size_t i = 0; i < cut; ++i)
    {
        auto k = keep.find(i);
        base.apply(log[i], true, k == keep.end() ? (size_t)-1 : k->second);
    }
    S->log("power loss: %zu ops, %zu committed, kept %zu", total, commit, cut);
    if (cut < total) S->probe("power_lost_metadata");
    // Drop orphans
    for (auto i = base.inodes.begin(); i != base.inodes.end();)
        if (i->second.nlink <= 0) i = base.inodes.erase(i);
        else ++i;
    live = base;
    log.clear();
    opens.clear();
    locks.clear();
    free_inos.clear();
    std::set<ino_t> usedi;
    for (auto& i : live.inodes)
        usedi.insert(i.second.ino);
    for (ino_t i = 100; i < next_ino; ++i)
        if (!usedi.count(i)) free_inos.insert(i);
}

void Fs::make_durable()
{
    for (auto& op : log)
        base.apply(op);
    for (auto i = base.inodes.begin(); i != base.inodes.end();)
        if (i->second.nlink <= 0 && !opens.count(i->first)) i = base.inodes.erase(i);
        else ++i;
    log.clear();
}

std::string Fs::read_all(const std::string& path)
{
    uint64_t u = lookup(path);
    if (!u) return std::string();
    return live.get(u)->data;
}

void Fs::mkdirs(const std::string& path)
{
    size_t pos = 1;
    while (pos <= path.size())
    {
        size_t e = path.find('/', pos);
        if (e == std::string::npos) e = path.size();
        std::string sub = path.substr(0, e);
        if (!sub.empty() && !lookup(sub))
        {
            uint64_t p, u;
            std::string n;
            resolve(sub, 0, true, p, n, u);
            create(p, n, S_IFDIR | 0755, u);
        }
        pos = e + 1;
    }
}

void Fs::put(const std::string& path, const std::string& data)
{
    uint64_t p, u;
    std::string n;
    if (resolve(path, 0, true, p, n, u) < 0) throw std::runtime_error("put " + path);
    if (!u) create(p, n, S_IFREG | 0644, u);
    truncate(u, 0);
    write(u, 0, data.data(), data.size());
    fsync(u);
}

static void tree_rec(Fs& fs, uint64_t uid, const std::string& path, std::vector<std::string>& out)
{
    Inode* n = fs.live.get(uid);
    if (!n) return;
    out.push_back(path);
    for (auto& e : n->ents)
        tree_rec(fs, e.second, path + "/" + e.first, out);
}

std::vector<std::string> Fs::tree(const std::string& path)
{
    std::vector<std::string> out;
    uint64_t u = lookup(path);
    if (u) tree_rec(*this, u, path, out);
    return out;
}

uint64_t Fs::hash(const std::string& path, bool times)
{
    uint64_t h = 1469598103934665603ULL;
    for (auto& p : tree(path))
    {
        h = fnv(h, p);
        Inode* n = live.get(lookup(p));
        h = fnv(h, n->data);
        if (times) h = fnv(h, &n->mtime, sizeof(n->mtime));
    }
    return h;
}

std::map<std::string, std::string> Fs::snapshot(const std::string& path)
{
    std::map<std::string, std::string> res;
    for (auto& p : tree(path))
    {
        uint64_t pa, u;
        std::string nm;
        resolve(p, 0, false, pa, nm, u);
        Inode* n = live.get(u);
        res[p]   = n->isdir() ? std::string("<dir>") : n->data;
    }
    return res;
}

} // namespace sim
