// A SQLite VFS on top of the simulated file system: SQLite itself is the real
// library, its files, locks and shared memory live in the simulator.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sqlite3.h>
#include <unistd.h>

using namespace sim;

namespace {

struct SFile;

struct ShmNode
{
    std::vector<char*> regions;
    std::vector<SFile*> users;
};

struct SFile
{
    sqlite3_file base;
    int fd;
    uint64_t uid;
    Process* proc;
    int level;
    ShmNode* shm;
    unsigned shared, excl;
    char* path;
    bool del;
};

std::map<uint64_t, std::vector<SFile*>> files; // by inode
std::map<uint64_t, ShmNode*> shms;

void prune(uint64_t uid)
{
    auto& v = files[uid];
    v.erase(std::remove_if(v.begin(), v.end(), [](SFile* f) { return !f->proc->alive; }), v.end());
}

void prune_shm(uint64_t uid)
{
    auto i = shms.find(uid);
    if (i == shms.end()) return;
    auto& v = i->second->users;
    v.erase(std::remove_if(v.begin(), v.end(), [](SFile* f) { return !f->proc->alive; }), v.end());
    if (v.empty())
    {
        // Regions are leaked: a killed process may still point at them
        delete i->second;
        shms.erase(i);
    }
}

int xClose(sqlite3_file* pf)
{
    SFile* f = (SFile*)pf;
    auto& v  = files[f->uid];
    v.erase(std::remove(v.begin(), v.end(), f), v.end());
    ::close(f->fd);
    if (f->del) ::unlink(f->path);
    free(f->path);
    return SQLITE_OK;
}
int xRead(sqlite3_file* pf, void* buf, int n, sqlite3_int64 off)
{
    SFile* f  = (SFile*)pf;
    int got   = 0;
    while (got < n)
    {
        ssize_t r = ::pread(f->fd, (char*)buf + got, n - got, off + got);
        if (r < 0)
        {
            if (errno == EINTR) continue;
            return SQLITE_IOERR_READ;
        }
        if (r == 0) break;
        got += r;
    }
    if (got < n)
    {
        memset((char*)buf + got, 0, n - got);
        return SQLITE_IOERR_SHORT_READ;
    }
    return SQLITE_OK;
}
int xWrite(sqlite3_file* pf, const void* buf, int n, sqlite3_int64 off)
{
    SFile* f = (SFile*)pf;
    int done = 0;
    while (done < n)
    {
        ssize_t r = ::pwrite(f->fd, (const char*)buf + done, n - done, off + done);
        if (r < 0)
        {
            if (errno == EINTR) continue;
            if (errno == ENOSPC) return SQLITE_FULL;
            return SQLITE_IOERR_WRITE;
        }
        if (r == 0) return SQLITE_FULL;
        done += r;
    }
    return SQLITE_OK;
}
int xTruncate(sqlite3_file* pf, sqlite3_int64 size)
{
    return ::ftruncate(((SFile*)pf)->fd, size) < 0 ? SQLITE_IOERR_TRUNCATE : SQLITE_OK;
}
int xSync(sqlite3_file* pf, int)
{
    return ::fsync(((SFile*)pf)->fd) < 0 ? SQLITE_IOERR_FSYNC : SQLITE_OK;
}
int xFileSize(sqlite3_file* pf, sqlite3_int64* size)
{
    Inode* i = S->fs.live.get(((SFile*)pf)->uid);
    *size    = i ? i->data.size() : 0;
    return SQLITE_OK;
}
int xLock(sqlite3_file* pf, int level)
{
    SFile* f = (SFile*)pf;
    if (f->level >= level) return SQLITE_OK;
    S->syscall("sql_lock", std::string(f->path) + " " + std::to_string(level), false);
    prune(f->uid);
    int maxo = 0;
    bool othershared = false;
    for (auto o : files[f->uid])
        if (o != f)
        {
            maxo = std::max(maxo, o->level);
            if (o->level >= SQLITE_LOCK_SHARED) othershared = true;
        }
    if (level == SQLITE_LOCK_SHARED)
    {
        if (maxo >= SQLITE_LOCK_PENDING) return SQLITE_BUSY;
        f->level = level;
        return SQLITE_OK;
    }
    if (maxo >= SQLITE_LOCK_RESERVED) return SQLITE_BUSY;
    if (level == SQLITE_LOCK_RESERVED)
    {
        f->level = level;
        return SQLITE_OK;
    }
    f->level = SQLITE_LOCK_PENDING;
    if (othershared) return SQLITE_BUSY;
    f->level = SQLITE_LOCK_EXCLUSIVE;
    return SQLITE_OK;
}
int xUnlock(sqlite3_file* pf, int level)
{
    SFile* f = (SFile*)pf;
    if (f->level > level) f->level = level;
    return SQLITE_OK;
}
int xCheckReservedLock(sqlite3_file* pf, int* out)
{
    SFile* f = (SFile*)pf;
    prune(f->uid);
    *out = 0;
    for (auto o : files[f->uid])
        if (o->level >= SQLITE_LOCK_RESERVED) *out = 1;
    return SQLITE_OK;
}
int xFileControl(sqlite3_file* pf, int op, void* arg)
{
    SFile* f = (SFile*)pf;
    switch (op)
    {
        case SQLITE_FCNTL_LOCKSTATE: *(int*)arg = f->level; return SQLITE_OK;
        case SQLITE_FCNTL_HAS_MOVED: {
            *(int*)arg = S->fs.lookup(f->path) != f->uid;
            return SQLITE_OK;
        }
    }
    return SQLITE_NOTFOUND;
}
int xSectorSize(sqlite3_file*) { return 4096; }
int xDeviceCharacteristics(sqlite3_file*) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }

int xShmMap(sqlite3_file* pf, int reg, int sz, int extend, void volatile** out)
{
    SFile* f = (SFile*)pf;
    *out     = nullptr;
    if (!f->shm)
    {
        prune_shm(f->uid);
        auto& n = shms[f->uid];
        if (!n)
        {
            n = new ShmNode;
            // the file exists on disk, even if nothing looks at its contents
            int fd = ::open((std::string(f->path) + "-shm").c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0)
            {
                delete n;
                shms.erase(f->uid);
                return SQLITE_CANTOPEN;
            }
            ::close(fd);
        }
        // the open may have let others in
        auto& n2 = shms[f->uid];
        if (!n2) n2 = new ShmNode;
        n2->users.push_back(f);
        f->shm = n2;
    }
    if (reg >= (int)f->shm->regions.size())
    {
        if (!extend) return SQLITE_OK;
        while (reg >= (int)f->shm->regions.size())
            f->shm->regions.push_back((char*)calloc(1, sz));
    }
    *out = f->shm->regions[reg];
    return SQLITE_OK;
}
int xShmLock(sqlite3_file* pf, int ofst, int n, int flags)
{
    SFile* f      = (SFile*)pf;
    unsigned mask = ((1u << (ofst + n)) - (1u << ofst));
    if (!f->shm) return SQLITE_IOERR_SHMLOCK;
    if (flags & SQLITE_SHM_UNLOCK)
    {
        f->shared &= ~mask;
        f->excl &= ~mask;
        return SQLITE_OK;
    }
    S->syscall("sql_shmlock", std::string(f->path) + " " + std::to_string(ofst) + "+" + std::to_string(n) + ((flags & SQLITE_SHM_SHARED) ? "s" : "x"), false);
    auto& u = f->shm->users;
    u.erase(std::remove_if(u.begin(), u.end(), [](SFile* x) { return !x->proc->alive; }), u.end());
    unsigned os = 0, ox = 0;
    for (auto o : u)
        if (o != f)
        {
            os |= o->shared;
            ox |= o->excl;
        }
    if (flags & SQLITE_SHM_SHARED)
    {
        if (ox & mask) return SQLITE_BUSY;
        f->shared |= mask;
    }
    else
    {
        if ((os | ox) & mask) return SQLITE_BUSY;
        f->excl |= mask;
    }
    return SQLITE_OK;
}
void xShmBarrier(sqlite3_file*) {}
int xShmUnmap(sqlite3_file* pf, int del)
{
    SFile* f = (SFile*)pf;
    if (!f->shm) return SQLITE_OK;
    auto& u = f->shm->users;
    u.erase(std::remove(u.begin(), u.end(), f), u.end());
    f->shm    = nullptr;
    f->shared = f->excl = 0;
    prune_shm(f->uid);
    if (del && !shms.count(f->uid)) ::unlink((std::string(f->path) + "-shm").c_str());
    return SQLITE_OK;
}

const sqlite3_io_methods methods = {
    2, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheckReservedLock, xFileControl,
    xSectorSize, xDeviceCharacteristics, xShmMap, xShmLock, xShmBarrier, xShmUnmap, nullptr, nullptr};

int vOpen(sqlite3_vfs*, const char* name, sqlite3_file* pf, int flags, int* outflags)
{
    SFile* f = (SFile*)pf;
    memset(f, 0, sizeof(*f));
    char tmp[64];
    if (!name)
    {
        snprintf(tmp, sizeof(tmp), "/sim/tmp/etilqs_%u", S->counters["etilqs"]++);
        name   = tmp;
        f->del = true;
    }
    if (!S->cur) return SQLITE_CANTOPEN;
    int fl = 0;
    if (flags & SQLITE_OPEN_READWRITE) fl |= O_RDWR;
    if (flags & SQLITE_OPEN_CREATE) fl |= O_CREAT;
    if (flags & SQLITE_OPEN_EXCLUSIVE) fl |= O_EXCL;
    if (flags & SQLITE_OPEN_DELETEONCLOSE) f->del = true;
    int fd = ::open(name, fl, 0644);
    if (fd < 0)
    {
        if (errno != EISDIR && (flags & SQLITE_OPEN_READWRITE))
        {
            fd = ::open(name, O_RDONLY);
            if (fd >= 0) flags = (flags & ~(SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)) | SQLITE_OPEN_READONLY;
        }
        if (fd < 0) return SQLITE_CANTOPEN;
    }
    f->fd   = fd;
    f->uid  = S->cur->proc->fds[fd]->uid;
    f->proc = S->cur->proc;
    f->path = strdup(name);
    files[f->uid].push_back(f);
    f->base.pMethods = &methods;
    if (outflags) *outflags = flags;
    return SQLITE_OK;
}
int vDelete(sqlite3_vfs*, const char* name, int sync)
{
    if (::unlink(name) < 0)
    {
        if (errno == ENOENT) return SQLITE_IOERR_DELETE_NOENT;
        return SQLITE_IOERR_DELETE;
    }
    if (sync)
    {
        S->syscall("fsync_dir", name, true);
        uint64_t p, u;
        std::string n;
        if (S->fs.resolve(name, 0, true, p, n, u) >= 0) S->fs.fsync(p);
    }
    return SQLITE_OK;
}
int vAccess(sqlite3_vfs*, const char* name, int flags, int* out)
{
    S->syscall("sql_access", name, false);
    uint64_t u = S->fs.lookup(name);
    *out       = u != 0;
    if (u && flags == SQLITE_ACCESS_EXISTS)
    {
        Inode* i = S->fs.live.get(u);
        *out     = i->isdir() || i->data.size() > 0;
    }
    return SQLITE_OK;
}
int vFullPathname(sqlite3_vfs*, const char* name, int n, char* out)
{
    if (name[0] == '/') snprintf(out, n, "%s", name);
    else snprintf(out, n, "/sim/cwd/%s", name);
    return SQLITE_OK;
}
int vRandomness(sqlite3_vfs*, int n, char* out)
{
    for (int i = 0; i < n; ++i)
        out[i] = (char)(i * 37 + 11);
    return n;
}
int vSleep(sqlite3_vfs*, int us)
{
    if (S && S->cur) S->sleep_until(S->now + (ns_t)us * 1000);
    return us;
}
int vCurrentTime64(sqlite3_vfs*, sqlite3_int64* out)
{
    *out = 210866760000000LL + (S ? S->wall() : 0) / 1000000;
    return SQLITE_OK;
}
int vCurrentTime(sqlite3_vfs* v, double* out)
{
    sqlite3_int64 t;
    vCurrentTime64(v, &t);
    *out = t / 86400000.0;
    return SQLITE_OK;
}
int vGetLastError(sqlite3_vfs*, int, char*) { return errno; }

sqlite3_vfs vfs = {2, sizeof(SFile), 512, nullptr, "arkisim", nullptr, vOpen, vDelete, vAccess, vFullPathname,
                   nullptr, nullptr, nullptr, nullptr, vRandomness, vSleep, vCurrentTime, vGetLastError, vCurrentTime64};

} // namespace

namespace sim {
void install_sqlite_vfs()
{
    sqlite3_config(SQLITE_CONFIG_SINGLETHREAD);
    sqlite3_initialize();
    sqlite3_vfs_register(&vfs, 1);
}
void reset_sqlite_vfs()
{
    files.clear();
    shms.clear();
}
} // namespace sim
