// Interposed system interface: anything the code under test asks of the
// operating system while it runs inside a simulated process ends here.
//
// Paths below /sim live in the simulated file system. Other paths are passed
// to the real system for reading only.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utime.h>

using namespace sim;

#define REAL(name) ((decltype(&name))real_sym(#name))

namespace {

void* real_sym(const char* name)
{
    static std::unordered_map<std::string, void*> cache;
    auto i = cache.find(name);
    if (i != cache.end()) return i->second;
    void* p = dlsym(RTLD_NEXT, name);
    cache[name] = p;
    return p;
}

#define REALC(ret, name, ...)                                                  \
    static ret (*real)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

inline bool in() { return S && S->cur; }

int fail(int e)
{
    errno = e;
    return -1;
}

// Path handling
bool is_sim_abs(const char* p)
{
    return p && strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0);
}

bool sim_path(const char* p)
{
    if (!p || !*p) return true;
    if (p[0] != '/') return true; // relative: simulated cwd
    return is_sim_abs(p);
}

uint64_t cwd_uid()
{
    uint64_t u = S->fs.lookup("/sim/cwd");
    return u ? u : 1;
}

FileP getf(int fd)
{
    auto& m = S->cur->proc->fds;
    auto i  = m.find(fd);
    if (i == m.end()) return nullptr;
    return i->second;
}

bool ours(int fd)
{
    if (!in()) return false;
    if (fd >= 10000) return true;
    return S->cur->proc->fds.count(fd);
}

// Base inode for an *at call; 0 on error with errno set
bool at_base(int dirfd, const char* path, uint64_t& base)
{
    if (path && path[0] == '/')
    {
        base = 1;
        return true;
    }
    if (dirfd == AT_FDCWD)
    {
        base = cwd_uid();
        return true;
    }
    FileP f = getf(dirfd);
    if (!f)
    {
        errno = EBADF;
        return false;
    }
    base = f->uid;
    return true;
}

bool sim_at(int dirfd, const char* path)
{
    if (!in()) return false;
    if (path && path[0] == '/') return is_sim_abs(path);
    if (dirfd == AT_FDCWD) return true;
    return ours(dirfd);
}

int deny(const char* what, const char* path)
{
    S->denied.push_back(std::string(what) + " " + (path ? path : "(null)"));
    S->log("DENIED %s %s", what, path ? path : "");
    errno = EACCES;
    return -1;
}

void fill_stat(const Inode* n, struct stat* st)
{
    memset(st, 0, sizeof(*st));
    st->st_dev     = 0x51;
    st->st_ino     = n->ino;
    st->st_mode    = n->mode;
    st->st_nlink   = std::max(n->nlink, 0);
    st->st_size    = n->isdir() ? 4096 : n->data.size();
    st->st_blksize = 4096;
    st->st_blocks  = (n->data.size() + 511) / 512;
    st->st_mtim.tv_sec  = n->mtime / 1000000000;
    st->st_mtim.tv_nsec = n->mtime % 1000000000;
    st->st_atim = st->st_ctim = st->st_mtim;
}

std::string pfx(int dirfd, const char* path)
{
    if (path && path[0] == '/') return path;
    if (dirfd == AT_FDCWD) return path ? path : "";
    FileP f = getf(dirfd);
    return (f ? f->path : std::string("?")) + "/" + (path ? path : "");
}

bool path_faulty(const std::string& p) { return !S->fault_path || S->fault_path(p); }

bool pfault(const char* name, const std::string& p) { return path_faulty(p) && S->fault(name); }

int do_open(int dirfd, const char* path, int flags, mode_t mode)
{
    uint64_t base;
    if (!at_base(dirfd, path, base)) return -1;
    std::string full = pfx(dirfd, path);
    uint64_t parent, uid;
    std::string name;
    S->syscall("open", full, (flags & (O_CREAT | O_TRUNC)) != 0);
    Process* p = S->cur->proc;
    if (pfault("open_eio", full)) return fail(EIO);
    if (pfault("open_emfile", full)) return fail(EMFILE);
    int r = S->fs.resolve(path, base, !(flags & O_NOFOLLOW), parent, name, uid);
    if (r < 0) return fail(-r);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (!uid)
    {
        if (!(flags & O_CREAT)) return fail(ENOENT);
        if (S->fs.capacity >= 0 && S->fs.used() + 64 > S->fs.capacity)
        {
            ++S->fired["enospc"];
            return fail(ENOSPC);
        }
        r = S->fs.create(parent, name, S_IFREG | (mode & ~p->umask_ & 07777), uid);
        if (r < 0) return fail(-r);
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
        Inode* n = S->fs.live.get(uid);
        if (n->isdir() && wr) return fail(EISDIR);
        if (!n->isdir() && (flags & O_DIRECTORY)) return fail(ENOTDIR);
        if (n->islnk()) return fail(ELOOP);
        if ((flags & O_TRUNC) && wr && n->data.size()) S->fs.truncate(uid, 0);
    }
    auto f   = std::make_shared<OpenFile>();
    f->kind  = S->fs.live.get(uid)->isdir() ? OpenFile::DIR_ : OpenFile::FILE_;
    f->uid   = uid;
    f->flags = flags;
    f->path  = full;
    S->fs.ref(uid);
    return S->newfd(p, f);
}

ssize_t pipe_write(FileP f, const char* buf, size_t n)
{
    Pipe& pp = *f->pipe;
    size_t done = 0;
    if (n == 0) return 0;
    while (done < n)
    {
        if (pp.readers == 0)
        {
            if (done) return done;
            ++S->fired["epipe"];
            return fail(EPIPE);
        }
        size_t space = pp.cap - std::min(pp.cap, pp.buf.size());
        size_t want  = n - done;
        if (n <= 4096 && space < want) space = 0; // PIPE_BUF atomicity
        if (space == 0)
        {
            if (f->flags & O_NONBLOCK)
            {
                if (done) return done;
                return fail(EAGAIN);
            }
            FileP keep = f;
            size_t need = n <= 4096 ? want : 1;
            S->block("pipe write", [keep, need] {
                Pipe& q = *keep->pipe;
                return q.readers == 0 || q.buf.size() + need <= q.cap;
            });
            continue;
        }
        size_t k = std::min(space, want);
        pp.buf.append(buf + done, k);
        if (pp.tap) pp.tap->append(buf + done, k);
        pp.total_in += k;
        done += k;
    }
    return done;
}

ssize_t pipe_read(FileP f, char* buf, size_t n)
{
    Pipe& pp = *f->pipe;
    if (n == 0) return 0;
    while (pp.buf.empty())
    {
        if (pp.writers == 0) return 0;
        if (f->flags & O_NONBLOCK) return fail(EAGAIN);
        FileP keep = f;
        S->block("pipe read", [keep] { return !keep->pipe->buf.empty() || keep->pipe->writers == 0; });
    }
    size_t k = std::min(n, pp.buf.size());
    if (k > 1 && S->fault("pipe_short_read")) k = 1 + S->choose("pipe_short_read.n", k, 1.0) % k;
    memcpy(buf, pp.buf.data(), k);
    pp.buf.erase(0, k);
    pp.total_out += k;
    return k;
}

ssize_t do_read(FileP f, char* buf, size_t n, int64_t off, bool at)
{
    if (!f) return fail(EBADF);
    S->syscall(at ? "pread" : "read", f->path + " " + std::to_string(n), false);
    if (f->kind == OpenFile::PIPE_R)
    {
        if (at) return fail(ESPIPE);
        if (S->fault("eintr_read")) return fail(EINTR);
        return pipe_read(f, buf, n);
    }
    if (f->kind == OpenFile::PIPE_W) return fail(EBADF);
    if (f->kind == OpenFile::NUL) return 0;
    if ((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    if (pfault("eintr_read", f->path)) return fail(EINTR);
    if (pfault("eio_read", f->path)) return fail(EIO);
    Inode* i = S->fs.live.get(f->uid);
    if (!i) return fail(EBADF);
    if (i->isdir()) return fail(EISDIR);
    if (at && off < 0) return fail(EINVAL);
    int64_t o = at ? off : f->off;
    if (o >= (int64_t)i->data.size()) return 0;
    size_t k = std::min(n, (size_t)(i->data.size() - o));
    if (k > 1 && pfault("short_read", f->path))
    {
        k = 1 + S->choose("short_read.n", k - 1, 1.0);
    }
    memcpy(buf, i->data.data() + o, k);
    if (!at) f->off = o + k;
    return k;
}

ssize_t do_write(FileP f, const char* buf, size_t n, int64_t off, bool at, const char* nm)
{
    if (!f) return fail(EBADF);
    Process* p = S->cur->proc;
    if (f->kind == OpenFile::FILE_ && p->crash_in == 1 && n > 1)
    {
        // The crash interrupts this write
        unsigned k = S->choose("torn_write", n, 0.5);
        Inode* i   = S->fs.live.get(f->uid);
        int64_t o  = at ? off : (f->flags & O_APPEND) ? i->data.size() : f->off;
        if (k && p->crash_kind == 1)
        {
            // A signal can only interrupt a write between pages
            int64_t end = (o + k) / 4096 * 4096;
            k           = end > o ? end - o : 0;
        }
        if (k)
        {
            S->fs.write(f->uid, o, buf, k);
            ++S->fired["torn_write"];
        }
    }
    S->syscall(nm, f->path + " " + std::to_string(n), f->kind == OpenFile::FILE_);
    if (f->kind == OpenFile::PIPE_W)
    {
        if (at) return fail(ESPIPE);
        if (S->fault("eintr_write")) return fail(EINTR);
        size_t k = n;
        if (k > 1 && S->fault("pipe_short_write"))
        {
            if (f->flags & O_NONBLOCK) k = 1 + S->choose("pipe_short_write.n", k - 1, 1.0);
        }
        if ((f->flags & O_NONBLOCK) && S->fault("pipe_eagain")) return fail(EAGAIN);
        return pipe_write(f, buf, k);
    }
    if (f->kind == OpenFile::PIPE_R) return fail(EBADF);
    if (f->kind == OpenFile::NUL) return n;
    if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if (pfault("eintr_write", f->path)) return fail(EINTR);
    if (pfault("eio_write", f->path)) return fail(EIO);
    Inode* i = S->fs.live.get(f->uid);
    if (!i) return fail(EBADF);
    int64_t o = at ? off : f->off;
    if (f->flags & O_APPEND) o = i->data.size();
    size_t k = n;
    if (k > 1 && pfault("short_write", f->path)) k = 1 + S->choose("short_write.n", k - 1, 1.0);
    if (pfault("enospc", f->path))
    {
        // the disk fills up during this write, and has room again later
        k = S->choose("enospc.n", k + 1, 0.5);
        if (k == 0) return fail(ENOSPC);
    }
    if (S->fs.capacity >= 0)
    {
        int64_t grow = o + (int64_t)k - (int64_t)i->data.size();
        if (grow > 0)
        {
            int64_t room = S->fs.capacity - S->fs.used();
            if (grow > room)
            {
                ++S->fired["enospc"];
                int64_t can = (int64_t)k - (grow - std::max(room, (int64_t)0));
                if (can <= 0) return fail(ENOSPC);
                k = can;
            }
        }
    }
    S->fs.write(f->uid, o, buf, k);
    if (!at) f->off = o + k;
    return k;
}

// ---- stdio on simulated descriptors
struct Cookie
{
    FileP f;
    int fd;
    Process* proc;
};
std::unordered_map<FILE*, int> file_fds;

} // namespace

// ================================================================ open

extern "C" {

static int open_impl(const char* path, int flags, mode_t mode)
{
    if (in() && path)
    {
        if (sim_path(path)) return do_open(AT_FDCWD, path, flags, mode);
        if (strcmp(path, "/dev/null") == 0)
        {
            auto f   = std::make_shared<OpenFile>();
            f->kind  = OpenFile::NUL;
            f->flags = flags;
            f->path  = path;
            return S->newfd(S->cur->proc, f);
        }
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) return deny("open", path);
    }
    REALC(int, "open64", const char*, int, ...);
    return real(path, flags, mode);
}

#define GETMODE                                                                \
    mode_t mode = 0;                                                           \
    if (flags & (O_CREAT | __O_TMPFILE))                                       \
    {                                                                          \
        va_list ap;                                                            \
        va_start(ap, flags);                                                   \
        mode = va_arg(ap, int);                                                \
        va_end(ap);                                                            \
    }

#undef open
#undef open64
int open(const char* path, int flags, ...)
{
    GETMODE return open_impl(path, flags, mode);
}
int open64(const char* path, int flags, ...) __attribute__((alias("open")));
int __open_2(const char* path, int flags) { return open_impl(path, flags, 0); }
int __open64_2(const char* path, int flags) { return open_impl(path, flags, 0); }
int creat(const char* path, mode_t mode) { return open_impl(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int openat_impl(int dirfd, const char* path, int flags, mode_t mode)
{
    if (in())
    {
        if (sim_at(dirfd, path)) return do_open(dirfd, path, flags, mode);
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) return deny("openat", path);
    }
    REALC(int, "openat64", int, const char*, int, ...);
    return real(dirfd, path, flags, mode);
}
int openat(int dirfd, const char* path, int flags, ...)
{
    GETMODE return openat_impl(dirfd, path, flags, mode);
}
int openat64(int dirfd, const char* path, int flags, ...) __attribute__((alias("openat")));
int __openat_2(int dirfd, const char* path, int flags) { return openat_impl(dirfd, path, flags, 0); }
int __openat64_2(int dirfd, const char* path, int flags) { return openat_impl(dirfd, path, flags, 0); }

bool in_forked_child();
int close(int fd)
{
    if (ours(fd) || in_forked_child())
    {
        Process* p = S->cur->proc;
        auto i     = p->fds.find(fd);
        if (i == p->fds.end())
        {
            if (!in_forked_child()) S->probe("close_ebadf");
            return fail(EBADF);
        }
        S->syscall("close", i->second->path, false);
        i = p->fds.find(fd);
        if (i == p->fds.end()) return fail(EBADF);
        FileP keep = i->second;
        p->fds.erase(i);
        if ((keep->flags & O_ACCMODE) != O_RDONLY && keep->kind == OpenFile::FILE_ && pfault("close_eio", keep->path)) return fail(EIO);
        return 0;
    }
    REALC(int, "close", int);
    return real(fd);
}

ssize_t read(int fd, void* buf, size_t n)
{
    if (ours(fd)) return do_read(getf(fd), (char*)buf, n, 0, false);
    REALC(ssize_t, "read", int, void*, size_t);
    return real(fd, buf, n);
}
ssize_t __read_chk(int fd, void* buf, size_t n, size_t) { return read(fd, buf, n); }

ssize_t pread(int fd, void* buf, size_t n, off_t off)
{
    if (ours(fd)) return do_read(getf(fd), (char*)buf, n, off, true);
    REALC(ssize_t, "pread64", int, void*, size_t, off_t);
    return real(fd, buf, n, off);
}
ssize_t pread64(int fd, void* buf, size_t n, off_t off) __attribute__((alias("pread")));

static ssize_t std_capture(int fd, const void* buf, size_t n)
{
    S->stdio.push_back(std::string((const char*)buf, n));
    return n;
}

ssize_t write(int fd, const void* buf, size_t n)
{
    if (ours(fd)) return do_write(getf(fd), (const char*)buf, n, 0, false, "write");
    if (in() && (fd == 1 || fd == 2)) return std_capture(fd, buf, n);
    REALC(ssize_t, "write", int, const void*, size_t);
    return real(fd, buf, n);
}

ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
    if (ours(fd)) return do_write(getf(fd), (const char*)buf, n, off, true, "pwrite");
    REALC(ssize_t, "pwrite64", int, const void*, size_t, off_t);
    return real(fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void* buf, size_t n, off_t off) __attribute__((alias("pwrite")));

ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    if (ours(fd) || (in() && (fd == 1 || fd == 2)))
    {
        std::string all;
        for (int i = 0; i < cnt; ++i)
            all.append((const char*)iov[i].iov_base, iov[i].iov_len);
        if (!ours(fd)) return std_capture(fd, all.data(), all.size());
        return do_write(getf(fd), all.data(), all.size(), 0, false, "writev");
    }
    REALC(ssize_t, "writev", int, const struct iovec*, int);
    return real(fd, iov, cnt);
}

ssize_t readv(int fd, const struct iovec* iov, int cnt)
{
    if (ours(fd))
    {
        size_t tot = 0;
        for (int i = 0; i < cnt; ++i)
            tot += iov[i].iov_len;
        std::string tmp(tot, 0);
        ssize_t r = do_read(getf(fd), &tmp[0], tot, 0, false);
        if (r <= 0) return r;
        size_t o = 0;
        for (int i = 0; i < cnt && o < (size_t)r; ++i)
        {
            size_t k = std::min(iov[i].iov_len, (size_t)r - o);
            memcpy(iov[i].iov_base, tmp.data() + o, k);
            o += k;
        }
        return r;
    }
    REALC(ssize_t, "readv", int, const struct iovec*, int);
    return real(fd, iov, cnt);
}

off_t lseek(int fd, off_t off, int whence)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        if (f->kind == OpenFile::PIPE_R || f->kind == OpenFile::PIPE_W) return fail(ESPIPE);
        if (f->kind == OpenFile::NUL) return 0;
        Inode* i  = S->fs.live.get(f->uid);
        int64_t o = f->off;
        switch (whence)
        {
            case SEEK_SET: o = off; break;
            case SEEK_CUR: o += off; break;
            case SEEK_END: o = (int64_t)i->data.size() + off; break;
            case SEEK_DATA:
                if (off >= (int64_t)i->data.size()) return fail(ENXIO);
                o = off;
                break;
            case SEEK_HOLE:
                if (off >= (int64_t)i->data.size()) return fail(ENXIO);
                o = i->data.size();
                break;
            default: return fail(EINVAL);
        }
        if (o < 0) return fail(EINVAL);
        f->off = o;
        return o;
    }
    REALC(off_t, "lseek64", int, off_t, int);
    return real(fd, off, whence);
}
off_t lseek64(int fd, off_t off, int whence) __attribute__((alias("lseek")));

// ================================================================ stat

static int stat_impl(int dirfd, const char* path, struct stat* st, bool follow, int flags)
{
    uint64_t base;
    if ((!path || !*path) && (flags & AT_EMPTY_PATH))
    {
        FileP f = getf(dirfd);
        if (!f) return fail(EBADF);
        fill_stat(S->fs.live.get(f->uid), st);
        return 0;
    }
    if (path && !*path) return fail(ENOENT);
    if (!at_base(dirfd, path, base)) return -1;
    std::string full = pfx(dirfd, path);
    S->syscall("stat", full, false);
    if (pfault("stat_eio", full)) return fail(EIO);
    uint64_t parent, uid;
    std::string name;
    int r = S->fs.resolve(path, base, follow, parent, name, uid);
    if (r < 0) return fail(-r);
    if (!uid) return fail(ENOENT);
    fill_stat(S->fs.live.get(uid), st);
    return 0;
}

int stat(const char* path, struct stat* st)
{
    if (in() && sim_path(path)) return stat_impl(AT_FDCWD, path, st, true, 0);
    REALC(int, "stat", const char*, struct stat*);
    return real(path, st);
}
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int lstat(const char* path, struct stat* st)
{
    if (in() && sim_path(path)) return stat_impl(AT_FDCWD, path, st, false, 0);
    REALC(int, "lstat", const char*, struct stat*);
    return real(path, st);
}
int lstat64(const char* path, struct stat64* st) { return lstat(path, (struct stat*)st); }
int fstatat(int dirfd, const char* path, struct stat* st, int flags)
{
    if (sim_at(dirfd, path)) return stat_impl(dirfd, path, st, !(flags & AT_SYMLINK_NOFOLLOW), flags);
    REALC(int, "fstatat", int, const char*, struct stat*, int);
    return real(dirfd, path, st, flags);
}
int fstatat64(int dirfd, const char* path, struct stat64* st, int flags) { return fstatat(dirfd, path, (struct stat*)st, flags); }
int fstat(int fd, struct stat* st)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        S->syscall("fstat", f->path, false);
        if (f->kind == OpenFile::FILE_ || f->kind == OpenFile::DIR_)
        {
            if (pfault("stat_eio", f->path)) return fail(EIO);
            fill_stat(S->fs.live.get(f->uid), st);
        }
        else
        {
            memset(st, 0, sizeof(*st));
            st->st_mode = f->kind == OpenFile::NUL ? S_IFCHR | 0666 : S_IFIFO | 0600;
        }
        return 0;
    }
    REALC(int, "fstat", int, struct stat*);
    return real(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }

static int access_impl(int dirfd, const char* path)
{
    uint64_t base;
    if (!at_base(dirfd, path, base)) return -1;
    std::string full = pfx(dirfd, path);
    S->syscall("access", full, false);
    uint64_t parent, uid;
    std::string name;
    int r = S->fs.resolve(path, base, true, parent, name, uid);
    if (r < 0) return fail(-r);
    if (!uid) return fail(ENOENT);
    return 0;
}
int access(const char* path, int mode)
{
    if (in() && sim_path(path)) return access_impl(AT_FDCWD, path);
    REALC(int, "access", const char*, int);
    return real(path, mode);
}
int faccessat(int dirfd, const char* path, int mode, int flags)
{
    if (sim_at(dirfd, path)) return access_impl(dirfd, path);
    REALC(int, "faccessat", int, const char*, int, int);
    return real(dirfd, path, mode, flags);
}

// ================================================================ directories

static int mkdir_impl(int dirfd, const char* path, mode_t mode)
{
    uint64_t base;
    if (!at_base(dirfd, path, base)) return -1;
    std::string full = pfx(dirfd, path);
    S->syscall("mkdir", full, true);
    if (pfault("mkdir_eio", full)) return fail(EIO);
    uint64_t parent, uid;
    std::string name;
    std::string pth = path;
    while (pth.size() > 1 && pth.back() == '/') pth.pop_back();
    int r = S->fs.resolve(pth, base, true, parent, name, uid);
    if (r < 0) return fail(-r);
    if (uid) return fail(EEXIST);
    if (S->fs.capacity >= 0 && S->fs.used() + 64 > S->fs.capacity)
    {
        ++S->fired["enospc"];
        return fail(ENOSPC);
    }
    r = S->fs.create(parent, name, S_IFDIR | (mode & ~S->cur->proc->umask_ & 07777), uid);
    if (r < 0) return fail(-r);
    return 0;
}
int mkdir(const char* path, mode_t mode)
{
    if (in())
    {
        if (sim_path(path)) return mkdir_impl(AT_FDCWD, path, mode);
        struct stat st;
        if (::stat(path, &st) == 0) return fail(EEXIST);
        return deny("mkdir", path);
    }
    REALC(int, "mkdir", const char*, mode_t);
    return real(path, mode);
}
int mkdirat(int dirfd, const char* path, mode_t mode)
{
    if (in())
    {
        if (sim_at(dirfd, path)) return mkdir_impl(dirfd, path, mode);
        return deny("mkdirat", path);
    }
    REALC(int, "mkdirat", int, const char*, mode_t);
    return real(dirfd, path, mode);
}

static int unlink_impl(int dirfd, const char* path, bool dir)
{
    uint64_t base;
    if (!at_base(dirfd, path, base)) return -1;
    std::string full = pfx(dirfd, path);
    S->syscall(dir ? "rmdir" : "unlink", full, true);
    if (pfault("unlink_eio", full)) return fail(EIO);
    uint64_t parent, uid;
    std::string name;
    std::string pth = path;
    while (pth.size() > 1 && pth.back() == '/') pth.pop_back();
    int r = S->fs.resolve(pth, base, false, parent, name, uid);
    if (r < 0) return fail(-r);
    if (!uid) return fail(ENOENT);
    if (name == "." || name == "..") return fail(EINVAL);
    r = S->fs.unlink(parent, name, dir);
    if (r < 0) return fail(-r);
    return 0;
}
int unlink(const char* path)
{
    if (in())
    {
        if (sim_path(path)) return unlink_impl(AT_FDCWD, path, false);
        return deny("unlink", path);
    }
    REALC(int, "unlink", const char*);
    return real(path);
}
int rmdir(const char* path)
{
    if (in())
    {
        if (sim_path(path)) return unlink_impl(AT_FDCWD, path, true);
        return deny("rmdir", path);
    }
    REALC(int, "rmdir", const char*);
    return real(path);
}
int unlinkat(int dirfd, const char* path, int flags)
{
    if (in())
    {
        if (sim_at(dirfd, path)) return unlink_impl(dirfd, path, (flags & AT_REMOVEDIR) != 0);
        return deny("unlinkat", path);
    }
    REALC(int, "unlinkat", int, const char*, int);
    return real(dirfd, path, flags);
}
int remove(const char* path)
{
    if (in())
    {
        if (sim_path(path))
        {
            int r = unlink_impl(AT_FDCWD, path, false);
            if (r < 0 && errno == EISDIR) r = unlink_impl(AT_FDCWD, path, true);
            return r;
        }
        return deny("remove", path);
    }
    REALC(int, "remove", const char*);
    return real(path);
}

static int rename_impl(int d1, const char* a, int d2, const char* b, unsigned flags = 0)
{
    if (flags & ~(RENAME_NOREPLACE | RENAME_EXCHANGE)) return fail(EINVAL);
    uint64_t b1, b2;
    if (!at_base(d1, a, b1) || !at_base(d2, b, b2)) return -1;
    S->syscall("rename", pfx(d1, a) + " -> " + pfx(d2, b), true);
    if (pfault("rename_eio", pfx(d1, a))) return fail(EIO);
    uint64_t p1, u1, p2, u2;
    std::string n1, n2;
    int r = S->fs.resolve(a, b1, false, p1, n1, u1);
    if (r < 0) return fail(-r);
    if (!u1) return fail(ENOENT);
    r = S->fs.resolve(b, b2, false, p2, n2, u2);
    if (r < 0) return fail(-r);
    if (flags & RENAME_EXCHANGE)
    {
        if (!u2) return fail(ENOENT);
        r = S->fs.exchange(p1, n1, p2, n2);
    }
    else
    {
        if ((flags & RENAME_NOREPLACE) && u2) return fail(EEXIST);
        r = S->fs.rename(p1, n1, p2, n2);
    }
    if (r < 0) return fail(-r);
    return 0;
}
int renameat2(int d1, const char* a, int d2, const char* b, unsigned flags)
{
    if (in())
    {
        // Filesystems such as NFS do not support flags
        if (flags && pfault("renameat2_einval", pfx(d1, a))) return fail(EINVAL);
        return rename_impl(d1, a, d2, b, flags);
    }
    REALC(int, "renameat2", int, const char*, int, const char*, unsigned);
    return real(d1, a, d2, b, flags);
}
int rename(const char* a, const char* b)
{
    if (in())
    {
        if (sim_path(a) && sim_path(b)) return rename_impl(AT_FDCWD, a, AT_FDCWD, b);
        return deny("rename", a);
    }
    REALC(int, "rename", const char*, const char*);
    return real(a, b);
}
int renameat(int d1, const char* a, int d2, const char* b)
{
    if (in()) return rename_impl(d1, a, d2, b);
    REALC(int, "renameat", int, const char*, int, const char*);
    return real(d1, a, d2, b);
}

static int link_impl(int d1, const char* a, int d2, const char* b)
{
    uint64_t b1, b2;
    if (!at_base(d1, a, b1) || !at_base(d2, b, b2)) return -1;
    S->syscall("link", pfx(d1, a) + " -> " + pfx(d2, b), true);
    uint64_t p1, u1, p2, u2;
    std::string n1, n2;
    int r = S->fs.resolve(a, b1, false, p1, n1, u1);
    if (r < 0) return fail(-r);
    if (!u1) return fail(ENOENT);
    r = S->fs.resolve(b, b2, false, p2, n2, u2);
    if (r < 0) return fail(-r);
    if (u2) return fail(EEXIST);
    FsOp op;
    op.kind   = FsOp::LINK;
    op.uid    = u1;
    op.parent = p2;
    op.name   = n2;
    S->fs.commit(std::move(op));
    return 0;
}
int link(const char* a, const char* b)
{
    if (in())
    {
        if (sim_path(a) && sim_path(b)) return link_impl(AT_FDCWD, a, AT_FDCWD, b);
        return deny("link", b);
    }
    REALC(int, "link", const char*, const char*);
    return real(a, b);
}
int linkat(int d1, const char* a, int d2, const char* b, int flags)
{
    if (in()) return link_impl(d1, a, d2, b);
    REALC(int, "linkat", int, const char*, int, const char*, int);
    return real(d1, a, d2, b, flags);
}

int symlinkat(const char* target, int dirfd, const char* path)
{
    if (in())
    {
        if (!sim_at(dirfd, path)) return deny("symlink", path);
        uint64_t base;
        if (!at_base(dirfd, path, base)) return -1;
        S->syscall("symlink", pfx(dirfd, path), true);
        uint64_t p, u;
        std::string n;
        int r = S->fs.resolve(path, base, false, p, n, u);
        if (r < 0) return fail(-r);
        if (u) return fail(EEXIST);
        FsOp op;
        op.kind   = FsOp::CREATE;
        op.uid    = S->fs.next_uid++;
        op.parent = p;
        op.name   = n;
        op.mode   = S_IFLNK | 0777;
        op.ino    = S->fs.next_ino++;
        op.data   = target;
        S->fs.commit(std::move(op));
        return 0;
    }
    REALC(int, "symlinkat", const char*, int, const char*);
    return real(target, dirfd, path);
}
int symlink(const char* target, const char* path)
{
    if (in()) return symlinkat(target, AT_FDCWD, path);
    REALC(int, "symlink", const char*, const char*);
    return real(target, path);
}
ssize_t readlinkat(int dirfd, const char* path, char* buf, size_t sz)
{
    if (sim_at(dirfd, path))
    {
        uint64_t base;
        if (!at_base(dirfd, path, base)) return -1;
        uint64_t p, u;
        std::string n;
        int r = S->fs.resolve(path, base, false, p, n, u);
        if (r < 0) return fail(-r);
        if (!u) return fail(ENOENT);
        Inode* i = S->fs.live.get(u);
        if (!i->islnk()) return fail(EINVAL);
        size_t k = std::min(sz, i->data.size());
        memcpy(buf, i->data.data(), k);
        return k;
    }
    REALC(ssize_t, "readlinkat", int, const char*, char*, size_t);
    return real(dirfd, path, buf, sz);
}
ssize_t readlink(const char* path, char* buf, size_t sz)
{
    if (in() && sim_path(path)) return readlinkat(AT_FDCWD, path, buf, sz);
    REALC(ssize_t, "readlink", const char*, char*, size_t);
    return real(path, buf, sz);
}

char* realpath(const char* path, char* out)
{
    if (in() && sim_path(path))
    {
        uint64_t p, u;
        std::string n;
        int r = S->fs.resolve(path, cwd_uid(), true, p, n, u);
        if (r < 0)
        {
            errno = -r;
            return nullptr;
        }
        if (!u)
        {
            errno = ENOENT;
            return nullptr;
        }
        // Rebuild the path from the inode
        std::string res;
        uint64_t c = u;
        while (c != 1)
        {
            Inode* i  = S->fs.live.get(c);
            Inode* pa = S->fs.live.get(i->parent);
            for (auto& e : pa->ents)
                if (e.second == c)
                {
                    res = "/" + e.first + res;
                    break;
                }
            c = i->parent;
        }
        if (res.empty()) res = "/";
        if (!out) return strdup(res.c_str());
        strcpy(out, res.c_str());
        return out;
    }
    REALC(char*, "realpath", const char*, char*);
    return real(path, out);
}
char* __realpath_chk(const char* path, char* out, size_t) { return realpath(path, out); }

char* getcwd(char* buf, size_t size)
{
    if (in())
    {
        const char* c = "/sim/cwd";
        if (!buf) return strdup(c);
        if (size < strlen(c) + 1)
        {
            errno = ERANGE;
            return nullptr;
        }
        strcpy(buf, c);
        return buf;
    }
    REALC(char*, "getcwd", char*, size_t);
    return real(buf, size);
}
int chdir(const char* path)
{
    if (in()) return deny("chdir", path);
    REALC(int, "chdir", const char*);
    return real(path);
}
int fchdir(int fd)
{
    if (in()) return deny("fchdir", "");
    REALC(int, "fchdir", int);
    return real(fd);
}
int chroot(const char* path)
{
    if (in()) return deny("chroot", path);
    REALC(int, "chroot", const char*);
    return real(path);
}

struct SimDir
{
    int fd;
    std::vector<struct dirent> ents;
    size_t pos = 0;
};
static std::unordered_set<void*>* simdirs;

static void load_dir(SimDir* d, uint64_t uid)
{
    Inode* n = S->fs.live.get(uid);
    std::vector<std::pair<uint64_t, std::string>> order;
    order.emplace_back(fnv(S->fs.dirseed, "."), ".");
    order.emplace_back(fnv(S->fs.dirseed, ".."), "..");
    for (auto& e : n->ents)
        order.emplace_back(fnv(S->fs.dirseed * 31 + 7, e.first), e.first);
    if (S->fs.dirseed) std::sort(order.begin(), order.end());
    for (auto& o : order)
    {
        struct dirent de;
        memset(&de, 0, sizeof(de));
        uint64_t u = uid;
        if (o.second == "..") u = n->parent;
        else if (o.second != ".") u = n->ents[o.second];
        Inode* c     = S->fs.live.get(u);
        de.d_ino     = c->ino;
        de.d_type    = c->isdir() ? DT_DIR : c->islnk() ? DT_LNK : DT_REG;
        de.d_reclen  = sizeof(de);
        strncpy(de.d_name, o.second.c_str(), sizeof(de.d_name) - 1);
        d->ents.push_back(de);
    }
}

DIR* fdopendir(int fd)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f || f->kind != OpenFile::DIR_)
        {
            errno = f ? ENOTDIR : EBADF;
            return nullptr;
        }
        S->syscall("fdopendir", f->path, false);
        if (pfault("readdir_eio", f->path))
        {
            errno = EIO;
            return nullptr;
        }
        auto d = new SimDir;
        d->fd  = fd;
        load_dir(d, f->uid);
        if (!simdirs) simdirs = new std::unordered_set<void*>;
        simdirs->insert(d);
        return (DIR*)d;
    }
    REALC(DIR*, "fdopendir", int);
    return real(fd);
}
DIR* opendir(const char* path)
{
    if (in() && sim_path(path))
    {
        int fd = do_open(AT_FDCWD, path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
        if (fd < 0) return nullptr;
        return fdopendir(fd);
    }
    REALC(DIR*, "opendir", const char*);
    return real(path);
}
static bool simdir(DIR* d) { return simdirs && simdirs->count(d); }
struct dirent* readdir(DIR* dirp)
{
    if (simdir(dirp))
    {
        SimDir* d = (SimDir*)dirp;
        if (d->pos >= d->ents.size()) return nullptr;
        return &d->ents[d->pos++];
    }
    REALC(struct dirent*, "readdir", DIR*);
    return real(dirp);
}
struct dirent64* readdir64(DIR* dirp) { return (struct dirent64*)readdir(dirp); }
void rewinddir(DIR* dirp)
{
    if (simdir(dirp))
    {
        ((SimDir*)dirp)->pos = 0;
        return;
    }
    REALC(void, "rewinddir", DIR*);
    real(dirp);
}
int dirfd(DIR* dirp)
{
    if (simdir(dirp)) return ((SimDir*)dirp)->fd;
    REALC(int, "dirfd", DIR*);
    return real(dirp);
}
int closedir(DIR* dirp)
{
    if (simdir(dirp))
    {
        SimDir* d = (SimDir*)dirp;
        simdirs->erase(d);
        int fd = d->fd;
        delete d;
        return close(fd);
    }
    REALC(int, "closedir", DIR*);
    return real(dirp);
}

// ================================================================ modify

static int trunc_uid(uint64_t uid, off_t len, const std::string& path)
{
    S->syscall("truncate", path + " " + std::to_string(len), true);
    if (pfault("truncate_eio", path)) return fail(EIO);
    if (len < 0) return fail(EINVAL);
    Inode* i = S->fs.live.get(uid);
    if (!i) return fail(EBADF);
    if (i->isdir()) return fail(EISDIR);
    S->fs.truncate(uid, len);
    return 0;
}
int ftruncate(int fd, off_t len)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        if (f->kind != OpenFile::FILE_ || (f->flags & O_ACCMODE) == O_RDONLY) return fail(EINVAL);
        return trunc_uid(f->uid, len, f->path);
    }
    REALC(int, "ftruncate64", int, off_t);
    return real(fd, len);
}
int ftruncate64(int fd, off_t len) __attribute__((alias("ftruncate")));
int truncate(const char* path, off_t len)
{
    if (in())
    {
        if (!sim_path(path)) return deny("truncate", path);
        uint64_t u, p;
        std::string n;
        int r = S->fs.resolve(path, cwd_uid(), true, p, n, u);
        if (r < 0) return fail(-r);
        if (!u) return fail(ENOENT);
        return trunc_uid(u, len, path);
    }
    REALC(int, "truncate64", const char*, off_t);
    return real(path, len);
}
int truncate64(const char* path, off_t len) __attribute__((alias("truncate")));

int fsync(int fd)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        S->syscall("fsync", f->path, true);
        if (f->kind == OpenFile::PIPE_R || f->kind == OpenFile::PIPE_W) return fail(EINVAL);
        if (pfault("fsync_eio", f->path)) return fail(EIO);
        if (f->uid) S->fs.fsync(f->uid);
        return 0;
    }
    REALC(int, "fsync", int);
    return real(fd);
}
int fdatasync(int fd)
{
    if (ours(fd)) return fsync(fd);
    REALC(int, "fdatasync", int);
    return real(fd);
}
void sync()
{
    if (in())
    {
        S->fs.make_durable();
        return;
    }
    REALC(void, "sync", void);
    real();
}

static int settime_uid(uint64_t uid, const struct timespec* t, const std::string& path, const char* fault)
{
    S->syscall("utimens", path, true);
    if (pfault(fault, path)) return fail(EIO);
    FsOp op;
    op.kind = FsOp::SETTIME;
    op.uid  = uid;
    op.t    = S->wall();
    if (t)
    {
        if (t[1].tv_nsec == UTIME_OMIT) return 0;
        if (t[1].tv_nsec != UTIME_NOW) op.t = t[1].tv_sec * 1000000000LL + t[1].tv_nsec;
    }
    S->fs.commit(std::move(op));
    return 0;
}
int futimens(int fd, const struct timespec* t)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        return settime_uid(f->uid, t, f->path, "futimens_eio");
    }
    REALC(int, "futimens", int, const struct timespec*);
    return real(fd, t);
}
int utimensat(int dirfd, const char* path, const struct timespec* t, int flags)
{
    if (in())
    {
        if (!sim_at(dirfd, path)) return deny("utimensat", path);
        uint64_t base, p, u;
        std::string n;
        if (!at_base(dirfd, path, base)) return -1;
        int r = S->fs.resolve(path, base, true, p, n, u);
        if (r < 0) return fail(-r);
        if (!u) return fail(ENOENT);
        return settime_uid(u, t, pfx(dirfd, path), "utimens_eio");
    }
    REALC(int, "utimensat", int, const char*, const struct timespec*, int);
    return real(dirfd, path, t, flags);
}
int utime(const char* path, const struct utimbuf* t)
{
    if (in())
    {
        struct timespec ts[2] = {};
        if (t)
        {
            ts[0].tv_sec = t->actime;
            ts[1].tv_sec = t->modtime;
        }
        return utimensat(AT_FDCWD, path, t ? ts : nullptr, 0);
    }
    REALC(int, "utime", const char*, const struct utimbuf*);
    return real(path, t);
}

static int chmod_uid(uint64_t u, mode_t m, const std::string& path)
{
    S->syscall("chmod", path, true);
    FsOp op;
    op.kind = FsOp::CHMOD;
    op.uid  = u;
    op.mode = m;
    S->fs.commit(std::move(op));
    return 0;
}
int fchmod(int fd, mode_t m)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        return chmod_uid(f->uid, m, f->path);
    }
    REALC(int, "fchmod", int, mode_t);
    return real(fd, m);
}
int fchmodat(int dirfd, const char* path, mode_t m, int flags)
{
    if (in())
    {
        if (!sim_at(dirfd, path)) return deny("chmod", path);
        uint64_t base, p, u;
        std::string n;
        if (!at_base(dirfd, path, base)) return -1;
        int r = S->fs.resolve(path, base, true, p, n, u);
        if (r < 0) return fail(-r);
        if (!u) return fail(ENOENT);
        return chmod_uid(u, m, pfx(dirfd, path));
    }
    REALC(int, "fchmodat", int, const char*, mode_t, int);
    return real(dirfd, path, m, flags);
}
int chmod(const char* path, mode_t m)
{
    if (in()) return fchmodat(AT_FDCWD, path, m, 0);
    REALC(int, "chmod", const char*, mode_t);
    return real(path, m);
}
mode_t umask(mode_t m)
{
    if (in())
    {
        // It is shared by the threads of a process
        unsigned live = 0;
        for (auto& f : S->fibers)
            if (f->proc == S->cur->proc && f->st != Fiber::DONE) ++live;
        if (live > 1) S->syscall("umask", "", false);
        mode_t o               = S->cur->proc->umask_;
        S->cur->proc->umask_ = m;
        return o;
    }
    REALC(mode_t, "umask", mode_t);
    return real(m);
}

static unsigned tmp_counter_for(const char* what) { return S->counters[std::string("tmpname.") + what]++; }

int mkstemp64(char* tpl)
{
    if (in())
    {
        if (!sim_path(tpl)) return deny("mkstemp", tpl);
        size_t l = strlen(tpl);
        for (int tries = 0; tries < 100000; ++tries)
        {
            char b[8];
            snprintf(b, sizeof(b), "%06u", tmp_counter_for("s") % 1000000);
            memcpy(tpl + l - 6, b, 6);
            int fd = do_open(AT_FDCWD, tpl, O_RDWR | O_CREAT | O_EXCL, 0600);
            if (fd >= 0 || errno != EEXIST) return fd;
        }
        return fail(EEXIST);
    }
    REALC(int, "mkstemp64", char*);
    return real(tpl);
}
int mkstemp(char* tpl) { return mkstemp64(tpl); }
char* mkdtemp(char* tpl)
{
    if (in())
    {
        if (!sim_path(tpl))
        {
            deny("mkdtemp", tpl);
            return nullptr;
        }
        size_t l = strlen(tpl);
        for (int tries = 0; tries < 100000; ++tries)
        {
            char b[8];
            snprintf(b, sizeof(b), "%06u", tmp_counter_for("d") % 1000000);
            memcpy(tpl + l - 6, b, 6);
            if (mkdir_impl(AT_FDCWD, tpl, 0700) == 0) return tpl;
            if (errno != EEXIST) return nullptr;
        }
        return nullptr;
    }
    REALC(char*, "mkdtemp", char*);
    return real(tpl);
}

// ================================================================ fcntl, locks

static bool conflicts(uint64_t uid, const void* owner, short type, int64_t s, int64_t e, Lock* which = nullptr)
{
    auto i = S->fs.locks.find(uid);
    if (i == S->fs.locks.end()) return false;
    for (auto& l : i->second)
    {
        if (l.owner == owner) continue;
        if (l.start >= e || s >= l.end) continue;
        if (type == F_WRLCK || l.type == F_WRLCK)
        {
            if (which) *which = l;
            return true;
        }
    }
    return false;
}

static void set_lock(uint64_t uid, const void* owner, short type, int64_t s, int64_t e)
{
    auto& v = S->fs.locks[uid];
    std::vector<Lock> nv;
    for (auto& l : v)
    {
        if (l.owner != owner || l.start >= e || s >= l.end)
        {
            nv.push_back(l);
            continue;
        }
        if (l.start < s) nv.push_back(Lock{owner, l.type, l.start, s});
        if (l.end > e) nv.push_back(Lock{owner, l.type, e, l.end});
    }
    if (type != F_UNLCK) nv.push_back(Lock{owner, type, s, e});
    v = nv;
    if (v.empty()) S->fs.locks.erase(uid);
}

static int do_lock(FileP f, int cmd, struct flock* fl)
{
    int64_t s = fl->l_start;
    if (fl->l_whence == SEEK_CUR) s += f->off;
    if (fl->l_whence == SEEK_END) s += S->fs.live.get(f->uid)->data.size();
    int64_t e = fl->l_len == 0 ? INT64_MAX : s + fl->l_len;
    const void* owner = f.get();
    if (cmd == F_OFD_GETLK || cmd == F_GETLK)
    {
        S->syscall("getlk", f->path, false);
        Lock l;
        if (conflicts(f->uid, owner, fl->l_type, s, e, &l))
        {
            fl->l_type   = l.type;
            fl->l_whence = SEEK_SET;
            fl->l_start  = l.start;
            fl->l_len    = l.end == INT64_MAX ? 0 : l.end - l.start;
            fl->l_pid    = -1;
        }
        else
            fl->l_type = F_UNLCK;
        return 0;
    }
    S->syscall(fl->l_type == F_UNLCK ? "unlock" : fl->l_type == F_RDLCK ? "rdlock" : "wrlock", f->path + " " + std::to_string(s) + "," + std::to_string(e), false);
    if (fl->l_type == F_WRLCK && (f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if (fl->l_type == F_RDLCK && (f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    if (fl->l_type != F_UNLCK)
    {
        short type = fl->l_type;
        if (pfault("lock_eintr", f->path)) return fail(EINTR);
        if (cmd == F_OFD_SETLK || cmd == F_SETLK)
        {
            if (conflicts(f->uid, owner, type, s, e))
            {
                S->probe("lock_busy");
                return fail(EAGAIN);
            }
        }
        else
        {
            while (conflicts(f->uid, owner, type, s, e))
            {
                S->probe("lock_wait");
                uint64_t uid = f->uid;
                S->block("lock", [=] { return !conflicts(uid, owner, type, s, e); });
            }
        }
    }
    set_lock(f->uid, owner, fl->l_type, s, e);
    return 0;
}

int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        switch (cmd)
        {
            case F_OFD_SETLK:
            case F_OFD_SETLKW:
            case F_OFD_GETLK:
            case F_SETLK:
            case F_SETLKW:
            case F_GETLK: return do_lock(f, cmd, (struct flock*)arg);
            case F_GETFL: return f->flags;
            case F_SETFL:
                f->flags = (f->flags & (O_ACCMODE)) | ((long)arg & ~O_ACCMODE);
                return 0;
            case F_GETFD: return (f->flags & O_CLOEXEC) ? FD_CLOEXEC : 0;
            case F_SETFD: return 0;
            case F_DUPFD:
            case F_DUPFD_CLOEXEC: return S->newfd(S->cur->proc, f);
            case F_SETPIPE_SZ: return (int)(long)arg;
            case F_GETPIPE_SZ: return f->pipe ? f->pipe->cap : fail(EBADF);
            default: return fail(EINVAL);
        }
    }
    REALC(int, "fcntl64", int, int, ...);
    return real(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));
int flock(int fd, int op)
{
    if (ours(fd)) return 0;
    REALC(int, "flock", int, int);
    return real(fd, op);
}

int dup(int fd)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f) return fail(EBADF);
        return S->newfd(S->cur->proc, f);
    }
    REALC(int, "dup", int);
    return real(fd);
}
int dup2(int a, int b)
{
    if (ours(a))
    {
        FileP f = getf(a);
        if (!f) return fail(EBADF);
        S->cur->proc->fds[b] = f;
        return b;
    }
    if (in()) return fail(EBADF);
    REALC(int, "dup2", int, int);
    return real(a, b);
}
int dup3(int a, int b, int)
{
    return dup2(a, b);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (ours(fd)) return fail(ENOTTY);
    REALC(int, "ioctl", int, unsigned long, ...);
    return real(fd, req, arg);
}
int isatty(int fd)
{
    if (in())
    {
        errno = ENOTTY;
        return 0;
    }
    REALC(int, "isatty", int);
    return real(fd);
}
int posix_fadvise(int fd, off_t a, off_t b, int c)
{
    if (ours(fd)) return 0;
    REALC(int, "posix_fadvise64", int, off_t, off_t, int);
    return real(fd, a, b, c);
}
int posix_fadvise64(int fd, off_t a, off_t b, int c) __attribute__((alias("posix_fadvise")));
int statvfs(const char* path, struct statvfs* st)
{
    if (in())
    {
        memset(st, 0, sizeof(*st));
        st->f_bsize = st->f_frsize = 4096;
        st->f_blocks = 1 << 20;
        st->f_bfree = st->f_bavail = 1 << 19;
        return 0;
    }
    REALC(int, "statvfs64", const char*, struct statvfs*);
    return real(path, st);
}

void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off)
{
    if (fd >= 0 && ours(fd))
    {
        FileP f = getf(fd);
        S->syscall("mmap", f ? f->path : "", false);
        if (!f || f->kind != OpenFile::FILE_)
        {
            errno = EBADF;
            return MAP_FAILED;
        }
        if (len == 0)
        {
            errno = EINVAL;
            return MAP_FAILED;
        }
        REALC(void*, "mmap64", void*, size_t, int, int, int, off_t);
        void* m = real(addr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) return m;
        Inode* i = S->fs.live.get(f->uid);
        if (off < (off_t)i->data.size()) memcpy(m, i->data.data() + off, std::min(len, (size_t)(i->data.size() - off)));
        if (!(prot & PROT_WRITE)) mprotect(m, len, prot);
        return m;
    }
    REALC(void*, "mmap64", void*, size_t, int, int, int, off_t);
    return real(addr, len, prot, flags, fd, off);
}
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) __attribute__((alias("mmap")));

// ================================================================ data movers

static FileP fd_any(int fd)
{
    return getf(fd);
}

ssize_t sendfile(int out, int in_, off_t* off, size_t n)
{
    if (ours(out) || ours(in_))
    {
        FileP fo = fd_any(out), fi = fd_any(in_);
        if (!fi || !fo)
        {
            // one of them is a real descriptor: unsupported
            return fail(EINVAL);
        }
        S->syscall("sendfile", fi->path + " -> " + fo->path + " " + std::to_string(n), fo->kind == OpenFile::FILE_);
        if (fi->kind != OpenFile::FILE_) return fail(EINVAL);
        if (fo->flags & O_APPEND) return fail(EINVAL);
        if ((fo->flags & O_ACCMODE) == O_RDONLY && fo->kind == OpenFile::FILE_) return fail(EBADF);
        if (S->fault("sendfile_einval")) return fail(EINVAL);
        if (S->fault("eintr_write")) return fail(EINTR);
        if (pfault("eio_read", fi->path)) return fail(EIO);
        int64_t o = off ? *off : fi->off;
        Inode* i  = S->fs.live.get(fi->uid);
        if (o < 0) return fail(EINVAL);
        if (o >= (int64_t)i->data.size()) return 0;
        size_t k = std::min(n, (size_t)(i->data.size() - o));
        if (k > 1 && S->fault("short_write")) k = 1 + S->choose("short_write.n", k - 1, 1.0);
        std::string tmp = i->data.substr(o, k);
        ssize_t r;
        if (fo->kind == OpenFile::PIPE_W)
        {
            if ((fo->flags & O_NONBLOCK) && S->fault("pipe_eagain")) return fail(EAGAIN);
            r = pipe_write(fo, tmp.data(), tmp.size());
        }
        else if (fo->kind == OpenFile::NUL)
            r = k;
        else if (fo->kind == OpenFile::FILE_)
        {
            if (pfault("eio_write", fo->path)) return fail(EIO);
            if (pfault("enospc", fo->path))
            {
                k = S->choose("enospc.n", k + 1, 0.5);
                if (k == 0) return fail(ENOSPC);
            }
            if (S->fs.capacity >= 0)
            {
                int64_t room = S->fs.capacity - S->fs.used();
                if ((int64_t)k > room)
                {
                    ++S->fired["enospc"];
                    if (room <= 0) return fail(ENOSPC);
                    k = room;
                }
            }
            S->fs.write(fo->uid, fo->off, tmp.data(), k);
            fo->off += k;
            r = k;
        }
        else
            return fail(EBADF);
        if (r > 0)
        {
            if (off) *off += r;
            else fi->off += r;
        }
        return r;
    }
    REALC(ssize_t, "sendfile64", int, int, off_t*, size_t);
    return real(out, in_, off, n);
}
ssize_t sendfile64(int out, int in_, off_t* off, size_t n) __attribute__((alias("sendfile")));

ssize_t copy_file_range(int in_, off_t* oi, int out, off_t* oo, size_t n, unsigned flags)
{
    if (ours(out) || ours(in_))
    {
        FileP fo = fd_any(out), fi = fd_any(in_);
        if (!fi || !fo) return fail(EXDEV);
        S->syscall("copy_file_range", fi->path + " -> " + fo->path + " " + std::to_string(n), true);
        if (fi->kind != OpenFile::FILE_ || fo->kind != OpenFile::FILE_) return fail(EINVAL);
        if (fo->flags & O_APPEND) return fail(EBADF);
        if (S->fault("copy_file_range_exdev")) return fail(EXDEV);
        if (pfault("eio_read", fi->path)) return fail(EIO);
        int64_t a = oi ? *oi : fi->off, b = oo ? *oo : fo->off;
        Inode* i = S->fs.live.get(fi->uid);
        if (a >= (int64_t)i->data.size()) return 0;
        size_t k = std::min(n, (size_t)(i->data.size() - a));
        if (k > 1 && S->fault("short_write")) k = 1 + S->choose("short_write.n", k - 1, 1.0);
        if (pfault("enospc", fo->path)) return fail(ENOSPC);
        if (S->fs.capacity >= 0)
        {
            int64_t room = S->fs.capacity - S->fs.used();
            if ((int64_t)k > room)
            {
                ++S->fired["enospc"];
                if (room <= 0) return fail(ENOSPC);
                k = room;
            }
        }
        std::string tmp = i->data.substr(a, k);
        S->fs.write(fo->uid, b, tmp.data(), k);
        if (oi) *oi += k;
        else fi->off += k;
        if (oo) *oo += k;
        else fo->off += k;
        return k;
    }
    REALC(ssize_t, "copy_file_range", int, off_t*, int, off_t*, size_t, unsigned);
    return real(in_, oi, out, oo, n, flags);
}

ssize_t splice(int in_, off_t* oi, int out, off_t* oo, size_t n, unsigned flags)
{
    if (ours(out) || ours(in_))
    {
        FileP fo = fd_any(out), fi = fd_any(in_);
        if (!fi || !fo) return fail(EINVAL);
        S->syscall("splice", fi->path + " -> " + fo->path + " " + std::to_string(n), false);
        if (fi->kind != OpenFile::PIPE_R && fo->kind != OpenFile::PIPE_W) return fail(EINVAL);
        if (fo->kind == OpenFile::FILE_ && (fo->flags & O_APPEND)) return fail(EINVAL);
        if (S->fault("splice_einval")) return fail(EINVAL);
        if (S->fault("eintr_write")) return fail(EINTR);
        bool nb = flags & SPLICE_F_NONBLOCK;
        // wait for input
        std::string tmp;
        if (fi->kind == OpenFile::PIPE_R)
        {
            while (fi->pipe->buf.empty())
            {
                if (fi->pipe->writers == 0) return 0;
                if (nb || (fi->flags & O_NONBLOCK)) return fail(EAGAIN);
                S->block("splice read", [fi] { return !fi->pipe->buf.empty() || fi->pipe->writers == 0; });
            }
            tmp = fi->pipe->buf.substr(0, n);
        }
        else if (fi->kind == OpenFile::FILE_)
        {
            int64_t o = oi ? *oi : fi->off;
            Inode* i  = S->fs.live.get(fi->uid);
            if (o >= (int64_t)i->data.size()) return 0;
            tmp = i->data.substr(o, n);
        }
        else
            return fail(EINVAL);
        if (tmp.size() > 1 && S->fault("short_write")) tmp.resize(1 + S->choose("short_write.n", tmp.size() - 1, 1.0));
        ssize_t r;
        if (fo->kind == OpenFile::PIPE_W)
        {
            Pipe& pp = *fo->pipe;
            while (true)
            {
                if (pp.readers == 0)
                {
                    ++S->fired["epipe"];
                    return fail(EPIPE);
                }
                size_t space = pp.cap - std::min(pp.cap, pp.buf.size());
                if (space)
                {
                    size_t k = std::min(space, tmp.size());
                    pp.buf.append(tmp, 0, k);
                    pp.total_in += k;
                    r = k;
                    break;
                }
                if (nb || (fo->flags & O_NONBLOCK)) return fail(EAGAIN);
                S->block("splice write", [fo] { return fo->pipe->readers == 0 || fo->pipe->buf.size() < fo->pipe->cap; });
            }
        }
        else if (fo->kind == OpenFile::NUL)
            r = tmp.size();
        else if (fo->kind == OpenFile::FILE_)
        {
            if (pfault("eio_write", fo->path)) return fail(EIO);
            size_t k = tmp.size();
            if (pfault("enospc", fo->path))
            {
                k = S->choose("enospc.n", k + 1, 0.5);
                if (k == 0) return fail(ENOSPC);
            }
            S->fs.write(fo->uid, oo ? *oo : fo->off, tmp.data(), k);
            if (oo) *oo += k;
            else fo->off += k;
            r = k;
        }
        else
            return fail(EINVAL);
        if (r > 0)
        {
            if (fi->kind == OpenFile::PIPE_R)
            {
                fi->pipe->buf.erase(0, r);
                fi->pipe->total_out += r;
            }
            else if (oi) *oi += r;
            else fi->off += r;
        }
        return r;
    }
    REALC(ssize_t, "splice", int, off_t*, int, off_t*, size_t, unsigned);
    return real(in_, oi, out, oo, n, flags);
}

int pipe2(int fds[2], int flags)
{
    if (in())
    {
        S->syscall("pipe", "", false);
        if (S->fault("pipe_emfile")) return fail(EMFILE);
        auto p  = std::make_shared<Pipe>();
        auto r  = std::make_shared<OpenFile>();
        auto w  = std::make_shared<OpenFile>();
        r->kind = OpenFile::PIPE_R;
        w->kind = OpenFile::PIPE_W;
        r->flags = O_RDONLY | flags;
        w->flags = O_WRONLY | flags;
        r->pipe = w->pipe = p;
        r->path = "pipe[r]";
        w->path = "pipe[w]";
        p->readers = p->writers = 1;
        p->cap = S->pipe_cap;
        fds[0] = S->newfd(S->cur->proc, r);
        fds[1] = S->newfd(S->cur->proc, w);
        return 0;
    }
    REALC(int, "pipe2", int*, int);
    return real(fds, flags);
}
int pipe(int fds[2])
{
    if (in()) return pipe2(fds, 0);
    REALC(int, "pipe", int*);
    return real(fds);
}

static short ready(FileP f, short events)
{
    if (!f) return POLLNVAL;
    short r = 0;
    switch (f->kind)
    {
        case OpenFile::PIPE_R:
            if (!f->pipe->buf.empty()) r |= POLLIN | POLLRDNORM;
            if (f->pipe->writers == 0) r |= POLLHUP;
            break;
        case OpenFile::PIPE_W:
            if (f->pipe->cap - std::min(f->pipe->cap, f->pipe->buf.size()) >= 4096 || f->pipe->buf.empty()) r |= POLLOUT | POLLWRNORM;
            if (f->pipe->readers == 0) r |= POLLERR;
            break;
        default: r |= POLLIN | POLLOUT | POLLRDNORM | POLLWRNORM; break;
    }
    return r & (events | POLLERR | POLLHUP | POLLNVAL);
}

int poll(struct pollfd* fds, nfds_t n, int timeout)
{
    bool mine = false;
    if (in())
        for (nfds_t i = 0; i < n; ++i)
            if (fds[i].fd < 0 || ours(fds[i].fd)) mine = true;
    if (mine)
    {
        std::vector<FileP> fs(n);
        std::string d;
        for (nfds_t i = 0; i < n; ++i)
        {
            if (fds[i].fd >= 0) fs[i] = getf(fds[i].fd);
            d += std::to_string(fds[i].fd) + ":" + std::to_string(fds[i].events) + " ";
        }
        S->syscall("poll", d + std::to_string(timeout), false);
        if (S->fault("poll_eintr")) return fail(EINTR);
        auto check = [&fs, fds, n] {
            for (nfds_t i = 0; i < n; ++i)
                if (fds[i].fd >= 0 && ready(fs[i], fds[i].events)) return true;
            return false;
        };
        if (timeout != 0)
        {
            std::vector<struct pollfd> copy(fds, fds + n);
            auto pred = [&fs, copy] {
                for (size_t i = 0; i < copy.size(); ++i)
                    if (copy[i].fd >= 0 && ready(fs[i], copy[i].events)) return true;
                return false;
            };
            S->block("poll", pred, timeout < 0 ? -1 : S->now + (ns_t)timeout * 1000000);
        }
        int c = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            fds[i].revents = fds[i].fd < 0 ? 0 : ready(fs[i], fds[i].events);
            if (fds[i].revents) ++c;
        }
        (void)check;
        std::string o;
        for (nfds_t i = 0; i < n; ++i)
            o += std::to_string(fds[i].revents) + " ";
        S->log("  poll -> %d [%s]", c, o.c_str());
        return c;
    }
    REALC(int, "poll", struct pollfd*, nfds_t, int);
    return real(fds, n, timeout);
}
int __poll_chk(struct pollfd* fds, nfds_t n, int timeout, size_t) { return poll(fds, n, timeout); }

// ================================================================ stdio

static ssize_t ck_read(void* c, char* buf, size_t n) { return do_read(((Cookie*)c)->f, buf, n, 0, false); }
static ssize_t ck_write(void* c, const char* buf, size_t n)
{
    ssize_t r = do_write(((Cookie*)c)->f, buf, n, 0, false, "write");
    return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* off, int whence)
{
    Cookie* k = (Cookie*)c;
    Inode* i  = S->fs.live.get(k->f->uid);
    int64_t o = *off;
    if (whence == SEEK_CUR) o += k->f->off;
    if (whence == SEEK_END) o += i->data.size();
    if (o < 0) return fail(EINVAL);
    k->f->off = o;
    *off      = o;
    return 0;
}
static int ck_close(void* c)
{
    Cookie* k = (Cookie*)c;
    int r = 0;
    if (k->fd >= 0 && S && S->cur && S->cur->proc == k->proc) r = close(k->fd);
    delete k;
    return r;
}

FILE* fdopen(int fd, const char* mode)
{
    if (ours(fd))
    {
        FileP f = getf(fd);
        if (!f)
        {
            errno = EBADF;
            return nullptr;
        }
        auto k  = new Cookie;
        k->f    = f;
        k->fd   = fd;
        k->proc = S->cur->proc;
        cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
        FILE* r = fopencookie(k, mode, io);
        file_fds[r] = fd;
        return r;
    }
    REALC(FILE*, "fdopen", int, const char*);
    return real(fd, mode);
}
static FILE* fopen_impl(const char* path, const char* mode)
{
    if (in())
    {
        bool wr = strpbrk(mode, "wa+") != nullptr;
        if (sim_path(path))
        {
            int fl = O_RDONLY;
            if (mode[0] == 'w') fl = O_WRONLY | O_CREAT | O_TRUNC;
            if (mode[0] == 'a') fl = O_WRONLY | O_CREAT | O_APPEND;
            if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
            int fd = do_open(AT_FDCWD, path, fl, 0666);
            if (fd < 0) return nullptr;
            return fdopen(fd, mode);
        }
        if (wr)
        {
            deny("fopen", path);
            return nullptr;
        }
    }
    REALC(FILE*, "fopen64", const char*, const char*);
    return real(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return fopen_impl(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return fopen_impl(path, mode); }
int fileno(FILE* f)
{
    if (in())
    {
        auto i = file_fds.find(f);
        if (i != file_fds.end()) return i->second;
    }
    REALC(int, "fileno", FILE*);
    return real(f);
}
int fclose(FILE* f)
{
    file_fds.erase(f);
    REALC(int, "fclose", FILE*);
    return real(f);
}

// ================================================================ time

int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (in())
    {
        ns_t t     = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? S->wall() : S->now;
        ts->tv_sec = t / 1000000000;
        ts->tv_nsec = t % 1000000000;
        return 0;
    }
    REALC(int, "clock_gettime", clockid_t, struct timespec*);
    return real(id, ts);
}
int gettimeofday(struct timeval* tv, void* tz)
{
    if (in())
    {
        ns_t t      = S->wall();
        tv->tv_sec  = t / 1000000000;
        tv->tv_usec = t % 1000000000 / 1000;
        return 0;
    }
    REALC(int, "gettimeofday", struct timeval*, void*);
    return real(tv, tz);
}
time_t time(time_t* t)
{
    if (in())
    {
        time_t r = S->wall() / 1000000000;
        if (t) *t = r;
        return r;
    }
    REALC(time_t, "time", time_t*);
    return real(t);
}
int nanosleep(const struct timespec* req, struct timespec* rem)
{
    if (in())
    {
        S->syscall("nanosleep", std::to_string(req->tv_sec) + "." + std::to_string(req->tv_nsec), false);
        ns_t until = S->now + (ns_t)req->tv_sec * 1000000000 + req->tv_nsec;
        if (S->cur->proc->sigchld)
        {
            // the death of a child interrupts the wait
            Process* me = S->cur->proc;
            auto dead   = [me] {
                unsigned n = 0;
                for (auto& c : S->procs)
                    if (c->ppid == me->pid && !c->alive) ++n;
                return n;
            };
            unsigned n0 = dead();
            if (S->block("nanosleep", [dead, n0] { return dead() > n0; }, until))
            {
                ns_t left = std::max((ns_t)0, until - S->now);
                if (rem) rem->tv_sec = left / 1000000000, rem->tv_nsec = left % 1000000000;
                return fail(EINTR);
            }
            return 0;
        }
        S->sleep_until(until);
        return 0;
    }
    REALC(int, "nanosleep", const struct timespec*, struct timespec*);
    return real(req, rem);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem)
{
    if (in()) return nanosleep(req, rem);
    REALC(int, "clock_nanosleep", clockid_t, int, const struct timespec*, struct timespec*);
    return real(id, flags, req, rem);
}
int usleep(useconds_t us)
{
    if (in())
    {
        S->sleep_until(S->now + (ns_t)us * 1000);
        return 0;
    }
    REALC(int, "usleep", useconds_t);
    return real(us);
}
unsigned sleep(unsigned s)
{
    if (in())
    {
        S->sleep_until(S->now + (ns_t)s * 1000000000);
        return 0;
    }
    REALC(unsigned, "sleep", unsigned);
    return real(s);
}
int sched_yield()
{
    if (in())
    {
        S->syscall("sched_yield", "", false);
        return 0;
    }
    REALC(int, "sched_yield", void);
    return real();
}
pid_t getpid()
{
    if (in()) return S->cur->proc->pid;
    REALC(pid_t, "getpid", void);
    return real();
}
int getrandom_dummy;
uint32_t arc4random()
{
    if (in()) return 0x12345678 + S->counters["arc4random"]++;
    REALC(uint32_t, "arc4random", void);
    return real();
}

// ================================================================ processes

struct ForkState
{
    ucontext_t ctx;
    int phase = 0;
    std::string stack;
    char* lo = nullptr;
    Process* parent = nullptr;
    Process* child  = nullptr;
    Fiber* fiber    = nullptr;
    void* eh[2];
};
static std::map<Fiber*, ForkState*> forks;
bool in_forked_child() { return in() && !forks.empty() && forks.count(S->cur); }

// Enough to close every descriptor of the simulated process
long sysconf(int name)
{
    if (in() && name == _SC_OPEN_MAX)
    {
        auto& f = S->cur->proc->fds;
        return f.empty() ? 1024 : std::max(1024, f.rbegin()->first + 1);
    }
    REALC(long, "sysconf", int);
    return real(name);
}

static ucontext_t restore_ctx;
static char restore_stack[64 * 1024];
static ForkState* restoring;

static void do_restore()
{
    ForkState* fs = restoring;
    memcpy(fs->lo, fs->stack.data(), fs->stack.size());
    fs->fiber->proc = fs->parent;
    setcontext(&fs->ctx);
}

// Undo the effects on the stack of the child's half and continue as the parent
static void return_to_parent(ForkState* fs)
{
    fs->phase = 2;
    restoring = fs;
    getcontext(&restore_ctx);
    restore_ctx.uc_stack.ss_sp   = restore_stack;
    restore_ctx.uc_stack.ss_size = sizeof(restore_stack);
    restore_ctx.uc_link          = nullptr;
    makecontext(&restore_ctx, do_restore, 0);
    setcontext(&restore_ctx);
}

__attribute__((noinline)) pid_t fork()
{
    if (!in())
    {
        REALC(pid_t, "fork", void);
        return real();
    }
    S->syscall("fork", "", false);
    if (S->fault("fork_eagain")) return fail(EAGAIN);
    ForkState* fs = new ForkState;
    fs->parent    = S->cur->proc;
    fs->fiber     = S->cur;
    {
        auto c   = std::make_unique<Process>();
        c->pid   = S->next_pid++;
        c->ppid  = fs->parent->pid;
        c->name  = fs->parent->name + ".child";
        c->fds   = fs->parent->fds;
        fs->child = c.get();
        S->procs.push_back(std::move(c));
    }
    getcontext(&fs->ctx);
    if (fs->phase == 0)
    {
        fs->phase  = 1;
        char* lo   = (char*)__builtin_frame_address(0) - 2048;
        char* hi   = S->cur->stack + S->cur->stack_size;
        fs->lo     = lo;
        fs->stack.assign(lo, hi - lo);
        forks[S->cur] = fs;
        S->cur->proc = fs->child;
        return 0;
    }
    pid_t pid = fs->child->pid;
    forks.erase(S->cur);
    delete fs;
    return pid;
}

int execvp(const char* file, char* const argv[])
{
    if (in())
    {
        auto i = forks.find(S->cur);
        if (i == forks.end() || !S->exec_handler) return fail(ENOENT);
        ForkState* fs = i->second;
        Process* c    = fs->child;
        std::vector<std::string> args;
        for (char* const* a = argv; *a; ++a)
            args.push_back(*a);
        S->log("exec %s", args.empty() ? "" : args[0].c_str());
        if (args.empty() || args[0].find("missing-program") != std::string::npos) return fail(ENOENT);
        for (auto k = c->fds.begin(); k != c->fds.end();)
            if (k->second->flags & O_CLOEXEC) k = c->fds.erase(k);
            else ++k;
        auto handler = S->exec_handler;
        S->add_fiber(c, [c, args, handler] {
            int rc = handler(args);
            c->finished = true;
            S->finish_process(c, (rc & 0xff) << 8);
        });
        return_to_parent(fs);
    }
    REALC(int, "execvp", const char*, char* const*);
    return real(file, argv);
}
int execvpe(const char* file, char* const argv[], char* const envp[])
{
    if (in())
    {
        S->exec_env.clear();
        for (char* const* e = envp; e && *e; ++e)
            S->exec_env.push_back(*e);
        return execvp(file, argv);
    }
    REALC(int, "execvpe", const char*, char* const*, char* const*);
    return real(file, argv, envp);
}

void _exit(int rc)
{
    if (in())
    {
        auto i = forks.find(S->cur);
        if (i != forks.end())
        {
            ForkState* fs = i->second;
            Fiber* me     = S->cur;
            Process* c    = fs->child;
            // not finish_process: this fiber survives as the parent
            c->alive  = false;
            c->status = (rc & 0xff) << 8;
            c->fds.clear();
            (void)me;
            return_to_parent(fs);
        }
        S->finish_process(S->cur->proc, (rc & 0xff) << 8);
        S->exit_fiber();
    }
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "_exit");
    real(rc);
    __builtin_unreachable();
}
void _Exit(int rc) { _exit(rc); }

pid_t waitpid(pid_t pid, int* st, int options)
{
    if (in())
    {
        S->syscall("waitpid", std::to_string(pid) + " " + std::to_string(options), false);
        Process* me = S->cur->proc;
        if (S->fault("waitpid_eintr")) return fail(EINTR);
        while (true)
        {
            bool any = false;
            for (auto& c : S->procs)
            {
                if (c->ppid != me->pid || c->reaped) continue;
                if (pid > 0 && c->pid != pid) continue;
                any = true;
                if (!c->alive)
                {
                    c->reaped = true;
                    if (st) *st = c->status;
                    return c->pid;
                }
            }
            if (!any) return fail(ECHILD);
            if (options & WNOHANG) return 0;
            S->block("waitpid", [me, pid] {
                for (auto& c : S->procs)
                    if (c->ppid == me->pid && !c->reaped && !c->alive && (pid <= 0 || c->pid == pid)) return true;
                return false;
            });
        }
    }
    REALC(pid_t, "waitpid", pid_t, int*, int);
    return real(pid, st, options);
}

int kill(pid_t pid, int sig)
{
    if (in())
    {
        S->syscall("kill", std::to_string(pid) + " " + std::to_string(sig), false);
        for (auto& c : S->procs)
            if (c->pid == pid && !c->reaped)
            {
                if (sig == 0) return 0;
                ++S->probes["kill_child"];
                if (c->alive) S->kill_process(c.get(), sig);
                return 0;
            }
        return fail(ESRCH);
    }
    REALC(int, "kill", pid_t, int);
    return real(pid, sig);
}
int setrlimit(__rlimit_resource_t r, const struct rlimit* l)
{
    if (in()) return 0;
    REALC(int, "setrlimit64", int, const struct rlimit*);
    return real(r, l);
}
int setrlimit64(__rlimit_resource_t r, const struct rlimit64* l) { return setrlimit(r, (const struct rlimit*)l); }
typedef void (*sighandler)(int);
sighandler signal(int sig, sighandler h)
{
    if (in())
    {
        if (sig == SIGCHLD) S->cur->proc->sigchld = h != SIG_DFL && h != SIG_IGN;
        return SIG_DFL;
    }
    static sighandler (*real)(int, sighandler) = (sighandler(*)(int, sighandler))dlsym(RTLD_NEXT, "signal");
    return real(sig, h);
}

// ================================================================ threads

static Fiber* thread_of(pthread_t t)
{
    for (auto& f : S->fibers)
        if ((pthread_t)(0x700000000000UL + f->id) == t) return f.get();
    return nullptr;
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (in())
    {
        S->syscall("thread_create", "", false);
        if (S->fault("thread_eagain")) return EAGAIN;
        Fiber* f = S->add_fiber(S->cur->proc, [fn, arg] { fn(arg); });
        *t       = (pthread_t)(0x700000000000UL + f->id);
        S->probe("thread_started");
        return 0;
    }
    REALC(int, "pthread_create", pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    return real(t, a, fn, arg);
}
int pthread_join(pthread_t t, void** ret)
{
    if (in())
    {
        S->syscall("thread_join", "", false);
        Fiber* f = thread_of(t);
        if (!f || f->detached) return ESRCH;
        S->block("join", [f] { return f->st == Fiber::DONE; });
        f->detached = true;
        if (ret) *ret = nullptr;
        return 0;
    }
    REALC(int, "pthread_join", pthread_t, void**);
    return real(t, ret);
}
int pthread_detach(pthread_t t)
{
    if (in())
    {
        Fiber* f = thread_of(t);
        if (!f) return ESRCH;
        f->detached = true;
        return 0;
    }
    REALC(int, "pthread_detach", pthread_t);
    return real(t);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (in())
    {
        unsigned live = 0;
        for (auto& f : S->fibers)
            if (f->proc == S->cur->proc && f->st != Fiber::DONE) ++live;
        if (live > 1) S->syscall("mutex_lock", "", false);
        auto& o = S->mutexes[m];
        if (o && o != S->cur)
        {
            S->probe("mutex_wait");
            S->block("mutex", [m] { return S->mutexes[m] == nullptr; });
        }
        S->mutexes[m] = S->cur;
        return 0;
    }
    REALC(int, "pthread_mutex_lock", pthread_mutex_t*);
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (in())
    {
        auto& o = S->mutexes[m];
        if (o) return EBUSY;
        o = S->cur;
        return 0;
    }
    REALC(int, "pthread_mutex_trylock", pthread_mutex_t*);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (in())
    {
        S->mutexes.erase(m);
        return 0;
    }
    REALC(int, "pthread_mutex_unlock", pthread_mutex_t*);
    return real(m);
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, ns_t deadline)
{
    S->mutexes.erase(m);
    Fiber* me = S->cur;
    auto& w   = S->cond_wait[c];
    w.emplace_back(me, false);
    S->syscall("cond_wait", "", false);
    bool spurious = S->fault("spurious_wakeup");
    bool ok       = true;
    if (!spurious)
        ok = S->block("cond", [c, me] {
            for (auto& i : S->cond_wait[c])
                if (i.first == me) return i.second;
            return true;
        }, deadline);
    auto& w2 = S->cond_wait[c];
    w2.erase(std::remove_if(w2.begin(), w2.end(), [me](auto& i) { return i.first == me; }), w2.end());
    if (w2.empty()) S->cond_wait.erase(c);
    while (S->mutexes[m]) S->block("mutex", [m] { return S->mutexes[m] == nullptr; });
    S->mutexes[m] = me;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (in()) return cond_wait(c, m, -1);
    REALC(int, "pthread_cond_wait", pthread_cond_t*, pthread_mutex_t*);
    return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (in()) return cond_wait(c, m, ts->tv_sec * 1000000000LL + ts->tv_nsec - S->clock_jump);
    REALC(int, "pthread_cond_timedwait", pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    return real(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts)
{
    if (in()) return cond_wait(c, m, ts->tv_sec * 1000000000LL + ts->tv_nsec - (id == CLOCK_REALTIME ? S->clock_jump : 0));
    REALC(int, "pthread_cond_clockwait", pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    return real(c, m, id, ts);
}
static int cond_signal(pthread_cond_t* c, bool all)
{
    S->syscall("cond_signal", "", false);
    auto i = S->cond_wait.find(c);
    if (i == S->cond_wait.end()) return 0;
    std::vector<size_t> idle;
    for (size_t k = 0; k < i->second.size(); ++k)
        if (!i->second[k].second) idle.push_back(k);
    if (idle.empty()) return 0;
    if (all)
        for (auto k : idle)
            i->second[k].second = true;
    else
        i->second[idle[S->choose("cond_pick", idle.size(), 0.5)]].second = true;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (in()) return cond_signal(c, false);
    REALC(int, "pthread_cond_signal", pthread_cond_t*);
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (in()) return cond_signal(c, true);
    REALC(int, "pthread_cond_broadcast", pthread_cond_t*);
    return real(c);
}

} // extern "C"
