// C14: output streams are exact
// C15: postprocessing filters get and deliver everything, and never hang
#include "world.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/core/file.h>
#include <arki/metadata.h>
#include <arki/query.h>
#include <arki/runtime.h>
#include <arki/stream.h>
#include <arki/stream/filter.h>
#include <arki/types/source.h>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>

namespace sim {

namespace {

// Contents that tell their position
std::string content(unsigned id, size_t n)
{
    std::string r(n, 0);
    Rng g(id * 7919 + 13);
    for (size_t i = 0; i < n; ++i)
        r[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[g.next() % 36];
    return r;
}

std::string diff(const std::string& want, const std::string& got)
{
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i])
        ++i;
    return "expected " + std::to_string(want.size()) + " bytes, got " + std::to_string(got.size()) + ", the first " + std::to_string(i) + " as expected";
}
bool prefix(const std::string& p, const std::string& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }

// What happened to a filter
struct Filter
{
    std::vector<std::string> args;
    std::string in, out, err; // read, written
    bool eof  = false;        // read everything up to the end
    bool done = false;
    bool epipe = false; // could not write everything
    int rc    = 0;
    Process* proc = nullptr;
};

// The programs: simulated processes doing ordinary blocking I/O
struct Prog
{
    Filter& f;
    Sim& s;
    long arg(size_t i, long def = 0) const { return f.args.size() > i ? atol(f.args[i].c_str()) : def; }
    std::string pending;

    bool put(int fd, const std::string& d)
    {
        size_t pos = 0;
        while (pos < d.size())
        {
            ssize_t r = ::write(fd, d.data() + pos, d.size() - pos);
            if (r < 0)
            {
                if (fd == 1) f.epipe = true;
                return false;
            }
            pos += r;
        }
        return true;
    }
    // Up to n bytes
    std::string get(size_t n)
    {
        std::string b(n, 0);
        ssize_t r = ::read(0, &b[0], n);
        if (r <= 0)
        {
            if (r == 0) f.eof = true;
            return std::string();
        }
        b.resize(r);
        f.in += b;
        return b;
    }
    void nap(long us)
    {
        if (us) s.sleep_until(s.now + us * 1000);
    }

    int run()
    {
        const std::string& n = f.args[0];
        size_t slash         = n.rfind('/');
        std::string name     = slash == std::string::npos ? n : n.substr(slash + 1);
        long buf = arg(1, 4096), us = arg(2), extra = arg(3), rc = arg(4);
        if (name == "pass")
        {
            while (true)
            {
                std::string b = get(buf);
                if (b.empty()) break;
                nap(us);
                if (!put(1, b)) return 13;
            }
        }
        else if (name == "head")
        {
            long left = extra;
            while (left > 0)
            {
                std::string b = get(std::min(buf, left));
                if (b.empty()) break;
                left -= b.size();
                nap(us);
                if (!put(1, b)) return 13;
            }
        }
        else if (name == "hold" || name == "closeout")
        {
            std::string all;
            while (true)
            {
                std::string b = get(buf);
                if (b.empty()) break;
                all += b;
            }
            nap(us);
            if (!put(1, all)) return 13;
            if (name == "closeout")
            {
                ::close(1);
                nap(us);
                put(2, content(99, extra));
            }
        }
        else if (name == "expand")
        {
            while (true)
            {
                std::string b = get(buf);
                if (b.empty()) break;
                std::string o;
                for (long i = 0; i < 1 + extra % 5; ++i)
                    o += b;
                nap(us);
                if (!put(1, o)) return 13;
            }
        }
        else if (name == "gen")
        {
            // does not care about its input
            std::string d = content(98, extra);
            for (size_t i = 0; i < d.size(); i += buf)
            {
                if (!put(1, d.substr(i, buf))) return 13;
                nap(us);
            }
        }
        else if (name == "closein")
        {
            ::close(0);
            nap(us);
            if (!put(1, content(97, extra))) return 13;
        }
        else if (name == "sink")
        {
            while (!get(buf).empty())
                nap(us);
        }
        else if (name == "noisy")
        {
            long left = extra;
            while (true)
            {
                std::string b = get(buf);
                if (b.empty()) break;
                if (left > 0)
                {
                    long k = std::min(left, buf * 2);
                    put(2, content(96, k));
                    left -= k;
                }
                nap(us);
                if (!put(1, b)) return 13;
            }
            put(2, content(95, left > 0 ? left : 0));
        }
        return rc;
    }
};

const char* programs[] = {"pass", "pass", "head", "hold", "closeout", "expand", "gen", "closein", "sink", "noisy"};

struct Timeline
{
    std::string sent;      // all that was given to the stream
    bool failed   = false; // an exception or an end of file on the destination
    std::string err;
};

} // namespace

struct StreamCheck : public Check
{
    using Check::Check;
    bool filters = false;

    void gen(Rng& rng, Plan& p) override
    {
        static const char* outs[] = {"pipe", "pipe", "pipe", "file", "append", "buffer"};
        p.set("out", outs[rng.below(6)]);
        static const long caps[] = {4096, 8192, 65536};
        if (rng.chance(0.5)) p.set("before", rng.logu(3000)); // already in the destination
        p.set("outcap", caps[rng.below(3)]);
        p.set("pipecap", caps[rng.below(3)]);
        static const long pre[] = {10, 50, 150, 400};
        p.set("preempt", pre[rng.below(4)]);
        // the consumer
        p.set("c.read", rng.logu(40000));
        p.set("c.delay", rng.chance(0.5) ? 0 : rng.logu(5000)); // us
        bool disruptive = rng.chance(0.35);
        if (disruptive && rng.chance(0.5)) p.set("c.close", rng.logu(100000));
        if (rng.chance(0.3)) p.set("c.stall_at", rng.logu(60000));
        if (disruptive && rng.chance(0.4)) p.set("timeout", 1 + rng.logu(2000)); // ms
        p.set("c.stall", 1 + rng.logu(3000)); // ms
        // the kind of kernel
        if (rng.chance(0.3)) p.set("f.sendfile_einval", 1000);
        if (rng.chance(0.3)) p.set("f.splice_einval", 1000);
        for (auto f : {"pipe_short_write", "pipe_eagain", "pipe_short_read", "short_write"})
            if (rng.chance(0.3)) p.set(std::string("f.") + f, 1 + rng.logu(300));
        if (disruptive && rng.chance(0.3)) p.set("f.poll_eintr", 1 + rng.logu(50));
        if (disruptive && rng.chance(0.2)) p.set("f.eio_read", 1 + rng.logu(50));
        unsigned nf = filters ? 1 + rng.below(2) : 1;
        // With tiny reads, the data must be small for runs to end in sensible time
        bool small = p.num("c.read") < 200;
        if (filters && rng.chance(0.3))
        {
            // The data of a dataset, through a postprocessor
            World::gen_ds(rng, p, 1);
            World::gen_items(rng, p);
            if (small) p.set("it.maxlen", 300);
            std::vector<unsigned> ids;
            for (unsigned i = 0, m = rng.chance(0.05) ? 0 : 1 + rng.logu(small ? 6 : 30); i < m; ++i)
                ids.push_back(1 + i);
            p.set("ids", ids_str(ids));
            p.set("allow", rng.below(4));
            for (unsigned i = 0, m = 1 + rng.below(2); i < m; ++i)
            {
                Op f("query");
                const char* prog = programs[rng.below(10)];
                long buf         = small ? 100 + rng.logu(4000) : 300 + rng.logu(20000);
                f.set("prog", prog).set("buf", buf).set("us", rng.chance(0.5) ? 0 : rng.logu(small ? 2000 : 20000)).set("extra", rng.logu(small ? 4000 : 150000)).set("rc", rng.chance(0.2) ? 1 + rng.below(3) : 0);
                if (rng.chance(0.04)) f.set("prog", "missing-program");
                if (rng.chance(0.5)) f.set("m", gen_day_query(rng, p));
                p.add(f);
                if (rng.chance(0.3)) p.add(Op("buf").set("n", rng.logu(5000)));
            }
            nf = 0;
        }
        for (unsigned i = 0; i < nf; ++i)
        {
            if (filters)
            {
                Op f("start");
                const char* prog = programs[rng.below(10)];
                bool bad         = rng.chance(0.2);
                long buf         = rng.logu(20000);
                if (buf < 200) small = true;
                f.set("prog", prog).set("buf", buf).set("us", rng.chance(0.5) ? 0 : rng.logu(20000)).set("extra", rng.logu(small ? 4000 : 150000)).set("rc", bad ? 1 + rng.below(3) : 0);
                if (rng.chance(0.03)) f.set("prog", "missing-program");
                if (rng.chance(0.05)) f.set("signal", 1 + rng.logu(20000));
                p.add(f);
            }
            unsigned n = 1 + rng.below(p.thorough ? 12 : 6);
            for (unsigned j = 0; j < n; ++j)
            {
                static const char* kinds[] = {"buf", "line", "file", "buf", "file"};
                Op o(kinds[rng.below(5)]);
                o.set("n", rng.chance(0.05) ? 0 : rng.logu(small ? 4000 : rng.chance(0.3) ? 120000 : 9000));
                if (o.name == "file") o.set("off", rng.below(5000));
                if (filters && rng.chance(0.2)) o.set("wait", rng.logu(20000));
                p.add(o);
            }
            if (filters)
            {
                p.add(Op("stop").set("abort", rng.chance(0.15)));
                if (rng.chance(0.3)) p.add(Op("buf").set("n", rng.logu(5000)));
            }
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s = ctx.sim;
        s.now0 = s.now = 1185926400LL * 1000000000LL;
        const Plan& pl = ctx.plan;
        std::string out = pl.str("out", "pipe");
        s.fs.mkdirs("/sim/o");
        std::string src = content(1, 140000);
        s.fs.put("/sim/o/src", src);
        s.pipe_cap = pl.num("pipecap", 65536);
        std::vector<std::unique_ptr<Filter>> fl;
        Filter* cur = nullptr;
        s.exec_handler = [&](std::vector<std::string> args) {
            Filter& f = *fl.back();
            f.args    = args;
            f.proc    = s.cur->proc;
            // Record at the pipe, to know about what was written by a write
            // that did not end
            for (int i : {1, 2})
                if (s.cur->proc->fds.count(i) && s.cur->proc->fds[i]->pipe) s.cur->proc->fds[i]->pipe->tap = i == 1 ? &f.out : &f.err;
            Prog p{f, s};
            f.rc   = p.run();
            f.done = true;
            return f.rc;
        };

        std::string want;        // what the destination must get
        std::string got;         // what it got
        std::vector<uint8_t> buffer;
        bool broken = false;     // an error was reported: only a prefix may be there
        bool clean  = true;      // no reason for errors so far
        std::string err, phase;
        bool finished = false, consumer_closed = false;
        bool expect_timeout = pl.num("timeout") > 0;
        ns_t last_progress  = 0;
        (void)last_progress;
        auto pipe   = std::make_shared<Pipe>();
        pipe->cap   = pl.num("outcap", 65536);
        bool stalls = pl.num("c.stall_at") > 0;
        std::string part;     // bytes sent since the last start or stop
        auto settle = [&](bool ok) {
            // The current filter is over: what it wrote must have been passed on
            Filter& f = *cur;
            ++ctx.evals;
            if (!prefix(f.in, part)) ctx.fail("filter-input", "the filter " + f.args[0] + " did not get what was sent to it: " + diff(part, f.in));
            if (ok && f.eof && f.in != part) ctx.fail("filter-input", "the filter " + f.args[0] + " did not get everything that was sent to it: " + diff(part, f.in));
            want += f.out;
            part.clear();
        };

        DsConf* ds = w.ds.empty() ? nullptr : &w.ds[0];
        std::set<std::string> allowed;
        if (ds)
        {
            w.solo("import", [&] {
                auto r = w.import(*ds, w.items(pl.str("ids"), *ds));
                ctx.require(r.done, "exception", "import failed: " + r.err);
            });
            auto& dirs = arki::Config::get().dir_postproc;
            if (std::find(dirs.begin(), dirs.end(), "/sim/postproc") == dirs.end()) dirs.push_back("/sim/postproc");
            s.fs.mkdirs("/sim/postproc");
            for (auto n : programs)
                s.fs.put(std::string("/sim/postproc/") + n, "#!/bin/sh\n");
            if (pl.num("allow") == 1) allowed = {"pass", "hold", "closeout", "expand"};
            else if (pl.num("allow") == 2)
                allowed = {"pass", "head", "gen", "closein", "sink", "noisy", "expand", "missing-program"};
        }
        // What a postprocessor must get
        auto postproc_input = [&](arki::dataset::Reader& r, const std::string& m) {
            std::string res;
            arki::query::Data dq(r.dataset().session->matcher(m), true);
            r.query_data(dq, [&](std::shared_ptr<arki::Metadata> md) {
                Item it;
                std::string data = data_of(*md);
                ctx.require(parse_exact(ds->format, data, it), "wrong-data", "a query returned bytes that were never stored");
                md->set_source(arki::types::Source::createInline(ds->format, data.size()));
                auto enc = md->encodeBinary();
                res.append(enc.begin(), enc.end());
                res += data;
                return true;
            });
            return res;
        };
        auto do_query = [&](const Op& op, arki::StreamOutput& so) {
            phase    = "query";
            auto cfg = ds->cfg();
            if (!allowed.empty())
            {
                std::string l;
                for (auto& a : allowed)
                    l += (l.empty() ? "" : ", ") + a;
                cfg->set("postprocess", l);
            }
            auto session = w.session();
            auto reader  = session->dataset(*cfg)->create_reader();
            std::string m = op.str("m");
            fl.push_back(std::make_unique<Filter>());
            cur = fl.back().get();
            std::string cmd = op.str("prog") + " " + op.str("buf") + "  " + op.str("us") + " " + op.str("extra") + " " + op.str("rc");
            cur->args       = {op.str("prog")};
            part            = postproc_input(*reader, m);
            arki::query::Bytes bq;
            bq.setPostprocess(session->matcher(m), cmd);
            bool threw = false;
            std::string msg;
            try
            {
                reader->query_bytes(bq, so);
            }
            catch (std::exception& e)
            {
                threw = true;
                msg   = e.what();
            }
            Filter& f = *cur;
            bool started = f.proc != nullptr;
            ctx.require(!f.proc || !f.proc->alive, "zombie", "a query ended while its postprocessor was still running");
            settle(!threw && !consumer_closed);
            cur = nullptr;
            if (!allowed.empty() && !allowed.count(op.str("prog")))
            {
                ctx.require(threw && !started, "not-allowed", "a dataset was queried with a postprocessor that it does not allow" + std::string(started ? ", which was run" : ""));
                s.probe("not_allowed");
                return;
            }
            if (started) s.probe("postprocessed");
            if (!started || !f.done || f.rc) ctx.require(threw, "error-hidden", "postprocessor " + op.str("prog") + " failed, and no error was reported");
            if (threw && started && f.done && f.rc && !f.err.empty() && !expect_timeout && !consumer_closed && !s.fired.count("poll_eintr") && !s.fired.count("eio_read"))
                ctx.require(msg.find(f.err.substr(0, 20)) != std::string::npos, "stderr-lost", "postprocessor " + op.str("prog") + " failed writing to stderr, which was not reported: " + msg.substr(0, 200));
            if (threw)
            {
                broken = true;
                err    = "query: " + msg;
            }
        };

        std::string before = out == "pipe" ? "" : std::string(pl.num("before"), '#');
        int fl_before      = 0;
        buffer.assign(before.begin(), before.end());
        auto writer = [&] {
            std::unique_ptr<arki::StreamOutput> so;
            std::shared_ptr<arki::core::NamedFileDescriptor> fd;
            if (out == "pipe")
                fd = std::make_shared<arki::core::NamedFileDescriptor>(20000, "out");
            else if (out == "file")
                fd = std::make_shared<arki::core::File>("/sim/o/out", O_WRONLY | O_CREAT, 0666);
            else if (out == "append")
                fd = std::make_shared<arki::core::File>("/sim/o/out", O_WRONLY | O_CREAT | O_APPEND, 0666);
            if (fd)
            {
                // Go on after something that is in the destination already
                if (out != "pipe") s.fs.put("/sim/o/out", before);
                if (out == "file") fd->lseek(before.size());
                fl_before = fd->getfl();
                so = arki::StreamOutput::create(fd, pl.num("timeout"));
            }
            else
                so = arki::StreamOutput::create(buffer);
            arki::core::File srcfd("/sim/o/src", O_RDONLY);
            for (auto& op : pl.ops)
            {
                if (broken) break;
                ctx.begin(op);
                if (op.num("wait")) s.sleep_until(s.now + op.num("wait") * 1000);
                try
                {
                    arki::stream::SendResult r;
                    std::string data;
                    if (op.name == "query")
                    {
                        do_query(op, *so);
                        continue;
                    }
                    if (op.name == "start")
                    {
                        if (cur) continue;
                        phase = "start_filter";
                        fl.push_back(std::make_unique<Filter>());
                        cur = fl.back().get();
                        cur->args = {op.str("prog"), op.str("buf"), op.str("us"), op.str("extra"), op.str("rc")};
                        part.clear();
                        auto fp = so->start_filter(cur->args);
                        if (long us = op.num("signal"))
                        {
                            pid_t pid = fp->cmd.pid();
                            Sim* ps   = &s;
                            // somebody kills the filter
                            auto k = s.spawn("killer", [ps, us, pid] {
                                ps->sleep_until(ps->now + us * 1000);
                                ::kill(pid, SIGKILL);
                            });
                            (void)k;
                        }
                        continue;
                    }
                    if (op.name == "stop")
                    {
                        if (!cur) continue;
                        if (op.num("abort"))
                        {
                            phase = "abort_filter";
                            so->abort_filter();
                            // what the filter could not do is lost
                            settle(false);
                            cur = nullptr;
                            broken = true;
                            err    = "aborted";
                            continue;
                        }
                        phase = "stop_filter";
                        std::unique_ptr<arki::stream::FilterProcess> fp;
                        try
                        {
                            fp = so->stop_filter();
                        }
                        catch (std::exception&)
                        {
                            ctx.require(!cur->proc || !cur->proc->alive, "zombie", "stop_filter failed, and the filter is still running");
                            throw;
                        }
                        int raw = fp->cmd.raw_returncode();
                        bool dead = cur->proc ? !cur->proc->alive : true;
                        ctx.require(dead, "zombie", "stop_filter returned while the filter was still running");
                        bool bad = !cur->done || cur->rc != 0;
                        bool terminated = WIFSIGNALED(raw);
                        settle(true);
                        bool threw = false;
                        std::string msg;
                        try
                        {
                            fp->check_for_errors();
                        }
                        catch (std::exception& e)
                        {
                            threw = true;
                            msg   = e.what();
                        }
                        (void)terminated;
                        if (bad) ctx.require(threw, "error-hidden", "filter " + cur->args[0] + " failed, and no error was reported");
                        else ctx.require(!threw, "spurious-error", "filter " + cur->args[0] + " succeeded, and an error was reported: " + msg);
                        if (bad && !cur->err.empty() && cur->done && !expect_timeout && !consumer_closed)
                        {
                            // The beginning of what it said must be there
                            std::string e = cur->err.substr(0, 20);
                            ctx.require(msg.find(e) != std::string::npos, "stderr-lost", "filter " + cur->args[0] + " failed writing to stderr, which was not reported: " + msg.substr(0, 200));
                        }
                        if (threw) s.probe("filter_error_reported");
                        cur = nullptr;
                        continue;
                    }
                    std::string& acc = cur ? part : want;
                    size_t n         = op.num("n");
                    phase            = op.name;
                    if (op.name == "buf" || op.name == "line")
                    {
                        data = content(10 + op.id, n);
                        acc += data;
                        if (op.name == "line") acc += "\n";
                        r = op.name == "buf" ? so->send_buffer(data.data(), data.size()) : so->send_line(data.data(), data.size());
                    }
                    else
                    {
                        n = std::min(n, src.size() - op.num("off"));
                        acc += src.substr(op.num("off"), n);
                        r = so->send_file_segment(srcfd, op.num("off"), n);
                    }
                    if (r.flags)
                    {
                        broken = true;
                        err    = "flags " + std::to_string(r.flags);
                        if (r.flags & arki::stream::SendResult::SEND_PIPE_EOF_DEST)
                            ctx.require(consumer_closed, "spurious-error", "end of file on the destination reported while it is open, on " + phase);
                        else
                            ctx.fail("spurious-error", "end of file on the source reported on " + phase);
                    }
                }
                catch (Fail&)
                {
                    throw;
                }
                catch (std::exception& e)
                {
                    broken = true;
                    err    = phase + ": " + e.what();
                    s.log("stream error: %s", err.c_str());
                }
            }
            if (cur)
            {
                // As done by callers that meet an error
                phase = "abort_filter";
                try
                {
                    so->abort_filter();
                }
                catch (std::exception& e)
                {
                    err += std::string(", then abort_filter: ") + e.what();
                }
                settle(false);
                cur = nullptr;
            }
            so.reset();
            if (fd) ctx.require(fd->getfl() == fl_before, "flags-changed", "the output file descriptor was left in another mode");
            finished = true;
        };

        Process* wp = s.spawn("writer", writer);
        wp->faults  = true;
        ctx.faults_on();
        if (out == "pipe")
        {
            auto r  = std::make_shared<OpenFile>();
            auto wf = std::make_shared<OpenFile>();
            r->kind = OpenFile::PIPE_R;
            wf->kind = OpenFile::PIPE_W;
            r->flags  = O_RDONLY;
            wf->flags = O_WRONLY;
            r->pipe = wf->pipe = pipe;
            r->path = wf->path = "outpipe";
            pipe->readers = pipe->writers = 1;
            wp->fds[20000] = wf;
            long csize = pl.num("c.read", 4096), delay = pl.num("c.delay"), close_at = pl.num("c.close"), stall_at = pl.num("c.stall_at"), stall = pl.num("c.stall");
            Process* cp = s.spawn("consumer", [&, csize, delay, close_at, stall_at, stall] {
                std::string b(csize, 0);
                bool stalled = false;
                while (true)
                {
                    if (close_at && (long)got.size() >= close_at) break;
                    if (stall_at && !stalled && (long)got.size() >= stall_at)
                    {
                        stalled = true;
                        s.sleep_until(s.now + stall * 1000000);
                    }
                    ssize_t r = ::read(20000, &b[0], csize);
                    if (r <= 0) return;
                    got.append(b, 0, r);
                    if (delay) s.sleep_until(s.now + delay * 1000);
                }
                consumer_closed = true;
                ::close(20000);
            });
            cp->fds[20000] = r;
        }
        w.run_all("streaming");
        ctx.faults_off();
        if (wp->has_error) ctx.fail("exception", "unexpected exception: " + wp->error);
        ctx.require(finished, "exception", "the writer did not finish");
        if (out == "buffer") got.assign(buffer.begin(), buffer.end());
        else if (out != "pipe")
            got = s.fs.read_all("/sim/o/out");
        ctx.require(got.compare(0, before.size(), before) == 0, "wrong-output", "what was in the destination already has changed");
        got.erase(0, before.size());
        if (want.size() > 1) ctx.nontrivial = true;
        ctx.require(prefix(got, want), "wrong-output", "the destination got other bytes than what was sent: " + diff(want, got) + (err.empty() ? "" : ". Reported: " + err));
        if (!broken && !consumer_closed) ctx.require(got == want, "silent-loss", "no error was reported, and the destination did not get everything: " + diff(want, got));
        if (broken) s.probe("error_reported");
        // Errors need a reason
        // Reading takes time, too: a microsecond or so for each read
        bool slow   = pl.num("timeout") * 1000 < 8 * pl.num("outcap", 65536) / std::max(1l, pl.num("c.read", 4096));
        bool reason = !clean || consumer_closed || s.fired.count("poll_eintr") || s.fired.count("eio_read") || (expect_timeout && (stalls || filters || pl.num("c.delay") || slow));
        for (auto& op : pl.ops)
            if (op.num("abort") || op.str("prog") == "missing-program" || op.str("prog") == "head" || op.str("prog") == "gen" || op.str("prog") == "closein" || op.num("signal")) reason = true;
        for (auto& f : fl)
            if (f->rc) reason = true;
        if (broken) ctx.require(reason, "spurious-error", "an error was reported for no reason: " + err);
        ctx.state(fnv(fnv(14695981039346656037ULL, got), err));
    }
};

struct C14 : public StreamCheck
{
    C14() : StreamCheck("C14") {}
} c14;

struct C15 : public StreamCheck
{
    C15() : StreamCheck("C15") { filters = true; }
} c15;

} // namespace sim
