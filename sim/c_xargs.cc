// C20: arki-xargs hands each datum to the command exactly once, or fails
#include "bag.h"
#include <algorithm>
#include <arki/core/file.h>
#include <arki/metadata.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/xargs.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/timerange.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

struct C20 : public Check
{
    C20() : Check("C20") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        static const long caps[] = {4096, 8192, 65536};
        p.set("pipecap", caps[rng.below(3)]);
        p.set("mixed", rng.chance(0.4) ? rng.below(1000) : 0);    // formats alternate
        p.set("timeranges", rng.chance(0.5) ? 1 + rng.below(3) : 1);
        p.set("notr", rng.chance(0.15));                          // some have no time range
        for (auto f : {"pipe_short_write", "pipe_short_read", "short_write"})
            if (rng.chance(0.3)) p.set(std::string("f.") + f, 1 + rng.logu(300));
        if (rng.chance(0.4)) swarm_faults(rng, p, {"short_read", "open_eio", "open_emfile", "eintr_read", "eio_read", "eio_write", "eintr_write", "enospc", "close_eio", "fork_eagain", "unlink_eio"}, 40);
        unsigned runs = 1 + rng.below(p.thorough ? 6 : 3);
        unsigned id   = 1;
        for (unsigned i = 0; i < runs; ++i)
        {
            Op o("run");
            std::vector<unsigned> ids;
            for (unsigned k = 0, m = rng.chance(0.05) ? 0 : 1 + rng.below(rng.chance(0.2) ? 30 : 8); k < m; ++k)
                ids.push_back(id++);
            o.set("ids", ids_str(ids));
            o.set("src", rng.chance(0.5) ? "pipe" : "file");
            o.set("files", 1 + rng.below(3));
            if (rng.chance(0.5)) o.set("n", 1 + rng.below(5));
            if (rng.chance(0.4)) o.set("s", rng.logu(3000));
            if (rng.chance(0.4)) o.set("i", 1 + rng.below(5));
            if (rng.chance(0.3)) o.set("tr", 1);
            if (rng.chance(0.2)) o.set("arg", 1 + rng.below(3));      // where the file name goes
            if (rng.chance(0.2)) o.set("bad", 1 + rng.below(4)).set("how", rng.below(5)); // invocation that fails
            if (rng.chance(0.05)) o.set("nodata", 1 + rng.below(8)); // an item without data
            if (rng.chance(0.1)) o.set("missing", 1);
            if (rng.chance(0.3)) o.set("slow", rng.logu(20000));
            if (rng.chance(0.15)) o.set("trunc", rng.logu(400));  // the source is cut
            if (rng.chance(0.5)) o.set("pf", 1);
            p.add(o);
        }
    }

    struct Call
    {
        std::vector<std::string> args;
        std::map<std::string, std::string> env;
        std::string data, fname;
        bool readable = false, ended = false;
        bool failed   = false;
    };

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s     = ctx.sim;
        s.pipe_cap = ctx.plan.num("pipecap", 65536);
        s.fs.mkdirs("/sim/tmp");
        s.fs.mkdirs("/sim/o");
        setenv("TMPDIR", "/sim/tmp", 1);
        setenv("ARKI_XARGS_COUNT", "12345", 1);
        unsigned run = 0;
        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            s.now += 1000000000;
            one(ctx, w, op, ++run);
        }
    }

    arki::DataFormat format_of(const Plan& p, const World& w, unsigned id)
    {
        long mixed = p.num("mixed");
        if (!mixed) return w.ds[0].format;
        Rng r(mixed * 31 + id / (1 + mixed % 3));
        static const arki::DataFormat f[] = {arki::DataFormat::GRIB, arki::DataFormat::BUFR, arki::DataFormat::VM2};
        return f[r.below(3)];
    }

    // Which time range an item has; -1 none
    int tr_of(const Plan& p, unsigned id)
    {
        Rng r(id * 77 + 5);
        int t = r.below(p.num("timeranges", 1));
        if (p.num("notr") && r.chance(0.2)) return -1;
        return t;
    }

    static std::string unit(const Item& it, int n)
    {
        char b[64];
        int v[] = {it.ye, it.mo, it.da, it.ho, it.mi};
        std::string r;
        for (int i = 0; i < n; ++i)
        {
            snprintf(b, sizeof b, "%d/", v[i]);
            r += b;
        }
        return r;
    }

    void one(Ctx& ctx, World& w, const Op& op, unsigned run)
    {
        Sim& s        = ctx.sim;
        const Plan& p = ctx.plan;
        // Input
        std::vector<Item> items;
        std::vector<std::string> bundles(op.num("files", 1));
        bool unreadable = false;
        {
            auto ids = parse_ids(op.str("ids"));
            for (size_t i = 0; i < ids.size(); ++i)
            {
                Item it = w.item(ids[i], w.ds[0]);
                it.format = format_of(p, w, ids[i]);
                auto md   = it.md();
                int tr    = tr_of(p, it.id);
                if (tr >= 0) md->test_set<arki::types::Timerange>(arki::types::Timerange::createTimedef(3600 * (tr + 1)));
                else
                    md->unset(arki::TYPE_TIMERANGE);
                std::string enc;
                if (op.num("nodata") == (long)i + 1 && it.format != arki::DataFormat::VM2) // VM2 data is in its metadata
                {
                    unreadable = true;
                    md->set_source(arki::types::Source::createBlobUnlocked(it.format, "/sim/o", "gone", 0, 10));
                    auto b = md->encodeBinary();
                    enc.assign(b.begin(), b.end());
                    it.format = arki::DataFormat::JPEG; // not reached
                }
                else
                {
                    auto b = md->encodeBinary();
                    enc.assign(b.begin(), b.end());
                    enc += it.bytes();
                }
                items.push_back(it);
                bundles[i * bundles.size() / ids.size()] += enc;
            }
        }
        size_t unreadable_at = unreadable ? op.num("nodata") - 1 : items.size();
        bool truncated = false;
        if (long t = op.num("trunc"))
        {
            auto& b = bundles.back();
            if ((size_t)t < b.size())
            {
                b.resize(b.size() - t);
                truncated = true;
            }
        }
        bool pipe = op.str("src") == "pipe";
        std::vector<std::string> names;
        std::string all;
        for (size_t i = 0; i < bundles.size(); ++i)
        {
            names.push_back("/sim/o/in" + std::to_string(run) + "-" + std::to_string(i));
            if (!pipe) s.fs.put(names.back(), bundles[i]);
            all += bundles[i];
        }

        // The command
        std::vector<std::unique_ptr<Call>> calls;
        bool running = false;
        s.exec_handler = [&](std::vector<std::string> args) {
            calls.push_back(std::make_unique<Call>());
            Call& c = *calls.back();
            unsigned n = calls.size();
            if (running) ctx.fail("overlap", "the command was started while the previous one was still running");
            running = true;
            c.args  = args;
            for (auto& e : s.exec_env)
            {
                size_t eq = e.find('=');
                c.env.insert({e.substr(0, eq), e.substr(eq + 1)});
            }
            c.fname = c.env["ARKI_XARGS_FILENAME"];
            if (long us = op.num("slow")) s.sleep_until(s.now + us * 1000);
            int fd = ::open(c.fname.c_str(), O_RDONLY);
            if (fd >= 0)
            {
                char buf[4096];
                ssize_t r;
                while ((r = ::read(fd, buf, sizeof buf)) > 0)
                    c.data.append(buf, r);
                c.readable = r == 0;
                ::close(fd);
            }
            bool bad = op.num("bad") == (long)n;
            running  = false;
            c.ended  = true;
            if (bad)
            {
                c.failed = true;
                switch (op.num("how"))
                {
                    case 0: return 1;
                    case 1: return 255;
                    case 2: ::kill(getpid(), SIGKILL); break;
                    case 3: ::kill(getpid(), SIGTERM); break;
                    default: return 2 + (int)(op.num("bad") * 16);
                }
                s.yield();
            }
            return 0;
        };

        // arki-xargs: what ArkiXargs.run does
        bool ok = false, threw = false;
        std::string err;
        static const char* names_i[] = {"", "year", "month", "day", "hour", "minute"};
        auto body = [&] {
            try
            {
                arki::metadata::Xargs consumer;
                consumer.command = {op.num("missing") ? "/missing-program" : "/bin/cmd", "a1", "a2"};
                if (op.num("n")) consumer.max_count = op.num("n");
                if (op.num("s")) consumer.set_max_bytes(op.num("s"));
                if (op.num("i")) consumer.set_interval(names_i[op.num("i")]);
                if (op.num("tr")) consumer.split_timerange = true;
                if (op.args.count("arg")) consumer.filename_argument = op.num("arg") == 3 ? 10 : op.num("arg");
                auto eat = [&](std::shared_ptr<arki::Metadata> md) { return consumer.eat(md); };
                if (pipe)
                {
                    arki::core::NamedFileDescriptor in(20000, "(stdin)");
                    arki::metadata::BinaryReader reader(in);
                    reader.read_all(eat);
                    consumer.flush();
                }
                else
                {
                    for (auto& n : names)
                    {
                        arki::utils::sys::File in(n, O_RDONLY);
                        arki::metadata::BinaryReader reader(in);
                        reader.read_all(eat);
                    }
                    consumer.flush();
                }
                ok = true;
            }
            catch (std::exception& e)
            {
                threw = true;
                err   = e.what();
            }
        };
        uint64_t fired0 = 0, fired1 = 0;
        auto count = [&] {
            uint64_t n = 0;
            for (auto& f : s.fired)
                if (f.first.find("short") == std::string::npos) n += f.second;
            return n;
        };
        fired0 = count();
        Process* pr = s.spawn("xargs", [&] { body(); });
        pr->faults  = op.num("pf");
        if (pipe)
        {
            auto pp = std::make_shared<Pipe>();
            pp->cap = s.pipe_cap;
            auto mk = [&](OpenFile::Kind k) {
                auto f  = std::make_shared<OpenFile>();
                f->kind = k;
                f->pipe = pp;
                f->refs = 1;
                (k == OpenFile::PIPE_R ? pp->readers : pp->writers)++;
                return f;
            };
            pr->fds[20000] = mk(OpenFile::PIPE_R);
            Process* f     = s.spawn("feeder", [&] {
                size_t pos = 0;
                while (pos < all.size())
                {
                    ssize_t r = ::write(20000, all.data() + pos, std::min<size_t>(all.size() - pos, 700));
                    if (r <= 0) break;
                    pos += r;
                }
                ::close(20000);
            });
            f->fds[20000] = mk(OpenFile::PIPE_W);
        }
        if (op.num("pf")) ctx.faults_on();
        w.run_all("arki-xargs");
        ctx.faults_off();
        fired1 = count();
        s.exec_handler = nullptr;
        ctx.require(ok || threw, "died", "arki-xargs died: " + pr->error);

        // Judge
        ctx.nontrivial = true;
        bool cmd_failed = false;
        size_t pos = 0; // items handed over
        for (size_t i = 0; i < calls.size(); ++i)
        {
            Call& c = *calls[i];
            std::string where = "invocation " + std::to_string(i + 1) + " of " + std::to_string(calls.size());
            ctx.require(!cmd_failed, "run-after-failure", where + " was run after one that failed");
            if (c.failed) cmd_failed = true;
            ctx.require(c.ended, "not-waited", where + " did not end");
            ctx.require(c.readable, "file-unreadable", where + ": the file could not be read");
            // Contents
            size_t first = pos;
            std::string want;
            while (pos < items.size() && want.size() < c.data.size())
            {
                want += items[pos].bytes();
                if (items[pos].format == arki::DataFormat::VM2) want += "\n";
                ++pos;
            }
            ctx.require(want == c.data && pos > first, "wrong-data", where + ": the file does not have the next items of the input: " + std::to_string(c.data.size()) + " bytes, expected " + std::to_string(want.size()));
            ctx.require(pos <= unreadable_at, "wrong-data", where + ": contains an item that could not be read");
            size_t n = pos - first, size = 0;
            for (size_t k = first; k < pos; ++k)
                size += items[k].bytes().size();
            // Grouping
            if (long mx = op.num("n")) ctx.require((long)n <= mx, "group-count", where + " has " + std::to_string(n) + " items");
            if (long mx = op.num("s")) ctx.require(n == 1 || (long)size <= mx, "group-size", where + " has " + std::to_string(size) + " bytes");
            auto compatible = [&](const Item& a, const Item& b) {
                if (a.format != b.format) return false;
                if (op.num("i") && unit(a, op.num("i")) != unit(b, op.num("i"))) return false;
                if (op.num("tr") && tr_of(p, a.id) != tr_of(p, b.id)) return false;
                return true;
            };
            for (size_t k = first + 1; k < pos; ++k)
                ctx.require(compatible(items[first], items[k]), "group-mixed", where + " mixes items that should have been kept apart");
            if (pos < items.size() && i + 1 < calls.size())
            {
                // Was a new invocation needed?
                bool needed = !compatible(items[first], items[pos]);
                if (op.num("n") && (long)n >= op.num("n")) needed = true;
                if (op.num("s") && (long)(size + items[pos].bytes().size()) > op.num("s")) needed = true;
                ctx.require(needed, "group-small", where + " ended before it needed to");
            }
            // How it was called
            std::vector<std::string> want_args{op.num("missing") ? "/missing-program" : "/bin/cmd", "a1", "a2"};
            if (!op.args.count("arg")) want_args.push_back(c.fname);
            else if (op.num("arg") < 3 && op.num("arg") > 0)
                want_args[op.num("arg")] = c.fname;
            else if (op.num("arg") == 0)
                want_args[0] = c.fname;
            ctx.require(c.args == want_args, "arguments", where + " was called with the wrong arguments");
            ctx.require(c.env["ARKI_XARGS_COUNT"] == std::to_string(n), "environment", where + ": wrong count " + c.env["ARKI_XARGS_COUNT"]);
            std::string f = arki::format_name(items[first].format);
            for (auto& ch : f)
                ch = toupper(ch);
            ctx.require(c.env["ARKI_XARGS_FORMAT"] == f, "environment", where + ": wrong format " + c.env["ARKI_XARGS_FORMAT"]);
            arki::core::Time lo = items[first].time(), hi = lo;
            for (size_t k = first; k < pos; ++k)
            {
                lo = std::min(lo, items[k].time());
                hi = std::max(hi, items[k].time());
            }
            ctx.require(c.env["ARKI_XARGS_TIME_START"] == lo.to_iso8601(' ') && c.env["ARKI_XARGS_TIME_END"] == hi.to_iso8601(' '), "environment",
                        where + ": wrong times " + c.env["ARKI_XARGS_TIME_START"] + " to " + c.env["ARKI_XARGS_TIME_END"] + " instead of " + lo.to_iso8601(' ') + " to " + hi.to_iso8601(' '));
        }
        if (cmd_failed) s.probe("xargs_command_failed");
        if (ok)
        {
            ctx.require(!cmd_failed, "failure-hidden", "the command failed, and arki-xargs reported success");
            ctx.require(!op.num("missing") || items.empty() || truncated, "failure-hidden", "the command does not exist, and arki-xargs reported success");
            if (!truncated)
                ctx.require(pos == items.size(), "lost", "arki-xargs succeeded handing over " + std::to_string(pos) + " of " + std::to_string(items.size()) + " items");
        }
        else
        {
            s.probe("xargs_reported");
            ctx.require(cmd_failed || unreadable || truncated || op.num("missing") || fired1 != fired0, "spurious-error", "arki-xargs failed with no reason: " + err);
        }
        // Nothing is left behind
        if (s.fired["unlink_eio"] == 0)
        {
            auto left = s.fs.tree("/sim/tmp");
            ctx.require(left.size() <= 1, "left-behind", "temporary files were left behind: " + (left.empty() ? std::string() : left.back()) + (threw ? " after: " + err : ""));
        }
        ctx.state(fnv(fnv(calls.size(), err), op.to_string()));
    }
} c20;

} // namespace sim
