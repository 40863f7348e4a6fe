// C17: what arki-query writes and what the tools downstream read
#include "bag.h"
#include "walk.h"
#include <algorithm>
#include <archive.h>
#include <archive_entry.h>
#include <arki/core/binary.h>
#include <arki/core/file.h>
#include <arki/dataset/file.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/segmented.h>
#include <arki/metadata.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/stream.h>
#include <arki/python/cmdline/processor.h>
#include <arki/query.h>
#include <arki/segment/session.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/structured/reader.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/value.h>
#include <fcntl.h>
#include <unistd.h>

namespace sim {

namespace {

// Input file that gives out a few bytes at a time
struct ChunkFile : public arki::core::AbstractInputFile
{
    arki::core::NamedFileDescriptor& fd;
    size_t chunk;
    ChunkFile(arki::core::NamedFileDescriptor& fd, size_t chunk) : fd(fd), chunk(chunk) {}
    std::filesystem::path path() const override { return "/sim/o/chunks"; }
    unsigned reads = 0;
    size_t read(void* dest, size_t size) override
    {
        // Reading long streams in very small pieces only makes runs long
        if (++reads > 20000) chunk = std::max<size_t>(chunk, 4096);
        return fd.read(dest, std::min(size, chunk));
    }
};

const char* modes[] = {"meta", "inline", "inline", "inline", "data", "yaml", "json", "summary", "summary", "summary-yaml", "tar", "zip"};

} // namespace

struct C17 : public Check
{
    C17() : Check("C17") {}

    void gen(Rng& rng, Plan& p) override
    {
        unsigned n = 1 + rng.below(3);
        World::gen_ds(rng, p, n);
        World::gen_items(rng, p);
        static const long caps[] = {4096, 8192, 65536};
        p.set("pipecap", caps[rng.below(3)]);
        for (auto f : {"pipe_short_write", "pipe_eagain", "pipe_short_read", "short_write"})
            if (rng.chance(0.3)) p.set(std::string("f.") + f, 1 + rng.logu(300));
        if (rng.chance(0.3)) p.set("f.sendfile_einval", 1000);
        bool faults = rng.chance(0.3);
        if (faults) swarm_faults(rng, p, {"short_read", "open_eio", "open_emfile", "eintr_read", "eio_read", "stat_eio", "readdir_eio", "lock_eintr", "eio_write", "eintr_write", "enospc", "close_eio"}, 40);
        unsigned id = 1;
        for (unsigned i = 0; i < n; ++i)
            if (rng.chance(0.9))
            {
                std::vector<unsigned> ids;
                for (unsigned k = 0, m = 1 + rng.below(rng.chance(0.2) ? 30 : 8); k < m; ++k)
                    ids.push_back(id++);
                p.add(Op("import").set("ds", i).set("ids", ids_str(ids)));
            }
        unsigned runs = 1 + rng.below(p.thorough ? 8 : 4);
        for (unsigned i = 0; i < runs; ++i)
        {
            Op o("run");
            std::string mode = modes[rng.below(sizeof(modes) / sizeof(modes[0]))];
            o.set("mode", mode);
            if (rng.chance(0.4)) o.set("m", gen_day_query(rng, p));
            if (rng.chance(0.3)) o.set("sort", "reftime");
            o.set("dst", rng.chance(0.7) ? "pipe" : "file");
            o.set("kind", rng.below(4));
            o.set("chunk", rng.logu(3000));
            if (rng.chance(0.3)) o.set("again", 1 + rng.below(2));
            if (rng.chance(0.5)) o.set("merged", 1);
            if (rng.chance(0.25)) o.set("kill", rng.logu(60));
            if (rng.chance(0.15)) o.set("stop", rng.below(6));
            if (rng.chance(0.3)) o.set("slow", rng.logu(3000));
            if (faults && rng.chance(0.6)) o.set("pf", 1);
            if (faults && rng.chance(0.3)) o.set("cf", 1);
            p.add(o);
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s     = ctx.sim;
        s.pipe_cap = ctx.plan.num("pipecap", 65536);
        s.fs.mkdirs("/sim/o");
        std::map<unsigned, Item> stored;
        unsigned run = 0;
        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            s.now += 1000000000;
            if (op.name == "import")
            {
                auto& d    = w.ds[op.num("ds")];
                auto items = w.items(op.str("ids"), d);
                ImportResult r;
                w.solo("import", [&] { r = w.import(d, items); });
                ctx.require(r.done, "import-failed", r.err);
                for (size_t i = 0; i < items.size(); ++i)
                    if (r.res[i] == (int)arki::metadata::Inbound::Result::OK) stored[items[i].id] = items[i];
                    else
                        ctx.require(r.res[i] == (int)arki::metadata::Inbound::Result::DUPLICATE, "import-failed", r.err);
                continue;
            }
            pipeline(ctx, w, op, stored, ++run);
        }
    }

    // What is stored and matches
    std::multimap<std::string, std::string> expected(const std::map<unsigned, Item>& stored, const std::string& m)
    {
        std::multimap<std::string, std::string> r;
        for (auto& i : stored)
            if (match_day(m, i.second))
            {
                arki::Metadata md;
                fill_metadata(i.second, md);
                r.insert({full_key(md), i.second.bytes()});
            }
        return r;
    }

    void pipeline(Ctx& ctx, World& w, const Op& op, const std::map<unsigned, Item>& stored, unsigned run)
    {
        Sim& s               = ctx.sim;
        std::string mode     = op.str("mode"), dst = op.str("dst"), m = op.str("m");
        std::string filename = "/sim/o/out" + std::to_string(run);
        if (mode == "yaml") filename += ".yaml";
        else
            filename += ".arkimet";
        unsigned kind = op.num("kind");
        // Producer
        bool p_ok = false, p_threw = false, c_done = false, c_threw = false, c_stopped = false;
        std::string p_err, c_err, tap, raw;
        std::vector<Record> got;
        std::vector<std::string> got_sources;
        std::shared_ptr<arki::Summary> sum;
        bool sum_read = false;
        std::vector<size_t> counted;
        auto producer = [&] {
            try
            {
                std::shared_ptr<arki::core::NamedFileDescriptor> fd;
                if (dst == "pipe") fd = std::make_shared<arki::core::NamedFileDescriptor>(20000, "out");
                else
                    fd = std::make_shared<arki::core::File>(filename, O_WRONLY | O_CREAT | O_TRUNC, 0666);
                auto session = std::make_shared<arki::dataset::Session>(false);
                auto pool    = std::make_shared<arki::dataset::Pool>(session);
                for (auto& d : w.ds)
                {
                    pool->add_dataset(*d.cfg(), false);
                    if (d.dirseg)
                        if (auto sd = std::dynamic_pointer_cast<arki::dataset::segmented::Dataset>(pool->dataset(d.name)))
                            sd->segment_session->default_file_segment = arki::segment::DefaultFileSegment::SEGMENT_DIR;
                }
                std::shared_ptr<arki::StreamOutput> out = arki::StreamOutput::create(fd);
                arki::python::cmdline::ProcessorMaker pm;
                pm.data_only   = mode == "data";
                pm.data_inline = mode == "inline";
                pm.yaml        = mode == "yaml" || mode == "summary-yaml";
                pm.json        = mode == "json";
                pm.summary     = mode == "summary" || mode == "summary-yaml";
                pm.server_side = mode == "server";
                pm.sort        = op.str("sort");
                auto matcher   = session->matcher(m);
                auto proc      = mode == "tar" || mode == "zip" ? pm.make_libarchive(matcher, out, mode, nullptr) : pm.make(matcher, out);
                if (op.num("merged"))
                {
                    auto r = std::make_shared<arki::dataset::merged::Dataset>(pool)->create_reader();
                    proc->process(*r, r->name());
                }
                else
                    pool->foreach_dataset([&](std::shared_ptr<arki::dataset::Dataset> ds) {
                        proc->process(*ds->create_reader(), ds->name());
                        return true;
                    });
                proc->end();
                proc.reset();
                out.reset();
                if (dst == "pipe") ::close(20000);
                else
                    fd->close();
                p_ok = true;
            }
            catch (std::exception& e)
            {
                p_threw = true;
                p_err   = e.what();
            }
        };
        long stop     = op.num("stop", -1);
        auto add      = [&](std::shared_ptr<arki::Metadata> md) {
            Record r;
            r.key   = full_key(*md);
        r.value = value_of(*md);
            if ((mode == "inline" || kind == 3) && md->has_source() && mode != "json")
            {
                r.bytes    = data_of(*md);
                r.has_data = true;
            }
            got.push_back(r);
            got_sources.push_back(source_of(*md));
            if (op.num("slow")) s.sleep_until(s.now + (ns_t)op.num("slow") * 1000);
            if (stop >= 0 && (long)got.size() > stop)
            {
                c_stopped = true;
                return false;
            }
            return true;
        };
        bool as_dataset = dst == "file" && kind == 3 && (mode == "meta" || mode == "inline" || mode == "yaml" || mode == "server");
        if (!as_dataset && kind == 3) kind = 0;
        auto consume = [&] {
            try
            {
                if (as_dataset)
                {
                    auto cfg     = arki::dataset::file::read_config(mode == "yaml" ? "yaml" : "arkimet", filename);
                    auto session = std::make_shared<arki::dataset::Session>(false);
                    auto pool    = std::make_shared<arki::dataset::Pool>(session);
                    pool->add_dataset(*cfg, false);
                    auto r = pool->dataset(cfg->value("name"))->create_reader();
                    // Readers can be queried more than once
                    for (long k = op.num("again"); k > 0; --k)
                    {
                        arki::Summary sm;
                        r->query_summary(session->matcher(""), sm);
                        counted.push_back(sm.count());
                    }
                    arki::query::Data dq(session->matcher(""), true);
                    r->query_data(dq, add);
                    c_done = true;
                    return;
                }
                arki::core::NamedFileDescriptor fd(dst == "pipe" ? 20000 : ::open(filename.c_str(), O_RDONLY | O_CLOEXEC), "/sim/o/stream");
                ChunkFile cf(fd, op.num("chunk", 1000));
                bool abs = kind == 1;
                if (mode == "meta" || mode == "inline" || mode == "server")
                {
                    if (kind == 2)
                    {
                        arki::metadata::Stream st(add, "stream");
                        std::vector<char> buf(op.num("chunk", 1000));
                        unsigned reads = 0;
                        while (size_t n = fd.read(buf.data(), buf.size()))
                        {
                            if (++reads == 20000) buf.resize(std::max<size_t>(buf.size(), 4096));
                            st.readData(buf.data(), n);
                            if (st.consumer_canceled()) break;
                        }
                        if (!st.consumer_canceled() && st.countBytesUnprocessed()) throw std::runtime_error("the stream was truncated");
                    }
                    else if (abs)
                    {
                        arki::metadata::AbstractFileBinaryReader rd(cf);
                        rd.read_all(add);
                    }
                    else if (op.num("chunk") % 2)
                    {
                        arki::metadata::BinaryReader rd(fd);
                        while (auto md = rd.read())
                            if (!add(md)) break;
                    }
                    else
                    {
                        arki::metadata::BinaryReader rd(fd);
                        rd.read_all(add);
                    }
                }
                else if (mode == "yaml")
                {
                    if (abs)
                    {
                        arki::metadata::YamlReader rd(cf);
                        rd.read_all(add);
                    }
                    else
                    {
                        arki::metadata::YamlReader rd(fd);
                        rd.read_all(add);
                    }
                }
                else if (mode == "json")
                {
                    auto in = abs ? arki::core::BufferedReader::from_abstract(cf) : arki::core::BufferedReader::from_fd(fd);
                    while (true)
                    {
                        int c = in->peek();
                        if (c == EOF) break;
                        if (isspace(c))
                        {
                            in->get();
                            continue;
                        }
                        arki::structured::Memory mem;
                        arki::structured::JSON::parse(*in, mem);
                        if (!add(arki::Metadata::read_structure(arki::structured::keys_json, mem.root()))) break;
                    }
                }
                else if (mode == "summary" || mode == "summary-yaml")
                {
                    sum = std::make_shared<arki::Summary>();
                    if (mode == "summary-yaml")
                    {
                        auto in = abs ? arki::core::LineReader::from_abstract(cf) : arki::core::LineReader::from_fd(fd);
                        while (sum->readYaml(*in, "yaml"))
                            sum_read = true;
                    }
                    else
                        sum_read = abs ? sum->read(cf) : sum->read(fd);
                }
                else
                {
                    char buf[4096];
                    while (size_t n = fd.read(buf, sizeof(buf)))
                        raw.append(buf, n);
                }
                if (dst == "file") fd.close();
                c_done = true;
            }
            catch (Fail&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                c_threw = true;
                c_err   = e.what();
            }
            if (dst == "pipe") ::close(20000);
        };

        bool pf = op.num("pf"), cf = op.num("cf");
        static const std::set<std::string> harmless = {"pipe_short_write", "pipe_eagain", "pipe_short_read", "short_write", "sendfile_einval"};
        auto count = [&] {
            uint64_t n = 0;
            for (auto& f : s.fired)
                if (!harmless.count(f.first)) n += f.second;
            return n;
        };
        uint64_t n0   = count();
        Process* wp   = s.spawn("producer", producer);
        wp->faults    = pf || !ctx.plan.num("f.errors");
        wp->crash_in  = op.num("kill");
        wp->crash_kind = op.num("kill") ? 1 : 0;
        ctx.faults_on();
        if (!pf)
            for (auto& f : s.fault_p)
                if (!harmless.count(f.first)) f.second = 0;
        uint64_t n1 = n0;
        if (dst == "pipe")
        {
            auto pipe = std::make_shared<Pipe>();
            pipe->cap = ctx.plan.num("pipecap", 65536);
            pipe->tap = &tap;
            auto r    = std::make_shared<OpenFile>();
            auto wf   = std::make_shared<OpenFile>();
            r->kind   = OpenFile::PIPE_R;
            wf->kind  = OpenFile::PIPE_W;
            r->flags  = O_RDONLY;
            wf->flags = O_WRONLY;
            r->pipe = wf->pipe = pipe;
            r->path = wf->path = "outpipe";
            pipe->readers = pipe->writers = 1;
            wp->fds[20000] = wf;
            Process* cp    = s.spawn("consumer", consume);
            cp->faults     = true;
            cp->fds[20000] = r;
            r.reset();
            wf.reset();
            w.run_all("streaming");
            n1 = count();
            if (cp->has_error) ctx.fail("exception", "unexpected exception: " + cp->error);
        }
        else
        {
            w.run_all("writing");
            n1  = count();
            tap = s.fs.exists(filename) ? s.fs.read_all(filename) : std::string();
            ctx.faults_on();
            if (!cf)
                for (auto& f : s.fault_p)
                    if (!harmless.count(f.first)) f.second = 0;
            if (s.fs.exists(filename))
            {
                Process* cp = s.spawn("consumer", consume);
                cp->faults  = true;
                w.run_all("reading");
                if (cp->has_error) ctx.fail("exception", "unexpected exception: " + cp->error);
            }
        }
        ctx.faults_off();
        bool killed   = wp->killed;
        bool p_clean  = n1 == n0 && !killed && !c_stopped && !c_threw;
        bool c_clean  = count() == n1 && (dst == "file" || n1 == n0);
        if (wp->has_error) ctx.fail("exception", "unexpected exception: " + wp->error);
        std::string what = "arki-query (" + mode + ")";
        if (p_threw) ctx.require(!p_clean, "output-failed", what + " failed: " + p_err);
        ctx.require(killed || p_ok || p_threw, "output-failed", what + " did not end");
        auto want = expected(stored, m);
        if (want.size() > 0) ctx.nontrivial = true;
        if (killed) s.probe("producer_killed");
        if (p_threw) s.probe("producer_failed");
        // When the reader closes early, what was sent may be cut short with no error
        bool cut_by_reader = dst == "pipe" && (c_stopped || c_threw || kind == 2);
        bool full          = p_ok && !(dst == "pipe" && (c_stopped || c_threw));
        (void)cut_by_reader;
        ctx.state(fnv(fnv(14695981039346656037ULL, tap.substr(0, 4096)), std::to_string(got.size()) + p_err + c_err));
        if (mode == "meta" || mode == "inline" || mode == "server")
        {
            Walk wk = walk(tap);
            ctx.require(!wk.garbage, "wrong-output", what + " wrote something that is not metadata");
            if (full)
            {
                ctx.require(wk.complete, "truncated-output", what + " succeeded, and its output is truncated");
                compare(ctx, what + " wrote", want, wk.recs, mode == "inline", true);
            }
            else
                compare(ctx, what + " wrote", want, wk.recs, mode == "inline", false);
            // The reader gets what is there
            for (size_t i = 0; i < got.size(); ++i)
            {
                Record r = i < wk.recs.size() ? wk.recs[i] : Record();
                if (as_dataset && mode != "inline")
                {
                    r.has_data = true;
                    auto e     = want.equal_range(r.key);
                    bool ok    = false;
                    for (auto j = e.first; j != e.second; ++j)
                        ok |= j->second == got[i].bytes;
                    ctx.require(ok, "wrong-data", "reading the output of " + what + " gave the wrong data");
                    r.bytes = got[i].bytes;
                }
                ctx.require(i < wk.recs.size() && got[i] == r, "wrong-data", "record " + std::to_string(i) + " read from the output of " + what + " is not the one that was written");
                if (mode != "inline" && !as_dataset)
                    ctx.require(got_sources[i] == wk.sources[i], "wrong-data", "the source of record " + std::to_string(i) + " read from the output of " + what + " is not the one that was written: " + got_sources[i] + " instead of " + wk.sources[i]);
            }
            if (!c_clean || c_stopped) return;
            if (dst == "file" && !s.fs.exists(filename)) return;
            if (wk.complete)
            {
                ctx.require(!c_threw, "read-failed", "reading the output of " + what + " failed: " + c_err);
                for (auto n : counted)
                    ctx.require(n == wk.recs.size(), "lost-records", "a summary of the output of " + what + " is about " + std::to_string(n) + " items instead of " + std::to_string(wk.recs.size()));
                ctx.require(got.size() == wk.recs.size(), "lost-records", "reading the output of " + what + " gave " + std::to_string(got.size()) + " records instead of " + std::to_string(wk.recs.size()));
            }
            else
            {
                s.probe("truncated_stream");
                // Nothing in metadata::Stream tells that data is missing
                if (kind == 2 && wk.at_data) return;
                // Metadata that is cut is the end of the stream, by design
                // (see the tests wrongsize and decode_issue_24); missing data is not
                ctx.require(c_threw || !wk.at_data, "truncation-unnoticed", "the output of " + what + " was cut after " + std::to_string(tap.size()) + " bytes, in the middle of a record, and reading it reported no error");
                if (as_dataset && op.num("again")) return;
                ctx.require(got.size() == wk.recs.size(), "lost-records", "reading the output of " + what + ", that was cut, gave " + std::to_string(got.size()) + " records instead of " + std::to_string(wk.recs.size()));
            }
        }
        else if (mode == "yaml" || mode == "json")
        {
            if (!c_clean) return;
            if (full)
            {
                ctx.require(!c_threw, "read-failed", "reading the output of " + what + " failed: " + c_err);
                if (!c_stopped && c_done) compare(ctx, what + " wrote", want, got, as_dataset, true);
            }
            else if (c_stopped)
                compare(ctx, what + " wrote", want, got, as_dataset, false);
        }
        else if (mode == "summary" || mode == "summary-yaml")
        {
            if (!c_clean) return;
            if (full)
            {
                ctx.require(!c_threw, "read-failed", "reading the output of " + what + " failed: " + c_err);
                if (!c_done) return;
                unsigned long long size = 0;
                for (auto& i : want)
                    size += i.second.size();
                bool exact = true;
                for (auto& d : w.ds)
                    if (d.step != "daily" && d.type == "simple") exact = false;
                if (exact || m.empty())
                    ctx.require(sum->count() == want.size() && sum->size() == size, "wrong-summary", what + " wrote a summary of " + std::to_string(sum->count()) + " items instead of " + std::to_string(want.size()));
                if (mode == "summary") ctx.require(sum_read, "wrong-summary", what + " wrote no summary");
            }
            else if (mode == "summary" && c_done && !tap.empty())
            {
                size_t len = tap.size() >= 8 ? ((size_t)(uint8_t)tap[4] << 24 | (uint8_t)tap[5] << 16 | (uint8_t)tap[6] << 8 | (uint8_t)tap[7]) + 8 : 8;
                if (tap.size() < len && (tap.size() > 1 || sum_read)) ctx.fail("truncation-unnoticed", "the output of " + what + " was cut after " + std::to_string(tap.size()) + " bytes, and reading it reported no error");
            }
        }
        else if (mode == "data")
        {
            // Items one after the other
            std::vector<Record> recs;
            size_t pos = 0;
            bool cut   = false;
            while (pos < tap.size())
            {
                Record r;
                bool ok = false;
                for (auto& i : want)
                    if (tap.compare(pos, i.second.size(), i.second) == 0)
                    {
                        r.key      = i.first;
                        r.bytes    = i.second;
                        r.has_data = true;
                        ok         = true;
                        break;
                    }
                if (!ok)
                {
                    bool part = false;
                    for (auto& i : want)
                        if (i.second.compare(0, tap.size() - pos, tap, pos, std::string::npos) == 0 && tap.size() - pos < i.second.size()) part = true;
                    if (!part)
                        for (auto& i : want)
                        {
                            size_t k = 0;
                            while (k < i.second.size() && pos + k < tap.size() && i.second[k] == tap[pos + k])
                                ++k;
                            if (k > 8) ctx.sim.log("  as %s for %zu of %zu", i.first.c_str(), k, i.second.size());
                        }
                    if (!part) ctx.sim.log("after %zu of %zu: %s", pos, tap.size(), tap.substr(pos ? pos - 20 : 0, 100).c_str());
                    ctx.require(part, "wrong-output", what + " wrote bytes that were never stored");
                    cut = true;
                    break;
                }
                recs.push_back(r);
                pos += r.bytes.size();
                // VM2 data is sent as lines of text
                if (r.bytes.compare(0, 3, "VM2") != 0) continue;
                if (pos < tap.size() && tap[pos] == '\n') ++pos;
                else if (full || pos < tap.size())
                    ctx.fail("wrong-output", what + " wrote a line of text without its end");
            }
            if (full) ctx.require(!cut, "truncated-output", what + " succeeded, and its output is truncated");
            compare(ctx, what + " wrote", want, recs, true, full);
            if (full && c_clean && !c_threw) ctx.require(raw == tap, "wrong-data", "what was read is not what was written");
        }
        else if (full)
        {
            // Archive
            std::vector<Record> recs;
            std::string mdfile;
            struct archive* a = archive_read_new();
            archive_read_support_format_tar(a);
            archive_read_support_format_zip_streamable(a);
            int rc = archive_read_open_memory(a, tap.data(), tap.size());
            ctx.require(rc == ARCHIVE_OK, "wrong-output", what + " wrote something that is not an archive");
            struct archive_entry* e;
            std::map<std::string, std::string> files;
            while ((rc = archive_read_next_header(a, &e)) == ARCHIVE_OK)
            {
                std::string name = archive_entry_pathname(e), data;
                char buf[4096];
                ssize_t n;
                while ((n = archive_read_data(a, buf, sizeof(buf))) > 0)
                    data.append(buf, n);
                if (n < 0)
                {
                    rc = -1;
                    break;
                }
                files[name] = data;
            }
            bool ok = rc == ARCHIVE_EOF;
            std::string aerr = ok ? "" : archive_error_string(a) ? archive_error_string(a) : "?";
            archive_read_free(a);
            ctx.require(ok, "truncated-output", what + " succeeded, and its output is truncated: " + aerr);
            ctx.require(files.count("data/metadata.md"), "wrong-output", what + " wrote an archive without metadata");
            mdfile  = files["data/metadata.md"];
            Walk wk = walk(mdfile);
            ctx.require(wk.complete && files.size() == wk.recs.size() + 1, "wrong-output", what + " wrote an archive with " + std::to_string(files.size()) + " files and metadata for " + std::to_string(wk.recs.size()));
            files.erase("data/metadata.md");
            size_t i = 0;
            for (auto& f : files)
            {
                wk.recs[i].bytes    = f.second;
                wk.recs[i].has_data = true;
                ++i;
            }
            compare(ctx, what + " wrote", want, wk.recs, true, true);
        }
    }

    // Compare what was written with what is stored
    void compare(Ctx& ctx, const std::string& what, std::multimap<std::string, std::string> want, const std::vector<Record>& recs, bool with_data, bool all)
    {
        for (auto& r : recs)
        {
            auto e    = want.equal_range(r.key);
            auto best = want.end();
            for (auto i = e.first; i != e.second; ++i)
                if ((!with_data || i->second == r.bytes) && (r.value.empty() || i->second == r.value))
                {
                    best = i;
                    break;
                }
            if (best == want.end())
                for (auto& i : want)
                    ctx.sim.log("wanted %s %zu", i.first.c_str(), i.second.size());
            ctx.require(best != want.end(), "wrong-output", what + " something that was not asked for: " + r.key + (with_data ? " (" + std::to_string(r.bytes.size()) + " bytes)" : ""));
            want.erase(best);
        }
        if (all) ctx.require(want.empty(), "lost-output", what + " nothing about " + (want.empty() ? std::string() : want.begin()->first));
    }
} c17;

} // namespace sim
