// C16: queries over many datasets at the same time
#include "bag.h"
#include <algorithm>
#include <arki/types/source.h>
#include <arki/dataset/file.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/segmented.h>
#include <arki/dataset/time.h>
#include <arki/metadata.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/segment/session.h>
#include <arki/stream.h>

namespace sim {

namespace {

struct View
{
    std::map<unsigned, int> lo, hi;
};

// A source of data: a dataset or a file
struct Source
{
    DsConf conf;
    bool file = false;
    bool archived = false;
    bool mixed    = false; // online data may come before archived data
    bool coarse   = false; // summaries select data by segment
    std::map<unsigned, int> lo, hi;
};

struct CountProgress : public arki::query::Progress
{
    size_t starts = 0, dones = 0, updates = 0, total = 0, bytes_ = 0;
    void start(size_t c, size_t b) override
    {
        ++starts;
        Progress::start(c, b);
    }
    void update(size_t c, size_t b) override
    {
        ++updates;
        total += c;
        bytes_ += b;
        Progress::update(c, b);
    }
    void done() override
    {
        ++dones;
        Progress::done();
    }
};

struct StopHere : public std::runtime_error
{
    StopHere() : std::runtime_error("the consumer failed") {}
};

const char* sorts[] = {"", "reftime", "day:-reftime", "hour:-product", "day:product", "hour:product,reftime", "minute:-product", "day:-product,-reftime", "month:product", "month:-reftime", "year:-product,reftime", "-product", "product,-reftime"};

int period_of(const std::string& sort)
{
    if (sort.compare(0, 7, "minute:") == 0) return 5;
    if (sort.compare(0, 5, "hour:") == 0) return 4;
    if (sort.compare(0, 4, "day:") == 0) return 3;
    if (sort.compare(0, 6, "month:") == 0) return 2;
    if (sort.compare(0, 5, "year:") == 0) return 1;
    return 0;
}

// Expected position of an item in a sorted sequence
std::vector<long> sort_key(const std::string& sort, const Item& it)
{
    std::vector<long> r;
    long t[]   = {it.ye, it.mo, it.da, it.ho, it.mi};
    int period = period_of(sort);
    for (int i = 0; i < period; ++i)
        r.push_back(t[i]);
    std::string rest = period ? sort.substr(sort.find(':') + 1) : sort;
    long rt = 0;
    for (long v : {(long)it.ye, (long)it.mo, (long)it.da, (long)it.ho, (long)it.mi, (long)it.se})
        rt = rt * 100 + v;
    if (rest.empty()) rest = "reftime";
    while (!rest.empty())
    {
        size_t e      = rest.find(',');
        std::string f = rest.substr(0, e);
        rest          = e == std::string::npos ? std::string() : rest.substr(e + 1);
        bool rev      = f[0] == '-';
        if (rev) f = f.substr(1);
        long v = f == "reftime" ? rt : (long)(it.var % 190);
        r.push_back(rev ? -v : v);
    }
    return r;
}

} // namespace

struct C16 : public Check
{
    C16() : Check("C16") {}

    void gen(Rng& rng, Plan& p) override
    {
        unsigned n = 1 + rng.below(4);
        World::gen_ds(rng, p, n);
        World::gen_items(rng, p);
        p.set("it.unique", rng.chance(0.7));
        p.set("files", rng.chance(0.3) ? 1 + rng.below(2) : 0);
        for (unsigned i = 0; i < n; ++i)
            if (rng.chance(0.2)) p.set("ds" + std::to_string(i) + ".archive_age", 10);
        unsigned nf = p.num("files");
        bool faults = rng.chance(0.4);
        if (faults) swarm_faults(rng, p, {"open_eio", "open_emfile", "eintr_read", "eio_read", "short_read", "stat_eio", "readdir_eio", "lock_eintr", "thread_eagain", "spurious_wakeup"}, 40);
        unsigned id = 1;
        auto import = [&](Op op) {
            std::vector<unsigned> ids;
            for (unsigned k = 0, m = 1 + rng.below(rng.chance(0.2) ? 30 : 6); k < m; ++k)
                ids.push_back(id++);
            p.add(op.set("ids", ids_str(ids)));
        };
        for (unsigned i = 0; i < n; ++i)
            if (rng.chance(0.9)) import(Op("import").set("ds", i));
        for (unsigned i = 0; i < nf; ++i)
            import(Op("file").set("f", i));
        for (unsigned i = 0; i < n; ++i)
            if (p.num("ds" + std::to_string(i) + ".archive_age", -1) >= 0 && rng.chance(0.7))
            {
                p.add(Op("archive").set("ds", i));
                if (rng.chance(0.7)) import(Op("import").set("ds", i));
            }
        unsigned phases = 1 + rng.below(p.thorough ? 4 : 2);
        for (unsigned ph = 0; ph < phases; ++ph)
        {
            bool ff = faults && rng.chance(0.7);
            for (unsigned w = 0, procs = 1 + rng.below(2); w < procs; ++w)
                for (unsigned k = 0, m = 1 + rng.below(4); k < m; ++k)
                {
                    static const char* modes[] = {"data", "data", "data", "summary", "bytes", "nodata"};
                    Op op("query");
                    op.set("ph", ph).set("w", w).set("mode", modes[rng.below(6)]);
                    if (rng.chance(0.4)) op.set("m", gen_day_query(rng, p));
                    if (rng.chance(0.5)) op.set("sort", sorts[rng.below(rng.chance(0.1) ? 13 : 8)]);
                    if (rng.chance(0.25)) op.set("stop", rng.logu(20));
                    else if (rng.chance(0.2)) op.set("throw", rng.logu(20));
                    if (rng.chance(0.3)) op.set("slow", rng.logu(20000));
                    if (rng.chance(0.3)) op.set("progress", 1);
                    if (rng.chance(0.2)) op.set("one", rng.below(n + nf));
                    if (rng.chance(0.3)) op.set("fresh", 1);
                    if (rng.chance(0.4)) op.set("cfg", 1 + rng.below(2));
                    if (ff) op.set("faults", 1);
                    p.add(op);
                }
            if (rng.chance(0.5))
                for (unsigned k = 0, m = 1 + rng.below(3); k < m; ++k)
                    import(Op("import").set("ds", rng.below(n)).set("ph", ph).set("w", 10 + rng.below(2)));
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s    = ctx.sim;
        s.now0 = s.now = 1185926400LL * 1000000000LL + 10LL * 86400 * 1000000000LL + (ctx.plan.seed % 1000) * 1000003; // 2007-08-11
        std::vector<Source> src(w.ds.size() + ctx.plan.num("files"));
        for (size_t i = 0; i < w.ds.size(); ++i)
        {
            src[i].conf             = w.ds[i];
            src[i].conf.archive_age = -1;
            src[i].coarse           = w.ds[i].step != "daily" && (w.ds[i].type == "simple" || w.ds[i].archive_age >= 0);
        }
        std::map<std::string, Source*> by_name;
        auto item = [&](const Source& so, unsigned id) { return w.item(id, so.conf); };
        std::set<View*> active;
        // ids tell the source
        std::map<unsigned, Source*> owner;

        auto do_import = [&](const Op& op) {
            Source& so = src[op.num("ds")];
            auto items = w.items(op.str("ids"), so.conf);
            if (so.archived) so.mixed = true;
            bool uniq  = so.conf.type == "iseg";
            for (auto& i : items)
            {
                owner[i.id] = &so;
                so.hi[i.id] = 1;
                for (auto v : active)
                    v->hi[i.id] = 1;
            }
            ImportResult r = w.import(so.conf, items);
            ctx.require(r.done, "import-failed", "an import failed while queries were running: " + r.err);
            for (size_t i = 0; i < items.size(); ++i)
            {
                if (r.res[i] == (int)arki::metadata::Inbound::Result::OK) so.lo[items[i].id] = 1;
                else if (r.res[i] == (int)arki::metadata::Inbound::Result::DUPLICATE && uniq)
                    so.hi[items[i].id] = 0;
                else
                    ctx.fail("import-failed", "an import failed: " + r.err);
            }
        };

        auto write_file = [&](const Op& op) {
            Source& so = src[w.ds.size() + op.num("f")];
            so.file    = true;
            so.conf    = w.ds[op.num("f") % w.ds.size()];
            so.conf.dirseg = false;
            so.conf.name = "/sim/in/file" + std::to_string(op.num("f")) + "." + format_name(so.conf.format);
            auto items   = w.items(op.str("ids"), so.conf);
            if (so.conf.is_dir()) items.resize(1);
            std::string buf;
            for (auto& i : items)
            {
                buf += i.bytes() + (so.conf.format == arki::DataFormat::VM2 ? "\n" : "");
                so.lo[i.id] = so.hi[i.id] = 1;
                owner[i.id] = &so;
            }
            s.fs.put(so.conf.name, buf);
        };

        struct State
        {
            std::shared_ptr<arki::dataset::Reader> reader;
            long one = -2;
        };

        // Result of a query
        auto judge = [&](const Op& op, const View& v, const std::vector<Source*>& used, const std::vector<std::shared_ptr<arki::Metadata>>& mds, bool complete, bool with_data) {
            std::string m = op.str("m"), sort = op.str("sort");
            std::map<unsigned, int> got;
            std::vector<Item> items;
            std::map<Source*, std::pair<std::string, unsigned>> unsorted;
            // Intervals longer than a segment
            bool coarse = false;
            for (auto so : used)
            {
                if (so->file) continue;
                const std::string& st = so->conf.step;
                int have              = st == "yearly" ? 1 : st == "monthly" ? 2 : 3;
                if (period_of(sort) ? period_of(sort) < have : !sort.empty() && sort != "reftime") coarse = true;
            }
            std::map<std::string, std::vector<unsigned>> by_key;
            if (!with_data)
                for (auto& o : owner)
                    by_key[item(*o.second, o.first).key()].push_back(o.first);
            for (auto& md : mds)
            {
                Item it;
                if (with_data)
                {
                    std::string bytes;
                    try
                    {
                        bytes = data_of(*md);
                    }
                    catch (std::exception& e)
                    {
                        ctx.fail("unreadable", std::string("data returned by a query cannot be read: ") + e.what());
                    }
                    bool ok = parse_exact(md->source().format, bytes, it);
                    ctx.require(ok && owner.count(it.id), "wrong-data", "a query returned bytes that were never stored");
                    ctx.require(item(*owner[it.id], it.id).bytes() == bytes, "wrong-data", "item " + it.desc() + " has the wrong bytes");
                    arki::Metadata expected;
                    fill_metadata(it, expected);
                    ctx.require(md->items_equal(expected), "wrong-data", "item " + it.desc() + " is described by metadata that are not its own");
                }
                else
                {
                    // Tell by the metadata
                    bool found = false;
                    for (auto& o : owner)
                    {
                        if (std::find(used.begin(), used.end(), o.second) == used.end()) continue;
                        Item c = item(*o.second, o.first);
                        arki::Metadata expected;
                        fill_metadata(c, expected);
                        if (got[o.first] < 1 && v.hi.count(o.first) && v.hi.at(o.first) && md->items_equal(expected))
                        {
                            it    = c;
                            found = true;
                            // Prefer those that are certainly there
                            if (v.lo.count(o.first) && v.lo.at(o.first)) break;
                        }
                    }
                    ctx.require(found, "wrong-data", "a query returned metadata of something that is not there, or too many times");
                }
                items.push_back(it);
                ++got[it.id];
                ctx.require(match_day(m, it), "wrong-contents", "a query for '" + m + "' returned " + it.desc());
                ctx.require(std::find(used.begin(), used.end(), owner[it.id]) != used.end(), "wrong-contents", it.desc() + " comes from another dataset");
            }
            for (auto& g : got)
            {
                auto h = v.hi.find(g.first);
                ctx.require(g.second <= (h == v.hi.end() ? 0 : h->second), "wrong-contents", "item #" + std::to_string(g.first) + " was returned " + std::to_string(g.second) + " times");
            }
            if (complete)
                for (auto& l : v.lo)
                {
                    Source* so = owner[l.first];
                    if (std::find(used.begin(), used.end(), so) == used.end()) continue;
                    if (!match_day(m, item(*so, l.first))) continue;
                    ctx.require(got[l.first] >= l.second, "wrong-contents", "item " + item(*so, l.first).desc() + " was not returned by a query of " + std::to_string(used.size()) + " datasets");
                }
            // Files are in their own order
            bool files = false;
            for (auto so : used)
                files |= so->file || so->mixed;
            if ((op.args.count("sort") || used.size() > 1) && !files)
                for (size_t i = 1; i < items.size(); ++i)
                    ctx.require(sort_key(sort, items[i - 1]) <= sort_key(sort, items[i]), coarse ? "wrong-order-coarse" : "wrong-order",
                                "sorting by '" + sort + "' " + std::to_string(used.size()) + " datasets, " + items[i].desc() + " comes after " + items[i - 1].desc());
        };

        auto do_query = [&](const Op& op, State& st, Process* proc) {
            long one = op.num("one", -1);
            if (one >= 0 && src[one].conf.name.empty()) one = -1;
            std::vector<Source*> used;
            for (size_t i = 0; i < src.size(); ++i)
                if ((one < 0 || (long)i == one) && !src[i].conf.name.empty()) used.push_back(&src[i]);
            uint64_t nf   = s.nfaults;
            bool faults   = op.num("faults");
            std::string mode = op.str("mode");
            bool with_data   = mode != "nodata";
            View v;
            for (auto so : used)
            {
                v.lo.insert(so->lo.begin(), so->lo.end());
                v.hi.insert(so->hi.begin(), so->hi.end());
            }
            active.insert(&v);
            std::vector<std::shared_ptr<arki::Metadata>> mds;
            arki::Summary sum;
            std::string out;
            bool threw = false, retval = false, opened = false;
            std::string err;
            size_t n    = 0;
            size_t stop = op.num("stop"), thr = op.num("throw");
            bool stopped = false, thrown = false;
            auto progress = op.num("progress") ? std::make_shared<CountProgress>() : std::shared_ptr<CountProgress>();
            proc->faults = faults;
            try
            {
                if (!st.reader || st.one != one || op.num("fresh"))
                {
                    st.reader.reset();
                    auto session = std::make_shared<arki::dataset::Session>(false);
                    auto pool    = std::make_shared<arki::dataset::Pool>(session);
                    std::string name;
                    std::shared_ptr<arki::core::cfg::Sections> all;
                    if (op.num("cfg") == 1)
                    {
                        // Like arki-query --config
                        all = arki::dataset::Session::read_configs("/sim/config");
                        for (auto so : used)
                            if (!so->file) ctx.require(!!all->section(so->conf.name), "wrong-config", "the configuration of " + so->conf.name + " was not found in the configuration file");
                    }
                    for (auto so : used)
                    {
                        std::shared_ptr<arki::core::cfg::Section> cfg;
                        if (op.num("cfg") && so->file) cfg = arki::dataset::Session::read_config(arki::format_name(so->conf.format) + ":" + so->conf.name);
                        else if (so->file)
                            cfg = arki::dataset::file::read_config(so->conf.name, so->conf.format);
                        else if (all)
                            cfg = std::make_shared<arki::core::cfg::Section>(*all->section(so->conf.name));
                        else if (op.num("cfg") == 2)
                            cfg = arki::dataset::Session::read_config(so->conf.path());
                        else
                            cfg = so->conf.cfg();
                        pool->add_dataset(*cfg, false);
                        name = cfg->value("name");
                        if (so->conf.dirseg)
                            if (auto sd = std::dynamic_pointer_cast<arki::dataset::segmented::Dataset>(pool->dataset(so->conf.name)))
                                sd->segment_session->default_file_segment = arki::segment::DefaultFileSegment::SEGMENT_DIR;
                    }
                    if (one >= 0) st.reader = pool->dataset(name)->create_reader();
                    else
                        st.reader = std::make_shared<arki::dataset::merged::Dataset>(pool)->create_reader();
                    st.one = one;
                }
                opened       = true;
                auto matcher = st.reader->dataset().session->matcher(op.str("m"));
                if (mode == "summary") st.reader->query_summary(matcher, sum);
                else if (mode == "bytes")
                {
                    arki::query::Bytes bq;
                    bq.setData(matcher);
                    if (op.args.count("sort")) bq.sorter = arki::metadata::sort::Compare::parse(op.str("sort"));
                    bq.progress = progress;
                    std::vector<uint8_t> buf;
                    auto so = arki::StreamOutput::create(buf);
                    st.reader->query_bytes(bq, *so);
                    out.assign(buf.begin(), buf.end());
                }
                else
                {
                    arki::query::Data dq(matcher, with_data);
                    if (op.args.count("sort")) dq.sorter = arki::metadata::sort::Compare::parse(op.str("sort"));
                    dq.progress = progress;
                    retval      = st.reader->query_data(dq, [&](std::shared_ptr<arki::Metadata> md) {
                        ctx.require(!stopped && !thrown, "not-stopped", std::string("data was sent to a consumer after it ") + (stopped ? "asked to stop" : "failed"));
                        ++n;
                        mds.push_back(md);
                        if (op.num("slow")) s.sleep_until(s.now + (ns_t)op.num("slow") * 1000);
                        if (n == thr)
                        {
                            thrown = true;
                            throw StopHere();
                        }
                        if (n == stop)
                        {
                            stopped = true;
                            return false;
                        }
                        return true;
                    });
                }
            }
            catch (Fail&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                threw = true;
                err   = e.what();
            }
            active.erase(&v);
            proc->faults = false;
            if (threw && !opened) st.reader.reset();
            bool clean = (uint64_t)s.nfaults == nf || !faults;
            ctx.require(proc->umask_ == 022, "wrong-umask", "a query left the process with another umask");
            if (threw)
            {
                if (thrown && clean) ctx.require(err == StopHere().what(), "wrong-error", "the consumer of a query failed, and the query reported: " + err);
                else
                    ctx.require(!clean || thrown, "query-failed", "a query of " + std::to_string(used.size()) + " datasets failed: " + err + (stopped ? ", after its consumer asked to stop" : ""));
                return;
            }
            ctx.require(!thrown, "wrong-error", "the consumer of a query failed, and the query did not");
            if (mode == "summary")
            {
                unsigned long long lo = 0, hi = 0;
                for (auto& i : v.lo)
                    if (match_day(op.str("m"), item(*owner[i.first], i.first))) lo += i.second;
                for (auto& i : v.hi)
                    if (match_day(op.str("m"), item(*owner[i.first], i.first)) || owner[i.first]->coarse) hi += i.second;
                ctx.require(sum.count() >= lo && sum.count() <= hi, "wrong-summary", "a summary of " + std::to_string(used.size()) + " datasets counted " + std::to_string(sum.count()) + " items instead of " + std::to_string(lo) + ".." + std::to_string(hi));
                return;
            }
            if (mode == "bytes")
            {
                // One dataset after the other
                std::map<unsigned, int> got;
                size_t pos = 0;
                while (pos < out.size())
                {
                    bool ok = false;
                    for (auto so : used)
                    {
                        Item it;
                        long len = parse_item(so->conf.format, out.data() + pos, out.size() - pos, it);
                        if (len <= 0 || !owner.count(it.id) || item(*owner[it.id], it.id).bytes() != out.substr(pos, len)) continue;
                        ok = true;
                        ++got[it.id];
                        ctx.require(match_day(op.str("m"), it), "wrong-contents", "a query for '" + op.str("m") + "' sent " + it.desc());
                        pos += len;
                        if (so->conf.format == arki::DataFormat::VM2)
                        {
                            ctx.require(pos < out.size() && out[pos] == '\n', "wrong-data", "item " + it.desc() + " was sent without its end of line");
                            ++pos;
                        }
                        break;
                    }
                    ctx.require(ok, "wrong-data", "a query sent bytes that were never stored");
                }
                for (auto& i : v.lo)
                    if (match_day(op.str("m"), item(*owner[i.first], i.first)))
                        ctx.require(got[i.first] >= i.second, "wrong-contents", "item " + item(*owner[i.first], i.first).desc() + " was not sent");
                for (auto& g : got)
                    ctx.require(v.hi.count(g.first) && g.second <= v.hi[g.first], "wrong-contents", "item #" + std::to_string(g.first) + " was sent " + std::to_string(g.second) + " times");
            }
            else
            {
                ctx.require(retval == !stopped, "wrong-result", std::string("a query of ") + std::to_string(used.size()) + " datasets whose consumer " + (stopped ? "asked to stop" : "did not ask to stop") + " returned " + (retval ? "true" : "false"));
                judge(op, v, used, mds, !stopped, with_data);
                if (progress) ctx.require(progress->total == n && progress->starts == 1, "wrong-progress", "progress was started " + std::to_string(progress->starts) + " times, and told of " + std::to_string(progress->total) + " items instead of " + std::to_string(n));
            }
            if (progress && !stopped) ctx.require(progress->dones == 1, "wrong-progress", "a query that completed signalled it " + std::to_string(progress->dones) + " times");
        };

        // Configuration files
        arki::core::cfg::Sections sections;
        for (auto& d : w.ds)
        {
            DsConf c      = d;
            c.archive_age = -1;
            sections.emplace(c.name, c.cfg());
            s.fs.mkdirs(c.path());
            s.fs.put(c.path() + "/config", c.cfg()->to_string());
        }
        s.fs.put("/sim/config", sections.to_string());

        std::vector<long> phases;
        for (auto& op : ctx.plan.ops)
        {
            if (op.args.count("ph"))
            {
                if (std::find(phases.begin(), phases.end(), op.num("ph")) == phases.end()) phases.push_back(op.num("ph"));
                continue;
            }
            ctx.begin(op);
            s.now += 1000000000;
            if (op.name == "import") w.solo("import", [&] { do_import(op); });
            else if (op.name == "file")
                write_file(op);
            else if (op.name == "archive")
            {
                CheckResult r;
                w.solo("archive", [&] {
                    auto conf = src[op.num("ds")].conf;
                    conf.archive_age = ctx.plan.num("ds" + op.str("ds") + ".archive_age");
                    r = w.repack(conf, CheckOpts());
                });
                src[op.num("ds")].archived = true;
                ctx.require(!r.threw, "archive-failed", "repack failed: " + r.err);
            }
        }
        for (auto ph : phases)
        {
            s.set_scope("ph" + std::to_string(ph) + ".");
            s.now += 2000000000;
            std::map<long, std::vector<const Op*>> procs;
            bool faults = false;
            for (auto& op : ctx.plan.ops)
            {
                if (!op.args.count("ph") || op.num("ph") != ph) continue;
                s.log("OP %s", op.to_string().c_str());
                procs[op.num("w")].push_back(&op);
                if (op.num("faults")) faults = true;
            }
            if (faults) ctx.faults_on();
            std::vector<Process*> running;
            for (auto& p : procs)
            {
                auto ops      = p.second;
                auto self     = std::make_shared<Process*>();
                Process* proc = s.spawn((p.first >= 10 ? "import" : "query") + std::to_string(p.first), [&, ops, self] {
                    State st;
                    for (auto op : ops)
                        if (op->name == "import") do_import(*op);
                        else
                            do_query(*op, st, *self);
                });
                *self = proc;
                running.push_back(proc);
            }
            w.run_all("queries");
            ctx.faults_off();
            for (auto r : running)
                if (r->has_error) ctx.fail("exception", "unexpected exception: " + r->error);
            ctx.nontrivial = true;
            for (auto& i : s.fs.live.inodes)
                if (i.second.isreg() && i.second.nlink > 0) ctx.require((i.second.mode & 0444) == 0444, "wrong-permissions", "a file was created with permissions that do not honour the umask");
            ctx.state(s.fs.hash("/sim/ds"));
        }
    }
} c16;

} // namespace sim
