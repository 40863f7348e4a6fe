#include "world.h"
#include <arki/core/file.h>
#include <arki/core/time.h>
#include <arki/data.h>
#include <arki/dataset/segmented.h>
#include <arki/dataset/step.h>
#include <arki/exceptions.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/query.h>
#include <arki/segment/session.h>
#include <arki/stream.h>
#include <arki/types/source/blob.h>
#include <arki/utils/sys.h>

using namespace arki;

namespace sim {

std::string md_key(const Metadata& md)
{
    std::string r;
    for (auto c : {TYPE_REFTIME, TYPE_PRODUCT, TYPE_ORIGIN})
    {
        auto t = md.get(c);
        r += t ? t->to_string() + " " : "- ";
    }
    return r;
}

std::string ids_str(const std::vector<unsigned>& ids)
{
    std::string r;
    for (auto i : ids)
    {
        if (!r.empty()) r += ",";
        r += std::to_string(i);
    }
    return r;
}

std::vector<unsigned> parse_ids(const std::string& s)
{
    std::vector<unsigned> r;
    size_t pos = 0;
    while (pos < s.size())
    {
        size_t e = s.find(',', pos);
        if (e == std::string::npos) e = s.size();
        r.push_back(std::stoul(s.substr(pos, e - pos)));
        pos = e + 1;
    }
    return r;
}

Bag bag_of(const QueryResult& r)
{
    Bag b;
    for (auto& g : r.got)
        ++b[g.item.id];
    return b;
}

std::string bag_str(const Bag& b)
{
    std::string r = "{";
    for (auto& i : b)
    {
        if (!i.second) continue;
        if (r.size() > 1) r += ",";
        r += std::to_string(i.first);
        if (i.second > 1) r += "x" + std::to_string(i.second);
    }
    return r + "}";
}

bool DsConf::is_dir() const
{
    return dirseg || format == DataFormat::ODIMH5 || format == DataFormat::NETCDF || format == DataFormat::JPEG;
}

std::shared_ptr<core::cfg::Section> DsConf::cfg() const
{
    auto c = std::make_shared<core::cfg::Section>();
    c->set("name", name);
    c->set("path", path());
    c->set("type", type);
    c->set("step", step);
    if (type == "iseg")
    {
        c->set("format", format_name(format));
        c->set("index", "reftime, origin, product");
        if (unique) c->set("unique", "reftime, origin, product");
    }
    if (archive_age >= 0) c->set("archive age", std::to_string(archive_age));
    if (delete_age >= 0) c->set("delete age", std::to_string(delete_age));
    if (smallfiles) c->set("smallfiles", "yes");
    if (!replace.empty()) c->set("replace", replace);
    if (eatmydata) c->set("eatmydata", "yes");
    if (gz_group >= 0) c->set("gz group size", std::to_string(gz_group));
    return c;
}

std::string DsConf::segment_of(const Item& it) const
{
    auto s = dataset::Step::create(step);
    return (*s)(it.time()).native() + "." + format_name(format);
}

unsigned Report::count(const std::string& kind) const
{
    unsigned r = 0;
    for (auto& l : lines)
        if (l.kind == kind) ++r;
    return r;
}

unsigned Report::actions() const
{
    unsigned r = 0;
    for (auto& l : lines)
        if (l.kind != "operation_report" && l.kind != "operation_progress" && l.kind != "segment_info") ++r;
    return r;
}

std::string Report::to_string() const
{
    std::string r;
    for (auto& l : lines)
        r += "[" + l.kind + " " + l.ds + ":" + l.path + ": " + l.msg + "]";
    return r;
}

World::World(Ctx& ctx) : ctx(ctx)
{
    Plan& p     = ctx.plan;
    days        = p.num("it.days", 3);
    vars        = p.num("it.vars", 4);
    maxlen      = p.num("it.maxlen", 300);
    unique_keys = p.num("it.unique", 1);
    months      = p.num("it.months", 1);
    group       = p.num("it.group", 0);
    base        = p.num("it.base", 0);
    edge        = p.num("it.edge", 0);
    unsigned n  = p.num("ds.n", 1);
    for (unsigned i = 0; i < n; ++i)
    {
        std::string k = "ds" + std::to_string(i) + ".";
        DsConf d;
        d.name        = "ds" + std::to_string(i);
        d.type        = p.str(k + "type", "simple");
        d.format      = format_from_string(p.str(k + "format", "grib"));
        d.step        = p.str(k + "step", "daily");
        d.dirseg      = p.num(k + "dir", 0);
        d.archive_age = p.num(k + "archive_age", -1);
        d.delete_age  = p.num(k + "delete_age", -1);
        d.smallfiles  = p.num(k + "smallfiles", 0);
        d.replace     = p.str(k + "replace", "");
        d.unique      = p.num(k + "unique", 0);
        d.eatmydata   = p.num(k + "eatmydata", 0);
        d.gz_group    = p.num(k + "gz_group", -1);
        ds.push_back(d);
    }
    Sim& s        = ctx.sim;
    s.now0 = s.now = 1199145600LL * 1000000000LL + (p.seed % 1000) * 1000003; // 2008-01-01
    s.fs.ino_reuse = p.num("ino_reuse", 1);
    s.fs.dirseed   = p.num("dirseed", 0);
    s.fs.da_alloc  = p.num("da_alloc", 1);
    s.p_preempt    = p.num("preempt", 100) / 1000.0;
    s.fs.mkdirs("/sim/cwd");
    s.fs.mkdirs("/sim/tmp");
    s.fs.mkdirs("/sim/in");
    for (auto& d : ds)
        s.fs.mkdirs(d.path());
    s.fs.make_durable();
}

Item World::item(unsigned id, const DsConf& d) const
{
    Rng r(ctx.plan.seed * 31 + id * 104729 + 5);
    Item it;
    it.id     = id;
    it.format = d.format;
    long day  = base + r.below(days);
    day += r.below(months) * 31;
    date_of(day, it.ye, it.mo, it.da);
    if (unique_keys)
    {
        it.ho  = r.below(24);
        it.mi  = id % 60;
        it.se  = id / 60 % 60;
        // First and last second of days and hours
        unsigned j = edge ? id / edge : 0;
        if (edge && id % edge == 0 && j < 48)
        {
            it.ho = j % 2 ? 23 - j / 2 : j / 2 - 1;
            it.mi = it.se = j % 2 ? 59 : 0;
        }
        // Data with the same metadata ends up in the same row of summaries
        it.var = group ? id % group : id;
    }
    else
    {
        it.ho  = r.below(2) * 12;
        it.var = r.below(vars);
    }
    it.len = r.chance(0.3) ? r.below(maxlen + 1) : r.below(200);
    it.usn = r.below(4);
    if (ctx.plan.num("it.nousn") && id % 5 == 0) it.usn = -1;
    // Sizes around those of blocks
    if (r.chance(0.12)) it.len = 512 * (1 + r.below(3)) + (r.chance(0.6) ? 0 : (int)r.below(3) - 1);
    return it;
}

std::vector<Item> World::items(const std::string& ids, const DsConf& d) const
{
    std::vector<Item> res;
    for (auto i : parse_ids(ids))
        res.push_back(item(i, d));
    return res;
}

std::shared_ptr<dataset::Session> World::session() { return std::make_shared<dataset::Session>(false); }

std::shared_ptr<dataset::Dataset> World::open(const DsConf& d)
{
    auto s   = session();
    auto res = s->dataset(*d.cfg());
    if (d.dirseg)
        if (auto sd = std::dynamic_pointer_cast<dataset::segmented::Dataset>(res))
            sd->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
    return res;
}

ImportResult World::import(const DsConf& d, const std::vector<Item>& items, ReplaceStrategy rs, bool drop_cached)
{
    ImportResult res;
    metadata::InboundBatch batch;
    for (auto& i : items)
        batch.add(i.md());
    try
    {
        {
            auto dset   = open(d);
            auto writer = dset->create_writer();
            dataset::AcquireConfig ac(rs);
            ac.drop_cached_data_on_commit = drop_cached;
            writer->acquire_batch(batch, ac);
            writer->flush();
        }
        res.done = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
    for (auto& e : batch)
    {
        res.res.push_back((int)e->result);
        if (e->result != metadata::Inbound::Result::OK && res.err.empty())
        {
            // Tell why
            auto notes = e->md->notes();
            for (auto i = notes.first; i != notes.second; ++i)
                res.err = (*i)->to_string();
        }
    }
    return res;
}

void World::query(const DsConf& d, const std::string& q, QueryResult& res, bool with_data, std::function<bool(size_t)> on_item)
{
    query_dataset([&] { return open(d); }, d, q, res, with_data, on_item);
}

// Like arki-query PATH: datasets and archives describe themselves
void World::query_path(const std::string& path, const DsConf& d, const std::string& q, QueryResult& res)
{
    query_dataset(
        [&] {
            auto s   = session();
            auto cfg = s->read_config(path);
            if (cfg->value("path") != path) throw std::runtime_error("the configuration of " + path + " has path " + cfg->value("path"));
            return s->dataset(*cfg);
        },
        d, q, res, true, nullptr);
}

void World::query_dataset(std::function<std::shared_ptr<dataset::Dataset>()> open, const DsConf& d, const std::string& q, QueryResult& res, bool with_data, std::function<bool(size_t)> on_item)
{
    try
    {
        auto dset   = open();
        auto reader = dset->create_reader();
        query::Data dq(dset->session->matcher(q), with_data);
        std::vector<std::shared_ptr<Metadata>> mds;
        res.retval = reader->query_data(dq, [&](std::shared_ptr<Metadata> md) {
            Got g;
            g.mdkey = md_key(*md);
            if (const auto* blob = md->has_source_blob())
            {
                size_t a = blob->basedir.native().find("/.archive/");
                g.arch   = a != std::string::npos;
                if (g.arch) g.archive = blob->basedir.native().substr(a + 10);
                g.file = blob->filename.native();
            }
            if (with_data)
            {
                try
                {
                    g.bytes   = data_of(*md);
                    g.read_ok = true;
                }
                catch (std::exception& e)
                {
                    g.error = e.what();
                }
                if (g.read_ok)
                {
                    g.valid = parse_exact(d.format, g.bytes, g.item);
                    if (g.valid)
                    {
                        Metadata expected;
                        fill_metadata(g.item, expected);
                        if (d.format == DataFormat::VM2)
                        {
                            // the value is kept only where it is configured
                            g.meta_ok = md->items_equal(expected);
                        }
                        else
                            g.meta_ok = md->items_equal(expected);
                        g.valid = g.item.bytes() == g.bytes;
                    }
                }
            }
            res.got.push_back(g);
            md.reset();
            if (on_item) return on_item(res.got.size());
            return true;
        });
        res.done = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
}

SummaryResult World::summary(const DsConf& d, const std::string& q)
{
    SummaryResult res;
    try
    {
        auto dset   = open(d);
        auto reader = dset->create_reader();
        Summary s;
        reader->query_summary(dset->session->matcher(q), s);
        res.count    = s.count();
        res.size     = s.size();
        if (res.count) res.interval = s.get_reference_time();
        res.yaml     = s.to_yaml();
        res.done     = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
    return res;
}

std::string World::bytes(const DsConf& d, const std::string& q)
{
    auto dset   = open(d);
    auto reader = dset->create_reader();
    query::Bytes bq;
    bq.setData(dset->session->matcher(q));
    std::vector<uint8_t> out;
    auto so = StreamOutput::create(out);
    reader->query_bytes(bq, *so);
    return std::string(out.begin(), out.end());
}

static dataset::CheckerConfig checker_config(dataset::Dataset& d, std::shared_ptr<dataset::Reporter> rep, const CheckOpts& o)
{
    dataset::CheckerConfig c(rep, o.readonly);
    c.accurate = o.accurate;
    c.online   = o.online;
    c.offline  = o.offline;
    if (!o.filter.empty()) c.segment_filter = d.session->matcher(o.filter);
    return c;
}

CheckResult World::checker_op(const DsConf& d, const CheckOpts& o, const std::string& what)
{
    CheckResult res;
    auto rep = std::make_shared<Report>();
    try
    {
        auto dset    = open(d);
        auto checker = dset->create_checker();
        auto cc      = checker_config(*dset, rep, o);
        if (what == "check") checker->check(cc);
        else if (what == "repack") checker->repack(cc);
        else if (what == "remove_old") checker->remove_old(cc);
        else if (what == "remove_all") checker->remove_all(cc);
        else if (what == "tar") checker->tar(cc);
        else if (what == "zip") checker->zip(cc);
        else if (what == "compress") checker->compress(cc, d.gz_group >= 0 ? d.gz_group : 512);
        else if (what == "state") checker->state(cc);
        else if (what == "issue51") checker->check_issue51(cc);
        else
            throw std::logic_error("unknown operation " + what);
        res.done = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
    res.rep = *rep;
    return res;
}

CheckResult World::unarchive(const DsConf& d, const std::string& relpath)
{
    CheckResult res;
    try
    {
        auto dset    = open(d);
        auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(dset->create_checker());
        auto segment = checker->dataset().segment_session->segment_from_relpath(relpath);
        checker->segment(segment)->unarchive();
        res.done = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
    return res;
}

CheckResult World::remove(const DsConf& d, const std::set<unsigned>& ids)
{
    CheckResult res;
    try
    {
        auto dset = open(d);
        metadata::Collection mds;
        {
            auto reader = dset->create_reader();
            query::Data dq(dset->session->matcher(""), true);
            reader->query_data(dq, [&](std::shared_ptr<Metadata> md) {
                Item it;
                if (!parse_exact(d.format, data_of(*md), it)) return true;
                if (!ids.count(it.id)) return true;
                if (md->sourceBlob().basedir.native().find("/.archive") != std::string::npos) return true;
                // As read from a file
                const auto& b = md->sourceBlob();
                auto m1       = md->clone();
                m1->set_source(types::Source::createBlobUnlocked(b.format, b.basedir, b.filename, b.offset, b.size));
                mds.acquire(m1);
                return true;
            });
        }
        if (mds.empty())
        {
            res.done = true;
            return res;
        }
        auto checker = dset->create_checker();
        checker->remove(mds);
        res.done = true;
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.err   = e.what();
    }
    return res;
}

static bool match_clause(const std::string& c, const Item& it)
{
    if (c[0] == '%')
    {
        long n = atol(c.c_str() + 1), u = c.back() == 'h' ? 3600 : c.back() == 'm' ? 60 : 1;
        return (it.ho * 3600 + it.mi * 60 + it.se) % (n * u) == 0;
    }
    // Compare only what is specified
    size_t e       = c.find_first_not_of("<>=");
    std::string op = c.substr(0, e), rest = c.substr(e);
    int v[6], n = 0, mine[] = {it.ye, it.mo, it.da, it.ho, it.mi, it.se};
    const int* m = mine;
    if (rest.size() >= 4 && rest[2] != ':')
        n = sscanf(rest.c_str(), "%d-%d-%d %d:%d:%d", v, v + 1, v + 2, v + 3, v + 4, v + 5);
    else
    {
        n = sscanf(rest.c_str(), "%d:%d:%d", v, v + 1, v + 2);
        m += 3;
    }
    int cmp = 0;
    for (int i = 0; i < n && !cmp; ++i)
        cmp = m[i] < v[i] ? -1 : m[i] > v[i];
    if (op == ">=") return cmp >= 0;
    if (op == "<=") return cmp <= 0;
    if (op == "<") return cmp < 0;
    if (op == ">") return cmp > 0;
    return cmp == 0;
}

bool match_day(const std::string& m, const Item& it)
{
    if (m.empty()) return true;
    std::string rest = m.substr(8);
    while (true)
    {
        size_t o        = rest.find(" or ");
        std::string alt = rest.substr(0, o);
        bool ok         = true;
        while (ok && !alt.empty())
        {
            size_t e = alt.find(',');
            ok       = match_clause(alt.substr(0, e), it);
            alt      = e == std::string::npos ? std::string() : alt.substr(e + 1);
        }
        if (ok) return true;
        if (o == std::string::npos) return false;
        rest = rest.substr(o + 4);
    }
}

// Day counted from 2007-07-01
void date_of(long n, int& ye, int& mo, int& da)
{
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    ye = 2007, mo = 7, da = 1;
    auto days = [&] { return len[mo - 1] + (mo == 2 && ye % 4 == 0); };
    for (; n < 0; ++n)
        if (--da == 0)
        {
            if (--mo == 0) mo = 12, --ye;
            da = days();
        }
    for (; n > 0; --n)
        if (++da > days())
        {
            da = 1;
            if (++mo == 13) mo = 1, ++ye;
        }
}

static std::string gen_clause(Rng& rng, const Plan& p, bool rich)
{
    static const char* cmp[] = {">=", "<=", "=", "<", ">"};
    static const char* step[] = {"%1h", "%6h", "%1m", "%2m", "%30m", "%30s", "%5s"};
    unsigned days = p.num("it.days", 3), months = p.num("it.months", 1);
    if (rich && rng.chance(0.15)) return step[rng.below(7)];
    char buf[64];
    std::string r = cmp[rng.below(5)];
    if (rich && rng.chance(0.2))
    {
        snprintf(buf, sizeof(buf), "%02d:00", (int)rng.below(24));
        return r + std::string(buf, rng.chance(0.6) ? 2 : 5);
    }
    long day = p.num("it.base") + rng.below(months) * 31;
    day += rng.below(days);
    int ye, mo, da;
    date_of(day, ye, mo, da);
    snprintf(buf, sizeof(buf), "%04d-%02d-%02d %02d:00", ye, mo, da, (int)rng.below(24));
    static const int len[] = {4, 7, 10, 10, 13, 13, 16};
    return r + std::string(buf, rich ? len[rng.below(7)] : 10);
}

std::string gen_day_query(Rng& rng, const Plan& p)
{
    bool rich     = rng.chance(0.4);
    std::string r = "reftime:";
    unsigned n = 0, alt = 0;
    do
    {
        if (alt) r += " or ";
        n = 0;
        do
            r += (n ? "," : "") + gen_clause(rng, p, rich);
        while (!n++ && rng.chance(0.3));
    } while (rich && !alt++ && rng.chance(0.3));
    return r;
}

void World::gen_base(Rng& rng, Plan& plan)
{
    // The end of a month, of a year, of february
    static const long base[] = {-1, -2, 182, 183, 240, 241};
    if (rng.chance(0.4)) plan.set("it.base", base[rng.below(6)]);
    if (rng.chance(0.5)) plan.set("it.group", 1 + rng.below(4));
    if (rng.chance(0.25)) plan.set("it.months", 2 + rng.below(rng.chance(0.3) ? 14 : 3));
}

CheckResult World::check(const DsConf& d, const CheckOpts& o) { return checker_op(d, o, "check"); }
CheckResult World::repack(const DsConf& d, const CheckOpts& o) { return checker_op(d, o, "repack"); }

bool World::solo(const std::string& name, std::function<void()> fn, bool faults, int crash_in, int crash_kind)
{
    Process* p    = ctx.sim.spawn(name, fn);
    p->faults     = faults;
    p->crash_in   = crash_in;
    p->crash_kind = crash_kind;
    run_all(name.c_str());
    if (p->has_error) ctx.fail("exception", name + " failed with an unexpected exception: " + p->error);
    return !p->killed;
}

void World::run_all(const char* what)
{
    auto r = ctx.sim.run();
    if (ctx.sim.failed)
    {
        Fail f = *ctx.sim.failed;
        ctx.sim.reap();
        throw f;
    }
    if (r == Sim::DEADLOCK)
    {
        std::string rep = ctx.sim.blocked_report();
        ctx.sim.reap();
        ctx.fail("deadlock", std::string(what) + ": no process can make progress: " + rep);
    }
    if (r == Sim::LIMIT)
    {
        std::string rep = ctx.sim.blocked_report();
        ctx.sim.reap();
        ctx.fail("livelock", std::string(what) + ": no end in sight after " + std::to_string(ctx.sim.steps) + " system calls: " + rep);
    }
}

void World::gen_ds(Rng& rng, Plan& plan, unsigned n, const std::string& opts)
{
    plan.set("ds.n", n);
    auto has = [&](const char* o) { return opts.find(o) != std::string::npos; };
    for (unsigned i = 0; i < n; ++i)
    {
        std::string k    = "ds" + std::to_string(i) + ".";
        std::string type = rng.chance(0.5) ? "simple" : "iseg";
        if (has("+simple")) type = "simple";
        if (has("+iseg")) type = "iseg";
        plan.set(k + "type", type);
        static const char* formats[] = {"grib", "bufr", "vm2", "odimh5", "netcdf", "jpeg"};
        // file segments half of the times
        const char* f = rng.chance(0.55) ? formats[rng.below(2)] : formats[2 + rng.below(4)];
        if (has("+bufr")) f = "bufr";
        if (has("+grib")) f = "grib";
        if (has("+dirfmt")) f = formats[3 + rng.below(3)];
        plan.set(k + "format", f);
        static const char* steps[] = {"daily", "monthly", "yearly", "weekly", "biweekly"};
        // iseg cannot list its segments with the other steps
        plan.set(k + "step", has("+calstep") ? steps[rng.chance(0.7) ? 0 : 1 + rng.below(2)] : rng.chance(0.6) ? "daily" : steps[rng.below(type == "iseg" ? 3 : 5)]);
        if (rng.chance(0.15) && (f == formats[0] || f == formats[1])) plan.set(k + "dir", 1);
        if (rng.chance(0.2)) plan.set(k + "smallfiles", 1);
        if (rng.chance(0.5)) plan.set(k + "gz_group", rng.chance(0.3) ? 0 : rng.logu(8));
        if (type == "iseg" && !has("+nounique") && rng.chance(0.5)) plan.set(k + "unique", 1);
    }
    plan.set("ino_reuse", rng.chance(0.7));
    plan.set("dirseed", rng.below(1000));
    plan.set("da_alloc", rng.chance(0.5));
    static const long pre[] = {10, 50, 150, 400};
    plan.set("preempt", pre[rng.below(4)]);
}

void World::gen_items(Rng& rng, Plan& plan)
{
    plan.set("it.days", 1 + rng.below(4));
    plan.set("it.months", rng.chance(0.3) ? 2 : 1);
    plan.set("it.vars", 1 + rng.below(6));
    if (rng.chance(0.3)) plan.set("it.edge", 1 + rng.below(5));
    plan.set("it.maxlen", rng.chance(0.15) ? 40000 : rng.chance(0.4) ? 5000 : 300);
}

} // namespace sim
