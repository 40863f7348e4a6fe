// C13: dispatched data ends up where it is reported to be, exactly once
#include "bag.h"
#include "hist.h"
#include <algorithm>
#include <arki/dataset/file.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/segmented.h>
#include <arki/dispatcher.h>
#include <arki/metadata.h>
#include <arki/metadata/validator.h>
#include <arki/query.h>
#include <arki/python/arki-scan/dispatch.h>
#include <arki/python/cmdline/processor.h>
#include <arki/segment/session.h>

using arki::metadata::Inbound;

namespace sim {

namespace {

struct Dest
{
    DsConf conf;
    std::string filter;
    BagModel model;
    bool unique = false;
};

struct NullProcessor : public arki::python::cmdline::DatasetProcessor
{
    size_t count = 0;
    void process(arki::dataset::Reader& ds, const std::string& name) override
    {
        ds.query_data(arki::query::Data(arki::Matcher(), false), [&](std::shared_ptr<arki::Metadata>) {
            ++count;
            return true;
        });
    }
};

// Split a sequence of items; false if there is anything else in it
bool split_items(arki::DataFormat format, const std::string& buf, std::vector<Item>& out, bool newline)
{
    size_t pos = 0;
    while (pos < buf.size())
    {
        Item it;
        long n = parse_item(format, buf.data() + pos, buf.size() - pos, it);
        if (n <= 0) return false;
        if (it.bytes() != buf.substr(pos, n)) return false;
        out.push_back(it);
        pos += n;
        if (newline)
        {
            if (pos >= buf.size() || buf[pos] != '\n') return false;
            ++pos;
        }
    }
    return true;
}

} // namespace

struct C13 : public Check
{
    C13() : Check("C13") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        unsigned n = 1 + rng.below(3);
        p.set("targets", n);
        for (unsigned i = 0; i < n; ++i)
        {
            std::string k = "t" + std::to_string(i) + ".";
            p.set(k + "type", rng.chance(0.6) ? "iseg" : "simple");
            p.set(k + "step", rng.chance(0.7) ? "daily" : "monthly");
            p.set(k + "unique", rng.chance(0.5));
        }
        if (rng.chance(0.4)) p.set("outbound", 1);
        if (rng.chance(0.25))
        {
            p.set("validate", rng.chance(0.8) ? 1 : 2 + rng.below(2));
            p.set("clockday", (long)rng.below(14) - 2);
        }
        p.set("it.unique", rng.chance(0.5));
        p.set("it.vars", n + 3);
        bool faults = rng.chance(0.4), kills = !faults && rng.chance(0.3);
        if (faults)
            swarm_faults(rng, p, {"open_eio", "open_emfile", "eintr_read", "eio_read", "short_read", "eintr_write", "eio_write", "short_write", "stat_eio", "mkdir_eio", "rename_eio", "fsync_eio", "utimens_eio", "lock_eintr", "readdir_eio", "close_eio", "enospc"}, 60);
        unsigned id = 1, phases = 1 + rng.below(p.thorough ? 5 : 3);
        for (unsigned ph = 0; ph < phases; ++ph)
        {
            unsigned procs = rng.chance(0.5) ? 1 : 2 + rng.below(2);
            // Only one of the datasets has problems
            std::string broken;
            if (faults && rng.chance(0.5)) broken = rng.chance(0.4) ? "duplicates" : "target" + std::to_string(rng.below(n));
            for (unsigned w = 0; w < procs; ++w)
            {
                unsigned files = 1 + rng.below(3);
                for (unsigned f = 0; f < files; ++f)
                {
                    std::vector<unsigned> ids;
                    for (unsigned k = 0, m = 1 + rng.below(6); k < m; ++k)
                    {
                        unsigned i = id > 1 && rng.chance(0.15) ? 1 + rng.below(id - 1) : id++;
                        if (std::find(ids.begin(), ids.end(), i) == ids.end()) ids.push_back(i);
                    }
                    Op op(rng.chance(0.5) ? "batch" : "scan");
                    op.set("ph", ph).set("w", w).set("ids", ids_str(ids));
                    if (op.name == "scan")
                    {
                        if (rng.chance(0.7)) op.set("copy", 1);
                        if (rng.chance(0.5)) op.set("flush", rng.logu(2000));
                        if (rng.chance(0.15)) op.set("trunc", 1 + rng.below(60));
                    }
                    if (rng.chance(0.2)) op.set("drop", 1);
                    if (faults && rng.chance(0.6)) op.set("faults", 1);
                    if (!broken.empty()) op.set("broken", broken);
                    if (kills && rng.chance(0.3)) op.set("crash", 1).set("at", rng.logu(80));
                    p.add(op);
                }
            }
            if (rng.chance(0.2))
            {
                Op op("test");
                op.set("ph", ph).set("idle", 1).set("ids", ids_str({id, id + 1, 1}));
                p.add(op);
            }
            p.add(Op("retry").set("ph", ph).set("idle", 1));
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s     = ctx.sim;
        DsConf base = w.ds[0];
        bool vm2   = base.format == arki::DataFormat::VM2;
        unsigned nt = ctx.plan.num("targets", 1);
        bool outbound = ctx.plan.num("outbound");
        // Item classes: one for each target, one nobody wants, one that
        // matches two targets (or none)
        unsigned classes = nt + 2;
        std::vector<Dest> dests;
        auto filter = [&](unsigned c) {
            std::string r;
            for (unsigned v = 0; v < 190; ++v)
                if (v % classes == c) r += (r.empty() ? "GRIB1,98,1," : " or GRIB1,98,1,") + std::to_string(v);
            return r;
        };
        for (unsigned i = 0; i < nt; ++i)
        {
            std::string k = "t" + std::to_string(i) + ".";
            Dest d;
            d.conf        = base;
            d.conf.name   = "target" + std::to_string(i);
            d.conf.type   = ctx.plan.str(k + "type", "simple");
            d.conf.step   = ctx.plan.str(k + "step", "daily");
            d.conf.unique = ctx.plan.num(k + "unique");
            d.unique      = d.conf.type == "iseg";
            d.filter      = "product:" + filter(i);
            if (nt > 1 && i < 2) d.filter += " or " + filter(nt + 1);
            dests.push_back(d);
        }
        for (auto n : {"duplicates", "error"})
        {
            Dest d;
            d.conf      = base;
            d.conf.name = n;
            d.conf.type = n;
            d.conf.step = "daily";
            dests.push_back(d);
        }
        Dest outb;
        if (outbound)
        {
            outb.conf        = base;
            outb.conf.name   = "outbound";
            outb.conf.type   = "outbound";
            outb.conf.step   = "daily";
            outb.conf.dirseg = false;
            outb.filter      = "reftime:>=2007-07-02";
        }
        auto dest = [&](const std::string& name) -> Dest* {
            for (auto& d : dests)
                if (d.conf.name == name) return &d;
            return nullptr;
        };
        for (auto& d : dests)
            s.fs.mkdirs(d.conf.path());
        s.fs.mkdirs("/sim/ok");
        s.fs.mkdirs("/sim/ko");
        // Validation: the result must not change while the test runs
        long validate = ctx.plan.num("validate");
        if (validate) s.clock_jump = (day_number(2007, 7, 1) + ctx.plan.num("clockday")) * 86400000000000LL + 45296000000000LL - s.now;
        auto age = [&](const Item& it) {
            long long t = day_number(it.ye, it.mo, it.da) * 86400LL + it.ho * 3600 + it.mi * 60 + it.se;
            return s.wall() / 1000000000LL - t;
        };
        auto is_valid = [&](const Item& it) {
            if (validate == 0) return true;
            if (validate != 1) return false;
            return age(it) <= 7 * 86400 && age(it) >= -86400;
        };
        auto the_items = [&](const std::string& ids) {
            auto items = w.items(ids, base);
            if (validate == 1)
                items.erase(std::remove_if(items.begin(), items.end(), [&](const Item& i) { return std::abs(age(i) - 7 * 86400) < 7200 || std::abs(age(i) + 86400) < 7200; }), items.end());
            return items;
        };
        // Where it should go, unless errors happen or it is there already
        auto route = [&](const Item& it) -> std::string {
            unsigned c = it.var % classes;
            if (!is_valid(it)) return "error";
            if (c < nt) return "target" + std::to_string(c);
            return "error";
        };
        auto sent_out = [&](const Item& it) { return outbound && is_valid(it) && (it.mo > 7 || it.da >= 2); };
        auto key = [&](const Dest& d, const Item& it) { return d.conf.unique ? it.key() : it.key().substr(0, 14); };

        bool lenient = false, killed = false;
        std::string broken;
        std::set<unsigned> todo;                          // not stored anywhere as far as it is known
        std::map<std::string, unsigned> tried;            // dataset/key -> attempts, to judge duplicates
        std::map<unsigned, int> out_min, out_max;         // outbound

        auto make_pool = [&]() {
            auto session = std::make_shared<arki::dataset::Session>(false);
            auto pool    = std::make_shared<arki::dataset::Pool>(session);
            auto add     = [&](const Dest& d) {
                auto c = d.conf.cfg();
                if (!d.filter.empty()) c->set("filter", d.filter);
                pool->add_dataset(*c, false);
                if (d.conf.dirseg)
                    if (auto sd = std::dynamic_pointer_cast<arki::dataset::segmented::Dataset>(pool->dataset(d.conf.name)))
                        sd->segment_session->default_file_segment = arki::segment::DefaultFileSegment::SEGMENT_DIR;
            };
            for (auto& d : dests)
                add(d);
            if (outbound) add(outb);
            return pool;
        };
        // Before it is dispatched, it may get anywhere
        auto attempt = [&](const Item& it) {
            Dest* d = dest(route(it));
            d->model.attempted(it.id);
            if (d->unique) ++tried[d->conf.name + "/" + key(*d, it)];
            if (d->conf.name != "error") dest("error")->model.attempted(it.id);
            if (d->unique) dest("duplicates")->model.attempted(it.id);
            if (sent_out(it)) ++out_max[it.id];
        };
        // It is known where it went: take back the rest
        auto settled = [&](const Item& it, const std::string& destination, bool precise) {
            auto unattempt = [&](const std::string& name) { --dest(name)->model.items[it.id].max; };
            Dest* d = dest(destination);
            if (d->unique)
                d->model.items[it.id].min = 1;
            else
                ++d->model.items[it.id].min;
            if (!precise) return;
            Dest* r = dest(route(it));
            if (destination != r->conf.name && (!r->unique || destination == "error")) unattempt(r->conf.name);
            if (destination != "error" && r->conf.name != "error") unattempt("error");
            if (destination != "duplicates" && r->unique) unattempt("duplicates");
        };
        auto judge_dest = [&](const Item& it, const std::string& destination, const std::string& how) {
            std::string r = route(it);
            if (destination == r) return;
            Dest* d = dest(r);
            if (destination == "duplicates" && d->unique)
            {
                ctx.require(tried[r + "/" + key(*d, it)] > 1, "wrong-duplicate", how + " item " + it.desc() + " is reported as a duplicate, but it is the only one with its identity");
                return;
            }
            bool excused = lenient && (broken.empty() || r == broken || (broken == "duplicates" && d->unique && tried[r + "/" + key(*d, it)] > 1));
            ctx.require(destination == "error" && excused, "wrong-destination", how + " item " + it.desc() + " ended up in '" + destination + "' instead of '" + r + "'");
        };

        auto add_validators = [&](arki::Dispatcher& d) {
            auto& all = arki::metadata::ValidatorRepository::get();
            for (auto n : {"daily_import", "fail_always"})
                if (validate == 3 || (validate == 1 && n[0] == 'd') || (validate == 2 && n[0] == 'f'))
                {
                    static const arki::metadata::validators::FailAlways fail_always;
                    auto v = all.find(n);
                    if (n[0] == 'f') d.add_validator(fail_always);
                    else if (v == all.end()) ctx.fail("wrong-validator", std::string("there is no validator ") + n);
                    else
                        d.add_validator(*v->second);
                }
        };
        auto do_batch = [&](const std::vector<Item>& items, bool drop, bool faulty) {
            std::shared_ptr<arki::dataset::Pool> pool;
            std::unique_ptr<arki::RealDispatcher> disp;
            arki::metadata::InboundBatch batch;
            for (auto& i : items)
                batch.add(i.md());
            bool threw = false;
            std::string err;
            uint64_t nf = s.nfaults;
            for (auto& i : items)
                attempt(i);
            size_t outfail = 0;
            try
            {
                pool = make_pool();
                disp.reset(new arki::RealDispatcher(pool));
                add_validators(*disp);
                disp->dispatch(batch, drop);
                outfail = disp->outboundFailures();
                disp->flush();
                disp.reset();
            }
            catch (std::exception& e)
            {
                threw = true;
                err   = e.what();
            }
            disp.reset();
            pool.reset();
            bool clean = !faulty || (uint64_t)s.nfaults == nf;
            ctx.require(!threw || !clean || lenient, "dispatch-failed", "dispatching failed: " + err);
            for (size_t i = 0; i < items.size(); ++i)
            {
                auto& e = batch[i];
                if (threw)
                {
                    // All of it may or may not be stored
                    todo.insert(items[i].id);
                    continue;
                }
                if (sent_out(items[i]) && !threw && !outfail) ++out_min[items[i].id];
                if (e->result != Inbound::Result::OK || e->destination.empty())
                {
                    ctx.require(!clean || lenient, "dispatch-failed", "item " + items[i].desc() + " was not stored anywhere");
                    ctx.require(broken.empty(), "not-in-error", "item " + items[i].desc() + " could not be stored in '" + broken + "', and it is not in the error dataset");
                    ctx.require(threw || e->destination.empty(), "wrong-result", "item " + items[i].desc() + " is reported as not stored, and in '" + e->destination + "'");
                    todo.insert(items[i].id);
                    continue;
                }
                ctx.require(dest(e->destination) != nullptr, "wrong-destination", "item " + items[i].desc() + " is reported in '" + e->destination + "'");
                judge_dest(items[i], e->destination, "dispatching,");
                settled(items[i], e->destination, clean && !threw);
                todo.erase(items[i].id);
            }
        };

        auto write_input = [&](const Op& op, std::vector<std::string>& files, std::vector<std::vector<Item>>& contents) {
            auto items = the_items(op.str("ids"));
            bool single = base.is_dir() && !base.dirseg;
            for (size_t i = 0; i < items.size(); ++i)
            {
                if (i == 0 || single)
                {
                    files.push_back("/sim/in/" + std::to_string(op.id) + "-" + std::to_string(i) + "." + format_name(base.format));
                    contents.emplace_back();
                }
                contents.back().push_back(items[i]);
            }
            for (size_t i = 0; i < files.size(); ++i)
            {
                std::string buf;
                for (auto& it : contents[i])
                    buf += it.bytes() + (vm2 ? "\n" : "");
                if (op.num("trunc"))
                {
                    // The last item is incomplete
                    Item last  = contents[i].back();
                    size_t cut = std::min((size_t)op.num("trunc"), last.bytes().size() - 1);
                    buf.resize(buf.size() - cut - (vm2 ? 1 : 0));
                }
                s.fs.put(files[i], buf);
            }
        };

        struct ScanState
        {
            std::shared_ptr<arki::dataset::Pool> pool;
            NullProcessor next;
            std::unique_ptr<arki::python::arki_scan::MetadataDispatch> md;
        };
        auto do_scan = [&](const Op& op, ScanState& st, bool faulty, bool killable) {
            std::vector<std::string> files;
            std::vector<std::vector<Item>> contents;
            write_input(op, files, contents);
            for (size_t f = 0; f < files.size(); ++f)
            {
                auto& items = contents[f];
                uint64_t nf = s.nfaults;
                bool threw  = false;
                std::string err;
                arki::python::arki_scan::DispatchResults stats;
                std::string name = files[f].substr(files[f].rfind('/') + 1);
                for (auto& i : items)
                    attempt(i);
                try
                {
                    if (!st.md)
                    {
                        st.pool = make_pool();
                        st.md.reset(new arki::python::arki_scan::MetadataDispatch(st.pool, st.next));
                        st.md->dispatcher = new arki::RealDispatcher(st.pool);
                        add_validators(*st.md->dispatcher);
                    }
                    if (op.num("copy"))
                    {
                        st.md->dir_copyok = "/sim/ok";
                        st.md->dir_copyko = "/sim/ko";
                    }
                    else
                    {
                        st.md->dir_copyok.clear();
                        st.md->dir_copyko.clear();
                    }
                    st.md->flush_threshold = op.num("flush", 128 * 1024 * 1024);
                    st.next.count          = 0;
                    auto cfg    = arki::dataset::file::read_config(files[f], base.format);
                    auto sess   = std::make_shared<arki::dataset::Session>(false);
                    auto reader = sess->dataset(*cfg)->create_reader();
                    stats       = st.md->process(*reader, name);
                }
                catch (std::exception& e)
                {
                    threw = true;
                    err   = e.what();
                }
                bool clean = !faulty || (uint64_t)s.nfaults == nf;
                bool trunc = op.num("trunc");
                std::string how = "scanning " + name + ",";
                if (clean && !trunc && !lenient) ctx.require(!threw, "scan-failed", how + " dispatching failed: " + err);
                for (auto& i : items)
                    todo.insert(i.id);
                if (threw) continue;
                // A truncated item may be an error, or not be there
                unsigned total = stats.successful + stats.duplicates + stats.in_error_dataset + stats.not_imported;
                std::string desc = how + " " + stats.summary();
                ctx.require(total == items.size() || (trunc && total == items.size() - 1), "wrong-count", desc + ": " + std::to_string(items.size()) + " items were in the file");
                ctx.require(st.next.count == total, "wrong-report", desc + ": metadata of " + std::to_string(st.next.count) + " items was reported");
                ctx.require(stats.not_imported == 0 || !clean || lenient, "dispatch-failed", desc);
                ctx.require(stats.not_imported == 0 || broken.empty(), "not-in-error", desc + ": only '" + broken + "' had problems");
                if (total != items.size()) items.pop_back();
                if (!op.num("copy"))
                {
                    if (stats.not_imported == 0 && clean && !lenient)
                    {
                        // All got somewhere
                        for (auto& i : items)
                            todo.erase(i.id);
                        unsigned errs = 0;
                        for (auto& i : items)
                            if (route(i) == "error") ++errs;
                        ctx.require(errs == stats.in_error_dataset, "wrong-count", desc + ": " + std::to_string(errs) + " items belong to the error dataset");
                        for (auto& i : items)
                            if (route(i) == "error") settled(i, "error", true);
                            else if (!dest(route(i))->unique)
                                settled(i, route(i), true);
                    }
                    continue;
                }
                std::vector<Item> ok, ko;
                for (auto dir : {"/sim/ok/", "/sim/ko/"})
                {
                    std::string path = dir + name;
                    if (!s.fs.exists(path)) continue;
                    auto& out = std::string(dir) == "/sim/ok/" ? ok : ko;
                    ctx.require(split_items(base.format, s.fs.read_all(path), out, vm2), "wrong-copy", how + " " + path + " does not contain intact items");
                }
                std::map<unsigned, int> seen;
                for (auto& i : ok)
                    ++seen[i.id];
                for (auto& i : ko)
                    ++seen[i.id];
                for (auto& i : items)
                    ctx.require(seen[i.id] == 1, "wrong-copy", how + " item " + i.desc() + " is " + std::to_string(seen[i.id]) + " times in the copies of what was and was not imported");
                ctx.require(seen.size() == items.size(), "wrong-copy", how + " there are other items in the copies");
                ctx.require(ok.size() == stats.successful, "wrong-copy", desc + ": " + std::to_string(ok.size()) + " items are in the copy of what was imported");
                for (auto& i : ok)
                {
                    ctx.require(route(i) != "error", "wrong-destination", how + " item " + i.desc() + " was reported as imported");
                    settled(i, route(i), clean);
                    todo.erase(i.id);
                }
                for (auto& i : ko)
                {
                    if (clean && !lenient && stats.not_imported == 0)
                    {
                        // Either a duplicate, or in the error dataset
                        std::string r = route(i);
                        if (r == "error") settled(i, "error", true);
                        else
                        {
                            judge_dest(i, "duplicates", how);
                            settled(i, "duplicates", true);
                        }
                        todo.erase(i.id);
                    }
                }
            }
        };

        auto verify = [&](const std::string& when) {
            s.now += 2000000000;
            for (auto& d : dests)
            {
                QueryResult q;
                w.solo("query", [&] { w.query(d.conf, "", q); });
                if (d.unique)
                    for (auto& i : d.model.items)
                        i.second.max = std::min(i.second.max, 1);
                std::string diff = d.model.compare(w, d.conf, q);
                ctx.require(diff.empty(), "wrong-contents", when + ", in " + d.conf.name + ": " + diff);
            }
            if (outbound)
            {
                Bag got;
                bool torn = false;
                for (auto& f : s.fs.snapshot(outb.conf.path()))
                {
                    if (f.second == "<dir>" || f.first.find("/lock") != std::string::npos || f.first.find(".sequence") != std::string::npos) continue;
                    std::vector<Item> items;
                    bool ok = split_items(base.format, f.second, items, vm2);
                    // A process killed while writing may leave a partial item,
                    // and there is nothing to check for them
                    ctx.require(ok || killed, "wrong-contents", when + ", " + f.first + " does not contain intact items");
                    torn |= !ok;
                    for (auto& i : items)
                        ++got[i.id];
                }
                for (auto& i : out_max)
                    ctx.require((torn || got[i.first] >= out_min[i.first]) && got[i.first] <= i.second, "wrong-contents",
                                when + ", item " + w.item(i.first, base).desc() + " is " + std::to_string(got[i.first]) + " times in the outbound dataset instead of " + std::to_string(out_min[i.first]) + ".." + std::to_string(i.second));
            }
            ctx.state(s.fs.hash("/sim/ds"));
        };

        std::vector<long> phases;
        for (auto& op : ctx.plan.ops)
            if (std::find(phases.begin(), phases.end(), op.num("ph")) == phases.end()) phases.push_back(op.num("ph"));
        for (auto ph : phases)
        {
            s.set_scope("ph" + std::to_string(ph) + ".");
            std::map<long, std::vector<const Op*>> procs;
            bool kills = false, faults = false;
            for (auto& op : ctx.plan.ops)
            {
                if (op.num("ph") != ph || op.num("idle")) continue;
                s.log("OP %s", op.to_string().c_str());
                procs[op.num("w")].push_back(&op);
                if (op.num("crash")) kills = true;
                if (op.num("faults")) faults = true;
                broken = op.str("broken");
            }
            lenient = kills || faults;
            if (faults) ctx.faults_on();
            if (!broken.empty())
            {
                for (auto& f : s.fault_p)
                    if (f.first == "eio_write" || f.first == "enospc" || f.first == "fsync_eio") f.second = std::max(f.second, 0.2);
                std::string prefix = dest(broken)->conf.path() + "/";
                s.fault_path = [prefix](const std::string& p) { return p.compare(0, prefix.size(), prefix) == 0; };
            }
            std::map<long, Process*> running;
            for (auto& p : procs)
            {
                auto ops      = p.second;
                auto self     = std::make_shared<Process*>();
                Process* proc = s.spawn("dispatch" + std::to_string(p.first), [&, ops, self] {
                    ScanState st;
                    for (auto op : ops)
                    {
                        (*self)->faults = op->num("faults");
                        if (op->name == "batch") do_batch(the_items(op->str("ids")), op->num("drop"), faults);
                        else
                            do_scan(*op, st, faults, kills);
                    }
                    (*self)->faults = false;
                });
                *self = proc;
                for (auto op : ops)
                    if (op->num("crash"))
                    {
                        proc->crash_in   = op->num("at");
                        proc->crash_kind = 1;
                    }
                running[p.first] = proc;
            }
            w.run_all("dispatching");
            ctx.faults_off();
            s.fault_path = nullptr;
            lenient = false;
            broken.clear();
            for (auto& r : running)
            {
                if (r.second->has_error) ctx.fail("exception", "unexpected exception: " + r.second->error);
                killed |= r.second->killed;
                if (r.second->killed)
                    for (auto op : procs[r.first])
                        for (auto& i : the_items(op->str("ids")))
                            todo.insert(i.id);
            }
            if (procs.size() > 1 || kills || faults) ctx.nontrivial = true;
            if (kills)
            {
                s.now += 2000000000;
                for (auto& d : dests)
                {
                    CheckResult r;
                    w.solo("fix", [&] { r = w.check(d.conf, CheckOpts()); });
                    ctx.require(!r.threw, "fix-failed", "check --fix failed after processes were killed: " + r.err);
                }
            }
            verify("after dispatching");
            for (auto& op : ctx.plan.ops)
            {
                if (op.num("ph") != ph || !op.num("idle")) continue;
                ctx.begin(op);
                s.now += 2000000000;
                if (op.name == "test")
                {
                    // Changes nothing, and tells where each would go
                    auto before = s.fs.hash("/sim/ds", true);
                    auto items  = the_items(op.str("ids"));
                    w.solo("test", [&] {
                        auto pool = make_pool();
                        arki::TestDispatcher disp(pool);
                        add_validators(disp);
                        arki::metadata::InboundBatch batch;
                        for (auto& i : items)
                            batch.add(i.md());
                        disp.dispatch(batch, false);
                        disp.flush();
                        for (size_t i = 0; i < items.size(); ++i)
                            ctx.require(batch[i]->destination == route(items[i]) && batch[i]->result == Inbound::Result::OK, "wrong-test", "a test dispatch sends " + items[i].desc() + " to '" + batch[i]->destination + "' instead of '" + route(items[i]) + "'");
                    });
                    ctx.require(s.fs.hash("/sim/ds", true) == before, "wrong-test", "a test dispatch changed something");
                }
                else if (op.name == "retry" && !todo.empty())
                {
                    std::vector<Item> items;
                    for (auto i : todo)
                        items.push_back(w.item(i, base));
                    w.solo("retry", [&] { do_batch(items, false, false); });
                    ctx.require(todo.empty(), "dispatch-failed", "dispatching again, something is not stored");
                    s.set_scope("ph" + std::to_string(ph) + "v.");
                    verify("after dispatching again what had failed");
                }
            }
        }
    }
} c13;

} // namespace sim
