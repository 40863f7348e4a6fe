// C04: queries run while others write are consistent
// C05: concurrent imports and maintenance lose nothing and duplicate nothing
#include "world.h"
#include <algorithm>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>

using arki::metadata::Inbound;

namespace sim {

namespace {

// Contents known to be there, and contents that may be there, as they evolve
// while processes run
struct Shared
{
    bool unique; // at most one copy of each
    std::map<unsigned, int> lo, hi;
    struct View
    {
        std::map<unsigned, int> lo, hi;
    };
    std::set<View*> active;

    void attempt(unsigned id)
    {
        hi[id] = unique ? 1 : hi[id] + 1;
        for (auto v : active)
            v->hi[id] = std::max(v->hi[id], hi[id]);
    }
    void stored(unsigned id) { lo[id] = unique ? 1 : lo[id] + 1; }
    // About to be removed
    void removing(unsigned id)
    {
        lo[id] = 0;
        for (auto v : active)
            v->lo[id] = 0;
    }
    void removed(unsigned id) { hi[id] = 0; }
    void start(View& v)
    {
        v.lo = lo;
        v.hi = hi;
        active.insert(&v);
    }
    void end(View& v) { active.erase(&v); }
};

struct Batch
{
    std::vector<unsigned> ids;
    bool acked = false;
};

} // namespace

struct ConcCheck : public Check
{
    using Check::Check;
    virtual bool readers_judged() const { return true; }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        const DsConf& d = w.ds[0];
        Sim& s          = ctx.sim;
        Shared sh;
        sh.unique  = d.type == "iseg";
        bool dirty = false;   // a process was killed since the last repairing check
        bool removals = false;
        bool converted = false; // some segments may be read only
        s.now0 = s.now = 1185926400LL * 1000000000LL + ctx.plan.num("clock", 10) * 86400 * 1000000000LL + (ctx.plan.seed % 1000) * 1000003;
        // What removal does, all at once or never, for each segment
        std::vector<std::shared_ptr<Batch>> batches;

        auto do_import = [&](const Op& op) {
            auto items = w.items(op.str("ids"), d);
            auto b     = std::make_shared<Batch>();
            for (auto& i : items)
            {
                sh.attempt(i.id);
                b->ids.push_back(i.id);
            }
            batches.push_back(b);
            bool was_dirty = dirty;
            ImportResult r = w.import(d, items, arki::ReplaceStrategy::DEFAULT, op.num("drop"));
            b->acked       = r.done;
            for (size_t i = 0; i < items.size(); ++i)
            {
                if (r.done && r.res[i] == (int)Inbound::Result::OK) sh.stored(items[i].id);
                else if (r.done && r.res[i] == (int)Inbound::Result::DUPLICATE && sh.unique)
                {
                    // There are other operations importing it, or it was there already
                    unsigned n = 0;
                    for (auto& o : batches)
                        n += std::count(o->ids.begin(), o->ids.end(), items[i].id);
                    ctx.require(n > 1, "wrong-duplicate", "an item imported only once was reported as a duplicate: " + items[i].desc());
                    sh.stored(items[i].id);
                }
                else
                    ctx.require(dirty || was_dirty || converted, "import-failed", "an import failed while other processes were working on the dataset: " + r.err + " result " + std::to_string(r.res[i]) + " for " + items[i].desc());
            }
        };

        auto do_query = [&](const Op& op) {
            std::string m    = op.str("m");
            std::string mode = op.str("mode", "data");
            Shared::View v;
            sh.start(v);
            if (mode == "summary")
            {
                SummaryResult r = w.summary(d, m);
                sh.end(v);
                if (!readers_judged()) return;
                ctx.require(!r.threw, "query-failed", "a summary query failed while other processes were working on the dataset: " + r.err);
                unsigned long long lo = 0, hi = 0;
                for (auto& i : v.lo)
                    if (match_day(m, w.item(i.first, d))) lo += i.second;
                for (auto& i : v.hi)
                    if (match_day(m, w.item(i.first, d))) hi += i.second;
                ctx.require(r.count >= lo && r.count <= hi, "wrong-summary", "a summary query that ran while other processes were working on the dataset counted " + std::to_string(r.count) + " items instead of " + std::to_string(lo) + ".." + std::to_string(hi) + " query '" + m + "'");
                return;
            }
            QueryResult q;
            if (mode == "data" || mode == "slow" || mode == "sort")
            {
                long us = op.num("us", 1000);
                w.query(d, m, q, true, [&](size_t n) {
                    if (mode == "slow") s.sleep_until(s.now + (ns_t)us * 1000);
                    return true;
                });
            }
            else if (mode == "late")
            {
                // Read the data after the query is done
                try
                {
                    auto dset   = w.open(d);
                    auto reader = dset->create_reader();
                    arki::metadata::Collection mds;
                    arki::query::Data dq(dset->session->matcher(m), true);
                    reader->query_data(dq, [&](std::shared_ptr<arki::Metadata> md) {
                        mds.acquire(md, false);
                        return true;
                    });
                    reader.reset();
                    for (auto& md : mds)
                    {
                        Got g;
                        g.bytes   = data_of(*md);
                        g.read_ok = true;
                        g.valid   = parse_exact(d.format, g.bytes, g.item);
                        if (g.valid)
                        {
                            arki::Metadata expected;
                            fill_metadata(g.item, expected);
                            g.meta_ok = md->items_equal(expected);
                            g.valid   = g.item.bytes() == g.bytes;
                        }
                        q.got.push_back(g);
                    }
                }
                catch (std::exception& e)
                {
                    q.threw = true;
                    q.err   = e.what();
                }
            }
            sh.end(v);
            if (!readers_judged()) return;
            ctx.require(!q.threw, "query-failed", "a query failed while other processes were working on the dataset: " + q.err);
            std::map<unsigned, int> got;
            for (auto& g : q.got)
            {
                ctx.require(g.read_ok, "unreadable", "a query that ran while other processes were working on the dataset returned an item that cannot be read: " + g.error);
                ctx.require(g.valid && g.meta_ok, "wrong-bytes", "a query that ran while other processes were working on the dataset returned bytes that are not those of the item");
                ctx.require(match_day(m, g.item), "wrong-match", "item " + std::to_string(g.item.id) + " does not match '" + m + "'");
                ++got[g.item.id];
            }
            std::string desc = " got " + bag_str(got) + " query '" + m + "' mode " + mode;
            for (auto& i : v.lo)
                if (i.second && match_day(m, w.item(i.first, d)))
                    ctx.require(got[i.first] >= i.second, "missing", "a query that ran while other processes were working on the dataset did not return item " + w.item(i.first, d).desc() + " that was there:" + desc);
            for (auto& i : got)
                ctx.require(i.second <= v.hi[i.first], "excess", "a query that ran while other processes were working on the dataset returned item " + std::to_string(i.first) + " too many times:" + desc);
            // Items of a batch that go in the same segment are seen together
            if (!removals)
                for (auto& b : batches)
                {
                    std::map<std::string, std::pair<int, int>> segs;
                    for (auto id : b->ids)
                    {
                        unsigned n = 0;
                        for (auto& o : batches)
                            n += std::count(o->ids.begin(), o->ids.end(), id);
                        Item it = w.item(id, d);
                        if (n > 1 || !match_day(m, it)) continue;
                        auto& c = segs[d.segment_of(it)];
                        if (got[id]) ++c.first;
                        else
                            ++c.second;
                    }
                    for (auto& c : segs)
                        ctx.require(!c.second.first || !c.second.second, "partial-batch", "a query saw only part of a batch in segment " + c.first + ":" + desc);
                }
        };

        auto do_maint = [&](const Op& op) {
            CheckOpts o;
            o.accurate = op.num("accurate");
            if (op.num("offline") == 0 && op.name != "fix") o.offline = false;
            if (op.name == "tar" || op.name == "zip" || op.name == "compress")
            {
                o.offline = true;
                o.online  = op.num("online", 1);
            }
            CheckResult r;
            bool was_dirty = dirty;
            if (op.name == "remove")
            {
                std::set<unsigned> ids;
                for (auto i : parse_ids(op.str("ids")))
                {
                    ids.insert(i);
                    sh.removing(i);
                }
                r = w.remove(d, ids);
            }
            else
                r = w.checker_op(d, o, op.name == "fix" ? "check" : op.name);
            ctx.require(!r.threw || dirty || was_dirty, "maintenance-failed", op.name + " failed while other processes were working on the dataset: " + r.err);
        };

        // Execute phase by phase
        std::vector<long> phases;
        for (auto& op : ctx.plan.ops)
            if (std::find(phases.begin(), phases.end(), op.num("ph")) == phases.end()) phases.push_back(op.num("ph"));
        for (auto ph : phases)
        {
            s.set_scope("ph" + std::to_string(ph) + ".");
            std::map<long, std::vector<const Op*>> procs;
            for (auto& op : ctx.plan.ops)
                if (op.num("ph") == ph)
                {
                    s.log("OP %s", op.to_string().c_str());
                    procs[op.num("w")].push_back(&op);
                    if (op.name == "remove") removals = true;
                    if (op.name == "tar" || op.name == "zip" || op.name == "compress") converted = true;
                }
            std::map<long, Process*> running;
            for (auto& p : procs)
            {
                auto ops = p.second;
                Process* proc = s.spawn(ops[0]->name + std::to_string(p.first), [&, ops] {
                    for (auto op : ops)
                    {
                        if (op->num("wait")) s.sleep_until(s.now + (ns_t)op->num("wait") * 1000);
                        if (op->name == "import") do_import(*op);
                        else if (op->name == "query")
                            do_query(*op);
                        else
                            do_maint(*op);
                    }
                });
                for (auto op : ops)
                    if (op->num("crash"))
                    {
                        proc->crash_in   = op->num("at");
                        proc->crash_kind = 1;
                    }
                running[p.first] = proc;
            }
            // A kill must be known as soon as it happens
            bool phase_kills = false;
            for (auto& p : procs)
                for (auto op : p.second)
                    if (op->num("crash")) phase_kills = true;
            if (phase_kills) dirty = true;
            w.run_all("concurrent operations");
            for (auto& r : running)
            {
                if (r.second->has_error) ctx.fail("exception", "unexpected exception: " + r.second->error);
            }
            if (procs.size() > 1) ctx.nontrivial = true;
            sh.active.clear();
            if (dirty)
            {
                s.now += 2000000000;
                CheckResult r;
                w.solo("fix", [&] { r = w.check(d, CheckOpts()); });
                ctx.require(!r.threw, "fix-failed", "check --fix failed after processes were killed: " + r.err);
                dirty = false;
            }
            // Everything is quiet: contents and summaries must match
            s.now += 2000000000;
            QueryResult q;
            w.solo("query", [&] { w.query(d, "", q); });
            ctx.require(!q.threw, "query-failed", "a query failed after concurrent operations: " + q.err);
            std::map<unsigned, int> got;
            unsigned long long size = 0;
            for (auto& g : q.got)
            {
                ctx.require(g.read_ok, "unreadable", "after concurrent operations, an item cannot be read: " + g.error);
                ctx.require(g.valid && g.meta_ok, "wrong-bytes", "after concurrent operations, a query returned bytes that are not those of the item");
                ++got[g.item.id];
                size += g.bytes.size();
            }
            for (auto& i : sh.lo)
                ctx.require(got[i.first] >= i.second, "lost", "after concurrent operations, item " + w.item(i.first, d).desc() + " is missing: got " + bag_str(got));
            for (auto& i : got)
            {
                ctx.require(i.second <= sh.hi[i.first], "excess", "after concurrent operations, item " + std::to_string(i.first) + " is there " + std::to_string(i.second) + " times");
                sh.lo[i.first] = i.second;
                // Interrupted imports may still surface
            }
            for (auto m : {std::string(), ctx.plan.str("m")})
            {
                SummaryResult r;
                w.solo("summary", [&] { r = w.summary(d, m); });
                unsigned long long count = 0;
                for (auto& i : got)
                    if (match_day(m, w.item(i.first, d))) count += i.second;
                ctx.require(!r.threw, "query-failed", "a summary query failed after concurrent operations: " + r.err);
                ctx.require(r.count == count, "stale-summary", "after concurrent operations, the summary counts " + std::to_string(r.count) + " items instead of " + std::to_string(count) + " for query '" + m + "'");
                if (m.empty()) ctx.require(d.format == arki::DataFormat::VM2 || r.size == size, "stale-summary", "after concurrent operations, the summary tells " + std::to_string(r.size) + " bytes instead of " + std::to_string(size));
            }
            // And nothing needs fixing
            CheckResult r;
            CheckOpts o;
            o.readonly = true;
            w.solo("check", [&] { r = w.check(d, o); });
            ctx.require(!r.threw, "check-failed", "check failed after concurrent operations: " + r.err);
            for (auto& l : r.rep.lines)
                if (l.kind == "segment_rescan" || l.kind == "segment_deindex" || l.kind == "segment_manual_intervention" || l.kind == "operation_aborted")
                    ctx.require(false, "inconsistent", "concurrent operations left the dataset in need of repair: " + r.rep.to_string());
            s.now += 2000000000;
            ctx.state(s.fs.hash("/sim/ds"));
        }
    }

    // Processes of one kind for a phase
    struct Gen
    {
        Rng& rng;
        Plan& p;
        unsigned id = 1;
        std::vector<unsigned> ids;

        std::string batch(unsigned max, double dups)
        {
            std::vector<unsigned> b;
            unsigned k = 1 + rng.below(max);
            for (unsigned j = 0; j < k; ++j)
            {
                unsigned i = id;
                if (!ids.empty() && rng.chance(dups)) i = ids[rng.below(ids.size())];
                else
                    ids.push_back(id++);
                if (std::find(b.begin(), b.end(), i) == b.end()) b.push_back(i);
            }
            return ids_str(b);
        }
        Op import(long ph, long w, double dups, unsigned max = 5)
        {
            Op op("import");
            op.set("ph", ph).set("w", w).set("ids", batch(max, dups));
            if (rng.chance(0.15)) op.set("drop", 1);
            wait(op);
            return op;
        }
        void wait(Op& op)
        {
            if (rng.chance(0.2)) op.set("wait", rng.logu(2000));
        }
        Op query(long ph, long w)
        {
            static const char* modes[] = {"data", "data", "slow", "late", "summary", "summary"};
            Op op("query");
            op.set("ph", ph).set("w", w);
            std::string mode = modes[rng.below(6)];
            op.set("mode", mode);
            if (mode == "slow") op.set("us", rng.logu(1000));
            if (rng.chance(0.4)) op.set("m", gen_day_query(rng, p));
            wait(op);
            return op;
        }
        Op maint(long ph, long w, bool convert)
        {
            static const char* m[] = {"repack", "repack", "fix", "fix", "state", "tar", "zip", "compress"};
            Op op(m[rng.below(convert ? 8 : 5)]);
            op.set("ph", ph).set("w", w);
            if (op.name == "fix" && rng.chance(0.3)) op.set("accurate", 1);
            wait(op);
            return op;
        }
        void setup(unsigned n, long& ph)
        {
            for (unsigned i = 0; i < n; ++i)
                p.add(import(ph, 0, 0));
            Op f("fix");
            p.add(f.set("ph", ph).set("w", 0));
            ++ph;
        }
    };
};

struct C04 : public ConcCheck
{
    C04() : ConcCheck("C04") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        Gen g{rng, p};
        p.set("m", gen_day_query(rng, p));
        long ph = 0;
        if (rng.chance(0.6)) g.setup(1 + rng.below(4), ph);
        unsigned phases = 1 + rng.below(p.thorough ? 4 : 2);
        for (unsigned i = 0; i < phases; ++i)
        {
            unsigned readers = 1 + rng.below(3);
            unsigned writers = rng.below(3);
            long wk          = 0;
            for (unsigned j = 0; j < readers; ++j, ++wk)
                for (unsigned k = 0, n = 1 + rng.below(3); k < n; ++k)
                    p.add(g.query(ph, wk));
            for (unsigned j = 0; j < writers; ++j, ++wk)
                for (unsigned k = 0, n = 1 + rng.below(3); k < n; ++k)
                    p.add(g.import(ph, wk, 0.1));
            if (!writers || rng.chance(0.5))
            {
                for (unsigned k = 0, n = 1 + rng.below(2); k < n; ++k)
                    p.add(g.maint(ph, wk, true));
                ++wk;
            }
            ++ph;
        }
    }
} c04;

struct C05 : public ConcCheck
{
    C05() : ConcCheck("C05") {}
    bool readers_judged() const override { return false; }
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        Gen g{rng, p};
        p.set("m", gen_day_query(rng, p));
        long ph = 0;
        if (rng.chance(0.5)) g.setup(1 + rng.below(3), ph);
        unsigned phases = 1 + rng.below(p.thorough ? 4 : 2);
        double dups     = rng.chance(0.5) ? 0 : 0.3;
        bool kills      = rng.chance(0.3);
        for (unsigned i = 0; i < phases; ++i)
        {
            unsigned writers = 2 + rng.below(3);
            long wk          = 0;
            for (unsigned j = 0; j < writers; ++j, ++wk)
                for (unsigned k = 0, n = 1 + rng.below(3); k < n; ++k)
                {
                    Op op = g.import(ph, wk, dups);
                    if (kills && k == 0 && rng.chance(0.3)) op.set("crash", 1).set("at", rng.logu(50));
                    p.add(op);
                }
            if (rng.chance(0.4))
            {
                for (unsigned k = 0, n = 1 + rng.below(2); k < n; ++k)
                    p.add(g.maint(ph, wk, false));
                ++wk;
            }
            if (rng.chance(0.3)) p.add(g.query(ph, wk++));
            ++ph;
        }
    }
} c05;

} // namespace sim
