// C02: failed imports leave the dataset as it was and can be retried
// C03: queries under I/O errors return exact data or an error
#include "bag.h"
#include <algorithm>

namespace sim {

static const std::vector<std::string> write_faults = {"open_eio",  "open_emfile", "eintr_read",  "eio_read",   "short_read", "eintr_write",
                                                      "eio_write", "short_write", "stat_eio",    "mkdir_eio",  "rename_eio", "fsync_eio",
                                                      "utimens_eio", "lock_eintr", "readdir_eio", "close_eio", "enospc"};

static const std::vector<std::string> read_faults = {"open_eio", "open_emfile", "eintr_read", "eio_read", "short_read", "stat_eio", "readdir_eio", "lock_eintr"};

struct C02 : public Check
{
    C02() : Check("C02") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        p.set("it.unique", 1);
        if (rng.chance(0.85)) swarm_faults(rng, p, write_faults, 120);
        unsigned id = 1;
        unsigned n  = 2 + rng.below(p.thorough ? 10 : 5);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned k = 1 + rng.below(5);
            std::vector<unsigned> ids;
            for (unsigned j = 0; j < k; ++j)
                ids.push_back(id++);
            Op op("import");
            op.set("ids", ids_str(ids));
            op.set("faults", rng.chance(0.7));
            if (rng.chance(0.2)) op.set("drop", 1);
            if (rng.chance(0.4)) op.set("st", 1 + rng.below(3));
            if (rng.chance(0.1)) op.set("full", rng.logu(3000));
            p.add(op);
            p.add(Op("verify"));
            if (rng.chance(0.7)) p.add(Op("retry").set("st", rng.below(4)));
            if (rng.chance(0.2)) p.add(Op("fix"));
            if (rng.chance(0.1)) p.add(Op("repack"));
        }
        p.add(Op("retry"));
        p.add(Op("fix"));
        p.add(Op("repack"));
        p.add(Op("verify"));
        // Timestamps have a granularity of one second
        for (auto& op : p.ops)
            if (rng.chance(0.7)) op.set("adv", rng.below(3));
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        const DsConf& d = w.ds[0];
        BagModel m;
        std::set<unsigned> failed;
        auto verify = [&](const char* when) {
            QueryResult q;
            w.solo("query", [&] { w.query(d, "", q); });
            std::string diff = m.compare(w, d, q);
            ctx.require(diff.empty(), "wrong-contents", std::string(when) + ": " + diff);
            return q;
        };
        // Items that go in the same segment, in imports that failed and have
        // not been retried, with how many there were before
        std::vector<std::pair<std::string, std::map<unsigned, int>>> groups;
        auto all_or_none = [&](const QueryResult& q, const std::string& when) {
            Bag b = bag_of(q);
            for (auto& g : groups)
            {
                unsigned in = 0;
                for (auto& i : g.second)
                    if (b[i.first] > i.second) ++in;
                ctx.require(!in || in == g.second.size(), "partial-batch", when + ": an import that failed stored only part of what goes to segment " + g.first);
            }
        };
        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            ctx.sim.now += op.num("adv") * 1000000000;
            if (op.name == "import" || op.name == "retry")
            {
                bool retry = op.name == "retry";
                std::vector<Item> items;
                if (retry)
                {
                    for (auto i : failed)
                        items.push_back(w.item(i, d));
                    if (items.empty()) continue;
                }
                else
                    items = w.items(op.str("ids"), d);
                BagModel before = m;
                std::map<std::string, std::map<unsigned, int>> lost;
                if (retry) groups.clear();
                ImportResult res;
                bool faults = !retry && op.num("faults");
                uint64_t nf = ctx.sim.nfaults;
                if (faults) ctx.faults_on();
                if (!retry && op.num("full")) ctx.sim.fs.capacity = ctx.sim.fs.used() + op.num("full");
                w.solo("import", [&] { res = w.import(d, items, replace_strategy(op), op.num("drop")); }, faults);
                ctx.sim.fs.capacity = -1;
                ctx.faults_off();
                bool clean = (uint64_t)ctx.sim.nfaults == nf && !op.num("full");
                if (clean) ctx.require(res.done, "import-failed", std::string(retry ? "retrying a failed import" : "an import") + " failed without any error from the system: " + res.err);
                for (size_t i = 0; i < items.size(); ++i)
                {
                    int r = res.res[i];
                    bool dup_ok = d.type == "iseg"; // the index is UNIQUE on at least the reference time
                    if (res.done && r == (int)arki::metadata::Inbound::Result::OK)
                    {
                        if (dup_ok && retry && m.items[items[i].id].max > 0)
                        {
                            // Unique items: now it is there once
                            m.items[items[i].id] = BagModel::Count{1, 1};
                        }
                        else
                            m.stored(items[i].id);
                        failed.erase(items[i].id);
                    }
                    else if (res.done && r == (int)arki::metadata::Inbound::Result::DUPLICATE && dup_ok && retry && m.items[items[i].id].max > 0)
                    {
                        m.items[items[i].id] = BagModel::Count{1, 1};
                        failed.erase(items[i].id);
                    }
                    else
                    {
                        if (clean)
                            ctx.require(false, "import-failed", std::string(retry ? "retrying a failed import" : "an import") + " failed without any error from the system: item " + items[i].desc() + " result " + std::to_string(r));
                        m.attempted(items[i].id);
                        failed.insert(items[i].id);
                        lost[d.segment_of(items[i])][items[i].id] = before.items[items[i].id].min;
                        ctx.nontrivial = true;
                        ctx.sim.probe("failed_import");
                    }
                }
                if (!retry) groups.insert(groups.end(), lost.begin(), lost.end());
                if (retry) verify("after retrying");
            }
            else if (op.name == "verify")
            {
                all_or_none(verify("after an import"), "after an import");
            }
            else if (op.name == "fix" || op.name == "repack")
            {
                CheckResult res;
                w.solo(op.name, [&] { res = w.checker_op(d, CheckOpts(), op.name == "fix" ? "check" : "repack"); });
                ctx.require(!res.threw, op.name + "-failed", op.name + " failed: " + res.err);
                all_or_none(verify(("after " + op.name).c_str()), "after " + op.name);
            }
            ctx.state(ctx.sim.fs.hash("/sim/ds"));
        }
    }
} c02;

struct C03 : public Check
{
    C03() : Check("C03") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        p.set("it.unique", 1);
        bool faulty = rng.chance(0.9);
        if (faulty) swarm_faults(rng, p, read_faults, 50);
        unsigned id = 1;
        unsigned n  = 1 + rng.below(3);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned k = 1 + rng.below(6);
            std::vector<unsigned> ids;
            for (unsigned j = 0; j < k; ++j)
                ids.push_back(id++);
            p.add(Op("import").set("ids", ids_str(ids)));
        }
        static const char* convs[] = {"repack", "tar", "zip", "compress", "fix"};
        if (rng.chance(0.5)) p.add(Op(convs[rng.below(5)]));
        unsigned nq = 2 + rng.below(p.thorough ? 12 : 6);
        for (unsigned i = 0; i < nq; ++i)
        {
            static const char* kinds[] = {"query", "query", "summary", "bytes"};
            Op q(kinds[rng.below(4)]);
            if (rng.chance(0.5))
            {
                q.set("m", gen_day_query(rng, p));
            }
            if (faulty) q.set("faults", rng.chance(0.85));
            p.add(q);
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        const DsConf& d = w.ds[0];
        std::set<unsigned> stored;
        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            if (op.name == "import")
            {
                auto items = w.items(op.str("ids"), d);
                ImportResult res;
                w.solo("import", [&] { res = w.import(d, items); });
                ctx.require(res.done, "import-failed", "import failed: " + res.err);
                for (size_t i = 0; i < items.size(); ++i)
                    if (res.res[i] == (int)arki::metadata::Inbound::Result::OK) stored.insert(items[i].id);
            }
            else if (op.name == "query" || op.name == "summary" || op.name == "bytes")
            {
                std::string m = op.str("m");
                bool faults   = op.num("faults");
                if (faults) ctx.faults_on();
                uint64_t nf = ctx.sim.nfaults;
                Bag expected;
                unsigned long long esize = 0;
                for (auto i : stored)
                {
                    Item it = w.item(i, d);
                    if (match_day(m, it))
                    {
                        expected[i] = 1;
                        esize += it.bytes().size();
                    }
                }
                std::string what = op.name + " " + m;
                if (op.name == "query")
                {
                    QueryResult q;
                    w.solo("query", [&] { w.query(d, m, q); }, faults);
                    ctx.faults_off();
                    if (clean(ctx, nf)) ctx.require(q.done, "query-failed", what + " failed without any error from the system: " + q.err);
                    Bag b;
                    bool errs = false;
                    for (auto& g : q.got)
                    {
                        if (!g.read_ok)
                        {
                            errs = true;
                            ++ctx.evals;
                            if (clean(ctx, nf)) ctx.fail("query-failed", what + ": " + g.error);
                            continue;
                        }
                        ctx.require(g.valid && w.item(g.item.id, d).bytes() == g.bytes, "wrong-data", what + " returned bytes that were never imported");
                        ctx.require(g.meta_ok, "wrong-data", what + " returned metadata of another item");
                        ctx.require(++b[g.item.id] == 1, "wrong-data", what + " returned the same item twice");
                        ctx.require(expected.count(g.item.id), "wrong-data", what + " returned an item that does not match: " + g.item.desc());
                    }
                    if (q.done && !errs)
                        ctx.require(b == expected, "silent-loss", what + " reported success and returned " + bag_str(b) + " instead of " + bag_str(expected));
                    else if (q.done)
                        ctx.require(q.got.size() == expected.size(), "silent-loss", what + " reported success and returned " + std::to_string(q.got.size()) + " items instead of " + bag_str(expected));
                    if (!q.done) ctx.sim.probe("query_error");
                }
                else if (op.name == "summary")
                {
                    SummaryResult s;
                    w.solo("summary", [&] { s = w.summary(d, m); }, faults);
                    ctx.faults_off();
                    if (clean(ctx, nf)) ctx.require(s.done, "query-failed", what + " failed without any error from the system: " + s.err);
                    if (s.done)
                        ctx.require(s.count == expected.size() && s.size == esize, "wrong-summary",
                                    what + " reported success and counted " + std::to_string(s.count) + " items, " + std::to_string(s.size) + " bytes instead of " + std::to_string(expected.size()) + ", " + std::to_string(esize));
                    else
                        ctx.sim.probe("summary_error");
                }
                else
                {
                    std::string out, err;
                    bool done = false;
                    w.solo(
                        "bytes",
                        [&] {
                            try
                            {
                                out  = w.bytes(d, m);
                                done = true;
                            }
                            catch (std::exception& e)
                            {
                                err = e.what();
                            }
                        },
                        faults);
                    ctx.faults_off();
                    if (clean(ctx, nf)) ctx.require(done, "query-failed", what + " failed without any error from the system: " + err);
                    if (done)
                    {
                        Bag b;
                        size_t pos = 0;
                        while (pos < out.size())
                        {
                            Item it;
                            long n = parse_item(d.format, out.data() + pos, out.size() - pos, it);
                            ctx.require(n > 0, "wrong-data", what + " streamed bytes that were never imported");
                            ctx.require(w.item(it.id, d).bytes() == out.substr(pos, n), "wrong-data", what + " streamed bytes that were never imported");
                            ++b[it.id];
                            pos += n;
                            if (d.format == arki::DataFormat::VM2 && pos < out.size() && out[pos] == '\n') ++pos;
                        }
                        ctx.require(b == expected, "silent-loss", what + " reported success and streamed " + bag_str(b) + " instead of " + bag_str(expected));
                    }
                    else
                        ctx.sim.probe("bytes_error");
                }
                if ((uint64_t)ctx.sim.nfaults != nf) ctx.nontrivial = true;
            }
            else
            {
                CheckResult res;
                w.solo(op.name, [&] { res = w.checker_op(d, CheckOpts(), op.name == "fix" ? "check" : op.name); });
                ctx.require(!res.threw, "maintenance-failed", op.name + " failed: " + res.err);
            }
            ctx.state(ctx.sim.fs.hash("/sim/ds"));
        }
    }

    static bool clean(Ctx& ctx, uint64_t nf) { return (uint64_t)ctx.sim.nfaults == nf; }
} c03;

} // namespace sim
