// C01: acknowledged imports survive crashes
#include "model.h"
#include <algorithm>

namespace sim {

struct C01 : public Check
{
    C01() : Check("C01") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        p.set("it.unique", 1);
        unsigned id    = 1;
        unsigned n     = 2 + rng.below(p.thorough ? 8 : 5);
        // One run in four without crashes: there everything must be exact
        bool crashes = !rng.chance(0.2);
        static const long gaps[] = {0, 400, 2000};
        p.set("gap", gaps[rng.below(3)]);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned k = 1 + rng.below(5);
            std::vector<unsigned> ids;
            for (unsigned j = 0; j < k; ++j)
                ids.push_back(id++);
            Op op("import");
            op.set("ids", ids_str(ids));
            if (rng.chance(0.2)) op.set("drop", 1);
            if (rng.chance(0.4)) op.set("st", 1 + rng.below(3));
            if (crashes && rng.chance(0.6))
            {
                op.set("crash", 1 + rng.below(2));
                op.set("at", rng.logu(60));
            }
            p.add(op);
            if (crashes && rng.chance(0.25)) p.add(Op("idle_crash"));
            if (rng.chance(0.5) || i == n - 1)
            {
                if (crashes && rng.chance(0.25)) p.add(Op("fix").set("crash", 1 + rng.below(2)).set("at", rng.logu(40)));
                Op f("fix");
                if (rng.chance(0.3)) f.set("accurate", 1);
                p.add(f);
                p.add(Op("verify"));
            }
        }
        if (rng.chance(0.4))
        {
            static const char* ops[] = {"repack", "repack", "repack", "tar", "zip", "compress"};
            Op o("maint");
            o.set("what", ops[rng.below(6)]);
            if (crashes && rng.chance(0.4)) o.set("crash", 1 + rng.below(2)).set("at", rng.logu(60));
            p.add(o);
            bool idle = crashes && rng.chance(0.4);
            if (idle) p.add(Op("idle_crash"));
            if (idle || o.args.count("crash")) p.add(Op("fix").set("accurate", rng.below(2)));
            p.add(Op("verify"));
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        const DsConf& d = w.ds[0];
        Model m;
        uint64_t losses = 0;
        long gap   = ctx.plan.num("gap", 0); // time between operations, in ms
        bool dirty = false; // a crash happened and the dataset was not fixed yet
        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            ctx.sim.now += gap * 1000000;
            if (op.name == "import")
            {
                auto items = w.items(op.str("ids"), d);
                ImportResult res;
                bool acked = false;
                bool alive = w.solo(
                    "import",
                    [&] {
                        auto r = w.import(d, items, replace_strategy(op), op.num("drop"));
                        res    = r;
                        acked  = true;
                    },
                    false, op.num("at"), op.num("crash"));
                for (size_t i = 0; i < items.size(); ++i)
                {
                    if (alive && acked && res.done && res.res[i] == (int)arki::metadata::Inbound::Result::OK) m.certain.insert(items[i].id);
                    else if (alive)
                    {
                        // Without injected errors imports succeed, unless a
                        // previous crash left things in need of fixing
                        if (!dirty)
                            ctx.require(false, "import-failed", "import failed without any fault: " + res.err + " (" + items[i].desc() + ")");
                    }
                    else
                        m.maybe.insert(items[i].id);
                }
                if (!alive)
                {
                    dirty          = true;
                    ctx.nontrivial = true;
                }
                // Even a failed import may have stored something
                if (alive && dirty)
                    for (auto& i : items)
                        if (!m.certain.count(i.id)) m.maybe.insert(i.id);
            }
            else if (op.name == "idle_crash")
            {
                ctx.sim.power_loss();
                ++ctx.sim.fired["power_loss"];
                dirty          = true;
                ctx.nontrivial = true;
            }
            else if (op.name == "fix")
            {
                CheckResult res;
                CheckOpts o;
                o.accurate = op.num("accurate");
                bool alive = w.solo("fix", [&] { res = w.check(d, o); }, false, op.num("at"), op.num("crash"));
                if (!alive) dirty = true;
                else
                {
                    ctx.require(!res.threw, "fix-failed", "check --fix failed after a crash: " + res.err);
                    dirty = false;
                }
            }
            else if (op.name == "maint")
            {
                CheckResult res;
                bool alive = w.solo(op.str("what"), [&] { res = w.checker_op(d, CheckOpts(), op.str("what")); }, false, op.num("at"), op.num("crash"));
                if (!alive) dirty = true;
                else
                    ctx.require(!res.threw, "repack-failed", op.str("what") + " failed: " + res.err);
            }
            else if (op.name == "verify")
            {
                if (dirty) continue;
                QueryResult q;
                w.solo("query", [&] { w.query(d, "", q); });
                std::string diff = m.compare(w, d, q);
                ctx.require(diff.empty(), "lost-ack", diff);
                m.resolve(q);
            }
            if (auto i = ctx.sim.fired.find("power_loss"); i != ctx.sim.fired.end() && i->second != losses)
            {
                losses = i->second;
                m.power_lost();
            }
            ctx.state(ctx.sim.fs.hash("/sim/ds"));
        }
    }
} c01;

} // namespace sim
