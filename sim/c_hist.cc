// C06, C07, C09, C10, C11: histories of operations without faults
// C08: maintenance interrupted by crashes and errors
#include "hist.h"

namespace sim {

struct HistCheck : public Check
{
    using Check::Check;
    void run(Ctx& ctx) override
    {
        Hist h(ctx);
        for (auto& op : ctx.plan.ops)
            h.exec(op);
    }
};

// Summaries are those of the data, after any history
struct C06 : public HistCheck
{
    C06() : HistCheck("C06") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        bool aged = g.ages(0.35);
        if (rng.chance(0.4)) g.setup(1 + rng.below(3));
        unsigned n = 4 + rng.below(p.thorough ? 16 : 8);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"remove", "remove", "repack", "fix", "query", "tar", "compress", "remove_all"};
            if (p.ops.empty() || rng.chance(0.5)) p.add(g.import());
            else if (rng.chance(aged ? 0.25 : 0.06))
                p.add(aged && rng.chance(0.5) ? Op("clock").set("day", rng.below(30)) : g.place());
            else
                p.add(g.maint(m[rng.below(8)]));
        }
    }
    void run(Ctx& ctx) override
    {
        HistCheck::run(ctx);
        ctx.nontrivial = ctx.plan.ops.size() > 2;
    }
} c06;

// Read only checks change nothing and announce what the real ones do
struct C07 : public HistCheck
{
    C07() : HistCheck("C07") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1, "+calstep");
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        p.set("clock", rng.below(30));
        if (rng.chance(0.4)) p.set("ds0.archive_age", 1 + rng.below(10));
        if (rng.chance(0.3)) p.set("ds0.delete_age", 3 + rng.below(20));
        if (rng.chance(0.4)) g.setup(1 + rng.below(3));
        unsigned n = 3 + rng.below(p.thorough ? 14 : 7);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"remove", "repack", "repack", "fix", "fix", "tar", "zip", "compress", "remove_all", "remove_old", "state"};
            if (p.ops.empty() || rng.chance(0.4)) p.add(g.import());
            else if (rng.chance(0.2))
                p.add(Op("clock").set("day", rng.below(40)));
            else if (rng.chance(0.1))
                p.add(g.place());
            else
            {
                Op op = g.maint(m[rng.below(11)]);
                if (op.name != "remove") op.set("dry", 1 + rng.below(2));
                p.add(op);
            }
        }
    }
    void run(Ctx& ctx) override
    {
        HistCheck::run(ctx);
        for (auto& o : ctx.plan.ops)
            if (o.num("dry")) ctx.nontrivial = true;
    }
} c07;

// Maintenance interrupted by crashes and errors loses nothing
struct C08 : public HistCheck
{
    C08() : HistCheck("C08") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1, "+calstep");
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        p.set("clock", rng.below(12));
        if (rng.chance(0.5)) p.set("ds0.archive_age", 1 + rng.below(6));
        bool errors = rng.chance(0.3);
        if (errors)
            swarm_faults(rng, p, {"open_eio", "open_emfile", "eio_read", "short_read", "eio_write", "short_write", "eintr_write", "stat_eio", "mkdir_eio", "unlink_eio", "rename_eio", "truncate_eio", "fsync_eio", "close_eio", "utimens_eio", "readdir_eio", "enospc"}, 60);
        // New datasets refuse to repack until they are checked
        if (rng.chance(0.7)) g.setup(errors ? 1 + rng.below(2) : 1 + rng.below(4));
        unsigned n = 2 + rng.below(p.thorough ? 10 : 6);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"remove", "remove", "repack", "repack", "repack", "fix", "tar", "zip", "compress", "compress"};
            if (p.ops.empty() || rng.chance(0.3)) p.add(g.import());
            else if (rng.chance(0.15))
                p.add(Op("clock").set("day", rng.below(20)));
            else
            {
                Op op = rng.chance(0.1) ? g.place() : g.maint(m[rng.below(10)]);
                if (rng.chance(0.75))
                {
                    if (errors) op.set("faults", 1);
                    else
                        op.set("crash", 1 + rng.below(2)).set("at", rng.logu(80));
                }
                p.add(op);
            }
        }
    }
} c08;

// Maintenance preserves the contents
struct C09 : public HistCheck
{
    C09() : HistCheck("C09") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        if (rng.chance(0.5)) p.set("further", 1);
        bool aged = g.ages(0.35);
        if (rng.chance(0.4)) g.setup(1 + rng.below(3));
        unsigned n = 3 + rng.below(p.thorough ? 16 : 8);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"repack", "repack", "fix", "tar", "zip", "compress", "remove", "state", "fix"};
            if (p.ops.empty() || rng.chance(0.35)) p.add(g.import(8));
            else if (rng.chance(aged ? 0.25 : 0.06))
                p.add(aged && rng.chance(0.5) ? Op("clock").set("day", rng.below(30)) : g.place());
            else
                p.add(g.maint(m[rng.below(9)]));
        }
    }
    void run(Ctx& ctx) override
    {
        HistCheck::run(ctx);
        ctx.nontrivial = ctx.plan.ops.size() > 2;
    }
} c09;

// Archive and delete ages
struct C10 : public HistCheck
{
    C10() : HistCheck("C10") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1, "+calstep");
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        p.set("clock", rng.below(8));
        if (rng.chance(0.75)) p.set("ds0.archive_age", rng.below(10));
        if (rng.chance(0.5)) p.set("ds0.delete_age", rng.below(30));
        if (rng.chance(0.4)) g.setup(1 + rng.below(3));
        unsigned n = 4 + rng.below(p.thorough ? 16 : 9);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"repack", "repack", "repack", "fix", "remove_old", "tar", "compress"};
            if (p.ops.empty() || rng.chance(0.3)) p.add(g.import());
            else if (rng.chance(0.4))
                p.add(Op("clock").set("day", rng.chance(0.2) ? 20 + rng.below(400) : rng.below(30)));
            else if (rng.chance(0.15))
                p.add(g.place());
            else
                p.add(g.maint(m[rng.below(7)]));
        }
    }
    void run(Ctx& ctx) override
    {
        HistCheck::run(ctx);
        for (auto& o : ctx.plan.ops)
            if (o.name == "clock") ctx.nontrivial = true;
    }
} c10;

// Removals are exact and final
struct C11 : public HistCheck
{
    C11() : HistCheck("C11") {}
    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        World::gen_base(rng, p);
        HistGen g(rng, p);
        // Modification times have a resolution of one second
        if (rng.chance(0.5)) p.set("gap", rng.chance(0.7) ? 0 : 400);
        bool aged = g.ages(0.35);
        if (rng.chance(0.4)) g.setup(1 + rng.below(3));
        unsigned n = 4 + rng.below(p.thorough ? 16 : 8);
        for (unsigned i = 0; i < n; ++i)
        {
            static const char* m[] = {"remove", "remove", "remove", "repack", "fix", "fix", "compress", "tar"};
            if (p.ops.empty() || rng.chance(0.35)) p.add(g.import());
            else if (rng.chance(aged ? 0.25 : 0.06))
                p.add(aged && rng.chance(0.5) ? Op("clock").set("day", rng.below(30)) : g.place());
            else
                p.add(g.maint(m[rng.below(8)]));
        }
    }
    void run(Ctx& ctx) override
    {
        HistCheck::run(ctx);
        for (auto& o : ctx.plan.ops)
            if (o.name == "remove") ctx.nontrivial = true;
    }
} c11;

} // namespace sim
