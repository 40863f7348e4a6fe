// C19: the locks on datasets and segments exclude what they say, and are
// always obtained in the end
#include "world.h"
#include <arki/core/lock.h>
#include <arki/dataset/iseg.h>
#include <arki/dataset/simple.h>

namespace sim {

struct C19 : public Check
{
    C19() : Check("C19") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1);
        World::gen_items(rng, p);
        unsigned nproc = 2 + rng.below(p.thorough ? 5 : 3);
        p.set("files", 1 + rng.below(2)); // segments (iseg)
        if (rng.chance(0.4)) p.set("f.lock_eintr", 1 + rng.logu(300));
        bool faults = rng.chance(0.2);
        if (faults) swarm_faults(rng, p, {"open_eio", "open_emfile", "mkdir_eio"}, 60);
        static const char* kinds[] = {"read", "read", "append", "check", "check", "fix", "fix", "try"};
        for (unsigned i = 0; i < nproc; ++i)
        {
            unsigned threads = rng.chance(0.2) ? 2 : 1;
            Op a("proc");
            a.set("threads", threads);
            if (rng.chance(0.2)) a.set("kill", 1 + rng.logu(30));
            if (faults && rng.chance(0.5)) a.set("pf", 1);
            a.set("delay", rng.chance(0.5) ? 0 : rng.logu(30));
            p.add(a);
            for (unsigned t = 0; t < threads; ++t)
                for (unsigned j = 0, n = 1 + rng.below(p.thorough ? 8 : 5); j < n; ++j)
                {
                    Op o("use");
                    o.set("proc", i).set("thread", t).set("kind", kinds[rng.below(8)]).set("file", rng.below(p.num("files")));
                    o.set("hold", rng.chance(0.5) ? 0 : rng.logu(50));
                    if (rng.chance(0.3)) o.set("again", 1); // a read lock inside of the other
                    if (rng.chance(0.3)) o.set("twice", 1); // escalate twice
                    p.add(o);
                }
        }
    }

    struct Holders
    {
        // Fibers in sections entered with each kind of lock
        std::map<const Fiber*, int> readers, appenders, writers;
        // Fibers asking for a read lock; fibers that may hold a write lock
        std::map<const Fiber*, int> want_read, may_write;
    };

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s          = ctx.sim;
        const DsConf& d = w.ds[0];
        s.fs.mkdirs(d.path() + "/2007");
        bool iseg = d.type == "iseg";
        std::map<std::string, Holders> files;
        // Create the dataset directory
        w.solo("create", [&] { w.import(d, w.items("1", d)); });
        std::vector<const Op*> procs;
        for (auto& op : ctx.plan.ops)
            if (op.name == "proc") procs.push_back(&op);
        unsigned tried = 0, refused = 0;
        auto alive = [](const Fiber* f) { return !f->dead && f->proc->alive && f->st != Fiber::DONE; };
        auto prune = [&](Holders& h) {
            for (auto m : {&h.readers, &h.appenders, &h.writers, &h.want_read, &h.may_write})
                for (auto i = m->begin(); i != m->end();)
                    if (!alive(i->first) || i->second <= 0) i = m->erase(i);
                    else ++i;
        };
        struct Section
        {
            std::map<const Fiber*, int>& m;
            const Fiber* f;
            Section(std::map<const Fiber*, int>& m, const Fiber* f) : m(m), f(f) { ++m[f]; }
            ~Section() { --m[f]; }
        };
        // The invariant, evaluated whenever someone enters or continues
        auto check = [&](const std::string& file, const char* what) {
            Holders& h = files[file];
            prune(h);
            ++ctx.evals;
            if (h.appenders.size() > 1) ctx.fail("two-writers", std::string("two holders of append or check locks at the same time, seen in ") + what);
            if (h.writers.size() > 1) ctx.fail("two-writers", std::string("two holders of write locks at the same time, seen in ") + what);
            // Readers only wait for writers
            if (h.may_write.empty())
                for (auto& r : h.want_read)
                    if (r.first->st == Fiber::BLOCKED && r.first->pred && !r.first->pred()) ctx.fail("reader-waits", std::string("a read lock has to wait while there is no write lock, seen in ") + what);
            for (auto& wr : h.writers)
            {
                for (auto& r : h.readers)
                    if (r.first != wr.first) ctx.fail("reader-and-writer", std::string("a read lock is held during a write lock, seen in ") + what);
                for (auto& a : h.appenders)
                    if (a.first != wr.first) ctx.fail("two-writers", std::string("an append lock is held during a write lock, seen in ") + what);
            }
        };
        auto hold = [&](const std::string& file, long n, const char* what) {
            check(file, what);
            for (long i = 0; i < n; ++i)
            {
                s.yield();
                if (i % 8 == 7) s.sleep_until(s.now + 1000000);
                check(file, what);
            }
        };
        std::map<const Fiber*, unsigned> done;
        auto use = [&](const Op& op) {
            Fiber* me        = s.cur;
            auto session     = w.session();
            auto ds          = w.open(d);
            auto simple      = std::dynamic_pointer_cast<arki::dataset::simple::Dataset>(ds);
            auto is          = std::dynamic_pointer_cast<arki::dataset::iseg::Dataset>(ds);
            std::string kind = op.str("kind");
            std::filesystem::path seg = "2007/0" + std::to_string(op.num("file") + 1) + "-01.grib";
            std::string file = iseg ? seg.native() : "";
            Holders& h       = files[file];
            long n           = op.num("hold");
            if (kind == "try" && iseg) kind = "append";
            if (kind == "try")
            {
                ++tried;
                prune(h);
                // Held all along by somebody else?
                auto l = simple->try_append_lock_dataset();
                prune(h);
                if (l)
                {
                    Section sec(h.appenders, me);
                    hold(file, n, "try");
                }
                else
                {
                    ++refused;
                }
                return;
            }
            if (kind == "read")
            {
                std::shared_ptr<arki::core::ReadLock> l;
                {
                    Section want(h.want_read, me);
                    l = iseg ? is->read_lock_segment(seg) : simple->read_lock_dataset();
                }
                Section sec(h.readers, me);
                hold(file, n, "read");
                if (op.num("again"))
                {
                    bool before = false, after = false;
                    prune(h);
                    for (auto& a : h.appenders)
                        before |= a.first != me;
                    std::set<const Fiber*> b;
                    for (auto& a : h.appenders)
                        b.insert(a.first);
                    uint64_t sw = s.switches;
                    bool got = l->append_in_progress();
                    prune(h);
                    for (auto& a : h.appenders)
                        after |= b.count(a.first);
                    if (before && after && sw == s.switches)
                        ctx.require(got, "append-unseen", "a reader did not see that an append lock was held");
                }
                return;
            }
            if (kind == "append")
            {
                std::shared_ptr<arki::core::AppendLock> l = iseg ? is->append_lock_segment(seg) : simple->append_lock_dataset();
                Section sec(h.appenders, me);
                hold(file, n, "append");
                return;
            }
            std::shared_ptr<arki::core::CheckLock> l = iseg ? is->check_lock_segment(seg) : simple->check_lock_dataset();
            Section sec(h.appenders, me);
            hold(file, n, "check");
            if (kind == "fix")
            {
                for (int k = 0; k < 1 + op.num("again"); ++k)
                {
                    {
                        Section may(h.may_write, me);
                        auto wl = l->write_lock();
                        Section ws(h.writers, me);
                        std::shared_ptr<arki::core::CheckWriteLock> w2;
                        if (op.num("twice")) w2 = l->write_lock();
                        hold(file, n, "write");
                        if (w2)
                        {
                            // It holds until the last is released
                            if (k) wl.reset();
                            else
                                w2.reset();
                            hold(file, n, "write");
                        }
                    }
                    // Back to a check lock: the others can read, not write
                    hold(file, n, "check after write");
                }
            }
        };
        unsigned finished = 0, expected = 0;
        std::set<size_t> second; // ended second threads
        bool faulty = false; // there are faults other than interruptions
        for (auto& k : ctx.plan.knobs)
            if (k.first.compare(0, 2, "f.") == 0 && k.first != "f.lock_eintr") faulty = true;
        for (size_t i = 0; i < procs.size(); ++i)
        {
            const Op& po = *procs[i];
            auto body    = [&, i](long t) {
                return [&, i, t] {
                    if (long us = procs[i]->num("delay")) s.sleep_until(s.now + us * 100000);
                    for (auto& op : ctx.plan.ops)
                    {
                        if (op.name != "use" || op.num("proc") != (long)i || op.num("thread") != t) continue;
                        try
                        {
                            use(op);
                        }
                        catch (Fail& f)
                        {
                            if (!s.failed) s.failed = std::make_unique<Fail>(f);
                            break;
                        }
                        catch (std::exception& e)
                        {
                            if (!procs[i]->num("pf") && op.str("kind") != "try")
                            {
                                if (!s.failed) s.failed = std::make_unique<Fail>(Fail{"spurious-error", std::string("a lock could not be taken: ") + e.what()});
                                break;
                            }
                        }
                    }
                    ++finished;
                    // The process ends with its main thread
                    if (t == 0 && procs[i]->num("threads") > 1) s.block("join", [&, i] { return second.count(i) != 0; });
                    if (t) second.insert(i);
                };
            };
            Process* pr = s.spawn("p" + std::to_string(i), body(0));
            pr->faults  = po.num("pf") || !faulty;
            if (po.num("kill"))
            {
                long us = po.num("kill");
                Sim* ps = &s;
                s.spawn("killer", [ps, us, pr] {
                    ps->sleep_until(ps->now + us * 100000);
                    if (pr->alive) ps->kill_process(pr, 9);
                });
            }
            ++expected;
            if (po.num("threads") > 1)
            {
                s.add_fiber(pr, body(1));
                ++expected;
            }
        }
        ctx.nontrivial = true;
        ctx.faults_on();
        w.run_all("processes using locks");
        ctx.faults_off();
        ctx.state(fnv(finished, std::to_string(refused)));
        bool killed = false;
        for (auto& p : procs)
            killed |= p->num("kill") != 0;
        if (!killed) ctx.require(finished == expected, "unfinished", "not all processes ended");
        // Everything was released
        w.solo("after", [&] {
            auto ds     = w.open(d);
            auto simple = std::dynamic_pointer_cast<arki::dataset::simple::Dataset>(ds);
            auto is     = std::dynamic_pointer_cast<arki::dataset::iseg::Dataset>(ds);
            if (simple)
                ctx.require((bool)simple->try_append_lock_dataset(), "not-released", "the dataset is still locked after everybody ended");
            for (int f = 0; is && f < ctx.plan.num("files"); ++f)
            {
                auto l = is->check_lock_segment("2007/0" + std::to_string(f + 1) + "-01.grib");
                l->write_lock();
            }
        });
        if (refused) s.probe("lock_refused");
    }
} c19;

} // namespace sim
