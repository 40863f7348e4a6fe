// C12: iseg datasets keep one version of each datum, chosen by the replace
// strategy, whatever runs at the same time
#include "world.h"
#include <algorithm>
#include <arki/metadata.h>
#include <arki/query.h>
#include <climits>
#include <unistd.h>

using arki::ReplaceStrategy;
using arki::metadata::Inbound;

namespace sim {

namespace {

typedef std::map<std::string, unsigned> Keys; // key -> id of the version stored

enum Strategy
{
    NEVER  = 1,
    ALWAYS = 2,
    USN    = 3,
};

struct Event
{
    bool write = false;
    long start = 0, end = -1;
    // write: items in the order in which they are stored, and whether each was
    // accepted (1), rejected (0), or it is not known (-1)
    std::vector<Item> items;
    std::vector<int> res;
    Strategy strategy = NEVER;
    bool optional     = false;
    // read
    Keys seen;
    std::string m;
};

struct Model
{
    bool unique;
    arki::DataFormat format;
    std::map<unsigned, Item> all;

    std::string key(const Item& it) const { return unique ? it.key() : it.key().substr(0, 14); }

    // Whether it is accepted; -1 if either is
    int accepts(const Keys& s, const Item& it, Strategy st) const
    {
        auto i = s.find(key(it));
        if (i == s.end()) return 1;
        if (st == NEVER) return 0;
        if (st == ALWAYS) return 1;
        if (format != arki::DataFormat::BUFR) return 0;
        const Item& old = all.at(i->second);
        if (it.usn < 0 || old.usn < 0) return 0;
        if (it.usn == old.usn) return -1;
        return it.usn > old.usn;
    }

    // All the states after applying e to s, consistently with its results
    std::vector<Keys> apply(const Keys& s, const Event& e) const
    {
        std::vector<Keys> cur{s};
        for (size_t i = 0; i < e.items.size(); ++i)
        {
            std::vector<Keys> next;
            for (auto& c : cur)
            {
                int acc = accepts(c, e.items[i], e.strategy);
                if (acc != 0 && e.res[i] != 0)
                {
                    Keys n                  = c;
                    n[key(e.items[i])] = e.items[i].id;
                    next.push_back(n);
                }
                if (acc != 1 && e.res[i] != 1) next.push_back(c);
            }
            cur = next;
            if (cur.empty()) break;
        }
        if (e.optional) cur.push_back(s);
        return cur;
    }

    bool visible(const Keys& s, const Event& e) const
    {
        Keys want;
        for (auto& i : s)
            if (match_day(e.m, all.at(i.second))) want.insert(i);
        return want == e.seen;
    }

    // Look for an order of the events that explains them, and the final state
    bool explain(const Keys& s, const std::vector<Event*>& ev, uint64_t todo, const Keys& final, std::set<std::pair<uint64_t, Keys>>& seen) const
    {
        if (!todo) return s == final;
        if (s == final)
        {
            // What may not have happened needs not be placed
            bool needed = false;
            for (size_t i = 0; i < ev.size(); ++i)
                if ((todo & (1ull << i)) && !ev[i]->optional) needed = true;
            if (!needed) return true;
        }
        if (!seen.insert({todo, s}).second) return false;
        // Too many orders to try: not judged
        if (seen.size() > 20000) return true;
        long first_end = LONG_MAX;
        for (size_t i = 0; i < ev.size(); ++i)
            if (todo & (1ull << i)) first_end = std::min(first_end, ev[i]->end);
        for (size_t i = 0; i < ev.size(); ++i)
        {
            if (!(todo & (1ull << i)) || ev[i]->start > first_end) continue;
            uint64_t rest = todo & ~(1ull << i);
            if (!ev[i]->write)
            {
                if (visible(s, *ev[i]) && explain(s, ev, rest, final, seen)) return true;
            }
            else
                for (auto& n : apply(s, *ev[i]))
                    if (explain(n, ev, rest, final, seen)) return true;
        }
        return false;
    }
};

std::string str(const Keys& k)
{
    std::string r;
    for (auto& i : k)
        r += (r.empty() ? "" : " ") + i.first + "=#" + std::to_string(i.second);
    return "{" + r + "}";
}

} // namespace

struct C12 : public Check
{
    C12() : Check("C12") {}

    void gen(Rng& rng, Plan& p) override
    {
        World::gen_ds(rng, p, 1, rng.chance(0.6) ? "+iseg+bufr" : "+iseg");
        World::gen_items(rng, p);
        static const char* repl[] = {"no", "yes", "USN"};
        if (rng.chance(0.7)) p.set("ds0.replace", repl[rng.below(3)]);
        p.set("it.unique", 0L);
        p.set("it.days", 1 + rng.below(2));
        p.set("it.months", 1);
        p.set("it.vars", 1 + rng.below(3));
        if (rng.chance(0.3)) p.set("it.nousn", 1);
        bool kills  = rng.chance(0.25);
        bool faults = !kills && rng.chance(0.25);
        if (faults) swarm_faults(rng, p, {"open_eio", "open_emfile", "eintr_read", "eio_read", "short_read", "eintr_write", "eio_write", "short_write", "stat_eio", "mkdir_eio", "rename_eio", "fsync_eio", "utimens_eio", "lock_eintr", "readdir_eio", "close_eio", "enospc"}, 60);
        unsigned id = 1, total = 0;
        auto import = [&](long ph, long w) {
            Op op("import");
            std::vector<unsigned> ids;
            for (unsigned k = 0, n = 1 + rng.below(4); k < n; ++k)
                ids.push_back(id > 1 && rng.chance(0.15) ? 1 + rng.below(id - 1) : id++);
            op.set("ph", ph).set("w", w).set("ids", ids_str(ids));
            if (rng.chance(0.6)) op.set("st", 1 + rng.below(3));
            if (rng.chance(0.2)) op.set("wait", rng.logu(2000));
            if (kills && rng.chance(0.3)) op.set("crash", 1).set("at", rng.logu(50));
            if (faults && rng.chance(0.5)) op.set("faults", 1);
            total += ids.size();
            return op;
        };
        unsigned phases = 1 + rng.below(p.thorough ? 6 : 4);
        for (unsigned ph = 0; ph < phases; ++ph)
        {
            unsigned writers = rng.chance(0.3) ? 1 : 2 + rng.below(2);
            long wk          = 0;
            for (unsigned j = 0; j < writers; ++j, ++wk)
                for (unsigned k = 0, n = 1 + rng.below(2); k < n; ++k)
                    p.add(import(ph, wk));
            if (rng.chance(0.3))
            {
                for (unsigned k = 0, n = 1 + rng.below(2); k < n; ++k)
                {
                    Op op("query");
                    op.set("ph", ph).set("w", wk);
                    if (rng.chance(0.3)) op.set("m", gen_day_query(rng, p));
                    if (rng.chance(0.3)) op.set("wait", rng.logu(2000));
                    p.add(op);
                }
                ++wk;
            }
            if (rng.chance(0.3))
            {
                static const char* m[] = {"repack", "fix", "fix"};
                Op op(m[rng.below(3)]);
                op.set("ph", ph).set("w", wk);
                if (op.name == "fix" && rng.chance(0.4)) op.set("accurate", 1);
                p.add(op);
                ++wk;
            }
            // Between phases
            if (rng.chance(0.35))
            {
                static const char* m[] = {"repack", "fix", "unindex", "unindex"};
                Op op(m[rng.below(4)]);
                op.set("ph", ph).set("idle", 1);
                if (rng.chance(0.3)) op.set("accurate", 1);
                p.add(op);
            }
        }
        if (rng.chance(0.25))
        {
            static const char* m[] = {"tar", "zip", "compress"};
            p.add(Op(m[rng.below(3)]).set("ph", phases - 1).set("idle", 1));
        }
    }

    void run(Ctx& ctx) override
    {
        World w(ctx);
        const DsConf& d = w.ds[0];
        Sim& s          = ctx.sim;
        s.now0 = s.now = 1185926400LL * 1000000000LL + 10 * 86400 * 1000000000LL + (ctx.plan.seed % 1000) * 1000003;
        Model m;
        m.unique = d.unique;
        m.format = d.format;
        Strategy def = d.replace == "yes" ? ALWAYS : d.replace == "USN" ? USN : NEVER;
        std::map<std::string, Keys> state; // by segment
        std::set<unsigned> ghosts;         // data that may have been left in segments by interrupted imports
        long tick = 0;
        for (auto& op : ctx.plan.ops)
            if (op.name == "import")
                for (auto& i : w.items(op.str("ids"), d))
                    m.all[i.id] = i;

        std::map<std::string, std::vector<std::unique_ptr<Event>>> events; // by segment
        bool lenient = false;

        // Results of a query, by segment
        auto view = [&](const std::string& what, QueryResult& q) {
            std::map<std::string, Keys> res;
            for (auto& g : q.got)
            {
                ctx.require(g.read_ok, "unreadable", what + " returned an item that cannot be read: " + g.error);
                ctx.require(g.valid && g.meta_ok, "wrong-bytes", what + " returned bytes that are not those of the item");
                auto& k = res[d.segment_of(g.item)];
                auto i  = k.find(m.key(g.item));
                ctx.require(i == k.end(), "two-versions", what + " returned two versions of the same item: #" + std::to_string(i == k.end() ? 0 : i->second) + " and " + g.item.desc());
                k[m.key(g.item)] = g.item.id;
            }
            return res;
        };

        auto do_import = [&](const Op& op, Process* self) {
            auto items   = w.items(op.str("ids"), d);
            Strategy st  = op.num("st") ? (Strategy)op.num("st") : def;
            ReplaceStrategy rs = ReplaceStrategy::DEFAULT;
            if (op.num("st") == NEVER) rs = ReplaceStrategy::NEVER;
            if (op.num("st") == ALWAYS) rs = ReplaceStrategy::ALWAYS;
            if (op.num("st") == USN) rs = ReplaceStrategy::HIGHER_USN;
            // Until it is over, all it does is possible
            std::map<std::string, std::vector<size_t>> by_segment;
            for (size_t i = 0; i < items.size(); ++i)
                by_segment[d.segment_of(items[i])].push_back(i);
            long start = ++tick;
            std::map<std::string, Event*> mine;
            std::vector<std::pair<std::string, Event*>> pending;
            for (auto& b : by_segment)
                for (auto i : b.second)
                {
                    events[b.first].emplace_back(new Event);
                    Event* e    = events[b.first].back().get();
                    e->write    = true;
                    e->start    = start;
                    e->end      = LONG_MAX;
                    e->items    = {items[i]};
                    e->res      = {-1};
                    e->strategy = st;
                    e->optional = true;
                    pending.push_back({b.first, e});
                }
            ImportResult r = w.import(d, items, rs, op.num("drop"));
            long end       = ++tick;
            auto failed    = [&](size_t i) { return !r.done || (r.res[i] == (int)Inbound::Result::ERROR && !(st == USN && d.format == arki::DataFormat::BUFR && items[i].usn >= 0)); };
            for (auto& b : by_segment)
            {
                bool bad = false;
                for (auto i : b.second)
                    if (failed(i)) bad = true;
                if (bad)
                {
                    ctx.require(lenient, "import-failed", "an import failed: " + r.err);
                    for (auto i : b.second)
                        ghosts.insert(items[i].id);
                    continue;
                }
                // It is known what happened
                auto& ev = events[b.first];
                for (auto& p : pending)
                    if (p.first == b.first) ev.erase(std::find_if(ev.begin(), ev.end(), [&](auto& x) { return x.get() == p.second; }));
                ev.emplace_back(new Event);
                Event* e    = ev.back().get();
                e->write    = true;
                e->start    = start;
                e->end      = end;
                e->strategy = st;
                auto order  = b.second;
                std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return items[a].time() < items[b].time(); });
                bool any_error = false;
                for (auto i : order)
                {
                    e->items.push_back(items[i]);
                    e->res.push_back(r.res[i] == (int)Inbound::Result::OK);
                    if (r.res[i] == (int)Inbound::Result::ERROR) any_error = true;
                }
                // An error may be about versions that cannot be compared, or a
                // failure: then nothing was stored
                if (any_error && lenient) e->optional = true;
            }
        };
        auto do_query = [&](const Op& op) {
            QueryResult q;
            long start = ++tick;
            w.query(d, op.str("m"), q);
            long end = ++tick;
            ctx.require(!q.threw, "query-failed", "a query failed: " + q.err);
            auto v = view("a query", q);
            // Segments it should look at, even if empty
            std::set<std::string> segs;
            for (auto& i : m.all)
                segs.insert(d.segment_of(i.second));
            for (auto& seg : segs)
            {
                events[seg].emplace_back(new Event);
                Event* e = events[seg].back().get();
                e->start = start;
                e->end   = end;
                e->seen  = v[seg];
                e->m     = op.str("m");
            }
        };
        auto do_maint = [&](const Op& op) {
            CheckOpts o;
            o.accurate = op.num("accurate");
            CheckResult r = w.checker_op(d, o, op.name == "fix" ? "check" : op.name);
            ctx.require(!r.threw || lenient, "maintenance-failed", op.name + " failed: " + r.err);
        };

        // All is quiet: what is there must be explained
        auto verify = [&](const std::string& when, bool rescanned) {
            s.now += 2000000000;
            QueryResult q;
            w.solo("query", [&] { w.query(d, "", q); });
            ctx.require(!q.threw, "query-failed", "a query failed " + when + ": " + q.err);
            auto now = view("a query " + when, q);
            std::set<std::string> segs;
            for (auto& i : events) segs.insert(i.first);
            for (auto& i : state) segs.insert(i.first);
            for (auto& i : now) segs.insert(i.first);
            // Data left behind by interrupted imports may come back
            if (rescanned)
                for (auto id : ghosts)
                {
                    std::string seg = d.segment_of(m.all[id]);
                    bool there      = false;
                    for (auto& e : events[seg])
                        if (e->optional && e->strategy == ALWAYS && e->items[0].id == id) there = true;
                    if (there) continue;
                    events[seg].emplace_back(new Event);
                    Event* e    = events[seg].back().get();
                    e->write    = true;
                    e->end      = LONG_MAX;
                    e->items    = {m.all[id]};
                    e->res      = {-1};
                    e->strategy = ALWAYS;
                    e->optional = true;
                }
            unsigned long long size = 0;
            for (auto& g : q.got)
                size += g.bytes.size();
            for (auto& seg : segs)
            {
                std::vector<Event*> ev;
                for (auto& e : events[seg])
                    ev.push_back(e.get());
                Keys final = now[seg];
                if (ev.size() > 60)
                {
                    // Too many to judge
                    state[seg] = final;
                    continue;
                }
                std::set<std::pair<uint64_t, Keys>> seen;
                bool ok = m.explain(state[seg], ev, ev.empty() ? 0 : (~0ull >> (64 - ev.size())), final, seen);
                std::string desc;
                if (!ok)
                    for (auto e : ev)
                    {
                        desc += "; [" + std::to_string(e->start) + "," + (e->end == LONG_MAX ? "-" : std::to_string(e->end)) + "] ";
                        if (!e->write) desc += "query '" + e->m + "' saw " + str(e->seen);
                        else
                        {
                            desc += e->strategy == NEVER ? "never" : e->strategy == ALWAYS ? "always" : "usn";
                            for (size_t i = 0; i < e->items.size(); ++i)
                                desc += " " + e->items[i].desc() + (e->res[i] == 1 ? " stored" : e->res[i] == 0 ? " rejected" : " unknown");
                            if (e->optional) desc += " (may have failed)";
                        }
                    }
                ctx.require(ok, "unexplained", "no order of the imports explains the contents of " + seg + " " + when + ": before " + str(state[seg]) + " after " + str(final) + desc);
                state[seg] = final;
            }
            events.clear();
            // Replaced versions do not count
            SummaryResult r;
            w.solo("summary", [&] { r = w.summary(d, ""); });
            ctx.require(!r.threw, "query-failed", "a summary query failed " + when + ": " + r.err);
            ctx.require(r.count == q.got.size() && (d.format == arki::DataFormat::VM2 || r.size == size), "summary",
                        "a summary " + when + " counts " + std::to_string(r.count) + " items and " + std::to_string(r.size) + " bytes instead of " + std::to_string(q.got.size()) + " and " + std::to_string(size));
            ctx.state(s.fs.hash("/sim/ds"));
        };

        std::vector<long> phases;
        for (auto& op : ctx.plan.ops)
            if (std::find(phases.begin(), phases.end(), op.num("ph")) == phases.end()) phases.push_back(op.num("ph"));
        for (auto ph : phases)
        {
            s.set_scope("ph" + std::to_string(ph) + ".");
            std::map<long, std::vector<const Op*>> procs;
            bool kills = false, faults = false, fixes = false;
            for (auto& op : ctx.plan.ops)
            {
                if (op.num("ph") != ph || op.num("idle")) continue;
                s.log("OP %s", op.to_string().c_str());
                procs[op.num("w")].push_back(&op);
                if (op.num("crash")) kills = true;
                if (op.name == "fix") fixes = true;
                if (op.num("faults")) faults = true;
            }
            lenient = kills || faults;
            if (faults) ctx.faults_on();
            std::map<long, Process*> running;
            for (auto& p : procs)
            {
                auto ops      = p.second;
                auto self     = std::make_shared<Process*>();
                Process* proc = s.spawn(ops[0]->name + std::to_string(p.first), [&, ops, self] {
                    for (auto op : ops)
                    {
                        if (op->num("wait")) s.sleep_until(s.now + (ns_t)op->num("wait") * 1000);
                        (*self)->faults = op->num("faults");
                        if (op->name == "import") do_import(*op, *self);
                        else if (op->name == "query")
                            do_query(*op);
                        else
                            do_maint(*op);
                        (*self)->faults = false;
                    }
                });
                *self = proc;
                for (auto op : ops)
                    if (op->num("crash"))
                    {
                        proc->crash_in   = op->num("at");
                        proc->crash_kind = 1;
                    }
                running[p.first] = proc;
            }
            w.run_all("concurrent imports");
            ctx.faults_off();
            for (auto& r : running)
                if (r.second->has_error) ctx.fail("exception", "unexpected exception: " + r.second->error);
            if (procs.size() > 1 || kills || faults) ctx.nontrivial = true;
            lenient = false;
            if (kills)
            {
                for (auto& seg : events)
                    for (auto& e : seg.second)
                        if (e->write && e->end == LONG_MAX) ghosts.insert(e->items[0].id);
            }
            if (kills || faults)
            {
                s.now += 2000000000;
                CheckResult r;
                w.solo("fix", [&] { r = w.check(d, CheckOpts()); });
                ctx.require(!r.threw, "fix-failed", "check --fix failed after imports were interrupted: " + r.err);
            }
            verify("after concurrent imports", kills || faults || fixes);
            for (auto& op : ctx.plan.ops)
            {
                if (op.num("ph") != ph || !op.num("idle")) continue;
                ctx.begin(op);
                s.now += 2000000000;
                if (op.name == "unindex")
                {
                    w.solo("unindex", [&] {
                        for (auto& f : s.fs.tree(d.path()))
                            if (f.find(".index") != std::string::npos) ::unlink(f.c_str());
                    });
                    CheckResult r;
                    CheckOpts o;
                    o.accurate = op.num("accurate");
                    w.solo("fix", [&] { r = w.check(d, o); });
                    ctx.require(!r.threw, "fix-failed", "check --fix failed after an index was removed: " + r.err);
                }
                else
                    w.solo(op.name, [&] { do_maint(op); });
                s.set_scope("ph" + std::to_string(ph) + "v.");
                verify("after " + op.name, op.name == "unindex" || op.name == "fix");
            }
        }
    }
} c12;

} // namespace sim
