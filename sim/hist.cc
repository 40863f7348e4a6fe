#include "hist.h"
#include <algorithm>
#include <arki/utils/sqlite.h>
#include <arki/utils/sys.h>

using namespace arki;

namespace sim {

long long day_number(int y, int m, int d)
{
    // days from civil
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe  = (unsigned)(y - era * 400);
    unsigned doy  = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe  = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long long)doe - 719468;
}

long long segment_end_day(const DsConf& d, const Item& it)
{
    if (d.step == "daily") return day_number(it.ye, it.mo, it.da) + 1;
    if (d.step == "monthly") return it.mo == 12 ? day_number(it.ye + 1, 1, 1) : day_number(it.ye, it.mo + 1, 1);
    if (d.step == "yearly") return day_number(it.ye + 1, 1, 1);
    throw std::logic_error("segment_end_day is not available for step " + d.step);
}

Hist::Hist(Ctx& ctx) : ctx(ctx), w(ctx), d(w.ds[0])
{
    if (ctx.plan.num("clock", -1) >= 0)
        ctx.sim.clock_jump = (day_number(2007, 7, 1) + ctx.plan.num("it.base") + ctx.plan.num("clock")) * 86400000000000LL + 45296000000000LL - ctx.sim.now;
}

long long Hist::now_day() const { return ctx.sim.wall() / 86400000000000LL; }

bool Hist::conv(const Item& it)
{
    std::string s = d.path() + "/" + d.segment_of(it);
    Fs& fs        = ctx.sim.fs;
    return fs.exists(s + ".gz") || fs.exists(s + ".tar") || fs.exists(s + ".zip");
}

bool Hist::run(const Op& op, const std::string& name, std::function<void()> fn)
{
    bool faults = op.num("faults");
    uint64_t nf = ctx.sim.nfaults;
    if (faults) ctx.faults_on();
    bool alive = w.solo(name, fn, faults, op.num("at"), op.num("crash"));
    ctx.faults_off();
    if ((uint64_t)ctx.sim.nfaults != nf)
    {
        crashed        = true;
        ctx.nontrivial = true;
    }
    if (!alive)
    {
        crashed        = true;
        ctx.nontrivial = true;
    }
    if (auto i = ctx.sim.fired.find("power_loss"); i != ctx.sim.fired.end() && i->second != losses) losses = i->second;
    return alive;
}

// After a crash: repair before looking
void Hist::settle()
{
    CheckResult res;
    w.solo("fix", [&] { res = w.check(d, CheckOpts()); });
    ctx.require(!res.threw, "fix-failed", "check --fix failed after an interrupted operation: " + res.err);
}

void Hist::exec(const Op& op)
{
    ctx.begin(op);
    // Usually operations are not so quick to follow one another that their
    // modification times cannot be told apart
    ctx.sim.clock_jump += ctx.plan.num("gap", 2000) * 1000000LL;
    strict = true;
    where  = cur;
    exp.clear();
    for (auto& i : cur)
        exp[i.first] = Range{i.second.total(), i.second.total()};
    uint64_t nf = ctx.sim.nfaults;
    std::set<std::string> before;
    bool further = ctx.plan.num("further") && op.name != "clock" && op.name != "query" && op.name != "state" && op.name != "legacy";
    if (further) before = to_do();
    if (op.name == "import") import(op);
    else if (op.name == "remove") removal(op);
    else if (op.name == "clock")
        ctx.sim.clock_jump = (day_number(2007, 7, 1) + ctx.plan.num("it.base") + op.num("day")) * 86400000000000LL + 45296000000000LL - ctx.sim.now;
    else if (op.name == "query") verify("query", op.str("m"));
    else if (op.name == "unarchive") unarchive(op);
    else if (op.name == "mvds") move_dataset();
    else if (op.name == "mvarc") move_archive(op);
    else if (op.name == "roarc") freeze_archive(op);
    else if (op.name == "offarc") offline_archive(op);
    else if (op.name == "legacy") make_legacy(op);
    else
        maintain(op);
    if (further && !crashed && (uint64_t)ctx.sim.nfaults == nf)
    {
        // What did not need fixing before does not need it after
        std::string diff;
        for (auto& i : to_do())
            if (!before.count(i)) diff += " " + i;
        ctx.require(diff.empty(), "left-to-do", "after " + op.to_string() + " a check finds what it did not before:" + diff);
    }
    ctx.state(ctx.sim.fs.hash("/sim/ds"));
}

// What a check finds that should be fixed
std::set<std::string> Hist::to_do()
{
    CheckOpts ro;
    ro.readonly = ro.online = ro.offline = true;
    CheckResult res;
    w.solo("recheck", [&] { res = w.checker_op(d, ro, "check"); });
    ctx.require(!res.threw, "recheck-failed", "check failed: " + res.err);
    return done_by(res, false, "fix");
}

std::string Hist::segment_on_disk(const std::string& dir, const std::string& relpath) const
{
    for (const char* suffix : {"", ".gz", ".tar", ".zip"})
        if (ctx.sim.fs.exists(dir + "/" + relpath + suffix)) return relpath + suffix;
    return std::string();
}

// arki-check --unarchive of one of the segments of the last archive
void Hist::unarchive(const Op& op)
{
    std::string last = d.path() + "/.archive/last";
    std::set<std::string> segs;
    for (auto& i : cur)
    {
        std::string s = d.segment_of(w.item(i.first, d));
        if (i.second.arch && !segment_on_disk(last, s).empty()) segs.insert(s);
    }
    if (segs.empty() || ctx.sim.fs.exists(last + ".summary")) return;
    auto si = segs.begin();
    std::advance(si, op.num("n") % segs.size());
    std::string seg = *si;
    bool collides   = !segment_on_disk(d.path(), seg).empty();
    bool several    = false; // data may also be in other archives
    for (unsigned i = 0; i < 3; ++i)
        if (ctx.sim.fs.exists(d.path() + "/.archive/old" + std::to_string(i))) several = true;
    CheckResult res;
    uint64_t nf = ctx.sim.nfaults;
    bool alive  = run(op, "unarchive", [&] { res = w.unarchive(d, seg); });
    bool clean  = alive && (uint64_t)ctx.sim.nfaults == nf;
    if (clean && !collides && !crashed) ctx.require(res.done, "unarchive-failed", "unarchiving " + seg + " failed: " + res.err);
    if (clean && collides) ctx.require(!res.done, "unarchive-overwrites", "unarchiving " + seg + " succeeded, and it was there already");
    if (!clean || !res.done || several) strict = false;
    if (alive && res.done)
        for (auto& i : cur)
            if (d.segment_of(w.item(i.first, d)) == seg)
            {
                where[i.first].on += where[i.first].arch;
                where[i.first].arch = 0;
            }
    if (!alive || !res.done) settle();
    verify("after unarchiving a segment", op.str("m"));
}

void Hist::move_durable(const std::string& from, const std::string& to)
{
    uint64_t p1, u1, p2, u2;
    std::string n1, n2;
    Fs& fs = ctx.sim.fs;
    if (fs.resolve(from, 0, true, p1, n1, u1) < 0 || fs.resolve(to, 0, true, p2, n2, u2) < 0) throw std::runtime_error("cannot move " + from);
    fs.rename(p1, n1, p2, n2);
    fs.fsync(p2);
}

// Datasets can be moved elsewhere
void Hist::move_dataset()
{
    std::string from = d.path();
    d.dir            = d.dir.empty() ? "moved" : "";
    move_durable(from, d.path());
    verify("after moving the dataset", "");
}

// Archives can be renamed
void Hist::move_archive(const Op& op)
{
    std::string root = d.path() + "/.archive/";
    std::string to   = root + "old" + std::to_string(op.num("n") % 3);
    if (!ctx.sim.fs.exists(root + "last") || ctx.sim.fs.exists(to) || ctx.sim.fs.exists(to + ".summary")) return;
    move_durable(root + "last", to);
    verify("after renaming an archive", "");
}

// An archive with a .summary file next to it is read only
void Hist::freeze_archive(const Op& op)
{
    std::string root = d.path() + "/.archive/";
    std::string arc  = root + "old" + std::to_string(op.num("n") % 3);
    if (!ctx.sim.fs.exists(arc)) return;
    if (ctx.sim.fs.exists(arc + ".summary"))
        w.solo("ro", [&] { utils::sys::unlink(arc + ".summary"); });
    else
        ctx.sim.fs.put(arc + ".summary", ctx.sim.fs.exists(arc + "/summary") ? ctx.sim.fs.read_all(arc + "/summary") : "");
    strict = false;
    verify("after making an archive read only, or no more so", "");
}

// An archive is taken to another medium, leaving its summary, or brought back
void Hist::offline_archive(const Op& op)
{
    std::string name, arc, there;
    for (unsigned i = 0; i < 3; ++i)
    {
        name  = "old" + std::to_string((op.num("n") + i) % 3);
        arc   = d.path() + "/.archive/" + name;
        there = "/sim/away/" + name;
        if (ctx.sim.fs.exists(arc) || ctx.sim.fs.exists(there)) break;
    }
    if (!ctx.sim.fs.exists(arc) && !ctx.sim.fs.exists(there) && !ctx.sim.fs.exists(arc + ".summary") && ctx.sim.fs.exists(d.path() + "/.archive/last"))
        move_durable(d.path() + "/.archive/last", arc);
    ctx.sim.fs.mkdirs("/sim/away");
    strict = false;
    if (ctx.sim.fs.exists(there))
    {
        if (ctx.sim.fs.exists(arc)) return;
        ctx.sim.probe("archive_back_online");
        move_durable(there, arc);
        for (auto& i : away[name])
        {
            exp[i.first].lo += i.second;
            exp[i.first].hi += i.second;
        }
        away.erase(name);
        verify("after bringing back an offline archive", op.str("m"));
    }
    else if (ctx.sim.fs.exists(arc))
    {
        QueryResult q;
        w.solo("query", [&] { w.query(d, "", q); });
        ctx.require(!q.threw, "wrong-contents", "query failed: " + q.err);
        std::map<unsigned, int> gone;
        for (auto& g : q.got)
            if (g.arch && g.archive == name) ++gone[g.item.id];
        w.solo("offline", [&] {
            core::cfg::Section cfg;
            cfg.set("name", name);
            cfg.set("type", "simple");
            cfg.set("path", arc);
            cfg.set("step", d.step);
            Summary sum;
            w.session()->dataset(cfg)->create_reader()->query_summary(Matcher(), sum);
            sum.writeAtomically(arc + ".summary");
        });
        ctx.sim.probe("archive_offline");
        move_durable(arc, there);
        for (auto& i : gone)
        {
            exp[i.first].lo -= i.second;
            exp[i.first].hi -= i.second;
        }
        away[name] = gone;
        verify("after taking an archive offline", op.str("m"));
    }
}

// Old versions of arkimet had an index.sqlite file in place of MANIFEST
void Hist::make_legacy(const Op& op)
{
    std::string dir = d.path();
    if (d.type != "simple" || (op.num("n") % 2 && ctx.sim.fs.exists(dir + "/.archive/last/MANIFEST"))) dir += "/.archive/last";
    if (!ctx.sim.fs.exists(dir + "/MANIFEST")) return;
    w.solo("legacy", [&] {
        // One may be there still, after a conversion that was interrupted
        utils::sys::unlink_ifexists(dir + "/index.sqlite");
        std::string lines = ctx.sim.fs.read_all(dir + "/MANIFEST");
        {
            utils::sqlite::SQLiteDB db;
            db.open(dir + "/index.sqlite");
            db.exec("CREATE TABLE files (id INTEGER PRIMARY KEY, file TEXT NOT NULL, mtime INTEGER NOT NULL, start_time TEXT NOT NULL, end_time TEXT NOT NULL, UNIQUE(file))");
            utils::sqlite::InsertQuery ins(db);
            ins.compile("INSERT INTO files (file, mtime, start_time, end_time) VALUES (?, ?, ?, ?)");
            for (size_t pos = 0; pos < lines.size();)
            {
                size_t e = lines.find('\n', pos);
                if (e == std::string::npos) e = lines.size();
                std::vector<std::string> f(1);
                for (size_t i = pos; i < e; ++i)
                    if (lines[i] == ';') f.emplace_back();
                    else
                        f.back() += lines[i];
                pos = e + 1;
                if (f.size() != 4) continue;
                long long mtime = std::stoll(f[1]);
                ins.reset();
                ins.bind(1, f[0]);
                ins.bind(2, (sqlite3_int64)mtime);
                ins.bind(3, f[2]);
                ins.bind(4, f[3]);
                ins.step();
            }
        }
        utils::sys::unlink(dir + "/MANIFEST");
    });
    verify("after going back to an index.sqlite", op.str("m"));
}

void Hist::import(const Op& op)
{
    auto items = w.items(op.str("ids"), d);
    ImportResult res;
    bool acked = false;
    uint64_t nf = ctx.sim.nfaults;
    // What should happen to each item
    enum { STORE, DUP, REPLACE, EITHER, DISCARD, REFUSE, ANY };
    std::vector<int> want;
    std::map<unsigned, int> here;
    std::set<std::string> busy;
    for (auto& i : items)
    {
        long long day = day_number(i.ye, i.mo, i.da);
        if (d.delete_age >= 0 && day < now_day() - d.delete_age) want.push_back(DISCARD);
        else if (d.archive_age >= 0 && day < now_day() - d.archive_age)
            want.push_back(REFUSE);
        else if (conv(i))
        {
            want.push_back(ANY);
            busy.insert(d.segment_of(i));
        }
        else if (d.type == "iseg" && cur[i.id].on + here[i.id] > 0)
            want.push_back(op.num("st") == 2 ? REPLACE : op.num("st") == 3 ? EITHER : DUP);
        else
        {
            want.push_back(STORE);
            ++here[i.id];
        }
    }
    bool alive = run(op, "import", [&] {
        auto r = w.import(d, items, replace_strategy(op), op.num("drop"));
        res    = r;
        acked  = true;
    });
    bool clean = alive && (uint64_t)ctx.sim.nfaults == nf;
    typedef metadata::Inbound::Result R;
    // A batch for segments that cannot be appended to fails as a whole, or in part
    bool failing = std::find(want.begin(), want.end(), (int)ANY) != want.end();
    for (size_t n = 0; n < items.size(); ++n)
    {
        auto& i = items[n];
        auto& e = exp[i.id];
        // One version takes the place of another that is identical to it
        bool same = want[n] == REPLACE || want[n] == EITHER || (want[n] == ANY && d.type == "iseg" && cur[i.id].on > 0);
        if (clean && !failing) ctx.require(res.done, "import-failed", "import failed: " + res.err);
        if (!alive || !acked || !res.done)
        {
            if (want[n] != DISCARD && want[n] != REFUSE && !same) ++e.hi;
            strict = false;
            continue;
        }
        int r = res.res[n];
        std::string desc = i.desc() + " got result " + std::to_string(r);
        if (!clean || failing)
        {
            strict = false;
            if (same) continue;
            if (r == (int)R::OK && want[n] != DISCARD) ++e.lo, ++e.hi;
            else if (r == (int)R::ERROR && want[n] != REFUSE)
                ++e.hi;
            continue;
        }
        switch (want[n])
        {
            case STORE:
                ctx.require(r == (int)R::OK, "import-failed", "item to be stored: " + desc);
                ++e.lo;
                ++e.hi;
                ++where[i.id].on;
                break;
            case REPLACE: ctx.require(r == (int)R::OK, "import-result", "item to be replaced: " + desc); break;
            case EITHER: ctx.require(r == (int)R::OK || r == (int)R::DUPLICATE, "import-result", "item with the same update number: " + desc); break;
            case DUP: ctx.require(r == (int)R::DUPLICATE, "import-result", "duplicate item: " + desc); break;
            case DISCARD: ctx.require(r == (int)R::OK, "import-result", "item older than delete age: " + desc); break;
            case REFUSE: ctx.require(r == (int)R::ERROR, "import-result", "item older than archive age: " + desc); break;
        }
    }
    if (!alive) settle();
    verify("after an import", op.str("m"));
}

void Hist::removal(const Op& op)
{
    auto v = parse_ids(op.str("ids"));
    std::set<unsigned> ids(v.begin(), v.end());
    CheckResult res;
    uint64_t nf = ctx.sim.nfaults;
    bool alive  = run(op, "remove", [&] { res = w.remove(d, ids); });
    bool ok     = alive && res.done;
    if (alive && (uint64_t)ctx.sim.nfaults == nf) ctx.require(res.done, "remove-failed", "remove failed: " + res.err);
    for (auto i : ids)
    {
        if (!cur.count(i) || !cur[i].on) continue;
        exp[i].lo -= cur[i].on;
        if (ok) exp[i].hi -= cur[i].on;
        else
            strict = false;
        where[i].on = 0;
        ghosts[i] += cur[i].on;
    }
    if (!ok) settle();
    verify("after a remove", op.str("m"));
}

std::set<std::string> Hist::done_by(const CheckResult& r, bool real, const std::string& what)
{
    std::set<std::string> res;
    for (auto& l : r.rep.lines)
    {
        if (l.kind.compare(0, 8, "segment_") != 0 || l.kind == "segment_info") continue;
        // check does not repack, it only tells
        if (what == "fix" && l.kind == "segment_repack") continue;
        // repack does not rescan, it only tells
        if (what == "repack" && l.kind == "segment_rescan") continue;
        res.insert(l.kind + " " + l.ds + ":" + l.path);
    }
    return res;
}

void Hist::maintain(const Op& op)
{
    CheckOpts o;
    o.online   = op.num("online", 1);
    o.offline  = op.num("offline", 1);
    o.accurate = op.num("accurate");
    o.filter   = op.str("filter");
    std::string what = op.name == "fix" ? "check" : op.name;

    CheckResult dry;
    bool compare_dry = false;
    if (op.num("dry"))
    {
        CheckOpts ro = o;
        ro.readonly  = true;
        auto before  = ctx.sim.fs.snapshot(d.path());
        w.solo("dry-" + what, [&] { dry = w.checker_op(d, ro, what); });
        ctx.require(!dry.threw, "dry-run-failed", "read only " + what + " failed: " + dry.err);
        auto after = ctx.sim.fs.snapshot(d.path());
        auto ends_with = [](const std::string& p, const std::string& x) {
            return p.size() >= x.size() && p.compare(p.size() - x.size(), x.size(), x) == 0;
        };
        auto skip = [&](const std::string& p) {
            auto ends = [&](const char* s) { return ends_with(p, s); };
            return ends("/lock") || ends(".lock") || ends("needs-check-do-not-pack") || ends("-shm") || ends("-wal") || p.find("/.summaries") != std::string::npos;
        };
        for (auto& i : before)
        {
            if (skip(i.first)) continue;
            auto j = after.find(i.first);
            // Indices of old versions are converted as they are met
            if (j == after.end() && ends_with(i.first, "/index.sqlite")) continue;
            ctx.require(j != after.end(), "dry-run-changed", "read only " + what + " removed " + i.first);
            if (i.first.find(".index") != std::string::npos) continue;
            ctx.require(j->second == i.second, "dry-run-changed", "read only " + what + " changed " + i.first);
        }
        for (auto& i : after)
        {
            if (skip(i.first) || before.count(i.first) || i.second == "<dir>" || i.second.empty()) continue;
            // caches
            if (i.first == d.path() + "/summary") continue;
            if (ends_with(i.first, "/MANIFEST") && before.count(i.first.substr(0, i.first.size() - 8) + "index.sqlite")) continue;
            ctx.fail("dry-run-changed", "read only " + what + " created " + i.first);
        }
        verify("after a read only " + what, op.str("m"));
        exp.clear();
        for (auto& i : cur)
            exp[i.first] = Range{i.second.total(), i.second.total()};
        where       = cur;
        compare_dry = true;
    }
    if (op.num("dry") == 2) return;

    // A dataset that needs checking refuses to repack
    bool refused = what == "repack" && ctx.sim.fs.exists(d.path() + "/needs-check-do-not-pack");

    // Segments that should be converted: by name, what they should become
    std::vector<std::pair<std::string, std::string>> convertible;
    if (!crashed && o.filter.empty() && (what == "tar" || what == "zip" || what == "compress"))
    {
        std::vector<std::string> dirs;
        if (o.online) dirs.push_back(d.path());
        if (o.offline)
            for (const char* a : {"last", "old0", "old1", "old2"})
                if (!ctx.sim.fs.exists(d.path() + "/.archive/" + a + ".summary")) dirs.push_back(d.path() + "/.archive/" + a);
        std::set<std::string> segs;
        for (auto& i : cur)
            if (i.second.total()) segs.insert(d.segment_of(w.item(i.first, d)));
        for (auto& dir : dirs)
            for (auto& s : segs)
            {
                std::string path = dir + "/" + s;
                // Of segments in archives it is not known if data are in them
                // or in others
                if (!ctx.sim.fs.exists(path)) continue;
                bool is_dir = ctx.sim.fs.exists(path + "/.sequence");
                if (is_dir != (what != "compress")) continue;
                convertible.emplace_back(path, path + (what == "compress" ? ".gz" : "." + what));
            }
    }

    CheckResult res;
    uint64_t nf = ctx.sim.nfaults;
    bool alive  = run(op, what, [&] { res = w.checker_op(d, o, what); });
    bool clean  = alive && (uint64_t)ctx.sim.nfaults == nf;
    bool ok     = alive && res.done;
    // If the clock went backwards there can be data online for an already
    // archived segment: archiving refuses to overwrite it
    bool collides = false;
    if (!ok && what == "repack" && res.err.find("because the destination already exists") != std::string::npos)
        for (auto& i : cur)
            if (i.second.arch) collides = true;
    if (collides) clean = false;
    if (clean) ctx.require(res.done, what + "-failed", what + " failed: " + res.err);
    if (clean && compare_dry)
    {
        auto a = done_by(dry, false, op.name), b = done_by(res, true, op.name);
        std::string diff;
        for (auto& i : a)
            if (!b.count(i)) diff += " announced and not done: " + i;
        for (auto& i : b)
            if (!a.count(i)) diff += " done and not announced: " + i;
        ctx.require(diff.empty(), "dry-run-differs", "read only " + what + ":" + diff);
    }
    if (!ok || !clean) strict = false;
    if (clean && res.done)
        for (auto& c : convertible)
        {
            ctx.require(ctx.sim.fs.exists(c.second), "not-converted", what + " did not create " + c.second);
            ctx.require(!ctx.sim.fs.exists(c.first), "not-converted", what + " left " + c.first);
        }

    // What should be there now
    for (auto& i : cur)
    {
        N& n      = i.second;
        if (!n.total()) continue;
        N& x      = where[i.first];
        Item it   = w.item(i.first, d);
        bool gone = false; // what is online goes away
        bool move = false; // what is online goes to the archive
        if ((what == "repack" && o.online && !refused) || (what == "remove_old" && o.online))
        {
            if (d.delete_age >= 0 && segment_end_day(d, it) <= now_day() - d.delete_age) gone = true;
            else if (what == "repack" && d.archive_age >= 0 && segment_end_day(d, it) <= now_day() - d.archive_age)
                move = true;
        }
        else if (what == "remove_all" && o.online)
            gone = true;
        int lost = gone ? n.on : 0;
        if (what == "remove_all" && o.offline) lost += n.arch, x.arch = 0;
        if (what == "remove_old" && o.offline && d.delete_age >= 0 && segment_end_day(d, it) <= now_day() - d.delete_age) lost += n.arch, x.arch = 0;
        if (gone) x.on = 0;
        if (move) x.arch += x.on, x.on = 0;
        if (lost)
        {
            auto& e = exp[i.first];
            e.lo -= lost;
            if (ok) e.hi -= lost;
            ghosts[i.first] += lost;
        }
    }
    if (!alive) settle();
    else if (!ok)
        settle();
    if (what == "repack" && ok && !refused && o.online && o.filter.empty()) ghosts.clear();
    verify("after " + what, op.str("m"));
    if (what == "repack" && ok && clean && !refused && !crashed && o.filter.empty() && ctx.plan.num("further"))
    {
        CheckOpts ro = o;
        ro.readonly  = true;
        CheckResult again;
        w.solo("recheck", [&] { again = w.checker_op(d, ro, "check"); });
        ctx.require(!again.threw, "recheck-failed", "check failed: " + again.err);
        for (auto& l : again.rep.lines)
            ctx.require(l.kind != "segment_repack", "left-to-do", "after a repack, " + l.ds + ":" + l.path + " still should be packed");
    }
    if (op.name == "fix" && clean && !crashed && o.online && o.offline && o.filter.empty())
    {
        // Nothing left to fix
        CheckOpts ro = o;
        ro.readonly  = true;
        CheckResult again;
        w.solo("recheck", [&] { again = w.checker_op(d, ro, "check"); });
        ctx.require(!again.threw, "recheck-failed", "check failed: " + again.err);
        auto todo = done_by(again, false, "fix");
        ctx.require(todo.empty(), "not-converged", "after check --fix there still is something to fix: " + (todo.empty() ? "" : *todo.begin()) + again.rep.to_string());
    }
}

void Hist::verify(const std::string& when, const std::string& m)
{
    QueryResult q;
    w.solo("query", [&] { w.query(d, "", q); });
    ctx.require(!q.threw, "wrong-contents", when + ": query failed: " + q.err);
    std::map<unsigned, N> got;
    unsigned long long size = 0;
    for (auto& g : q.got)
    {
        ctx.require(g.read_ok, "wrong-contents", when + ": data cannot be read: " + g.error);
        ctx.require(g.valid, "wrong-contents", when + ": query returned bytes that were never imported");
        Item want = w.item(g.item.id, d);
        ctx.require(want.bytes() == g.bytes, "wrong-contents", when + ": item " + std::to_string(g.item.id) + " has the wrong bytes");
        ctx.require(g.meta_ok, "wrong-contents", when + ": item " + std::to_string(g.item.id) + " is described by metadata that are not its own");
        if (g.arch && ctx.sim.fs.exists(d.path() + "/.archive/" + g.archive + ".summary")) ++got[g.item.id].ro;
        else if (g.arch)
            ++got[g.item.id].arch;
        else
            ++got[g.item.id].on;
        size += g.bytes.size();
    }
    // After a crash, segments may be rebuilt from data that was removed from
    // the index only
    if (crashed)
        for (auto& g : ghosts)
        {
            int& hi = exp[g.first].hi;
            int had = hi;
            hi += g.second;
            if (d.type == "iseg") hi = std::max(had, std::min(hi, 1));
            int n = got.count(g.first) ? got[g.first].total() : 0;
            if (n > had) g.second = std::max(0, g.second - (n - had));
        }
    for (auto& e : exp)
    {
        int n = got.count(e.first) ? got[e.first].total() : 0;
        std::string what = when + ": item " + w.item(e.first, d).desc();
        ctx.require(n >= e.second.lo, "wrong-contents", what + " is missing: found " + std::to_string(n) + " instead of " + std::to_string(e.second.lo));
        if (n > e.second.hi)
            ctx.require(false, "wrong-contents", what + (e.second.hi ? " is there too many times" : " should not be there"));
    }
    for (auto& g : got)
        ctx.require(exp.count(g.first), "wrong-contents", when + ": item " + std::to_string(g.first) + " should not be there");
    if (strict)
        for (auto& x : where)
        {
            N n = got.count(x.first) ? got[x.first] : N();
            ctx.require(n.on == x.second.on && n.arch == x.second.arch && n.ro == x.second.ro, "wrong-place",
                        when + ": item " + w.item(x.first, d).desc() + " has " + std::to_string(n.on) + " copies online and " + std::to_string(n.arch) + " archived instead of " + std::to_string(x.second.on) + " and " + std::to_string(x.second.arch));
        }
    cur = got;

    // Summary of everything, and a filtered query and summary
    for (int n = 0; n < 2; ++n)
    {
        std::string mm = n ? m : "";
        if (n && m.empty()) break;
        unsigned count = 0;
        size           = 0;
        Bag expected;
        bool any = false;
        core::Time mn, mx;
        for (auto& g : cur)
        {
            Item it = w.item(g.first, d);
            int t   = g.second.total();
            if (!t || !match_day(mm, it)) continue;
            expected[g.first] = t;
            count += t;
            size += t * it.bytes().size();
            if (!any || it.time() < mn) mn = it.time();
            if (!any || mx < it.time()) mx = it.time();
            any = true;
        }
        // Offline archives still have their summary, where data is found by
        // ranges of reference times
        unsigned off_count          = 0;
        unsigned long long off_size = 0;
        for (auto& a : away)
            for (auto& i : a.second)
            {
                Item it = w.item(i.first, d);
                off_count += i.second;
                off_size += i.second * it.bytes().size();
                if (!any || it.time() < mn) mn = it.time();
                if (!any || mx < it.time()) mx = it.time();
                any = true;
            }
        if (!n) count += off_count, size += off_size;
        bool range = n && off_count;
        if (range) any = false;
        SummaryResult s;
        w.solo("summary", [&] { s = w.summary(d, mm); });
        ctx.require(!s.threw, "wrong-summary", when + ": summary query failed: " + s.err);
        ctx.require(range ? s.count >= count && s.count <= count + off_count && s.size >= size && s.size <= size + off_size : s.count == count && s.size == size, "wrong-summary",
                    when + ": summary of '" + mm + "' counts " + std::to_string(s.count) + " items, " + std::to_string(s.size) + " bytes instead of " + std::to_string(count) + ", " + std::to_string(size));
        if (any)
            ctx.require(s.interval.begin == mn && s.interval.end.to_sql() >= mx.to_sql(), "wrong-summary", when + ": summary of '" + mm + "' has the wrong reference times");
        if (n)
        {
            QueryResult f;
            w.solo("query", [&] { w.query(d, mm, f); });
            ctx.require(!f.threw, "wrong-query", when + ": query of '" + mm + "' failed: " + f.err);
            for (auto& g : f.got)
                ctx.require(g.read_ok && g.valid && g.meta_ok, "wrong-query", when + ": query of '" + mm + "' returned wrong data");
            Bag b = bag_of(f);
            ctx.require(b == expected, "wrong-query", when + ": query of '" + mm + "' returned " + bag_str(b) + " instead of " + bag_str(expected));
        }
    }
    if (ctx.plan.num("config")) verify_paths(when, q);
    exp.clear();
    for (auto& i : cur)
        exp[i.first] = Range{i.second.total(), i.second.total()};
    where  = cur;
    strict = true;
}

// The dataset and its archives can be found also without their configuration
void Hist::verify_paths(const std::string& when, const QueryResult& q)
{
    ctx.sim.fs.put(d.path() + "/config", d.cfg()->to_string());
    std::set<std::string> paths{d.path()};
    std::string root = d.path() + "/.archive/";
    if (ctx.sim.fs.exists(d.path() + "/.archive"))
        for (auto& n : ctx.sim.fs.tree(d.path() + "/.archive"))
            if (n.compare(0, root.size(), root) == 0 && n.size() > root.size())
                if (size_t e = n.find('/', root.size()); e != std::string::npos) paths.insert(n.substr(0, e));
    for (auto& path : paths)
    {
        bool all = path == d.path();
        std::map<unsigned, int> want, got;
        for (auto& g : q.got)
            if (all || (g.arch && root + g.archive == path)) ++want[g.item.id];
        QueryResult r;
        w.solo("query", [&] { w.query_path(path, d, "", r); });
        std::string what = when + ": opening " + path + " by its path: ";
        ctx.require(!r.threw, "wrong-by-path", what + r.err);
        for (auto& g : r.got)
        {
            ctx.require(g.read_ok && g.valid && g.meta_ok, "wrong-by-path", what + "a query returned wrong data");
            ++got[g.item.id];
        }
        ctx.require(want == got, "wrong-by-path", what + "a query returned " + std::to_string(r.got.size()) + " items, not the ones that are there");
    }
}

Op HistGen::import(unsigned max)
{
    unsigned k = 1 + rng.below(max);
    std::vector<unsigned> v;
    for (unsigned j = 0; j < k; ++j)
    {
        if (!ids.empty() && rng.chance(0.12)) v.push_back(ids[rng.below(ids.size())]);
        else
        {
            v.push_back(id);
            ids.push_back(id++);
        }
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    Op op("import");
    op.set("ids", ids_str(v));
    if (rng.chance(0.15)) op.set("drop", 1);
    if (rng.chance(0.25)) op.set("st", 1 + rng.below(3));
    some_query(op);
    return op;
}

Op HistGen::place()
{
    static const char* names[] = {"unarchive", "unarchive", "mvds", "mvarc", "roarc", "mvarc", "offarc", "offarc"};
    bool simple = p.str("ds0.type") == "simple", aged = p.num("ds0.archive_age", -1) >= 0;
    Op op(aged ? names[rng.below(8)] : "mvds");
    if (op.name == "offarc" && rng.chance(0.6))
    {
        // Make sure that there is an archive
        p.add(Op("clock").set("day", 25 + rng.below(10)));
        p.add(Op("fix"));
        p.add(Op("repack"));
    }
    if ((simple || aged) && rng.chance(0.2)) op.name = "legacy";
    op.set("n", rng.below(6));
    some_query(op);
    return op;
}

bool HistGen::ages(double chance)
{
    const std::string& step = p.str("ds0.step");
    if (step == "weekly" || step == "biweekly" || !rng.chance(chance)) return false;
    p.set("ds0.archive_age", rng.below(10));
    p.set("clock", rng.below(8));
    return true;
}

void HistGen::setup(unsigned imports)
{
    for (unsigned i = 0; i < imports; ++i)
        p.add(import());
    p.add(Op("fix"));
    p.set("config", rng.chance(0.4));
}

Op HistGen::maint(const char* what)
{
    Op op(what);
    if (op.name == "remove")
    {
        std::vector<unsigned> v;
        unsigned k = 1 + rng.below(4);
        for (unsigned i = 0; i < k && !ids.empty(); ++i)
            v.push_back(ids[rng.below(ids.size())]);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        op.set("ids", ids_str(v));
    }
    else
    {
        if (rng.chance(0.3))
        {
            op.set("online", 1);
            op.set("offline", 0);
        }
        else if (rng.chance(0.15))
        {
            op.set("online", 0);
            op.set("offline", 1);
        }
        if (op.name == "fix" && rng.chance(0.3)) op.set("accurate", 1);
    }
    some_query(op);
    return op;
}

} // namespace sim
