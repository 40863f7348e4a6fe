// Histories of operations on one dataset, with a model of its contents
#ifndef ARKISIM_HIST_H
#define ARKISIM_HIST_H

#include "world.h"

namespace sim {

struct Hist
{
    Ctx& ctx;
    World w;
    DsConf& d;

    struct N
    {
        int on = 0, arch = 0, ro = 0; // online, in an archive, in a read only archive
        int total() const { return on + arch + ro; }
    };
    struct Range
    {
        int lo = 0, hi = 0;
    };
    std::map<unsigned, N> cur;     // what is there: known from the last verify
    std::map<unsigned, Range> exp; // how many copies there may be now
    std::map<unsigned, N> where;   // expected position, if strict
    bool strict = true;            // positions are known
    std::map<unsigned, int> ghosts; // removed, and maybe still in the data files: how many copies
    std::map<std::string, std::map<unsigned, int>> away; // archives that are offline
    bool crashed = false;          // at least one crash or error so far
    uint64_t losses = 0;
    std::set<std::string> converted; // segments that were converted

    explicit Hist(Ctx& ctx);

    void exec(const Op& op);
    void verify(const std::string& when, const std::string& m);

protected:
    void import(const Op& op);
    void maintain(const Op& op);
    void removal(const Op& op);
    void unarchive(const Op& op);
    void move_durable(const std::string& from, const std::string& to);
    void move_dataset();
    void move_archive(const Op& op);
    void freeze_archive(const Op& op);
    void offline_archive(const Op& op);
    void make_legacy(const Op& op);
    std::string segment_on_disk(const std::string& dir, const std::string& relpath) const;
    void verify_paths(const std::string& when, const QueryResult& q);
    void settle();
    long long now_day() const; // days since epoch
    bool conv(const Item& it);
    bool run(const Op& op, const std::string& name, std::function<void()> fn);
    std::set<std::string> to_do();
    std::set<std::string> done_by(const CheckResult& r, bool real, const std::string& what);
};

// Days since epoch of the end of the segment an item goes to (first day after it)
long long segment_end_day(const DsConf& d, const Item& it);
long long day_number(int y, int m, int d);

// Plan generation
struct HistGen
{
    Rng& rng;
    Plan& p;
    unsigned id = 1;
    std::vector<unsigned> ids;

    HistGen(Rng& rng, Plan& p) : rng(rng), p(p) {}
    Op import(unsigned max = 5);
    Op maint(const char* what);
    // Operations that put data and archives elsewhere
    Op place();
    // Archives, and a clock that moves, on datasets with calendar steps
    bool ages(double chance);
    // A few imports, and a check so that repacking is allowed
    void setup(unsigned imports);
    void some_query(Op& op) { if (rng.chance(0.5)) op.set("m", gen_day_query(rng, p)); }
};

} // namespace sim
#endif
