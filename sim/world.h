// Arkimet workloads: datasets, operations on them, and a reference model
#ifndef ARKISIM_WORLD_H
#define ARKISIM_WORLD_H

#include "check.h"
#include "items.h"
#include <arki/core/cfg.h>
#include <arki/dataset.h>
#include <arki/dataset/reporter.h>
#include <arki/dataset/session.h>
#include <arki/metadata/inbound.h>
#include <arki/summary.h>
#include <functional>
#include <set>

namespace sim {

struct DsConf
{
    std::string name;
    std::string type; // simple, iseg
    arki::DataFormat format = arki::DataFormat::GRIB;
    std::string step        = "daily";
    bool dirseg             = false;
    long archive_age = -1, delete_age = -1;
    bool smallfiles = false;
    std::string replace;   // iseg
    bool unique = false;   // iseg: enforce unique=reftime,product,origin
    bool eatmydata = false;
    long gz_group  = -1;
    std::string dir; // name of the directory, if it was moved
    std::string path() const { return "/sim/ds/" + (dir.empty() ? name : dir); }
    std::shared_ptr<arki::core::cfg::Section> cfg() const;
    bool is_dir() const;
    std::string segment_of(const Item& it) const; // relpath of the segment (with extension)
};

struct ImportResult
{
    std::vector<int> res; // arki::metadata::Inbound::Result
    bool threw = false;
    std::string err;
    bool done = false; // returned from the call
};

struct Got
{
    bool valid = false; // bytes parse as an item
    Item item;
    std::string bytes, error, mdkey;
    bool meta_ok = false;
    bool read_ok = false;
    bool arch    = false; // comes from the archive
    std::string archive;  // name of the archive it comes from
    std::string file;     // relative path of its segment
};

struct QueryResult
{
    std::vector<Got> got;
    bool threw = false;
    std::string err;
    bool done = false;
    bool retval = false;
};

struct SummaryResult
{
    unsigned long long count = 0, size = 0;
    arki::core::Interval interval;
    std::string yaml;
    bool threw = false;
    std::string err;
    bool done = false;
};

struct Report : public arki::dataset::Reporter
{
    struct Line
    {
        std::string kind, ds, path, msg;
    };
    std::vector<Line> lines;
    void add(const std::string& kind, const std::string& ds, const std::string& path, const std::string& msg) { lines.push_back({kind, ds, path, msg}); }
#define REP_OP(n) \
    void n(const std::string& ds, const std::string& op, const std::string& m) override { add(#n, ds, op, m); }
#define REP_SEG(n) \
    void n(const std::string& ds, const std::filesystem::path& p, const std::string& m) override { add(#n, ds, p.native(), m); }
    REP_OP(operation_progress)
    REP_OP(operation_manual_intervention)
    REP_OP(operation_aborted)
    REP_OP(operation_report)
    REP_SEG(segment_info)
    REP_SEG(segment_repack)
    REP_SEG(segment_archive)
    REP_SEG(segment_remove)
    REP_SEG(segment_deindex)
    REP_SEG(segment_rescan)
    REP_SEG(segment_tar)
    REP_SEG(segment_compress)
    REP_SEG(segment_issue51)
    REP_SEG(segment_manual_intervention)
    unsigned count(const std::string& kind) const;
    // Lines that report something done or to be done
    unsigned actions() const;
    std::string to_string() const;
};

struct CheckResult
{
    Report rep;
    bool threw = false;
    std::string err;
    bool done = false;
};

struct CheckOpts
{
    bool readonly = false, accurate = false, online = true, offline = true;
    std::string filter;
};

struct World
{
    Ctx& ctx;
    std::vector<DsConf> ds;
    Rng itemrng{1};
    long days, vars, maxlen, months, base, group, edge;
    bool unique_keys;
    arki::DataFormat format = arki::DataFormat::GRIB;

    explicit World(Ctx& ctx);

    Item item(unsigned id, const DsConf& d) const;
    std::vector<Item> items(const std::string& ids, const DsConf& d) const;

    // ---- to be called in a simulated process
    std::shared_ptr<arki::dataset::Session> session();
    std::shared_ptr<arki::dataset::Dataset> open(const DsConf& d);
    ImportResult import(const DsConf& d, const std::vector<Item>& items, arki::ReplaceStrategy rs = arki::ReplaceStrategy::DEFAULT, bool drop_cached = false);
    void query(const DsConf& d, const std::string& q, QueryResult& res, bool with_data = true, std::function<bool(size_t)> on_item = nullptr);
    void query_path(const std::string& path, const DsConf& d, const std::string& q, QueryResult& res);
    void query_dataset(std::function<std::shared_ptr<arki::dataset::Dataset>()> open, const DsConf& d, const std::string& q, QueryResult& res, bool with_data, std::function<bool(size_t)> on_item);
    SummaryResult summary(const DsConf& d, const std::string& q);
    std::string bytes(const DsConf& d, const std::string& q);
    CheckResult check(const DsConf& d, const CheckOpts& o);
    CheckResult repack(const DsConf& d, const CheckOpts& o);
    CheckResult checker_op(const DsConf& d, const CheckOpts& o, const std::string& what);
    CheckResult unarchive(const DsConf& d, const std::string& relpath);
    // Remove these items, where they are online
    CheckResult remove(const DsConf& d, const std::set<unsigned>& ids);

    // ---- run one process alone to completion
    // Returns false if it was killed
    bool solo(const std::string& name, std::function<void()> fn, bool faults = false, int crash_in = 0, int crash_kind = 0);
    // Run everything spawned; a deadlock or an endless run is a violation
    void run_all(const char* what);

    // ---- random configurations
    static void gen_ds(Rng& rng, Plan& plan, unsigned n, const std::string& opts = "");
    static void gen_items(Rng& rng, Plan& plan);
    // When data starts: call it before generating queries
    static void gen_base(Rng& rng, Plan& plan);
};

// Date of a day counted from 2007-07-01
void date_of(long n, int& ye, int& mo, int& da);
// The replace strategy of an import
inline arki::ReplaceStrategy replace_strategy(const Op& op)
{
    static const arki::ReplaceStrategy all[] = {arki::ReplaceStrategy::DEFAULT, arki::ReplaceStrategy::NEVER, arki::ReplaceStrategy::ALWAYS, arki::ReplaceStrategy::HIGHER_USN};
    return all[op.num("st") & 3];
}

// Matches what a query "reftime:<op>YYYY-MM-DD[,<op>...]" should match
bool match_day(const std::string& m, const Item& it);
std::string gen_day_query(Rng& rng, const Plan& p);

// Identity of an item as told by its metadata
std::string md_key(const arki::Metadata& md);
std::string ids_str(const std::vector<unsigned>& ids);
std::vector<unsigned> parse_ids(const std::string& s);

// Multiset of ids
typedef std::map<unsigned, int> Bag;
Bag bag_of(const QueryResult& r);
std::string bag_str(const Bag& b);

} // namespace sim
#endif
