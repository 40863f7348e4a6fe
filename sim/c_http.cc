// C18: remote datasets, and a network that fails
#include "bag.h"
#include "http_sim.h"
#include "walk.h"
#include <algorithm>
#include <arki/core/cfg.h>
#include <arki/dataset/http.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/segmented.h>
#include <arki/matcher.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/segment/session.h>
#include <arki/stream.h>

namespace sim {

namespace {

struct ConsumerFailed : public std::runtime_error
{
    ConsumerFailed() : std::runtime_error("the consumer failed") {}
};

// What happened to a request
struct Exchange
{
    std::string url;
    int ds           = -1;
    bool data        = false; // query or summary
    bool failed      = false; // the client can tell
    bool cut         = false; // the body ends early, with nothing else to tell
    bool server_died = false; // as above, because of the server
    bool refused     = false; // a server where nothing is wrong refused the query
    std::string body, sent;
    std::string message;
};

const char* kinds[] = {"refuse", "timeout", "cut", "cutu", "cutu", "status", "garbage", "loop", "redir", "hop"};

} // namespace

struct C18 : public Check
{
    C18() : Check("C18") {}

    void gen(Rng& rng, Plan& p) override
    {
        unsigned n = 1 + rng.below(4);
        World::gen_ds(rng, p, n);
        World::gen_items(rng, p);
        bool any = false;
        for (unsigned i = 0; i < n; ++i)
        {
            long h = rng.chance(0.15) ? -1 : rng.below(2);
            p.set("host" + std::to_string(i), h);
            any |= h >= 0;
        }
        if (!any) p.set("host0", 0L);
        for (unsigned h = 0; h < 2; ++h)
            p.set("alias" + std::to_string(h), (long)rng.below(rng.chance(0.3) ? 3 : 2));
        // An alias that only the client has
        p.set("mine", 1 + (long)rng.below(2));
        bool sf = rng.chance(0.3);
        if (sf) swarm_faults(rng, p, {"open_eio", "open_emfile", "eintr_read", "eio_read", "short_read", "stat_eio", "readdir_eio", "lock_eintr"}, 40);
        unsigned id = 1;
        for (unsigned i = 0; i < n; ++i)
            if (rng.chance(0.9))
            {
                std::vector<unsigned> ids;
                for (unsigned k = 0, m = 1 + rng.below(rng.chance(0.2) ? 30 : 8); k < m; ++k)
                    ids.push_back(id++);
                p.add(Op("import").set("ds", i).set("ids", ids_str(ids)));
            }
        unsigned runs = 1 + rng.below(p.thorough ? 10 : 5);
        for (unsigned i = 0; i < runs; ++i)
        {
            static const char* modes[] = {"data", "data", "data", "nodata", "nodata", "summary", "bytes", "config", "expand"};
            Op o("get");
            std::string mode = modes[rng.below(9)];
            o.set("mode", mode);
            if (rng.chance(0.4)) o.set("m", gen_day_query(rng, p));
            if (rng.chance(0.3)) o.set("alias", rng.chance(0.35) ? 2 : 1);
            if (rng.chance(0.3)) o.set("sort", rng.chance(0.5) ? "reftime" : "-reftime");
            o.set("one", rng.chance(0.5) ? (long)rng.below(n) : -1);
            if (rng.chance(0.2)) o.set("stop", rng.logu(20));
            else if (rng.chance(0.15)) o.set("throw", rng.logu(20));
            if (rng.chance(0.3)) o.set("fresh", 1);
            unsigned reps = rng.chance(0.3) ? 2 + rng.below(2) : 1;
            o.set("reps", reps);
            o.set("chunk", rng.chance(0.5) ? 16384 : rng.logu(600));
            if (rng.chance(0.5)) o.set("framed", 1);
            if (rng.chance(0.6))
            {
                o.set("net", kinds[rng.below(sizeof(kinds) / sizeof(kinds[0]))]);
                o.set("at", rng.chance(0.7) ? "query" : rng.chance(0.5) ? "aliases" : "config");
                o.set("nds", rng.below(n));
                o.set("netrep", rng.below(reps));
                o.set("cut", rng.below(10000));
                static const long codes[] = {404, 500, 503, 401, 400};
                o.set("code", codes[rng.below(5)]);
            }
            if (sf && rng.chance(0.6)) o.set("sf", 1);
            p.add(o);
        }
    }

    struct State
    {
        std::shared_ptr<arki::dataset::Session> session;
        std::shared_ptr<arki::dataset::Reader> reader;
        long one = -2;
    };

    void run(Ctx& ctx) override
    {
        World w(ctx);
        Sim& s = ctx.sim;
        std::map<unsigned, std::pair<unsigned, Item>> stored; // id -> dataset, item
        auto host = [&](unsigned ds) { return ctx.plan.num("host" + std::to_string(ds)); };
        auto url  = [&](long h) { return "http://s" + std::to_string(h) + ":8080"; };
        std::vector<Exchange> exchanges;
        long rep = 0; // the same query is made more than once

        const Op* cur = nullptr;
        Process* proc = nullptr;
        unsigned requests = 0;
        bool endless      = false;
        bool mixed        = false; // local datasets are queried by the client

        auto server_session = [&](long h, std::shared_ptr<arki::dataset::Pool>& pool) {
            auto session = std::make_shared<arki::dataset::Session>(false);
            if (auto a = ctx.plan.num("alias" + std::to_string(h)))
            {
                arki::core::cfg::Sections c;
                c.obtain("origin")->set("site", a == 1 ? "GRIB1,200" : "GRIB1,7");
                session->load_aliases(c);
            }
            pool = std::make_shared<arki::dataset::Pool>(session);
            for (size_t i = 0; i < w.ds.size(); ++i)
            {
                if (host(i) != h) continue;
                pool->add_dataset(*w.ds[i].cfg(), false);
                if (w.ds[i].dirseg)
                    if (auto sd = std::dynamic_pointer_cast<arki::dataset::segmented::Dataset>(pool->dataset(w.ds[i].name)))
                        sd->segment_session->default_file_segment = arki::segment::DefaultFileSegment::SEGMENT_DIR;
            }
            return session;
        };
        auto remote_cfg = [&](unsigned i) {
            auto c = std::make_shared<arki::core::cfg::Section>(*w.ds[i].cfg());
            c->set("type", "remote");
            c->set("path", url(host(i)) + "/dataset/" + w.ds[i].name);
            c->set("server", url(host(i)));
            return c;
        };

        // The server: requests are answered by the code under test, in the way
        // arki-server does
        auto serve = [&](const HttpRequest& req, long h, std::string path, HttpResponse& res, Exchange& ex) {
            bool headers_sent = false;
            std::string body;
            auto field = [&](const char* n) {
                for (auto& f : req.fields)
                    if (f.first == n) return f.second;
                return std::string();
            };
            try
            {
                proc->faults = cur->num("sf") && !mixed;
                std::shared_ptr<arki::dataset::Pool> pool;
                auto session = server_session(h, pool);
                std::vector<std::string> parts;
                for (size_t pos = 1; pos < path.size();)
                {
                    size_t e = path.find('/', pos);
                    if (e == std::string::npos) e = path.size();
                    parts.push_back(path.substr(pos, e - pos));
                    pos = e + 1;
                }
                if (parts == std::vector<std::string>{"config"})
                {
                    arki::core::cfg::Sections all;
                    for (size_t i = 0; i < w.ds.size(); ++i)
                        if (host(i) == h) all.emplace(w.ds[i].name, remote_cfg(i));
                    body = all.to_string();
                }
                else if (parts == std::vector<std::string>{"aliases"})
                    body = session->get_alias_database()->to_string();
                else if (parts == std::vector<std::string>{"qexpand"} && req.method == "POST")
                    body = session->matcher(field("query")).toStringExpanded();
                else if (parts.size() == 3 && parts[0] == "dataset")
                {
                    ex.ds = -1;
                    for (size_t i = 0; i < w.ds.size(); ++i)
                        if (w.ds[i].name == parts[1] && host(i) == h) ex.ds = i;
                    if (ex.ds == -1)
                    {
                        res.code = 404;
                        body     = "Dataset not found\n";
                    }
                    else if (parts[2] == "config")
                    {
                        arki::core::cfg::Sections all;
                        all.emplace(parts[1], remote_cfg(ex.ds));
                        body = all.to_string();
                    }
                    else if (req.method != "POST")
                        res.code = 405;
                    else
                    {
                        ex.data      = true;
                        auto reader  = pool->dataset(parts[1])->create_reader();
                        auto matcher = session->matcher(field("query"));
                        if (parts[2] == "summary")
                        {
                            arki::Summary sum;
                            reader->query_summary(matcher, sum);
                            std::vector<uint8_t> buf = sum.encode(true);
                            body.assign(buf.begin(), buf.end());
                        }
                        else
                        {
                            std::string style = field("style");
                            std::shared_ptr<arki::metadata::sort::Compare> sorter;
                            if (!field("sort").empty()) sorter = arki::metadata::sort::Compare::parse(field("sort"));
                            std::vector<uint8_t> buf;
                            auto out = arki::StreamOutput::create(buf);
                            try
                            {
                                if (style == "data")
                                {
                                    headers_sent = true;
                                    arki::query::Bytes bq;
                                    bq.setData(matcher);
                                    bq.sorter = sorter;
                                    reader->query_bytes(bq, *out);
                                }
                                else
                                {
                                    arki::query::Data dq(matcher, style == "inline");
                                    dq.sorter = sorter;
                                    reader->query_data(dq, [&](std::shared_ptr<arki::Metadata> md) {
                                        headers_sent = true;
                                        if (style == "inline") md->makeInline();
                                        else
                                            md->set_source(arki::types::Source::createURL(md->source().format, url(h) + "/dataset/" + parts[1]));
                                        md->write(*out);
                                        return true;
                                    });
                                }
                            }
                            catch (...)
                            {
                                body.assign(buf.begin(), buf.end());
                                throw;
                            }
                            body.assign(buf.begin(), buf.end());
                        }
                    }
                }
                else
                    res.code = 404;
            }
            catch (Fail&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                if (headers_sent) ex.server_died = true;
                else
                {
                    res.code = 500;
                    res.headers.push_back(std::string("Arkimet-Exception: ") + e.what());
                    body = std::string(e.what()) + "\n";
                }
                ex.message = e.what();
                ex.refused = ex.data && !cur->num("sf");
            }
            proc->faults = false;
            res.body     = body;
        };

        http_handler = [&](const HttpRequest& req) {
            HttpResponse res;
            Exchange ex;
            ex.url = req.url;
            if (++requests > 200)
            {
                endless    = true;
                res.refuse = 1;
                return res;
            }
            std::string rest = req.url;
            long h           = -1;
            for (long i = 0; i < 2; ++i)
                if (rest.compare(0, url(i).size(), url(i)) == 0)
                {
                    h    = i;
                    rest = rest.substr(url(i).size());
                }
            std::string hop = rest.compare(0, 4, "/hop") == 0 ? rest.substr(0, 5) : std::string();
            if (!hop.empty()) rest = rest.substr(5);
            res.chunk  = cur->num("chunk", 16384);
            res.framed = cur->num("framed");
            // Is something to happen to this request?
            std::string net = cur->str("net"), at = cur->str("at");
            bool mine       = !net.empty() && rep == cur->num("netrep");
            if (mine)
            {
                std::string nds = "/dataset/" + w.ds[cur->num("nds")].name + "/";
                if (at == "aliases") mine = rest == "/aliases" || rest == "/qexpand";
                else if (at == "config")
                    mine = rest == "/config" || (rest.compare(0, nds.size(), nds) == 0 && rest.find("/config") != std::string::npos);
                else
                    mine = rest.compare(0, nds.size(), nds) == 0 && rest.find("/config") == std::string::npos;
            }
            if (h < 0) mine = false;
            if (!mine) net.clear();
            if (net == "refuse" || net == "timeout")
            {
                res.refuse = net == "refuse" ? 1 : 2;
                ex.failed  = true;
                s.fired["net_" + net]++;
            }
            else if (net == "status")
            {
                res.code  = cur->num("code");
                res.body  = "<html><body>Service unavailable</body></html>";
                ex.failed = true;
                s.fired["net_status"]++;
            }
            else if (net == "garbage")
            {
                res.body  = std::string("<html><body>Welcome to this network</body></html>").substr(0, 1 + cur->num("cut") % 48);
                ex.failed = true;
                s.fired["net_garbage"]++;
            }
            else if (net == "loop" || (net == "redir" && hop.empty()) || (net == "hop" && hop < "/hop4"))
            {
                res.code     = 302;
                res.body     = "Moved";
                res.redirect = url(h) + (net == "loop" ? "" : "/hop" + std::to_string(hop.empty() ? 1 : hop[4] - '0' + 1)) + rest;
                if (net == "loop") ex.failed = true;
                s.fired["net_" + net]++;
            }
            else if (h < 0)
                res.refuse = 1;
            else
            {
                serve(req, h, rest, res, ex);
                ex.failed = res.code != 200;
                if (net == "cut" || net == "cutu")
                {
                    res.framed = net == "cut";
                    res.cut    = cur->num("cut") % (res.body.size() + 1);
                    // Prefer the edges of the records
                    if (cur->num("cut") % 3 == 0 && ex.data && res.cut > 8)
                    {
                        size_t edge = 0;
                        for (size_t len = 1; len <= (size_t)res.cut; ++len)
                        {
                            if (res.body.compare(len, 3, std::string("MD\0", 3)) == 0) edge = len;
                            if (len + 8 <= res.body.size() && edge && len == edge + 8 + ((uint8_t)res.body[edge + 6] << 8 | (uint8_t)res.body[edge + 7])) res.cut = len;
                        }
                    }
                    if ((size_t)res.cut < res.body.size())
                    {
                        s.fired["net_" + net]++;
                        if (res.framed) ex.failed = true;
                        else
                            ex.cut = true;
                    }
                }
                // When the server dies while sending, nothing tells
                if (ex.server_died)
                {
                    if (res.framed && res.cut < 0)
                    {
                        // (here it does)
                        res.cut = res.body.size();
                        res.body += "x";
                        ex.failed = true;
                    }
                    else
                        ex.cut = true;
                    s.fired["server_died"]++;
                }
                ex.body = res.body;
                ex.sent = res.cut >= 0 && (size_t)res.cut < res.body.size() ? res.body.substr(0, res.cut) : res.body;
            }
            exchanges.push_back(ex);
            return res;
        };
        struct Guard
        {
            ~Guard() { http_handler = nullptr; }
        } guard;

        for (auto& op : ctx.plan.ops)
        {
            ctx.begin(op);
            s.now += 1000000000;
            if (op.name == "import")
            {
                auto& d    = w.ds[op.num("ds")];
                auto items = w.items(op.str("ids"), d);
                ImportResult r;
                w.solo("import", [&] { r = w.import(d, items); });
                ctx.require(r.done, "import-failed", r.err);
                for (size_t i = 0; i < items.size(); ++i)
                    if (r.res[i] == (int)arki::metadata::Inbound::Result::OK) stored[items[i].id] = {(unsigned)op.num("ds"), items[i]};
                    else
                        ctx.require(r.res[i] == (int)arki::metadata::Inbound::Result::DUPLICATE, "import-failed", r.err);
                continue;
            }
            auto do_get = [&](State& st) {
            exchanges.clear();
            requests         = 0;
            endless          = false;
            cur              = &op;
            std::string mode = op.str("mode");
            long one         = op.num("one", -1);
            std::vector<unsigned> used;
            for (unsigned i = 0; i < w.ds.size(); ++i)
                if (one < 0 || one == (long)i) used.push_back(i);
            bool threw = false, retval = false, local = false;
            std::string err;
            for (auto i : used)
                local |= host(i) < 0;
            mixed = local;
            std::vector<std::shared_ptr<arki::Metadata>> mds;
            arki::Summary sum;
            std::string out, m = op.str("m");
            std::shared_ptr<arki::core::cfg::Sections> config;
            size_t n = 0, stop = op.num("stop"), thr = op.num("throw");
            bool stopped = false, thrown = false;
            if (op.num("alias")) m += (m.empty() ? "" : "; ") + std::string(op.num("alias") == 2 ? "origin:mine" : "origin:site");
            long ch = -1; // server asked for its configuration
            for (auto i : used)
                if (host(i) >= 0) ch = host(i);
            std::string expanded;
            auto get = [&] {
                try
                {
                    if (mode == "config")
                    {
                        if (ch < 0) return;
                        if (one >= 0)
                        {
                            config   = std::make_shared<arki::core::cfg::Sections>();
                            auto sec = arki::dataset::http::Reader::load_cfg_section(url(ch) + "/dataset/" + w.ds[one].name);
                            config->emplace(sec->value("name"), sec);
                        }
                        else
                            config = arki::dataset::http::Reader::load_cfg_sections(url(ch));
                        return;
                    }
                    if (mode == "expand")
                    {
                        if (ch < 0) return;
                        expanded = arki::dataset::http::Reader::expandMatcher(m, url(ch));
                        return;
                    }
                    if (!st.reader || st.one != one || op.num("fresh"))
                    {
                        st.reader.reset();
                        st.session = std::make_shared<arki::dataset::Session>(false);
                        {
                            arki::core::cfg::Sections c;
                            c.obtain("origin")->set("mine", ctx.plan.num("mine", 1) == 1 ? "GRIB1,200" : "GRIB1,7");
                            st.session->load_aliases(c);
                        }
                        auto pool  = std::make_shared<arki::dataset::Pool>(st.session);
                        for (auto i : used)
                        {
                            auto c = host(i) < 0 ? w.ds[i].cfg() : remote_cfg(i);
                            pool->add_dataset(*c, true);
                            if (host(i) < 0 && w.ds[i].dirseg)
                                if (auto sd = std::dynamic_pointer_cast<arki::dataset::segmented::Dataset>(pool->dataset(w.ds[i].name)))
                                    sd->segment_session->default_file_segment = arki::segment::DefaultFileSegment::SEGMENT_DIR;
                        }
                        if (one >= 0) st.reader = pool->dataset(w.ds[one].name)->create_reader();
                        else
                            st.reader = std::make_shared<arki::dataset::merged::Dataset>(pool)->create_reader();
                        st.one = one;
                    }
                    auto matcher = st.session->matcher(m);
                    if (mode == "summary") st.reader->query_summary(matcher, sum);
                    else if (mode == "bytes")
                    {
                        arki::query::Bytes bq;
                        bq.setData(matcher);
                        if (op.args.count("sort")) bq.sorter = arki::metadata::sort::Compare::parse(op.str("sort"));
                        std::vector<uint8_t> buf;
                        auto so = arki::StreamOutput::create(buf);
                        try
                        {
                            st.reader->query_bytes(bq, *so);
                        }
                        catch (...)
                        {
                            out.assign(buf.begin(), buf.end());
                            throw;
                        }
                        out.assign(buf.begin(), buf.end());
                    }
                    else
                    {
                        arki::query::Data dq(matcher, mode == "data");
                        if (op.args.count("sort")) dq.sorter = arki::metadata::sort::Compare::parse(op.str("sort"));
                        retval = st.reader->query_data(dq, [&](std::shared_ptr<arki::Metadata> md) {
                            ctx.require(!stopped && !thrown, "not-stopped", std::string("data was sent to a consumer after it ") + (stopped ? "asked to stop" : "failed"));
                            mds.push_back(md);
                            if (++n == thr)
                            {
                                thrown = true;
                                throw ConsumerFailed();
                            }
                            if (n == stop)
                            {
                                stopped = true;
                                return false;
                            }
                            return true;
                        });
                    }
                }
                catch (Fail&)
                {
                    throw;
                }
                catch (std::exception& e)
                {
                    threw = true;
                    err   = e.what();
                }
            };
            get();
            ctx.require(!endless, "endless-requests", "the client made more than 200 requests for one query: " + (exchanges.empty() ? std::string() : exchanges.back().url));
            if (!exchanges.empty()) ctx.nontrivial = true;
            bool failed = false, cut = false;
            std::string why;
            for (auto& e : exchanges)
                ctx.require(!e.refused, "refused-query", "a server where nothing is wrong cannot answer the query '" + m + "' to " + e.url + ": " + e.message);
            for (auto& e : exchanges)
            {
                // A reader that did not see all the aliases is not used again
                if (!e.data && (e.cut || e.failed)) st.reader.reset();
                if (e.failed)
                {
                    failed = true;
                    why    = e.url;
                }
                cut |= e.cut;
            }
            ctx.state(fnv(fnv(fnv(14695981039346656037ULL, mode + err), std::to_string(mds.size())), std::to_string(exchanges.size())));
            std::string what = mode + " query of " + std::to_string(used.size()) + " datasets";

            // Aliases
            bool unknown = false, conflict = false, empty = false;
            {
                std::set<long> defs;
                bool known = false;
                for (auto i : used)
                    if (host(i) >= 0)
                        if (long a = ctx.plan.num("alias" + std::to_string(host(i))))
                        {
                            defs.insert(a);
                            known = true;
                        }
                conflict = defs.size() > 1;
                if (op.num("alias") == 1)
                {
                    unknown = !known;
                    empty   = defs.count(2);
                }
                else if (op.num("alias") == 2)
                    empty = ctx.plan.num("mine", 1) == 2;
            }

            if (mode == "config")
            {
                if (ch < 0) return;
                if (failed && op.str("net") == "garbage")
                {
                    // Whatever it was taken for
                    if (!threw) ctx.require(config->size() == 0 || !config->section(w.ds[0].name), "wrong-config", "something was made of what was not a configuration");
                    return;
                }
                ctx.require(threw == failed || cut, threw ? "failed" : "failure-unnoticed", threw ? "reading the configuration failed: " + err : "the configuration could not be read, and no error was reported");
                if (threw || cut) return;
                size_t count = 0;
                for (unsigned i = 0; i < w.ds.size(); ++i)
                {
                    if (host(i) != ch || (one >= 0 && (long)i != one)) continue;
                    ++count;
                    auto sec = config->section(w.ds[i].name);
                    ctx.require((bool)sec, "wrong-config", "dataset " + w.ds[i].name + " is missing in the configuration");
                    auto rc = remote_cfg(i);
                    for (auto k : {"type", "path", "server"})
                        ctx.require(sec->value(k) == rc->value(k), "wrong-config", "the configuration of " + w.ds[i].name + " is not the one that was sent");
                    ctx.require(sec->value("name") == w.ds[i].name, "wrong-config", "the configuration of " + w.ds[i].name + " has another name");
                }
                ctx.require(config->size() == count, "wrong-config", "the configuration has " + std::to_string(config->size()) + " datasets instead of " + std::to_string(count));
                return;
            }
            if (mode == "expand")
            {
                if (ch < 0 || op.str("net") == "garbage") return;
                bool nak = op.num("alias") == 2 || (op.num("alias") && !ctx.plan.num("alias" + std::to_string(ch)));
                ctx.require(threw == (failed || nak) || cut, threw ? "failed" : "failure-unnoticed", threw ? "expanding a query failed: " + err : "expanding a query failed, and no error was reported");
                if (!threw && !cut) ctx.require(op.num("alias") == 0 || expanded.find(ctx.plan.num("alias" + std::to_string(ch)) == 1 ? "GRIB1,200" : "GRIB1,7") != std::string::npos, "wrong-expand", "'" + m + "' was expanded to '" + expanded + "'");
                return;
            }
            // Whatever garbage was taken for
            if (op.str("net") == "garbage" && (op.str("at") == "aliases" || mode == "bytes")) return;
            // A reader that was kept does not load aliases again
            std::string base_m = op.str("m");
            if (threw)
            {
                if (thrown)
                {
                    if (!failed && !cut) ctx.require(err == ConsumerFailed().what(), "wrong-error", "the consumer of a query failed, and the query reported: " + err);
                }
                else
                    ctx.require(failed || cut || conflict || unknown, "failed", "a " + what + " failed: " + err);
                // Say what the server said
                if (!thrown && exchanges.size() == 1 && exchanges[0].failed && !exchanges[0].server_died && !exchanges[0].message.empty() && exchanges[0].sent == exchanges[0].body)
                    ctx.require(err.find(exchanges[0].message) != std::string::npos, "wrong-error", "the server said '" + exchanges[0].message + "', and the query reported: " + err);
                if (conflict || unknown) st.reader.reset();
            }
            else
            {
                ctx.require(!thrown, "wrong-error", "the consumer of a query failed, and the query did not");
                ctx.require(!unknown, "failure-unnoticed", "a query with an alias that no server knows was successful");
                ctx.require(!conflict || cut, "failure-unnoticed", "servers do not agree about an alias, and no error was reported");
                // With a consumer that stops, what happens afterwards is lost
                if (failed && !stopped) ctx.fail("failure-unnoticed", "a " + what + " was successful when " + why + " was not");
            }
            // What has to be there
            std::multimap<std::string, const std::pair<unsigned, Item>*> want;
            size_t total = 0, bytes = 0;
            for (auto& i : stored)
                if (std::find(used.begin(), used.end(), i.second.first) != used.end() && match_day(base_m, i.second.second) && !empty)
                {
                    arki::Metadata md;
                    fill_metadata(i.second.second, md);
                    want.insert({full_key(md), &i.second});
                    ++total;
                    bytes += i.second.second.bytes().size();
                }
            bool acut = false; // the aliases were cut
            for (auto& e : exchanges)
                if (!e.data && (e.cut || e.failed)) acut = true;
            if (mode == "summary")
            {
                if (threw || acut) return;
                bool exact = base_m.empty();
                if (exact) ctx.require(sum.count() == total && sum.size() == bytes, "wrong-summary", "a " + what + " counted " + std::to_string(sum.count()) + " items instead of " + std::to_string(total));
                else
                    ctx.require(sum.count() >= total, "wrong-summary", "a " + what + " counted " + std::to_string(sum.count()) + " items, less than " + std::to_string(total));
                for (auto& e : exchanges)
                    ctx.require(!e.data || !e.cut, "failure-unnoticed", "a " + what + " was successful with a summary cut short");
                return;
            }
            if (mode == "bytes")
            {
                // What is received in place of data, or is cut short, cannot be
                // told from it
                if (acut || (cut && one < 0)) return;
                // Whole items, one after the other
                size_t pos = 0;
                bool part  = false;
                while (pos < out.size() && !part)
                {
                    bool ok = false;
                    for (auto i = want.begin(); i != want.end(); ++i)
                    {
                        std::string b = i->second->second.bytes();
                        if (w.ds[i->second->first].format == arki::DataFormat::VM2) b += "\n";
                        if (out.compare(pos, b.size(), b) == 0)
                        {
                            ok = true;
                            pos += b.size();
                            want.erase(i);
                            break;
                        }
                        // Cut in the middle of this
                        if (out.size() - pos < b.size() && b.compare(0, out.size() - pos, out, pos, std::string::npos) == 0) part = true;
                    }
                    if (ok) part = false;
                    ctx.require(ok || part, "wrong-data", "a " + what + " sent bytes that were never stored");
                }
                if (threw || cut) return;
                ctx.require(!part, "lost-data", "a " + what + " sent truncated data");
                ctx.require(want.empty(), "lost-data", "a " + what + " did not send " + (want.empty() ? std::string() : want.begin()->second->second.desc()));
                return;
            }
            // Metadata, or data
            long prev = 0;
            std::vector<unsigned> count(w.ds.size());
            for (auto& md : mds)
            {
                std::string key = full_key(*md);
                auto e          = want.equal_range(key);
                auto best       = want.end();
                std::string data;
                if (mode == "data")
                {
                    try
                    {
                        data = data_of(*md);
                    }
                    catch (std::exception& e)
                    {
                        ctx.fail("wrong-data", std::string("the data returned by a remote query cannot be read: ") + e.what());
                    }
                }
                for (auto i = e.first; i != e.second; ++i)
                {
                    unsigned ds = i->second->first;
                    if (mode == "data" && i->second->second.bytes() != data) continue;
                    if (mode == "nodata" && host(ds) >= 0 && source_of(*md) != "URL(" + format_name(w.ds[ds].format) + "," + url(host(ds)) + "/dataset/" + w.ds[ds].name + ")") continue;
                    best = i;
                    break;
                }
                ctx.require(best != want.end() || acut, "wrong-data", "a " + what + " returned something that was not asked for: " + key + " from " + source_of(*md));
                if (best == want.end()) continue;
                const Item& it = best->second->second;
                ++count[best->second->first];
                long t = 0;
                for (long v : {(long)it.ye, (long)it.mo, (long)it.da, (long)it.ho, (long)it.mi, (long)it.se})
                    t = t * 100 + v;
                if (op.str("sort") == "-reftime") t = -t;
                bool coarse = false;
                for (auto i : used)
                    if (w.ds[i].step != "daily") coarse = true;
                bool sorted = op.args.count("sort") || used.size() > 1;
                if (op.str("sort") == "-reftime" && (coarse || true)) sorted = false;
                if (sorted && prev) ctx.require(prev <= t, "wrong-order", "a " + what + " returned " + it.desc() + " out of order");
                prev = t;
                want.erase(best);
            }
            // What was received whole has been passed on
            if (!threw && !stopped)
            {
                ctx.require(retval, "wrong-result", "a " + what + " that completed returned false");
                for (auto& e : exchanges)
                {
                    if (!e.data || !e.cut) continue;
                    Walk wk = walk(e.sent);
                    ctx.require(wk.complete, "failure-unnoticed", "the response to a " + what + " was cut after " + std::to_string(e.sent.size()) + " bytes, in the middle of a record, and it was successful");
                    s.probe("cut_between_records");
                }
                if (!cut && !failed) ctx.require(want.empty(), "lost-data", "a " + what + " did not return " + (want.empty() ? std::string() : want.begin()->second->second.desc()));
            }
            if (!threw && stopped) ctx.require(!retval, "wrong-result", "a " + what + " whose consumer asked to stop returned true");
            if (one >= 0 && host(one) >= 0 && !stopped && !thrown && !acut)
                for (auto& e : exchanges)
                    if (e.data && !e.sent.empty())
                    {
                        Walk wk = walk(e.sent);
                        ctx.require(count[one] == wk.recs.size(), "lost-data", "a " + what + " returned " + std::to_string(count[one]) + " of the " + std::to_string(wk.recs.size()) + " records that were received");
                    }
            };
            proc = s.spawn("client", [&] {
                State st;
                for (rep = 0; rep < op.num("reps", 1); ++rep)
                    do_get(st);
            });
            proc->faults = false;
            ctx.faults_on();
            w.run_all("remote query");
            ctx.faults_off();
            if (proc->has_error) ctx.fail("exception", "unexpected exception: " + proc->error);
            s.now += 1000000000;
        }
    }
} c18;

} // namespace sim
