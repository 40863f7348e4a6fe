// Runner: executes plans in forked children, replays and minimises them
#include "check.h"
#include "items.h"
#include <arki/nag.h>
#include <arki/runtime.h>
#include <arki/types-init.h>
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <regex>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

void install_sqlite_vfs();
void reset_sqlite_vfs();
void alloc_start_run();

std::map<std::string, Check*>& checks()
{
    static std::map<std::string, Check*> c;
    return c;
}

Check::Check(const std::string& id) : id(id) { checks()[id] = this; }

// Values of op arguments, without spaces
static std::string escape(const std::string& s)
{
    std::string r;
    for (char c : s)
        switch (c)
        {
            case ' ': r += "\\s"; break;
            case '\t': r += "\\t"; break;
            case '\n': r += "\\n"; break;
            case '\\': r += "\\\\"; break;
            default: r += c;
        }
    return r;
}

static std::string unescape(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 1 < s.size())
            switch (s[++i])
            {
                case 's': r += ' '; break;
                case 't': r += '\t'; break;
                case 'n': r += '\n'; break;
                default: r += s[i];
            }
        else
            r += s[i];
    return r;
}

std::string Op::to_string() const
{
    std::string r = std::to_string(id) + " " + name;
    for (auto& a : args)
        r += " " + a.first + "=" + escape(a.second);
    return r;
}

Op Op::parse(const std::string& line)
{
    std::istringstream in(line);
    Op op;
    in >> op.id >> op.name;
    std::string tok;
    while (in >> tok)
    {
        size_t e = tok.find('=');
        if (e != std::string::npos) op.args[tok.substr(0, e)] = unescape(tok.substr(e + 1));
    }
    return op;
}

void Ctx::begin(const Op& op)
{
    sim.set_scope(std::to_string(op.id) + ".");
    sim.log("OP %s", op.to_string().c_str());
}

void Ctx::faults_on()
{
    sim.fault_p.clear();
    for (auto& k : plan.knobs)
        if (k.first.compare(0, 2, "f.") == 0) sim.fault_p[k.first.substr(2)] = std::stol(k.second) / 1000.0;
}

void Ctx::faults_off() { sim.fault_p.clear(); }

void swarm_faults(Rng& rng, Plan& plan, const std::vector<std::string>& kinds, unsigned max_pm)
{
    // Each run gets its own mix
    double keep = rng.chance(0.3) ? 1.0 : rng.chance(0.5) ? 0.3 : 0.12;
    bool any    = false;
    for (auto& k : kinds)
        if (rng.chance(keep))
        {
            plan.set("f." + k, 1 + rng.below(max_pm));
            any = true;
        }
    if (!any && !kinds.empty()) plan.set("f." + kinds[rng.below(kinds.size())], 1 + rng.below(max_pm));
}

// ---- shared memory between a run and its parent

struct Shared
{
    uint64_t loghash, events, steps;
    char op[200];
    size_t n;
    char buf[4 << 20];
};
static Shared* shared = nullptr;

void shared_choice(const std::string& key, unsigned c, unsigned v)
{
    if (!shared) return;
    char line[200];
    int n = snprintf(line, sizeof(line), "%s %u %u\n", key.c_str(), c, v);
    if (shared->n + n < sizeof(shared->buf))
    {
        memcpy(shared->buf + shared->n, line, n);
        shared->n += n;
    }
}

void shared_log(uint64_t h, uint64_t events)
{
    if (!shared) return;
    shared->loghash = h;
    shared->events  = events;
}

struct Choice
{
    std::string key;
    unsigned c, v;
};

struct Result
{
    uint64_t hash = 0, sched = 0, steps = 0, evals = 0, switches = 0;
    int64_t simns   = 0;
    bool nontrivial = false;
    std::string cls, msg; // violation
    std::map<std::string, uint64_t> fired, probes;
    std::set<uint64_t> states;
    std::vector<std::string> known;
    std::vector<Choice> trace;
    bool internal_error = false;
};

static std::string oneline(std::string s)
{
    for (auto& c : s)
        if (c == '\n' || c == '\t' || c == '\r') c = ' ';
    if (s.size() > 3000) s.resize(3000);
    return s;
}

struct RunOpts
{
    bool replay = false;
    std::vector<Choice> choices;
    bool verbose = false;
    int cpu      = 20;
};

// ---- known findings: genuine defects that were recorded and not repaired

struct Known
{
    std::string id, property, cls, text;
    std::regex match;
};
static std::vector<Known> knowns;

static void load_knowns(const std::string& fname)
{
    std::ifstream in(fname);
    std::string line;
    static const std::regex re("^known: id=(\\S+) property=(\\S+) class=(\\S+) match=/(.*)/ :: (.*)$");
    while (std::getline(in, line))
    {
        std::smatch m;
        if (!std::regex_match(line, m, re)) continue;
        Known k;
        k.id       = m[1];
        k.property = m[2];
        k.cls      = m[3];
        k.match    = std::regex(m[4].str());
        k.text     = m[5];
        knowns.push_back(k);
    }
}

static const Known* find_known(const std::string& check, const std::string& cls, const std::string& msg)
{
    for (auto& k : knowns)
        if (k.property == check && k.cls == cls && std::regex_search(msg, k.match)) return &k;
    return nullptr;
}

static void child_main(Plan plan, const RunOpts& o, int fd)
{
    Sim sim;
    S            = &sim;
    sim.rng      = Rng(plan.seed * 0x9e3779b97f4a7c15ULL + 77);
    sim.replaying = o.replay;
    for (auto& c : o.choices)
        sim.replay[std::make_pair(c.key, c.c)] = c.v;
    sim.verbose = o.verbose;
    alloc_start_run();
    sim.fs.reset();
    std::string out;
    std::string cls, msg;
    Ctx ctx(plan, sim);
    try
    {
        checks().at(plan.check)->run(ctx);
    }
    catch (Fail& f)
    {
        cls = f.cls;
        msg = f.msg;
    }
    catch (std::exception& e)
    {
        cls = "internal";
        msg = e.what();
    }
    if (cls.empty() && !sim.denied.empty())
    {
        cls = "escape";
        msg = "the code under test tried to modify a path outside its directories: " + sim.denied[0];
    }
    char b[400];
    snprintf(b, sizeof(b), "H %llx %llx %llu %lld %llu %d %llu\n", (unsigned long long)sim.loghash, (unsigned long long)sim.schedhash,
             (unsigned long long)sim.steps, (long long)sim.sim_elapsed, (unsigned long long)ctx.evals, (int)ctx.nontrivial,
             (unsigned long long)sim.switches);
    out += b;
    for (auto& f : sim.fired)
        out += "F " + f.first + " " + std::to_string(f.second) + "\n";
    for (auto& f : sim.probes)
        out += "P " + f.first + " " + std::to_string(f.second) + "\n";
    for (auto s : ctx.states)
    {
        snprintf(b, sizeof(b), "S %llx\n", (unsigned long long)s);
        out += b;
    }
    for (auto& k : ctx.known)
        out += "K " + oneline(k) + "\n";
    if (auto k = find_known(plan.check, cls, oneline(msg)))
        out += "K " + k->id + "\n";
    else if (!cls.empty())
        out += "V " + cls + "\t" + oneline(msg) + "\n";
    out += "E\n";
    size_t pos = 0;
    while (pos < out.size())
    {
        ssize_t n = ::write(fd, out.data() + pos, out.size() - pos);
        if (n <= 0) break;
        pos += n;
    }
    S = nullptr;
    _exit(0);
}

static Result run_plan(const Plan& plan, const RunOpts& o)
{
    Result res;
    memset((void*)shared, 0, offsetof(Shared, buf));
    int fds[2];
    if (::pipe(fds) != 0) abort();
    fflush(stdout);
    pid_t pid = ::fork();
    if (pid == 0)
    {
        ::close(fds[0]);
        struct rlimit rl;
        rl.rlim_cur = o.cpu;
        rl.rlim_max = o.cpu + 2;
        ::setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        ::setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 12ULL << 30;
        ::setrlimit(RLIMIT_AS, &rl);
        child_main(plan, o, fds[1]);
    }
    ::close(fds[1]);
    std::string out;
    char buf[65536];
    while (true)
    {
        ssize_t n = ::read(fds[0], buf, sizeof(buf));
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        out.append(buf, n);
    }
    ::close(fds[0]);
    int st;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    bool ended = false;
    std::istringstream in(out);
    std::string line;
    while (std::getline(in, line))
    {
        if (line == "E")
        {
            ended = true;
            break;
        }
        std::istringstream l(line.substr(2));
        switch (line[0])
        {
            case 'H': {
                int nt;
                l >> std::hex >> res.hash >> res.sched >> std::dec >> res.steps >> res.simns >> res.evals >> nt >> res.switches;
                res.nontrivial = nt;
                break;
            }
            case 'F': {
                std::string n;
                uint64_t c;
                l >> n >> c;
                res.fired[n] = c;
                break;
            }
            case 'P': {
                std::string n;
                uint64_t c;
                l >> n >> c;
                res.probes[n] = c;
                break;
            }
            case 'S': {
                uint64_t s;
                l >> std::hex >> s;
                res.states.insert(s);
                break;
            }
            case 'K': res.known.push_back(line.substr(2)); break;
            case 'V': {
                size_t t = line.find('\t');
                res.cls  = line.substr(2, t - 2);
                res.msg  = line.substr(t + 1);
                break;
            }
        }
    }
    if (!ended)
    {
        res.hash = shared->loghash;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
        {
            res.cls = "hang";
            res.msg = "the code under test does not terminate (it used up its CPU limit)";
        }
        else if (WIFSIGNALED(st))
        {
            res.cls = std::string("crash-sig") + std::to_string(WTERMSIG(st));
            res.msg = std::string("the code under test crashed: ") + strsignal(WTERMSIG(st));
        }
        else
        {
            res.cls = "crash-exit";
            res.msg = "the code under test exited with status " + std::to_string(WEXITSTATUS(st));
        }
    }
    std::istringstream ts(std::string(shared->buf, shared->n));
    while (std::getline(ts, line))
    {
        std::istringstream l(line);
        Choice c;
        l >> c.key >> c.c >> c.v;
        res.trace.push_back(c);
    }
    return res;
}

static uint64_t strhash(const std::string& s) { return fnv(1469598103934665603ULL, s); }

static Plan make_plan(const std::string& check, uint64_t seed, bool thorough)
{
    Plan p;
    p.check    = check;
    p.seed     = seed;
    p.thorough = thorough;
    Rng rng(seed ^ strhash(check));
    checks().at(check)->gen(rng, p);
    return p;
}

static void write_replay(std::ostream& o, const Plan& p, const std::vector<Choice>& ch, const Result& r);
static void save_replay(const std::string& fname, const Plan& p, const std::vector<Choice>& ch, const Result& r)
{
    std::ofstream o(fname);
    write_replay(o, p, ch, r);
}

static void write_replay(std::ostream& o, const Plan& p, const std::vector<Choice>& ch, const Result& r)
{
    o << "arkisim-replay 1\n";
    o << "check " << p.check << "\nseed " << p.seed << "\ntier " << (p.thorough ? "thorough" : "quick") << "\n";
    for (auto& k : p.knobs)
        o << "knob " << k.first << " " << escape(k.second) << "\n";
    for (auto& op : p.ops)
        o << "op " << op.to_string() << "\n";
    for (auto& c : ch)
        o << "choice " << c.key << " " << c.c << " " << c.v << "\n";
    char b[40];
    snprintf(b, sizeof(b), "%llx", (unsigned long long)r.hash);
    o << "hash " << b << "\nclass " << r.cls << "\nmessage " << r.msg << "\n";
}

static void read_replay(std::istream& in, Plan& p, RunOpts& o, std::string& cls, std::string& hash);
static void load_replay(const std::string& fname, Plan& p, RunOpts& o, std::string& cls, std::string& hash)
{
    std::ifstream in(fname);
    if (!in) throw std::runtime_error("cannot open " + fname);
    read_replay(in, p, o, cls, hash);
}

static void read_replay(std::istream& in, Plan& p, RunOpts& o, std::string& cls, std::string& hash)
{
    std::string line;
    o.replay = true;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "check") l >> p.check;
        else if (w == "seed") l >> p.seed;
        else if (w == "tier")
        {
            l >> w;
            p.thorough = w == "thorough";
        }
        else if (w == "knob")
        {
            std::string k, v;
            l >> k >> v;
            p.knobs[k] = unescape(v);
        }
        else if (w == "op") p.ops.push_back(Op::parse(line.substr(3)));
        else if (w == "choice")
        {
            Choice c;
            l >> c.key >> c.c >> c.v;
            o.choices.push_back(c);
        }
        else if (w == "class") l >> cls;
        else if (w == "hash") l >> hash;
    }
}

static double now_s()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---- minimisation

static bool minimise(Plan& plan, std::vector<Choice>& choices, Result& last, double budget, unsigned& attempts)
{
    double end      = now_s() + budget;
    std::string cls = last.cls;
    auto test       = [&](const Plan& p, const std::vector<Choice>& c, Result& r) {
        ++attempts;
        RunOpts o;
        o.replay  = true;
        o.choices = c;
        o.cpu     = cls == "hang" ? 4 : 10;
        r         = run_plan(p, o);
        return r.cls == cls;
    };
    Result r;
    if (!test(plan, choices, r)) return false;
    last = r;
    bool progress = true;
    while (progress && now_s() < end)
    {
        progress = false;
        // Drop operations, in chunks
        for (size_t chunk = std::max<size_t>(plan.ops.size() / 2, 1); chunk >= 1; chunk /= 2)
        {
            for (size_t i = 0; i < plan.ops.size() && now_s() < end;)
            {
                Plan p = plan;
                size_t e = std::min(i + chunk, p.ops.size());
                p.ops.erase(p.ops.begin() + i, p.ops.begin() + e);
                if (test(p, choices, r))
                {
                    plan     = p;
                    last     = r;
                    choices  = r.trace;
                    progress = true;
                }
                else
                    i += chunk;
            }
            if (chunk == 1) break;
        }
        // Drop choices, in chunks
        for (size_t chunk = std::max<size_t>(choices.size() / 2, 1); chunk >= 1; chunk /= 2)
        {
            for (size_t i = 0; i < choices.size() && now_s() < end;)
            {
                std::vector<Choice> c(choices);
                size_t e = std::min(i + chunk, c.size());
                c.erase(c.begin() + i, c.begin() + e);
                if (test(plan, c, r) && r.trace.size() < choices.size())
                {
                    choices  = r.trace;
                    last     = r;
                    progress = true;
                }
                else
                    i += chunk;
            }
            if (chunk == 1) break;
        }
    }
    return true;
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c < 32 || c >= 127)
        {
            char b[10];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

static int main_worker(int argc, char** argv)
{
    // worker CHECK TIER FIRST STRIDE COUNT SECONDS OUTDIR TAG
    std::string check = argv[2];
    bool thorough     = std::string(argv[3]) == "thorough";
    uint64_t first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
    double seconds     = atof(argv[7]);
    std::string outdir = argv[8], tag = argv[9];
    double start = now_s();
    std::map<std::string, uint64_t> fired, probes, knownc;
    std::set<uint64_t> states, scheds;
    std::set<uint64_t> nthashes;
    uint64_t runs = 0, evals = 0, nontrivial = 0, steps = 0, nondet = 0, switches = 0, faulty = 0, longest = 0, longest_seed = 0;
    double simns = 0;
    std::map<std::string, unsigned> viol;
    std::vector<std::string> samples, vfiles, nondets, internals;
    for (uint64_t i = 0; i < count; ++i)
    {
        if (now_s() - start > seconds) break;
        if (::access((outdir + "/stop").c_str(), F_OK) == 0) break;
        uint64_t seed = first + i * stride;
        Plan plan     = make_plan(check, seed, thorough);
        RunOpts o;
        Result r = run_plan(plan, o);
        ++runs;
        evals += r.evals;
        steps += r.steps;
        if (r.steps > longest)
        {
            longest      = r.steps;
            longest_seed = seed;
        }
        switches += r.switches;
        simns += r.simns;
        if (r.nontrivial)
        {
            ++nontrivial;
            nthashes.insert(r.hash);
        }
        if (!r.fired.empty()) ++faulty;
        scheds.insert(r.sched);
        for (auto s : r.states)
            states.insert(s);
        for (auto& f : r.fired)
            fired[f.first] += f.second;
        for (auto& f : r.probes)
            probes[f.first] += f.second;
        for (auto& k : r.known)
            ++knownc[k];
        if (samples.size() < 3 && r.nontrivial)
        {
            std::string s = "seed " + std::to_string(seed) + ":";
            for (auto& k : plan.knobs)
                s += " " + k.first + "=" + k.second;
            s += " |";
            for (auto& op : plan.ops)
                s += " [" + op.to_string() + "]";
            s += " steps=" + std::to_string(r.steps);
            if (s.size() > 900) s = s.substr(0, 900) + "...";
            samples.push_back(s);
        }
        if (r.cls == "internal")
        {
            if (internals.size() < 5) internals.push_back("seed " + std::to_string(seed) + ": " + r.msg);
            continue;
        }
        if (i % 300 == 7 && r.cls.empty())
        {
            // What a replay file of this run contains is the same execution
            std::stringstream file;
            write_replay(file, plan, r.trace, r);
            Plan p2;
            RunOpts o2;
            std::string c2, h2;
            read_replay(file, p2, o2, c2, h2);
            Result r2 = run_plan(p2, o2);
            ++probes[r2.hash == r.hash && r2.cls == r.cls ? "selfcheck_replay_same" : "selfcheck_replay_differs"];
            if (r2.hash != r.hash) samples.push_back("REPLAY DIFFERS seed " + std::to_string(seed));
        }
        if (!r.cls.empty())
        {
            // Same seed again: must be the same execution
            Result r2 = run_plan(plan, o);
            if (r2.hash != r.hash || r2.cls != r.cls)
            {
                ++nondet;
                nondets.push_back("seed " + std::to_string(seed) + ": " + r.cls + " vs " + r2.cls + ": " + r.msg);
                if (nondet > 20) break;
                continue;
            }
            if (viol[r.cls]++ < 1)
            {
                std::string fn = outdir + "/" + check + "-" + tag + "-" + std::to_string(seed) + ".replay";
                save_replay(fn, plan, r.trace, r);
                vfiles.push_back(fn);
            }
            unsigned tot = 0;
            for (auto& v : viol)
                tot += v.second;
            if (tot >= 10) break;
        }
    }
    std::ofstream o(outdir + "/" + tag + ".json");
    o << "{\"runs\":" << runs << ",\"evals\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << nthashes.size()
      << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"simseconds\":" << simns / 1e9 << ",\"nondet\":" << nondet
      << ",\"longest\":" << longest << ",\"longest_seed\":" << longest_seed << ",\"faulty\":" << faulty << ",\"wall\":" << now_s() - start;
    auto dumpm = [&](const char* n, const std::map<std::string, uint64_t>& m) {
        o << ",\"" << n << "\":{";
        bool f = true;
        for (auto& i : m)
        {
            if (!f) o << ",";
            f = false;
            o << jstr(i.first) << ":" << i.second;
        }
        o << "}";
    };
    auto dumpv = [&](const char* n, const std::vector<std::string>& m) {
        o << ",\"" << n << "\":[";
        bool f = true;
        for (auto& i : m)
        {
            if (!f) o << ",";
            f = false;
            o << jstr(i);
        }
        o << "]";
    };
    auto dumps = [&](const char* n, const std::set<uint64_t>& m) {
        o << ",\"" << n << "\":[";
        bool f = true;
        for (auto i : m)
        {
            if (!f) o << ",";
            f = false;
            o << "\"" << std::hex << i << std::dec << "\"";
        }
        o << "]";
    };
    dumpm("fired", fired);
    dumpm("probes", probes);
    dumpm("known", knownc);
    dumpv("samples", samples);
    dumpv("violations", vfiles);
    dumpv("nondets", nondets);
    dumpv("internals", internals);
    dumps("states", states);
    dumps("scheds", scheds);
    dumps("nthashes", nthashes);
    o << "}\n";
    return 0;
}

static int main_replay(int argc, char** argv)
{
    Plan p;
    RunOpts o;
    std::string cls, hash;
    load_replay(argv[2], p, o, cls, hash);
    o.verbose = argc > 3 && std::string(argv[3]) == "-v";
    Result r  = run_plan(p, o);
    char b[40];
    snprintf(b, sizeof(b), "%llx", (unsigned long long)r.hash);
    std::cout << "class=" << (r.cls.empty() ? "none" : r.cls) << " hash=" << b << " steps=" << r.steps << "\n";
    if (!r.cls.empty()) std::cout << r.msg << "\n";
    return 0;
}

static int main_run(int argc, char** argv)
{
    // run CHECK SEED [-v] [--thorough]
    bool thorough = false, verbose = false;
    for (int i = 4; i < argc; ++i)
    {
        if (std::string(argv[i]) == "-v") verbose = true;
        if (std::string(argv[i]) == "--thorough") thorough = true;
        // Perturb the heap, to find what depends on addresses
        if (std::string(argv[i]) == "--pad")
        {
            Plan p = make_plan(argv[2], strtoull(argv[3], 0, 10), thorough);
            RunOpts o;
            static Result r = run_plan(p, o);
        }
    }
    Plan p = make_plan(argv[2], strtoull(argv[3], 0, 10), thorough);
    for (auto& k : p.knobs)
        std::cout << "knob " << k.first << " " << k.second << "\n";
    for (auto& op : p.ops)
        std::cout << "op " << op.to_string() << "\n";
    std::cout.flush();
    RunOpts o;
    o.verbose = verbose;
    Result r  = run_plan(p, o);
    printf("class=%s hash=%llx steps=%llu evals=%llu nontrivial=%d choices=%zu\n", r.cls.empty() ? "none" : r.cls.c_str(), (unsigned long long)r.hash,
           (unsigned long long)r.steps, (unsigned long long)r.evals, (int)r.nontrivial, r.trace.size());
    for (auto& f : r.fired)
        printf("fired %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
    for (auto& f : r.probes)
        printf("probe %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
    for (auto& k : r.known)
        printf("known %s\n", k.c_str());
    if (!r.cls.empty()) printf("%s\n", r.msg.c_str());
    for (int i = 4; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "-o") save_replay(argv[i + 1], p, r.trace, r);
    return 0;
}

static int main_selfcheck(int argc, char** argv)
{
    // selfcheck CHECK FROM TO: seeds whose replay file does not give the same execution
    for (uint64_t seed = strtoull(argv[3], 0, 10); seed <= strtoull(argv[4], 0, 10); ++seed)
    {
        Plan p = make_plan(argv[2], seed, argc > 5);
        RunOpts o, o2;
        Result r = run_plan(p, o);
        std::stringstream file;
        write_replay(file, p, r.trace, r);
        Plan p2;
        std::string c2, h2;
        read_replay(file, p2, o2, c2, h2);
        Result r2 = run_plan(p2, o2);
        if (r2.hash != r.hash || r2.cls != r.cls) std::cout << argv[2] << " " << seed << " differs\n";
    }
    return 0;
}

static int main_minimise(int argc, char** argv)
{
    // min IN OUT SECONDS
    Plan p;
    RunOpts o;
    std::string cls, hash;
    load_replay(argv[2], p, o, cls, hash);
    Result r;
    r.cls             = cls;
    unsigned attempts = 0;
    size_t ops0 = p.ops.size(), ch0 = o.choices.size();
    if (!minimise(p, o.choices, r, atof(argv[4]), attempts))
    {
        std::cout << "cannot reproduce\n";
        return 3;
    }
    save_replay(argv[3], p, o.choices, r);
    std::cout << "minimised in " << attempts << " runs: ops " << ops0 << " -> " << p.ops.size() << ", choices " << ch0 << " -> " << o.choices.size()
              << "\n";
    return 0;
}

} // namespace sim

int main(int argc, char** argv)
{
    if (argc < 3)
    {
        std::cerr << "usage: arkisim worker|run|replay|min ...\n";
        return 2;
    }
    if (!getenv("ARKISIM_REEXEC"))
    {
        personality(ADDR_NO_RANDOMIZE);
        char a[] = "ARKISIM_REEXEC=1", b[] = "TZ=UTC", c[] = "LC_ALL=C", d[] = "PATH=/usr/bin:/bin", e[] = "HOME=/sim/cwd";
        std::string k = std::string("ARKISIM_KNOWN=") + (getenv("ARKISIM_KNOWN") ? getenv("ARKISIM_KNOWN") : "");
        char* env[] = {a, b, c, d, e, k.size() > 14 ? &k[0] : nullptr, nullptr};
        execve("/proc/self/exe", argv, env);
        perror("execve");
        return 2;
    }
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    sim::shared = (sim::Shared*)mmap(nullptr, sizeof(sim::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sim::install_sqlite_vfs();
    sim::register_scanners();
    {
        char exe[4096];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe));
        std::string k(exe, n > 0 ? n : 0);
        k.resize(k.rfind('/'));
        sim::load_knowns(getenv("ARKISIM_KNOWN") ? getenv("ARKISIM_KNOWN") : k + "/../known-findings.txt");
    }
    tzset();
    arki::init();
    static struct SimNag : public arki::nag::Handler
    {
        void emit(const char* lvl, const char* fmt, va_list ap)
        {
            if (sim::S) sim::S->log("NAG %s %s", lvl, format(fmt, ap).c_str());
        }
        void warning(const char* fmt, va_list ap) override
        {
            if (sim::S) sim::S->probe("nag_warning");
            emit("warning", fmt, ap);
        }
        void verbose(const char* fmt, va_list ap) override { emit("verbose", fmt, ap); }
        void debug(const char* fmt, va_list ap) override {}
    } nag;
    nag.install();
    try
    {
        std::string m = argv[1];
        if (m == "worker") return sim::main_worker(argc, argv);
        if (m == "run") return sim::main_run(argc, argv);
        if (m == "replay") return sim::main_replay(argc, argv);
        if (m == "min") return sim::main_minimise(argc, argv);
        if (m == "selfcheck") return sim::main_selfcheck(argc, argv);
    }
    catch (std::exception& e)
    {
        std::cerr << "arkisim: " << e.what() << "\n";
        return 2;
    }
    return 2;
}
