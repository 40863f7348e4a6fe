// A check: generates plans from a seed, executes them under the simulator and
// judges the outcome
#ifndef ARKISIM_CHECK_H
#define ARKISIM_CHECK_H

#include "sim.h"
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

struct Op
{
    int id = 0;
    std::string name;
    std::map<std::string, std::string> args;

    Op() = default;
    Op(const std::string& name) : name(name) {}
    Op& set(const std::string& k, long v)
    {
        args[k] = std::to_string(v);
        return *this;
    }
    Op& set(const std::string& k, const std::string& v)
    {
        args[k] = v;
        return *this;
    }
    long num(const std::string& k, long def = 0) const
    {
        auto i = args.find(k);
        return i == args.end() ? def : std::stol(i->second);
    }
    std::string str(const std::string& k, const std::string& def = "") const
    {
        auto i = args.find(k);
        return i == args.end() ? def : i->second;
    }
    std::string to_string() const;
    static Op parse(const std::string& line);
};

struct Plan
{
    std::string check;
    uint64_t seed = 0;
    bool thorough = false;
    std::map<std::string, std::string> knobs;
    std::vector<Op> ops;

    void set(const std::string& k, long v) { knobs[k] = std::to_string(v); }
    void set(const std::string& k, const std::string& v) { knobs[k] = v; }
    long num(const std::string& k, long def = 0) const
    {
        auto i = knobs.find(k);
        return i == knobs.end() ? def : std::stol(i->second);
    }
    std::string str(const std::string& k, const std::string& def = "") const
    {
        auto i = knobs.find(k);
        return i == knobs.end() ? def : i->second;
    }
    Op& add(Op op)
    {
        op.id = ops.size() + 1;
        ops.push_back(op);
        return ops.back();
    }
};

struct Ctx
{
    Plan& plan;
    Sim& sim;
    bool nontrivial = false;
    unsigned evals  = 0;      // oracle evaluations
    std::set<uint64_t> states; // distinct states reached
    std::vector<std::string> known; // known findings met
    std::vector<std::string> notes;

    Ctx(Plan& plan, Sim& sim) : plan(plan), sim(sim) {}

    // Report a violation. Does not return
    // Unless it is a known finding, in which case the run just ends
    [[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Fail{cls, msg}; }
    void require(bool cond, const std::string& cls, const std::string& msg)
    {
        ++evals;
        if (!cond) fail(cls, msg);
    }
    void state(uint64_t h) { states.insert(h); }

    // Start executing an op: choices are recorded relative to it
    void begin(const Op& op);
    // Set fault probabilities from the knobs named f.<fault> (per mille)
    void faults_on();
    void faults_off();
};

struct Check
{
    std::string id;
    explicit Check(const std::string& id);
    virtual ~Check() {}
    virtual void gen(Rng& rng, Plan& plan) = 0;
    virtual void run(Ctx& ctx)             = 0;
};

std::map<std::string, Check*>& checks();

// Pick a random subset of fault kinds and give each a probability (per mille)
void swarm_faults(Rng& rng, Plan& plan, const std::vector<std::string>& kinds, unsigned max_pm = 60);

} // namespace sim
#endif
