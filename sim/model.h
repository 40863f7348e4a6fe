// What a dataset must contain, and comparison against what queries return
#ifndef ARKISIM_MODEL_H
#define ARKISIM_MODEL_H

#include "world.h"

namespace sim {

struct Model
{
    std::set<unsigned> certain; // acknowledged: must be there exactly once
    std::set<unsigned> maybe;   // outcome unknown: there at most once
    std::set<unsigned> seen;    // part of certain: never acknowledged, but seen since the last power loss

    bool lossy = false;         // there was a power loss

    // An item that was never acknowledged and that a power loss may have damaged
    bool unacked(World& w, const DsConf& d, const std::string& mdkey) const
    {
        for (auto i : maybe)
        {
            arki::Metadata md;
            fill_metadata(w.item(i, d), md);
            if (md_key(md) == mdkey) return true;
        }
        return false;
    }

    std::string to_string() const
    {
        Bag b;
        for (auto i : certain)
            b[i] = 1;
        std::string r = bag_str(b) + " maybe ";
        b.clear();
        for (auto i : maybe)
            b[i] = 1;
        return r + bag_str(b);
    }

    // Empty string if r is what the model allows
    std::string compare(World& w, const DsConf& d, const QueryResult& r, const Bag* also = nullptr) const
    {
        if (r.threw) return "query failed: " + r.err;
        Bag b;
        for (auto& g : r.got)
        {
            if ((!g.read_ok || !g.valid) && lossy && unacked(w, d, g.mdkey)) continue;
            if (!g.read_ok) return "data cannot be read: " + g.error;
            if (!g.valid) return "query returned bytes that were never imported (" + std::to_string(g.bytes.size()) + " bytes)";
            Item want = w.item(g.item.id, d);
            if (want.bytes() != g.bytes) return "item " + std::to_string(g.item.id) + " has the wrong bytes";
            if (!g.meta_ok) return "item " + std::to_string(g.item.id) + " is described by metadata that are not its own";
            ++b[g.item.id];
        }
        for (auto i : certain)
            if (!b.count(i)) return "item " + std::to_string(i) + " was acknowledged and is missing. Expected " + to_string() + " got " + bag_str(b);
        for (auto& i : b)
        {
            if (i.second > 1) return "item " + std::to_string(i.first) + " is returned " + std::to_string(i.second) + " times";
            if (!certain.count(i.first) && !maybe.count(i.first))
                return "item " + std::to_string(i.first) + " should not be there. Expected " + to_string() + " got " + bag_str(b);
        }
        return std::string();
    }

    // After a comparison: what was seen must stay. What was interrupted and was
    // not seen may still surface, for example when its segment is repacked
    void resolve(const QueryResult& r)
    {
        for (auto& g : r.got)
            if (g.valid && maybe.erase(g.item.id))
            {
                certain.insert(g.item.id);
                seen.insert(g.item.id);
            }
    }

    // Nothing made durable what was never acknowledged
    void power_lost()
    {
        lossy = true;
        for (auto i : seen)
        {
            certain.erase(i);
            maybe.insert(i);
        }
        seen.clear();
    }
};

} // namespace sim
#endif
