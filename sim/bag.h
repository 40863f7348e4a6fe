// How many times each item may be in a dataset
#ifndef ARKISIM_BAG_H
#define ARKISIM_BAG_H

#include "world.h"

namespace sim {

struct BagModel
{
    struct Count
    {
        int min = 0, max = 0;
    };
    std::map<unsigned, Count> items;

    void stored(unsigned id)
    {
        ++items[id].min;
        ++items[id].max;
    }
    void attempted(unsigned id) { ++items[id].max; }

    std::string to_string() const
    {
        std::string r;
        for (auto& i : items)
        {
            r += (r.empty() ? "" : ",") + std::to_string(i.first);
            if (i.second.min == i.second.max)
            {
                if (i.second.min != 1) r += "x" + std::to_string(i.second.min);
            }
            else
                r += "x" + std::to_string(i.second.min) + ".." + std::to_string(i.second.max);
        }
        return "{" + r + "}";
    }

    // Empty if the items in the result are what they claim to be
    static std::string sane(World& w, const DsConf& d, const QueryResult& r, Bag& b)
    {
        for (auto& g : r.got)
        {
            if (!g.read_ok) return "data cannot be read: " + g.error;
            if (!g.valid) return "query returned bytes that were never imported (" + std::to_string(g.bytes.size()) + " bytes)";
            Item want = w.item(g.item.id, d);
            if (want.bytes() != g.bytes) return "item " + std::to_string(g.item.id) + " has the wrong bytes";
            if (!g.meta_ok) return "item " + std::to_string(g.item.id) + " is described by metadata that are not its own";
            ++b[g.item.id];
        }
        return std::string();
    }

    // Empty if r is what the model allows; narrows the model to what was seen
    std::string compare(World& w, const DsConf& d, const QueryResult& r)
    {
        if (r.threw) return "query failed: " + r.err;
        Bag b;
        std::string s = sane(w, d, r, b);
        if (!s.empty()) return s;
        for (auto& i : items)
            if (b[i.first] < i.second.min)
                return "item " + std::to_string(i.first) + " is missing. Expected " + to_string() + " got " + bag_str(b);
        for (auto& i : b)
        {
            auto m = items.find(i.first);
            if (i.second > (m == items.end() ? 0 : m->second.max))
                return "item " + std::to_string(i.first) + " is there too many times. Expected " + to_string() + " got " + bag_str(b);
            if (m != items.end()) m->second.min = i.second;
        }
        return std::string();
    }
};

} // namespace sim
#endif
