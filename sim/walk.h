#ifndef ARKISIM_WALK_H
#define ARKISIM_WALK_H
// Decode a stream of metadata, with no help from the readers under test
#include <arki/core/binary.h>
#include <arki/metadata.h>
#include <arki/types/source.h>
#include <arki/types/value.h>
#include <string>
#include <vector>

namespace sim {

struct Record
{
    std::string key;   // metadata, without source and value
    std::string value; // data encoded in the metadata, in datasets with smallfiles
    std::string bytes; // data, if it is there
    bool has_data = false;
    bool operator==(const Record& o) const { return key == o.key && value == o.value && has_data == o.has_data && bytes == o.bytes; }
};

inline std::string full_key(const arki::Metadata& md)
{
    std::string r;
    for (auto c : {arki::TYPE_REFTIME, arki::TYPE_ORIGIN, arki::TYPE_PRODUCT, arki::TYPE_LEVEL, arki::TYPE_TIMERANGE, arki::TYPE_AREA, arki::TYPE_PRODDEF, arki::TYPE_RUN, arki::TYPE_QUANTITY, arki::TYPE_TASK, arki::TYPE_BBOX})
        if (auto t = md.get(c)) r += arki::types::tag(c) + "=" + t->to_string() + " ";
    return r;
}

inline std::string value_of(const arki::Metadata& md)
{
    auto v = md.get<arki::types::Value>();
    return v ? v->buffer : std::string();
}

inline std::string source_of(const arki::Metadata& md) { return md.has_source() ? md.source().to_string() : std::string(); }

// The stream, as told by its structure
struct Walk
{
    std::vector<Record> recs;
    std::vector<std::string> sources;
    bool complete = false; // ends between two records
    bool garbage  = false;
    bool at_data  = false; // ends just before the data of a record
};

inline Walk walk(const std::string& buf)
{
    Walk w;
    size_t pos = 0;
    while (true)
    {
        if (pos == buf.size())
        {
            w.complete = true;
            return w;
        }
        if (buf.size() - pos < 8) return w;
        const uint8_t* p = (const uint8_t*)buf.data() + pos;
        if (p[0] != 'M' || p[1] != 'D')
        {
            w.garbage = true;
            return w;
        }
        unsigned ver = p[2] << 8 | p[3];
        size_t len   = (size_t)p[4] << 24 | p[5] << 16 | p[6] << 8 | p[7];
        if (buf.size() - pos - 8 < len) return w;
        arki::core::BinaryDecoder dec(p + 8, len);
        std::shared_ptr<arki::Metadata> md;
        try
        {
            md = arki::Metadata::read_binary_inner(dec, ver, "walk", "/");
        }
        catch (std::exception&)
        {
            w.garbage = true;
            return w;
        }
        pos += 8 + len;
        Record r;
        r.key   = full_key(*md);
        r.value = value_of(*md);
        if (md->has_source() && md->source().style() == arki::types::Source::Style::INLINE)
        {
            size_t n = md->data_size();
            if (buf.size() - pos < n)
            {
                w.at_data = buf.size() == pos;
                return w;
            }
            r.bytes    = buf.substr(pos, n);
            r.has_data = true;
            pos += n;
        }
        w.sources.push_back(source_of(*md));
        w.recs.push_back(r);
    }
}

} // namespace sim
#endif
