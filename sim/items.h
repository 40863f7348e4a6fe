// Synthetic data items: their content, metadata and identity
#ifndef ARKISIM_ITEMS_H
#define ARKISIM_ITEMS_H

#include <arki/core/time.h>
#include <arki/defs.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <memory>
#include <string>
#include <vector>

namespace sim {

struct Item
{
    unsigned id  = 0;
    unsigned len = 0; // wanted total length; actual may be longer
    arki::DataFormat format = arki::DataFormat::GRIB;
    int ye = 2000, mo = 1, da = 1, ho = 0, mi = 0, se = 0;
    unsigned var = 0;
    int usn      = 0;

    std::string bytes() const;
    arki::core::Time time() const { return arki::core::Time(ye, mo, da, ho, mi, se); }
    std::string key() const; // reftime + var: the identity for iseg unique
    std::shared_ptr<arki::Metadata> md() const; // with inline source
    std::string desc() const;
};

// Parse a complete item starting at p. Returns the item size, or 0 if there
// is no valid item header there, or -1 if it is truncated or corrupted
long parse_item(arki::DataFormat format, const char* p, size_t avail, Item& out);

// Parse exactly one item
bool parse_exact(arki::DataFormat format, const std::string& buf, Item& out);
void fill_metadata(const Item& it, arki::Metadata& md);
std::string data_of(arki::Metadata& md);

void register_scanners();

extern const std::vector<arki::DataFormat> all_formats;

} // namespace sim
#endif
