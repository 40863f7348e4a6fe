// Scanners and validators for synthetic data, in place of eccodes, DB-All.e,
// meteo-vm2 and the Python scanners, which are outside the simulation
#include "items.h"
#include "sim.h"
#include <arki/core/file.h>
#include <arki/data.h>
#include <arki/data/bufr.h>
#include <arki/data/vm2.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/types/area.h>
#include <arki/types/level.h>
#include <arki/types/origin.h>
#include <arki/types/product.h>
#include <arki/types/quantity.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/timerange.h>
#include <arki/types/value.h>
#include <arki/utils/sys.h>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <stdexcept>

using namespace arki;
using arki::data::Validator;

namespace sim {

const std::vector<DataFormat> all_formats = {DataFormat::GRIB,   DataFormat::BUFR,   DataFormat::VM2,
                                             DataFormat::ODIMH5, DataFormat::NETCDF, DataFormat::JPEG};

static const std::string& magic(DataFormat f)
{
    static const std::string g("GRIB"), b("BUFR"), v("VM2"), h("\x89HDF\r\n\x1a\n", 8), n("CDF\x01", 4), j("\xff\xd8", 2);
    switch (f)
    {
        case DataFormat::GRIB: return g;
        case DataFormat::BUFR: return b;
        case DataFormat::VM2: return v;
        case DataFormat::ODIMH5: return h;
        case DataFormat::NETCDF: return n;
        default: return j;
    }
}

static const std::string& trailer(DataFormat f)
{
    static const std::string g("7777"), v(";"), j("\xff\xd9", 2), e("END.");
    switch (f)
    {
        case DataFormat::GRIB:
        case DataFormat::BUFR: return g;
        case DataFormat::VM2: return v;
        case DataFormat::JPEG: return j;
        default: return e;
    }
}

static const size_t HDR = 59; // length of the braces block

static std::string header(const Item& i, size_t total)
{
    char buf[128];
    int n = snprintf(buf, sizeof(buf), "{i%06u n%08zu t%04d%02d%02d%02d%02d%02d v%04u u%04d        }", i.id, total, i.ye, i.mo, i.da, i.ho, i.mi,
                     i.se, i.var, i.usn);
    std::string r(buf, n);
    r.resize(HDR, '}');
    r[HDR - 1] = '}';
    return r;
}

std::string Item::bytes() const
{
    size_t min   = magic(format).size() + HDR + trailer(format).size();
    size_t total = len < min ? min : len;
    std::string r = magic(format) + header(*this, total);
    Rng rng(id * 7919 + 13);
    size_t fill = total - min;
    uint64_t v  = 0;
    for (size_t k = 0; k < fill; ++k)
    {
        if (k % 8 == 0) v = rng.next();
        r.push_back('a' + ((v >> ((k % 8) * 8)) & 0xff) % 26);
    }
    return r + trailer(format);
}

std::string Item::key() const
{
    char buf[64];
    snprintf(buf, sizeof(buf), "%04d%02d%02d%02d%02d%02d/%u", ye, mo, da, ho, mi, se, var);
    return buf;
}

std::string Item::desc() const
{
    char buf[128];
    snprintf(buf, sizeof(buf), "#%u(%s %zub usn%d)", id, key().c_str(), bytes().size(), usn);
    return buf;
}

long parse_item(DataFormat format, const char* p, size_t avail, Item& out)
{
    const std::string& m = magic(format);
    if (avail < m.size()) return 0;
    if (memcmp(p, m.data(), m.size()) != 0) return 0;
    if (avail < m.size() + HDR) return -1;
    char hdr[HDR + 1];
    memcpy(hdr, p + m.size(), HDR);
    hdr[HDR] = 0;
    out        = Item();
    out.format = format;
    unsigned total;
    if (sscanf(hdr, "{i%6u n%8u t%4d%2d%2d%2d%2d%2d v%4u u%4d", &out.id, &total, &out.ye, &out.mo, &out.da, &out.ho, &out.mi, &out.se, &out.var,
               &out.usn) != 10)
        return -1;
    out.len = total;
    if (total < m.size() + HDR || total > 100000000) return -1;
    if (avail < total) return -1;
    const std::string& t = trailer(format);
    if (memcmp(p + total - t.size(), t.data(), t.size()) != 0) return -1;
    return total;
}

bool parse_exact(DataFormat format, const std::string& buf, Item& out)
{
    return parse_item(format, buf.data(), buf.size(), out) == (long)buf.size();
}

void fill_metadata(const Item& it, Metadata& md)
{
    md.test_set<types::Reftime>(types::Reftime::createPosition(it.time()));
    md.test_set<types::Product>(types::Product::createGRIB1(98, 1, it.var % 200));
    md.test_set<types::Origin>(types::Origin::createGRIB1(200, 0, 1 + it.var / 200));
    md.test_set<types::Level>(types::Level::createGRIB1(1));
    md.test_set<types::Timerange>(types::Timerange::createTimedef(3600));
    if (it.format == DataFormat::VM2)
    {
        std::string b = it.bytes();
        md.test_set<types::Value>(types::Value::create(b));
    }
}

std::shared_ptr<Metadata> Item::md() const
{
    auto md = std::make_shared<Metadata>();
    fill_metadata(*this, *md);
    std::string b = bytes();
    md->set_source_inline(format, metadata::DataManager::get().to_data(format, std::vector<uint8_t>(b.begin(), b.end())));
    return md;
}

std::string data_of(Metadata& md)
{
    auto v = md.get_data().read();
    return std::string(v.begin(), v.end());
}

namespace {

std::string read_fd(core::NamedFileDescriptor& fd)
{
    std::string res;
    char buf[4096];
    while (true)
    {
        size_t n = fd.read(buf, sizeof(buf));
        if (!n) break;
        res.append(buf, n);
    }
    return res;
}

class SimScanner : public data::Scanner
{
    DataFormat fmt;

public:
    explicit SimScanner(DataFormat fmt) : fmt(fmt) {}
    DataFormat name() const override { return fmt; }

    // Calls dest(item, offset, size)
    bool scan_buffer(const std::string& buf, const std::string& path, std::function<bool(const Item&, size_t, size_t)> dest)
    {
        const std::string& m = magic(fmt);
        size_t pos           = 0;
        while (pos < buf.size())
        {
            size_t q = buf.find(m, pos);
            if (q == std::string::npos) break;
            Item it;
            long r = parse_item(fmt, buf.data() + q, buf.size() - q, it);
            if (r < 0)
            {
                if (fmt == DataFormat::VM2)
                {
                    // Like meteo-vm2: skip malformed lines
                    pos = buf.find('\n', q);
                    if (pos == std::string::npos) break;
                    ++pos;
                    continue;
                }
                throw std::runtime_error(path + ":" + std::to_string(q) + ": end of resource reached when reading message");
            }
            if (r == 0)
            {
                pos = q + m.size();
                continue;
            }
            if (!dest(it, q, r)) return false;
            pos = q + r;
        }
        return true;
    }

    static std::vector<uint8_t> slice(const std::string& b, size_t off, size_t len) { return std::vector<uint8_t>(b.begin() + off, b.begin() + off + len); }

    bool scan_file_multi(const std::filesystem::path& abspath, data::scan_file_multi_dest_func dest) override
    {
        core::File fd(abspath, O_RDONLY);
        std::string buf = read_fd(fd);
        return scan_buffer(buf, abspath.native(), [&](const Item& it, size_t off, size_t len) {
            auto md = std::make_shared<Metadata>();
            fill_metadata(it, *md);
            return dest(md, off, slice(buf, off, len));
        });
    }

    std::shared_ptr<Metadata> scan_one(const std::string& buf, const std::string& path)
    {
        std::shared_ptr<Metadata> res;
        scan_buffer(buf, path, [&](const Item& it, size_t off, size_t len) {
            if (res) throw std::runtime_error(path + " contains more than one item");
            res = std::make_shared<Metadata>();
            fill_metadata(it, *res);
            return true;
        });
        if (!res) throw std::runtime_error(path + " contains no data");
        return res;
    }

    std::shared_ptr<Metadata> scan_file_single(const std::filesystem::path& abspath) override
    {
        core::File fd(abspath, O_RDONLY);
        std::string buf = read_fd(fd);
        auto md         = scan_one(buf, abspath.native());
        md->set_cached_data(metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(buf.begin(), buf.end())));
        return md;
    }

    bool scan_pipe(core::NamedFileDescriptor& in, metadata_dest_func dest) override
    {
        std::string buf = read_fd(in);
        return scan_buffer(buf, in.path().native(), [&](const Item& it, size_t off, size_t len) {
            auto md = std::make_shared<Metadata>();
            fill_metadata(it, *md);
            md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, slice(buf, off, len)));
            return dest(md);
        });
    }

    std::shared_ptr<Metadata> scan_data(const std::vector<uint8_t>& data) override
    {
        std::string buf(data.begin(), data.end());
        auto md = scan_one(buf, "memory buffer");
        md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(data)));
        return md;
    }

    bool usn_of(const std::string& buf, int& usn) const
    {
        if (fmt != DataFormat::BUFR) return false;
        Item it;
        if (!parse_exact(fmt, buf, it)) throw std::runtime_error("cannot decode BUFR to read its update sequence number");
        if (it.usn < 0) return false;
        usn = it.usn;
        return true;
    }

    bool update_sequence_number(Metadata& md, int& usn) const override { return usn_of(data_of(md), usn); }

    bool update_sequence_number(const types::source::Blob& source, int& usn) const override
    {
        if (fmt != DataFormat::BUFR) return false;
        auto d = source.read_data();
        return usn_of(std::string(d.begin(), d.end()), usn);
    }

    std::vector<uint8_t> reconstruct(const Metadata& md, const std::string& value) const override
    {
        if (fmt != DataFormat::VM2) return data::Scanner::reconstruct(md, value);
        return std::vector<uint8_t>(value.begin(), value.end());
    }
};

struct MagicValidator : public Validator
{
    DataFormat fmt;
    const char* begin;
    const char* end;
    MagicValidator(DataFormat fmt, const char* begin, const char* end) : fmt(fmt), begin(begin), end(end) {}
    DataFormat format() const override { return fmt; }

    void check(const std::string& b, const std::string& e) const
    {
        if (b != begin) throw_check_error("data does not start with the right signature");
        if (e != end) throw_check_error("data does not end with the right signature");
    }

    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        size_t bl = strlen(begin), el = strlen(end);
        if (size < bl + el) throw_check_error(fd, offset, "too short");
        std::string b(bl, 0), e(el, 0);
        if (fd.pread(&b[0], bl, offset) != bl) throw_check_error(fd, offset, "short read");
        if (fd.pread(&e[0], el, offset + size - el) != el) throw_check_error(fd, offset, "short read");
        check(b, e);
    }

    void validate_buf(const void* buf, size_t size) const override
    {
        size_t bl = strlen(begin), el = strlen(end);
        if (size < bl + el) throw_check_error("too short");
        std::string s((const char*)buf, size);
        check(s.substr(0, bl), s.substr(size - el));
    }
};

} // namespace

void register_scanners()
{
    data::Scanner::register_init([] {
        for (auto f : all_formats)
            data::Scanner::register_scanner(f, std::make_shared<SimScanner>(f));
    });
}

} // namespace sim

namespace arki::data {
namespace bufr {
static sim::MagicValidator bufr_validator(DataFormat::BUFR, "BUFR", "7777");
const Validator& validator() { return bufr_validator; }
Scanner::Scanner() {}
Scanner::~Scanner() {}
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("BUFR stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { throw std::runtime_error("BUFR stub"); }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("BUFR stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("BUFR stub"); }
int Scanner::update_sequence_number_raw(const std::string&) const { throw std::runtime_error("BUFR stub"); }
bool Scanner::update_sequence_number(Metadata&, int&) const { return false; }
bool Scanner::update_sequence_number(const types::source::Blob&, int&) const { return false; }
void MockScanner::scan_extra(dballe::BinaryMessage&, std::shared_ptr<dballe::Message>, std::shared_ptr<Metadata>) {}
} // namespace bufr
namespace vm2 {
static sim::MagicValidator vm2_validator(DataFormat::VM2, "VM2", ";");
const Validator& validator() { return vm2_validator; }
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("VM2 stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { throw std::runtime_error("VM2 stub"); }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("VM2 stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("VM2 stub"); }
void Scanner::normalize_before_dispatch(Metadata&) {}
std::vector<uint8_t> Scanner::reconstruct(const Metadata&, const std::string&) const { throw std::runtime_error("VM2 stub"); }
} // namespace vm2
} // namespace arki::data
