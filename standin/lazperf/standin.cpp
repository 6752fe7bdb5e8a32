#include "standin.hpp"

#include <algorithm>
#include <cstring>

namespace lazperf
{
namespace
{
template <typename T> void put(std::ostream &o, const T &v) { o.write(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> void get(std::istream &i, T &v)
{
    T t{};
    i.read(reinterpret_cast<char *>(&t), sizeof(T));
    v = t;
}
void putStr(std::ostream &o, const std::string &s, size_t n)
{
    std::vector<char> b(n, 0);
    std::memcpy(b.data(), s.data(), (std::min)(n, s.size()));
    o.write(b.data(), n);
}
std::string getStr(std::istream &i, size_t n)
{
    std::vector<char> b(n, 0);
    i.read(b.data(), n);
    std::string s(b.data(), n);
    size_t p = s.find_last_not_of('\0');
    return p == std::string::npos ? std::string() : s.substr(0, p + 1);
}
} // namespace

// ---------------------------------------------------------------- header
int baseCount(int format)
{
    switch (format)
    {
    case 0: return 20;
    case 1: return 28;
    case 2: return 26;
    case 3: return 34;
    case 6: return 30;
    case 7: return 36;
    case 8: return 38;
    default: return 0;
    }
}
int header12::ebCount() const
{
    int b = baseCount(pointFormat());
    return b ? int(point_record_length) - b : 0;
}
void header12::write(std::ostream &o) const
{
    o.write(magic, 4);
    put(o, file_source_id);
    put(o, global_encoding);
    o.write(guid, 16);
    put(o, version.major);
    put(o, version.minor);
    o.write(system_identifier, 32);
    o.write(generating_software, 32);
    put(o, creation.day);
    put(o, creation.year);
    put(o, header_size);
    put(o, point_offset);
    put(o, vlr_count);
    put(o, point_format_id);
    put(o, point_record_length);
    put(o, point_count);
    for (auto v : points_by_return)
        put(o, v);
    put(o, scale.x);
    put(o, scale.y);
    put(o, scale.z);
    put(o, offset.x);
    put(o, offset.y);
    put(o, offset.z);
    put(o, maxx);
    put(o, minx);
    put(o, maxy);
    put(o, miny);
    put(o, maxz);
    put(o, minz);
}
void header12::read(std::istream &i)
{
    i.read(magic, 4);
    get(i, file_source_id);
    get(i, global_encoding);
    i.read(guid, 16);
    get(i, version.major);
    get(i, version.minor);
    i.read(system_identifier, 32);
    i.read(generating_software, 32);
    get(i, creation.day);
    get(i, creation.year);
    get(i, header_size);
    get(i, point_offset);
    get(i, vlr_count);
    get(i, point_format_id);
    get(i, point_record_length);
    get(i, point_count);
    for (auto &v : points_by_return)
        get(i, v);
    get(i, scale.x);
    get(i, scale.y);
    get(i, scale.z);
    get(i, offset.x);
    get(i, offset.y);
    get(i, offset.z);
    get(i, maxx);
    get(i, minx);
    get(i, maxy);
    get(i, miny);
    get(i, maxz);
    get(i, minz);
}
void header13::write(std::ostream &o) const
{
    header12::write(o);
    put(o, wave_offset);
}
void header13::read(std::istream &i)
{
    header12::read(i);
    get(i, wave_offset);
}
void header14::write(std::ostream &o) const
{
    header13::write(o);
    put(o, evlr_offset);
    put(o, evlr_count);
    put(o, point_count_14);
    for (auto v : points_by_return_14)
        put(o, v);
}
void header14::read(std::istream &i)
{
    header13::read(i);
    get(i, evlr_offset);
    get(i, evlr_count);
    get(i, point_count_14);
    for (auto &v : points_by_return_14)
        get(i, v);
}

// ---------------------------------------------------------------- vlr headers
vlr_header vlr_header::create(std::istream &in)
{
    vlr_header h;
    h.read(in);
    return h;
}
void vlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getStr(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getStr(in, 32);
}
void vlr_header::write(std::ostream &o) const
{
    put(o, reserved);
    putStr(o, user_id, 16);
    put(o, record_id);
    put(o, data_length);
    putStr(o, description, 32);
}
evlr_header evlr_header::create(std::istream &in)
{
    evlr_header h;
    h.read(in);
    return h;
}
void evlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getStr(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getStr(in, 32);
}
void evlr_header::write(std::ostream &o) const
{
    put(o, reserved);
    putStr(o, user_id, 16);
    put(o, record_id);
    put(o, data_length);
    putStr(o, description, 32);
}

// ---------------------------------------------------------------- laz vlr
laz_vlr::laz_vlr(int format, int ebCount, uint32_t chunksize) : compressor(3), chunk_size(chunksize)
{
    if (format >= 6)
    {
        items.push_back({10, 30, 3});
        if (format == 7)
            items.push_back({11, 6, 3});
        if (format == 8)
            items.push_back({12, 8, 3});
        if (ebCount)
            items.push_back({14, static_cast<uint16_t>(ebCount), 3});
    }
    else
        throw error("stand-in: unsupported point format");
}
laz_vlr laz_vlr::create(std::istream &in)
{
    laz_vlr v;
    v.read(in);
    return v;
}
void laz_vlr::read(std::istream &in)
{
    get(in, compressor);
    get(in, coder);
    get(in, ver_major);
    get(in, ver_minor);
    get(in, revision);
    get(in, options);
    get(in, chunk_size);
    get(in, num_points);
    get(in, num_bytes);
    uint16_t n;
    get(in, n);
    items.clear();
    for (int k = 0; k < n && in.good(); k++)
    {
        laz_item it;
        get(in, it.type);
        get(in, it.size);
        get(in, it.version);
        items.push_back(it);
    }
}
void laz_vlr::write(std::ostream &o) const
{
    put(o, compressor);
    put(o, coder);
    put(o, ver_major);
    put(o, ver_minor);
    put(o, revision);
    put(o, options);
    put(o, chunk_size);
    put(o, num_points);
    put(o, num_bytes);
    put(o, static_cast<uint16_t>(items.size()));
    for (auto &it : items)
    {
        put(o, it.type);
        put(o, it.size);
        put(o, it.version);
    }
}
vlr_header laz_vlr::header() const { return vlr_header{0, "laszip encoded", 22204, (uint16_t)size(), "http://laszip.org"}; }
evlr_header laz_vlr::eheader() const { return evlr_header{0, "laszip encoded", 22204, size(), "http://laszip.org"}; }

// ---------------------------------------------------------------- eb vlr
eb_vlr::eb_vlr(int ebCount)
{
    for (int i = 0; i < ebCount; ++i)
        addField();
}
void eb_vlr::addField()
{
    ebfield f;
    f.name = "FIELD_" + std::to_string(items.size());
    addField(f);
}
eb_vlr eb_vlr::create(std::istream &in, int byteSize)
{
    eb_vlr v;
    v.read(in, byteSize);
    return v;
}
void eb_vlr::read(std::istream &in, int byteSize)
{
    items.clear();
    for (int n = byteSize / 192; n > 0 && in.good(); --n)
    {
        ebfield f;
        in.read((char *)f.reserved, 2);
        get(in, f.data_type);
        get(in, f.options);
        f.name = getStr(in, 32);
        in.read((char *)f.unused, 4);
        for (auto a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
            for (int k = 0; k < 3; k++)
                get(in, a[k]);
        f.description = getStr(in, 32);
        items.push_back(f);
    }
}
void eb_vlr::write(std::ostream &o) const
{
    for (auto &f : items)
    {
        o.write((const char *)f.reserved, 2);
        put(o, f.data_type);
        put(o, f.options);
        putStr(o, f.name, 32);
        o.write((const char *)f.unused, 4);
        for (auto a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
            for (int k = 0; k < 3; k++)
                put(o, a[k]);
        putStr(o, f.description, 32);
    }
}
vlr_header eb_vlr::header() const { return vlr_header{0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
evlr_header eb_vlr::eheader() const { return evlr_header{0, "LASF_Spec", 4, size(), ""}; }

// ---------------------------------------------------------------- wkt vlr
wkt_vlr wkt_vlr::create(std::istream &in, int byteSize)
{
    wkt_vlr v;
    v.read(in, byteSize);
    return v;
}
void wkt_vlr::read(std::istream &in, int byteSize)
{
    // (bounded so that a hostile length cannot exhaust memory inside the stand-in itself)
    if (byteSize < 0)
        throw error("Invalid WKT size");
    wkt.clear();
    char buf[4096];
    while (byteSize > 0)
    {
        int n = (std::min)(byteSize, (int)sizeof(buf));
        in.read(buf, n);
        if (!in)
            throw error("Couldn't read WKT");
        wkt.append(buf, n);
        byteSize -= n;
    }
}
void wkt_vlr::write(std::ostream &o) const { o.write(wkt.data(), wkt.size()); }
vlr_header wkt_vlr::header() const { return vlr_header{0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
evlr_header wkt_vlr::eheader() const { return evlr_header{0, "LASF_Projection", 2112, size(), ""}; }

// ---------------------------------------------------------------- copc info vlr
copc_info_vlr copc_info_vlr::create(std::istream &in)
{
    copc_info_vlr v;
    v.read(in);
    return v;
}
void copc_info_vlr::read(std::istream &in)
{
    get(in, center_x);
    get(in, center_y);
    get(in, center_z);
    get(in, halfsize);
    get(in, spacing);
    get(in, root_hier_offset);
    get(in, root_hier_size);
    get(in, gpstime_minimum);
    get(in, gpstime_maximum);
    for (auto &r : reserved)
        get(in, r);
}
void copc_info_vlr::write(std::ostream &o) const
{
    put(o, center_x);
    put(o, center_y);
    put(o, center_z);
    put(o, halfsize);
    put(o, spacing);
    put(o, root_hier_offset);
    put(o, root_hier_size);
    put(o, gpstime_minimum);
    put(o, gpstime_maximum);
    for (auto r : reserved)
        put(o, r);
}
vlr_header copc_info_vlr::header() const { return vlr_header{0, "copc", 1, (uint16_t)size(), "COPC info"}; }
evlr_header copc_info_vlr::eheader() const { return evlr_header{0, "copc", 1, size(), "COPC info"}; }

// ---------------------------------------------------------------- streams
OutputCb OutFileStream::cb()
{
    return [this](const unsigned char *c, size_t n) { putBytes(c, n); };
}
void OutFileStream::putBytes(const unsigned char *c, size_t len) { f_.write((const char *)c, len); }

struct InFileStream::Private
{
    std::istream &f;
    std::vector<char> buf;
    size_t off{0}, filled{0};
    Private(std::istream &in) : f(in), buf(1 << 16) {}
    void get(unsigned char *c, size_t n)
    {
        while (n)
        {
            if (off == filled)
            {
                off = 0;
                f.read(buf.data(), buf.size());
                filled = f.gcount();
                if (filled == 0)
                    throw error("Unexpected end of file.");
            }
            size_t k = (std::min)(n, filled - off);
            std::memcpy(c, buf.data() + off, k);
            c += k;
            off += k;
            n -= k;
        }
    }
};
InFileStream::InFileStream(std::istream &in) : p_(new Private(in)) {}
InFileStream::~InFileStream() = default;
void InFileStream::reset() { p_->off = p_->filled = 0; }
void InFileStream::getBytes(unsigned char *c, size_t len) { p_->get(c, len); }
InputCb InFileStream::cb()
{
    return [this](unsigned char *c, size_t n) { getBytes(c, n); };
}

// ---------------------------------------------------------------- codec
// chunk := first point raw | u32 count | u32 nbytes | payload[nbytes] | u32 checksum
// payload: for every later point, runs of (skip, n, n changed bytes) against the previous point, ended by (255,0).
namespace
{
uint32_t fnv(uint32_t h, const unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        h = (h ^ p[i]) * 16777619u;
    return h;
}
uint32_t seed(int format, size_t eb)
{
    unsigned char s[3]{(unsigned char)format, (unsigned char)(eb & 255), (unsigned char)(eb >> 8)};
    return fnv(2166136261u, s, 3);
}

struct Comp : las_compressor
{
    OutputCb cb;
    int format;
    size_t eb, sz;
    std::vector<unsigned char> first, prev, pay;
    uint32_t n{0};
    bool finished{false};
    Comp(OutputCb c, int f, size_t e) : cb(std::move(c)), format(f), eb(e), sz(baseCount(f) + e) {}
    const char *compress(const char *in) override
    {
        const unsigned char *u = (const unsigned char *)in;
        if (n == 0)
            first.assign(u, u + sz);
        else
        {
            size_t i = 0;
            while (i < sz)
            {
                size_t skip = 0;
                while (i + skip < sz && skip < 254 && u[i + skip] == prev[i + skip])
                    skip++;
                i += skip;
                size_t run = 0;
                while (i + run < sz && run < 255 && u[i + run] != prev[i + run])
                    run++;
                if (skip || run)
                {
                    pay.push_back((unsigned char)skip);
                    pay.push_back((unsigned char)run);
                    pay.insert(pay.end(), u + i, u + i + run);
                }
                i += run;
            }
            pay.push_back(255);
            pay.push_back(0);
        }
        prev.assign(u, u + sz);
        n++;
        return in + sz;
    }
    void done() override
    {
        if (finished || n == 0)
            return;
        finished = true;
        uint32_t nb = pay.size();
        uint32_t h = fnv(seed(format, eb), first.data(), first.size());
        h = fnv(h, (unsigned char *)&n, 4);
        h = fnv(h, pay.data(), pay.size());
        cb(first.data(), first.size());
        cb((unsigned char *)&n, 4);
        cb((unsigned char *)&nb, 4);
        if (nb)
            cb(pay.data(), nb);
        cb((unsigned char *)&h, 4);
    }
};
struct Decomp : las_decompressor
{
    InputCb cb;
    int format;
    size_t eb, sz;
    std::vector<unsigned char> cur, pay;
    uint32_t n{0}, i{0};
    size_t pos{0};
    Decomp(InputCb c, int f, size_t e) : cb(std::move(c)), format(f), eb(e), sz(baseCount(f) + e) {}
    char *decompress(char *out) override
    {
        if (i == 0)
        {
            cur.resize(sz);
            cb(cur.data(), sz);
            uint32_t nb;
            cb((unsigned char *)&n, 4);
            cb((unsigned char *)&nb, 4);
            for (uint32_t left = nb; left;)
            {
                uint32_t k = (std::min)(left, 65536u);
                size_t at = pay.size();
                pay.resize(at + k);
                cb(pay.data() + at, k);
                left -= k;
            }
            uint32_t h, g;
            cb((unsigned char *)&h, 4);
            g = fnv(seed(format, eb), cur.data(), cur.size());
            g = fnv(g, (unsigned char *)&n, 4);
            g = fnv(g, pay.data(), pay.size());
            if (g != h)
                throw error("stand-in: chunk checksum mismatch");
        }
        if (i >= n)
            throw error("stand-in: read past the end of a chunk");
        if (i > 0)
        {
            size_t at = 0;
            for (;;)
            {
                if (pos + 2 > pay.size())
                    throw error("stand-in: bad payload");
                unsigned skip = pay[pos], run = pay[pos + 1];
                pos += 2;
                if (skip == 255)
                    break;
                at += skip;
                if (at + run > sz || pos + run > pay.size())
                    throw error("stand-in: bad payload");
                std::memcpy(cur.data() + at, pay.data() + pos, run);
                at += run;
                pos += run;
            }
        }
        i++;
        std::memcpy(out, cur.data(), sz);
        return out + sz;
    }
};
} // namespace
las_compressor::ptr build_las_compressor(OutputCb cb, int format, size_t eb)
{
    if (format < 6 || format > 8)
        return {};
    return std::make_shared<Comp>(std::move(cb), format, eb);
}
las_decompressor::ptr build_las_decompressor(InputCb cb, int format, size_t eb)
{
    if (format < 6 || format > 8)
        return {};
    return std::make_shared<Decomp>(std::move(cb), format, eb);
}
void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    auto var = [&](uint32_t v)
    {
        do
        {
            unsigned char b = v & 0x7f;
            v >>= 7;
            if (v)
                b |= 0x80;
            cb(&b, 1);
        } while (v);
    };
    for (auto &c : chunks)
    {
        if (variable)
            var((uint32_t)c.count);
        var((uint32_t)c.offset);
    }
}
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t num, bool variable)
{
    auto var = [&]()
    {
        uint64_t v = 0;
        for (int s = 0;; s += 7)
        {
            unsigned char b;
            cb(&b, 1);
            v |= uint64_t(b & 0x7f) << s;
            if (!(b & 0x80))
                return v;
            if (s > 28)
                throw error("stand-in: bad chunk table");
        }
    };
    std::vector<chunk> out;
    for (size_t i = 0; i < num; i++)
    {
        chunk c{};
        if (variable)
            c.count = var();
        c.offset = var();
        out.push_back(c);
    }
    return out;
}

// ---------------------------------------------------------------- reader
namespace reader
{
struct basic_file::Private
{
    std::istream *f{};
    header14 head;
    laz_vlr laz;
    std::unique_ptr<InFileStream> stream;
    std::vector<chunk> chunks;
    las_decompressor::ptr dec;
    size_t cur{0};
    uint64_t in_chunk{0};
    uint64_t read{0};
};
basic_file::basic_file() : p_(new Private) {}
basic_file::~basic_file() = default;
uint64_t basic_file::pointCount() const
{
    return p_->head.version.minor == 4 ? p_->head.point_count_14 : p_->head.point_count;
}
const header14 &basic_file::header() const { return p_->head; }
laz_vlr basic_file::lazVlr() const { return p_->laz; }

void basic_file::open(std::istream &in)
{
    auto &P = *p_;
    P.f = &in;
    in.seekg(0);
    header12 h12;
    h12.read(in);
    if (!in)
        throw error("Couldn't read LAS header.");
    if (std::memcmp(h12.magic, "LASF", 4))
        throw error("Invalid LAS file. Incorrect magic number.");
    if (h12.version.major != 1 || h12.version.minor < 2 || h12.version.minor > 4)
        throw error("Unsupported LAS version.");
    in.seekg(0);
    if (h12.version.minor == 4)
        P.head.read(in);
    else
        static_cast<header12 &>(P.head) = h12;
    if (!in)
        throw error("Couldn't read LAS header.");
    if (P.head.point_format_id & 0x40)
        throw error("Header bits indicate unsupported old-style compression.");
    if (!(P.head.point_format_id & 0x80))
        throw error("Header indicates the file is not compressed.");
    P.head.point_format_id &= 0x3f;
    if (baseCount(P.head.point_format_id) == 0)
        throw error("Unsupported point format.");
    if (P.head.ebCount() < 0)
        throw error("Point record length is too small for the format.");

    // VLRs
    in.seekg(P.head.header_size);
    bool found = false;
    for (uint32_t i = 0; i < P.head.vlr_count; i++)
    {
        vlr_header v = vlr_header::create(in);
        if (!in)
            throw error("Couldn't read VLR.");
        std::streamoff pos = in.tellg();
        if (v.user_id == "laszip encoded" && v.record_id == 22204)
        {
            P.laz.read(in);
            found = bool(in);
            break;
        }
        in.seekg(pos + v.data_length);
        if (!in)
            throw error("Couldn't read VLR.");
    }
    if (!found || !P.laz.valid())
        throw error("Couldn't find LASZIP VLR");

    // chunk table
    in.seekg(P.head.point_offset);
    uint64_t table = 0;
    in.read((char *)&table, 8);
    if (!in)
        throw error("Couldn't read chunk table.");
    if (table == ~0ull)
        throw error("Chunk table offset == -1 is not supported at this time");
    in.seekg(table);
    struct
    {
        uint32_t version, count;
    } th{};
    in.read((char *)&th, 8);
    if (!in)
        throw error("Couldn't read chunk table.");
    if (th.version != 0)
        throw error("Bad chunk table. Invalid version.");
    {
        InFileStream s(in);
        P.chunks = decompress_chunk_table(s.cb(), th.count, P.laz.chunk_size == 0xffffffffu);
    }
    in.clear();
    in.seekg(P.head.point_offset + 8);
    P.stream.reset(new InFileStream(in));
}

void basic_file::readPoint(char *out)
{
    auto &P = *p_;
    while (!P.dec || P.in_chunk == P.chunks[P.cur].count)
    {
        size_t next = P.dec ? P.cur + 1 : 0;
        if (next >= P.chunks.size())
            throw error("stand-in: read past the last chunk");
        P.cur = next;
        P.in_chunk = 0;
        P.dec = build_las_decompressor(P.stream->cb(), P.head.point_format_id, P.head.ebCount());
    }
    P.dec->decompress(out);
    P.in_chunk++;
}
} // namespace reader
} // namespace lazperf
