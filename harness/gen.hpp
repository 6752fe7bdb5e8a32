// Generators and independent reference encodings shared by the harnesses.
#pragma once
#include "common.hpp"

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/vlr.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

namespace G
{
using copc::Box;
using copc::Node;
using copc::Vector3;
using copc::VoxelKey;
typedef std::vector<char> Bytes;

struct KeyLess
{
    bool operator()(const VoxelKey &a, const VoxelKey &b) const
    {
        return std::tie(a.d, a.x, a.y, a.z) < std::tie(b.d, b.x, b.y, b.z);
    }
};
typedef std::set<VoxelKey, KeyLess> KeySet;
template <typename T> using KeyMap = std::map<VoxelKey, T, KeyLess>;

inline std::string ks(const VoxelKey &k)
{
    std::ostringstream s;
    s << k.d << "-" << k.x << "-" << k.y << "-" << k.z;
    return s.str();
}

// reference: key ancestry (bit shifts, independent of the code under test)
inline VoxelKey up(const VoxelKey &k, int n)
{
    return VoxelKey(k.d - n, k.x >> n, k.y >> n, k.z >> n);
}
inline bool is_anc(const VoxelKey &a, const VoxelKey &k) // a is k or one of its ancestors
{
    if (a.d < 0 || a.d > k.d)
        return false;
    VoxelKey u = up(k, k.d - a.d);
    return u.x == a.x && u.y == a.y && u.z == a.z;
}
inline VoxelKey child(const VoxelKey &k, int dir)
{
    return VoxelKey(k.d + 1, k.x * 2 + (dir & 1), k.y * 2 + ((dir >> 1) & 1), k.z * 2 + ((dir >> 2) & 1));
}
inline VoxelKey random_key(Rng &r, int maxd)
{
    VoxelKey k = VoxelKey(0, 0, 0, 0);
    int d = (int)r.below(maxd + 1);
    for (int i = 0; i < d; i++)
        k = child(k, (int)r.below(8));
    return k;
}

// reference: sizes (LAS 1.4 R15 tables)
inline int base_size(int fmt) { return fmt == 6 ? 30 : fmt == 7 ? 36 : 38; }
inline int base_dims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : 18; }
inline int eb_type_size(int t, int options)
{
    static const int base[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    if (t == 0)
        return options;
    return base[(t - 1) % 10] * ((t - 1) / 10 + 1);
}
inline int eb_bytes(const std::vector<lazperf::eb_vlr::ebfield> &f)
{
    int n = 0;
    for (auto &e : f)
        n += eb_type_size(e.data_type, e.options);
    return n;
}

inline std::string rand_text(Rng &r, size_t maxlen, bool exact = false)
{
    size_t n = exact ? maxlen : r.below(maxlen + 1);
    if (!exact && r.chance(20))
        n = maxlen;
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += (char)(r.chance(90) ? r.range(33, 126) : r.range(128, 255));
    return s;
}

inline double rand_finite(Rng &r)
{
    switch (r.below(6))
    {
    case 0: return 0;
    case 1: return (double)r.range(-1000, 1000);
    case 2: return r.unit() * 2e6 - 1e6;
    case 3: return (r.unit() - 0.5) * 1e-6;
    case 4: return (r.chance(50) ? 1 : -1) * std::ldexp(r.unit() + 0.5, (int)r.range(-200, 200));
    default: return (double)r.range(-2147483648LL, 2147483647LL) * 0.001;
    }
}

// ---- raw points: the reference for point values and for the LAS record layout
struct Raw
{
    int32_t x{}, y{}, z{};
    uint16_t intensity{};
    uint8_t returns{}, flags{}, cls{}, user{};
    int16_t angle{};
    uint16_t psid{};
    double gps{};
    uint16_t rgb[3]{};
    uint16_t nir{};
    std::vector<uint8_t> eb;
};
inline void put(Bytes &b, const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); }
inline void encode(Bytes &b, const Raw &p, int fmt)
{
    put(b, &p.x, 4);
    put(b, &p.y, 4);
    put(b, &p.z, 4);
    put(b, &p.intensity, 2);
    put(b, &p.returns, 1);
    put(b, &p.flags, 1);
    put(b, &p.cls, 1);
    put(b, &p.user, 1);
    put(b, &p.angle, 2);
    put(b, &p.psid, 2);
    put(b, &p.gps, 8);
    if (fmt >= 7)
        put(b, p.rgb, 6);
    if (fmt == 8)
        put(b, &p.nir, 2);
    if (!p.eb.empty())
        put(b, p.eb.data(), p.eb.size());
}
inline Raw decode(const char *p, int fmt, int ebn)
{
    Raw q;
    auto get = [&](void *d, size_t n)
    {
        memcpy(d, p, n);
        p += n;
    };
    get(&q.x, 4);
    get(&q.y, 4);
    get(&q.z, 4);
    get(&q.intensity, 2);
    get(&q.returns, 1);
    get(&q.flags, 1);
    get(&q.cls, 1);
    get(&q.user, 1);
    get(&q.angle, 2);
    get(&q.psid, 2);
    get(&q.gps, 8);
    if (fmt >= 7)
        get(q.rgb, 6);
    if (fmt == 8)
        get(&q.nir, 2);
    q.eb.resize(ebn);
    if (ebn)
        get(q.eb.data(), ebn);
    return q;
}
inline int32_t rand_i32(Rng &r)
{
    switch (r.below(6))
    {
    case 0: return INT32_MIN + (int32_t)r.below(3);
    case 1: return INT32_MAX - (int32_t)r.below(3);
    case 2: return (int32_t)r.range(-5, 5);
    case 3: return (int32_t)r.next();
    default: return (int32_t)r.range(-100000, 100000);
    }
}
inline Raw rand_raw(Rng &r, int ebn)
{
    Raw p;
    p.x = rand_i32(r);
    p.y = rand_i32(r);
    p.z = rand_i32(r);
    p.intensity = r.next();
    p.returns = r.next();
    p.flags = r.next();
    p.cls = r.next();
    p.user = r.next();
    p.angle = r.next();
    p.psid = r.next();
    p.gps = rand_finite(r);
    for (auto &c : p.rgb)
        c = r.next();
    p.nir = r.next();
    p.eb.resize(ebn);
    for (auto &c : p.eb)
        c = r.next();
    return p;
}
inline double scaled(int32_t v, double s, double o) { return (double)v * s + o; }

// Builds a library point from a raw one through the public setters.
inline void fill_point(copc::las::Point &q, const Raw &p, const Vector3 &s, const Vector3 &o)
{
    q.X(scaled(p.x, s.x, o.x));
    q.Y(scaled(p.y, s.y, o.y));
    q.Z(scaled(p.z, s.z, o.z));
    q.Intensity(p.intensity);
    q.ReturnNumber(p.returns & 15);
    q.NumberOfReturns(p.returns >> 4);
    q.Synthetic(p.flags & 1);
    q.KeyPoint(p.flags & 2);
    q.Withheld(p.flags & 4);
    q.Overlap(p.flags & 8);
    q.ScannerChannel((p.flags >> 4) & 3);
    q.ScanDirectionFlag(p.flags & 64);
    q.EdgeOfFlightLineFlag(p.flags & 128);
    q.Classification(p.cls);
    q.UserData(p.user);
    q.ScanAngle(p.angle);
    q.PointSourceId(p.psid);
    q.GPSTime(p.gps);
    if (q.HasRgb())
        q.Rgb(p.rgb[0], p.rgb[1], p.rgb[2]);
    if (q.HasNir())
        q.Nir(p.nir);
    q.ExtraBytes(p.eb);
}
// The point the library unpacked must have exactly these values.
inline std::string diff_point(const copc::las::Point &q, const Raw &p, int fmt, const Vector3 &s, const Vector3 &o)
{
    std::ostringstream d;
    d.precision(17);
    auto near = [](double a, double b, double sc) { return a == b || std::fabs(a - b) <= std::fabs(sc) * 1e-3; };
    if (!near(q.X(), scaled(p.x, s.x, o.x), s.x)) d << " x " << q.X() << "!=" << scaled(p.x, s.x, o.x);
    if (!near(q.Y(), scaled(p.y, s.y, o.y), s.y)) d << " y " << q.Y() << "!=" << scaled(p.y, s.y, o.y);
    if (!near(q.Z(), scaled(p.z, s.z, o.z), s.z)) d << " z " << q.Z() << "!=" << scaled(p.z, s.z, o.z);
#define F(name, a, b)                                                                                                  \
    if ((a) != (b))                                                                                                    \
        d << " " name " " << (long long)(a) << "!=" << (long long)(b);
    F("intensity", q.Intensity(), p.intensity)
    F("return_number", q.ReturnNumber(), p.returns & 15)
    F("number_of_returns", q.NumberOfReturns(), p.returns >> 4)
    F("synthetic", q.Synthetic(), bool(p.flags & 1))
    F("key_point", q.KeyPoint(), bool(p.flags & 2))
    F("withheld", q.Withheld(), bool(p.flags & 4))
    F("overlap", q.Overlap(), bool(p.flags & 8))
    F("scanner_channel", q.ScannerChannel(), (p.flags >> 4) & 3)
    F("scan_direction", q.ScanDirectionFlag(), bool(p.flags & 64))
    F("edge", q.EdgeOfFlightLineFlag(), bool(p.flags & 128))
    F("returns_bits", q.ReturnsBitField(), p.returns)
    F("flags_bits", q.FlagsBitField(), p.flags)
    F("classification", q.Classification(), p.cls)
    F("user_data", q.UserData(), p.user)
    F("scan_angle", q.ScanAngle(), p.angle)
    F("point_source_id", q.PointSourceId(), p.psid)
    F("format", q.PointFormatId(), fmt)
    F("record_length", q.PointRecordLength(), base_size(fmt) + p.eb.size())
    F("eb_size", q.EbByteSize(), p.eb.size())
    F("has_rgb", q.HasRgb(), fmt >= 7)
    F("has_nir", q.HasNir(), fmt == 8)
    double g = q.GPSTime();
    if (memcmp(&g, &p.gps, 8)) d << " gps " << g << "!=" << p.gps;
    if (fmt >= 7 && q.HasRgb())
    {
        F("red", q.Red(), p.rgb[0])
        F("green", q.Green(), p.rgb[1])
        F("blue", q.Blue(), p.rgb[2])
    }
    if (fmt == 8 && q.HasNir())
        F("nir", q.Nir(), p.nir)
#undef F
    if (q.ExtraBytes() != p.eb) d << " extra bytes differ";
    return d.str();
}

// ---- configurations
struct Cfg
{
    int8_t fmt{6};
    Vector3 scale, offset;
    std::string wkt;
    copc::las::EbVlr eb{0};
    bool ext_stats{false};
    int ebn{0};
    int rec() const { return base_size(fmt) + ebn; }
};
inline lazperf::eb_vlr::ebfield rand_ebfield(Rng &r)
{
    lazperf::eb_vlr::ebfield f;
    if (r.chance(25))
    {
        f.data_type = 0;
        f.options = (uint8_t)(r.chance(80) ? r.range(1, 12) : r.range(13, 255));
    }
    else
    {
        f.data_type = (uint8_t)r.range(1, 30);
        f.options = (uint8_t)r.next();
    }
    f.reserved[0] = r.next();
    f.reserved[1] = r.next();
    f.name = rand_text(r, 32);
    f.description = rand_text(r, 32);
    for (auto a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
        for (int i = 0; i < 3; i++)
            a[i] = rand_finite(r);
    return f;
}
inline bool same_eb(const lazperf::eb_vlr::ebfield &a, const lazperf::eb_vlr::ebfield &b)
{
    return !memcmp(a.reserved, b.reserved, 2) && a.data_type == b.data_type && a.options == b.options &&
           a.name == b.name && !memcmp(a.no_data, b.no_data, 24) && !memcmp(a.minval, b.minval, 24) &&
           !memcmp(a.maxval, b.maxval, 24) && !memcmp(a.scale, b.scale, 24) && !memcmp(a.offset, b.offset, 24) &&
           a.description == b.description;
}
inline Vector3 rand_scale(Rng &r)
{
    static const double sc[] = {0.01, 0.001, 0.0001, 1, 0.5, 0.25, 0.1, 2, 1e-5};
    return Vector3(sc[r.below(9)], sc[r.below(9)], sc[r.below(9)]);
}
inline Vector3 rand_offset(Rng &r)
{
    auto one = [&]() -> double
    {
        switch (r.below(4))
        {
        case 0: return 0;
        case 1: return (double)r.range(-1000000, 1000000);
        case 2: return r.unit() * 1000 - 500;
        default: return (double)r.range(-50, 50);
        }
    };
    double a = one(), b = one(), c = one();
    return Vector3(a, b, c);
}
inline std::string rand_wkt(Rng &r)
{
    switch (r.below(5))
    {
    case 0: return "";
    case 1: return rand_text(r, 5);
    case 2: return "PROJCS[\"" + rand_text(r, 200) + "\"]";
    case 3: return rand_text(r, 3000);
    default: return rand_text(r, 64);
    }
}
inline Cfg rand_cfg(Rng &r, bool big_records = true)
{
    Cfg c;
    c.fmt = (int8_t)r.range(6, 8);
    c.scale = rand_scale(r);
    c.offset = rand_offset(r);
    c.wkt = rand_wkt(r);
    int nf = r.chance(35) ? 0 : (int)r.range(1, 6);
    for (int i = 0; i < nf; i++)
    {
        auto f = rand_ebfield(r);
        if (!big_records && c.ebn + eb_type_size(f.data_type, f.options) > 200)
            continue;
        c.eb.items.push_back(f);
        c.ebn += eb_type_size(f.data_type, f.options);
    }
    c.ext_stats = r.chance(40);
    return c;
}
// header fields, COPC info and extents, set through the writer-config accessors
struct Meta
{
    std::string guid, sys, gen;
    uint16_t source{}, encoding{}, day{}, year{};
    Vector3 min, max;
    std::array<uint64_t, 15> by_return{};
    double cx{}, cy{}, cz{}, half{}, spacing{};
    std::vector<copc::CopcExtent> ext;
};
inline copc::CopcExtent rand_extent(Rng &r)
{
    double a = rand_finite(r), b = rand_finite(r);
    if (a > b)
        std::swap(a, b);
    return copc::CopcExtent(a, b, rand_finite(r), std::fabs(rand_finite(r)));
}
inline Meta rand_meta(Rng &r, size_t n_extents)
{
    Meta m;
    m.guid = rand_text(r, 16);
    m.sys = rand_text(r, 32);
    m.gen = rand_text(r, 32);
    m.source = r.next();
    m.encoding = r.next();
    m.day = r.next();
    m.year = r.next();
    m.min = Vector3(rand_finite(r), rand_finite(r), rand_finite(r));
    m.max = Vector3(m.min.x + std::fabs(rand_finite(r)), m.min.y + std::fabs(rand_finite(r)),
                    m.min.z + std::fabs(rand_finite(r)));
    for (auto &b : m.by_return)
        b = r.chance(50) ? r.below(100000) : r.next();
    m.cx = rand_finite(r);
    m.cy = rand_finite(r);
    m.cz = rand_finite(r);
    m.half = rand_finite(r);
    m.spacing = rand_finite(r);
    for (size_t i = 0; i < n_extents; i++)
        m.ext.push_back(rand_extent(r));
    return m;
}
inline void apply_header(copc::las::LasHeader &h, const Meta &m)
{
    h.GUID(m.guid);
    h.SystemIdentifier(m.sys);
    h.GeneratingSoftware(m.gen);
    h.file_source_id = m.source;
    h.global_encoding = m.encoding;
    h.creation_day = m.day;
    h.creation_year = m.year;
    h.min = m.min;
    h.max = m.max;
    h.points_by_return = m.by_return;
}
inline std::string diff_header(const copc::las::LasHeader &h, const Meta &m)
{
    std::ostringstream d;
    d.precision(17);
#define F(n, a, b)                                                                                                     \
    if (!((a) == (b)))                                                                                                 \
        d << " " n ": got " << (a) << " want " << (b);
    F("guid", h.GUID(), m.guid)
    F("system_identifier", h.SystemIdentifier(), m.sys)
    F("generating_software", h.GeneratingSoftware(), m.gen)
    F("file_source_id", h.file_source_id, m.source)
    F("global_encoding", h.global_encoding, (m.encoding | 16))
    F("day", h.creation_day, m.day)
    F("year", h.creation_year, m.year)
    F("min", h.min, m.min)
    F("max", h.max, m.max)
#undef F
    if (h.points_by_return != m.by_return)
        d << " points_by_return differ";
    return d.str();
}
inline std::shared_ptr<copc::CopcExtent> mk(const copc::CopcExtent &e) { return std::make_shared<copc::CopcExtent>(e); }
inline bool same_bytes(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }

inline uint64_t hash_bytes(const Bytes &b, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : b)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
template <typename B> Bytes to_bytes(const B &s) { return Bytes(s.begin(), s.end()); }
} // namespace G
