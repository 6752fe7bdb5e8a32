// Direct C++ access to the objects that Python holds, written independently of /repo/python/bindings.cpp and linked
// into the same shared object, so that what the bindings do can be compared with what C++ does.
#include <algorithm>
#include <cstring>
#include <optional>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include <pybind11/operators.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/stl_bind.h>

#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

#include <sanitizer/allocator_interface.h>

namespace py = pybind11;
using namespace copc;
using las::LasHeader;
using las::Point;
using las::Points;
using PointPtr = std::shared_ptr<Point>;
using ExtentPtr = std::shared_ptr<CopcExtent>;
PYBIND11_MAKE_OPAQUE(std::vector<char>)

// ------------------------------------------------------------------ the whole state of an object, as text
namespace
{
struct Out
{
    std::ostringstream s;
    Out &operator<<(double d)
    {
        uint64_t b;
        std::memcpy(&b, &d, 8);
        s << std::hex << b << std::dec << ' ';
        return *this;
    }
    Out &operator<<(uint64_t v) { return s << v << ' ', *this; }
    Out &operator<<(int64_t v) { return s << v << ' ', *this; }
    Out &operator<<(int v) { return s << v << ' ', *this; }
    Out &operator<<(unsigned v) { return s << v << ' ', *this; }
    Out &operator<<(bool v) { return s << (v ? "T " : "F "), *this; }
    Out &operator<<(const std::string &v)
    {
        s << v.size() << ':';
        for (unsigned char c : v)
            s << "0123456789abcdef"[c >> 4] << "0123456789abcdef"[c & 15];
        s << ' ';
        return *this;
    }
    Out &operator<<(const char *tag) { return s << tag << ' ', *this; }
};
void put(Out &o, const VoxelKey &k) { o << "key" << (int)k.d << (int)k.x << (int)k.y << (int)k.z; }
void put(Out &o, const Vector3 &v) { o << "vec" << v.x << v.y << v.z; }
void put(Out &o, const Box &b) { o << "box" << b.x_min << b.y_min << b.z_min << b.x_max << b.y_max << b.z_max; }
void put(Out &o, const Node &n)
{
    o << "node";
    put(o, n.key);
    o << (uint64_t)n.offset << (int)n.byte_size << (int)n.point_count;
    put(o, n.page_key);
}
void put(Out &o, const Page &n)
{
    o << "page";
    put(o, n.key);
    o << (uint64_t)n.offset << (int)n.byte_size << (int)n.point_count << n.loaded;
}
void put(Out &o, const Point &p)
{
    o << "point" << (int)p.PointFormatId() << (unsigned)p.PointRecordLength() << p.X() << p.Y() << p.Z() << (int)p.Intensity() << (int)p.ReturnsBitField()
      << (int)p.FlagsBitField() << (int)p.Classification() << (int)p.ScanAngle() << (int)p.UserData() << (int)p.PointSourceId() << p.GPSTime() << p.HasRgb()
      << p.HasNir();
    if (p.HasRgb())
        o << (int)p.Red() << (int)p.Green() << (int)p.Blue();
    if (p.HasNir())
        o << (int)p.Nir();
    for (uint8_t b : p.ExtraBytes())
        o << (int)b;
}
void put(Out &o, const Points &p)
{
    o << "points" << (int)p.PointFormatId() << (unsigned)p.PointRecordLength() << (uint64_t)p.Size();
    for (const auto &q : p)
        if (q)
            put(o, *q);
        else
            o << "null";
}
void put(Out &o, const LasHeader &h)
{
    o << "header" << (int)h.file_source_id << (int)h.global_encoding << (int)h.creation_day << (int)h.creation_year;
    put(o, h.max);
    put(o, h.min);
    for (uint64_t n : h.points_by_return)
        o << n;
    put(o, h.Scale());
    put(o, h.Offset());
    o << (int)h.PointFormatId() << (int)h.PointRecordLength() << (uint64_t)h.PointCount() << (uint64_t)h.PointOffset() << (uint64_t)h.VlrCount()
      << (uint64_t)h.EvlrOffset() << (uint64_t)h.EvlrCount() << h.GUID() << h.SystemIdentifier() << h.GeneratingSoftware() << h.IsCopc();
}
void put(Out &o, const CopcInfo &i)
{
    o << "info" << i.center_x << i.center_y << i.center_z << i.halfsize << i.spacing << (uint64_t)i.root_hier_offset << (uint64_t)i.root_hier_size;
}
void put(Out &o, const CopcExtent &e) { o << "extent" << e.minimum << e.maximum << e.mean << e.var; }
void put(Out &o, const CopcExtents &e)
{
    o << "extents" << (int)e.PointFormatId() << e.HasExtendedStats();
    for (const auto &x : const_cast<CopcExtents &>(e).Extents())
        if (x)
            put(o, *x);
        else
            o << "null";
}
void put(Out &o, const las::EbVlr::ebfield &f)
{
    o << "field" << (int)f.data_type << (int)f.options << f.name << f.description;
    for (int i = 0; i < 3; i++)
        o << f.no_data[i] << f.minval[i] << f.maxval[i] << f.scale[i] << f.offset[i];
}
void put(Out &o, const las::EbVlr &v)
{
    o << "eb" << (uint64_t)v.items.size();
    for (const auto &f : v.items)
        put(o, f);
}
void put(Out &o, const las::LazConfig &c)
{
    o << "laz";
    put(o, c.LasHeader());
    o << c.Wkt();
    put(o, c.ExtraBytesVlr());
}
void put(Out &o, const CopcConfig &c)
{
    put(o, (const las::LazConfig &)c);
    put(o, c.CopcInfo());
    put(o, c.CopcExtents());
}
void put(Out &o, const std::vector<char> &v) { o << "bytes" << std::string(v.begin(), v.end()); }

template <class T> std::string state(const T &v)
{
    Out o;
    put(o, v);
    return o.s.str();
}
// what vector.clear() or a copy of the vector shares with its source must not matter: a copy that shares nothing
Points deep(const Points &p)
{
    Points q(p.PointFormatId(), (uint16_t)0);
    std::vector<PointPtr> all;
    for (const auto &x : p)
        all.push_back(std::make_shared<Point>(*x));
    if (all.empty())
        return p;
    return Points(all);
}
template <class T, class... A> std::shared_ptr<T> some(A &&...a) { return std::make_shared<T>(std::forward<A>(a)...); }
} // namespace

extern "C" PyObject *PyInit__core();

#define STATE(T) m.def("state", [](const T &o) { return state(o); })
#define CLONE(T) m.def("clone", [](const T &o) { return T(o); })
#define GET(T, name, expr) m.def(#T "." #name, [](T &o) { return (expr); })
#define SET(T, name, A, stmt) m.def(#T "." #name "=", [](T &o, A v) { stmt; })
#define FIELD(T, name, A)                                                                                                                                      \
    GET(T, name, A(o.name));                                                                                                                                   \
    SET(T, name, A, o.name = v)
#define PROP(T, name, A, M)                                                                                                                                    \
    GET(T, name, A(o.M()));                                                                                                                                    \
    SET(T, name, A, o.M(v))

PYBIND11_MODULE(_peek, m)
{
    STATE(VoxelKey), STATE(Vector3), STATE(Box), STATE(Node), STATE(Page), STATE(Point), STATE(Points), STATE(LasHeader), STATE(CopcInfo), STATE(CopcExtent);
    STATE(CopcExtents), STATE(las::EbVlr), STATE(las::EbVlr::ebfield), STATE(std::vector<char>), STATE(CopcConfig), STATE(las::LazConfig);
    m.def("state", [](CopcConfigWriter &o) { return state((const CopcConfig &)o); });
    m.def("state", [](las::LazConfigWriter &o) { return state((const las::LazConfig &)o); });
    CLONE(VoxelKey), CLONE(Vector3), CLONE(Box), CLONE(Node), CLONE(Page), CLONE(LasHeader), CLONE(CopcInfo), CLONE(las::EbVlr);
    m.def("clone", [](const std::vector<char> &o) { return std::vector<char>(o); });
    m.def("clone", [](const Point &o) { return std::make_shared<Point>(o); });
    m.def("clone", [](const Points &o) { return deep(o); });
    m.def("clone", [](const CopcExtent &o) {
        auto e = std::make_shared<CopcExtent>(); // the copy constructor refuses some values that assignments to members do not
        e->minimum = o.minimum, e->maximum = o.maximum, e->mean = o.mean, e->var = o.var;
        return e;
    });
    m.def("clone", [](const CopcExtents &o) { return std::make_shared<CopcExtents>(o); });
    m.def("clone", [](const CopcConfigWriter &o) { return std::make_shared<CopcConfigWriter>(o); });
    m.def("clone", [](const las::LazConfigWriter &o) { return std::make_shared<las::LazConfigWriter>(o); });
    m.def("bytes", [](const std::vector<char> &v) { return py::bytes(std::string(v.begin(), v.end())); });
    m.def("laz_chunks", [](const std::string &path) {
        std::ifstream f(path, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), {});
        uint32_t start, n;
        uint64_t table;
        memcpy(&start, d.data() + 96, 4);
        memcpy(&table, d.data() + start, 8);
        memcpy(&n, d.data() + table + 4, 4);
        std::istringstream in(d.substr(table + 8));
        lazperf::InFileStream s(in);
        std::vector<int> out;
        for (auto &c : lazperf::decompress_chunk_table(s.cb(), n, true))
            out.push_back((int)c.count);
        return out;
    });
    m.def("heap", []() { return (uint64_t)__sanitizer_get_current_allocated_bytes(); });
    m.def("addresses", [](const Points &p) {
        std::vector<uint64_t> out;
        for (const auto &x : p)
            out.push_back((uint64_t)x.get());
        return out;
    });
    m.def("address", [](const Point &p) { return (uint64_t)&p; });
    m.def("address", [](const CopcExtent &p) { return (uint64_t)&p; });
    m.def("addresses", [](CopcExtents &e) {
        std::vector<uint64_t> out;
        for (const auto &x : e.Extents())
            out.push_back((uint64_t)x.get());
        return out;
    });
    m.def("eb_vlr", [](const std::vector<int> &types) {
        las::EbVlr v(0);
        for (int t : types)
        {
            las::EbVlr::ebfield f;
            f.data_type = (uint8_t)(t & 255);
            f.options = (uint8_t)(t >> 8);
            f.name = "f" + std::to_string(v.items.size());
            f.description = "d" + std::to_string(t);
            v.addField(f);
        }
        return v;
    });
    m.def("page", [](const VoxelKey &k, uint64_t offset, int size, bool loaded) {
        Page p(k, offset, size);
        p.loaded = loaded;
        return p;
    });
    m.def("header", [](int fmt, int length, uint32_t point_offset, uint64_t count, uint32_t vlrs, const Vector3 &scale, const Vector3 &offset, uint64_t eo, uint32_t ec,
                       bool copc) { return LasHeader((int8_t)fmt, (uint16_t)length, point_offset, count, vlrs, scale, offset, eo, ec, copc); });
    m.def("raw_texts", [](LasHeader &h, const std::string &g, const std::string &s, const std::string &w) {
        h.GUID(g);
        h.SystemIdentifier(s);
        h.GeneratingSoftware(w);
    });

    // ---------------------------------------------------------- VoxelKey
    FIELD(VoxelKey, d, int32_t);
    FIELD(VoxelKey, x, int32_t);
    FIELD(VoxelKey, y, int32_t);
    FIELD(VoxelKey, z, int32_t);
    m.def("VoxelKey()", []() { return VoxelKey(); });
    m.def("VoxelKey()", [](int32_t d, int32_t x, int32_t y, int32_t z) { return VoxelKey(d, x, y, z); });
    m.def("VoxelKey()", [](const std::vector<int32_t> &v) { return VoxelKey(v); });
    m.def("VoxelKey.RootKey", []() { return VoxelKey::RootKey(); });
    m.def("VoxelKey.InvalidKey", []() { return VoxelKey::InvalidKey(); });
    GET(VoxelKey, IsValid, o.IsValid());
    m.def("VoxelKey.Bisect", [](const VoxelKey &k, uint64_t d) { return k.Bisect(d); });
    GET(VoxelKey, GetChildren, o.GetChildren());
    GET(VoxelKey, GetParent, o.GetParent());
    m.def("VoxelKey.GetParentAtDepth", [](const VoxelKey &k, int32_t d) { return k.GetParentAtDepth(d); });
    m.def("VoxelKey.GetParents", [](const VoxelKey &k, bool b) { return k.GetParents(b); });
    m.def("VoxelKey.ChildOf", [](const VoxelKey &k, const VoxelKey &p) { return k.ChildOf(p); });
    m.def("VoxelKey.Resolution", [](const VoxelKey &k, const LasHeader &h, const CopcInfo &i) { return k.Resolution(h, i); });
    m.def("VoxelKey.GetResolutionAtDepth", [](int32_t d, const LasHeader &h, const CopcInfo &i) { return VoxelKey::GetResolutionAtDepth(d, h, i); });
    m.def("VoxelKey.Intersects", [](const VoxelKey &k, const LasHeader &h, const Box &b) { return k.Intersects(h, b); });
    m.def("VoxelKey.Contains", [](const VoxelKey &k, const LasHeader &h, const Box &b) { return k.Contains(h, b); });
    m.def("VoxelKey.Contains.Vector3", [](const VoxelKey &k, const LasHeader &h, const Vector3 &b) { return k.Contains(h, b); });
    m.def("VoxelKey.Within", [](const VoxelKey &k, const LasHeader &h, const Box &b) { return k.Within(h, b); });
    m.def("VoxelKey.Crosses", [](const VoxelKey &k, const LasHeader &h, const Box &b) { return k.Crosses(h, b); });
    m.def("VoxelKey.__eq__", [](const VoxelKey &a, const VoxelKey &b) { return a == b; });
    GET(VoxelKey, __str__, o.ToString());

    // ---------------------------------------------------------- Box
    FIELD(Box, x_min, double);
    FIELD(Box, y_min, double);
    FIELD(Box, z_min, double);
    FIELD(Box, x_max, double);
    FIELD(Box, y_max, double);
    FIELD(Box, z_max, double);
    m.def("Box()", []() { return Box(); });
    m.def("Box()", [](double a, double b, double c, double d, double e, double f) { return Box(a, b, c, d, e, f); });
    m.def("Box()", [](double a, double b, double c, double d) { return Box(a, b, c, d); });
    m.def("Box.Vectors()", [](const Vector3 &a, const Vector3 &b) { return Box(a, b); });
    m.def("Box.Key()", [](const VoxelKey &k, const LasHeader &h) { return Box(k, h); });
    m.def("Box()", [](const std::vector<double> &v) { return Box(v); });
    m.def("Box.MaxBox", []() { return Box::MaxBox(); });
    m.def("Box.EmptyBox", []() { return Box::EmptyBox(); });
    m.def("Box.Intersects", [](const Box &a, const Box &b) { return a.Intersects(b); });
    m.def("Box.Contains", [](const Box &a, const Box &b) { return a.Contains(b); });
    m.def("Box.Contains.Vector3", [](const Box &a, const Vector3 &b) { return a.Contains(b); });
    m.def("Box.Within", [](const Box &a, const Box &b) { return a.Within(b); });
    GET(Box, __str__, o.ToString());

    // ---------------------------------------------------------- Node, Page
    FIELD(Node, key, VoxelKey);
    FIELD(Node, page_key, VoxelKey);
    FIELD(Node, offset, uint64_t);
    FIELD(Node, byte_size, int32_t);
    FIELD(Node, point_count, int32_t);
    m.def("Node()", []() { return Node(); });
    GET(Node, IsValid, o.IsValid());
    GET(Node, IsPage, o.IsPage());
    GET(Node, __str__, o.ToString());
    FIELD(Page, key, VoxelKey);
    FIELD(Page, offset, uint64_t);
    FIELD(Page, byte_size, int32_t);
    FIELD(Page, point_count, int32_t);
    FIELD(Page, loaded, bool);
    GET(Page, IsValid, o.IsValid());
    GET(Page, IsPage, o.IsPage());
    GET(Page, __str__, o.ToString());

    // ---------------------------------------------------------- Vector3
    FIELD(Vector3, x, double);
    FIELD(Vector3, y, double);
    FIELD(Vector3, z, double);
    m.def("Vector3()", []() { return Vector3(); });
    m.def("Vector3()", [](double a, double b, double c) { return Vector3(a, b, c); });
    m.def("Vector3()", [](const std::vector<double> &v) { return Vector3(v); });
    m.def("Vector3.DefaultScale", []() { return Vector3::DefaultScale(); });
    m.def("Vector3.DefaultOffset", []() { return Vector3::DefaultOffset(); });
    m.def("Vector3.__eq__", [](const Vector3 &a, const Vector3 &b) { return a == b; });
    GET(Vector3, __str__, o.ToString());

    // ---------------------------------------------------------- Point
    PROP(Point, x, double, X);
    PROP(Point, y, double, Y);
    PROP(Point, z, double, Z);
    PROP(Point, intensity, uint16_t, Intensity);
    PROP(Point, returns_bit_field, uint8_t, ReturnsBitField);
    PROP(Point, return_number, uint8_t, ReturnNumber);
    PROP(Point, number_of_returns, uint8_t, NumberOfReturns);
    PROP(Point, flags_bit_field, uint8_t, FlagsBitField);
    PROP(Point, synthetic, bool, Synthetic);
    PROP(Point, key_point, bool, KeyPoint);
    PROP(Point, withheld, bool, Withheld);
    PROP(Point, overlap, bool, Overlap);
    PROP(Point, scanner_channel, uint8_t, ScannerChannel);
    PROP(Point, scan_direction_flag, bool, ScanDirectionFlag);
    PROP(Point, edge_of_flight_line, bool, EdgeOfFlightLineFlag);
    PROP(Point, classification, uint8_t, Classification);
    PROP(Point, scan_angle, int16_t, ScanAngle);
    PROP(Point, scan_angle_degrees, float, ScanAngleDegrees);
    PROP(Point, user_data, uint8_t, UserData);
    PROP(Point, point_source_id, uint16_t, PointSourceId);
    SET(Point, rgb, const std::vector<uint16_t> &, o.Rgb(v));
    PROP(Point, red, uint16_t, Red);
    PROP(Point, green, uint16_t, Green);
    PROP(Point, blue, uint16_t, Blue);
    PROP(Point, nir, uint16_t, Nir);
    PROP(Point, gps_time, double, GPSTime);
    GET(Point, point_format_id, (int)o.PointFormatId());
    GET(Point, point_record_length, o.PointRecordLength());
    GET(Point, extra_bytes, o.ExtraBytes());
    SET(Point, extra_bytes, const std::vector<uint8_t> &, o.ExtraBytes(v));
    GET(Point, HasRgb, o.HasRgb());
    GET(Point, HasNir, o.HasNir());
    m.def("Point.ToPointFormat", [](Point &p, int8_t f) { p.ToPointFormat(f); });
    GET(Point, EbByteSize, o.EbByteSize());
    m.def("Point.__eq__", [](const Point &a, const Point &b) { return a == b; });
    m.def("Point.__ne__", [](const Point &a, const Point &b) { return a != b; });
    m.def("Point.Within", [](const Point &a, const Box &b) { return a.Within(b); });
    GET(Point, __str__, o.ToString());

    // ---------------------------------------------------------- Points
    m.def("Points()", [](int8_t f, uint16_t e) { return Points(f, e); });
    m.def("Points()", [](int8_t f) { return Points(f); });
    m.def("Points()", [](const std::vector<PointPtr> &v) { return Points(v); });
    m.def("Points()", [](const LasHeader &h) { return Points(h); });
#define COLUMN(name, A, M)                                                                                                                                     \
    GET(Points, name, o.M());                                                                                                                                  \
    SET(Points, name, const std::vector<A> &, o.M(v))
    COLUMN(x, double, X);
    COLUMN(y, double, Y);
    COLUMN(z, double, Z);
    COLUMN(classification, uint8_t, Classification);
    COLUMN(point_source_id, uint16_t, PointSourceId);
    COLUMN(red, uint16_t, Red);
    COLUMN(green, uint16_t, Green);
    COLUMN(blue, uint16_t, Blue);
    GET(Points, point_format_id, (int)o.PointFormatId());
    GET(Points, point_record_length, o.PointRecordLength());
    GET(Points, eb_byte_size, o.EbByteSize());
    m.def("Points.AddPoint", [](Points &p, const PointPtr &q) { p.AddPoint(q); });
    m.def("Points.AddPoints", [](Points &p, const Points &q) { p.AddPoints(q); });
    m.def("Points.AddPoints", [](Points &p, const std::vector<PointPtr> &q) { p.AddPoints(q); });
    GET(Points, CreatePoint, o.CreatePoint());
    m.def("Points.ToPointFormat", [](Points &p, int8_t f) { p.ToPointFormat(f); });
    m.def("Points.Within", [](const Points &p, const Box &b) { return p.Within(b); });
    m.def("Points.GetWithin", [](const Points &p, const Box &b) { return const_cast<Points &>(p).GetWithin(b); });
    m.def("Points.Pack", [](const Points &p, const Vector3 &s, const Vector3 &f) { return p.Pack(s, f); });
    m.def("Points.Pack", [](const Points &p, const LasHeader &h) { return p.Pack(h); });
    m.def("Points.Unpack", [](const std::vector<char> &v, const LasHeader &h) { return Points::Unpack(v, h); });
    m.def("Points.Unpack", [](const std::vector<char> &v, int8_t f, uint16_t e, const Vector3 &s, const Vector3 &o) { return Points::Unpack(v, f, e, s, o); });
    m.def("Points.__len__", [](const Points &p) { return (uint64_t)p.Size(); });
    GET(Points, __str__, o.ToString());

    // ---------------------------------------------------------- codecs
    m.def("CompressBytes", [](const std::vector<char> &in, int8_t f, uint16_t e) { return laz::Compressor::CompressBytes(in, f, e); });
    m.def("CompressBytes", [](const std::vector<char> &in, const LasHeader &h) {
        std::vector<char> copy(in);
        return laz::Compressor::CompressBytes(copy, h);
    });
    m.def("DecompressBytes", [](const std::vector<char> &in, const LasHeader &h, int n) { return laz::Decompressor::DecompressBytes(in, h, n); });
    m.def("DecompressBytes", [](const std::vector<char> &in, int8_t f, uint16_t e, int n) { return laz::Decompressor::DecompressBytes(in, f, e, n); });

    // ---------------------------------------------------------- LasHeader
    m.def("LasHeader()", []() { return some<LasHeader>(); });
    FIELD(LasHeader, file_source_id, uint16_t);
    FIELD(LasHeader, global_encoding, uint16_t);
    PROP(LasHeader, guid, std::string, GUID);
    PROP(LasHeader, system_identifier, std::string, SystemIdentifier);
    PROP(LasHeader, generating_software, std::string, GeneratingSoftware);
    FIELD(LasHeader, creation_day, uint16_t);
    FIELD(LasHeader, creation_year, uint16_t);
    GET(LasHeader, point_offset, o.PointOffset());
    GET(LasHeader, vlr_count, o.VlrCount());
    GET(LasHeader, point_format_id, (int)o.PointFormatId());
    GET(LasHeader, point_record_length, o.PointRecordLength());
    GET(LasHeader, scale, o.Scale());
    GET(LasHeader, offset, o.Offset());
    FIELD(LasHeader, max, Vector3);
    FIELD(LasHeader, min, Vector3);
    GET(LasHeader, evlr_offset, o.EvlrOffset());
    GET(LasHeader, evlr_count, o.EvlrCount());
    GET(LasHeader, point_count, o.PointCount());
    GET(LasHeader, points_by_return, (std::vector<uint64_t>(o.points_by_return.begin(), o.points_by_return.end())));
    m.def("LasHeader.points_by_return=", [](LasHeader &h, const std::vector<uint64_t> &v) {
        if (v.size() == 15)
            std::copy(v.begin(), v.end(), h.points_by_return.begin());
    });
    GET(LasHeader, EbByteSize, o.EbByteSize());
    GET(LasHeader, Span, o.Span());
    GET(LasHeader, Bounds, o.Bounds());
    m.def("LasHeader.CheckAndUpdateBounds", [](LasHeader &h, const Point &p) { h.CheckAndUpdateBounds(p); });
    m.def("LasHeader.SetGpsTimeBit", [](LasHeader &h) { h.SetGpsTimeBit(); });
    m.def("LasHeader.ApplyScale", [](const LasHeader &h, const Vector3 &v) { return h.ApplyScale(v); });
    m.def("LasHeader.ApplyInverseScale", [](const LasHeader &h, const Vector3 &v) { return h.ApplyInverseScale(v); });
    m.def("LasHeader.ApplyScaleX", [](const LasHeader &h, double v) { return h.ApplyScaleX(v); });
    m.def("LasHeader.ApplyScaleY", [](const LasHeader &h, double v) { return h.ApplyScaleY(v); });
    m.def("LasHeader.ApplyScaleZ", [](const LasHeader &h, double v) { return h.ApplyScaleZ(v); });
    m.def("LasHeader.RemoveScaleX", [](const LasHeader &h, double v) { return h.RemoveScaleX(v); });
    m.def("LasHeader.RemoveScaleY", [](const LasHeader &h, double v) { return h.RemoveScaleY(v); });
    m.def("LasHeader.RemoveScaleZ", [](const LasHeader &h, double v) { return h.RemoveScaleZ(v); });
    GET(LasHeader, __str__, o.ToString());

    // ---------------------------------------------------------- configurations
    using las::LazConfig;
    using las::LazConfigWriter;
#define CONFIG(T)                                                                                                                                              \
    m.def(#T ".las_header", [](const T &c) { return LasHeader(c.LasHeader()); });                                                                              \
    m.def(#T ".extra_bytes_vlr", [](const T &c) { return c.ExtraBytesVlr(); });                                                                                \
    m.def(#T ".wkt", [](const T &c) { return c.Wkt(); })
    CONFIG(LazConfig);
    CONFIG(CopcConfig);
    CONFIG(CopcConfigWriter);
    CONFIG(LazConfigWriter);
#define COPC_CONFIG(T)                                                                                                                                         \
    m.def(#T ".copc_info", [](const T &c) { return CopcInfo(c.CopcInfo()); });                                                                                 \
    m.def(#T ".copc_extents", [](const T &c) { return std::make_shared<CopcExtents>(c.CopcExtents()); })
    COPC_CONFIG(CopcConfig);
    COPC_CONFIG(CopcConfigWriter);
    m.def("CopcConfigWriter()", [](int8_t f, const Vector3 &s, const Vector3 &o, const std::string &w, const las::EbVlr &e, bool x) {
        return some<CopcConfigWriter>(f, s, o, w, e, x);
    });
    m.def("CopcConfigWriter()", [](const CopcConfig &c) { return some<CopcConfigWriter>(c); });
    m.def("LazConfigWriter()",
          [](int8_t f, const Vector3 &s, const Vector3 &o, const std::string &w, const las::EbVlr &e) { return some<LazConfigWriter>(f, s, o, w, e); });
    m.def("LazConfigWriter()", [](const LazConfig &c) { return some<LazConfigWriter>(c); });
    m.def("LazConfigWriter()", [](const CopcConfig &c) { return some<LazConfigWriter>(c); });

    // ---------------------------------------------------------- info and extents
    m.def("CopcInfo()", []() { return some<CopcInfo>(); });
    FIELD(CopcInfo, center_x, double);
    FIELD(CopcInfo, center_y, double);
    FIELD(CopcInfo, center_z, double);
    FIELD(CopcInfo, halfsize, double);
    FIELD(CopcInfo, spacing, double);
    FIELD(CopcInfo, root_hier_offset, uint64_t);
    FIELD(CopcInfo, root_hier_size, uint64_t);
    GET(CopcInfo, __str__, o.ToString());
    m.def("CopcExtent()", []() { return some<CopcExtent>(); });
    m.def("CopcExtent()", [](double a, double b) { return some<CopcExtent>(a, b); });
    m.def("CopcExtent()", [](double a, double b, double c) { return some<CopcExtent>(a, b, c); });
    m.def("CopcExtent()", [](double a, double b, double c, double d) { return some<CopcExtent>(a, b, c, d); });
    m.def("CopcExtent()", [](const std::vector<double> &v) { return some<CopcExtent>(v); });
    FIELD(CopcExtent, minimum, double);
    FIELD(CopcExtent, maximum, double);
    FIELD(CopcExtent, mean, double);
    FIELD(CopcExtent, var, double);
    m.def("CopcExtent.__eq__", [](const CopcExtent &a, const CopcExtent &b) { return a == b; });
    GET(CopcExtent, __str__, o.ToString());
    m.def("CopcExtents()", [](int8_t f, uint16_t n) { return some<CopcExtents>(f, n); });
    m.def("CopcExtents()", [](int8_t f) { return some<CopcExtents>(f); });
    GET(CopcExtents, point_format_id, (int)o.PointFormatId());
    GET(CopcExtents, has_extended_stats, o.HasExtendedStats());
#define EXTENT(name, M)                                                                                                                                        \
    GET(CopcExtents, name, o.M());                                                                                                                             \
    SET(CopcExtents, name, const ExtentPtr &, o.M(v))
    EXTENT(x, X);
    EXTENT(y, Y);
    EXTENT(z, Z);
    EXTENT(intensity, Intensity);
    EXTENT(return_number, ReturnNumber);
    EXTENT(number_of_returns, NumberOfReturns);
    EXTENT(scanner_channel, ScannerChannel);
    EXTENT(scan_direction_flag, ScanDirectionFlag);
    EXTENT(edge_of_flight_line, EdgeOfFlightLine);
    EXTENT(classification, Classification);
    EXTENT(user_data, UserData);
    EXTENT(scan_angle, ScanAngle);
    EXTENT(point_source_id, PointSourceId);
    EXTENT(gps_time, GpsTime);
    EXTENT(red, Red);
    EXTENT(green, Green);
    EXTENT(blue, Blue);
    EXTENT(nir, Nir);
    GET(CopcExtents, extra_bytes, o.ExtraBytes());
    SET(CopcExtents, extra_bytes, const std::vector<ExtentPtr> &, o.ExtraBytes(v));
    GET(CopcExtents, extents, o.Extents());
    GET(CopcExtents, __str__, o.ToString());

    // ---------------------------------------------------------- readers
#define Q(name, A, expr) m.def("FileReader." #name, [](FileReader &r, const A &a) { return (expr); })
#define Q0(name, expr) m.def("FileReader." #name, [](FileReader &r) { return (expr); })
#define QR(name, A, expr) m.def("FileReader." #name, [](FileReader &r, const A &a, double z) { return (expr); })
    Q0(path, r.FilePath());
    Q0(copc_config, some<CopcConfig>(r.CopcConfig()));
    Q(FindNode, VoxelKey, r.FindNode(a));
    Q(GetPointData, Node, r.GetPointData(a));
    Q(GetPointData, VoxelKey, r.GetPointData(a));
    Q(GetPoints, Node, r.GetPoints(a));
    Q(GetPoints, VoxelKey, r.GetPoints(a));
    Q(GetPointDataCompressed, Node, r.GetPointDataCompressed(a));
    Q(GetPointDataCompressed, VoxelKey, r.GetPointDataCompressed(a));
    Q(GetAllChildrenOfPage, VoxelKey, r.GetAllChildrenOfPage(a));
    Q0(GetAllNodes, r.GetAllNodes());
    Q0(GetPageList, r.GetPageList());
    Q0(GetAllPoints, r.GetAllPoints());
    Q(GetAllPoints, double, r.GetAllPoints(a));
    QR(GetNodesWithinBox, Box, r.GetNodesWithinBox(a, z));
    QR(GetNodesIntersectBox, Box, r.GetNodesIntersectBox(a, z));
    QR(GetPointsWithinBox, Box, r.GetPointsWithinBox(a, z));
    Q(GetNodesWithinBox, Box, r.GetNodesWithinBox(a));
    Q(GetNodesIntersectBox, Box, r.GetNodesIntersectBox(a));
    Q(GetPointsWithinBox, Box, r.GetPointsWithinBox(a));
    Q(GetDepthAtResolution, double, r.GetDepthAtResolution(a));
    Q0(GetMaxDepth, r.GetMaxDepth());
    Q(GetNodesAtResolution, double, r.GetNodesAtResolution(a));
    Q(GetNodesWithinResolution, double, r.GetNodesWithinResolution(a));
    Q0(ValidateSpatialBounds, r.ValidateSpatialBounds());
    Q(ValidateSpatialBounds, bool, r.ValidateSpatialBounds(a));
    m.def("LazReader.path", [](laz::LazFileReader &r) { return r.FilePath(); });
    m.def("LazReader.laz_config", [](laz::LazFileReader &r) { return some<LazConfig>(r.LazConfig()); });
    m.def("LazReader.GetPoints", [](laz::LazFileReader &r) { return r.GetPoints(); });

    // ---------------------------------------------------------- writers
    m.def("FileWriter()", [](const std::string &p, const CopcConfigWriter &c, std::optional<int8_t> f, std::optional<Vector3> s, std::optional<Vector3> o,
                             std::optional<std::string> w, std::optional<las::EbVlr> e, std::optional<bool> x) {
        return std::make_unique<FileWriter>(p, c, f, s, o, w, e, x).release();
    });
    m.def("FileWriter.path", [](FileWriter &w) { return w.FilePath(); });
    m.def("FileWriter.copc_config", [](FileWriter &w) { return w.CopcConfig(); });
    m.def("FileWriter.FindNode", [](FileWriter &w, const VoxelKey &k) { return w.FindNode(k); });
    m.def("FileWriter.Close", [](FileWriter &w) { w.Close(); });
    m.def("FileWriter.AddNode", [](FileWriter &w, const VoxelKey &k, const Points &p, const VoxelKey &g) { return w.AddNode(k, p, g); });
    m.def("FileWriter.AddNode", [](FileWriter &w, const VoxelKey &k, const std::vector<char> &p, const VoxelKey &g) { return w.AddNode(k, p, g); });
    m.def("FileWriter.AddNodeCompressed", [](FileWriter &w, const VoxelKey &k, const std::vector<char> &p, uint64_t n, const VoxelKey &g) {
        return w.AddNodeCompressed(k, p, n, g);
    });
    m.def("FileWriter.ChangeNodePage", [](FileWriter &w, const VoxelKey &k, const VoxelKey &g) { w.ChangeNodePage(k, g); });
    m.def("LazWriter()", [](const std::string &p, const LazConfigWriter &c) { return std::make_unique<laz::LazFileWriter>(p, c).release(); });
    m.def("LazWriter.path", [](laz::LazFileWriter &w) { return w.FilePath(); });
    m.def("LazWriter.laz_config", [](laz::LazFileWriter &w) { return w.LazConfig(); });
    m.def("LazWriter.point_count", [](laz::LazFileWriter &w) { return w.PointCount(); });
    m.def("LazWriter.chunk_count", [](laz::LazFileWriter &w) { return w.ChunkCount(); });
    m.def("LazWriter.Close", [](laz::LazFileWriter &w) { w.Close(); });
    m.def("LazWriter.WritePoints", [](laz::LazFileWriter &w, const Points &p) { w.WritePoints(p); });
    m.def("LazWriter.WritePointsCompressed", [](laz::LazFileWriter &w, const std::vector<char> &v, uint64_t n) { w.WritePointsCompressed(v, n); });
}
