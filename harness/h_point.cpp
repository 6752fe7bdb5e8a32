// C07 record layout and quantization, C08 attribute isolation, C09 conversion/copy/equality, C10 the container.
#include "gen.hpp"
using namespace G;
using copc::las::Point;
using copc::las::Points;

static copc::las::LasHeader mk_header(int fmt, int ebn, const Vector3 &s, const Vector3 &o)
{
    return copc::las::LasHeader((int8_t)fmt, (uint16_t)(base_size(fmt) + ebn), s, o, true);
}
static double sc_at(const Vector3 &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }

// Every attribute of a point, as values
struct Attr
{
    double x{}, y{}, z{}, gps{};
    uint16_t intensity{}, psid{}, rgb[3]{}, nir{};
    uint8_t ret{}, num{}, chan{}, cls{}, user{};
    bool syn{}, key{}, wh{}, ov{}, dir{}, edge{};
    int16_t angle{};
    int fmt{6};
    std::vector<uint8_t> eb;
};
static std::string diff_attr(const Point &q, const Attr &a)
{
    std::ostringstream d;
    auto same = [](double x, double y) { return !memcmp(&x, &y, 8); };
#define F(n, g, w)                                                                                                     \
    {                                                                                                                  \
        if ((g) != (w))                                                                                                \
            d << " " n " " << (long long)(g) << " want " << (long long)(w);                                            \
    }
    if (!same(q.X(), a.x)) d << " x";
    if (!same(q.Y(), a.y)) d << " y";
    if (!same(q.Z(), a.z)) d << " z";
    if (!same(q.GPSTime(), a.gps)) d << " gps";
    F("intensity", q.Intensity(), a.intensity)
    F("return_number", q.ReturnNumber(), a.ret)
    F("number_of_returns", q.NumberOfReturns(), a.num)
    F("synthetic", q.Synthetic(), a.syn)
    F("key_point", q.KeyPoint(), a.key)
    F("withheld", q.Withheld(), a.wh)
    F("overlap", q.Overlap(), a.ov)
    F("scanner_channel", q.ScannerChannel(), a.chan)
    F("scan_direction", q.ScanDirectionFlag(), a.dir)
    F("edge", q.EdgeOfFlightLineFlag(), a.edge)
    F("classification", q.Classification(), a.cls)
    F("user_data", q.UserData(), a.user)
    F("scan_angle", q.ScanAngle(), a.angle)
    F("psid", q.PointSourceId(), a.psid)
    F("returns_bits", q.ReturnsBitField(), (a.num << 4 | a.ret))
    F("flags_bits", q.FlagsBitField(), (a.syn | a.key << 1 | a.wh << 2 | a.ov << 3 | a.chan << 4 | a.dir << 6 | a.edge << 7))
    F("format", q.PointFormatId(), a.fmt)
    F("has_rgb", q.HasRgb(), a.fmt >= 7)
    F("has_nir", q.HasNir(), a.fmt == 8)
    F("record_length", q.PointRecordLength(), base_size(a.fmt) + a.eb.size())
    F("eb_size", q.EbByteSize(), a.eb.size())
    if (a.fmt >= 7)
    {
        F("red", q.Red(), a.rgb[0])
        F("green", q.Green(), a.rgb[1])
        F("blue", q.Blue(), a.rgb[2])
    }
    else if (!throws([&] { q.Red(); }) || !throws([&] { q.Green(); }) || !throws([&] { q.Blue(); }))
        d << " rgb readable in format " << a.fmt;
    if (a.fmt == 8)
        F("nir", q.Nir(), a.nir)
    else if (!throws([&] { q.Nir(); }))
        d << " nir readable in format " << a.fmt;
    if (q.ExtraBytes() != a.eb)
        d << " extra_bytes";
    float deg = q.ScanAngleDegrees();
    if (std::fabs(deg - 0.006 * a.angle) > 1e-3)
        d << " scan_angle_degrees " << deg;
#undef F
    return d.str();
}
static double rand_coord(Rng &r)
{
    switch (r.below(8))
    {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::max();
    case 3: return std::numeric_limits<double>::denorm_min();
    default: return rand_finite(r);
    }
}

// One random setter call on q and its model.  Returns its name.
static std::string mutate(Rng &r, Point &q, Attr &a)
{
    switch (r.below(27))
    {
    case 0: q.X(a.x = rand_coord(r)); return "x";
    case 1: q.Y(a.y = rand_coord(r)); return "y";
    case 2: q.Z(a.z = rand_coord(r)); return "z";
    case 3: q.Intensity(a.intensity = (uint16_t)r.next()); return "intensity";
    case 4: q.ReturnNumber(a.ret = (uint8_t)r.below(16)); return "return_number";
    case 5: q.NumberOfReturns(a.num = (uint8_t)r.below(16)); return "number_of_returns";
    case 6: q.Synthetic(a.syn = r.chance(50)); return "synthetic";
    case 7: q.KeyPoint(a.key = r.chance(50)); return "key_point";
    case 8: q.Withheld(a.wh = r.chance(50)); return "withheld";
    case 9: q.Overlap(a.ov = r.chance(50)); return "overlap";
    case 10: q.ScannerChannel(a.chan = (uint8_t)r.below(4)); return "scanner_channel";
    case 11: q.ScanDirectionFlag(a.dir = r.chance(50)); return "scan_direction";
    case 12: q.EdgeOfFlightLineFlag(a.edge = r.chance(50)); return "edge";
    case 13: q.Classification(a.cls = (uint8_t)r.next()); return "classification";
    case 14: q.UserData(a.user = (uint8_t)r.next()); return "user_data";
    case 15: q.ScanAngle(a.angle = (int16_t)r.next()); return "scan_angle";
    case 16: q.PointSourceId(a.psid = (uint16_t)r.next()); return "psid";
    case 17: q.GPSTime(a.gps = rand_coord(r)); return "gps";
    case 18:
    case 19:
    case 20:
    case 21:
    {
        if (a.fmt < 7)
        {
            int how = (int)r.below(5);
            EXPECT(throws([&] {
                       if (how == 0) q.Red(1);
                       if (how == 1) q.Green(1);
                       if (how == 2) q.Blue(1);
                       if (how == 3) q.Rgb(1, 2, 3);
                       if (how == 4) q.Rgb(std::vector<uint16_t>{1, 2, 3});
                   }),
                   "rgb-accepted", "a format without RGB took a colour");
            return "rgb-refused";
        }
        int how = (int)r.below(5);
        uint16_t v[3] = {(uint16_t)r.next(), (uint16_t)r.next(), (uint16_t)r.next()};
        if (how == 0) q.Red(a.rgb[0] = v[0]);
        if (how == 1) q.Green(a.rgb[1] = v[1]);
        if (how == 2) q.Blue(a.rgb[2] = v[2]);
        if (how >= 3)
        {
            if (how == 3) q.Rgb(v[0], v[1], v[2]);
            else q.Rgb(std::vector<uint16_t>{v[0], v[1], v[2]});
            memcpy(a.rgb, v, 6);
        }
        return "rgb" + std::to_string(how);
    }
    case 22:
        if (a.fmt < 8)
        {
            EXPECT(throws([&] { q.Nir(3); }), "nir-accepted", "a format without NIR took one");
            return "nir-refused";
        }
        q.Nir(a.nir = (uint16_t)r.next());
        return "nir";
    case 23:
    {
        std::vector<uint8_t> e(a.eb.size());
        for (auto &c : e)
            c = (uint8_t)r.next();
        q.ExtraBytes(e);
        a.eb = e;
        return "extra_bytes";
    }
    case 24:
    {
        uint8_t b = (uint8_t)r.next();
        q.ReturnsBitField(b);
        a.ret = b & 15;
        a.num = b >> 4;
        return "returns_bits";
    }
    case 25:
    {
        uint8_t b = (uint8_t)r.next();
        q.FlagsBitField(b);
        a.syn = b & 1, a.key = b & 2, a.wh = b & 4, a.ov = b & 8, a.chan = (b >> 4) & 3, a.dir = b & 64, a.edge = b & 128;
        return "flags_bits";
    }
    default:
    {
        int v = (int)r.range(-32768, 32767);
        float deg = (float)(v * 0.006);
        q.ScanAngleDegrees(deg);
        a.angle = q.ScanAngle();
        EXPECT(std::abs((int)a.angle - v) <= 0 || std::fabs(deg / 0.006 - a.angle) <= 0.51, "scan-angle-degrees", deg << " degrees became " << a.angle << ", nearest is " << v);
        return "scan_angle_degrees";
    }
    }
}
static std::string refuse(Rng &r, Point &q, const Attr &a)
{
    std::string name;
    bool t = true;
    switch (r.below(7))
    {
    case 0: name = "return_number"; t = throws([&] { q.ReturnNumber((uint8_t)r.range(16, 255)); }); break;
    case 1: name = "number_of_returns"; t = throws([&] { q.NumberOfReturns((uint8_t)r.range(16, 255)); }); break;
    case 2: name = "scanner_channel"; t = throws([&] { q.ScannerChannel((uint8_t)r.range(4, 255)); }); break;
    case 3:
    {
        name = "extra_bytes";
        size_t n = a.eb.size() + r.range(1, 4);
        if (!a.eb.empty() && r.chance(50))
            n = r.below(a.eb.size());
        t = throws([&] { q.ExtraBytes(std::vector<uint8_t>(n, 7)); });
        break;
    }
    case 4:
    {
        name = "scan_angle_degrees";
        float v = r.oneof({196.7f, -196.7f, 1e9f, -1e30f, 200.f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()});
        t = throws([&] { q.ScanAngleDegrees(v); });
        break;
    }
    case 5:
        name = "rgb-length";
        t = throws([&] { q.Rgb(std::vector<uint16_t>(r.oneof({0, 1, 2, 4, 5}), 9)); });
        break;
    default:
        name = "format";
        t = throws([&] { q.ToPointFormat((int8_t)r.oneof({0, 1, 2, 3, 5, 9, 10, -1, 127, -128})); });
    }
    EXPECT(t, "accepted:" + name, "a value that does not fit was accepted");
    return name;
}
static Point fresh(Rng &r, int fmt, int ebn)
{
    if (r.chance(50))
        return Point((int8_t)fmt, (uint16_t)ebn);
    return Point(mk_header(fmt, ebn, Vector3(1, 1, 1), Vector3(0, 0, 0)));
}
static int rand_ebn(Rng &r) { return r.chance(40) ? 0 : r.chance(90) ? (int)r.range(1, 40) : (int)r.range(41, 2000); }

// ---- C07
// a record is at most 65535 bytes long: what is longer can't be made
static void record_limit(Rng &r)
{
    int fmt = (int)r.range(6, 8), ebn = r.chance(30) ? (int)r.range(65490, 65535) : 65535 - base_size(fmt) + (int)r.range(-2, 2);
    if (r.chance(10))
        ebn = 65536 - base_size(fmt);
    bool fits = base_size(fmt) + ebn <= 65535;
    Vector3 s(1, 1, 1), o(0, 0, 0);
    Raw q = rand_raw(r, ebn);
    Bytes raw;
    encode(raw, q, fmt);
    auto with = [&](const char *what, auto f)
    {
        bool t = false;
        try
        {
            f();
        }
        catch (const std::exception &)
        {
            t = true;
        }
        EXPECT(t == !fits, t ? "limit-refused" : "too-long-accepted", what << " of format " << fmt << " with " << ebn << " extra bytes");
    };
    with("a point", [&] { Point p((int8_t)fmt, (uint16_t)ebn); EXPECT(!fits || ((int)p.PointRecordLength() == base_size(fmt) + ebn && (int)p.EbByteSize() == ebn), "record-length", p.PointRecordLength()); });
    with("points", [&] { Points p((int8_t)fmt, (uint16_t)ebn); EXPECT(!fits || ((int)p.PointRecordLength() == base_size(fmt) + ebn && (int)p.EbByteSize() == ebn), "record-length", p.PointRecordLength()); });
    with("records", [&] { auto p = Points::Unpack(raw, (int8_t)fmt, (uint16_t)ebn, s, o); EXPECT(!fits || p.Pack(s, o) == raw, "limit-pack", ebn); });
    with("a record", [&] { std::istringstream in(std::string(raw.begin(), raw.end())); Point::Unpack(in, (int8_t)fmt, s, o, (uint16_t)ebn); });
    H::note("limit", fits ? "fits" : "refused");
}
static void case_c07(Rng &r)
{
    if (r.chance(2))
        record_limit(r);
    int fmt = (int)r.range(6, 8), ebn = rand_ebn(r);
    Vector3 s = rand_scale(r), o = rand_offset(r);
    auto h = mk_header(fmt, ebn, s, o);
    int rec = base_size(fmt) + ebn, n = (int)r.range(1, 12);
    std::vector<Raw> v;
    Bytes raw;
    for (int i = 0; i < n; i++)
    {
        v.push_back(rand_raw(r, ebn));
        if (r.chance(20)) // any bit pattern of the time stamp
        {
            uint64_t b = r.next();
            memcpy(&v.back().gps, &b, 8);
        }
        encode(raw, v.back(), fmt);
    }
    // unpack: every field, then back to the same bytes
    Points p = r.chance(50) ? Points::Unpack(raw, h) : Points::Unpack(raw, (int8_t)fmt, (uint16_t)ebn, s, o);
    EXPECT((int)p.Size() == n && p.PointFormatId() == fmt && (int)p.PointRecordLength() == rec && (int)p.EbByteSize() == ebn, "unpack-size", p.ToString());
    for (int i = 0; i < n && i < (int)p.Size(); i++)
    {
        auto d = diff_point(*p[i], v[i], fmt, s, o);
        EXPECT(d.empty(), "unpack-fields", "point " << i << d);
    }
    EXPECT(p.Pack(h) == raw && p.Pack(s, o) == raw, "pack-of-unpack", "fmt " << fmt << " eb " << ebn << " scale " << s << " offset " << o);
    std::ostringstream st;
    if (r.chance(50))
        p.Pack(st, h);
    else
        p.Pack(st, s, o);
    EXPECT(to_bytes(st.str()) == raw, "pack-stream", "packing to a stream gave other bytes");
    // one record at a time
    std::istringstream in(std::string(raw.begin(), raw.end()));
    for (int i = 0; i < n; i++)
    {
        auto q = Point::Unpack(in, (int8_t)fmt, s, o, (uint16_t)ebn);
        EXPECT((long long)in.tellg() == (long long)(i + 1) * rec, "unpack-position", "after point " << i << " the stream is at " << in.tellg() << " records are " << rec);
        auto d = diff_point(*q, v[i], fmt, s, o);
        EXPECT(d.empty(), "unpack-fields", "single point " << i << d);
    }
    if (rec > 1)
    {
        Bytes ragged(raw.begin(), raw.end() - r.range(1, rec - 1));
        EXPECT(throws([&] { Points::Unpack(ragged, h); }), "ragged-accepted", ragged.size() << " bytes as records of " << rec);
    }
    // setters, then pack
    {
        Points w(h);
        Bytes want;
        for (auto &x : v)
        {
            auto q = w.CreatePoint();
            fill_point(*q, x, s, o);
            w.AddPoint(q);
            encode(want, x, fmt);
        }
        EXPECT(w.Pack(h) == want, "pack-fields", "packing points built with setters: fmt " << fmt << " eb " << ebn);
    }
    // quantization and ranges
    for (int i = 0; i < 12; i++)
    {
        Point q((int8_t)fmt, (uint16_t)ebn);
        int ax = (int)r.below(3);
        double sa = sc_at(s, ax), oa = sc_at(o, ax), val;
        int kind = (int)r.below(6);
        switch (kind)
        {
        case 0: val = oa + sa * ((double)rand_i32(r) + (r.unit() - 0.5) * 0.98); break;
        case 1: val = oa + sa * (r.unit() * 4294967294.0 - 2147483647.0); break;
        case 2: val = oa + sa * (double)(r.chance(50) ? 2147483647.0 - r.unit() * 3 : -2147483648.0 + r.unit() * 3); break;
        case 3: val = oa + sa * (r.chance(50) ? 2147483648.0 + r.unit() * 5 + 0.01 : -2147483649.0 - r.unit() * 5 - 0.01); break;
        case 4: val = (r.chance(50) ? 1 : -1) * r.oneof({1e20, 1e100, 1e300, std::numeric_limits<double>::infinity()}); break;
        default: val = std::numeric_limits<double>::quiet_NaN();
        }
        q.X(o.x), q.Y(o.y), q.Z(o.z);
        if (ax == 0) q.X(val);
        if (ax == 1) q.Y(val);
        if (ax == 2) q.Z(val);
        long double real = ((long double)val - (long double)oa) / (long double)sa;
        // what double arithmetic may lose on the way
        long double slack = 1e-9L + 4e-16L * (fabsl(real) + (fabsl((long double)val) + fabsl((long double)oa)) / fabsl((long double)sa));
        std::ostringstream st2;
        std::string what;
        bool t = throws([&] { q.Pack(st2, s, o); }, &what);
        if (std::isnan(val) || real > 2147483647.5L + slack || real < -2147483648.5L - slack)
        {
            EXPECT(t, "out-of-range-stored", "axis " << ax << " value " << val << " scale " << sa << " offset " << oa << " was packed");
            H::count("range-refused");
        }
        else if (real < 2147483647.49L - slack && real > -2147483648.49L + slack)
        {
            EXPECT(!t, "in-range-refused", "axis " << ax << " value " << val << " scale " << sa << " offset " << oa << ": " << what);
            if (!t)
            {
                int32_t got[3];
                memcpy(got, st2.str().data(), 12);
                EXPECT(fabsl((long double)got[ax] - real) <= 0.5L + slack, "quantization", "axis " << ax << " value " << val << " scale " << sa << " offset " << oa << " stored as " << got[ax] << " real " << (double)real);
                EXPECT(got[(ax + 1) % 3] == 0 && got[(ax + 2) % 3] == 0, "quantization-axis", "another axis changed");
                EXPECT(st2.str().size() == (size_t)rec, "record-size", st2.str().size() << " want " << rec);
            }
            H::count("quantized");
        }
        H::note("coordinate-kind", std::to_string(kind));
    }
    // where the arithmetic is exact, right up to the middle between two steps
    for (int i = 0; i < 8; i++)
    {
        int b = (int)r.range(0, 30), e = (int)r.range(-12, 6);
        double step = std::ldexp(1.0, e), n = (double)r.range(0, (1ll << b) - 1), off = r.chance(40) ? 0 : step * (double)r.range(-1000, 1000);
        int room = 52 - std::max(b, off == 0 ? 0 : 11) - 1;
        double frac = r.oneof({0.0, 0.5, 1.0}), near = std::ldexp(1.0, -(int)r.range(2, room));
        double t = n + std::fabs(frac + (r.chance(50) ? near : -near));
        if (r.chance(50))
            t = -t;
        double val = off + step * t;
        if ((val - off) / step != t || (long double)val != (long double)off + (long double)step * (long double)t)
            continue;
        Vector3 s2(1, 1, 1), o2(0, 0, 0);
        int ax = (int)r.below(3);
        Point q((int8_t)fmt, (uint16_t)ebn);
        if (ax == 0) s2.x = step, o2.x = off, q.X(val);
        if (ax == 1) s2.y = step, o2.y = off, q.Y(val);
        if (ax == 2) s2.z = step, o2.z = off, q.Z(val);
        std::ostringstream st2;
        q.Pack(st2, s2, o2);
        int32_t got[3];
        memcpy(got, st2.str().data(), 12);
        EXPECT(std::fabs((double)got[ax] - t) <= 0.5, "nearest-step", "axis " << ax << " value " << val << " is " << t << " steps, stored as " << got[ax]);
        H::count("exact-quantized");
    }
    // tables
    EXPECT(copc::las::PointBaseByteSize((int8_t)fmt) == base_size(fmt) && copc::las::PointBaseNumberDimensions((int8_t)fmt) == base_dims(fmt) && copc::las::FormatHasRgb(fmt) == (fmt >= 7) &&
               copc::las::FormatHasNir(fmt) == (fmt == 8) && copc::las::PointByteSize((int8_t)fmt, ebn) == rec && copc::las::EbByteSize((int8_t)fmt, rec) == ebn,
           "format-table", "format " << fmt);
    int8_t bad = (int8_t)r.oneof({0, 1, 2, 3, 4, 5, 9, 10, 11, -1, 127, -128});
    EXPECT(throws([&] { copc::las::PointBaseByteSize(bad); }) && throws([&] { copc::las::PointBaseNumberDimensions(bad); }) && throws([&] { copc::las::FormatHasRgb(bad); }) && throws([&] { copc::las::FormatHasNir(bad); }) &&
               throws([&] { Point x(bad); }) && throws([&] { Points x(bad); }),
           "format-accepted", "format " << int(bad));
    // extra bytes types
    {
        std::vector<lazperf::eb_vlr::ebfield> f;
        for (int i = (int)r.below(8); i > 0; i--)
            f.push_back(rand_ebfield(r));
        EXPECT(copc::las::NumBytesFromExtraBytes(f) == eb_bytes(f), "extra-bytes-size", copc::las::NumBytesFromExtraBytes(f) << " want " << eb_bytes(f));
        for (auto &e : f)
            EXPECT(copc::las::NumBytesFromExtraBytes({e}) == eb_type_size(e.data_type, e.options), "extra-bytes-type", "type " << int(e.data_type));
        lazperf::eb_vlr::ebfield e;
        e.data_type = (uint8_t)r.range(31, 255);
        EXPECT(throws([&] { copc::las::NumBytesFromExtraBytes({e}); }), "extra-bytes-type-accepted", "type " << int(e.data_type));
    }
    H::note("format", std::to_string(fmt));
    H::count("records", n);
    H::sig(hash_bytes(raw));
    std::ostringstream sm;
    sm << "fmt " << fmt << " eb " << ebn << " scale " << s << " offset " << o << " records " << n;
    H::sample(sm.str());
}

// ---- C08
static void case_c08(Rng &r)
{
    Attr a;
    a.fmt = (int)r.range(6, 8);
    a.eb.resize(rand_ebn(r));
    Point q = fresh(r, a.fmt, (int)a.eb.size());
    auto d = diff_attr(q, a);
    EXPECT(d.empty(), "new-point", "a new point is not zero:" << d);
    int n = (int)r.range(10, 60);
    uint64_t h = a.fmt;
    std::string last;
    for (int i = 0; i < n; i++)
    {
        bool bad = r.chance(20);
        last = bad ? "refused " + refuse(r, q, a) : mutate(r, q, a);
        d = diff_attr(q, a);
        EXPECT(d.empty(), (bad ? "refusal-changed:" : "setter:") + last, "after " << last << ":" << d);
        if (!d.empty())
            break;
        H::count(bad ? "refusals" : "sets");
        H::note("operation", last);
        h = H::hashs(last, h);
    }
    H::sig(h);
    H::sample("format " + std::to_string(a.fmt) + ", " + std::to_string(n) + " operations, last " + last);
}

// ---- C09
// changes two fields of one width so that their sum, or their exclusive or, or the set of their values stays
static std::string mutate_pair(Rng &r, Point &q, Attr &a)
{
    struct F
    {
        std::string name;
        int bits;
        std::function<unsigned()> get;
        std::function<void(unsigned)> set;
    };
    std::vector<F> f;
#define FIELD(n, b, member, setter, T)                                                                                \
    f.push_back({n, b, [&] { return (unsigned)(std::make_unsigned_t<T>)a.member; }, [&](unsigned v) { a.member = (T)v; q.setter((T)v); }})
    FIELD("intensity", 16, intensity, Intensity, uint16_t);
    FIELD("psid", 16, psid, PointSourceId, uint16_t);
    FIELD("angle", 16, angle, ScanAngle, int16_t);
    FIELD("cls", 8, cls, Classification, uint8_t);
    FIELD("user", 8, user, UserData, uint8_t);
    FIELD("ret", 4, ret, ReturnNumber, uint8_t);
    FIELD("num", 4, num, NumberOfReturns, uint8_t);
    if (a.fmt >= 7)
    {
        FIELD("red", 16, rgb[0], Red, uint16_t);
        FIELD("green", 16, rgb[1], Green, uint16_t);
        FIELD("blue", 16, rgb[2], Blue, uint16_t);
    }
    if (a.fmt == 8)
        FIELD("nir", 16, nir, Nir, uint16_t);
#undef FIELD
#define FLAG(n, member, setter) f.push_back({n, 1, [&] { return (unsigned)a.member; }, [&](unsigned v) { a.member = v != 0; q.setter(v != 0); }})
    FLAG("syn", syn, Synthetic);
    FLAG("key", key, KeyPoint);
    FLAG("withheld", wh, Withheld);
    FLAG("overlap", ov, Overlap);
    FLAG("dir", dir, ScanDirectionFlag);
    FLAG("edge", edge, EdgeOfFlightLineFlag);
#undef FLAG
    int how = (int)r.below(3);
    if (a.eb.size() > 1 && r.chance(20))
    {
        size_t i = r.below(a.eb.size()), j = r.below(a.eb.size());
        auto e = a.eb;
        uint8_t d = (uint8_t)r.range(1, 255);
        if (how == 0) std::swap(e[i], e[j]);
        if (how == 1) e[i] += d, e[j] -= d;
        if (how == 2) e[i] ^= d, e[j] ^= d;
        q.ExtraBytes(e);
        a.eb = e;
        return "pair:extra_bytes";
    }
    if (r.chance(10))
    {
        double *v[3] = {&a.x, &a.y, &a.z};
        int i = (int)r.below(3), j = (i + 1) % 3;
        std::swap(*v[i], *v[j]);
        q.X(a.x), q.Y(a.y), q.Z(a.z);
        return "pair:coordinates";
    }
    auto &x = f[r.below(f.size())];
    std::vector<F *> same;
    for (auto &y : f)
        if (y.bits == x.bits && y.name != x.name)
            same.push_back(&y);
    auto &y = *same[r.below(same.size())];
    unsigned mask = (1u << x.bits) - 1, u = x.get(), v = y.get(), d = (unsigned)r.range(1, mask);
    if (how == 1 && d > mask - u) d = mask - u;
    if (how == 1 && d > v) d = v;
    x.set(how == 0 ? v : how == 1 ? u + d : u ^ d);
    y.set(how == 0 ? u : how == 1 ? v - d : v ^ d);
    return "pair:" + x.name;
}
// conversion near the longest record there can be
static void conversion_limit(Rng &r)
{
    int from = (int)r.range(6, 8), to = (int)r.range(6, 8), ebn = 65535 - base_size((int)r.range(from, 8)) + (int)r.range(-1, 1);
    if (base_size(from) + ebn > 65535)
        return;
    bool fits = base_size(to) + ebn <= 65535;
    Point q = fresh(r, from, ebn);
    Attr a;
    a.fmt = from;
    a.eb.resize(ebn);
    for (int i = 0; i < 5; i++)
        mutate(r, q, a);
    auto with = [&](const char *what, auto f)
    {
        std::string err;
        try
        {
            f();
        }
        catch (const std::exception &e)
        {
            err = e.what();
        }
        EXPECT(err.empty() == fits, fits ? "limit-refused" : "too-long-accepted", what << " from " << from << " to " << to << " with " << ebn << " extra bytes: " << err);
    };
    Attr m = a;
    if (fits)
        m.fmt = to;
    Point c(q);
    with("a point", [&] { c.ToPointFormat((int8_t)to); });
    EXPECT(fits ? (int)c.PointRecordLength() == base_size(to) + ebn && c.PointFormatId() == to : c == q, "limit-conversion", "from " << from << " to " << to << " with " << ebn << " extra bytes");
    Points p((int8_t)from, (uint16_t)ebn);
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++)
        p.AddPoint(std::make_shared<Point>(q));
    with("points", [&] { p.ToPointFormat((int8_t)to); });
    EXPECT(p.PointFormatId() == m.fmt && (int)p.PointRecordLength() == base_size(m.fmt) + ebn && (int)p.Size() == n, "limit-conversion", "points from " << from << " to " << to << " with " << ebn << " extra bytes");
    for (auto &x : p.Get())
        EXPECT(fits ? *x == c : *x == q, "limit-conversion", "a point of points from " << from << " to " << to << " with " << ebn << " extra bytes");
    H::note("limit", fits ? "fits" : "refused");
}
static void case_c09(Rng &r)
{
    if (r.chance(2))
        conversion_limit(r);
    Attr a;
    a.fmt = (int)r.range(6, 8);
    a.eb.resize(rand_ebn(r));
    Point q = fresh(r, a.fmt, (int)a.eb.size());
    auto churn = [&](Point &p, Attr &m, int n)
    {
        for (int i = 0; i < n; i++)
            mutate(r, p, m);
    };
    churn(q, a, (int)r.range(5, 60));
    // copies
    Attr b = a;
    Point c(q);
    EXPECT(c == q && q == c && !(c != q), "copy-not-equal", "a copy differs from its source");
    EXPECT(diff_attr(c, b).empty(), "copy-values", diff_attr(c, b));
    churn(c, b, 8);
    EXPECT(diff_attr(q, a).empty(), "copy-aliases", "changing a copy changed the source:" << diff_attr(q, a));
    Point c2(a.fmt == 6 ? 8 : 6, (uint16_t)r.below(4));
    c2 = q;
    EXPECT(c2 == q && diff_attr(c2, a).empty(), "assignment-values", diff_attr(c2, a));
    Attr a2 = a;
    churn(c2, a2, 8);
    EXPECT(diff_attr(q, a).empty() && diff_attr(c2, a2).empty(), "assignment-aliases", "changing an assigned point changed the source");
    // equality: exactly when all attributes agree
    for (int i = 0; i < 14; i++)
    {
        Point e(q);
        Attr m = a;
        std::string w = i < 10 ? mutate(r, e, m) : mutate_pair(r, e, m);
        bool differs = a.intensity != m.intensity || a.psid != m.psid || a.ret != m.ret || a.num != m.num || a.chan != m.chan || a.cls != m.cls || a.user != m.user || a.syn != m.syn || a.key != m.key || a.wh != m.wh ||
                       a.ov != m.ov || a.dir != m.dir || a.edge != m.edge || a.angle != m.angle || a.eb != m.eb || a.gps != m.gps || (a.fmt >= 7 && memcmp(a.rgb, m.rgb, 6)) || (a.fmt == 8 && a.nir != m.nir);
        bool close = true;
        for (auto p : {std::make_pair(a.x, m.x), {a.y, m.y}, {a.z, m.z}})
            if (p.first != p.second)
            {
                double df = std::fabs(p.first - p.second);
                if (df > 1e-5)
                    differs = true;
                else
                    close = false; // within the coordinate tolerance: either answer
            }
        if (!differs && !close)
            continue;
        EXPECT((e == q) == !differs && (q == e) == !differs && (e != q) == differs && (q != e) == differs, "equality:" + w, "after changing " << w << " points " << (differs ? "with" : "without") << " a difference compare the other way");
        H::note("equality", w + (differs ? "!=" : "=="));
        H::count("comparisons");
    }
    {
        Point e((int8_t)a.fmt, (uint16_t)(a.eb.size() + 1));
        Point f((int8_t)(a.fmt == 8 ? 7 : a.fmt + 1), (uint16_t)a.eb.size());
        EXPECT(!(e == Point((int8_t)a.fmt, (uint16_t)a.eb.size())) && !(f == Point((int8_t)a.fmt, (uint16_t)a.eb.size())), "equality:layout", "points of other formats or extra bytes are equal");
    }
    // one conversion: kept where both have it, zero where only the new format has it
    {
        Point e(q);
        Attr m = a;
        int to = (int)r.range(6, 8);
        if (a.fmt < 7)
            memset(m.rgb, 0, 6);
        if (a.fmt < 8)
            m.nir = 0;
        m.fmt = to;
        if (r.chance(30))
            EXPECT(throws([&] { e.ToPointFormat((int8_t)r.oneof({0, 3, 5, 9, -1})); }) && diff_attr(e, a).empty(), "bad-conversion", "an impossible conversion was accepted or changed the point");
        e.ToPointFormat((int8_t)to);
        EXPECT(diff_attr(e, m).empty(), "conversion", a.fmt << " to " << to << ":" << diff_attr(e, m));
        // and the converted point packs as the new format
        Raw w;
        w.intensity = m.intensity, w.returns = m.num << 4 | m.ret, w.cls = m.cls, w.user = m.user, w.angle = m.angle, w.psid = m.psid, w.gps = m.gps, w.nir = m.nir, w.eb = m.eb;
        w.flags = m.syn | m.key << 1 | m.wh << 2 | m.ov << 3 | m.chan << 4 | m.dir << 6 | m.edge << 7;
        memcpy(w.rgb, m.rgb, 6);
        e.X(0), e.Y(0), e.Z(0);
        Bytes want;
        encode(want, w, to);
        std::ostringstream st;
        e.Pack(st, Vector3(1, 1, 1), Vector3(0, 0, 0));
        EXPECT(to_bytes(st.str()) == want, "conversion-pack", a.fmt << " to " << to << " packs to other bytes");
        churn(e, m, 10);
        m.x = e.X(), m.y = e.Y(), m.z = e.Z();
        EXPECT(diff_attr(e, m).empty(), "use-after-conversion", diff_attr(e, m));
        H::note("conversion", std::to_string(a.fmt) + ">" + std::to_string(to));
    }
    // the whole list
    {
        int n = (int)r.below(6), to = (int)r.range(6, 8);
        Points p((int8_t)a.fmt, (uint16_t)a.eb.size());
        std::vector<Attr> ms;
        for (int i = 0; i < n; i++)
        {
            auto e = p.CreatePoint();
            Attr m;
            m.fmt = a.fmt;
            m.eb.resize(a.eb.size());
            churn(*e, m, 20);
            p.AddPoint(e);
            ms.push_back(m);
        }
        EXPECT(throws([&] { p.ToPointFormat((int8_t)r.oneof({0, 5, 9, 10, -1, 127})); }), "bad-conversion", "list");
        EXPECT(p.PointFormatId() == a.fmt, "bad-conversion", "an impossible conversion changed the list");
        for (int i = 0; i < n; i++)
            EXPECT(diff_attr(*p[i], ms[i]).empty(), "bad-conversion", "an impossible conversion changed a point" << diff_attr(*p[i], ms[i]));
        p.ToPointFormat((int8_t)to);
        EXPECT(p.PointFormatId() == to && (int)p.PointRecordLength() == base_size(to) + (int)a.eb.size() && p.EbByteSize() == a.eb.size(), "list-conversion", a.fmt << " to " << to << ": " << p.ToString());
        for (int i = 0; i < n; i++)
        {
            auto m = ms[i];
            m.fmt = to;
            EXPECT(diff_attr(*p[i], m).empty(), "list-conversion", "point " << i << diff_attr(*p[i], m));
        }
        auto e = p.CreatePoint();
        EXPECT(!throws([&] { p.AddPoint(e); }), "list-conversion", "the converted list refuses its own points");
    }
    std::ostringstream st;
    Point z(q);
    z.X(0), z.Y(0), z.Z(0);
    z.Pack(st, Vector3(1, 1, 1), Vector3(0, 0, 0));
    H::sig(H::hashs(st.str(), a.fmt));
    H::sample("format " + std::to_string(a.fmt) + " eb " + std::to_string(a.eb.size()));
}

// ---- C10: a container against a plain vector
struct Mod
{
    int fmt, ebn;
    std::vector<std::shared_ptr<Point>> p;
};
static void check_list(Points &c, const Mod &m, const std::string &after)
{
    EXPECT(c.Size() == m.p.size() && c.PointFormatId() == m.fmt && (int)c.PointRecordLength() == base_size(m.fmt) + m.ebn && (int)c.EbByteSize() == m.ebn, "list-shape:" + after, c.ToString() << " want " << m.p.size() << " points of format " << m.fmt);
    if (c.Size() != m.p.size())
        return;
    auto v = c.Get();
    size_t i = 0;
    for (size_t i = 0; i < c.Size(); i++)
        EXPECT(static_cast<const Points &>(c)[i] == c.Get(i), "const-element", "element " << i << " of a constant list");
    for (auto &q : static_cast<const Points &>(c))
    {
        EXPECT(i < m.p.size() && q == m.p[i], "list-iteration:" + after, "element " << i << " is another point");
        i++;
    }
    EXPECT(i == m.p.size() && v.size() == m.p.size(), "list-iteration:" + after, i << " elements");
    for (i = 0; i < m.p.size() && i < v.size(); i++)
        EXPECT(v[i] == m.p[i] && c.Get(i) == m.p[i] && c[i] == m.p[i], "list-element:" + after, "element " << i << " is another point");
}
template <typename T, typename G> static void check_col(const std::vector<T> &col, const Mod &m, G get, const char *name)
{
    EXPECT(col.size() == m.p.size(), std::string("column:") + name, col.size() << " values for " << m.p.size() << " points");
    for (size_t i = 0; i < col.size() && i < m.p.size(); i++)
        EXPECT(col[i] == get(*m.p[i]), std::string("column:") + name, "element " << i << " is " << +col[i] << " the point has " << +get(*m.p[i]));
}
static void case_c10(Rng &r);
// more points than 16 bits count
static void case_c10_large(Rng &r)
{
    int fmt = (int)r.range(6, 8), ebn = (int)r.below(6);
    size_t n = (size_t)r.range(65537, 140000);
    Points c((int8_t)fmt, (uint16_t)ebn);
    std::vector<Raw> v;
    Raw base = rand_raw(r, ebn);
    Vector3 s(0.5, 0.25, 1), o(3, -7, 0);
    auto h = mk_header(fmt, ebn, s, o);
    for (size_t i = 0; i < n; i++)
    {
        if (i % 500 == 0)
            base = rand_raw(r, ebn);
        base.x = (int32_t)i;
        base.cls = (uint8_t)(i * 7);
        base.psid = (uint16_t)(i * 3);
        v.push_back(base);
        auto q = c.CreatePoint();
        fill_point(*q, base, s, o);
        if (i < n / 2 || i % 2)
            c.AddPoint(q);
        else
            c.AddPoints(std::vector<std::shared_ptr<Point>>{q});
    }
    EXPECT(c.Size() == n && c.Get().size() == n, "size", c.Size() << " want " << n);
    Bytes raw;
    for (auto &x : v)
        encode(raw, x, fmt);
    EXPECT(c.Pack(h) == raw, "pack", "packing " << n << " points");
    auto xs = c.X();
    auto cl = c.Classification();
    auto ps = c.PointSourceId();
    bool ok = xs.size() == n && cl.size() == n && ps.size() == n;
    for (size_t i = 0; ok && i < n; i++)
        ok = xs[i] == c[i]->X() && cl[i] == (uint8_t)(i * 7) && ps[i] == (uint16_t)(i * 3);
    EXPECT(ok, "columns", "columns of " << n << " points");
    std::vector<double> ys(n);
    for (size_t i = 0; i < n; i++)
        ys[i] = (double)(i % 1000) * 0.25;
    c.Y(ys);
    ok = true;
    for (size_t i = 0; i < n; i++)
        ok = ok && c[i]->Y() == ys[i] && c[i]->X() == xs[i];
    EXPECT(ok, "column-set", "the y column of " << n << " points");
    ys.pop_back();
    EXPECT(throws([&] { c.Y(ys); }), "column-length", "a column of " << n - 1 << " values for " << n << " points was taken");
    ys.resize(n - 65536);
    EXPECT(throws([&] { c.Y(ys); }), "column-length", "a column of " << ys.size() << " values for " << n << " points was taken");
    auto P = Points::Unpack(raw, h);
    EXPECT(P.Size() == n && P.Pack(h) == raw, "unpack", "unpacking " << n << " points");
    double cut = c[n - 5]->X();
    auto in = c.GetWithin(copc::Box(cut, -1e300, -1e300, 1e300, 1e300, 1e300));
    EXPECT(in.size() == 5, "within", in.size() << " points of the last 5");
    c.AddPoints(P);
    EXPECT(c.Size() == 2 * n, "append", c.Size());
    c.ToPointFormat((int8_t)(fmt == 8 ? 6 : fmt + 1));
    ok = true;
    for (auto &q : c)
        ok = ok && q->PointFormatId() == (fmt == 8 ? 6 : fmt + 1);
    EXPECT(ok, "convert", "not all of " << 2 * n << " points were converted");
    H::count("large-containers");
    H::sig(hash_bytes(raw));
}
static void case_c10(Rng &r)
{
    Mod m{(int)r.range(6, 8), rand_ebn(r), {}};
    auto mkp = [&](int fmt, int ebn)
    {
        auto p = std::make_shared<Point>((int8_t)fmt, (uint16_t)ebn);
        Raw w = rand_raw(r, ebn);
        w.x %= 100, w.y %= 100, w.z %= 100;
        fill_point(*p, w, Vector3(1, 1, 1), Vector3(0, 0, 0));
        return p;
    };
    std::unique_ptr<Points> c;
    switch (r.below(3))
    {
    case 0: c.reset(new Points((int8_t)m.fmt, (uint16_t)m.ebn)); break;
    case 1: c.reset(new Points(mk_header(m.fmt, m.ebn, Vector3(1, 1, 1), Vector3(0, 0, 0)))); break;
    default:
        for (int i = (int)r.range(1, 5); i > 0; i--)
            m.p.push_back(mkp(m.fmt, m.ebn));
        c.reset(new Points(m.p));
    }
    check_list(*c, m, "construction");
    int n = (int)r.range(5, 40);
    std::string op;
    uint64_t h = m.fmt * 100 + m.ebn;
    for (int i = 0; i < n; i++)
    {
        switch (r.below(14))
        {
        case 0:
        case 1:
        {
            op = "add-point";
            auto p = r.chance(40) ? c->CreatePoint() : mkp(m.fmt, m.ebn);
            EXPECT(p->PointFormatId() == m.fmt && p->EbByteSize() == m.ebn, "create-point", p->ToString());
            c->AddPoint(p);
            m.p.push_back(p);
            break;
        }
        case 2:
        {
            op = "add-list";
            Points q((int8_t)m.fmt, (uint16_t)m.ebn);
            for (int k = (int)r.below(5); k > 0; k--)
            {
                auto p = mkp(m.fmt, m.ebn);
                q.AddPoint(p);
                m.p.push_back(p);
            }
            c->AddPoints(q);
            break;
        }
        case 3:
        {
            op = "add-vector";
            std::vector<std::shared_ptr<Point>> q;
            for (int k = (int)r.below(5); k > 0; k--)
                q.push_back(mkp(m.fmt, m.ebn));
            c->AddPoints(q);
            m.p.insert(m.p.end(), q.begin(), q.end());
            break;
        }
        case 4:
        {
            // something that does not fit, possibly behind points that do
            int f = m.fmt, e = m.ebn;
            if (r.chance(50))
                f = 6 + (f - 6 + 1 + (int)r.below(2)) % 3;
            else
                e += (e == 0 || r.chance(50)) ? 1 : -1;
            if (f != m.fmt && r.chance(30)) // the same record length in another format
            {
                int ln = base_size(m.fmt) + m.ebn - base_size(f);
                if (ln >= 0)
                    e = ln;
            }
            int how = (int)r.below(3);
            bool t;
            if (how == 0)
            {
                op = "refuse-point";
                t = r.chance(10) ? throws([&] { c->AddPoint(nullptr); }) : throws([&] { c->AddPoint(mkp(f, e)); });
            }
            else if (how == 1)
            {
                op = "refuse-list";
                Points q((int8_t)f, (uint16_t)e);
                for (int k = (int)r.below(3); k > 0; k--)
                    q.AddPoint(mkp(f, e));
                t = throws([&] { c->AddPoints(q); });
            }
            else
            {
                op = "refuse-vector";
                std::vector<std::shared_ptr<Point>> q;
                for (int k = (int)r.below(4); k > 0; k--)
                    q.push_back(mkp(m.fmt, m.ebn));
                q.push_back(r.chance(10) ? nullptr : mkp(f, e));
                for (int k = (int)r.below(2); k > 0; k--)
                    q.push_back(mkp(m.fmt, m.ebn));
                t = throws([&] { c->AddPoints(q); });
                if (q.size() > 1 || !q[0])
                    EXPECT(throws([&] { Points x(q); }), "mixed-vector", "a list was made of points of several layouts");
            }
            EXPECT(t, op, "points of format " << f << " eb " << e << " were added to format " << m.fmt << " eb " << m.ebn);
            H::count("refusals");
            break;
        }
        case 5:
        {
            op = "convert";
            m.fmt = (int)r.range(6, 8);
            c->ToPointFormat((int8_t)m.fmt);
            for (auto &p : m.p)
                EXPECT(p->PointFormatId() == m.fmt && p->EbByteSize() == m.ebn, "convert", "an element stayed in its format");
            break;
        }
        case 6:
        {
            op = "replace";
            if (m.p.empty())
                break;
            size_t k = r.below(m.p.size());
            auto p = mkp(m.fmt, m.ebn);
            (*c)[k] = p;
            m.p[k] = p;
            break;
        }
        case 7:
        {
            op = "reserve";
            c->Reserve(r.below(100));
            break;
        }
        case 8:
        {
            op = "columns";
            check_col(c->X(), m, [](Point &p) { return p.X(); }, "x");
            check_col(c->Y(), m, [](Point &p) { return p.Y(); }, "y");
            check_col(c->Z(), m, [](Point &p) { return p.Z(); }, "z");
            check_col(c->Classification(), m, [](Point &p) { return p.Classification(); }, "classification");
            check_col(c->PointSourceId(), m, [](Point &p) { return p.PointSourceId(); }, "psid");
            if (m.fmt >= 7)
            {
                check_col(c->Red(), m, [](Point &p) { return p.Red(); }, "red");
                check_col(c->Green(), m, [](Point &p) { return p.Green(); }, "green");
                check_col(c->Blue(), m, [](Point &p) { return p.Blue(); }, "blue");
            }
            else if (!m.p.empty())
                EXPECT(throws([&] { c->Red(); }) && throws([&] { c->Green(); }) && throws([&] { c->Blue(); }), "column:rgb", "colours of format 6");
            break;
        }
        case 9:
        case 10:
        {
            // assign one column; every other attribute stays
            std::vector<Point> before;
            for (auto &p : m.p)
                before.push_back(*p);
            int col = (int)r.below(m.fmt >= 7 ? 8 : 5);
            static const char *names[] = {"x", "y", "z", "classification", "psid", "red", "green", "blue"};
            op = std::string("set-") + names[col];
            bool wrong = r.chance(25);
            size_t len = m.p.size();
            if (wrong)
                len = len == 0 || r.chance(50) ? len + r.range(1, 3) : r.below(len);
            std::vector<double> d(len);
            std::vector<uint16_t> w(len);
            std::vector<uint8_t> b(len);
            for (size_t k = 0; k < len; k++)
                d[k] = rand_finite(r), w[k] = (uint16_t)r.next(), b[k] = (uint8_t)r.next();
            bool t = throws([&] {
                if (col == 0) c->X(d);
                if (col == 1) c->Y(d);
                if (col == 2) c->Z(d);
                if (col == 3) c->Classification(b);
                if (col == 4) c->PointSourceId(w);
                if (col == 5) c->Red(w);
                if (col == 6) c->Green(w);
                if (col == 7) c->Blue(w);
            });
            EXPECT(t == wrong, op, "a column of " << len << " values for " << m.p.size() << " points was " << (t ? "refused" : "accepted"));
            for (size_t k = 0; k < m.p.size(); k++)
            {
                Point e(before[k]);
                if (!wrong)
                {
                    if (col == 0) e.X(d[k]);
                    if (col == 1) e.Y(d[k]);
                    if (col == 2) e.Z(d[k]);
                    if (col == 3) e.Classification(b[k]);
                    if (col == 4) e.PointSourceId(w[k]);
                    if (col == 5) e.Red(w[k]);
                    if (col == 6) e.Green(w[k]);
                    if (col == 7) e.Blue(w[k]);
                }
                auto &g = *m.p[k];
                EXPECT(g == e && g.X() == e.X() && g.Y() == e.Y() && g.Z() == e.Z(), op, "element " << k << " of " << m.p.size() << (wrong ? " changed by a refused column" : " is not as assigned"));
            }
            H::count(wrong ? "refusals" : "column-sets");
            break;
        }
        case 11:
        {
            op = "within";
            double lo[3], hi[3];
            for (int a = 0; a < 3; a++)
            {
                lo[a] = (double)r.range(-110, 60);
                hi[a] = lo[a] + (double)r.range(0, 200);
            }
            copc::Box box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
            std::vector<std::shared_ptr<Point>> want;
            for (auto &p : m.p)
                if (p->X() >= lo[0] && p->X() <= hi[0] && p->Y() >= lo[1] && p->Y() <= hi[1] && p->Z() >= lo[2] && p->Z() <= hi[2])
                    want.push_back(p);
            EXPECT(c->GetWithin(box) == want, "get-within", "GetWithin gave another selection");
            EXPECT(c->Within(box) == (want.size() == m.p.size()), "within", "Within is wrong");
            break;
        }
        case 12:
        {
            op = "copy";
            Points q(*c);
            Mod mm = m;
            check_list(q, mm, "copy");
            auto p = mkp(m.fmt, m.ebn);
            q.AddPoint(p);
            break;
        }
        default:
        {
            op = "text";
            std::string t = c->ToString(), w = "# of points: " + std::to_string(m.p.size());
            EXPECT(t.find(w) != std::string::npos, "text", t);
        }
        }
        check_list(*c, m, op);
        H::note("operation", op);
        H::count("operations");
        h = H::hashs(op, h);
    }
    if (r.chance(20))
        EXPECT(throws([&] { Points x{std::vector<std::shared_ptr<Point>>()}; }), "empty-vector", "a list was made of no points");
    H::sig(h);
    H::sample("format " + std::to_string(m.fmt) + " eb " + std::to_string(m.ebn) + " ends with " + std::to_string(m.p.size()) + " points, last operation " + op);
}

void run_case(uint64_t, Rng &r)
{
    if (H::mode == "C07") case_c07(r);
    else if (H::mode == "C08") case_c08(r);
    else if (H::mode == "C09") case_c09(r);
    else if (H::mode == "C10") case_c10(r);
    else if (H::mode == "C10L") case_c10_large(r);
    else abort();
}
