// C31: entries, pages and variable length records as values, and what objects print.
#include "gen.hpp"
#include <functional>
using namespace G;
namespace las = copc::las;
using copc::CopcExtent;
using copc::CopcInfo;
using copc::Entry;
using copc::Node;
using copc::Page;

template <class T> static void put(std::string &s, T v) { s.append(reinterpret_cast<const char *>(&v), sizeof v); }
template <class T> static std::string printed(const T &x)
{
    std::ostringstream s;
    s << x;
    EXPECT(s.str() == x.ToString(), "stream-text", s.str() << " / " << x.ToString());
    return x.ToString();
}
static int32_t odd_size(Rng &r)
{
    switch (r.below(4))
    {
    case 0: return (int32_t)r.range(-3, 3);
    case 1: return INT32_MAX - (int32_t)r.below(3);
    case 2: return INT32_MIN + (int32_t)r.below(3);
    default: return (int32_t)r.next();
    }
}
static VoxelKey odd_voxel(Rng &r)
{
    auto c = [&] { return r.chance(80) ? (int32_t)r.below(1000) : odd_size(r); };
    int32_t d = c(), x = c(), y = c(), z = c();
    return VoxelKey(d, x, y, z);
}
static uint64_t odd_offset(Rng &r)
{
    switch (r.below(4))
    {
    case 0: return r.below(1000);
    case 1: return UINT64_MAX - r.below(3);
    case 2: return (1ull << 32) - 2 + r.below(4);
    default: return r.next();
    }
}
struct Plain
{
    VoxelKey k;
    uint64_t off;
    int32_t size, count;
    bool operator==(const Plain &o) const { return k.d == o.k.d && k.x == o.k.x && k.y == o.k.y && k.z == o.k.z && off == o.off && size == o.size && count == o.count; }
    std::string bytes() const
    {
        std::string s;
        put(s, k.d), put(s, k.x), put(s, k.y), put(s, k.z), put(s, off), put(s, size), put(s, count);
        return s;
    }
    // One or two fields of it changed
    Plain changed(Rng &r) const
    {
        Plain p = *this;
        if (r.chance(30)) // two fields together, so that a sum or a mix of both stays
        {
            int32_t *f[6] = {&p.k.d, &p.k.x, &p.k.y, &p.k.z, &p.size, &p.count};
            int i = (int)r.below(6), j = (int)r.below(6);
            uint32_t by = (uint32_t)r.range(1, 40);
            if (r.chance(50) && *f[i] != *f[j])
                std::swap(*f[i], *f[j]);
            else if (r.chance(50))
                p.off += by, *f[i] = (int32_t)((uint32_t)*f[i] - by);
            else if (i != j)
                *f[i] = (int32_t)((uint32_t)*f[i] + by), *f[j] = (int32_t)((uint32_t)*f[j] - by);
            else
                *f[i] ^= 1 << r.below(32);
            return p;
        }
        int64_t by = r.chance(50) ? 1 : (int64_t)1 << r.below(31);
        switch (r.below(7))
        {
        case 0: p.k.d = (int32_t)((uint32_t)p.k.d + (uint32_t)by); break;
        case 1: p.k.x = (int32_t)((uint32_t)p.k.x + (uint32_t)by); break;
        case 2: p.k.y = (int32_t)((uint32_t)p.k.y + (uint32_t)by); break;
        case 3: p.k.z = (int32_t)((uint32_t)p.k.z + (uint32_t)by); break;
        case 4: p.off += r.chance(50) ? (uint64_t)by : 1ull << (32 + r.below(32)); break;
        case 5: p.size = (int32_t)((uint32_t)p.size + (uint32_t)by); break;
        default: p.count = (int32_t)((uint32_t)p.count + (uint32_t)by);
        }
        return p;
    }
};
static Plain any_plain(Rng &r)
{
    Plain p;
    p.k = odd_voxel(r);
    p.off = odd_offset(r), p.size = odd_size(r), p.count = r.chance(30) ? -1 : odd_size(r);
    return p;
}
static Plain plain(const Entry &e)
{
    Plain p;
    p.k = e.key, p.off = e.offset, p.size = e.byte_size, p.count = e.point_count;
    return p;
}

static void entries(Rng &r)
{
    // a few of them after one another, as on a page
    int n = (int)r.range(1, 5);
    std::vector<Plain> ps;
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    std::string want;
    for (int i = 0; i < n; i++)
    {
        Plain p = any_plain(r);
        ps.push_back(p);
        Entry e(p.k, p.off, p.size, p.count);
        EXPECT(plain(e) == p, "entry-construction", e.ToString());
        bool valid = p.size >= 0 && p.k.IsValid();
        EXPECT(e.IsValid() == valid, "entry-valid", e.ToString());
        EXPECT(e.IsPage() == (valid && p.count == -1), "entry-page", e.ToString());
        e.Pack(s);
        EXPECT(plain(e) == p, "entry-changed-by-packing", e.ToString());
        want += p.bytes();
        EXPECT(s.str() == want, "entry-bytes", e.ToString());
        auto t = printed(e);
        EXPECT(t.find(std::to_string(p.off)) != t.npos && t.find(std::to_string(p.size)) != t.npos && t.find(std::to_string(p.count)) != t.npos && t.find(p.k.ToString()) != t.npos, "entry-text", t);
        H::count("entries");
    }
    for (auto &p : ps)
    {
        Entry e = Entry::Unpack(s);
        EXPECT(plain(e) == p, "entry-unpacked", e.ToString());
        VoxelKey pk = odd_voxel(r);
        Node a(e, pk), b(e), c;
        EXPECT(plain(a) == p && a.page_key == pk && plain(b) == p && !b.page_key.IsValid(), "node-construction", a.ToString());
        EXPECT(a.IsValid() == e.IsValid() && a.IsPage() == e.IsPage() && !c.IsValid() && !c.IsPage() && !c.key.IsValid(), "node-valid", a.ToString());
        Plain q = p.changed(r);
        Entry f(q.k, q.off, q.size, q.count);
        Node d(f, pk);
        EXPECT(a == b && b == a && a == a, "node-equal", a.ToString());
        EXPECT(!(a == d) && !(d == a), "node-not-equal", a.ToString() << " / " << d.ToString());
        b = d;
        EXPECT(plain(b) == q && b.page_key == pk && b == d && plain(a) == p, "node-assignment", b.ToString());
        // pages
        Page g(e), h(p.k, (int64_t)p.off, p.size);
        EXPECT(plain(g) == p && !g.loaded && h.key == p.k && h.offset == p.off && h.byte_size == p.size && h.point_count == -1 && !h.loaded, "page-construction", g.ToString());
        EXPECT(g.IsValid() == e.IsValid() && g.IsPage() == e.IsPage(), "page-valid", g.ToString());
        Page l = g, m(f);
        EXPECT(l == g && !(m == g) && !(g == m), "page-equal", g.ToString() << " / " << m.ToString());
        l.loaded = true;
        EXPECT(!(l == g) && !(g == l), "page-loaded-equal", l.ToString());
        EXPECT(l.IsValid() == p.k.IsValid() && l.IsPage() == (p.k.IsValid() && p.count == -1), "page-loaded-valid", l.ToString());
        const Entry &as = l;
        EXPECT(as.IsValid() == l.IsValid() && as.IsPage() == l.IsPage(), "page-as-entry", l.ToString());
        H::note("entry", std::string(e.IsValid() ? "valid" : "invalid") + (p.count == -1 ? " page" : ""));
    }
    Entry none;
    EXPECT(!none.IsValid() && !none.IsPage() && !none.key.IsValid(), "no-entry", none.ToString());
    H::sig(H::hashs(want));
    H::sample(std::to_string(n) + " entries, " + Entry::Unpack(s).ToString());
}

static const int TYPE_SIZE[31] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 2, 4, 4, 8, 8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24};
static void records(Rng &r)
{
    // headers of records
    las::VlrHeader h(lazperf::evlr_header{(uint16_t)r.next(), rand_text(r, 16), (uint16_t)r.next(), r.chance(50) ? odd_offset(r) : r.below(65536), rand_text(r, 32)});
    auto same = [](const las::VlrHeader &a, const las::VlrHeader &b) { return a.reserved == b.reserved && a.user_id == b.user_id && a.record_id == b.record_id && a.data_length == b.data_length && a.description == b.description && a.evlr_flag == b.evlr_flag; };
    EXPECT(h.evlr_flag, "header-flag", "");
    auto e = h.ToLazperfEvlrHeader();
    las::VlrHeader back(e), copy(h);
    EXPECT(same(back, h) && same(copy, h), "evlr-header", h.user_id << " " << h.record_id << " " << h.data_length);
    if (h.data_length < 65536)
    {
        auto v = h.ToLazperfVlrHeader();
        las::VlrHeader s(v);
        EXPECT(!s.evlr_flag, "header-flag", "");
        s.evlr_flag = true;
        EXPECT(same(s, h), "vlr-header", h.user_id << " " << h.record_id << " " << h.data_length);
        las::VlrHeader c2(v), c3(c2);
        EXPECT(same(c2, c3) && !c3.evlr_flag, "header-copy", "");
    }
    // extents
    auto finite = [&] { return r.chance(90) ? rand_finite(r) : r.chance(50) ? INFINITY : -INFINITY; };
    size_t n = r.below(40);
    las::CopcExtentsVlr x((int)n);
    std::string want;
    std::vector<std::pair<double, double>> vs(n);
    for (size_t i = 0; i < n; i++)
    {
        vs[i] = {finite(), finite()};
        x.setItem((int)i, {vs[i].first, vs[i].second});
    }
    for (size_t i = r.below(4); i-- > 0;)
    {
        vs.push_back({finite(), finite()});
        x.addItem({vs.back().first, vs.back().second});
    }
    for (auto &v : vs)
        put(want, v.first), put(want, v.second);
    EXPECT(x.items.size() == vs.size() && x.size() == vs.size() * 16, "extents-size", x.size() << " for " << vs.size());
    EXPECT(x.header().data_length == x.size() && x.eheader().data_length == x.size() && x.header().user_id == "copc" && x.eheader().user_id == "copc" && x.header().record_id == x.eheader().record_id && x.header().record_id == 10000,
           "extents-header", x.header().user_id << " " << x.header().record_id);
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    x.write(s);
    EXPECT(s.str() == want, "extents-bytes", vs.size() << " extents");
    auto y = las::CopcExtentsVlr::create(s, (int)want.size());
    auto equal = [&](const las::CopcExtentsVlr &a)
    {
        bool ok = a.items.size() == vs.size();
        for (size_t i = 0; ok && i < vs.size(); i++)
            ok = same_bytes(&a.items[i].minimum, &vs[i].first, 8) && same_bytes(&a.items[i].maximum, &vs[i].second, 8);
        return ok;
    };
    EXPECT(equal(y), "extents-read", vs.size() << " extents");
    las::CopcExtentsVlr used((int)r.below(5));
    s.clear(), s.seekg(0);
    used.read(s, (int)want.size());
    EXPECT(equal(used), "extents-read-again", vs.size() << " extents into a used record");
    // COPC information
    lazperf::copc_info_vlr iv;
    iv.center_x = rand_finite(r), iv.center_y = rand_finite(r), iv.center_z = rand_finite(r), iv.halfsize = rand_finite(r), iv.spacing = rand_finite(r);
    iv.root_hier_offset = odd_offset(r), iv.root_hier_size = odd_offset(r);
    CopcInfo info(iv);
    CopcExtent t = rand_extent(r);
    auto o = info.ToLazPerf(t);
    EXPECT(o.center_x == iv.center_x && o.center_y == iv.center_y && o.center_z == iv.center_z && o.halfsize == iv.halfsize && o.spacing == iv.spacing && o.root_hier_offset == iv.root_hier_offset && o.root_hier_size == iv.root_hier_size &&
               o.gpstime_minimum == t.minimum && o.gpstime_maximum == t.maximum,
           "info", info.ToString());
    // extra bytes
    std::vector<lazperf::eb_vlr::ebfield> fs;
    int64_t total = 0;
    int odd = r.chance(10) ? (int)r.range(31, 255) : 0;
    size_t nf = r.chance(5) ? r.range(250, 3000) : r.below(8);
    for (size_t i = 0; i < nf; i++)
    {
        auto f = nf > 10 && i ? fs[0] : rand_ebfield(r);
        if (nf > 10)
            f.data_type = (uint8_t)(r.chance(90) ? 0 : 27), f.options = (uint8_t)(r.chance(50) ? 255 : r.next());
        total += f.data_type ? TYPE_SIZE[f.data_type] : f.options;
        fs.push_back(f);
    }
    if (odd)
    {
        auto f = rand_ebfield(r);
        f.data_type = (uint8_t)odd;
        fs.insert(fs.begin() + r.below(fs.size() + 1), f);
    }
    int64_t got = -1;
    bool threw = throws([&] { got = las::NumBytesFromExtraBytes(fs); });
    EXPECT(threw == (odd || total > 65535), "extra-bytes-refused", total << " bytes, type " << odd);
    EXPECT(threw || got == total, "extra-bytes-size", got << " of " << total);
    H::note("extra-bytes", threw ? odd ? "unknown type" : "too long" : nf > 10 ? "many" : nf ? "some" : "none");
    auto a = rand_ebfield(r), b = a;
    EXPECT(a == b && same_eb(a, b), "field-equal", a.name);
    auto flip = [&](double *d) { d[r.below(3)] = rand_finite(r) + 1; };
    switch (r.below(11))
    {
    case 0: b.reserved[r.below(2)] ^= 1 << r.below(8); break;
    case 1: b.data_type ^= 1 << r.below(8); break;
    case 2: b.options ^= 1 << r.below(8); break;
    case 3: b.name += "x"; break;
    case 4: b.description += "x"; break;
    case 5: if (!b.name.empty()) b.name.back() ^= 1; break;
    case 6: flip(b.no_data); break;
    case 7: flip(b.minval); break;
    case 8: flip(b.maxval); break;
    case 9: flip(b.scale); break;
    default: flip(b.offset);
    }
    EXPECT((a == b) == same_eb(a, b) && (b == a) == same_eb(a, b), "field-compare", a.name);
    // sizes of formats
    int f = (int)r.range(-1, 12);
    int64_t eb = r.chance(50) ? r.below(300) : 65535 - (int64_t)r.below(60);
    static const int base[3] = {30, 36, 38}, dims[3] = {14, 17, 18};
    bool known = f >= 6 && f <= 8;
    int64_t rec = -1;
    threw = throws([&] { rec = las::PointByteSize((int8_t)f, (uint16_t)eb); });
    EXPECT(threw == (!known || base[f - 6] + eb > 65535), "record-refused", f << "+" << eb);
    EXPECT(threw || (rec == base[f - 6] + eb && las::EbByteSize((int8_t)f, (uint32_t)rec) == eb && las::PointBaseByteSize((int8_t)f) == base[f - 6]), "record-length", f << "+" << eb << ": " << rec);
    EXPECT(throws([&] { las::PointBaseByteSize((int8_t)f); }) == !known && throws([&] { las::PointBaseNumberDimensions((int8_t)f); }) == !known && throws([&] { las::FormatHasRgb((uint8_t)f); }) == !known && throws([&] { las::FormatHasNir((uint8_t)f); }) == !known, "format-known", f);
    if (known)
        EXPECT(las::PointBaseNumberDimensions((int8_t)f) == dims[f - 6] && copc::PointBaseNumberExtents((int8_t)f) == dims[f - 6] && las::FormatHasRgb((uint8_t)f) == (f > 6) && las::FormatHasNir((uint8_t)f) == (f > 7), "format-parts", f);
    H::count("records");
    H::sig(H::hashs(want + h.user_id + a.name));
    H::sample(std::to_string(vs.size()) + " extents, " + std::to_string(fs.size()) + " extra bytes fields");
}

// Every change of what is shown shows
struct Change
{
    const char *what;
    std::function<std::string()> make; // returns the text the new value has
};
template <class T> static void shown(Rng &r, const char *type, T &x, std::vector<Change> cs)
{
    r.shuffle(cs);
    std::string t = printed(x);
    for (auto &c : cs)
    {
        auto v = c.make();
        auto u = printed(x);
        EXPECT(u.find(v) != u.npos, "not-shown:" + std::string(type) + "." + c.what, v << " in " << u);
        EXPECT(u != t, "change-not-shown:" + std::string(type) + "." + c.what, v << ": " << u);
        t = u;
        H::count("changes-shown");
        H::note("shown", std::string(type) + "." + c.what);
    }
    EXPECT(t == printed(x), "text-changes", type);
}
static void texts(Rng &r)
{
    // every new value is another one, and few enough digits are printed of it
    int64_t next = r.range(100, 200);
    auto num = [&](auto &v, int64_t most)
    {
        next = next + r.range(1, 9);
        v = (std::decay_t<decltype(v)>)(next % most);
        return std::to_string(next % most);
    };
    auto word = [&](int most)
    {
        std::string s = "w" + std::to_string(next += r.range(1, 9));
        if (r.chance(50))
            s = std::string(most - s.size() - (r.chance(50) ? 0 : r.below(most - s.size())), 'w') + s;
        return s;
    };
    // header
    {
        las::LasHeader h((int8_t)r.range(6, 8), 40, 1000, r.below(100), 3, Vector3(1, 2, 3), Vector3(4, 5, 6), 2000, 4, r.chance(50));
        std::vector<Change> cs = {
            {"file_source_id", [&] { return num(h.file_source_id, 60000); }},
            {"global_encoding", [&] { return num(h.global_encoding, 60000); }},
            {"creation_day", [&] { return num(h.creation_day, 60000); }},
            {"creation_year", [&] { return num(h.creation_year, 60000); }},
            {"min.x", [&] { return num(h.min.x, 100000); }}, {"min.y", [&] { return num(h.min.y, 100000); }}, {"min.z", [&] { return num(h.min.z, 100000); }},
            {"max.x", [&] { return num(h.max.x, 100000); }}, {"max.y", [&] { return num(h.max.y, 100000); }}, {"max.z", [&] { return num(h.max.z, 100000); }},
            {"guid", [&] { auto s = word(16); h.GUID(s); return s; }},
            {"system_identifier", [&] { auto s = word(32); h.SystemIdentifier(s); return s; }},
            {"generating_software", [&] { auto s = word(32); h.GeneratingSoftware(s); return s; }},
        };
        for (int i = 0; i < 15; i++)
            cs.push_back({"points_by_return", [&h, i, num] { return num(h.points_by_return[i], 1000000); }});
        shown(r, "header", h, cs);
        // what only a constructor sets
        int64_t v[12];
        for (auto &x : v)
            num(x, 60000);
        las::LasHeader g((int8_t)7, (uint16_t)v[0], (uint32_t)v[1], (uint64_t)v[2], (uint32_t)v[3], Vector3(v[4], v[5], v[6]), Vector3(v[7], v[8], v[9]), (uint64_t)v[10], (uint32_t)v[11], true);
        auto t = printed(g);
        for (auto x : v)
            EXPECT(t.find(std::to_string(x)) != t.npos, "not-shown:header", x << " in " << t);
    }
    // information
    {
        CopcInfo i;
        shown(r, "info", i, {{"center_x", [&] { return num(i.center_x, 100000); }}, {"center_y", [&] { return num(i.center_y, 100000); }}, {"center_z", [&] { return num(i.center_z, 100000); }}, {"halfsize", [&] { return num(i.halfsize, 100000); }}, {"spacing", [&] { return num(i.spacing, 100000); }}});
    }
    // extents
    {
        int8_t fmt = (int8_t)r.range(6, 8);
        copc::CopcExtents x(fmt, (uint16_t)r.below(4), r.chance(50));
        std::vector<Change> cs;
        for (auto &e : x.Extents())
        {
            auto p = e.get();
            cs.push_back({"minimum", [p, num] { return num(p->minimum, 100000); }});
            cs.push_back({"maximum", [p, num] { return num(p->maximum, 100000); }});
            cs.push_back({"mean", [p, num] { return num(p->mean, 100000); }});
            cs.push_back({"var", [p, num] { return num(p->var, 100000); }});
        }
        shown(r, "extents", x, cs);
    }
    {
        CopcExtent e;
        shown(r, "extent", e, {{"minimum", [&] { return num(e.minimum, 100000); }}, {"maximum", [&] { return num(e.maximum, 100000); }}, {"mean", [&] { return num(e.mean, 100000); }}, {"var", [&] { return num(e.var, 100000); }}});
    }
    // a point
    {
        int8_t fmt = (int8_t)r.range(6, 8);
        las::Point p(fmt, (uint16_t)r.below(5));
        int64_t v;
        std::vector<Change> cs = {
            {"x", [&] { auto s = num(v, 100000); p.X(v); return s; }}, {"y", [&] { auto s = num(v, 100000); p.Y(v); return s; }}, {"z", [&] { auto s = num(v, 100000); p.Z(v); return s; }},
            {"intensity", [&] { auto s = num(v, 60000); p.Intensity(v); return s; }},
            {"return_number", [&] { p.ReturnNumber((p.ReturnNumber() + r.range(1, 15)) % 16); return std::to_string(p.ReturnNumber()); }},
            {"number_of_returns", [&] { p.NumberOfReturns((p.NumberOfReturns() + r.range(1, 15)) % 16); return std::to_string(p.NumberOfReturns()); }},
            {"synthetic", [&] { p.Synthetic(!p.Synthetic()); return std::string(); }}, {"key_point", [&] { p.KeyPoint(!p.KeyPoint()); return std::string(); }},
            {"withheld", [&] { p.Withheld(!p.Withheld()); return std::string(); }}, {"overlap", [&] { p.Overlap(!p.Overlap()); return std::string(); }},
            {"scan_direction", [&] { p.ScanDirectionFlag(!p.ScanDirectionFlag()); return std::string(); }}, {"edge", [&] { p.EdgeOfFlightLineFlag(!p.EdgeOfFlightLineFlag()); return std::string(); }},
            {"channel", [&] { p.ScannerChannel((p.ScannerChannel() + r.range(1, 3)) % 4); return std::to_string(p.ScannerChannel()); }},
            {"classification", [&] { p.Classification((uint8_t)(p.Classification() + r.range(1, 255))); return std::to_string(p.Classification()); }},
            {"user_data", [&] { p.UserData((uint8_t)(p.UserData() + r.range(1, 255))); return std::to_string(p.UserData()); }},
            {"scan_angle", [&] { auto s = num(v, 30000); p.ScanAngle(v); return s; }},
            {"point_source_id", [&] { auto s = num(v, 60000); p.PointSourceId(v); return s; }},
            {"gps_time", [&] { auto s = num(v, 100000); p.GPSTime(v); return s; }},
        };
        if (fmt > 6)
        {
            cs.push_back({"red", [&] { auto s = num(v, 60000); p.Red(v); return s; }});
            cs.push_back({"green", [&] { auto s = num(v, 60000); p.Green(v); return s; }});
            cs.push_back({"blue", [&] { auto s = num(v, 60000); p.Blue(v); return s; }});
        }
        if (fmt > 7)
            cs.push_back({"nir", [&] { auto s = num(v, 60000); p.Nir(v); return s; }});
        shown(r, "point", p, cs);
        las::Points ps(fmt, (uint16_t)p.EbByteSize());
        shown(r, "points", ps, {{"size", [&] { for (int i = (int)r.range(1, 5); i-- > 0;) ps.AddPoint(ps.CreatePoint()); return std::to_string(ps.Size()); }}});
    }
    H::sig(r.next());
    H::sample("texts");
}

void run_case(uint64_t, Rng &r)
{
    if (H::mode != "C31") abort();
    switch (r.below(3))
    {
    case 0: entries(r); break;
    case 1: records(r); break;
    default: texts(r);
    }
}
