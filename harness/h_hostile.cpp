// C20: damaged COPC and LAZ files, and damaged single records, through everything that reads them.
#include "common.hpp"
#include "battery.hpp"
#include <copc-lib/laz/compressor.hpp>
using namespace G;
using L::Parsed;

struct Field
{
    uint64_t pos;
    int size;
    char type; // u, d, s
    std::string name;
};

static std::vector<Field> fields(const std::string &img, bool copc)
{
    std::vector<Field> f;
    auto add = [&](uint64_t p, int n, char t, const std::string &name)
    {
        if (p + n <= img.size())
            f.push_back({p, n, t, name});
    };
    add(0, 4, 'u', "signature");
    add(4, 2, 'u', "source");
    add(6, 2, 'u', "encoding");
    add(8, 16, 's', "guid");
    add(24, 1, 'u', "major");
    add(25, 1, 'u', "minor");
    add(26, 32, 's', "sys");
    add(58, 32, 's', "gen");
    add(94, 2, 'u', "header-size");
    for (int i = 0; i < 4; i++)
    {
        add(96, 4, 'u', "point-offset");
        add(100, 4, 'u', "vlr-count");
        add(104, 1, 'u', "format");
        add(105, 2, 'u', "record-length");
        add(235, 8, 'u', "evlr-offset");
        add(243, 4, 'u', "evlr-count");
        add(247, 8, 'u', "point-count");
    }
    add(107, 4, 'u', "legacy-count");
    for (int i = 0; i < 12; i++)
        add(131 + 8 * i, 8, 'd', i < 3 ? "scale" : i < 6 ? "offset" : "bounds");
    Parsed P = L::parse(img, copc);
    for (auto *v : {&P.vlrs, &P.evlrs})
        for (auto &x : *v)
        {
            std::string n = x.user + "/" + std::to_string(x.id) + (x.evlr ? "e" : "");
            uint64_t h = x.payload - (x.evlr ? 60 : 54);
            add(h + 2, 16, 's', "vlr-user");
            add(h + 18, 2, 'u', "vlr-id");
            for (int i = 0; i < 3; i++)
                add(h + 20, x.evlr ? 8 : 2, 'u', "vlr-length " + n);
            if (x.id == 1 && x.user == "copc")
                for (int i = 0; i < 10; i++)
                    add(x.payload + 8 * i, 8, i < 5 || i > 6 ? 'd' : 'u', "info" + std::to_string(i));
            else if (x.user == "LASF_Spec" && x.id == 4)
                for (uint64_t q = 0; q + 192 <= x.size; q += 192)
                {
                    add(x.payload + q + 2, 1, 'u', "eb-type");
                    add(x.payload + q + 3, 1, 'u', "eb-options");
                    add(x.payload + q + 4, 32, 's', "eb-name");
                }
            else if (x.id == 10000 || x.id == 10001)
                for (uint64_t q = 0; q + 8 <= x.size && q < 400; q += 8)
                    add(x.payload + q, 8, 'd', "extent" + std::to_string(x.id));
            else if (x.user == "laszip encoded")
                for (uint64_t q = 0; q + 2 <= x.size; q += 2)
                    add(x.payload + q, q == 12 ? 4 : 2, 'u', "laszip" + std::to_string(q));
        }
    for (auto &p : P.pages)
    {
        int64_t k = p.second.size / 32;
        for (int64_t i = 0; i < k; i++)
        {
            uint64_t e = p.second.offset + 32 * i;
            for (int q = 0; q < 4; q++)
                add(e + 4 * q, 4, 'u', "entry-key" + std::to_string(q));
            add(e + 16, 8, 'u', "entry-offset");
            add(e + 24, 4, 'u', "entry-size");
            add(e + 28, 4, 'u', "entry-count");
        }
    }
    add(P.point_offset, 8, 'u', "chunk-table-offset");
    if (P.chunk_table && P.chunk_table + 8 <= img.size())
    {
        add(P.chunk_table, 4, 'u', "chunk-table-version");
        add(P.chunk_table + 4, 4, 'u', "chunk-table-count");
    }
    int q = 0;
    for (auto &c : P.chunks)
    {
        for (int i = 0; i < 2; i++)
            add(c.offset + base_size(P.fmt & 63) + 4 * i, 4, 'u', "chunk-head");
        if (++q > 10)
            break;
    }
    return f;
}

static uint64_t hostile_int(Rng &r, int size, uint64_t old, uint64_t file)
{
    uint64_t max = size >= 8 ? ~0ull : (1ull << (8 * size)) - 1;
    switch (r.below(16))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return max;
    case 3: return max >> 1;
    case 4: return (max >> 1) + 1;
    case 5: return old + 1;
    case 6: return old - 1;
    case 7: return old ^ (1ull << r.below(8 * size));
    case 8: return file - r.below(100);
    case 9: return file + r.below(100);
    case 10: return r.below(file);
    case 11: return max - r.below(64);
    case 12: return old * r.range(2, 64);
    case 13: return r.below(300);
    case 14: return max >> r.below(8 * size);
    default: return r.next();
    }
}
static double hostile_double(Rng &r)
{
    static const double v[] = {0, -0.0, 1, -1, 1e308, -1e308, 5e-324, INFINITY, -INFINITY, NAN, 2147483648.0, 1e18, -1e18, 1e-300};
    if (r.chance(60))
        return v[r.below(14)];
    return rand_finite(r);
}

static std::string mutate(Rng &r, std::string &img, const std::vector<Field> &fs, const std::vector<std::string> &others)
{
    if (img.size() < 8)
        return "tiny";
    int k = (int)r.below(20);
    if (!fs.empty() && r.chance(6)) // the same field wherever it occurs: sums of many, each of which is possible
    {
        auto name = r.chance(50) ? "entry-count" : r.pick(fs).name;
        if (name == "entry-count" && r.chance(60))
            for (auto &f : fs)
                if (f.name == "bounds" && f.pos + 8 <= img.size())
                {
                    double d = 1e9 + rand_finite(r) * 1e-300;
                    memcpy(&img[f.pos], &d, 8);
                }
        for (auto &f : fs)
            if (f.name == name && f.pos + f.size <= img.size())
            {
                double d = hostile_double(r);
                uint64_t v = name == "entry-count" ? r.range(1 << 28, INT32_MAX) : hostile_int(r, std::min(f.size, 8), r.next(), img.size());
                if (f.type == 'd')
                    memcpy(&img[f.pos], &d, 8);
                else if (f.type == 'u')
                    memcpy(&img[f.pos], &v, f.size);
            }
        return "every " + name;
    }
    if (k < 12 && !fs.empty())
    {
        auto &f = r.pick(fs);
        if (f.pos + f.size > img.size())
            return "gone";
        if (f.type == 'd')
        {
            double d = hostile_double(r);
            memcpy(&img[f.pos], &d, 8);
        }
        else if (f.type == 's')
        {
            for (int i = 0; i < f.size; i++)
                if (r.chance(60))
                    img[f.pos + i] = (char)r.range(1, 255);
            if (r.chance(30)) // the texts the readers look for
            {
                std::string t = r.oneof<std::string>({"copc", "LASF_Spec", "LASF_Projection", "laszip encoded", "rock_robotic"});
                for (int i = 0; i < f.size && i < 16; i++)
                    img[f.pos + i] = i < (int)t.size() ? t[i] : 0;
            }
        }
        else
        {
            uint64_t old = 0;
            memcpy(&old, &img[f.pos], f.size);
            uint64_t v = hostile_int(r, f.size, old, img.size());
            if (f.name == "vlr-id" && r.chance(50))
                v = r.oneof<uint64_t>({1, 4, 1000, 2112, 10000, 10001, 22204});
            if (f.name == "entry-count" && r.chance(30))
                v = (uint64_t)-1;
            memcpy(&img[f.pos], &v, f.size);
        }
        return f.name;
    }
    uint64_t a = r.below(img.size()), b = r.below(img.size());
    switch (k)
    {
    case 12: img.resize(a); return "truncate";
    case 13: img.resize(img.size() - 1 - r.below(std::min<size_t>(img.size() - 1, 64))); return "truncate-tail";
    case 14:
        for (int i = 0, n = (int)r.range(1, 16); i < n; i++)
            img[r.below(img.size())] = (char)r.next();
        return "bytes";
    case 15:
    {
        uint64_t n = std::min<uint64_t>(1 + r.below(64), img.size() - std::max(a, b));
        memmove(&img[a], &img[b], n);
        return "copy";
    }
    case 16: img.insert(a, std::string(1 + r.below(40), (char)r.next())); return "insert";
    case 17: img.erase(a, 1 + r.below(40)); return "erase";
    case 18:
        if (!others.empty())
        {
            auto &o = r.pick(others);
            img = img.substr(0, a) + o.substr(std::min<size_t>(a, o.size()));
        }
        return "splice";
    default: img.append(r.below(64), (char)r.next()); return "append";
    }
}

static std::string make_laz(Rng &r)
{
    Cfg c = rand_cfg(r, r.chance(10));
    std::stringstream ss;
    copc::laz::LazWriter w(ss, copc::las::LazConfigWriter(c.fmt, c.scale, c.offset, c.wkt, c.eb));
    auto h = static_cast<const copc::las::LazConfigWriter &>(*w.LazConfig()).LasHeader();
    for (int i = 0, k = (int)r.below(5); i < k; i++)
    {
        std::vector<Raw> pts;
        for (int q = (int)r.range(1, 8); q > 0; q--)
            pts.push_back(rand_raw(r, c.ebn));
        w.WritePoints(W::to_points(h, pts));
    }
    w.Close();
    return ss.str();
}

// pages that nest, repeat and share
static std::string page_bomb(Rng &r, std::string &kind)
{
    FG::Opt o;
    o.spatial = true;
    o.maxn = 3;
    FG::File f = FG::make(r, o);
    std::string img = f.img;
    Parsed P = L::parse(img, true);
    const L::Rec *info = P.find("copc", 1);
    uint64_t at = img.size();
    std::string pages;
    int n = (int)r.range(2, 400);
    uint64_t root_size;
    switch (r.below(4))
    {
    case 0: // a chain of pages, each with one sub-page, deeper and deeper
        kind = "chain";
        for (int i = 0; i < n; i++)
            L::e32(pages, i < 31 ? VoxelKey(i, 0, 0, 0) : VoxelKey(i, 1, 0, 0), at + 32 * (i + 1), i + 1 < n ? 32 : 0, -1);
        root_size = 32;
        break;
    case 1: // every page holds all the pages
        kind = "all-in-all";
        for (int i = 0; i < n; i++)
            L::e32(pages, VoxelKey(9, i, 0, 0), at, 32 * n, -1);
        root_size = 32 * n;
        break;
    case 2: // many pages share one block of nodes
        kind = "shared";
        n = std::min(n, 120);
        for (int i = 0; i < n; i++)
            L::e32(pages, VoxelKey(9, i, 0, 0), at + 32 * n, 32 * n, -1);
        for (int i = 0; i < n; i++)
            L::e32(pages, VoxelKey(12, i, 0, 0), 400, 30, 1);
        root_size = 32 * n;
        break;
    default: // negative and enormous sizes
        kind = "sizes";
        for (int i = 0; i < n; i++)
            L::e32(pages, VoxelKey(7, i, 0, 0), at + r.below(64 * n), (int32_t)hostile_int(r, 4, 32, img.size()), r.chance(50) ? -1 : (int32_t)hostile_int(r, 4, 1, 100));
        root_size = r.chance(50) ? 32 * n : hostile_int(r, 8, 32 * n, img.size());
    }
    img += pages;
    if (info)
    {
        memcpy(&img[info->payload + 40], &at, 8);
        memcpy(&img[info->payload + 48], &root_size, 8);
    }
    return img;
}

// ---- single records
static void records(Rng &r)
{
    B::Answers a;
    std::string junk;
    int n = (int)r.below(r.chance(80) ? 400 : 4000);
    for (int i = 0; i < n; i++)
        junk += r.chance(40) ? (char)0 : (char)r.next();
    Bytes bytes(junk.begin(), junk.end());
    int fmt = (int)r.range(6, 8);
    uint16_t ebn = r.oneof<uint16_t>({0, 1, 7, 100, (uint16_t)r.below(2000)});
    auto in = [&] { return std::istringstream(junk); };
    B::ask(a, "Points::Unpack", n, false, [&] { copc::las::Points::Unpack(bytes, (int8_t)fmt, ebn, Vector3(0.01, 0.01, 0.01), Vector3(0, 0, 0)); });
    bytes.resize(bytes.size() / (base_size(fmt) + ebn) * (base_size(fmt) + ebn));
    B::ask(a, "Points::Unpack whole", n, false, [&]
           {
               double s = hostile_double(r), o = hostile_double(r);
               auto p = copc::las::Points::Unpack(bytes, (int8_t)fmt, ebn, Vector3(s, s, s), Vector3(o, o, o));
               p.ToString();
               for (auto &q : p)
                   q->ToString();
               p.X();
               p.Pack(Vector3(s, s, s), Vector3(o, o, o));
           });
    B::ask(a, "Point::Unpack", n, false, [&] { auto s = in(); copc::las::Point::Unpack(s, (int8_t)r.range(-2, 12), Vector3(1, 1, 1), Vector3(0, 0, 0), ebn); });
    B::ask(a, "Entry::Unpack", n, false, [&] { auto s = in(); auto e = copc::Entry::Unpack(s); e.ToString(); copc::Node(e).ToString(); });
    B::ask(a, "DecompressBytes", n, false, [&] { copc::laz::Decompressor::DecompressBytes(Bytes(junk.begin(), junk.end()), (int8_t)fmt, ebn, (int)r.oneof<int64_t>({0, 1, 5, 1000000000, -1, INT32_MAX, INT32_MIN})); });
    B::ask(a, "CopcExtentsVlr", n, false, [&]
           {
               auto s = in();
               auto v = copc::las::CopcExtentsVlr::create(s, (int)junk.size());
               copc::CopcExtents e(v, (int8_t)r.range(5, 9), (uint16_t)r.below(20), r.chance(50));
               e.SetExtendedStats(v);
               e.ToString();
           });
    B::ask(a, "EbVlr", n, false, [&]
           {
               auto s = in();
               auto v = copc::las::EbVlr::create(s, (int)junk.size());
               copc::las::NumBytesFromExtraBytes(v.items);
           });
    B::ask(a, "LasHeader", n, false, [&]
           {
               auto s = in();
               lazperf::header14 h;
               h.read(s);
               if (r.chance(50))
               {
                   h.version = {1, 4};
                   h.header_size = 375;
                   h.global_encoding |= 16;
                   h.point_format_id = fmt;
               }
               auto x = copc::las::LasHeader::FromLazPerf(h);
               x.ToString();
               x.EbByteSize();
               copc::las::Points p(x);
               x.ToLazPerf(1, 2, 3, 4, true, false);
           });
    B::ask(a, "Points", n, false, [&] { copc::las::Points p((int8_t)r.range(-128, 127), (uint16_t)r.next()); p.CreatePoint(); });
    B::ask(a, "CopcInfo", n, false, [&] { auto s = in(); copc::CopcInfo i(lazperf::copc_info_vlr::create(s)); i.ToString(); });
    H::count("record-parses", 10);
    H::sig(H::hashs(junk, fmt));
}

void once_begin() { B::watch_heap(); }

void run_case(uint64_t n, Rng &r)
{
    if (r.chance(12))
    {
        records(r);
        return;
    }
    std::string img, what;
    bool copc = r.chance(80);
    std::vector<Field> fs;
    if (copc && r.chance(12))
    {
        std::string kind;
        img = page_bomb(r, kind);
        what = "pages-" + kind;
        H::note("mutation", what);
    }
    else
    {
        FG::Opt o;
        o.spatial = true;
        o.built = r.chance(60);
        o.maxn = r.chance(80) ? 8 : 40;
        o.stray = r.chance(20);
        std::vector<std::string> others;
        if (copc)
            img = FG::make(r, o).img;
        else
            img = make_laz(r);
        if (img.size() > 200000)
            return;
        if (r.chance(10))
            others.push_back(copc ? FG::make(r, o).img : make_laz(r));
        fs = fields(img, copc);
        int m = r.chance(50) ? 1 : (int)r.range(2, 6);
        if (r.chance(3))
            m = 0;
        for (int i = 0; i < m; i++)
        {
            std::string w = mutate(r, img, fs, others);
            H::note("mutation", w.substr(0, 40));
            what += w + "; ";
        }
    }
    B::Answers a = copc ? B::copc_all(r, img) : B::laz_all(r, img);
    if (copc && r.chance(30))
        B::laz_all(r, img);
    if (!copc && r.chance(20))
        B::copc_all(r, img);
    H::count("files");
    H::count("questions", a.worked + a.refused);
    H::count("refused", a.refused);
    if (a.worked + a.refused > 1)
        H::count("files-opened");
    if (!a.last.empty())
        H::note("message", a.last.substr(0, 60));
    H::sig(H::hashs(img));
    H::sample(std::string(copc ? "COPC " : "LAZ ") + std::to_string(img.size()) + " bytes: " + what + " -> " + std::to_string(a.worked) + " answers, " + std::to_string(a.refused) + " refusals " + a.last);
}
