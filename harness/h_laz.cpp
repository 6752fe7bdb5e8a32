// C05 LAZ write/read round trip, C06 Compressor/Decompressor.
#include "hist.hpp"
#include <filesystem>
using namespace W;
using copc::laz::Compressor;
using copc::laz::Decompressor;
using copc::las::LazConfigWriter;

static copc::las::LasHeader hdr(const LazConfigWriter &c) { return c.LasHeader(); }

// ---- C05
struct LModel
{
    Bytes raw;
    std::vector<Raw> pts;
    std::vector<uint64_t> counts, sizes;
};
static std::vector<Raw> rand_pts(Rng &r, const Cfg &c, int n)
{
    std::vector<Raw> v;
    Raw base = rand_raw(r, c.ebn);
    for (int i = 0; i < n; i++)
    {
        if (r.chance(50))
            base = rand_raw(r, c.ebn);
        else
            base.y += (base.y < INT32_MAX);
        v.push_back(base);
    }
    return v;
}
template <typename S> static void laz_ops(copc::laz::LazWriter &w, Rng &r, const Cfg &c, LModel &m, int n, S &&state)
{
    for (int i = 0; i < n; i++)
    {
        int np = r.chance(90) ? (int)r.range(1, 9) : (int)r.range(10, 200);
        if (c.rec() > 300)
            np = (int)r.range(1, 4);
        auto pts = rand_pts(r, c, np);
        Bytes raw = to_raw(pts, c.fmt), packed = L::pack_chunk(raw, c.fmt, c.ebn);
        int kind = (int)r.below(6);
        switch (kind)
        {
        case 0:
        case 1:
            w.WritePoints(to_points(hdr(*w.LazConfig()), pts));
            break;
        case 2:
            w.WritePointsCompressed(packed, np);
            break;
        case 3:
        {
            uint64_t off = 0;
            int32_t size = 0;
            int32_t got = w.WriteChunk(raw, 0, false, &off, &size);
            EXPECT(got == np && size == (int)packed.size(), "chunk-result", "WriteChunk returned " << got << " points, " << size << " bytes; want " << np << ", " << packed.size());
            break;
        }
        case 4: // nothing to write
        {
            auto before = state();
            w.WritePoints(copc::las::Points(hdr(*w.LazConfig())));
            EXPECT(state() == before, "empty-write", "writing no points changed the output");
            continue;
        }
        case 5: // refused
        {
            auto before = state();
            bool t;
            switch (r.below(4))
            {
            case 0:
            case 1:
            {
                copc::las::Points p = misfit(r, c);
                t = throws([&] { w.WritePoints(p); });
                break;
            }
            case 2: t = throws([&] { w.WritePointsCompressed(packed, r.chance(50) ? 0 : -np); }); break;
            default:
                raw.pop_back();
                t = throws([&] { w.WriteChunk(raw); });
            }
            EXPECT(t, "bad-write-accepted", "a write that does not fit the file was accepted");
            EXPECT(state() == before, "bad-write-changed", "a refused write changed the output");
            H::count("rejections");
            continue;
        }
        }
        m.raw.insert(m.raw.end(), raw.begin(), raw.end());
        m.pts.insert(m.pts.end(), pts.begin(), pts.end());
        m.counts.push_back(np);
        m.sizes.push_back(packed.size());
        EXPECT(w.PointCount() == m.pts.size() && w.ChunkCount() == m.counts.size(), "writer-counts",
               "writer says " << w.PointCount() << " points, " << w.ChunkCount() << " chunks; wrote " << m.pts.size() << ", " << m.counts.size());
        H::count("chunks-written");
        H::note("write-kind", std::to_string(kind));
    }
}
static void check_laz(copc::laz::LazReader &rd, const Cfg &c, const Meta &m, const LModel &w, Rng &r)
{
    auto cfg = rd.LazConfig();
    auto h = cfg.LasHeader();
    auto d = diff_header(h, m);
    EXPECT(d.empty(), "header", d);
    EXPECT(h.PointCount() == w.pts.size() && h.PointFormatId() == c.fmt && h.PointRecordLength() == c.rec() && h.Scale() == c.scale && h.Offset() == c.offset && h.EbByteSize() == c.ebn,
           "header-fields", "point layout or count differs: " << h.ToString());
    EXPECT(cfg.Wkt() == c.wkt, "wkt", "got " << cfg.Wkt().size() << " bytes want " << c.wkt.size());
    auto eb = cfg.ExtraBytesVlr().items;
    EXPECT(eb.size() == c.eb.items.size(), "extra-bytes", eb.size() << " fields want " << c.eb.items.size());
    for (size_t i = 0; i < eb.size() && i < c.eb.items.size(); i++)
        EXPECT(same_eb(eb[i], c.eb.items[i]), "extra-bytes", "field " << i << " differs");
    int times = r.chance(40) ? 2 : 1;
    for (int t = 0; t < times; t++)
    {
        if (r.chance(50))
            EXPECT(rd.GetPointData() == w.raw, "point-data", "the point data differ (read " << t << ")");
        auto p = rd.GetPoints();
        EXPECT(p.Size() == w.pts.size() && p.PointFormatId() == c.fmt && p.PointRecordLength() == (uint32_t)c.rec(), "points-size", p.Size() << " points want " << w.pts.size());
        for (size_t i = 0; i < p.Size() && i < w.pts.size(); i++)
        {
            auto e = diff_point(*p[i], w.pts[i], c.fmt, c.scale, c.offset);
            EXPECT(e.empty(), "point-values", "point " << i << e);
            if (!e.empty())
                break;
        }
    }
    H::count("points-compared", w.pts.size() * times);
}
static void check_image(const std::string &img, const Cfg &c, const Meta &m, const LModel &w)
{
    auto p = L::parse(img, false);
    for (auto &e : p.err)
        H::violate("conformance:" + e.substr(0, e.find(':')), e);
    EXPECT(p.count == w.pts.size(), "file-point-count", p.count << " want " << w.pts.size());
    EXPECT(p.chunks.size() == w.counts.size(), "file-chunks", p.chunks.size() << " want " << w.counts.size());
    for (size_t i = 0; i < p.chunks.size() && i < w.counts.size(); i++)
        EXPECT(p.chunks[i].count == w.counts[i] && p.chunks[i].size == w.sizes[i], "file-chunk", "chunk " << i << " has " << p.chunks[i].count << " points in " << p.chunks[i].size << " bytes, wrote " << w.counts[i] << " in " << w.sizes[i]);
    EXPECT(p.guid == m.guid && p.sys == m.sys && p.gen == m.gen && p.source == m.source && p.encoding == (m.encoding | 16) && p.day == m.day && p.year == m.year && !memcmp(p.returns, m.by_return.data(), 120) &&
               p.mn[0] == m.min.x && p.mn[1] == m.min.y && p.mn[2] == m.min.z && p.mx[0] == m.max.x && p.mx[1] == m.max.y && p.mx[2] == m.max.z && p.scale[0] == c.scale.x && p.scale[1] == c.scale.y &&
               p.scale[2] == c.scale.z && p.off[0] == c.offset.x && p.off[1] == c.offset.y && p.off[2] == c.offset.z && (p.fmt & 0x7f) == c.fmt && p.rec_len == c.rec(),
           "file-header", "on-disk header fields differ");
    std::string wkt;
    size_t n_wkt = 0;
    for (auto &e : p.evlrs)
        if (e.user == "LASF_Projection" && e.id == 2112)
            wkt = img.substr(e.payload, e.size), n_wkt++;
    EXPECT(n_wkt == (c.wkt.empty() ? 0 : 1) && wkt == c.wkt, "file-wkt", n_wkt << " WKT records of " << wkt.size() << " bytes");
}
static void case_c05(Rng &r)
{
    if (r.chance(15)) // the points of a COPC file, read as the LAZ file it is
    {
        Script s = rand_script(r, false);
        s.file = false;
        auto R = execute(s, false, "copc:");
        LModel w;
        KeyMap<char> seen;
        std::vector<std::pair<uint64_t, VoxelKey>> order;
        for (auto &n : R.model.nodes)
            order.push_back({n.second.returned.offset, n.first});
        std::sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &o : order)
        {
            auto &n = R.model.nodes.at(o.second);
            w.raw.insert(w.raw.end(), n.raw.begin(), n.raw.end());
            w.pts.insert(w.pts.end(), n.pts.begin(), n.pts.end());
        }
        std::istringstream in(R.image);
        copc::laz::LazReader rd(&in);
        EXPECT(rd.GetPointData() == w.raw, "copc-as-laz", "a COPC file read as LAZ has other points");
        EXPECT(rd.GetPoints().Size() == w.pts.size(), "copc-as-laz", "a COPC file read as LAZ has " << rd.GetPoints().Size() << " points want " << w.pts.size());
        H::count("copc-as-laz");
        return;
    }
    Cfg c = rand_cfg(r);
    Meta m = rand_meta(r, 0);
    LazConfigWriter lc(c.fmt, c.scale, c.offset, c.wkt, c.eb);
    bool late = r.chance(50);
    if (!late)
        apply_header(*lc.LasHeader(), m);
    LModel w;
    std::string img, path;
    int n = r.chance(8) ? 0 : (int)r.range(1, r.chance(80) ? 8 : 30), mode = (int)r.below(3);
    bool file = r.chance(25);
    int late_at = (int)r.below(n + 1);
    auto run = [&](copc::laz::LazWriter &wr, auto state)
    {
        laz_ops(wr, r, c, w, late_at, state);
        if (late)
            apply_header(*wr.LazConfig()->LasHeader(), m);
        laz_ops(wr, r, c, w, n - late_at, state);
    };
    if (file)
    {
        path = H::tmpdir + "/l" + std::to_string(getpid()) + ".laz";
        {
            copc::laz::LazFileWriter wr(path, lc);
            EXPECT(wr.FilePath() == path, "file-path", wr.FilePath());
            run(wr, [&] { return std::make_pair(wr.PointCount(), wr.ChunkCount()); });
            if (mode != 2)
                wr.Close();
            if (mode == 1)
                wr.Close();
        }
        img = slurp(path);
    }
    else
    {
        std::stringstream ss;
        {
            copc::laz::LazWriter wr(ss, lc);
            run(wr, [&] { return std::make_tuple(ss.str(), (long long)ss.tellp(), wr.PointCount(), wr.ChunkCount()); });
            if (mode != 2)
                wr.Close();
            if (mode == 1)
            {
                std::string a = ss.str();
                wr.Close();
                EXPECT(a == ss.str(), "second-close", "a second Close changed the file");
            }
            if (mode != 2)
            {
                std::string a = ss.str();
                auto pts = rand_pts(r, c, 1);
                EXPECT(throws([&] { wr.WritePoints(to_points(hdr(*wr.LazConfig()), pts)); }), "write-after-close", "accepted");
                EXPECT(a == ss.str(), "write-after-close", "changed the finished file");
            }
        }
        img = ss.str();
    }
    check_image(img, c, m, w);
    if (file)
    {
        copc::laz::LazFileReader rd(path);
        EXPECT(rd.FilePath() == path, "file-path", rd.FilePath());
        check_laz(rd, c, m, w, r);
        rd.Close();
        rd.Close();
        unlink(path.c_str());
    }
    else
    {
        std::istringstream in(img);
        copc::laz::LazReader rd(&in);
        check_laz(rd, c, m, w, r);
    }
    H::note("format", std::to_string(c.fmt));
    H::note("chunks", std::to_string(w.counts.size()));
    if (!w.pts.empty())
        H::sig(H::hashs(img));
    std::ostringstream sm;
    sm << "fmt " << int(c.fmt) << " eb " << c.ebn << " chunks " << w.counts.size() << " points " << w.pts.size() << (file ? " file" : " stream");
    H::sample(sm.str());
}

// sizes at which 16 bit counts, or whole buffers, would overflow
static void case_c05_large(Rng &r, uint64_t n)
{
    Cfg c = rand_cfg(r, false);
    Meta m = rand_meta(r, 0);
    int kind = (int)((n + H::seed) % 4);
    if (kind == 3)
        c.wkt = std::string((size_t)r.range(65536, 200000), 'w') + c.wkt;
    while (kind < 3 && c.ebn > 8)
    {
        c.ebn -= eb_type_size(c.eb.items.back().data_type, c.eb.items.back().options);
        c.eb.items.pop_back();
    }
    LazConfigWriter lc(c.fmt, c.scale, c.offset, c.wkt, c.eb);
    apply_header(*lc.LasHeader(), m);
    LModel w;
    std::stringstream ss;
    {
        copc::laz::LazWriter wr(ss, lc);
        auto add = [&](int np)
        {
            auto pts = rand_pts(r, c, np);
            Bytes raw = to_raw(pts, c.fmt), packed = L::pack_chunk(raw, c.fmt, c.ebn);
            switch (r.below(3))
            {
            case 0: wr.WritePoints(to_points(hdr(*wr.LazConfig()), pts)); break;
            case 1: wr.WritePointsCompressed(packed, np); break;
            default: wr.WriteChunk(raw);
            }
            w.raw.insert(w.raw.end(), raw.begin(), raw.end());
            w.pts.insert(w.pts.end(), pts.begin(), pts.end());
            w.counts.push_back(np);
            w.sizes.push_back(packed.size());
        };
        if (kind == 0) // chunks
            for (int i = (int)r.range(65537, 70000); i > 0; i--)
                add(1);
        else if (kind == 1) // points in a chunk
        {
            add(3);
            add((int)r.range(65536, 150000));
            add(2);
        }
        else if (kind == 2) // sizes in between
            for (int i = 0; i < 6; i++)
                add((int)r.range(500, 12000));
        else
            add(5);
        EXPECT(wr.PointCount() == w.pts.size() && wr.ChunkCount() == w.counts.size(), "writer-counts", "writer says " << wr.PointCount() << " points, " << wr.ChunkCount() << " chunks");
        if (r.chance(50))
            wr.Close();
    }
    std::string img = ss.str();
    check_image(img, c, m, w);
    std::istringstream in(img);
    copc::laz::LazReader rd(&in);
    check_laz(rd, c, m, w, r);
    H::note("large", std::to_string(kind));
    H::count("large-files");
    H::sig(H::hashs(img));
}

// ---- C06
static void case_c06(Rng &r, bool large = false)
{
    int fmt = (int)r.range(6, 8);
    int ebn = r.chance(40) ? 0 : r.chance(85) ? (int)r.range(1, 64) : (int)r.range(65, 3000);
    int rec = base_size(fmt) + ebn;
    int n = r.chance(10) ? 0 : r.chance(85) ? (int)r.range(1, 40) : (int)r.range(41, ebn > 300 ? 60 : 1500);
    if (large)
    {
        ebn = (int)r.below(20);
        rec = base_size(fmt) + ebn;
        n = r.chance(50) ? (int)r.range(65536, 140000) : (int)r.range(2000, 65535);
    }
    std::vector<Raw> pts;
    Raw base = rand_raw(r, ebn);
    int fresh = (int)r.oneof({100, 50, 10, 0});
    for (int i = 0; i < n; i++)
    {
        if (r.chance(fresh))
            base = rand_raw(r, ebn);
        pts.push_back(base);
    }
    Bytes raw = to_raw(pts, fmt);
    const Bytes keep = raw;
    copc::las::LasHeader h((int8_t)fmt, (uint16_t)rec, Vector3(1, 1, 1), Vector3(0, 0, 0), r.chance(50));
    // compress, every way
    Bytes a = Compressor::CompressBytes(raw, (int8_t)fmt, (uint16_t)ebn);
    Bytes b = Compressor::CompressBytes(raw, h);
    std::string pre;
    for (int i = (int)r.below(60); i > 0; i--)
        pre += (char)r.next();
    std::ostringstream out;
    out << pre;
    int32_t cnt = r.chance(50) ? Compressor::CompressBytes(out, (int8_t)fmt, (uint16_t)ebn, raw) : Compressor::CompressBytes(out, h, raw);
    EXPECT(cnt == n, "count", "CompressBytes returned " << cnt << " for " << n << " points");
    EXPECT(raw == keep, "input-changed", "compressing changed its input");
    EXPECT(a == b && out.str() == pre + std::string(a.begin(), a.end()), "overloads-differ", "the CompressBytes overloads differ");
    EXPECT(a == L::pack_chunk(raw, fmt, ebn), "not-the-codec", "the compressed chunk is not what the codec produces for these records");
    // several chunks behind each other
    Raw q = rand_raw(r, ebn);
    Bytes raw2 = to_raw({q, q}, fmt);
    cnt = Compressor::CompressBytes(out, (int8_t)fmt, (uint16_t)ebn, raw2);
    EXPECT(cnt == 2, "count", cnt);
    std::string img = out.str();
    size_t second = pre.size() + a.size();
    EXPECT(img.compare(0, second, pre + std::string(a.begin(), a.end())) == 0, "earlier-bytes", "a second chunk changed earlier bytes");
    for (int i = (int)r.below(40); i > 0; i--)
        img += (char)r.next();
    // decompress, every way, wherever the chunk is
    EXPECT(Decompressor::DecompressBytes(a, (int8_t)fmt, (uint16_t)ebn, n) == raw, "inverse", "fmt " << fmt << " eb " << ebn << " points " << n);
    EXPECT(Decompressor::DecompressBytes(a, h, n) == raw, "inverse", "header overload");
    std::istringstream in(img);
    for (int i = 0; i < 3; i++)
    {
        bool first = r.chance(50);
        in.clear();
        in.seekg(first ? pre.size() : second);
        Bytes got = r.chance(50) ? Decompressor::DecompressBytes(in, (int8_t)fmt, (uint16_t)ebn, first ? n : 2) : Decompressor::DecompressBytes(in, h, first ? n : 2);
        EXPECT(got == (first ? raw : raw2), "inverse-at-offset", "chunk at " << (first ? pre.size() : second));
        EXPECT(in.good(), "stream-state", "the input stream is not usable after decompressing: " << in.rdstate());
    }
    // a shorter count yields a prefix
    if (n > 1)
    {
        int k = (int)r.range(0, n - 1);
        Bytes got = Decompressor::DecompressBytes(a, (int8_t)fmt, (uint16_t)ebn, k);
        EXPECT(got == Bytes(raw.begin(), raw.begin() + (size_t)k * rec), "prefix", "first " << k << " of " << n);
    }
    if (r.chance(2)) // records of up to 65535 bytes
    {
        int e = r.chance(10) ? 65536 - base_size(fmt) : 65535 - base_size(fmt) + (int)r.range(-2, 2);
        Bytes one = to_raw({rand_raw(r, e)}, fmt);
        bool fits = base_size(fmt) + e <= 65535, t = false;
        try
        {
            Bytes z = Compressor::CompressBytes(one, (int8_t)fmt, (uint16_t)e);
            EXPECT(Decompressor::DecompressBytes(z, (int8_t)fmt, (uint16_t)e, 1) == one, "inverse", "eb " << e);
        }
        catch (const std::exception &)
        {
            t = true;
        }
        EXPECT(t == !fits, t ? "limit-refused" : "too-long-accepted", "records of " << base_size(fmt) + e);
        H::note("limit", fits ? "fits" : "refused");
    }
    // refusals
    Bytes ragged = raw2;
    ragged.resize(ragged.size() - r.range(1, rec - 1));
    std::ostringstream sink;
    sink << pre;
    copc::las::LasHeader raggedh((int8_t)fmt, (uint16_t)rec, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    int8_t badf = (int8_t)r.oneof({0, 1, 3, 5, 9, 10, -1, 127});
    EXPECT(throws([&] { Compressor::CompressBytes(ragged, (int8_t)fmt, (uint16_t)ebn); }), "ragged-accepted", ragged.size() << " bytes of records of " << rec);
    EXPECT(throws([&] { Compressor::CompressBytes(sink, (int8_t)fmt, (uint16_t)ebn, ragged); }), "ragged-accepted", "to a stream");
    EXPECT(throws([&] { Compressor::CompressBytes(sink, raggedh, ragged); }), "ragged-accepted", "to a stream, by header");
    EXPECT(throws([&] { Compressor::CompressBytes(ragged, raggedh); }), "ragged-accepted", "by header");
    EXPECT(throws([&] { Compressor::CompressBytes(sink, badf, (uint16_t)ebn, raw); }), "format-accepted", "compress to a stream, format " << int(badf));
    EXPECT(sink.str() == pre && sink.good() && (size_t)sink.tellp() == pre.size(), "refused-but-written", "refused input left " << sink.str().size() - pre.size() << " bytes on the output");
    EXPECT(throws([&] { Compressor::CompressBytes(raw, badf, (uint16_t)ebn); }), "format-accepted", "compress format " << int(badf));
    EXPECT(throws([&] { Decompressor::DecompressBytes(a, badf, (uint16_t)ebn, n); }), "format-accepted", "decompress format " << int(badf));
    H::note("format", std::to_string(fmt));
    H::note("extra-bytes", std::to_string(ebn));
    H::count("points", n);
    if (n)
        H::sig(hash_bytes(raw));
    std::ostringstream sm;
    sm << "fmt " << fmt << " eb " << ebn << " points " << n << " packed " << a.size() << " at offset " << pre.size();
    H::sample(sm.str());
}

void run_case(uint64_t n, Rng &r)
{
    if (H::mode == "C05") case_c05(r);
    else if (H::mode == "C05L") case_c05_large(r, n);
    else if (H::mode == "C06L") case_c06(r, true);
    else if (H::mode == "C06") case_c06(r);
    else abort();
}
