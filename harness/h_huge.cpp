// Files longer than 2 and 4 GiB with more points than 32 bits count, on a stream that stores only what isn't zero.
// C01H: COPC writer and reader.  C02H: the layout of such files.  C05H: LAZ writer.  C29H: files of another producer with far away parts.
#include "filegen.hpp"
#include "huge.hpp"
using namespace W;

static const uint64_t G2 = 1ull << 31, G4 = 1ull << 32;

struct Part
{
    VoxelKey key, page;
    bool huge;
    std::vector<Raw> pts;
    Bytes raw;
    uint64_t offset, size, count;
};

// what every LAZ file says about its chunks and records
static uint64_t check_frame(const HugeBuf &b, const Cfg &c, const std::vector<Part> &parts, uint64_t total)
{
    uint32_t po = b.at<uint32_t>(96);
    EXPECT(b.at<uint64_t>(247) == total, "point-count", b.at<uint64_t>(247) << " of " << total);
    EXPECT(b.at<uint32_t>(107) == (total > 0xffffffffull ? 0 : total), "legacy-count", b.at<uint32_t>(107) << " for " << total);
    uint64_t table = b.at<uint64_t>(po), o = po + 8;
    uint64_t sum = 0;
    for (auto &p : parts)
    {
        EXPECT(p.offset == o + sum, "chunk-offset", "said to be at " << p.offset << ", is at " << o + sum);
        sum += p.size;
    }
    EXPECT(table == o + sum, "chunk-table-offset", table << " instead of " << o + sum);
    if (table != o + sum)
        return 0;
    EXPECT(b.at<uint32_t>(table) == 0 && b.at<uint32_t>(table + 4) == parts.size(), "chunk-table", b.at<uint32_t>(table + 4) << " chunks of " << parts.size());
    std::istringstream in(b.bytes(table + 8, 1 << 20));
    lazperf::InFileStream s(in);
    auto t = lazperf::decompress_chunk_table(s.cb(), (uint32_t)parts.size(), true);
    for (size_t i = 0; i < parts.size() && i < t.size(); i++)
        EXPECT(t[i].count == parts[i].count && t[i].offset == parts[i].size, "chunk-table",
               "chunk " << i << " has " << t[i].count << " points in " << t[i].offset << " bytes, wrote " << parts[i].count << " in " << parts[i].size);
    uint64_t ev = b.at<uint64_t>(235);
    uint32_t n = b.at<uint32_t>(243);
    EXPECT(n == 0 || ev > table, "evlr-offset", ev << ", chunk table at " << table);
    bool wkt = false;
    for (uint32_t i = 0; i < n && ev + 60 <= b.size; i++)
    {
        if (b.bytes(ev + 2, 15) == "LASF_Projection")
            wkt = b.bytes(ev + 60, b.at<uint64_t>(ev + 20)) == c.wkt;
        ev += 60 + b.at<uint64_t>(ev + 20);
    }
    EXPECT(n == 0 || ev == b.size, "evlr-chain", "ends at " << ev << " of " << b.size);
    EXPECT(c.wkt.empty() || wkt, "wkt", "not in the file");
    H::count("frames");
    return table;
}
static uint64_t pick_size(Rng &r, uint64_t so_far)
{
    // often up to just below, or just past, a boundary
    for (uint64_t g : {G2, G4})
        if (so_far < g && g - so_far < 900000000 && r.chance(50))
            return r.chance(50) || g - so_far < 200 ? g - so_far + r.below(200) : g - so_far - r.below(200);
    return 300000000 + r.below(500000000);
}
static void note(uint64_t at)
{
    H::note("place", at < G2 ? "below 2 GiB" : at < G4 ? "from 2 GiB" : "from 4 GiB");
}

static void case_c01(Rng &r)
{
    Cfg c = rand_cfg(r, false);
    HugeBuf buf;
    std::vector<Part> parts;
    uint64_t total = 0;
    int n = (int)r.range(6, 18);
    uint64_t want = r.chance(25) ? G2 : r.chance(75) ? G4 : G4 + G2;
    {
        std::ostream out(&buf);
        auto cfg = make_cfg(c);
        copc::Writer w(out, cfg);
        KeySet used;
        std::vector<char> zeros;
        uint64_t past = 0;
        for (int i = 0; i < 40 && (i < n || past < want || past > want + 400); i++)
        {
            Part p;
            do
                p.key = random_key(r, 6);
            while (!used.insert(p.key).second);
            p.page = r.chance(60) ? VoxelKey::RootKey() : up(p.key, (int)r.below(p.key.d + 1));
            p.huge = past < want && r.chance(60);
            Node nd;
            if (p.huge)
            {
                p.size = pick_size(r, buf.size);
                p.count = r.chance(70) ? r.range(1000000000, INT32_MAX) : r.range(1, 100);
                zeros.clear();
                zeros.resize(p.size);
                nd = w.AddNodeCompressed(p.key, zeros, (int32_t)p.count, p.page);
            }
            else
            {
                p.pts.resize(r.range(1, 5));
                for (auto &q : p.pts)
                    q = rand_raw(r, c.ebn);
                p.raw = to_raw(p.pts, c.fmt);
                p.count = p.pts.size();
                p.size = L::pack_chunk(p.raw, c.fmt, c.ebn).size();
                nd = w.AddNode(p.key, p.raw, p.page);
            }
            p.offset = buf.size - p.size;
            EXPECT(nd.offset == p.offset && nd.byte_size == (int64_t)p.size && nd.point_count == (int64_t)p.count, "node-returned", nd.ToString() << " at " << p.offset << ", " << p.size << " bytes");
            total += p.count;
            past = buf.size;
            note(p.offset);
            parts.push_back(p);
            if (past > want)
                want = past; // the rest is small
        }
        if (r.chance(80))
            w.Close();
    }
    H::sig(H::mix(buf.size, total));
    H::count("huge-files");
    H::sample("COPC of " + std::to_string(buf.size) + " bytes, " + std::to_string(parts.size()) + " nodes, " + std::to_string(total) + " points");
    if (H::mode == "C02H")
    {
        check_frame(buf, c, parts, total);
        return;
    }
    std::istream in(&buf);
    copc::Reader rd(&in);
    auto h = rd.CopcConfig().LasHeader();
    EXPECT(h.PointCount() == total, "header-point-count", h.PointCount() << " of " << total);
    EXPECT(h.EvlrOffset() == buf.at<uint64_t>(235), "evlr-offset", h.EvlrOffset());
    EXPECT(rd.CopcConfig().Wkt() == c.wkt, "wkt", rd.CopcConfig().Wkt());
    EXPECT(rd.GetAllNodes().size() == parts.size(), "nodes", rd.GetAllNodes().size() << " of " << parts.size());
    r.shuffle(parts);
    bool fetched = false;
    for (auto &p : parts)
    {
        auto nd = rd.FindNode(p.key);
        EXPECT(nd.IsValid() && nd.offset == p.offset && nd.byte_size == (int64_t)p.size && nd.point_count == (int64_t)p.count && nd.page_key == p.page, "node-entry",
               nd.ToString() << " page " << ks(nd.page_key) << "; wrote " << p.size << " at " << p.offset << " page " << ks(p.page));
        if (!nd.IsValid())
            continue;
        if (p.huge)
        {
            if (!fetched && r.chance(30))
            {
                auto d = rd.GetPointDataCompressed(nd);
                EXPECT(d.size() == p.size && HugeBuf::zero(d.data(), d.size()), "compressed-data", d.size() << " bytes of " << p.size);
                fetched = true;
            }
            continue;
        }
        EXPECT(rd.GetPointData(r.chance(50) ? nd : rd.FindNode(p.key)) == p.raw, "point-data", ks(p.key) << " at " << p.offset);
        auto pts = rd.GetPoints(p.key);
        EXPECT(pts.Size() == p.pts.size(), "points", ks(p.key));
        H::count("nodes-read-back");
    }
}

static void case_c05(Rng &r)
{
    Cfg c = rand_cfg(r, false);
    HugeBuf buf;
    std::vector<Part> parts;
    uint64_t total = 0, want = r.chance(25) ? G2 : r.chance(75) ? G4 : G4 + G2;
    copc::las::LazConfigWriter cfg(c.fmt, c.scale, c.offset, c.wkt, c.eb);
    {
        std::ostream out(&buf);
        copc::laz::LazWriter w(out, cfg);
        std::vector<char> zeros;
        int after = (int)r.below(4);
        for (int i = 0; i < 40 && (buf.size < want || after-- > 0); i++)
        {
            Part p;
            p.huge = buf.size < want && r.chance(70);
            if (p.huge)
            {
                p.size = pick_size(r, buf.size);
                p.count = r.chance(70) ? r.range(1000000000, INT32_MAX) : r.range(1, 100);
                zeros.clear();
                zeros.resize(p.size);
                w.WritePointsCompressed(zeros, (int32_t)p.count);
            }
            else
            {
                p.pts.resize(r.range(1, 5));
                for (auto &q : p.pts)
                    q = rand_raw(r, c.ebn);
                p.raw = to_raw(p.pts, c.fmt);
                p.count = p.pts.size();
                p.size = L::pack_chunk(p.raw, c.fmt, c.ebn).size();
                w.WritePoints(to_points(const_cast<const copc::las::LazConfigWriter &>(cfg).LasHeader(), p.pts));
            }
            p.offset = buf.size - p.size;
            note(p.offset);
            total += p.count;
            parts.push_back(p);
        }
        if (r.chance(80))
            w.Close();
    }
    check_frame(buf, c, parts, total);
    for (auto &p : parts)
        if (!p.huge)
            EXPECT(buf.bytes(p.offset, p.size) == std::string(L::pack_chunk(p.raw, c.fmt, c.ebn).data(), p.size), "chunk-data", "at " << p.offset);
    std::istream in(&buf);
    copc::laz::LazReader rd(&in);
    auto lc = rd.LazConfig();
    EXPECT(lc.LasHeader().PointCount() == total, "header-point-count", lc.LasHeader().PointCount() << " of " << total);
    EXPECT(lc.Wkt() == c.wkt, "wkt", lc.Wkt());
    H::sig(H::mix(buf.size, total));
    H::count("huge-files");
    H::sample("LAZ of " + std::to_string(buf.size) + " bytes, " + std::to_string(parts.size()) + " chunks, " + std::to_string(total) + " points");
}

// A file of the builder with holes torn into it: everything behind a hole moves by its length, chunk and record by chunk and record
static void case_c29(Rng &r)
{
    FG::Opt o;
    o.built = true;
    o.maxn = 12;
    o.maxpts = 4;
    L::Layout lo;
    lo.shuffle = r.chance(60);
    lo.one_evlr = r.chance(40);
    lo.unknown = true;
    lo.evlr_before = r.chance(70);
    lo.eb_as_evlr = r.chance(50);
    lo.wkt_as_vlr = r.chance(20);
    auto f = FG::make(r, o, lo);
    auto P = L::parse(f.img, true);
    // holes: at the ends of chunks (which grow), of unknown extended records (which grow), and in front of the table and the records
    std::map<uint64_t, uint64_t> holes;
    KeyMap<uint64_t> grown;
    std::vector<const FG::FNode *> with;
    for (auto &b : f.built)
        if (b.packed.size() && grown.size() < 3 && r.chance(30))
        {
            grown[b.key] = r.chance(60) ? (uint64_t)(INT32_MAX - (int64_t)b.packed.size() - (int64_t)r.below(3)) : r.below(1 << 30);
            holes[b.offset + b.packed.size()] += grown[b.key];
        }
    std::map<uint64_t, uint64_t> longer;
    for (auto &e : P.evlrs)
        if (e.user == "somebody" && r.chance(60))
        {
            longer[e.pos] = r.chance(50) ? G4 + r.below(100) - 50 : r.chance(50) ? G2 + r.below(100) - 50 : r.next() >> 28;
            holes[e.payload + e.size] += longer[e.pos];
        }
    if (r.chance(30))
        holes[P.chunk_table] += r.below(G4);
    if (r.chance(30) || holes.empty())
        holes[P.evlr_offset] += G4 - r.below(100);
    auto moved = [&](uint64_t at)
    {
        uint64_t d = 0;
        for (auto &h : holes)
            if (h.first <= at)
                d += h.second;
        return at + d;
    };
    HugeBuf buf;
    uint64_t from = 0;
    for (auto &h : holes)
    {
        buf.store(moved(from), f.img.data() + from, h.first - from);
        from = h.first;
    }
    buf.store(moved(from), f.img.data() + from, f.img.size() - from);
    buf.size = std::max(buf.size, moved(f.img.size() - 1) + 1);
    buf.set<uint64_t>(235, moved(P.evlr_offset));
    buf.set<uint64_t>(P.point_offset, moved(P.chunk_table));
    buf.set<uint64_t>(375 + 54 + 40, moved(P.root_off));
    for (auto &l : longer)
        buf.set<uint64_t>(moved(l.first) + 20, buf.at<uint64_t>(moved(l.first) + 20) + l.second);
    for (auto &e : P.evlrs)
        if (e.user == "copc" && e.id == 1000)
            for (uint64_t p = e.payload; p + 32 <= e.payload + e.size; p += 32)
            {
                auto q = moved(p);
                VoxelKey k(P.at<int32_t>(p), P.at<int32_t>(p + 4), P.at<int32_t>(p + 8), P.at<int32_t>(p + 12));
                auto off = P.at<uint64_t>(p + 16);
                auto cnt = P.at<int32_t>(p + 28);
                if (cnt == 0)
                    continue;
                buf.set<uint64_t>(q + 16, moved(off));
                if (cnt > 0 && grown.count(k))
                    buf.set<int32_t>(q + 24, P.at<int32_t>(p + 24) + (int32_t)grown[k]);
            }
    std::istream in(&buf);
    copc::Reader rd(&in);
    auto c = rd.CopcConfig();
    auto d = diff_header(c.LasHeader(), f.meta);
    EXPECT(d.empty(), "header", d);
    EXPECT(c.Wkt() == f.cfg.wkt, "wkt", c.Wkt().size() << " bytes of " << f.cfg.wkt.size());
    auto eb = c.ExtraBytesVlr();
    EXPECT(eb.items.size() == f.cfg.eb.items.size(), "extra-bytes", eb.items.size() << " of " << f.cfg.eb.items.size());
    EXPECT(c.LasHeader().EvlrOffset() == moved(P.evlr_offset), "evlr-offset", c.LasHeader().EvlrOffset());
    for (auto &n : f.nodes)
    {
        auto &b = f.built[f.index.at(n.key)];
        auto nd = rd.FindNode(n.key);
        EXPECT(nd.IsValid() && nd.point_count == b.count && (b.count == 0 || nd.offset == moved(b.offset)), "node-entry", ks(n.key) << " " << nd.ToString() << ", is at " << moved(b.offset));
        if (!nd.IsValid())
            continue;
        if (b.count)
            note(nd.offset);
        if (grown.count(n.key))
        {
            EXPECT(nd.byte_size == (int64_t)(b.packed.size() + grown[n.key]), "node-entry", nd.ToString());
            continue;
        }
        EXPECT(rd.GetPointData(nd) == n.raw, "node-data", ks(n.key) << " at " << nd.offset);
        EXPECT(rd.GetPointDataCompressed(nd) == b.packed, "node-data-compressed", ks(n.key) << " at " << nd.offset);
        H::count("nodes-read");
    }
    EXPECT(rd.GetAllNodes().size() == f.nodes.size(), "all-nodes", rd.GetAllNodes().size() << " of " << f.nodes.size());
    auto pl = rd.GetPageList();
    EXPECT(KeySet(pl.begin(), pl.end()) == f.pages && pl.size() == f.pages.size(), "page-list", pl.size() << " of " << f.pages.size());
    H::note("holes", std::to_string(holes.size()));
    H::sig(H::mix(buf.size, FG::sign(f)));
    H::count("huge-files");
    H::sample(FG::describe(f) + ", stretched to " + std::to_string(buf.size) + " bytes");
}

// A chunk whose length no hierarchy entry can hold is refused without effect
static void case_c19(Rng &r)
{
    Cfg c = rand_cfg(r, false);
    HugeBuf a, b;
    bool laz = r.chance(40);
    std::vector<std::vector<Raw>> pts(r.range(1, 4));
    for (auto &v : pts)
        for (int i = (int)r.range(1, 5); i; i--)
            v.push_back(rand_raw(r, c.ebn));
    size_t at = r.below(pts.size() + 1);
    uint64_t len = (uint64_t)INT32_MAX + 1 + (r.chance(50) ? 0 : r.below(100000000));
    auto history = [&](HugeBuf &buf, bool with)
    {
        std::ostream out(&buf);
        auto cfg = make_cfg(c);
        copc::las::LazConfigWriter lcfg(c.fmt, c.scale, c.offset, c.wkt, c.eb);
        std::unique_ptr<copc::Writer> w;
        std::unique_ptr<copc::laz::LazWriter> l;
        if (laz)
            l.reset(new copc::laz::LazWriter(out, lcfg));
        else
            w.reset(new copc::Writer(out, cfg));
        for (size_t i = 0; i <= pts.size(); i++)
        {
            if (with && i == at)
            {
                uint64_t size = buf.size, put = buf.put;
                bool threw = false;
                std::vector<char> big(len);
                try
                {
                    if (laz)
                        l->WritePointsCompressed(big, 5);
                    else
                        w->AddNodeCompressed(VoxelKey(3, 7, 7, 7), big, 5, r.chance(50) ? VoxelKey::RootKey() : VoxelKey(1, 1, 1, 1));
                }
                catch (const std::exception &)
                {
                    threw = true;
                }
                EXPECT(threw, "accepted", "a chunk of " << len << " bytes");
                EXPECT(buf.size == size && buf.put == put, "stream-changed", "a refused chunk of " << len << " bytes: stream of " << buf.size << " bytes at " << buf.put << ", was " << size << " at " << put);
                if (!laz)
                    EXPECT(!w->FindNode(VoxelKey(3, 7, 7, 7)).IsValid(), "node-left", "a node of a refused chunk");
                H::count("rejections");
            }
            if (i < pts.size())
            {
                if (laz)
                    l->WritePoints(to_points(const_cast<const copc::las::LazConfigWriter &>(lcfg).LasHeader(), pts[i]));
                else
                    w->AddNode(VoxelKey(2, (int)i, 0, 0), to_raw(pts[i], c.fmt));
            }
        }
        laz ? l->Close() : w->Close();
    };
    history(b, false);
    history(a, true);
    EXPECT(a.size == b.size && (a.size > (1 << 28) || a.bytes(0, a.size) == b.bytes(0, b.size)), "file-differs", a.size << " bytes, without the refused chunk " << b.size);
    H::sig(H::hashs(b.bytes(0, b.size)));
    H::sample(std::string(laz ? "LAZ" : "COPC") + ", a chunk of " + std::to_string(len) + " bytes refused");
}

void run_case(uint64_t n, Rng &r)
{
    if (H::mode == "C19H") return case_c19(r);
    if (H::mode == "C01H" || H::mode == "C02H") case_c01(r);
    else if (H::mode == "C05H") case_c05(r);
    else if (H::mode == "C29H") case_c29(r);
    else abort();
}
