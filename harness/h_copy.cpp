// C30: files rewritten through a reader and a writer, over several generations.
#include "filegen.hpp"
#include <filesystem>
using namespace W;
namespace las = copc::las;
using FG::axis;

struct GNode
{
    VoxelKey page;
    std::vector<Raw> pts;
};
// What a file holds
struct Gen
{
    bool copc{true};
    std::string img;
    Cfg cfg;
    Meta meta;
    std::vector<copc::CopcExtent> ext;
    std::map<VoxelKey, GNode, KeyLess> nodes; // COPC
    std::vector<std::vector<Raw>> chunks;     // LAZ
    bool exact{false};
    size_t points() const
    {
        size_t n = 0;
        for (auto &x : nodes)
            n += x.second.pts.size();
        for (auto &x : chunks)
            n += x.size();
        return n;
    }
};
static std::string what_is(const Gen &g)
{
    std::ostringstream s;
    s << (g.copc ? "COPC " : "LAZ ") << int(g.cfg.fmt) << "+" << g.cfg.ebn << ", " << g.points() << " points in " << (g.copc ? g.nodes.size() : g.chunks.size());
    return s.str();
}

// The conversion from one file's points to another's. Coordinates between two integers may become either.
struct Conv
{
    Cfg from, to;
    bool same_grid() const { return from.scale == to.scale && from.offset == to.offset; }
    // 0: can't be stored, 1: can, 2: too close to tell
    int storable(const Raw &p) const
    {
        if (same_grid())
            return 1;
        int res = 1;
        const int32_t *v[3] = {&p.x, &p.y, &p.z};
        for (int a = 0; a < 3; a++)
        {
            long double t = target(*v[a], a), tol = tolerance(*v[a], a), hi = 2147483647.5L, lo = -2147483648.5L;
            if (t > hi + tol || t < lo - tol)
                return 0;
            if (t > hi - tol || t < lo + tol)
                res = 2;
        }
        return res;
    }
    long double target(int32_t v, int a) const
    {
        return ((long double)scaled(v, axis(from.scale, a), axis(from.offset, a)) - (long double)axis(to.offset, a)) / (long double)axis(to.scale, a);
    }
    long double tolerance(int32_t v, int a) const
    {
        double w = scaled(v, axis(from.scale, a), axis(from.offset, a));
        return 1e-6L + 1e-14L * (std::fabs(w) + std::fabs(axis(to.offset, a))) / axis(to.scale, a);
    }
    // Is q what p has become?
    std::string differs(const Raw &p, const Raw &q) const
    {
        std::ostringstream d;
        const int32_t *a[3] = {&p.x, &p.y, &p.z}, *b[3] = {&q.x, &q.y, &q.z};
        for (int i = 0; i < 3; i++)
        {
            if (same_grid() ? *a[i] != *b[i] : std::fabs((double)(target(*a[i], i) - *b[i])) > 0.5 + (double)tolerance(*a[i], i))
                d << " " << "xyz"[i] << " " << *a[i] << " -> " << *b[i] << (same_grid() ? "" : " on another grid");
        }
        if (p.intensity != q.intensity || p.returns != q.returns || p.flags != q.flags || p.cls != q.cls || p.user != q.user || p.angle != q.angle || p.psid != q.psid || !same_bytes(&p.gps, &q.gps, 8))
            d << " attributes";
        static const uint16_t none[3] = {0, 0, 0};
        if (to.fmt >= 7 && memcmp(q.rgb, from.fmt >= 7 ? p.rgb : none, 6))
            d << " colours";
        if (to.fmt == 8 && q.nir != (from.fmt == 8 ? p.nir : 0))
            d << " nir";
        if (q.eb != p.eb)
            d << " extra bytes";
        return d.str();
    }
};

// points of the target's format with the source's values, as a program would build them one by one
static copc::las::Points rebuild(const copc::las::Points &in, const copc::las::LasHeader &h)
{
    copc::las::Points out(h);
    for (auto &p : const_cast<copc::las::Points &>(in).Get())
    {
        auto q = out.CreatePoint();
        q->X(p->X());
        q->Y(p->Y());
        q->Z(p->Z());
        q->Intensity(p->Intensity());
        q->ReturnsBitField(p->ReturnsBitField());
        q->FlagsBitField(p->FlagsBitField());
        q->Classification(p->Classification());
        q->UserData(p->UserData());
        q->ScanAngle(p->ScanAngle());
        q->PointSourceId(p->PointSourceId());
        q->GPSTime(p->GPSTime());
        if (q->HasRgb() && p->HasRgb())
            q->Rgb(p->Red(), p->Green(), p->Blue());
        if (q->HasNir() && p->HasNir())
            q->Nir(p->Nir());
        q->ExtraBytes(p->ExtraBytes());
        out.AddPoint(q);
    }
    return out;
}

static bool trim(const Raw &p, const Cfg &c, const copc::Box &b)
{
    double x = scaled(p.x, c.scale.x, c.offset.x), y = scaled(p.y, c.scale.y, c.offset.y), z = scaled(p.z, c.scale.z, c.offset.z);
    return x >= b.x_min && x <= b.x_max && y >= b.y_min && y <= b.y_max && z >= b.z_min && z <= b.z_max;
}

static void check_copc(Gen &g, const Conv &cv, const std::map<VoxelKey, GNode, KeyLess> &want, const std::string &how)
{
    auto p = L::parse(g.img, true);
    for (auto &e : p.err)
        H::violate("conformance:" + e.substr(0, e.find(':')), how + ": " + e);
    EXPECT(p.count == g.points(), "file-points", how << ": header says " << p.count << " points, wrote " << g.points());
    std::istringstream in(g.img);
    copc::Reader rd(&in);
    check_config(rd.CopcConfig(), g.cfg, g.meta, g.ext, "");
    EXPECT(p.nodes.size() == want.size(), "nodes", how << ": " << p.nodes.size() << " nodes, want " << want.size());
    for (auto &x : want)
    {
        auto n = rd.FindNode(x.first);
        if (!n.IsValid() || !p.nodes.count(x.first))
        {
            H::violate("node-lost", how + ": " + ks(x.first));
            continue;
        }
        EXPECT(n.page_key == x.second.page && n.point_count == (int)x.second.pts.size(), "node", how << ": " << n.ToString() << " on " << ks(n.page_key) << ", want " << x.second.pts.size() << " points on " << ks(x.second.page));
        auto raw = rd.GetPointData(n);
        EXPECT((int)raw.size() == (int)x.second.pts.size() * g.cfg.rec(), "node-size", how << ": " << ks(x.first) << " has " << raw.size() << " bytes");
        if ((int)raw.size() != (int)x.second.pts.size() * g.cfg.rec())
            continue;
        auto &mine = g.nodes[x.first];
        for (size_t i = 0; i < x.second.pts.size(); i++)
        {
            mine.pts[i] = decode(raw.data() + i * g.cfg.rec(), g.cfg.fmt, g.cfg.ebn);
            auto d = cv.differs(x.second.pts[i], mine.pts[i]);
            EXPECT(d.empty(), "point", how << ": point " << i << " of " << ks(x.first) << d);
        }
        EXPECT(L::pack_chunk(raw, g.cfg.fmt, g.cfg.ebn) == Bytes(g.img.begin() + n.offset, g.img.begin() + n.offset + n.byte_size), "chunk", how << ": the chunk of " << ks(x.first) << " does not hold its records");
        H::count("points", x.second.pts.size());
    }
}

static void run(Rng &r)
{
    FG::Opt o;
    o.spatial = r.chance(85);
    o.built = r.chance(50);
    o.maxd = 4;
    o.maxn = 14;
    o.maxpts = 8;
    L::Layout lo;
    if (o.built && r.chance(40))
        lo.shuffle = r.chance(50), lo.unknown = r.chance(50), lo.gap = r.chance(50), lo.wkt_as_vlr = r.chance(50), lo.eb_as_evlr = r.chance(50);
    auto f = FG::make(r, o, lo);
    Gen g;
    g.img = f.img;
    g.cfg = f.cfg;
    g.meta = f.meta;
    g.exact = f.exact;
    if (!g.cfg.ebn)
        g.cfg.eb.items.clear();
    for (auto &n : f.nodes)
        g.nodes[n.key] = {n.page, n.pts};
    {
        std::istringstream in(g.img);
        copc::Reader rd(&in);
        for (auto &e : rd.CopcConfig().CopcExtents().Extents())
            g.ext.push_back(*e);
        g.cfg.ext_stats = rd.CopcConfig().CopcExtents().HasExtendedStats();
    }
    int gens = (int)r.range(1, 4);
    std::string path;
    for (int q = 0; q < gens; q++)
    {
        Gen t;
        t.exact = false;
        t.copc = r.chance(g.copc ? 75 : 60);
        t.cfg = g.cfg;
        t.meta = g.meta;
        t.ext = g.ext;
        std::string how = what_is(g) + " to " + (t.copc ? "COPC" : "LAZ");
        // what is to be different
        std::optional<int8_t> fmt;
        std::optional<Vector3> scale, offset;
        std::optional<std::string> wkt;
        std::optional<bool> stats;
        if (r.chance(30))
            fmt = t.cfg.fmt = (int8_t)r.range(6, 8);
        if (r.chance(20))
        {
            if (r.chance(70))
                scale = t.cfg.scale = r.chance(60) ? Vector3(g.cfg.scale.x * (1 << r.below(5)), g.cfg.scale.y * 10, g.cfg.scale.z / (1 << r.below(3))) : rand_scale(r);
            if (r.chance(60))
                offset = t.cfg.offset = r.chance(70) ? Vector3(g.cfg.offset.x + (double)r.range(-1000, 1000), g.cfg.offset.y + r.unit(), g.cfg.offset.z) : rand_offset(r);
        }
        if (r.chance(20))
            wkt = t.cfg.wkt = rand_wkt(r);
        if (t.copc && r.chance(20))
            stats = t.cfg.ext_stats = r.chance(50);
        Conv cv{g.cfg, t.cfg};
        bool identical = g.cfg.fmt == t.cfg.fmt && cv.same_grid();
        // which points
        int sel = (int)r.below(5);
        int level = g.copc && sel == 2 ? (int)r.below(5) : -1;
        bool boxed = g.exact && sel == 3;
        copc::Box box = copc::Box::MaxBox();
        if (boxed)
        {
            double s = f.span;
            auto at = [&](double mn) { return mn + std::floor(r.unit() * s * 4) / 4; };
            double a[3] = {at(g.meta.min.x), at(g.meta.min.y), at(g.meta.min.z)}, b[3] = {at(g.meta.min.x), at(g.meta.min.y), at(g.meta.min.z)};
            box = copc::Box(std::min(a[0], b[0]), std::min(a[1], b[1]), std::min(a[2], b[2]), std::max(a[0], b[0]), std::max(a[1], b[1]), std::max(a[2], b[2]));
        }
H::note("conversion", std::string(g.copc ? "COPC" : "LAZ") + ">" + (t.copc ? "COPC " : "LAZ ") + std::to_string(g.cfg.fmt) + ">" + std::to_string(t.cfg.fmt));
        if (fmt) H::note("change", "format");
        if (scale) H::note("change", "scale");
        if (offset) H::note("change", "offset");
        if (wkt) H::note("change", "wkt");
        if (stats) H::note("change", "statistics");
        H::note("selection", boxed ? "box" : sel == 1 ? "random" : level >= 0 ? "level" : "all");

        // the source, through a stream or a file
        std::istringstream in(g.img);
        std::unique_ptr<copc::Reader> rd;
        std::unique_ptr<copc::laz::LazReader> lr;
        if (r.chance(25))
        {
            path = H::tmpdir + "/copy_in.laz";
            std::ofstream(path, std::ios::binary).write(g.img.data(), g.img.size());
            if (g.copc)
                rd = std::make_unique<copc::FileReader>(path);
            if (!g.copc || r.chance(20))
                lr = std::make_unique<copc::laz::LazFileReader>(path);
        }
        else
        {
            if (g.copc)
                rd = std::make_unique<copc::Reader>(&in);
            else
                lr = std::make_unique<copc::laz::LazReader>(&in);
        }
        // the target's configuration out of the source's
        bool ctor = t.copc && g.copc; // overrides when the writer is made, or before
        std::unique_ptr<copc::CopcConfigWriter> cc;
        std::unique_ptr<copc::las::LazConfigWriter> lc;
        auto header = g.copc ? rd->CopcConfig().LasHeader() : lr->LazConfig().LasHeader();
        auto eb = g.copc ? rd->CopcConfig().ExtraBytesVlr() : lr->LazConfig().ExtraBytesVlr();
        auto derive = [&](const std::vector<copc::CopcExtent> &e)
        {
            std::vector<copc::CopcExtent> n(base_dims(t.cfg.fmt) + t.cfg.eb.items.size());
            int sb = base_dims(g.cfg.fmt), tb = base_dims(t.cfg.fmt);
            for (int i = 0; i < std::min(sb, tb); i++)
                n[i] = e[i];
            for (size_t i = 0; i < t.cfg.eb.items.size(); i++)
                n[tb + i] = e[sb + i];
            if (!g.cfg.ext_stats) // which no file kept
                for (auto &x : n)
                    x.mean = 0, x.var = 1;
            return n;
        };
        las::LasHeader changed(header, t.cfg.fmt, (uint16_t)t.cfg.rec(), t.cfg.scale, t.cfg.offset);
        std::string text = t.cfg.wkt;
        if (!wkt)
            text = g.copc ? rd->CopcConfig().Wkt() : lr->LazConfig().Wkt();
        if (t.copc && g.copc)
        {
            cc = std::make_unique<copc::CopcConfigWriter>(rd->CopcConfig());
            t.ext = derive(g.ext);
        }
        else if (t.copc)
        {
            t.meta = rand_meta(r, base_dims(t.cfg.fmt) + t.cfg.eb.items.size());
            auto keep = g.meta;
            keep.cx = t.meta.cx, keep.cy = t.meta.cy, keep.cz = t.meta.cz, keep.half = t.meta.half, keep.spacing = t.meta.spacing, keep.ext = t.meta.ext;
            t.meta = keep;
            t.ext = t.meta.ext;
            copc::CopcInfo info;
            info.center_x = t.meta.cx, info.center_y = t.meta.cy, info.center_z = t.meta.cz, info.halfsize = t.meta.half, info.spacing = t.meta.spacing;
            copc::CopcExtents e(t.cfg.fmt, (uint16_t)t.cfg.eb.items.size(), t.cfg.ext_stats);
            for (size_t i = 0; i < t.ext.size(); i++)
                *e.Extents()[i] = t.ext[i];
            cc = std::make_unique<copc::CopcConfigWriter>(changed, info, e, text, eb);
        }
        else if (g.copc && r.chance(50) && !fmt && !scale && !offset && !wkt)
            lc = std::make_unique<copc::las::LazConfigWriter>(rd->CopcConfig());
        else
            lc = std::make_unique<copc::las::LazConfigWriter>(copc::las::LazConfig(changed, text, eb));
        if (!t.copc && g.copc)
        {
            t.cfg.ext_stats = false;
            t.ext.clear();
        }
        if (r.chance(25)) // and header fields of its own
        {
            auto m = rand_meta(r, 0);
            m.cx = t.meta.cx, m.cy = t.meta.cy, m.cz = t.meta.cz, m.half = t.meta.half, m.spacing = t.meta.spacing, m.ext = t.meta.ext;
            t.meta = m;
            apply_header(t.copc ? *cc->LasHeader() : *lc->LasHeader(), m);
        }
        // the target
        std::stringstream out;
        std::unique_ptr<copc::Writer> w;
        std::unique_ptr<copc::laz::LazWriter> lw;
        bool to_file = r.chance(25);
        std::string opath = H::tmpdir + "/copy_out.laz";
        copc::FileWriter *fw = nullptr;
        copc::laz::LazFileWriter *flw = nullptr;
        if (t.copc)
        {
            if (!ctor)
                fmt.reset(), scale.reset(), offset.reset(), wkt.reset(), stats.reset();
            std::optional<copc::las::EbVlr> neb;
            if (to_file)
                w.reset(fw = new copc::FileWriter(opath, *cc, fmt, scale, offset, wkt, neb, stats));
            else
                w = std::make_unique<copc::Writer>(out, *cc, fmt, scale, offset, wkt, neb, stats);
            if (r.chance(50))
                cc.reset();
        }
        else
        {
            if (to_file)
                lw.reset(flw = new copc::laz::LazFileWriter(opath, *lc));
            else
                lw = std::make_unique<copc::laz::LazWriter>(out, *lc);
            if (r.chance(50))
                lc.reset();
        }
        las::LasHeader target = t.copc ? static_cast<const copc::CopcConfigWriter &>(*w->CopcConfig()).LasHeader() : static_cast<const copc::las::LazConfigWriter &>(*lw->LazConfig()).LasHeader();
        EXPECT(target.PointFormatId() == t.cfg.fmt && target.PointRecordLength() == t.cfg.rec() && target.Scale() == t.cfg.scale && target.Offset() == t.cfg.offset, "target-layout", how << ": " << target.ToString());

        // one batch of points to the target; tells whether it was taken
        std::map<VoxelKey, GNode, KeyLess> want; // in the source's terms
        std::vector<std::vector<Raw>> want_chunks;
        int sub = 0;
        auto put = [&](const VoxelKey &key, const VoxelKey &page, const std::vector<Raw> &pts, int kind, const Bytes &packed, const Bytes &raw, las::Points points) -> void
        {
            int can = 1;
            if (kind == 2)
                for (auto &p : pts)
                {
                    int s = cv.storable(p);
                    can = s == 0 || can == 0 ? 0 : s == 2 ? 2 : can;
                }
            std::string err;
            try
            {
                if (kind == 0)
                    t.copc ? (void)w->AddNodeCompressed(key, packed, (int)pts.size(), page) : lw->WritePointsCompressed(packed, (int)pts.size());
                else if (kind == 1 && t.copc)
                    w->AddNode(key, raw, page);
                else if (kind == 1)
                    lw->WriteChunk(raw);
                else
                {
                    if (r.chance(40))
                        points = rebuild(points, target);
                    else if (points.PointFormatId() != t.cfg.fmt)
                        points.ToPointFormat(t.cfg.fmt);
                    t.copc ? (void)w->AddNode(key, points, page) : lw->WritePoints(points);
                }
            }
            catch (const std::exception &e)
            {
                err = e.what();
            }
            EXPECT(can == 2 || err.empty() == (can == 1), can ? "refused" : "unstorable-accepted", how << ": " << err);
            H::note("transfer", std::string(kind == 0 ? "compressed" : kind == 1 ? "bytes" : "points") + (err.empty() ? "" : " refused"));
            if (!err.empty())
            {
                H::count("refused");
                return;
            }
            if (t.copc)
                want[key] = {page, pts};
            else
                want_chunks.push_back(pts);
            sub++;
        };
        auto as_points = [&](const std::vector<Raw> &pts) { return las::Points::Unpack(to_raw(pts, g.cfg.fmt), header); };
        if (g.copc)
        {
            std::vector<Node> list;
            if (level >= 0 && g.meta.spacing > 1e-100 && g.meta.spacing < 1e100)
                list = rd->GetNodesWithinResolution(std::ldexp(g.meta.spacing, -level));
            else
                level = -1, list = rd->GetAllNodes();
            int deepest = -1;
            for (auto &x : g.nodes)
                deepest = std::max(deepest, x.first.d);
            std::set<VoxelKey, KeyLess> listed;
            for (auto &n : list)
                EXPECT(listed.insert(n.key).second, "listed-twice", how << ": " << ks(n.key));
            for (auto &x : g.nodes)
                EXPECT(listed.count(x.first) == (level < 0 || x.first.d <= std::min(level, deepest)), "listing", how << ": " << ks(x.first) << " to level " << level);
            EXPECT(listed.size() <= g.nodes.size(), "listing", how);
            r.shuffle(list);
            for (auto &n : list)
            {
                auto it = g.nodes.find(n.key);
                if (it == g.nodes.end())
                    continue;
                std::vector<Raw> pts = it->second.pts;
                if (pts.empty() || (sel == 1 && r.chance(50)))
                    continue;
                VoxelKey page = r.chance(80) ? n.page_key : VoxelKey(0, 0, 0, 0);
                int kind = boxed || !identical ? 2 : (int)r.below(3);
                Bytes packed, raw;
                las::Points p(header);
                if (kind == 0)
                    packed = r.chance(50) ? rd->GetPointDataCompressed(n) : rd->GetPointDataCompressed(n.key);
                else if (kind == 1)
                    raw = r.chance(50) ? rd->GetPointData(n) : rd->GetPointData(n.key);
                else
                    p = r.chance(50) ? rd->GetPoints(n) : rd->GetPoints(n.key);
                if (boxed)
                {
                    std::vector<Raw> in_box;
                    for (auto &x : pts)
                        if (trim(x, g.cfg, box))
                            in_box.push_back(x);
                    auto got = p.GetWithin(box);
                    p = las::Points(header);
                    p.AddPoints(got);
                    EXPECT(p.Size() == in_box.size(), "trimmed", how << ": " << p.Size() << " of " << pts.size() << " points in the box, want " << in_box.size());
                    pts = in_box;
                    if (p.Size() == 0)
                        continue;
                }
                put(n.key, page, pts, kind, packed, raw, p);
                if (r.chance(25)) // what became of them is not the reader's concern
                {
                    for (auto &x : p.Get())
                        x->X(x->X() + 1), x->Intensity(x->Intensity() ^ 1), x->Classification(1);
                    auto again = r.chance(50) ? rd->GetPoints(n) : rd->GetPoints(n.key);
                    EXPECT(again.PointFormatId() == g.cfg.fmt && again.Size() == it->second.pts.size() && again.Pack(header) == to_raw(it->second.pts, g.cfg.fmt), "source-points", how << ": " << ks(n.key) << " read again gives other points");
                    H::count("read-again");
                }
                if (t.copc && r.chance(5) && want.count(n.key))
                {
                    w->ChangeNodePage(n.key, VoxelKey(0, 0, 0, 0));
                    want[n.key].page = VoxelKey(0, 0, 0, 0);
                }
            }
            if (lr)
            {
                auto p = lr->GetPoints();
                EXPECT(p.Size() == g.points(), "copc-as-laz", how << ": " << p.Size() << " points, want " << g.points());
            }
        }
        else
        {
            std::vector<Raw> all;
            for (auto &c : g.chunks)
                all.insert(all.end(), c.begin(), c.end());
            bool bytes = r.chance(40);
            Bytes raw = bytes || identical ? lr->GetPointData() : Bytes();
            auto p = lr->GetPoints();
            EXPECT(p.Size() == all.size() && (!bytes || raw.size() == all.size() * g.cfg.rec()), "laz-points", how << ": " << p.Size() << " points, want " << all.size());
            size_t i = 0;
            KeySet used;
            while (i < all.size() && i < p.Size())
            {
                size_t n = std::min<size_t>(all.size() - i, r.range(1, 9));
                std::vector<Raw> pts(all.begin() + i, all.begin() + i + n);
                VoxelKey key = random_key(r, 5);
                if (t.copc && !used.insert(key).second)
                    continue;
                int kind = identical && raw.size() == all.size() * g.cfg.rec() ? (int)r.below(3) : 2;
                Bytes part = kind == 2 ? Bytes() : Bytes(raw.begin() + i * g.cfg.rec(), raw.begin() + (i + n) * g.cfg.rec());
                las::Points some(header);
                for (size_t k = i; kind == 2 && k < i + n; k++)
                    some.AddPoint(p[k]);
                i += n;
                if (sel == 1 && r.chance(50))
                    continue;
                Bytes packed = kind == 0 ? copc::laz::Compressor::CompressBytes(part, header) : Bytes();
                put(key, up(key, (int)r.below(key.d + 1)), pts, kind, packed, part, some);
            }
        }
        // the source is as it was
        if (g.copc)
        {
            check_config(rd->CopcConfig(), g.cfg, g.meta, g.ext, "source:");
            EXPECT(rd->GetAllNodes().size() == g.nodes.size(), "source-nodes", how);
        }
        else
        {
            auto d = diff_header(lr->LazConfig().LasHeader(), g.meta);
            std::vector<Raw> all;
            for (auto &c : g.chunks)
                all.insert(all.end(), c.begin(), c.end());
            EXPECT(lr->GetPoints().Pack(header) == to_raw(all, g.cfg.fmt), "source-points", how << ": the file's points have changed");
            EXPECT(d.empty() && lr->LazConfig().LasHeader().PointFormatId() == g.cfg.fmt && lr->LazConfig().LasHeader().Scale() == g.cfg.scale && lr->LazConfig().Wkt() == g.cfg.wkt, "source-config", how << d);
        }
        bool first = r.chance(30); // the reader goes first
        if (first)
            rd.reset(), lr.reset();
        if (fw) fw->Close();
        else if (flw) flw->Close();
        else if (w) w->Close();
        else lw->Close();
        w.reset(), lw.reset();
        t.img = to_file ? slurp(opath) : out.str();
        if (t.copc)
        {
            t.nodes = want;
            check_copc(t, cv, want, how);
        }
        else
        {
            t.chunks = want_chunks;
            auto p = L::parse(t.img, false);
            for (auto &e : p.err)
                H::violate("conformance:" + e.substr(0, e.find(':')), how + ": " + e);
            EXPECT(p.count == t.points() && p.chunks.size() == want_chunks.size(), "laz-shape", how << ": " << p.count << " points in " << p.chunks.size() << " chunks, want " << t.points() << " in " << want_chunks.size());
            std::istringstream back(t.img);
            copc::laz::LazReader z(&back);
            auto c = z.LazConfig();
            auto h = c.LasHeader();
            auto d = diff_header(h, t.meta);
            EXPECT(d.empty() && h.PointFormatId() == t.cfg.fmt && h.PointRecordLength() == t.cfg.rec() && h.Scale() == t.cfg.scale && h.Offset() == t.cfg.offset && c.Wkt() == t.cfg.wkt, "laz-config", how << d);
            auto items = c.ExtraBytesVlr().items;
            EXPECT(items.size() == t.cfg.eb.items.size(), "laz-extra-bytes", how);
            for (size_t i = 0; i < items.size() && i < t.cfg.eb.items.size(); i++)
                EXPECT(same_eb(items[i], t.cfg.eb.items[i]), "laz-extra-bytes", how << ": field " << i);
            auto raw = z.GetPointData();
            size_t rec = t.cfg.rec(), at = 0;
            EXPECT(raw.size() == t.points() * rec, "laz-data", how << ": " << raw.size() << " bytes, want " << t.points() * rec);
            for (auto &ch : t.chunks)
                for (auto &x : ch)
                {
                    if (at + rec > raw.size())
                        break;
                    Raw y = decode(raw.data() + at, t.cfg.fmt, t.cfg.ebn);
                    auto e = cv.differs(x, y);
                    EXPECT(e.empty(), "point", how << ": point " << at / rec << e);
                    x = y;
                    at += rec;
                    H::count("points");
                }
        }
        H::count("rewritten");
        if (q == 0)
            H::sig(H::hashs(t.img));
        // statistics a file without them does not keep
        if (t.copc && !t.cfg.ext_stats)
            for (auto &x : t.ext)
                x.mean = 0, x.var = 1;
        g = t;
    }
    H::note("generations", std::to_string(gens));
    H::sample(what_is(g));
}

void run_case(uint64_t, Rng &r)
{
    if (H::mode == "C30") run(r);
    else abort();
}
