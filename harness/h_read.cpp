// C03 hierarchy navigation, C13 spatial queries, C14 resolution queries, C15 bounds validation, C26 query order and
// failed queries, C29 every valid arrangement of a file.
#include "common.hpp"
#include "filegen.hpp"
#include "oom.hpp"
using namespace FG;

static bool same_keys(const std::vector<Node> &got, const KeySet &want, const std::string &key, const std::string &what)
{
    bool dup = false;
    KeySet g = key_set(got, &dup);
    EXPECT(!dup, key, what << " returned a node twice");
    EXPECT(g == want, key, what << " returned" << list(g) << " want" << list(want));
    return g == want && !dup;
}
static std::string pt_list(const copc::las::Points &p)
{
    std::ostringstream s;
    s << p.Size() << " points";
    return s.str();
}
// One line per point, as read through the library (identifies it by all of its values)
static std::string fp(const copc::las::Point &p)
{
    std::ostringstream s;
    s.precision(17);
    s << p.X() << "," << p.Y() << "," << p.Z() << "," << p.Intensity() << "," << int(p.ReturnsBitField()) << "," << int(p.FlagsBitField()) << ","
      << int(p.Classification()) << "," << p.ScanAngle() << "," << int(p.UserData()) << "," << p.PointSourceId() << "," << p.GPSTime();
    if (p.HasRgb())
        s << "," << p.Red() << "," << p.Green() << "," << p.Blue();
    if (p.HasNir())
        s << "," << p.Nir();
    for (auto b : p.ExtraBytes())
        s << "," << int(b);
    return s.str();
}
static std::multiset<std::string> fps(const copc::las::Points &p)
{
    std::multiset<std::string> m;
    for (auto &q : p)
        m.insert(fp(*q));
    return m;
}
static std::string ref_fp(const Raw &q, const Cfg &c)
{
    Bytes b;
    encode(b, q, c.fmt);
    auto p = copc::las::Points::Unpack(b, c.fmt, c.ebn, c.scale, c.offset);
    return fp(*p[0]);
}

static VoxelKey absent_key(Rng &r, const File &f)
{
    for (int i = 0; i < 50; i++)
    {
        VoxelKey k = f.nodes.empty() || r.chance(40) ? random_key(r, 7) : f.nodes[r.below(f.nodes.size())].key;
        if (r.chance(50))
            k = child(k, (int)r.below(8));
        else if (k.d > 0 && r.chance(50))
            k.x ^= 1;
        if (!f.find(k))
            return k;
    }
    return VoxelKey(20, 5, 6, 7);
}

// sizes at which 16 bit counts, or whole buffers, would overflow
static void enlarge(Rng &r, Opt &o, L::Layout &lo, int kind)
{
    if (!kind)
        return;
    o.maxpts = 1;
    o.many = kind == 1 ? (int)r.range(65537, 70000) : kind == 2 ? (int)r.range(4097, 9000) : kind == 3 ? (int)r.range(1000, 4097) : 0;
    o.big_node = kind == 4 ? (int)r.range(65536, 90000) : 0;
    if (kind == 3 || kind == 5)
    {
        o.long_wkt = (size_t)r.range(65536, 200000);
        lo.wkt_as_vlr = false;
        lo.big_evlr = (size_t)r.range(65536, 300000);
        lo.big_vlr = (size_t)r.range(60000, 65535);
        lo.many = (size_t)r.range(500, 3000);
    }
    H::note("large", std::to_string(kind));
    H::count("large-files");
}

// ---- C03
static void check_node(const Node &n, const FNode &w, const File &f, const std::string &what)
{
    EXPECT(n.IsValid() && !n.IsPage() && n.key == w.key && n.point_count == (int)w.pts.size(), "node-content", what << " " << ks(w.key) << ": " << n.ToString());
    EXPECT(n.page_key == w.page, "page-key", what << " " << ks(w.key) << " says page " << ks(n.page_key) << ", is in " << ks(w.page));
    if (!f.built.empty())
    {
        auto &b = f.built[f.index.at(w.key)];
        EXPECT(n.offset == b.offset && n.byte_size == (int)b.packed.size(), "node-location", what << " " << n.ToString());
    }
}
static void case_c03(Rng &r, int large = 0)
{
    Opt o;
    o.built = r.chance(60);
    o.empty_nodes = o.built && r.chance(30);
    o.maxn = 60;
    o.maxd = r.chance(80) ? 5 : 24;
    o.maxpts = 2;
    L::Layout lo;
    lo.shuffle = r.chance(60);
    lo.one_evlr = r.chance(30);
    enlarge(r, o, lo, large);
    File f = make(r, o, lo);
    std::istringstream in(f.img);
    copc::Reader rd(&in);
    KeySet all;
    for (auto &n : f.nodes)
        all.insert(n.key);
    std::vector<VoxelKey> pv(f.pages.begin(), f.pages.end());
    int q = (int)r.range(5, 25);
    bool whole = false;
    for (int i = 0; i < q; i++)
    {
        switch (r.below(whole ? 6 : 5))
        {
        case 0:
        case 1:
            if (!f.nodes.empty())
            {
                auto &w = r.pick(f.nodes);
                check_node(rd.FindNode(w.key), w, f, "FindNode");
                H::count("found");
            }
            break;
        case 2:
        {
            VoxelKey k = r.chance(15) ? r.oneof({VoxelKey(), VoxelKey(-1, 0, 0, 0), VoxelKey(2, -1, 0, 0), VoxelKey(1, 0, 0, -5)}) : absent_key(r, f);
            Node n = rd.FindNode(k);
            EXPECT(!n.IsValid(), "absent-found", "FindNode(" << ks(k) << ") " << n.ToString());
            EXPECT(rd.GetPointData(k).empty() && rd.GetPointDataCompressed(k).empty() && rd.GetPoints(k).Size() == 0, "absent-data", "data for absent " << ks(k));
            H::count("absent");
            break;
        }
        case 3:
        {
            VoxelKey p = r.pick(pv);
            KeySet want;
            for (auto &n : f.nodes)
                if (is_anc(p, n.page))
                    want.insert(n.key);
            auto got = rd.GetAllChildrenOfPage(p);
            if (same_keys(got, want, "page-children", "GetAllChildrenOfPage(" + ks(p) + ")"))
                for (auto &n : got)
                    check_node(n, *f.find(n.key), f, "GetAllChildrenOfPage");
            if (p.d == 0)
                whole = true;
            H::count("page-queries");
            H::note("page-nodes", std::to_string(want.size()));
            break;
        }
        case 4:
        {
            VoxelKey k = !f.nodes.empty() && r.chance(60) ? r.pick(f.nodes).key : absent_key(r, f);
            if (r.chance(5))
                k = VoxelKey();
            if (f.pages.count(k))
                break;
            KeySet want;
            if (f.find(k))
                want.insert(k);
            same_keys(rd.GetAllChildrenOfPage(k), want, "not-a-page", "GetAllChildrenOfPage(" + ks(k) + ")");
            H::count("non-page-queries");
            break;
        }
        case 5:
            break;
        }
        if (r.chance(6))
        {
            auto got = rd.GetAllNodes();
            if (same_keys(got, all, "all-nodes", "GetAllNodes"))
                for (auto &n : got)
                    check_node(n, *f.find(n.key), f, "GetAllNodes");
            whole = true;
        }
        if (r.chance(6))
        {
            auto l = rd.GetPageList();
            KeySet s(l.begin(), l.end());
            EXPECT(s == f.pages && l.size() == s.size(), "page-list", "GetPageList gave" << list(s) << " (" << l.size() << ") want" << list(f.pages));
            whole = true;
        }
    }
    auto got = rd.GetAllNodes();
    if (same_keys(got, all, "all-nodes", "GetAllNodes"))
        for (auto &n : got)
        {
            check_node(n, *f.find(n.key), f, "GetAllNodes");
            if (!f.find(n.key)->pts.empty() || r.chance(50))
                EXPECT(rd.GetPointData(n) == f.find(n.key)->raw, "node-data", ks(n.key) << " has other data");
        }
    auto l = rd.GetPageList();
    KeySet s(l.begin(), l.end());
    EXPECT(s == f.pages && l.size() == s.size(), "page-list", "GetPageList gave" << list(s) << " (" << l.size() << ") want" << list(f.pages));
    H::count("queries", q + 2);
    if (f.pages.size() > 1)
        H::sig(sign(f));
    H::sample(describe(f));
}

// ---- C13
// position of a against [lo,hi]: 1 inside, 0 outside, 2 too close to a face to call
static int pos(double a, double lo, double hi, bool exact)
{
    double eps = exact ? 0 : 1e-9 * std::max({1.0, std::fabs(a), std::fabs(lo) < 1e300 ? std::fabs(lo) : 0, std::fabs(hi) < 1e300 ? std::fabs(hi) : 0});
    if (!exact && (std::fabs(a - lo) <= eps || std::fabs(a - hi) <= eps))
        return 2;
    return a >= lo && a <= hi;
}
static int all_of(std::initializer_list<int> l)
{
    int out = 1;
    for (int v : l)
    {
        if (v == 0)
            return 0;
        if (v == 2)
            out = 2;
    }
    return out;
}
struct B6
{
    double lo[3], hi[3];
};
static int cmp_ge(double a, double b, bool exact)
{
    double eps = exact ? 0 : 1e-9 * std::max({1.0, std::fabs(a) < 1e300 ? std::fabs(a) : 0, std::fabs(b) < 1e300 ? std::fabs(b) : 0});
    if (!exact && std::fabs(a - b) <= eps)
        return 2;
    return a >= b;
}
static int inside(const Cube &c, const B6 &b, bool ex)
{
    int v = 1;
    for (int i = 0; i < 3; i++)
        v = all_of({v, cmp_ge(c.lo[i], b.lo[i], ex), cmp_ge(b.hi[i], c.hi[i], ex)});
    return v;
}
static int touches(const Cube &c, const B6 &b, bool ex)
{
    int v = 1;
    for (int i = 0; i < 3; i++)
        v = all_of({v, cmp_ge(c.hi[i], b.lo[i], ex), cmp_ge(b.hi[i], c.lo[i], ex)});
    return v;
}
static int pt_in(const Raw &p, const Cfg &c, const B6 &b, bool ex)
{
    return all_of({pos(scaled(p.x, c.scale.x, c.offset.x), b.lo[0], b.hi[0], ex), pos(scaled(p.y, c.scale.y, c.offset.y), b.lo[1], b.hi[1], ex),
                   pos(scaled(p.z, c.scale.z, c.offset.z), b.lo[2], b.hi[2], ex)});
}
static int ref_depth(double spacing, double res, int maxd)
{
    if (res <= 0)
        return maxd;
    for (int d = 0; d < maxd; d++)
        if (std::ldexp(spacing, -d) <= res)
            return d;
    return maxd;
}
static copc::Box rand_box(Rng &r, const File &f, B6 &b, std::string &kind)
{
    int how = (int)r.below(7);
    const double M = std::numeric_limits<double>::max();
    auto rnd = [&](int a)
    {
        double v = axis(f.meta.min, a) + f.span * (r.unit() * 1.4 - 0.2);
        return f.exact ? std::round(v * 4) / 4 : v;
    };
    for (int a = 0; a < 3; a++)
    {
        b.lo[a] = rnd(a);
        b.hi[a] = rnd(a);
        if (b.lo[a] > b.hi[a])
            std::swap(b.lo[a], b.hi[a]);
    }
    if (how == 0)
    {
        kind = "max";
        for (int a = 0; a < 3; a++)
            b.lo[a] = -M, b.hi[a] = M;
        return copc::Box::MaxBox();
    }
    if (how == 1)
    {
        kind = "2d";
        b.lo[2] = -M;
        b.hi[2] = M;
        return r.chance(50) ? copc::Box(b.lo[0], b.lo[1], b.hi[0], b.hi[1]) : copc::Box(std::vector<double>{b.lo[0], b.lo[1], b.hi[0], b.hi[1]});
    }
    if (how == 2 && !f.nodes.empty())
    {
        kind = "node-cube";
        VoxelKey k = r.pick(f.nodes).key;
        Cube c = cube_of(k, f.meta.min, f.span);
        for (int a = 0; a < 3; a++)
            b.lo[a] = c.lo[a], b.hi[a] = c.hi[a];
    }
    else if (how == 3 && !f.nodes.empty())
    {
        auto &n = r.pick(f.nodes);
        if (!n.pts.empty())
        {
            kind = "one-point";
            auto &p = r.pick(n.pts);
            b.lo[0] = b.hi[0] = scaled(p.x, f.cfg.scale.x, f.cfg.offset.x);
            b.lo[1] = b.hi[1] = scaled(p.y, f.cfg.scale.y, f.cfg.offset.y);
            b.lo[2] = b.hi[2] = scaled(p.z, f.cfg.scale.z, f.cfg.offset.z);
            if (r.chance(50))
            {
                int a = (int)r.below(3);
                b.lo[a] -= f.exact ? 4 : f.span / 3;
            }
        }
    }
    else if (how == 4)
    {
        kind = "far";
        int a = (int)r.below(3);
        double sh = 3 * f.span * (r.chance(50) ? 1 : -1);
        b.lo[a] += sh;
        b.hi[a] += sh;
    }
    else if (how == 5)
    {
        kind = "slab";
        int a = (int)r.below(3);
        for (int i = 0; i < 3; i++)
            if (i != a)
                b.lo[i] = axis(f.meta.min, i) - f.span, b.hi[i] = axis(f.meta.min, i) + 2 * f.span;
    }
    else
        kind = "random";
    return r.chance(50) ? copc::Box(b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2])
                        : copc::Box(copc::Vector3(b.lo[0], b.lo[1], b.lo[2]), copc::Vector3(b.hi[0], b.hi[1], b.hi[2]));
}
static void between(const KeySet &got, const KeySet &must, const KeySet &may, const std::string &key, const std::string &what)
{
    for (auto &k : must)
        EXPECT(got.count(k), key + "-missing", what << " lacks " << ks(k));
    for (auto &k : got)
        EXPECT(may.count(k), key + "-extra", what << " includes " << ks(k));
}
static void case_c13(Rng &r, int large = 0)
{
    Opt o;
    o.spatial = true;
    o.built = r.chance(60);
    o.maxd = 4;
    o.maxpts = 8;
    o.empty_nodes = o.built && r.chance(30);
    L::Layout lo;
    enlarge(r, o, lo, large);
    File f = make(r, o, lo);
    std::istringstream in(f.img);
    copc::Reader rd(&in);
    std::vector<std::vector<std::string>> fpr;
    for (auto &n : f.nodes)
    {
        fpr.emplace_back();
        for (auto &p : n.pts)
            fpr.back().push_back(ref_fp(p, f.cfg));
    }
    for (int q = 0; q < (large ? 2 : 6); q++)
    {
        B6 b;
        std::string kind;
        copc::Box box = rand_box(r, f, b, kind);
        double res = 0;
        if (r.chance(40))
            res = std::ldexp(std::fabs(f.meta.spacing), -(int)r.below(6)) * (r.chance(50) ? 1 : 1.5);
        f.meta.spacing = rd.CopcConfig().CopcInfo().spacing;
        int depth = ref_depth(f.meta.spacing, res, f.maxd);
        KeySet must_w, may_w, must_i, may_i;
        std::multiset<std::string> must_p, may_p;
        for (size_t i = 0; i < f.nodes.size(); i++)
        {
            auto &n = f.nodes[i];
            if (n.key.d > depth)
                continue;
            Cube c = cube_of(n.key, f.meta.min, f.span);
            int w = inside(c, b, f.exact), t = touches(c, b, f.exact);
            if (w) may_w.insert(n.key);
            if (w == 1) must_w.insert(n.key);
            if (t) may_i.insert(n.key);
            if (t == 1) must_i.insert(n.key);
            for (size_t k = 0; k < n.pts.size(); k++)
            {
                int in = pt_in(n.pts[k], f.cfg, b, f.exact);
                if (in) may_p.insert(fpr[i][k]);
                if (in == 1) must_p.insert(fpr[i][k]);
            }
        }
        std::ostringstream w;
        w.precision(17);
        w << kind << " box [" << b.lo[0] << ".." << b.hi[0] << "," << b.lo[1] << ".." << b.hi[1] << "," << b.lo[2] << ".." << b.hi[2] << "] resolution " << res
          << (f.exact ? " (exact)" : "");
        bool dup = false;
        std::vector<Node> nw = res == 0 && r.chance(50) ? rd.GetNodesWithinBox(box) : rd.GetNodesWithinBox(box, res);
        between(key_set(nw, &dup), must_w, may_w, "nodes-within", "GetNodesWithinBox " + w.str());
        std::vector<Node> ni = res == 0 && r.chance(50) ? rd.GetNodesIntersectBox(box) : rd.GetNodesIntersectBox(box, res);
        between(key_set(ni, &dup), must_i, may_i, "nodes-intersect", "GetNodesIntersectBox " + w.str());
        EXPECT(!dup, "node-twice", w.str());
        auto pts = res == 0 && r.chance(50) ? rd.GetPointsWithinBox(box) : rd.GetPointsWithinBox(box, res);
        auto got = fps(pts);
        EXPECT(std::includes(got.begin(), got.end(), must_p.begin(), must_p.end()), "points-missing", "GetPointsWithinBox " << w.str() << ": got " << got.size() << " want at least " << must_p.size());
        EXPECT(std::includes(may_p.begin(), may_p.end(), got.begin(), got.end()), "points-extra", "GetPointsWithinBox " << w.str() << ": got " << got.size() << " want at most " << may_p.size());
        // the same filter on a Points container
        if (!f.nodes.empty())
        {
            size_t i = r.below(f.nodes.size());
            auto P = rd.GetPoints(f.nodes[i].key);
            std::multiset<std::string> must, may;
            for (size_t k = 0; k < f.nodes[i].pts.size(); k++)
            {
                int in = pt_in(f.nodes[i].pts[k], f.cfg, b, f.exact);
                if (in) may.insert(fpr[i][k]);
                if (in == 1) must.insert(fpr[i][k]);
            }
            std::multiset<std::string> g;
            for (auto &p : P.GetWithin(box))
                g.insert(fp(*p));
            EXPECT(std::includes(g.begin(), g.end(), must.begin(), must.end()) && std::includes(may.begin(), may.end(), g.begin(), g.end()), "points-filter", "Points::GetWithin " << w.str());
            if (must.size() == may.size())
                EXPECT(P.Within(box) == (must.size() == P.Size()), "points-within", "Points::Within " << w.str());
        }
        H::note("box-kind", kind);
        H::note("answer-shape", std::string(must_p.empty() ? "0" : must_p.size() == may_p.size() && must_w.size() == must_i.size() ? "all" : "some") + (res > 0 ? "r" : ""));
        H::count("queries", 3);
        H::count("points-classified", may_p.size());
        if (!must_p.empty() && must_w.size() < must_i.size())
            H::sig(H::mix(sign(f), H::hashs(w.str())));
        if (q == 0)
            H::sample(describe(f) + "; " + w.str());
    }
}

// ---- C14
static void case_c14(Rng &r, int large = 0)
{
    Opt o;
    o.maxd = (int)r.range(0, 9);
    o.maxn = 30;
    o.maxpts = 3;
    o.built = r.chance(50);
    o.empty_nodes = o.built && r.chance(30);
    L::Layout lo;
    enlarge(r, o, lo, large);
    File f = make(r, o, lo);
    // choose the spacing, then patch it into the image (COPC info VLR: 5th double of the payload)
    double sp = r.chance(70) ? std::ldexp(1 + r.below(3) * 0.25, (int)r.range(-6, 10)) : r.unit() * 100 + 1e-3;
    memcpy(&f.img[375 + 54 + 32], &sp, 8);
    std::istringstream in(f.img);
    copc::Reader rd(&in);
    EXPECT(rd.CopcConfig().CopcInfo().spacing == sp, "spacing", rd.CopcConfig().CopcInfo().spacing << " want " << sp);
    EXPECT(rd.GetMaxDepth() == f.maxd, "max-depth", rd.GetMaxDepth() << " want " << f.maxd);
    auto hdr = rd.CopcConfig().LasHeader();
    for (int q = 0; q < (large ? 2 : 12); q++)
    {
        double res;
        switch (r.below(7))
        {
        case 0: res = 0; break;
        case 1: res = -r.unit() * 10; break;
        case 2: res = sp * (1 + r.unit() * 5); break;
        case 3: res = std::ldexp(sp, -(int)r.below(12)); break;
        case 4: res = std::nextafter(std::ldexp(sp, -(int)r.below(12)), r.chance(50) ? 0 : 1e9); break;
        case 5: res = std::ldexp(sp, -(int)r.below(12)) * (0.5 + r.unit()); break;
        default: res = r.oneof({1e-300, 1e300, 1e-12}); break;
        }
        int want = ref_depth(sp, res, f.maxd);
        int got = rd.GetDepthAtResolution(res);
        std::ostringstream w;
        w.precision(17);
        w << "spacing " << sp << " resolution " << res << " depth " << f.maxd;
        EXPECT(got == want, "depth-at-resolution", w.str() << ": got " << got << " want " << want);
        KeySet at, within;
        std::multiset<std::string> pts;
        for (auto &n : f.nodes)
        {
            if (n.key.d == want) at.insert(n.key);
            if (n.key.d <= want) within.insert(n.key);
        }
        same_keys(rd.GetNodesAtResolution(res), at, "nodes-at-resolution", w.str());
        same_keys(rd.GetNodesWithinResolution(res), within, "nodes-within-resolution", w.str());
        if (q % 4 == 0)
        {
            for (auto &n : f.nodes)
                if (n.key.d <= want)
                    for (auto &p : n.pts)
                        pts.insert(ref_fp(p, f.cfg));
            auto P = res == 0 && r.chance(50) ? rd.GetAllPoints() : rd.GetAllPoints(res);
            EXPECT(fps(P) == pts, "all-points", w.str() << ": " << pt_list(P) << " want " << pts.size());
            same_keys(rd.GetNodesWithinBox(copc::Box::MaxBox(), res), within, "box-resolution", w.str());
            same_keys(rd.GetNodesIntersectBox(copc::Box::MaxBox(), res), within, "box-resolution", w.str());
            EXPECT(fps(rd.GetPointsWithinBox(copc::Box::MaxBox(), res)) == pts, "box-points-resolution", w.str());
        }
        int d = (int)r.below(25);
        double rr = copc::VoxelKey::GetResolutionAtDepth(d, hdr, rd.CopcConfig().CopcInfo());
        EXPECT(rr == std::ldexp(sp, -d), "resolution-of-depth", rr << " want " << std::ldexp(sp, -d));
        VoxelKey k = random_key(r, 12);
        double kr = k.Resolution(hdr, rd.CopcConfig().CopcInfo());
        EXPECT(kr == std::ldexp(sp, -k.d), "resolution-of-key", ks(k) << " " << kr << " want " << std::ldexp(sp, -k.d));
        H::count("queries", 4);
        H::note("depth-answer", std::to_string(want) + "/" + std::to_string(f.maxd));
        H::sig(H::hashs(w.str()));
        if (q == 0)
            H::sample(w.str());
    }
}

// ---- C15
// std::cout goes elsewhere for a while (in threads it stays as it is, failed)
struct Mute
{
#ifndef H_THREADS
    std::streambuf *old;
    std::ios::iostate st;
    explicit Mute(std::ostringstream &to) : old(std::cout.rdbuf(to.rdbuf())), st(std::cout.rdstate()) { std::cout.clear(); }
    ~Mute()
    {
        std::cout.rdbuf(old);
        std::cout.setstate(st);
    }
#else
    explicit Mute(std::ostringstream &) {}
#endif
};
static void case_c15(Rng &r, int large = 0)
{
    Opt o;
    o.spatial = true;
    o.stray = r.chance(60);
    o.built = r.chance(60);
    o.maxd = 4;
    o.maxn = 12;
    o.maxpts = 10;
    o.empty_nodes = o.built && r.chance(40);
    L::Layout lo;
    enlarge(r, o, lo, large);
    File f = make(r, o, lo);
    if (r.chance(45)) // header bounds that are not the cube
    {
        double v[6] = {f.meta.max.x, f.meta.min.x, f.meta.max.y, f.meta.min.y, f.meta.max.z, f.meta.min.z};
        int a = (int)r.below(3);
        double e = v[2 * a] - v[2 * a + 1];
        // shrink one axis' maximum; keep the longest axis, which sizes the cubes
        if (e < f.span || (f.meta.max.x - f.meta.min.x == f.span) + (f.meta.max.y - f.meta.min.y == f.span) + (f.meta.max.z - f.meta.min.z == f.span) > 1)
        {
            double m = v[2 * a + 1] + (f.exact ? std::floor(e * r.unit()) : e * r.unit());
            v[2 * a] = m;
            (a == 0 ? f.meta.max.x : a == 1 ? f.meta.max.y : f.meta.max.z) = m;
            memcpy(&f.img[179], v, 48);
        }
    }
    f.span = std::max({f.meta.max.x - f.meta.min.x, f.meta.max.y - f.meta.min.y, f.meta.max.z - f.meta.min.z});
    std::istringstream in(f.img);
    copc::Reader rd(&in);
    B6 hb;
    for (int a = 0; a < 3; a++)
        hb.lo[a] = axis(f.meta.min, a), hb.hi[a] = axis(f.meta.max, a);
    int valid = 1;
    std::string why;
    uint64_t in_header[2] = {0, 0}, in_node[2] = {0, 0}; // least and most points a report can call outside
    for (auto &n : f.nodes)
    {
        Cube c = cube_of(n.key, f.meta.min, f.span);
        B6 cb;
        memcpy(&cb, &c, sizeof cb);
        int t = touches(c, hb, f.exact);
        uint64_t header_lo = 0, header_hi = 0, node_lo = 0, node_hi = 0;
        if (t != 1 && why.empty())
            why = "node " + ks(n.key) + " outside the header bounds";
        valid = all_of({valid, t});
        for (auto &p : n.pts)
        {
            int a = pt_in(p, f.cfg, hb, f.exact), b = pt_in(p, f.cfg, cb, f.exact);
            if (a != 1 && why.empty())
                why = "point outside the header bounds in " + ks(n.key);
            if (b != 1 && why.empty())
                why = "point outside its node " + ks(n.key);
            valid = all_of({valid, a, b});
            header_lo += a == 0, header_hi += a != 1;
            node_lo += b == 0, node_hi += b != 1;
        }
        // a node outside counts with all its points; points of a node inside need not be looked at again
        bool within = true;
        for (int a = 0; a < 3; a++)
            within = within && cb.lo[a] >= hb.lo[a] - 1e-6 * f.span && cb.hi[a] <= hb.hi[a] + 1e-6 * f.span;
        if (within)
            header_lo = 0;
        uint64_t all = n.pts.size();
        in_header[0] += t == 0 ? all : t == 1 ? header_lo : std::min(all, header_lo);
        in_header[1] += t == 1 ? header_hi : all;
        in_node[0] += t == 1 ? node_lo : 0;
        in_node[1] += node_hi;
    }
    if (valid == 2)
    {
        H::count("too-close-to-call");
        return;
    }
    std::ostringstream sink;
    bool got;
    bool verbose = r.chance(40);
    {
        Mute mute(sink);
        got = r.chance(50) && !verbose ? rd.ValidateSpatialBounds() : rd.ValidateSpatialBounds(verbose);
    }
    EXPECT(got == (valid == 1), valid == 1 ? "valid-file-rejected" : "invalid-file-accepted", describe(f) << ": got " << got << (verbose ? " verbose" : "") << ", reference says " << (valid == 1 ? "valid" : why));
    // asking again, the other way, gives the same answer
    {
        Mute mute(sink);
        bool again = rd.ValidateSpatialBounds(!verbose);
        EXPECT(again == got, "verbose-differs", describe(f) << ": verbose and quiet disagree");
    }
    {
        std::string text = sink.str();
        auto number = [&](const char *what, uint64_t &v)
        {
            size_t at = text.rfind(what);
            if (at == std::string::npos || !isdigit((unsigned char)text[at + strlen(what)]))
                return false;
            v = std::stoull(text.substr(at + strlen(what), 20));
            return true;
        };
        uint64_t h = 0, n = 0;
        bool told = number("outside header bounds: ", h) && number("outside node bounds: ", n);
        EXPECT(told, "report-missing", describe(f) << ": a verbose run does not report how many points are outside");
        if (told)
        {
            H::count("reports");
            EXPECT(h >= in_header[0] && h <= in_header[1], "report-header", describe(f) << ": " << h << " points outside of the header bounds, reference says " << in_header[0] << " to " << in_header[1]);
            EXPECT(n >= in_node[0] && n <= in_node[1], "report-node", describe(f) << ": " << n << " points outside of their nodes, reference says " << in_node[0] << " to " << in_node[1]);
        }
    }
    H::note("verdict", valid == 1 ? "valid" : why.substr(0, why.find_last_of(' ')));
    H::count(valid == 1 ? "valid-files" : "invalid-files");
    if (!f.nodes.empty())
        H::sig(H::mix(sign(f), valid));
    H::sample(describe(f) + ": " + (valid == 1 ? "valid" : why));
}

// ---- C26
// A stream on bytes that fails to deliver for a while
struct FlakyIn : std::streambuf
{
    enum { READ, PART, THROW, SEEK };
    const std::string &img;
    uint64_t pos{0}, calls{0};
    int64_t left{-1};
    int kind{READ};
    bool lasting{false}, hit{false};
    char one{};
    explicit FlakyIn(const std::string &i) : img(i) {}
    bool fails(bool seek)
    {
        calls++;
        if (left < 0 || (kind == SEEK) != seek)
            return false;
        if (left > 0)
        {
            left--;
            return false;
        }
        if (!lasting)
            left = -1;
        hit = true;
        if (kind == THROW)
            throw std::runtime_error("the medium failed");
        return true;
    }
    std::streamsize xsgetn(char *p, std::streamsize n) override
    {
        std::streamsize k = 0;
        if (gptr() < egptr() && n > 0)
        {
            *p++ = *gptr();
            setg(nullptr, nullptr, nullptr);
            pos++, k++, n--;
        }
        std::streamsize got = pos >= img.size() ? 0 : std::min<std::streamsize>(n, img.size() - pos);
        if (fails(false))
            got = kind == PART ? got / 2 : 0;
        if (got > 0)
            memcpy(p, img.data() + pos, got);
        pos += got;
        return k + got;
    }
    int_type underflow() override
    {
        if (pos >= img.size() || fails(false))
            return traits_type::eof();
        one = img[pos];
        setg(&one, &one, &one + 1);
        return traits_type::to_int_type(one);
    }
    int_type uflow() override
    {
        int_type c = underflow();
        if (!traits_type::eq_int_type(c, traits_type::eof()))
        {
            setg(nullptr, nullptr, nullptr);
            pos++;
        }
        return c;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (!(dir == std::ios_base::cur && off == 0) && fails(true))
            return pos_type(off_type(-1));
        int64_t base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? (int64_t)img.size() : (int64_t)pos;
        if (base + off < 0)
            return pos_type(off_type(-1));
        setg(nullptr, nullptr, nullptr);
        pos = base + off;
        return pos_type(off_type(pos));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
// The answer of one query as a canonical string
struct Query
{
    int kind;
    VoxelKey key;
    double res{0};
    B6 box{};
    Node node;
};
static std::string show(std::vector<Node> v)
{
    std::vector<std::string> s;
    for (auto &n : v)
    {
        std::ostringstream o;
        o << ks(n.key) << "@" << n.offset << "+" << n.byte_size << "#" << n.point_count << "/" << ks(n.page_key);
        s.push_back(o.str());
    }
    std::sort(s.begin(), s.end());
    std::string o;
    for (auto &x : s)
        o += x + " ";
    return o;
}
static std::string show(const copc::las::Points &p)
{
    auto m = fps(p);
    std::string o = p.ToString();
    for (auto &x : m)
        o += "|" + x;
    return o;
}
// The library's part of a query; what the harness does with the answer is not subject to faults
template <typename F> static auto lib(F &&f)
{
    auto v = f();
    OOM::left = -1;
    return v;
}
static std::string ask(copc::Reader &rd, const Query &q)
{
    try
    {
        copc::Box b(q.box.lo[0], q.box.lo[1], q.box.lo[2], q.box.hi[0], q.box.hi[1], q.box.hi[2]);
        switch (q.kind)
        {
        case 0: return show({lib([&] { return rd.FindNode(q.key); })});
        case 1: { auto v = lib([&] { return rd.GetPointData(q.key); }); return std::string(v.begin(), v.end()); }
        case 2: { auto v = lib([&] { return rd.GetPointDataCompressed(q.key); }); return std::string(v.begin(), v.end()); }
        case 3: return show(lib([&] { return rd.GetPoints(q.key); }));
        case 4: return show(lib([&] { return rd.GetAllChildrenOfPage(q.key); }));
        case 5: return show(lib([&] { return rd.GetAllNodes(); }));
        case 6: { auto l = lib([&] { return rd.GetPageList(); }); KeySet s(l.begin(), l.end()); return std::to_string(l.size()) + list(s); }
        case 7: return show(lib([&] { return rd.GetAllPoints(q.res); }));
        case 8: return std::to_string(lib([&] { return rd.GetDepthAtResolution(q.res); }));
        case 9: return show(lib([&] { return rd.GetNodesAtResolution(q.res); }));
        case 10: return show(lib([&] { return rd.GetNodesWithinResolution(q.res); }));
        case 11: return show(lib([&] { return rd.GetNodesWithinBox(b, q.res); }));
        case 12: return show(lib([&] { return rd.GetNodesIntersectBox(b, q.res); }));
        case 13: return show(lib([&] { return rd.GetPointsWithinBox(b, q.res); }));
        case 14: return lib([&] { return rd.ValidateSpatialBounds(); }) ? "valid" : "invalid";
        case 15: { auto c = lib([&] { return rd.CopcConfig(); }); return c.LasHeader().ToString() + c.CopcInfo().ToString() + c.CopcExtents().ToString() + c.Wkt(); }
        case 16: { auto v = lib([&] { return rd.GetPointData(q.node); }); return std::string(v.begin(), v.end()); }
        case 17: { auto v = lib([&] { return rd.GetPointDataCompressed(q.node); }); return std::string(v.begin(), v.end()); }
        case 18: return show(lib([&] { return rd.GetPoints(q.node); }));
        default: return std::to_string(lib([&] { return rd.GetMaxDepth(); }));
        }
    }
    catch (const std::exception &e)
    {
        return "threw";
    }
}
static void case_c26(Rng &r)
{
    Opt o;
    o.spatial = true;
    o.built = r.chance(60);
    o.maxd = r.chance(70) ? 4 : 8;
    o.maxn = 20;
    File f = make(r, o, {});
    bool broken = r.chance(35) && !f.built.empty() && f.built.size() > 1;
    VoxelKey bad;
    if (broken) // one node's chunk is damaged, or lies past the end: reading it fails, reading others must not
    {
        auto &b = f.built[r.below(f.built.size())];
        bad = b.key;
        if (r.chance(50))
            for (auto i = 0; i < 4; i++)
                f.img[b.offset + (b.packed.size() - 1) * r.unit()] ^= (char)r.range(1, 255);
        else
        {
            // find the entry in the image and point it past the end
            std::string e;
            L::e32(e, b.key, b.offset, (int32_t)b.packed.size(), b.count);
            size_t p = f.img.rfind(e);
            if (p != std::string::npos)
            {
                uint64_t off = f.img.size() + r.below(100);
                memcpy(&f.img[p + 16], &off, 8);
            }
        }
    }
    std::vector<Query> qs;
    int n = (int)r.range(6, 16);
    for (int i = 0; i < n; i++)
    {
        Query q;
        q.kind = (int)r.below(20);
        q.key = !f.nodes.empty() && r.chance(75) ? r.pick(f.nodes).key : r.chance(10) ? VoxelKey() : absent_key(r, f);
        if (q.kind == 4 && r.chance(70))
        {
            auto it = f.pages.begin();
            std::advance(it, r.below(f.pages.size()));
            q.key = *it;
        }
        if (broken && r.chance(25))
            q.key = bad;
        q.res = r.chance(50) ? 0 : std::ldexp(std::fabs(f.meta.spacing), -(int)r.below(6));
        std::string kind;
        rand_box(r, f, q.box, kind);
        if (q.kind >= 16 && q.kind <= 18)
        {
            switch (r.below(5))
            {
            case 0: q.node = Node(); break;
            case 1: q.node = Node(copc::Entry(VoxelKey(0, 0, 0, 0), f.img.size() + r.below(1000), (int)r.below(100), (int)r.range(1, 5))); break;
            case 2: q.node = Node(copc::Entry(VoxelKey(0, 0, 0, 0), r.below(f.img.size()), (int)f.img.size(), (int)r.range(1, 3))); break;
            default:
                if (!f.nodes.empty())
                {
                    std::istringstream in(f.img);
                    copc::Reader rd(&in);
                    q.node = rd.FindNode(r.pick(f.nodes).key);
                }
            }
        }
        qs.push_back(q);
    }
    // each query on a reader of its own
    std::vector<std::string> alone;
    for (auto &q : qs)
    {
        std::istringstream in(f.img);
        copc::Reader rd(&in);
        alone.push_back(ask(rd, q));
    }
    // all of them on one reader, in two orders, twice
    std::vector<size_t> order;
    for (size_t i = 0; i < qs.size(); i++)
        order.push_back(i);
    for (int pass = 0; pass < 2; pass++)
    {
        std::istringstream in(f.img);
        copc::Reader rd(&in);
        r.shuffle(order);
        int threw = 0;
        for (int rep = 0; rep < 2; rep++)
            for (auto i : order)
            {
                if (r.chance(10))
                    in.setstate(std::ios::eofbit); // the application hit the end of its stream
                if (r.chance(10))
                    in.seekg(0, std::ios::end);
                std::string a = ask(rd, qs[i]);
                threw += a == "threw";
                EXPECT(a == alone[i], alone[i] == "threw" ? "failing-query-succeeds" : a == "threw" ? "query-fails-after-others" : "answer-depends-on-order",
                       "query " << qs[i].kind << " for " << ks(qs[i].key) << (rep ? " (second time)" : "") << " after " << threw << " failed queries gave " << a.substr(0, 150) << " instead of " << alone[i].substr(0, 150));
                H::note("query-kind", std::to_string(qs[i].kind) + (a == "threw" ? " threw" : ""));
            }
        H::count("queries", 2 * qs.size());
        H::count("failed-queries", threw);
    }
    // some queries meet a failing stream or a lack of memory; they fail or are right, and the others are not affected
    {
        FlakyIn buf(f.img);
        std::istream in(&buf);
        copc::Reader rd(&in);
        r.shuffle(order);
        int faults = 0;
        std::string last = "none";
        for (int rep = 0; rep < 3; rep++)
            for (auto i : order)
            {
                bool fault = rep < 2 && r.chance(40), memory = fault && r.chance(40);
                std::string a;
                if (memory)
                {
                    uint64_t was = OOM::failed;
                    OOM::Arm arm((int64_t)r.below(r.chance(50) ? 12 : 300), r.chance(30));
                    a = ask(rd, qs[i]);
                    if (OOM::failed == was)
                        fault = false;
                    else
                        last = "memory";
                }
                else if (fault)
                {
                    buf.kind = (int)r.below(4);
                    buf.lasting = r.chance(30);
                    buf.left = (int64_t)r.below(r.chance(50) ? 4 : 60);
                    buf.hit = false;
                    a = ask(rd, qs[i]);
                    buf.left = -1;
                    fault = buf.hit;
                    if (fault)
                        last = "stream " + std::to_string(buf.kind);
                }
                else
                    a = ask(rd, qs[i]);
                if (fault)
                {
                    EXPECT(a == "threw" || a == alone[i], "wrong-answer-on-fault", "query " << qs[i].kind << " for " << ks(qs[i].key) << " met a fault (" << last << ") and gave " << a.substr(0, 150) << " instead of failing or " << alone[i].substr(0, 150));
                    faults++;
                    H::note("fault-kind", last + (a == "threw" ? " threw" : " right"));
                }
                else
                    EXPECT(a == alone[i], "answer-after-fault", "query " << qs[i].kind << " for " << ks(qs[i].key) << " after " << faults << " faults, the last one " << last << ", gave " << a.substr(0, 150) << " instead of " << alone[i].substr(0, 150));
            }
        H::count("faulted-queries", faults);
        H::count("queries", 3 * qs.size());
    }
    // LAZ reader on a plain LAZ file: reading twice gives the same points
    if (r.chance(30))
    {
        std::stringstream ss;
        std::vector<Raw> pts;
        for (int i = 0, k = (int)r.below(30); i < k; i++)
            pts.push_back(rand_raw(r, f.cfg.ebn));
        {
            copc::laz::LazWriter w(ss, copc::las::LazConfigWriter(f.cfg.fmt, f.cfg.scale, f.cfg.offset, f.cfg.wkt, f.cfg.eb));
            auto h = static_cast<const copc::las::LazConfigWriter &>(*w.LazConfig()).LasHeader();
            size_t i = 0;
            while (i < pts.size())
            {
                size_t j = std::min(pts.size(), i + 1 + r.below(10));
                w.WritePoints(W::to_points(h, std::vector<Raw>(pts.begin() + i, pts.begin() + j)));
                i = j;
            }
            w.Close();
        }
        copc::laz::LazReader lr(&ss);
        for (int rep = 0; rep < 3; rep++)
        {
            if (r.chance(50))
            {
                if (r.chance(30))
                    ss.setstate(std::ios::eofbit);
                auto d = lr.GetPointData();
                EXPECT(d == W::to_raw(pts, f.cfg.fmt), "laz-read-again", "GetPointData, time " << rep + 1 << ": " << d.size() << " bytes");
            }
            else
            {
                auto p = lr.GetPoints();
                bool ok = p.Size() == pts.size();
                for (size_t i = 0; ok && i < pts.size(); i++)
                    ok = diff_point(*p[i], pts[i], f.cfg.fmt, f.cfg.scale, f.cfg.offset).empty();
                EXPECT(ok, "laz-read-again", "GetPoints, time " << rep + 1 << ": " << p.Size() << " points of " << pts.size());
            }
        }
        H::count("laz-reread");
    }
    H::sig(H::mix(sign(f), n));
    H::sample(describe(f) + (broken ? ", damaged node " + ks(bad) : "") + ", " + std::to_string(n) + " queries");
}

// ---- C29
static void case_c29(Rng &r, int large = 0)
{
    Opt o;
    o.built = true;
    o.empty_nodes = r.chance(40);
    o.maxd = r.chance(80) ? 5 : 22;
    o.maxn = 30;
    L::Layout lo;
    lo.wkt_as_vlr = r.chance(50);
    lo.eb_as_evlr = r.chance(40);
    lo.no_extents = r.chance(25);
    lo.shuffle = r.chance(60);
    lo.one_evlr = r.chance(40);
    lo.unknown = r.chance(40);
    lo.evlr_before = r.chance(40);
    lo.gap = r.chance(40);
    if (r.chance(4))
        lo.big_evlr = (size_t)r.range(65000, 70000);
    if (r.chance(4))
        lo.big_vlr = (size_t)r.range(32000, 65535);
    if (r.chance(4))
        lo.many = (size_t)r.range(20, 300);
    if (r.chance(3))
        o.long_wkt = (size_t)r.range(32000, lo.wkt_as_vlr ? 60000 : 90000);
    enlarge(r, o, lo, large);
    File f = make(r, o, lo);
    std::string path;
    std::unique_ptr<std::istringstream> in;
    std::unique_ptr<copc::Reader> rd;
    if (r.chance(10))
    {
        path = H::tmpdir + "/r" + std::to_string(getpid()) + ".copc.laz";
        std::ofstream(path, std::ios::binary).write(f.img.data(), f.img.size());
        rd.reset(new copc::FileReader(path));
    }
    else
    {
        in.reset(new std::istringstream(f.img));
        rd.reset(new copc::Reader(in.get()));
    }
    if (r.chance(20)) // what is no COPC file at its beginning is refused
    {
        auto img = f.img;
        auto u8 = [&](size_t at, int v) { img[at] = (char)v; };
        int what = (int)r.below(10);
        static const char *name[] = {"user id of the information", "record id of the information", "version", "WKT bit", "format", "signature", "no records", "header size", "record length", "information second"};
        switch (what)
        {
        case 0: u8(377 + r.below(4), 'C' + (int)r.below(20)); break;
        case 1: u8(393 + r.below(2), (int)r.range(2, 255)); break;
        case 2: r.chance(50) ? u8(24, (int)(2 + r.below(254))) : u8(25, (int)(r.below(5) + (r.chance(50) ? 5 : -1))); break;
        case 3: img[6] = (char)(img[6] & ~0x10); break;
        case 4: img[104] = (char)(0x80 | (r.chance(50) ? r.range(0, 5) : r.range(9, 63))); break;
        case 5: img[r.below(4)] ^= (char)(1 << r.below(8)); break;
        case 7: r.chance(50) ? u8(94, 375 % 256 + (r.chance(50) ? 1 : -1)) : u8(95, 2); break;
        case 8: u8(105, (int)r.below(base_size(f.cfg.fmt))), u8(106, 0); break;
        case 9:
        {
            if ((uint8_t)img[100] < 2)
                break;
            size_t n = 54 + (uint8_t)img[589 + 20] + 256 * (uint8_t)img[589 + 21];
            std::rotate(img.begin() + 375, img.begin() + 589, img.begin() + 589 + n);
            break;
        }
        default: u8(100, 0), u8(101, 0), u8(102, 0), u8(103, 0), u8(243, 0), u8(244, 0), u8(245, 0), u8(246, 0); break;
        }
        std::istringstream is(img);
        if (img != f.img)
        {
            EXPECT(throws([&] { copc::Reader x(&is); }), "not-refused", name[what]);
            H::note("refused", name[what]);
        }
        auto plain = f.img;
        std::istringstream bad(plain);
        bad.setstate(r.chance(50) ? std::ios::failbit : std::ios::badbit);
        EXPECT(throws([&] { copc::Reader x(&bad); }) && throws([&] { copc::laz::LazReader x(&bad); }), "stream-not-refused", "a stream that has failed");
    }
    auto c = rd->CopcConfig();
    auto h = c.LasHeader();
    auto d = diff_header(h, f.meta);
    EXPECT(d.empty(), "header", d);
    EXPECT(h.PointFormatId() == f.cfg.fmt && h.PointRecordLength() == f.cfg.rec() && h.Scale() == f.cfg.scale && h.Offset() == f.cfg.offset, "format", int(h.PointFormatId()));
    EXPECT(c.Wkt() == f.cfg.wkt, "wkt", "got " << c.Wkt().size() << " bytes want " << f.cfg.wkt.size() << " (as " << (lo.wkt_as_vlr ? "VLR" : "EVLR") << ")");
    auto eb = c.ExtraBytesVlr();
    EXPECT(eb.items.size() == f.cfg.eb.items.size(), "extra-bytes", eb.items.size() << " of " << f.cfg.eb.items.size() << " (as " << (lo.eb_as_evlr ? "EVLR" : "VLR") << ")");
    for (size_t i = 0; i < eb.items.size() && i < f.cfg.eb.items.size(); i++)
        EXPECT(same_eb(eb.items[i], f.cfg.eb.items[i]), "extra-bytes", "field " << i);
    const auto ex = c.CopcExtents();
    auto v = ex.Extents();
    EXPECT(v.size() == f.meta.ext.size(), "extents", v.size() << " of " << f.meta.ext.size());
    EXPECT(ex.HasExtendedStats() == (f.cfg.ext_stats && !lo.no_extents), "extended-stats", "presence");
    for (size_t i = 0; !lo.no_extents && i < v.size() && i < f.meta.ext.size(); i++)
    {
        EXPECT(v[i].minimum == f.meta.ext[i].minimum && v[i].maximum == f.meta.ext[i].maximum, "extents", "dimension " << i << " " << v[i]);
        if (f.cfg.ext_stats)
            EXPECT(v[i].mean == f.meta.ext[i].mean && v[i].var == f.meta.ext[i].var, "extended-stats", "dimension " << i << " " << v[i]);
    }
    auto ci = c.CopcInfo();
    EXPECT(ci.center_x == f.meta.cx && ci.center_y == f.meta.cy && ci.center_z == f.meta.cz && ci.halfsize == f.meta.half && ci.spacing == f.meta.spacing, "copc-info", ci.ToString());
    KeySet all;
    for (auto &n : f.nodes)
        all.insert(n.key);
    auto order = f.nodes;
    r.shuffle(order);
    for (auto &w : order)
    {
        Node n = rd->FindNode(w.key);
        EXPECT(n.IsValid() && n.point_count == (int)w.pts.size(), "find-node", ks(w.key) << " " << n.ToString());
        if (!n.IsValid())
            continue;
        EXPECT(rd->GetPointData(n) == w.raw, "node-data", ks(w.key));
        auto &b = f.built[f.index.at(w.key)];
        EXPECT(rd->GetPointDataCompressed(w.key) == b.packed, "node-data-compressed", ks(w.key));
        auto p = rd->GetPoints(w.key);
        EXPECT(p.Size() == w.pts.size(), "node-points", ks(w.key) << " " << p.Size());
        for (size_t i = 0; i < p.Size() && i < w.pts.size(); i++)
        {
            auto dd = diff_point(*p[i], w.pts[i], f.cfg.fmt, f.cfg.scale, f.cfg.offset);
            EXPECT(dd.empty(), "point", ks(w.key) << dd);
        }
        H::count("nodes-read");
    }
    same_keys(rd->GetAllNodes(), all, "all-nodes", "GetAllNodes");
    auto l = rd->GetPageList();
    KeySet s(l.begin(), l.end());
    EXPECT(s == f.pages && l.size() == s.size(), "page-list", list(s) << " want" << list(f.pages));
    if (!path.empty())
        unlink(path.c_str());
    H::note("layout", std::to_string(lo.wkt_as_vlr) + std::to_string(lo.eb_as_evlr) + std::to_string(lo.no_extents) + std::to_string(lo.shuffle) + std::to_string(lo.one_evlr) + std::to_string(lo.unknown) + std::to_string(lo.evlr_before) + std::to_string(lo.gap));
    if (!f.nodes.empty())
        H::sig(sign(f));
    H::sample(describe(f));
}

void run_case(uint64_t n, Rng &r)
{
    if (H::mode == "C03") case_c03(r);
    else if (H::mode == "C13") case_c13(r);
    else if (H::mode == "C14") case_c14(r);
    else if (H::mode == "C15") case_c15(r);
    else if (H::mode == "C26") case_c26(r);
    else if (H::mode == "C29") case_c29(r);
    else if (H::mode == "C03L") case_c03(r, 1 + (int)((n + H::seed) % 5));
    else if (H::mode == "C13L") case_c13(r, 1 + (int)((n + H::seed) % 5));
    else if (H::mode == "C14L") case_c14(r, 1 + (int)((n + H::seed) % 5));
    else if (H::mode == "C15L") case_c15(r, 1 + (int)((n + H::seed) % 5));
    else if (H::mode == "C29L") case_c29(r, 1 + (int)((n + H::seed) % 5));
    else abort();
}
