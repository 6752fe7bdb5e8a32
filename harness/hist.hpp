// Scripts of COPC writer operations, their reference model, and an executor.
#pragma once
#include <numeric>

#include "lasfile.hpp"

namespace W
{
using namespace G;
using copc::CopcConfigWriter;

enum Kind
{
    ADD_POINTS,
    ADD_BYTES,
    ADD_PACKED,
    MOVE,
    FIND,
    BAD
};
struct Op
{
    Kind kind;
    VoxelKey key, page;
    std::vector<Raw> pts;
    bool default_page{};
    int bad{};
    uint64_t salt{};
};
struct MNode
{
    VoxelKey page;
    Bytes raw, packed;
    std::vector<Raw> pts;
    Node returned;
};
struct Model
{
    KeyMap<MNode> nodes;
    KeySet pages;
    uint64_t points{0};
    Model() { pages.insert(VoxelKey(0, 0, 0, 0)); }
};
static const int BAD_KINDS = 17;

struct Script
{
    Cfg cfg;
    Meta meta;
    bool use_meta{true};
    std::vector<Op> ops;
    int meta_at{-1}; // index of the op before which the metadata is set through the writer (-1: before opening)
    int close_mode{0}; // 0 Close, 1 Close twice, 2 destructor only
    bool file{false};
};

inline VoxelKey pick_page(Rng &r, const VoxelKey &key, const KeySet &pages)
{
    if (r.chance(35))
        return VoxelKey(0, 0, 0, 0);
    if (r.chance(50))
    {
        std::vector<VoxelKey> c;
        for (auto &p : pages)
            if (is_anc(p, key))
                c.push_back(p);
        return r.pick(c);
    }
    return up(key, (int)r.below(key.d + 1));
}

inline Script rand_script(Rng &r, bool bad_ops)
{
    Script s;
    s.cfg = rand_cfg(r);
    s.meta = rand_meta(r, base_dims(s.cfg.fmt) + s.cfg.eb.items.size());
    s.file = r.chance(15);
    s.close_mode = (int)r.below(3);
    int n = r.chance(6) ? 0 : (int)r.range(1, r.chance(80) ? 14 : 40);
    int maxd = r.chance(80) ? (int)r.range(0, 5) : (int)r.range(6, 24);
    KeyMap<VoxelKey> used;
    KeySet pages;
    pages.insert(VoxelKey(0, 0, 0, 0));
    auto settle = [&]()
    {
        KeySet live;
        live.insert(VoxelKey(0, 0, 0, 0));
        for (auto &u : used)
            live.insert(u.second);
        pages = live;
    };
    for (int i = 0; i < n; i++)
    {
        Op o;
        o.salt = r.next();
        int w = (int)r.below(100);
        if (bad_ops && w < 45)
        {
            o.kind = BAD;
            o.bad = (int)r.below(BAD_KINDS);
            if (!used.empty())
            {
                auto it = used.begin();
                std::advance(it, r.below(used.size()));
                o.key = it->first;
            }
            s.ops.push_back(o);
            continue;
        }
        if (!used.empty() && w >= 75)
        {
            auto it = used.begin();
            std::advance(it, r.below(used.size()));
            o.key = it->first;
            if (w >= 92)
            {
                o.kind = FIND;
                if (r.chance(50))
                    o.key = random_key(r, maxd + 1);
            }
            else
            {
                o.kind = MOVE;
                o.page = pick_page(r, o.key, pages);
                it->second = o.page;
                settle();
            }
            s.ops.push_back(o);
            continue;
        }
        VoxelKey k;
        int tries = 0;
        do
        {
            if (!used.empty() && r.chance(60))
            {
                auto it = used.begin();
                std::advance(it, r.below(used.size()));
                k = r.chance(30) ? up(it->first, (int)r.below(it->first.d + 1)) : child(it->first, (int)r.below(8));
                if (k.d > 25)
                    k = random_key(r, maxd);
            }
            else
                k = random_key(r, maxd);
        } while (used.count(k) && ++tries < 20);
        if (used.count(k))
            continue;
        o.key = k;
        o.page = pick_page(r, k, pages);
        o.default_page = o.page.d == 0 && r.chance(50);
        o.kind = (Kind)r.below(3);
        int np = r.chance(90) ? (int)r.range(1, 8) : (int)r.range(9, 120);
        if (s.cfg.rec() > 300)
            np = (int)r.range(1, 4);
        Raw base = rand_raw(r, s.cfg.ebn);
        for (int q = 0; q < np; q++)
        {
            if (r.chance(50))
                base = rand_raw(r, s.cfg.ebn);
            else
                base.x += (base.x < INT32_MAX);
            o.pts.push_back(base);
        }
        used[k] = o.page;
        pages.insert(o.page);
        s.ops.push_back(o);
    }
    if (r.chance(50))
        s.meta_at = (int)r.below(s.ops.size() + 1);
    return s;
}

// sizes at which 16 bit counts, or whole buffers, would overflow
inline Script large_script(Rng &r, int kind)
{
    Script s;
    s.cfg = rand_cfg(r, false);
    if (kind < 4)
        while (s.cfg.ebn > 8)
        {
            s.cfg.ebn -= eb_type_size(s.cfg.eb.items.back().data_type, s.cfg.eb.items.back().options);
            s.cfg.eb.items.pop_back();
        }
    if (kind == 4)
        s.cfg.wkt = std::string((size_t)r.range(65536, 200000), 'w') + s.cfg.wkt;
    if (kind == 5) // as many fields as a record can describe
        for (int n = (int)r.range(250, 335); n > 0; n--)
        {
            auto f = rand_ebfield(r);
            if (s.cfg.ebn + eb_type_size(f.data_type, f.options) > 20000)
                continue;
            s.cfg.eb.items.push_back(f);
            s.cfg.ebn += eb_type_size(f.data_type, f.options);
        }
    s.meta = rand_meta(r, base_dims(s.cfg.fmt) + s.cfg.eb.items.size());
    s.close_mode = (int)r.below(3);
    int n = kind == 0 || kind == 6 ? (int)r.range(67500, 70000) : kind == 1 ? (int)r.range(4097, 12000) : kind == 2 ? (int)r.range(1000, 3000) : 4;
    int d = kind == 0 || kind == 6 ? (int)r.range(7, 9) : (int)r.range(5, 9);
    KeySet used;
    VoxelKey root(0, 0, 0, 0);
    VoxelKey page = r.chance(50) ? root : random_key(r, 2);
    for (int i = 0; i < n; i++)
    {
        Op o;
        o.salt = r.next();
        o.key = VoxelKey(d, (int)r.below(1u << d), (int)r.below(1u << d), (int)r.below(1u << d));
        if (page.d > 0 && r.chance(90))
        {
            o.key = page;
            while (o.key.d < d + page.d)
                o.key = child(o.key, (int)r.below(8));
        }
        if (!used.insert(o.key).second)
            continue;
        o.page = kind == 6 ? o.key : kind == 2 ? up(o.key, (int)r.below(2)) : is_anc(page, o.key) ? page : root;
        o.kind = (Kind)r.below(3);
        int np = kind == 3 && i == 1 ? (int)r.range(65536, 150000) : 1;
        Raw base = rand_raw(r, s.cfg.ebn);
        for (int q = 0; q < np; q++)
        {
            if (q % 50 == 0)
                base = rand_raw(r, s.cfg.ebn);
            base.x = (int32_t)q;
            o.pts.push_back(base);
        }
        s.ops.push_back(o);
        if (kind < 3 && r.below(n) < 20)
        {
            Op mv;
            mv.kind = MOVE;
            mv.key = o.key;
            mv.page = o.page == root ? up(o.key, 1) : root;
            s.ops.push_back(mv);
        }
    }
    return s;
}

inline void set_meta(CopcConfigWriter &c, const Meta &m)
{
    apply_header(*c.LasHeader(), m);
    auto i = c.CopcInfo();
    i->center_x = m.cx;
    i->center_y = m.cy;
    i->center_z = m.cz;
    i->halfsize = m.half;
    i->spacing = m.spacing;
    auto ex = c.CopcExtents()->Extents();
    for (size_t k = 0; k < ex.size() && k < m.ext.size(); k++)
        *ex[k] = m.ext[k];
}
inline CopcConfigWriter make_cfg(const Cfg &c) { return CopcConfigWriter(c.fmt, c.scale, c.offset, c.wkt, c.eb, c.ext_stats); }

// a configuration read back against what was written
inline void check_config(const copc::CopcConfig &c, const Cfg &g, const Meta &m, const std::vector<copc::CopcExtent> &ext, const std::string &P)
{
    auto h = c.LasHeader();
    auto d = diff_header(h, m);
    EXPECT(d.empty(), P + "header-fields", d);
    EXPECT(h.PointFormatId() == g.fmt && h.PointRecordLength() == g.rec() && h.EbByteSize() == g.ebn, P + "format",
           int(h.PointFormatId()) << " " << h.PointRecordLength() << " want " << int(g.fmt) << " " << g.rec());
    EXPECT(h.Scale() == g.scale && h.Offset() == g.offset, P + "scale-offset", h.Scale() << h.Offset());
    EXPECT(c.Wkt() == g.wkt, P + "wkt", "got " << c.Wkt().size() << " bytes, want " << g.wkt.size());
    auto eb = c.ExtraBytesVlr();
    size_t want = g.ebn ? g.eb.items.size() : 0;
    EXPECT(eb.items.size() == want, P + "extra-bytes", eb.items.size() << " fields, want " << want);
    for (size_t i = 0; i < eb.items.size() && i < want; i++)
        EXPECT(same_eb(eb.items[i], g.eb.items[i]), P + "extra-bytes", "field " << i << " differs");
    auto i = c.CopcInfo();
    EXPECT(same_bytes(&i.center_x, &m.cx, 8) && same_bytes(&i.center_y, &m.cy, 8) && same_bytes(&i.center_z, &m.cz, 8) &&
               same_bytes(&i.halfsize, &m.half, 8) && same_bytes(&i.spacing, &m.spacing, 8),
           P + "copc-info", i.ToString());
    const auto ex = c.CopcExtents();
    EXPECT(ex.HasExtendedStats() == g.ext_stats, P + "has-extended-stats", ex.HasExtendedStats());
    auto v = ex.Extents();
    EXPECT(v.size() == ext.size(), P + "extents-count", v.size() << " want " << ext.size());
    for (size_t k = 0; k < v.size() && k < ext.size(); k++)
    {
        EXPECT(v[k].minimum == ext[k].minimum && v[k].maximum == ext[k].maximum, P + "extents", "extent " << k << " is " << v[k] << " want " << ext[k]);
        if (g.ext_stats)
            EXPECT(v[k].mean == ext[k].mean && v[k].var == ext[k].var, P + "extended-stats", "extent " << k << " is " << v[k] << " want " << ext[k]);
        else
            EXPECT(v[k].mean == 0 && v[k].var == 1, P + "extended-stats", "extent " << k << " invented " << v[k]);
    }
}

inline copc::las::Points to_points(const copc::las::LasHeader &h, const std::vector<Raw> &v)
{
    copc::las::Points p(h);
    for (auto &x : v)
    {
        auto q = p.CreatePoint();
        fill_point(*q, x, h.Scale(), h.Offset());
        p.AddPoint(q);
    }
    return p;
}
inline Bytes to_raw(const std::vector<Raw> &v, int fmt)
{
    Bytes b;
    for (auto &x : v)
        encode(b, x, fmt);
    return b;
}

// Points of another format, or with other extra bytes; some have records as long as the file's, some come in numbers
// that fill a whole number of the file's records.
inline copc::las::Points misfit(Rng &r, const Cfg &c)
{
    int fmt = c.fmt, ebn = c.ebn, n = 1, how = (int)r.below(4);
    if (how >= 2)
    {
        fmt = 6 + (c.fmt - 6 + 1 + (int)r.below(2)) % 3;
        int same = c.rec() - base_size(fmt);
        if (how == 3 && same >= 0)
            ebn = same;
    }
    else
        ebn = r.chance(30) && c.ebn > 0 ? (int)r.below(c.ebn) : c.ebn + 1 + (int)(r.chance(50) ? 0 : r.below(40));
    int rec = base_size(fmt) + ebn;
    if (r.chance(60))
    {
        n = c.rec() / (int)std::gcd(rec, c.rec());
        if (n > 200)
            n = 1;
    }
    copc::las::Points p((int8_t)fmt, (uint16_t)ebn);
    for (int i = 0; i < n; i++)
        p.AddPoint(p.CreatePoint());
    return p;
}

// One rejected operation.  Returns the name of the kind, or "" if it does not apply here.
inline std::string do_bad(copc::Writer &w, const Script &s, const Op &o, const Model &m, bool &threw, std::string &what)
{
    Rng r(o.salt);
    auto &c = s.cfg;
    auto h = static_cast<const CopcConfigWriter &>(*w.CopcConfig()).LasHeader();
    std::vector<Raw> pts{rand_raw(r, c.ebn), rand_raw(r, c.ebn)};
    Bytes raw = to_raw(pts, c.fmt);
    VoxelKey fresh;
    do
        fresh = random_key(r, 9);
    while (m.nodes.count(fresh) || fresh.d == 0);
    VoxelKey root(0, 0, 0, 0);
    // a page that is not an ancestor of `fresh`
    VoxelKey other = fresh;
    if (r.chance(30))
        other = child(fresh, (int)r.below(8));
    else if (r.chance(50))
        other.x ^= 1;
    else
    {
        other = up(fresh, (int)r.below(fresh.d));
        other.z ^= 1;
    }
    VoxelKey invalid = r.oneof({VoxelKey(), VoxelKey(-1, 0, 0, 0), VoxelKey(1, -1, 0, 0), VoxelKey(2, 0, -3, 1), VoxelKey(3, 1, 1, -1)});
    std::string name;
    auto go = [&](const char *n, std::function<void()> f)
    {
        name = n;
        threw = throws(f, &what);
    };
    VoxelKey known = o.key;
    switch (o.bad)
    {
    case 0: go("add-invalid-key", [&] { w.AddNode(invalid, raw); }); break;
    case 1: go("add-invalid-page", [&] { w.AddNode(fresh, raw, invalid); }); break;
    case 2: go("add-page-not-ancestor", [&] { w.AddNode(fresh, raw, other); }); break;
    case 3: go("add-empty-points", [&] { w.AddNode(fresh, copc::las::Points(h)); }); break;
    case 4:
    case 5:
    {
        copc::las::Points p = misfit(r, c);
        go(p.PointFormatId() != c.fmt ? "add-wrong-format" : "add-wrong-extra-bytes", [&] { w.AddNode(fresh, p); });
        break;
    }
    case 6: go("add-empty-bytes", [&] { w.AddNode(fresh, Bytes()); }); break;
    case 7:
    {
        Bytes b = raw;
        b.resize(b.size() - r.range(1, c.rec() - 1));
        go("add-ragged-bytes", [&] { w.AddNode(fresh, b); });
        break;
    }
    case 8: go("add-packed-zero-count", [&] { w.AddNodeCompressed(fresh, L::pack_chunk(raw, c.fmt, c.ebn), 0); }); break;
    case 9:
    {
        int32_t cnt = r.oneof<int32_t>({-1, -2, -100, INT32_MIN});
        go("add-packed-negative-count", [&] { w.AddNodeCompressed(fresh, L::pack_chunk(raw, c.fmt, c.ebn), cnt); });
        break;
    }
    case 10: go("add-packed-bad-page", [&] { w.AddNodeCompressed(fresh, L::pack_chunk(raw, c.fmt, c.ebn), 2, other); }); break;
    case 11:
    {
        auto p = to_points(h, pts);
        double v = (r.chance(50) ? 1 : -1) * (2147483648.0 + r.range(2, 100000));
        double far = r.oneof({v, v * 1e6, v * 1e200});
        int axis = (int)r.below(3);
        size_t at = r.below(2);
        if (axis == 0) p[at]->X(far * c.scale.x + c.offset.x);
        if (axis == 1) p[at]->Y(far * c.scale.y + c.offset.y);
        if (axis == 2) p[at]->Z(far * c.scale.z + c.offset.z);
        go("add-coordinate-out-of-range", [&] { w.AddNode(fresh, p, up(fresh, (int)r.below(fresh.d + 1))); });
        break;
    }
    case 12: go("move-unknown-node", [&] { w.ChangeNodePage(fresh, r.chance(50) ? root : fresh); }); break;
    case 13: go("move-invalid-node", [&] { w.ChangeNodePage(invalid, root); }); break;
    case 14:
        if (m.nodes.count(known))
            go("move-invalid-page", [&] { w.ChangeNodePage(known, invalid); });
        break;
    case 15:
        if (m.nodes.count(known))
            go("move-page-not-ancestor", [&] { w.ChangeNodePage(known, child(known, (int)r.below(8))); });
        break;
    case 16:
        if (m.nodes.count(known) && known.d > 0)
        {
            VoxelKey p = up(known, (int)r.below(known.d));
            p.y ^= 1;
            go("move-page-not-ancestor", [&] { w.ChangeNodePage(known, p); });
        }
        break;
    }
    return name;
}

struct Result
{
    Model model;
    std::string image;
    bool ok{true};
};

// Runs the script against the library.  `check` reports against the model as it goes; skip_bad leaves out BAD ops.
template <typename StreamState>
void run_ops(copc::Writer &w, const Script &s, Model &m, bool skip_bad, StreamState &&state, const std::string &P)
{
    int idx = 0;
    for (auto &o : s.ops)
    {
        if (s.use_meta && s.meta_at == idx++)
            set_meta(*w.CopcConfig(), s.meta);
        switch (o.kind)
        {
        case ADD_POINTS:
        case ADD_BYTES:
        case ADD_PACKED:
        {
            MNode n;
            n.page = o.page;
            n.pts = o.pts;
            n.raw = to_raw(o.pts, s.cfg.fmt);
            n.packed = L::pack_chunk(n.raw, s.cfg.fmt, s.cfg.ebn);
            if (o.kind == ADD_POINTS)
            {
                auto p = to_points(static_cast<const CopcConfigWriter &>(*w.CopcConfig()).LasHeader(), o.pts);
                n.returned = o.default_page ? w.AddNode(o.key, p) : w.AddNode(o.key, p, o.page);
            }
            else if (o.kind == ADD_BYTES)
                n.returned = o.default_page ? w.AddNode(o.key, n.raw) : w.AddNode(o.key, n.raw, o.page);
            else
                n.returned = o.default_page ? w.AddNodeCompressed(o.key, n.packed, (int)o.pts.size())
                                            : w.AddNodeCompressed(o.key, n.packed, (int)o.pts.size(), o.page);
            auto &q = n.returned;
            EXPECT(q.key == o.key && q.page_key == o.page && q.point_count == (int)o.pts.size() &&
                       q.byte_size == (int)n.packed.size() && q.IsValid() && !q.IsPage(),
                   P + "add-returned-node", "added " << ks(o.key) << " got " << q.ToString());
            m.nodes[o.key] = n;
            m.pages.insert(o.page);
            m.points += o.pts.size();
            H::count("nodes-added");
            H::note("add-kind", std::to_string(o.kind));
            break;
        }
        case MOVE:
        {
            auto &n = m.nodes[o.key];
            w.ChangeNodePage(o.key, o.page);
            if (!(n.page == o.page))
            {
                VoxelKey old = n.page;
                n.page = o.page;
                m.pages.insert(o.page);
                bool any = false;
                for (auto &x : m.nodes)
                    any |= x.second.page == old;
                if (!any && old.d != 0)
                    m.pages.erase(old);
                H::count("moves");
            }
            break;
        }
        case FIND:
        {
            Node q = w.FindNode(o.key);
            auto it = m.nodes.find(o.key);
            EXPECT(q.IsValid() == (it != m.nodes.end()), P + "writer-find", "FindNode(" << ks(o.key) << ") on the writer");
            if (it != m.nodes.end())
                EXPECT(q == it->second.returned, P + "writer-find", "FindNode(" << ks(o.key) << ") " << q.ToString());
            break;
        }
        case BAD:
        {
            if (skip_bad)
                break;
            bool threw = false;
            std::string what;
            auto before = state();
            std::string k = do_bad(w, s, o, m, threw, what);
            if (k.empty())
                break;
            H::count("rejections");
            H::note("rejection-kind", k);
            EXPECT(threw, P + "accepted:" + k, "operation " << k << " was not rejected");
            EXPECT(state() == before, P + "wrote:" + k, "rejected operation " << k << " changed the output stream");
            for (auto &n : m.nodes)
            {
                Node q = w.FindNode(n.first);
                EXPECT(q.IsValid() && q == n.second.returned, P + "hierarchy:" + k, "after rejected " << k << " node " << ks(n.first) << " is " << q.ToString());
            }
            break;
        }
        }
    }
    if (s.use_meta && s.meta_at == (int)s.ops.size())
        set_meta(*w.CopcConfig(), s.meta);
}

inline std::string slurp(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

inline Result execute(const Script &s, bool skip_bad, const std::string &P)
{
    Result R;
    auto cfg = make_cfg(s.cfg);
    if (s.use_meta && s.meta_at < 0)
        set_meta(cfg, s.meta);
    if (s.file)
    {
        std::string path = H::tmpdir + "/w" + std::to_string(getpid()) + ".copc.laz";
        {
            copc::FileWriter w(path, cfg);
            EXPECT(w.FilePath() == path, P + "file-path", w.FilePath());
            run_ops(w, s, R.model, skip_bad, [&] { return 0; }, P);
            if (s.close_mode != 2)
                w.Close();
            if (s.close_mode == 1)
                w.Close();
        }
        R.image = slurp(path);
        unlink(path.c_str());
    }
    else
    {
        std::stringstream ss;
        {
            copc::Writer w(ss, cfg);
            auto state = [&] { return std::make_tuple(ss.str(), (long long)ss.tellp(), (int)ss.rdstate()); };
            run_ops(w, s, R.model, skip_bad, state, P);
            if (s.close_mode != 2)
                w.Close();
            if (s.close_mode == 1)
            {
                std::string a = ss.str();
                w.Close();
                EXPECT(a == ss.str(), P + "second-close", "a second Close changed the file");
            }
        }
        R.image = ss.str();
    }
    return R;
}
} // namespace W
