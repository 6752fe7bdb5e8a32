// Random COPC images with a known content: nodes in a random octree, spread over random pages, with points that lie
// in their node's cube when `spatial` is set.
#pragma once
#include "hist.hpp"

namespace FG
{
using namespace G;

struct FNode
{
    VoxelKey key, page;
    std::vector<Raw> pts;
    Bytes raw;
};
struct File
{
    std::string img;
    Cfg cfg;
    Meta meta;
    std::vector<FNode> nodes;
    KeyMap<int> index; // key -> nodes position
    KeySet pages;      // pages of the image
    std::vector<L::BNode> built;
    bool exact{false}; // coordinates, cubes and boxes are exact in binary
    double span{0};
    int maxd{-1};
    const FNode *find(const VoxelKey &k) const
    {
        auto it = index.find(k);
        return it == index.end() ? nullptr : &nodes[it->second];
    }
};
struct Cube
{
    double lo[3], hi[3];
};
inline double axis(const Vector3 &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
inline Cube cube_of(const VoxelKey &k, const Vector3 &mn, double span)
{
    Cube c;
    double step = std::ldexp(span, -k.d);
    int x[3] = {k.x, k.y, k.z};
    for (int i = 0; i < 3; i++)
    {
        c.lo[i] = step * x[i] + axis(mn, i);
        c.hi[i] = c.lo[i] + step;
    }
    return c;
}
struct Opt
{
    bool spatial{}, built{}, empty_nodes{};
    int maxn{40}, maxd{5}, maxpts{6};
    bool stray{}; // some points outside of their cube or the header bounds
    int many{};     // this many nodes, all on one level
    int big_node{}; // one node with this many points
    size_t long_wkt{};
};

inline KeySet random_tree(Rng &r, int n, int maxd)
{
    KeySet s;
    for (int i = 0; i < n; i++)
    {
        VoxelKey k;
        if (!s.empty() && r.chance(65))
        {
            auto it = s.begin();
            std::advance(it, r.below(s.size()));
            k = r.chance(25) ? up(*it, (int)r.below(it->d + 1)) : child(*it, (int)r.below(8));
            if (k.d > maxd)
                k = random_key(r, maxd);
        }
        else
            k = random_key(r, maxd);
        s.insert(k);
    }
    return s;
}

inline File make(Rng &r, const Opt &o, L::Layout lo = {})
{
    File f;
    f.cfg = rand_cfg(r, false);
    if (o.long_wkt)
        f.cfg.wkt = std::string(o.long_wkt, 'W') + f.cfg.wkt;
    int n = r.chance(4) ? 0 : (int)r.range(1, r.chance(70) ? std::min(12, o.maxn) : o.maxn);
    if (o.spatial)
    {
        f.exact = r.chance(60);
        if (f.exact)
        {
            static const double sc[] = {1, 0.5, 0.25, 2};
            f.cfg.scale = Vector3(sc[r.below(4)], sc[r.below(4)], sc[r.below(4)]);
            f.cfg.offset = Vector3((double)r.range(-100, 100), (double)r.range(-100, 100), (double)r.range(-100, 100));
        }
        else
        {
            static const double sc[] = {0.01, 0.001, 0.0001, 0.1};
            f.cfg.scale = Vector3(sc[r.below(4)], sc[r.below(4)], sc[r.below(4)]);
            f.cfg.offset = rand_offset(r);
        }
    }
    f.meta = rand_meta(r, base_dims(f.cfg.fmt) + f.cfg.eb.items.size());
    if (o.spatial)
    {
        if (f.exact)
        {
            f.span = std::ldexp(1.0, (int)r.range(5, 12));
            f.meta.min = Vector3((double)r.range(-500, 500), (double)r.range(-500, 500), (double)r.range(-500, 500));
        }
        else
        {
            f.span = std::ldexp(r.unit() + 0.5, (int)r.range(3, 11));
            f.meta.min = Vector3(f.cfg.offset.x + r.unit() * 100 - 50, f.cfg.offset.y + r.unit() * 100 - 50, f.cfg.offset.z + r.unit() * 100 - 50);
        }
        int big = (int)r.below(3);
        double e[3];
        for (int i = 0; i < 3; i++)
            e[i] = i == big || r.chance(40) ? f.span : f.exact ? std::floor(f.span * r.unit()) : f.span * r.unit();
        f.meta.max = Vector3(f.meta.min.x + e[0], f.meta.min.y + e[1], f.meta.min.z + e[2]);
        f.span = std::max({f.meta.max.x - f.meta.min.x, f.meta.max.y - f.meta.min.y, f.meta.max.z - f.meta.min.z});
    }
    KeySet tree;
    if (o.many)
    {
        int d = o.many > 20000 ? 7 : (int)r.range(5, 9);
        while ((int)tree.size() < o.many)
            tree.insert(VoxelKey(d, (int)r.below(1u << d), (int)r.below(1u << d), (int)r.below(1u << d)));
    }
    else
        tree = random_tree(r, n, o.maxd);
    VoxelKey bulky = tree.empty() ? VoxelKey() : *std::next(tree.begin(), r.below(tree.size()));
    // pages: the root and random ancestors of nodes
    KeySet pages;
    pages.insert(VoxelKey(0, 0, 0, 0));
    if (!tree.empty())
    {
        std::vector<VoxelKey> tv(tree.begin(), tree.end());
        int np = (int)r.below(6);
        for (int i = 0; i < np; i++)
        {
            VoxelKey k = r.pick(tv);
            pages.insert(up(k, (int)r.below(k.d + 1)));
        }
    }
    for (auto &k : tree)
    {
        FNode nd;
        nd.key = k;
        std::vector<VoxelKey> c;
        for (auto &p : pages)
            if (is_anc(p, k))
                c.push_back(p);
        nd.page = r.chance(60) ? c.back() : r.pick(c);
        int np = o.empty_nodes && r.chance(15) ? 0 : (int)r.range(1, o.maxpts);
        if (o.big_node && k == bulky)
            np = o.big_node;
        for (int i = 0; i < np; i++)
        {
            Raw p = rand_raw(r, f.cfg.ebn);
            if (o.spatial)
            {
                Cube cu = cube_of(k, f.meta.min, f.span);
                int32_t *v[3] = {&p.x, &p.y, &p.z};
                bool ok = true;
                for (int a = 0; a < 3; a++)
                {
                    double s = axis(f.cfg.scale, a), off = axis(f.cfg.offset, a);
                    double top = std::min(cu.hi[a], axis(f.meta.max, a));
                    if (o.stray)
                        top = cu.hi[a];
                    double lo_i = std::ceil((cu.lo[a] - off) / s), hi_i = std::floor((top - off) / s);
                    if (!f.exact)
                        lo_i += 1, hi_i -= 1; // keep away from the faces, where rounding decides
                    if (lo_i > hi_i)
                    {
                        ok = false;
                        break;
                    }
                    int64_t a0 = (int64_t)lo_i, a1 = (int64_t)hi_i;
                    *v[a] = (int32_t)(r.chance(15) ? a0 : r.chance(15) ? a1 : r.range(a0, a1));
                }
                if (!ok)
                    continue;
                if (o.stray && r.chance(10))
                {
                    int a = (int)r.below(3);
                    *v[a] += (int32_t)(r.chance(50) ? 1 : -1) * (int32_t)std::ceil((cu.hi[a] - cu.lo[a]) / axis(f.cfg.scale, a) * (0.05 + 1.2 * r.unit()));
                }
            }
            nd.pts.push_back(p);
        }
        if (nd.pts.empty() && !o.empty_nodes)
            continue;
        nd.raw = W::to_raw(nd.pts, f.cfg.fmt);
        f.index[k] = (int)f.nodes.size();
        f.nodes.push_back(nd);
        f.maxd = std::max(f.maxd, k.d);
    }
    if (o.built)
    {
        f.pages = pages;
        for (auto &nd : f.nodes)
        {
            L::BNode b;
            b.key = nd.key;
            b.page = nd.page;
            b.raw = nd.raw;
            f.built.push_back(b);
        }
        f.img = L::build(r, f.cfg, f.meta, f.built, f.pages, lo);
    }
    else
    {
        f.pages.insert(VoxelKey(0, 0, 0, 0));
        std::stringstream ss;
        {
            auto c = W::make_cfg(f.cfg);
            W::set_meta(c, f.meta);
            copc::Writer w(ss, c);
            std::vector<size_t> order;
            for (size_t i = 0; i < f.nodes.size(); i++)
                order.push_back(i);
            r.shuffle(order);
            for (auto i : order)
            {
                auto &nd = f.nodes[i];
                if (nd.raw.empty())
                    continue;
                w.AddNode(nd.key, nd.raw, nd.page);
                f.pages.insert(nd.page);
            }
            w.Close();
        }
        f.img = ss.str();
    }
    return f;
}

inline std::string describe(const File &f)
{
    std::ostringstream s;
    s << f.nodes.size() << " nodes to depth " << f.maxd << " in " << f.pages.size() << " pages, format " << int(f.cfg.fmt) << "+" << f.cfg.ebn
      << " bytes" << (f.exact ? ", exact grid" : "");
    return s.str();
}
inline uint64_t sign(const File &f) { return H::hashs(f.img); }
inline KeySet key_set(const std::vector<Node> &v, bool *dup = nullptr)
{
    KeySet s;
    for (auto &n : v)
        if (!s.insert(n.key).second && dup)
            *dup = true;
    return s;
}
inline std::string list(const KeySet &s)
{
    std::string o;
    int n = 0;
    for (auto &k : s)
    {
        if (++n > 12)
        {
            o += " ...";
            break;
        }
        o += " " + ks(k);
    }
    return o.empty() ? " none" : o;
}
} // namespace FG
