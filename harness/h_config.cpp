// C27: a pool of configurations, readers and writers, random copies, conversions and mutations; after every step
// every object is compared with its own model.
#include "common.hpp"
#include "hist.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>

using namespace G;
using copc::CopcConfig;
using copc::CopcConfigWriter;
using copc::CopcExtent;
using copc::CopcExtents;
using copc::CopcInfo;
using copc::las::EbVlr;
using copc::las::LasHeader;
using copc::las::LazConfig;
using copc::las::LazConfigWriter;

namespace
{
struct HV
{
    int fmt{}, rec{};
    Vector3 scale, offset, mn, mx;
    uint64_t count{}, evo{};
    uint32_t poff{}, vlrs{}, evlrs{};
    bool copc{};
    std::string guid, sys, gen;
    uint16_t src{}, enc{}, day{}, year{};
    std::array<uint64_t, 15> ret{};
};
struct V
{
    HV h;
    std::string wkt;
    std::vector<lazperf::eb_vlr::ebfield> eb;
    bool has_copc{false}; // info and extents
    bool flag_matters{true};
    double info[5]{};
    uint64_t hier[2]{};
    bool stats{};
    int ext_fmt{};
    std::vector<std::array<double, 4>> ext;
};

HV take(const LasHeader &h)
{
    HV v;
    v.fmt = h.PointFormatId();
    v.rec = h.PointRecordLength();
    v.scale = h.Scale();
    v.offset = h.Offset();
    v.mn = h.min;
    v.mx = h.max;
    v.count = h.PointCount();
    v.evo = h.EvlrOffset();
    v.poff = h.PointOffset();
    v.vlrs = h.VlrCount();
    v.evlrs = h.EvlrCount();
    v.copc = h.IsCopc();
    v.guid = h.GUID();
    v.sys = h.SystemIdentifier();
    v.gen = h.GeneratingSoftware();
    v.src = h.file_source_id;
    v.enc = h.global_encoding;
    v.day = h.creation_day;
    v.year = h.creation_year;
    v.ret = h.points_by_return;
    return v;
}
void take_ext(V &v, const CopcExtents &e)
{
    v.ext_fmt = e.PointFormatId();
    v.stats = e.HasExtendedStats();
    v.ext.clear();
    for (auto &x : e.Extents())
        v.ext.push_back({x.minimum, x.maximum, x.mean, x.var});
}
void take_info(V &v, const CopcInfo &i)
{
    v.info[0] = i.center_x;
    v.info[1] = i.center_y;
    v.info[2] = i.center_z;
    v.info[3] = i.halfsize;
    v.info[4] = i.spacing;
    v.hier[0] = i.root_hier_offset;
    v.hier[1] = i.root_hier_size;
}
V take_laz(const LazConfig &c)
{
    V v;
    v.h = take(c.LasHeader());
    v.wkt = c.Wkt();
    v.eb = c.ExtraBytesVlr().items;
    return v;
}
V take_copc(const CopcConfig &c)
{
    V v = take_laz(c);
    v.has_copc = true;
    take_info(v, c.CopcInfo());
    take_ext(v, c.CopcExtents());
    return v;
}
std::string differ(const V &a, const V &b)
{
    std::ostringstream d;
    d.precision(17);
#define F(f)                                                                                                           \
    if (!(a.h.f == b.h.f))                                                                                             \
        d << " " #f " is " << a.h.f << " want " << b.h.f;
    F(fmt) F(rec) F(scale) F(offset) F(mn) F(mx) F(count) F(evo) F(poff) F(vlrs) F(evlrs) F(guid) F(sys) F(gen) F(src) F(enc) F(day) F(year)
#undef F
    if (a.h.ret != b.h.ret)
        d << " points_by_return";
    if (b.flag_matters && a.h.copc != b.h.copc)
        d << " IsCopc is " << a.h.copc;
    if (a.wkt != b.wkt)
        d << " wkt";
    bool same = a.eb.size() == b.eb.size();
    for (size_t i = 0; same && i < a.eb.size(); i++)
        same = same_eb(a.eb[i], b.eb[i]);
    if (!same)
        d << " extra bytes (" << a.eb.size() << " fields, want " << b.eb.size() << ")";
    if (b.has_copc)
    {
        for (int i = 0; i < 5; i++)
            if (!(a.info[i] == b.info[i]))
                d << " info " << i << " is " << a.info[i] << " want " << b.info[i];
        if (a.hier[0] != b.hier[0] || a.hier[1] != b.hier[1])
            d << " root hierarchy";
        if (a.stats != b.stats)
            d << " extended stats";
        if (a.ext_fmt != b.ext_fmt)
            d << " extents format";
        if (a.ext.size() != b.ext.size())
            d << " " << a.ext.size() << " extents, want " << b.ext.size();
        else
            for (size_t i = 0; i < a.ext.size(); i++)
                if (a.ext[i] != b.ext[i])
                {
                    d << " extent " << i << " is " << a.ext[i][0] << "/" << a.ext[i][1] << "/" << a.ext[i][2] << "/" << a.ext[i][3] << " want " << b.ext[i][0]
                      << "/" << b.ext[i][1] << "/" << b.ext[i][2] << "/" << b.ext[i][3];
                    break;
                }
    }
    return d.str();
}

enum Type
{
    LC,
    LW,
    CC,
    CW,
    WRITER,
    LAZWRITER,
    READER,
    LAZREADER
};
const char *type_name[] = {"LazConfig", "LazConfigWriter", "CopcConfig", "CopcConfigWriter", "Writer", "LazWriter", "Reader", "LazReader"};

// An object that keeps its stream alive, whatever order the members of an Obj are assigned in
template <typename T> std::shared_ptr<T> with(std::shared_ptr<std::stringstream> io, T *p)
{
    return std::shared_ptr<T>(p, [io](T *q) { delete q; });
}

struct Obj
{
    Type t;
    V v;
    std::shared_ptr<LazConfig> lc;
    std::shared_ptr<LazConfigWriter> lw;
    std::shared_ptr<CopcConfig> cc;
    std::shared_ptr<CopcConfigWriter> cw;
    std::shared_ptr<std::stringstream> io;
    std::shared_ptr<copc::Writer> w;
    std::shared_ptr<copc::laz::LazWriter> zw;
    std::shared_ptr<copc::Reader> rd;
    std::shared_ptr<copc::laz::LazReader> zr;
    std::shared_ptr<const std::string> from;

    V now() const
    {
        switch (t)
        {
        case LC: return take_laz(*lc);
        case LW: return take_laz(*lw);
        case CC: return take_copc(*cc);
        case CW: return take_copc(*cw);
        case WRITER: return take_copc(*w->CopcConfig());
        case LAZWRITER: return take_laz(*zw->LazConfig());
        case READER: return take_copc(rd->CopcConfig());
        default: return take_laz(zr->LazConfig());
        }
    }
    // the configuration as seen through its bases
    const LazConfig &laz() const
    {
        const LazConfig *p = t == LC ? lc.get() : t == LW ? (const LazConfig *)lw.get() : t == CC ? (const LazConfig *)cc.get() : (const LazConfig *)cw.get();
        return *p;
    }
    const CopcConfig &copc() const
    {
        const CopcConfig *p = t == CC ? cc.get() : (const CopcConfig *)cw.get();
        return *p;
    }
};
} // namespace

static void set_text(Rng &r, LasHeader &h, HV &v)
{
    switch (r.below(3))
    {
    case 0: v.guid = rand_text(r, 16), h.GUID(v.guid); break;
    case 1: v.sys = rand_text(r, 32), h.SystemIdentifier(v.sys); break;
    default: v.gen = rand_text(r, 32), h.GeneratingSoftware(v.gen); break;
    }
}
static std::string mutate_header(Rng &r, LasHeader &h, HV &v)
{
    int k = (int)r.below(8);
    switch (k)
    {
    case 0: set_text(r, h, v); break;
    case 1: h.file_source_id = v.src = r.next(); break;
    case 2: h.global_encoding = v.enc = r.next(); break;
    case 3: h.creation_day = v.day = r.next(); break;
    case 4: h.creation_year = v.year = r.next(); break;
    case 5: h.min = v.mn = Vector3(std::min(v.mx.x, rand_finite(r)), std::min(v.mx.y, rand_finite(r)), std::min(v.mx.z, rand_finite(r))); break;
    case 6: h.max = v.mx = Vector3(std::max(v.mn.x, rand_finite(r)), std::max(v.mn.y, rand_finite(r)), std::max(v.mn.z, rand_finite(r))); break;
    default: h.points_by_return[r.below(15)] = r.next(); v.ret = h.points_by_return;
    }
    return "header" + std::to_string(k);
}
static std::string mutate_info(Rng &r, CopcInfo &i, V &v)
{
    int k = (int)r.below(5);
    v.info[k] = rand_finite(r);
    double *f[] = {&i.center_x, &i.center_y, &i.center_z, &i.halfsize, &i.spacing};
    *f[k] = v.info[k];
    return "info" + std::to_string(k);
}
static std::string mutate_extents(Rng &r, CopcExtents &e, V &v)
{
    auto all = e.Extents();
    size_t k = r.below(all.size());
    auto x = rand_extent(r);
    *all[k] = x;
    if (k < v.ext.size())
        v.ext[k] = {x.minimum, x.maximum, x.mean, x.var};
    return "extent" + std::string(k < 14 ? "-base" : "-more");
}
// the extents a configuration with another format and extra bytes inherits
static void derive_ext(V &v, int fmt, size_t neb, bool stats)
{
    auto old = v.ext;
    int of = v.ext_fmt;
    size_t nb = base_dims(fmt), ob = base_dims(of);
    std::vector<std::array<double, 4>> n(nb + neb, {0, 0, 0, 1});
    for (int i = 0; i < 14; i++)
        n[i] = old[i];
    if (fmt > 6 && of > 6)
        for (int i = 14; i < 17; i++)
            n[i] = old[i];
    if (fmt == 8 && of == 8)
        n[17] = old[17];
    if (old.size() - ob == neb)
        for (size_t i = 0; i < neb; i++)
            n[nb + i] = old[ob + i];
    v.ext = n;
    v.ext_fmt = fmt;
    v.stats = stats;
}

static V fresh(const Cfg &c, bool copc)
{
    V v;
    v.h.fmt = c.fmt;
    v.h.rec = c.rec();
    v.h.scale = c.scale;
    v.h.offset = c.offset;
    v.h.copc = copc;
    v.wkt = c.wkt;
    v.eb = c.eb.items;
    v.has_copc = copc;
    if (copc)
    {
        v.ext_fmt = c.fmt;
        v.stats = c.ext_stats;
        v.ext.assign(base_dims(c.fmt) + c.eb.items.size(), {0, 0, 0, 1});
    }
    return v;
}

void run_case(uint64_t n, Rng &r)
{
    std::vector<Obj> pool;
    std::string log;
    auto idx = [&](std::function<bool(const Obj &)> f) -> int
    {
        std::vector<int> c;
        for (size_t i = 0; i < pool.size(); i++)
            if (f(pool[i]))
                c.push_back((int)i);
        return c.empty() ? -1 : r.pick(c);
    };
    auto is_config = [](const Obj &o) { return o.t <= CW; };
    auto is_copc_config = [](const Obj &o) { return o.t == CC || o.t == CW; };
    auto create = [&]
    {
        Cfg c = rand_cfg(r, false);
        Obj o;
        if (r.chance(10))
        {
            int8_t f = (int8_t)(r.chance(50) ? r.pick(std::vector<int>{5, 9, 0, -1, 127, -128}) : (int)r.range(9, 127));
            EXPECT(throws([&] { CopcConfigWriter x(f, c.scale, c.offset, c.wkt, c.eb, c.ext_stats); }) && throws([&] { LazConfigWriter x(f, c.scale, c.offset, c.wkt, c.eb); }), "format-refused", "a configuration of format " << (int)f);
            H::count("refusals");
        }
        if (r.chance(10)) // nothing in it yet
        {
            o.t = r.chance(50) ? LC : CC;
            if (o.t == LC)
                o.lc = std::make_shared<LazConfig>(), o.v = take_laz(*o.lc), o.v.flag_matters = false;
            else
                o.cc = std::make_shared<CopcConfig>(), o.v = take_copc(*o.cc);
            EXPECT(o.v.h.fmt == 6 && o.v.h.count == 0 && o.v.wkt.empty() && o.v.eb.empty() && (o.t == LC || o.v.ext.size() == 14), "default-config", "format " << o.v.h.fmt);
        }
        else if (r.chance(20))
        {
            LasHeader h((int8_t)c.fmt, (uint16_t)c.rec(), c.scale, c.offset, r.chance(50));
            o.t = LC;
            o.lc = std::make_shared<LazConfig>(h, c.wkt, c.eb);
            o.v = fresh(c, false);
            o.v.flag_matters = false;
            HV scrap;
            mutate_header(r, h, scrap);
        }
        else if (r.chance(60))
        {
            o.t = CW;
            o.cw = std::make_shared<CopcConfigWriter>(c.fmt, c.scale, c.offset, c.wkt, c.eb, c.ext_stats);
            o.v = fresh(c, true);
        }
        else
        {
            o.t = LW;
            o.lw = std::make_shared<LazConfigWriter>(c.fmt, c.scale, c.offset, c.wkt, c.eb);
            o.v = fresh(c, false);
        }
        pool.push_back(o);
        return "create " + std::string(type_name[o.t]);
    };
    auto mutate = [&](Obj &o) -> std::string
    {
        int k = (int)r.below(3);
        if (o.t == CW || o.t == WRITER)
        {
            auto &c = o.t == CW ? *o.cw : *o.w->CopcConfig();
            return k == 0 ? mutate_header(r, *c.LasHeader(), o.v.h) : k == 1 ? mutate_info(r, *c.CopcInfo(), o.v) : mutate_extents(r, *c.CopcExtents(), o.v);
        }
        if (o.t == LW)
            return mutate_header(r, *o.lw->LasHeader(), o.v.h);
        if (o.t == LAZWRITER)
            return mutate_header(r, *o.zw->LazConfig()->LasHeader(), o.v.h);
        return "";
    };
    // change everything in what a getter of a const configuration returned
    auto mutate_returned = [&](Obj &o)
    {
        V scrap = o.v;
        LasHeader h;
        EbVlr eb(0);
        if (o.t <= CW)
            h = o.laz().LasHeader(), eb = o.laz().ExtraBytesVlr();
        else if (o.t == READER)
            h = o.rd->CopcConfig().LasHeader(), eb = o.rd->CopcConfig().ExtraBytesVlr();
        else if (o.t == LAZREADER)
            h = o.zr->LazConfig().LasHeader(), eb = o.zr->LazConfig().ExtraBytesVlr();
        for (int i = 0; i < 4; i++)
            mutate_header(r, h, scrap.h);
        for (auto &f : eb.items)
            f.name += "?", f.data_type ^= 1;
        if (o.v.has_copc)
        {
            CopcInfo i = o.t <= CW ? o.copc().CopcInfo() : o.t == READER ? o.rd->CopcConfig().CopcInfo() : CopcInfo();
            mutate_info(r, i, scrap);
            if (o.t <= CW || o.t == READER)
            {
                CopcExtents e = o.t <= CW ? o.copc().CopcExtents() : o.rd->CopcConfig().CopcExtents();
                for (int q = 0; q < 5; q++)
                    mutate_extents(r, e, scrap);
            }
        }
    };

    int steps = (int)r.range(4, 40);
    create();
    for (int s = 0; s < steps; s++)
    {
        std::string what;
        switch (r.below(14))
        {
        case 0:
            if (pool.size() < 14)
                what = create();
            break;
        case 1:
        case 2: // a copy or conversion
        {
            int i = idx(is_config);
            if (i < 0 || pool.size() > 16)
                break;
            Obj &src = pool[i];
            Obj o;
            o.v = src.v;
            switch (src.t)
            {
            case LC:
                if (r.chance(50))
                    o.t = LC, o.lc = std::make_shared<LazConfig>(*src.lc);
                else
                    o.t = LW, o.lw = std::make_shared<LazConfigWriter>(*src.lc);
                break;
            case LW: o.t = LW, o.lw = std::make_shared<LazConfigWriter>(*src.lw); break;
            case CC:
                switch (r.below(4))
                {
                case 0: o.t = CC, o.cc = std::make_shared<CopcConfig>(*src.cc); break;
                case 1: o.t = CW, o.cw = std::make_shared<CopcConfigWriter>(*src.cc); break;
                case 2: o.t = LC, o.lc = std::make_shared<LazConfig>(*src.cc); break;
                default: o.t = LW, o.lw = std::make_shared<LazConfigWriter>(*src.cc);
                }
                break;
            default:
                switch (r.below(4))
                {
                case 0: o.t = CC, o.cc = std::make_shared<CopcConfig>(*src.cw); break;
                case 1: o.t = CW, o.cw = std::make_shared<CopcConfigWriter>(*src.cw); break;
                case 2: o.t = LC, o.lc = std::make_shared<LazConfig>(*src.cw); break;
                default: o.t = LW, o.lw = std::make_shared<LazConfigWriter>(*src.cw);
                }
            }
            what = std::string("copy ") + type_name[src.t] + ">" + type_name[o.t];
            o.v.has_copc = o.t == CC || o.t == CW;
            if (o.t == LW)
                o.v.h.copc = false, o.v.flag_matters = true;
            if (o.t == LC)
                o.v.flag_matters = false;
            pool.push_back(o);
            break;
        }
        case 3: // assignment between two of a kind
        {
            int i = idx(is_config);
            if (i < 0)
                break;
            int j = idx([&](const Obj &o) { return o.t == pool[i].t; });
            Obj &a = pool[i], &b = pool[j];
            bool m = a.v.flag_matters;
            switch (a.t)
            {
            case LC: *a.lc = *b.lc; break;
            case LW: *a.lw = *b.lw; break;
            case CC: *a.cc = *b.cc; break;
            default: *a.cw = *b.cw;
            }
            if (i != j)
                a.v = b.v, a.v.flag_matters = m && b.v.flag_matters;
            what = std::string("assign ") + type_name[a.t] + (i == j ? " to itself" : "");
            break;
        }
        case 4:
        case 5:
        case 6: // mutation through the mutable accessors
        {
            int i = idx([](const Obj &o) { return o.t == LW || o.t == CW || o.t == WRITER || o.t == LAZWRITER; });
            if (i < 0)
                break;
            what = std::string("mutate ") + type_name[pool[i].t];
            std::string k;
            for (int q = (int)r.range(1, 4); q > 0; q--)
                k = mutate(pool[i]);
            H::note("mutated", k);
            break;
        }
        case 7: // mutation of returned values
        {
            int i = idx([](const Obj &o) { return o.t != WRITER && o.t != LAZWRITER; });
            if (i < 0)
                break;
            mutate_returned(pool[i]);
            what = std::string("mutate what ") + type_name[pool[i].t] + " returned";
            break;
        }
        case 8: // a COPC configuration out of the elements of others
        {
            int i = idx(is_config), j = idx(is_copc_config);
            if (i < 0 || j < 0 || pool.size() > 16)
                break;
            Obj o;
            auto ep = std::make_shared<CopcExtents>(pool[j].copc().CopcExtents());
            auto f = pool[j].copc().CopcInfo();
            o.v = pool[i].v;
            o.v.has_copc = true;
            o.v.h.copc = true;
            o.v.flag_matters = true;
            std::copy(pool[j].v.info, pool[j].v.info + 5, o.v.info);
            std::copy(pool[j].v.hier, pool[j].v.hier + 2, o.v.hier);
            o.v.ext = pool[j].v.ext;
            o.v.ext_fmt = pool[j].v.ext_fmt;
            o.v.stats = pool[j].v.stats;
            auto h = pool[i].laz().LasHeader();
            if (r.chance(50)) // for the point format and extra bytes of the other
            {
                size_t neb = r.chance(30) ? o.v.ext.size() - base_dims(o.v.ext_fmt) : r.chance(80) ? o.v.eb.size() : r.below(4);
                int fmt = r.chance(80) ? o.v.h.fmt : (int)r.range(6, 8);
                bool st = r.chance(50);
                const CopcExtents &from = pool[j].t == CW && r.chance(70) ? *pool[j].cw->CopcExtents() : *ep;
                ep = std::make_shared<CopcExtents>(from, (int8_t)fmt, (uint16_t)neb, st); // no copy in between, which would hide what they share
                derive_ext(o.v, fmt, neb, st);
                H::note("step", "derive extents");
            }
            V scrap = o.v;
            auto &e = *ep;
            if (r.chance(50))
            {
                o.t = CC;
                if (r.chance(50))
                    o.cc = std::make_shared<CopcConfig>(pool[i].laz(), f, e);
                else
                    o.cc = std::make_shared<CopcConfig>(h, f, e, pool[i].laz().Wkt(), pool[i].laz().ExtraBytesVlr());
            }
            else
            {
                o.t = CW;
                o.cw = std::make_shared<CopcConfigWriter>(h, f, e, pool[i].laz().Wkt(), pool[i].laz().ExtraBytesVlr());
            }
            // the elements stay the caller's
            mutate_header(r, h, scrap.h);
            mutate_info(r, f, scrap);
            for (auto &x : e.Extents())
                *x = rand_extent(r);
            what = std::string("compose ") + type_name[o.t] + " with " + type_name[pool[i].t];
            pool.push_back(o);
            break;
        }
        case 9: // open a writer, perhaps with overrides
        {
            int i = idx([](const Obj &o) { return (o.t == CW || o.t == LW) && o.v.h.rec && (!o.v.has_copc || (o.v.ext_fmt == o.v.h.fmt && o.v.ext.size() == base_dims(o.v.h.fmt) + o.v.eb.size())); });
            if (i < 0 || pool.size() > 16)
                break;
            Obj o;
            o.v = pool[i].v;
            o.io = std::make_shared<std::stringstream>();
            if (pool[i].t == LW)
            {
                o.t = LAZWRITER;
                o.zw = with(o.io, new copc::laz::LazWriter(*o.io, *pool[i].lw));
                what = "open LazWriter";
            }
            else
            {
                o.t = WRITER;
                Cfg c = rand_cfg(r, false);
                std::optional<int8_t> fmt;
                std::optional<Vector3> scale, offset;
                std::optional<std::string> wkt;
                std::optional<EbVlr> eb;
                std::optional<bool> st;
                what = "open Writer";
                auto over = [&](const char *n) { what += std::string(" ") + n; };
                if (r.chance(60))
                {
                    if (r.chance(30)) fmt = c.fmt, over("format");
                    if (r.chance(30)) scale = c.scale, over("scale");
                    if (r.chance(30)) offset = c.offset, over("offset");
                    if (r.chance(30)) wkt = c.wkt, over("wkt");
                    if (r.chance(30)) eb = c.eb, over("eb");
                    if (r.chance(30)) st = c.ext_stats, over("stats");
                }
                o.w = with(o.io, new copc::Writer(*o.io, *pool[i].cw, fmt, scale, offset, wkt, eb, st));
                if (fmt || scale || offset || wkt || eb || st)
                {
                    if (fmt) o.v.h.fmt = *fmt;
                    if (scale) o.v.h.scale = *scale;
                    if (offset) o.v.h.offset = *offset;
                    if (wkt) o.v.wkt = *wkt;
                    if (eb) o.v.eb = eb->items;
                    o.v.h.rec = base_size(o.v.h.fmt) + eb_bytes(o.v.eb);
                    derive_ext(o.v, o.v.h.fmt, o.v.eb.size(), st ? *st : o.v.stats);
                }
            }
            pool.push_back(o);
            break;
        }
        case 10: // write a point, close, read
        {
            int i = idx([](const Obj &o) { return o.t == WRITER || o.t == LAZWRITER; });
            if (i < 0)
                break;
            Obj w = pool[i];
            pool.erase(pool.begin() + i);
            Raw p = rand_raw(r, w.v.h.rec - base_size(w.v.h.fmt));
            Bytes raw;
            encode(raw, p, w.v.h.fmt);
            Obj o;
            if (w.t == WRITER)
            {
                w.w->AddNode(VoxelKey(0, 0, 0, 0), raw);
                w.w->Close();
            }
            else
            {
                // WriteChunk takes bytes of whole points
                copc::las::Points pts = copc::las::Points::Unpack(raw, *w.zw->LazConfig()->LasHeader());
                w.zw->WritePoints(pts);
                w.zw->Close();
            }
            o.from = std::make_shared<const std::string>(w.io->str());
            o.io = std::make_shared<std::stringstream>(*o.from);
            if (w.t == WRITER)
            {
                o.t = READER;
                o.rd = with(o.io, new copc::Reader(o.io.get()));
            }
            else
            {
                o.t = LAZREADER;
                o.zr = with(o.io, new copc::laz::LazReader(o.io.get()));
            }
            V got = o.now();
            V want = w.v;
            want.h.enc |= 16;
            if (w.t == LAZWRITER)
                want.flag_matters = false;
            for (auto f : {0, 1, 2, 3, 4})
                switch (f) // set by the writer
                {
                case 0: want.h.count = 1; break;
                case 1: want.h.evo = got.h.evo; break;
                case 2: want.h.poff = got.h.poff; break;
                case 3: want.h.vlrs = got.h.vlrs; break;
                default: want.h.evlrs = got.h.evlrs;
                }
            want.hier[0] = got.hier[0];
            want.hier[1] = got.hier[1];
            if (want.has_copc && !want.stats) // mean and variance are not stored
                for (size_t k = 0; k < want.ext.size() && k < got.ext.size(); k++)
                    want.ext[k][2] = got.ext[k][2], want.ext[k][3] = got.ext[k][3];
            if (want.has_copc) // the header box is the x, y and z extent, and the GPS time extent is in the info record
                for (int k : {0, 1, 2})
                    want.ext[k][0] = got.ext[k][0], want.ext[k][1] = got.ext[k][1];
            std::string d = differ(got, want);
            EXPECT(d.empty(), "file-config", "configuration read back:" << d << " after " << log);
            what = std::string("write and open ") + type_name[o.t];
            o.v = got;
            pool.push_back(o);
            break;
        }
        case 11: // take the configuration of a reader or writer
        {
            int i = idx([](const Obj &o) { return o.t >= WRITER; });
            if (i < 0 || pool.size() > 16)
                break;
            Obj &src = pool[i];
            Obj o;
            o.v = src.v;
            switch (src.t)
            {
            case WRITER: o.t = CW, o.cw = std::make_shared<CopcConfigWriter>(*src.w->CopcConfig()); break;
            case LAZWRITER: o.t = LW, o.lw = std::make_shared<LazConfigWriter>(*src.zw->LazConfig()); break;
            case READER:
                switch (r.below(3))
                {
                case 0: o.t = CC, o.cc = std::make_shared<CopcConfig>(src.rd->CopcConfig()); break;
                case 1: o.t = CW, o.cw = std::make_shared<CopcConfigWriter>(src.rd->CopcConfig()); break;
                default: o.t = LW, o.lw = std::make_shared<LazConfigWriter>(src.rd->CopcConfig());
                }
                break;
            default:
                if (r.chance(50))
                    o.t = LC, o.lc = std::make_shared<LazConfig>(src.zr->LazConfig());
                else
                    o.t = LW, o.lw = std::make_shared<LazConfigWriter>(src.zr->LazConfig());
            }
            o.v.has_copc = o.t == CC || o.t == CW;
            if (o.t == LW)
                o.v.h.copc = false, o.v.flag_matters = true;
            if (o.t == LC)
                o.v.flag_matters = false;
            what = std::string("take ") + type_name[src.t] + ">" + type_name[o.t];
            pool.push_back(o);
            break;
        }
        case 12: // hand in an extent object of one's own
        {
            int i = idx([](const Obj &o) { return o.t == CW || o.t == WRITER; });
            if (i < 0)
                break;
            auto e = (pool[i].t == CW ? *pool[i].cw : *pool[i].w->CopcConfig()).CopcExtents();
            auto x = rand_extent(r);
            auto p = std::make_shared<CopcExtent>(x);
            int k = (int)r.below(4);
            if (k == 0) e->X(p), k = 0;
            else if (k == 1) e->Classification(p), k = 9;
            else if (k == 2) e->GpsTime(p), k = 13;
            else e->Intensity(p), k = 3;
            pool[i].v.ext[k] = {x.minimum, x.maximum, x.mean, x.var};
            what = "set extent";
            break;
        }
        default: // drop one
            if (pool.size() > 2)
            {
                size_t i = r.below(pool.size());
                what = std::string("drop ") + type_name[pool[i].t];
                pool.erase(pool.begin() + i);
            }
        }
        if (what.empty())
            continue;
        log += what + "; ";
        H::count("steps");
        H::note("step", what.substr(0, 60));
        for (size_t i = 0; i < pool.size(); i++)
        {
            std::string d = differ(pool[i].now(), pool[i].v);
            H::count("comparisons");
            if (!d.empty())
            {
                std::string key = what.substr(0, what.find(' '));
                bool last = i + 1 == pool.size() && (key == "create" || key == "copy" || key == "compose" || key == "open" || key == "take");
                H::violate(std::string(last ? "wrong:" : "side-effect:") + key, std::string(type_name[pool[i].t]) + " after '" + what + "':" + d + " [" + log + "]");
                return;
            }
        }
    }
    H::sig(H::hashs(log));
    H::sample(log);
}
