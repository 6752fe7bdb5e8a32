// C01 round trip, C02 conformance of written files, C04 metadata round trip, C19 rejected operations.
#include "hist.hpp"
using namespace W;

static const CopcConfigWriter &cc(const CopcConfigWriter &c) { return c; }

// ---- C01
static void verify_read(copc::Reader &rd, const Script &s, const Model &m, Rng &r)
{
    auto all = rd.GetAllNodes();
    KeyMap<int> seen;
    for (auto &n : all)
        seen[n.key]++;
    for (auto &x : seen)
        EXPECT(x.second == 1 && m.nodes.count(x.first), "extra-or-duplicate-node", ks(x.first) << " x" << x.second);
    for (auto &x : m.nodes)
        EXPECT(seen.count(x.first), "node-lost", ks(x.first) << " page " << ks(x.second.page));
    EXPECT(rd.CopcConfig().LasHeader().PointCount() == m.points, "header-point-count",
           rd.CopcConfig().LasHeader().PointCount() << " written " << m.points);
    std::vector<VoxelKey> order;
    for (auto &x : m.nodes)
        order.push_back(x.first);
    r.shuffle(order);
    for (auto &k : order)
    {
        auto &e = m.nodes.at(k);
        Node q = rd.FindNode(k);
        if (!q.IsValid())
        {
            H::violate("node-not-found", ks(k));
            continue;
        }
        EXPECT(q.offset == e.returned.offset && q.byte_size == e.returned.byte_size && q.point_count == (int)e.pts.size() &&
                   q.key == k,
               "node-entry", "wrote " << e.returned.ToString() << " read " << q.ToString());
        EXPECT(q.page_key == e.page, "node-page", ks(k) << " read page " << ks(q.page_key) << " want " << ks(e.page));
        int how = (int)r.below(4);
        if (how != 0 || r.chance(50))
            EXPECT(rd.GetPointData(q) == e.raw, "point-data", "GetPointData(node) of " << ks(k));
        if (how != 1)
            EXPECT(rd.GetPointData(k) == e.raw, "point-data", "GetPointData(key) of " << ks(k));
        if (how != 2)
            EXPECT(rd.GetPointDataCompressed(r.chance(50) ? q : rd.FindNode(k)) == e.packed, "compressed-data", "GetPointDataCompressed(node) of " << ks(k));
        if (how != 3)
            EXPECT(rd.GetPointDataCompressed(k) == e.packed, "compressed-data", "GetPointDataCompressed(key) of " << ks(k));
        auto pts = r.chance(50) ? rd.GetPoints(q) : rd.GetPoints(k);
        EXPECT(pts.Size() == e.pts.size(), "point-count", pts.Size() << " want " << e.pts.size());
        for (size_t i = 0; i < pts.Size() && i < e.pts.size(); i++)
        {
            auto d = diff_point(*pts[i], e.pts[i], s.cfg.fmt, s.cfg.scale, s.cfg.offset);
            EXPECT(d.empty(), "point-values", ks(k) << " point " << i << d);
            if (!d.empty())
                break;
        }
        H::count("nodes-read-back");
        H::count("points-compared", e.pts.size());
    }
    // absent keys
    for (int i = 0; i < 4; i++)
    {
        VoxelKey k = random_key(r, 8);
        if (m.nodes.count(k))
            continue;
        EXPECT(!rd.FindNode(k).IsValid() && rd.GetPointData(k).empty() && rd.GetPointDataCompressed(k).empty() &&
                   rd.GetPoints(k).Size() == 0,
               "absent-key", ks(k) << " is not in the file");
    }
    if (m.points)
    {
        auto ap = rd.GetAllPoints();
        EXPECT(ap.Size() == m.points, "all-points", ap.Size() << " want " << m.points);
        // as a multiset of records
        std::multiset<std::string> a, b;
        for (auto &x : m.nodes)
            for (size_t i = 0; i < x.second.raw.size(); i += s.cfg.rec())
                a.insert(std::string(x.second.raw.data() + i, s.cfg.rec()));
        auto packed = ap.Pack(rd.CopcConfig().LasHeader());
        for (size_t i = 0; i < packed.size(); i += s.cfg.rec())
            b.insert(std::string(packed.data() + i, s.cfg.rec()));
        EXPECT(a == b, "all-points-content", "GetAllPoints is not the union of the nodes' points");
    }
}

static void case_c01(Rng &r, int large = -1)
{
    Script s = large < 0 ? rand_script(r, false) : large_script(r, large);
    if (large >= 0)
    {
        H::note("large", std::to_string(large));
        H::count("large-files");
    }
    auto R = execute(s, false, "");
    H::note("format", std::to_string(s.cfg.fmt));
    H::note("pages", std::to_string(R.model.pages.size()));
    H::note("depth", std::to_string(R.model.nodes.empty() ? -1 : R.model.nodes.rbegin()->first.d));
    H::note("record-length", std::to_string(s.cfg.rec()));
    if (!R.model.nodes.empty())
        H::sig(H::hashs(R.image));
    std::ostringstream sm;
    sm << "fmt " << int(s.cfg.fmt) << " eb " << s.cfg.ebn << " nodes " << R.model.nodes.size() << " pages "
       << R.model.pages.size() << " points " << R.model.points << " bytes " << R.image.size();
    H::sample(sm.str());
    if (r.chance(20))
    {
        std::string path = H::tmpdir + "/r" + std::to_string(getpid()) + ".copc.laz";
        std::ofstream(path, std::ios::binary) << R.image;
        copc::FileReader rd(path);
        EXPECT(rd.FilePath() == path, "file-path", rd.FilePath());
        verify_read(rd, s, R.model, r);
        rd.Close();
        rd.Close();
        unlink(path.c_str());
    }
    else
    {
        std::istringstream in(R.image);
        copc::Reader rd(&in);
        verify_read(rd, s, R.model, r);
    }
}

// ---- C02
static void conform(const Script &s, const Result &R, const std::string &P)
{
    auto p = L::parse(R.image, true);
    for (auto &e : p.err)
        H::violate(P + e.substr(0, e.find(':')), e);
    auto &m = R.model;
    EXPECT((p.fmt & 0x7f) == s.cfg.fmt && p.rec_len == s.cfg.rec(), P + "format", int(p.fmt) << "/" << p.rec_len);
    EXPECT(p.count == m.points, P + "point-count", p.count << " written " << m.points);
    for (auto &x : m.pages)
        EXPECT(p.pages.count(x), P + "page-missing", ks(x));
    for (auto &x : p.pages)
        EXPECT(m.pages.count(x.first), P + "page-extra", ks(x.first));
    for (auto &x : p.nodes)
        EXPECT(m.nodes.count(x.first), P + "node-extra", ks(x.first));
    for (auto &x : m.nodes)
    {
        auto it = p.nodes.find(x.first);
        if (it == p.nodes.end())
        {
            H::violate(P + "node-missing", ks(x.first));
            continue;
        }
        EXPECT(p.node_page[x.first] == x.second.page, P + "node-page", ks(x.first) << " is in page " << ks(p.node_page[x.first]) << " want " << ks(x.second.page));
        EXPECT(it->second.count == (int)x.second.pts.size(), P + "node-count", ks(x.first));
        EXPECT(R.image.compare(it->second.offset, it->second.size, std::string(x.second.packed.begin(), x.second.packed.end())) == 0,
               P + "node-bytes", "chunk bytes of " << ks(x.first));
    }
    int wk = 0;
    for (auto &e : p.evlrs)
        if (e.user == "LASF_Projection" && e.id == 2112)
        {
            wk++;
            EXPECT(R.image.substr(e.payload, e.size) == s.cfg.wkt, P + "wkt", "WKT record differs");
        }
    EXPECT(wk == (s.cfg.wkt.empty() ? 0 : 1), P + "wkt", wk << " WKT records");
    EXPECT((p.find("LASF_Spec", 4) != nullptr) == (s.cfg.ebn > 0), P + "eb-vlr", "presence");
    EXPECT((p.find("rock_robotic", 10001) != nullptr) == s.cfg.ext_stats, P + "extended-stats", "presence");
    H::count("records-parsed", p.vlrs.size() + p.evlrs.size());
    H::count("entries-parsed", p.nodes.size() + p.pages.size());
}

static void case_c02(Rng &r, int large = -1)
{
    Script s = large < 0 ? rand_script(r, false) : large_script(r, large);
    if (large >= 0)
    {
        H::note("large", std::to_string(large));
        H::count("large-files");
    }
    auto R = execute(s, false, "");
    conform(s, R, "");
    H::note("pages", std::to_string(R.model.pages.size()));
    H::note("vlr-shape", std::to_string(s.cfg.ebn > 0) + std::to_string(s.cfg.ext_stats) + std::to_string(!s.cfg.wkt.empty()) + std::to_string(s.cfg.fmt));
    if (!R.model.nodes.empty())
        H::sig(H::hashs(R.image));
    std::ostringstream sm;
    sm << "nodes " << R.model.nodes.size() << " pages " << R.model.pages.size() << " image " << R.image.size();
    H::sample(sm.str());
}

// ---- C04
// the record classes that carry metadata, on their own
static void check_records(Rng &r)
{
    using copc::las::VlrHeader;
    lazperf::vlr_header v{(uint16_t)r.next(), rand_text(r, 16), (uint16_t)r.next(), (uint16_t)r.next(), rand_text(r, 32)};
    lazperf::evlr_header e{(uint16_t)r.next(), rand_text(r, 16), (uint16_t)r.next(), r.next(), rand_text(r, 32)};
    auto same = [](auto &a, auto &b) { return a.reserved == b.reserved && a.user_id == b.user_id && a.record_id == b.record_id && a.data_length == b.data_length && a.description == b.description; };
    VlrHeader a(v), b(e), c(a), d;
    d = b;
    auto a2 = a.ToLazperfVlrHeader();
    auto b2 = b.ToLazperfEvlrHeader(), d2 = d.ToLazperfEvlrHeader(), a3 = c.ToLazperfEvlrHeader();
    EXPECT(same(a, v) && same(a2, v) && same(a3, v) && !a.evlr_flag && !c.evlr_flag, "record-header", "VLR " << v.user_id << " " << v.record_id << " " << v.data_length << " " << v.description);
    EXPECT(same(b, e) && same(b2, e) && same(d2, e) && b.evlr_flag && d.evlr_flag, "record-header", "EVLR " << e.user_id << " " << e.record_id << " " << e.data_length << " " << e.description);
    using X = copc::las::CopcExtentsVlr;
    int n = (int)r.below(30);
    X x(n), y;
    std::string want;
    std::vector<std::pair<double, double>> vals;
    for (int i = 0; i < n; i++)
    {
        vals.push_back({rand_finite(r), rand_finite(r)});
        y.addItem({vals[i].first, vals[i].second});
        want.append((const char *)&vals[i].first, 8).append((const char *)&vals[i].second, 8);
    }
    for (int i = n; i-- > 0;)
        x.setItem(i, {vals[i].first, vals[i].second});
    for (auto *z : {&x, &y})
    {
        std::stringstream s;
        z->write(s);
        EXPECT(s.str() == want && z->size() == want.size() && z->header().data_length == want.size() && z->eheader().data_length == want.size() && z->header().user_id == "copc" &&
                   z->header().record_id == 10000 && z->eheader().user_id == "copc" && z->eheader().record_id == 10000,
               "extents-record", n << " entries, " << s.str().size() << " bytes");
        s << "more";
        auto back = X::create(s, (int)want.size());
        bool ok = (int)back.items.size() == n;
        for (int i = 0; ok && i < n; i++)
            ok = same_bytes(&back.items[i].minimum, &vals[i].first, 8) && same_bytes(&back.items[i].maximum, &vals[i].second, 8);
        EXPECT(ok && s.tellg() == (std::streamoff)want.size(), "extents-record", "read back " << back.items.size() << " of " << n);
    }
    H::count("records");
}
// extra bytes around what a record of 65535 bytes and a VLR of 65535 bytes hold: what fits comes back, what doesn't is refused
static void case_limits(Rng &r)
{
    Cfg c = rand_cfg(r, false);
    c.eb.items.clear();
    c.ebn = 0;
    int kind = (int)r.below(3), n = kind == 0 ? (int)r.range(335, 350) : 0;
    int want = kind == 0 ? 0 : 65535 - base_size(c.fmt) + (int)r.range(-3, 3) + (r.chance(20) ? (int)r.range(0, 20000) : 0);
    while ((int)c.eb.items.size() < n || c.ebn < want)
    {
        lazperf::eb_vlr::ebfield f = rand_ebfield(r);
        if (kind)
        {
            f.data_type = 0;
            f.options = (uint8_t)std::min(255, want - c.ebn);
        }
        c.eb.items.push_back(f);
        c.ebn += eb_type_size(f.data_type, f.options);
    }
    bool record = base_size(c.fmt) + c.ebn <= 65535, vlr = c.eb.items.size() * 192 <= 65535, laz = r.chance(40), over = !laz && r.chance(40), made = false;
    std::stringstream f;
    Raw q = rand_raw(r, record ? c.ebn : 0);
    std::string err;
    uint16_t length = 0;
    try
    {
        if (laz)
        {
            copc::las::LazConfigWriter cw(c.fmt, c.scale, c.offset, c.wkt, c.eb);
            length = cw.LasHeader()->PointRecordLength();
            copc::laz::LazWriter w(f, cw);
            made = true;
            w.WritePoints(to_points(*cw.LasHeader(), {q}));
            w.Close();
        }
        else
        {
            copc::CopcConfigWriter cw = over ? copc::CopcConfigWriter(c.fmt, c.scale, c.offset, c.wkt) : copc::CopcConfigWriter(c.fmt, c.scale, c.offset, c.wkt, c.eb);
            auto w = over ? std::make_unique<copc::Writer>(f, cw, std::optional<int8_t>(), std::optional<Vector3>(), std::optional<Vector3>(), std::optional<std::string>(), c.eb)
                          : std::make_unique<copc::Writer>(f, cw);
            made = true;
            length = w->CopcConfig()->LasHeader()->PointRecordLength();
            w->AddNode(VoxelKey(1, 0, 0, 0), to_points(*w->CopcConfig()->LasHeader(), {q}));
            w->Close();
        }
    }
    catch (const std::exception &e)
    {
        err = e.what();
    }
    std::string what = std::string(laz ? "LAZ" : over ? "COPC override" : "COPC") + ", records of " + std::to_string(base_size(c.fmt) + c.ebn) + ", " + std::to_string(c.eb.items.size()) + " fields";
    EXPECT(made == (record && vlr), made ? "too-large-accepted" : "limit-refused", what << " " << err);
    H::note("limit", record && vlr ? "fits" : record ? "fields" : "record");
    H::sig(H::mix(H::mix(c.ebn, c.eb.items.size()), c.fmt));
    if (!made || !(record && vlr))
        return;
    EXPECT(err.empty(), "limit-failed", what << " " << err);
    EXPECT(length == base_size(c.fmt) + c.ebn, "record-length", what << ": " << length);
    try
    {
        f.seekg(0);
        if (laz)
        {
            copc::laz::LazReader rd(&f);
            EXPECT(rd.LazConfig().ExtraBytesVlr().items == c.eb.items && rd.LazConfig().LasHeader().PointRecordLength() == length, "limit-lost", what);
            auto p = rd.GetPoints();
            EXPECT(p.Size() == 1 && p.Pack(rd.LazConfig().LasHeader()) == to_raw({q}, c.fmt), "limit-points", what);
        }
        else
        {
            copc::Reader rd(&f);
            EXPECT(rd.CopcConfig().ExtraBytesVlr().items == c.eb.items && rd.CopcConfig().LasHeader().PointRecordLength() == length, "limit-lost", what);
            EXPECT(rd.GetPointData(VoxelKey(1, 0, 0, 0)) == to_raw({q}, c.fmt), "limit-points", what);
        }
    }
    catch (const std::exception &e)
    {
        EXPECT(false, "limit-unreadable", what << " " << e.what());
    }
}
static void case_c04(Rng &r)
{
    if (r.chance(3))
    {
        case_limits(r);
        return;
    }
    // a base configuration, and possibly overrides when the writer is opened
    Cfg base = rand_cfg(r);
    Meta m = rand_meta(r, base_dims(base.fmt) + base.eb.items.size());
    auto cw = make_cfg(base);
    bool late = r.chance(40);
    if (!late)
        set_meta(cw, m);
    Cfg eff = base;
    std::optional<int8_t> o_fmt;
    std::optional<Vector3> o_scale, o_off;
    std::optional<std::string> o_wkt;
    std::optional<copc::las::EbVlr> o_eb;
    std::optional<bool> o_ext;
    bool over = r.chance(60);
    if (over)
    {
        Cfg alt = rand_cfg(r);
        if (r.chance(40)) o_fmt = eff.fmt = alt.fmt;
        if (r.chance(40)) o_scale = eff.scale = alt.scale;
        if (r.chance(40)) o_off = eff.offset = alt.offset;
        if (r.chance(40)) o_wkt = eff.wkt = alt.wkt;
        if (r.chance(40))
        {
            if (r.chance(30))
            {
                // same number of fields, other fields: their statistics are carried over
                alt.eb.items.clear();
                alt.ebn = 0;
                for (size_t i = 0; i < base.eb.items.size(); i++)
                {
                    alt.eb.items.push_back(rand_ebfield(r));
                    alt.ebn += eb_type_size(alt.eb.items[i].data_type, alt.eb.items[i].options);
                }
            }
            o_eb = eff.eb = alt.eb;
            eff.ebn = alt.ebn;
        }
        if (r.chance(40)) o_ext = eff.ext_stats = alt.ext_stats;
    }
    size_t dims = base_dims(eff.fmt) + eff.eb.items.size();
    // what the statistics must be after the overrides
    std::vector<copc::CopcExtent> ext(dims);
    if (!late)
    {
        size_t bd = base_dims(base.fmt), ed = base_dims(eff.fmt);
        for (size_t i = 0; i < 14; i++) ext[i] = m.ext[i];
        if (base.fmt > 6 && eff.fmt > 6)
            for (size_t i = 14; i < 17; i++) ext[i] = m.ext[i];
        if (base.fmt == 8 && eff.fmt == 8) ext[17] = m.ext[17];
        if (base.eb.items.size() == eff.eb.items.size())
            for (size_t i = 0; i < eff.eb.items.size(); i++) ext[ed + i] = m.ext[bd + i];
    }
    std::stringstream ss;
    int npts = (int)r.below(4);
    std::vector<Raw> pts;
    for (int i = 0; i < npts; i++) pts.push_back(rand_raw(r, eff.ebn));
    {
        copc::Writer w(ss, cw, o_fmt, o_scale, o_off, o_wkt, o_eb, o_ext);
        if (late)
        {
            m.ext = rand_meta(r, dims).ext;
            ext = m.ext;
            set_meta(*w.CopcConfig(), m);
        }
        if (r.chance(30)) // change single statistics afterwards through the named accessors
        {
            auto e = w.CopcConfig()->CopcExtents();
            auto x = rand_extent(r);
            typedef std::shared_ptr<copc::CopcExtent> S;
            std::vector<std::function<S()>> get{[&] { return e->X(); }, [&] { return e->Y(); }, [&] { return e->Z(); },
                [&] { return e->Intensity(); }, [&] { return e->ReturnNumber(); }, [&] { return e->NumberOfReturns(); },
                [&] { return e->ScannerChannel(); }, [&] { return e->ScanDirectionFlag(); }, [&] { return e->EdgeOfFlightLine(); },
                [&] { return e->Classification(); }, [&] { return e->UserData(); }, [&] { return e->ScanAngle(); },
                [&] { return e->PointSourceId(); }, [&] { return e->GpsTime(); }};
            if (eff.fmt > 6) { get.push_back([&] { return e->Red(); }); get.push_back([&] { return e->Green(); }); get.push_back([&] { return e->Blue(); }); }
            if (eff.fmt == 8) get.push_back([&] { return e->Nir(); });
            size_t i = r.below(get.size());
            *get[i]() = x;
            ext[i] = x;
        }
        {
            auto &wc = cc(*w.CopcConfig());
            auto h = wc.LasHeader();
            EXPECT(h.PointFormatId() == eff.fmt && h.PointRecordLength() == eff.rec(), "writer-format", int(h.PointFormatId()) << " " << h.PointRecordLength());
            EXPECT(h.Scale() == eff.scale && h.Offset() == eff.offset && wc.Wkt() == eff.wkt, "writer-overrides", h.Scale() << h.Offset());
        }
        if (npts) w.AddNode(VoxelKey(0, 0, 0, 0), to_points(cc(*w.CopcConfig()).LasHeader(), pts));
        w.Close();
    }
    Cfg expect = eff;
    if (!late)
        ; // header metadata set on the base configuration survives the overrides
    std::istringstream in(ss.str());
    std::string img = ss.str();
    bool degenerate = eff.ebn == 0 && !eff.eb.items.empty();
    if (degenerate)
        return;
    copc::Reader rd(&in);
    check_config(rd.CopcConfig(), expect, m, ext, "");
    auto p = L::parse(img, true);
    EXPECT(p.gps_min == ext[13].minimum && p.gps_max == ext[13].maximum, "info-gps-range", p.gps_min << ".." << p.gps_max << " want " << ext[13]);
    EXPECT(p.guid == m.guid && p.sys == m.sys && p.gen == m.gen && p.source == m.source && p.encoding == (m.encoding | 16) &&
               p.day == m.day && p.year == m.year,
           "raw-header-fields", "on-disk identification fields differ");
    for (int i = 0; i < 15; i++)
        EXPECT(p.returns[i] == m.by_return[i], "raw-points-by-return", i);
    EXPECT(p.mn[0] == m.min.x && p.mn[1] == m.min.y && p.mn[2] == m.min.z && p.mx[0] == m.max.x && p.mx[1] == m.max.y && p.mx[2] == m.max.z, "raw-bounds", "on-disk bounds differ");
    EXPECT(p.scale[0] == eff.scale.x && p.scale[1] == eff.scale.y && p.scale[2] == eff.scale.z && p.off[0] == eff.offset.x && p.off[1] == eff.offset.y && p.off[2] == eff.offset.z, "raw-scale-offset", "on-disk scale/offset differ");
    auto hh = rd.CopcConfig().LasHeader();
    EXPECT(hh.PointOffset() == p.point_offset && hh.VlrCount() == p.vlr_count && hh.EvlrCount() == p.evlr_count && hh.EvlrOffset() == p.evlr_offset && hh.PointCount() == (uint64_t)npts,
           "header-file-fields", "offsets/counts read back differ from the file's");
    if (npts)
    {
        auto q = rd.GetPoints(VoxelKey(0, 0, 0, 0));
        for (int i = 0; i < npts && i < (int)q.Size(); i++)
        {
            auto d = diff_point(*q[i], pts[i], eff.fmt, eff.scale, eff.offset);
            EXPECT(d.empty(), "points-after-override", d);
        }
    }
    // second generation: copy the configuration that was read into a new file
    if (r.chance(50))
    {
        std::stringstream s2;
        {
            copc::CopcConfigWriter c2(rd.CopcConfig());
            copc::Writer w2(s2, c2);
            w2.Close();
        }
        copc::Reader rd2(&s2);
        check_config(rd2.CopcConfig(), expect, m, ext, "copy:");
        H::count("second-generation");
    }
    H::note("override-set", std::string() + (o_fmt ? "f" : "") + (o_scale ? "s" : "") + (o_off ? "o" : "") + (o_wkt ? "w" : "") + (o_eb ? "e" : "") + (o_ext ? "x" : "") + (late ? "L" : ""));
    H::count("fields-compared", 40 + ext.size());
    check_records(r);
    H::sig(H::hashs(img));
    std::ostringstream sm;
    sm << "base fmt " << int(base.fmt) << " -> " << int(eff.fmt) << ", " << eff.eb.items.size() << " extra-byte fields, wkt " << eff.wkt.size() << ", stats " << eff.ext_stats;
    H::sample(sm.str());
}

// ---- C19
static void case_c19(Rng &r)
{
    Script s = rand_script(r, true);
    s.file = r.chance(10);
    auto R = execute(s, false, "");
    auto T = execute(s, true, "");
    conform(s, R, "");
    // the file is the one that the accepted operations alone produce
    auto a = L::parse(R.image, true), b = L::parse(T.image, true);
    EXPECT(a.point_offset == b.point_offset && a.chunk_table == b.chunk_table && a.nodes.size() == b.nodes.size() && a.pages.size() == b.pages.size() &&
               R.image.size() == T.image.size() && R.image.compare(0, a.evlr_offset, T.image, 0, b.evlr_offset) == 0,
           "file-differs", "with the rejected operations left out the file is different");
    // after Close nothing more is accepted
    if (!s.file)
    {
        std::stringstream ss;
        auto cfg = make_cfg(s.cfg);
        copc::Writer w(ss, cfg);
        Raw p = rand_raw(r, s.cfg.ebn);
        Bytes raw = to_raw({p}, s.cfg.fmt);
        w.AddNode(VoxelKey(0, 0, 0, 0), raw);
        w.Close();
        std::string img = ss.str();
        int how = (int)r.below(3);
        VoxelKey k(1, (int)r.below(2), (int)r.below(2), 0);
        bool t = throws([&] {
            if (how == 0) w.AddNode(k, raw);
            if (how == 1) w.AddNodeCompressed(k, L::pack_chunk(raw, s.cfg.fmt, s.cfg.ebn), 1);
            if (how == 2) w.AddNode(k, to_points(cc(*w.CopcConfig()).LasHeader(), {p}));
        });
        EXPECT(t, "accepted:add-after-close", "AddNode on a closed writer was not rejected");
        EXPECT(ss.str() == img, "wrote:add-after-close", "AddNode on a closed writer changed the finished file");
        H::count("rejections");
        H::note("rejection-kind", "add-after-close");
    }
    // LAZ writer
    {
        std::stringstream ss;
        copc::las::LazConfigWriter lc(s.cfg.fmt, s.cfg.scale, s.cfg.offset, s.cfg.wkt, s.cfg.eb);
        copc::laz::LazWriter w(ss, lc);
        auto h = static_cast<const copc::las::LazConfigWriter &>(*w.LazConfig()).LasHeader();
        std::vector<Raw> good{rand_raw(r, s.cfg.ebn)};
        w.WritePoints(to_points(h, good));
        auto state = [&] { return std::make_tuple(ss.str(), (long long)ss.tellp(), w.PointCount(), w.ChunkCount()); };
        for (int i = 0; i < 3; i++)
        {
            auto before = state();
            std::string k;
            bool t = false;
            switch (r.below(5))
            {
            case 0: { copc::las::Points p((int8_t)(6 + (s.cfg.fmt - 6 + 1) % 3), s.cfg.ebn); p.AddPoint(p.CreatePoint()); k = "laz-wrong-format"; t = throws([&] { w.WritePoints(p); }); break; }
            case 1: { copc::las::Points p(s.cfg.fmt, s.cfg.ebn + 1); p.AddPoint(p.CreatePoint()); k = "laz-wrong-extra-bytes"; t = throws([&] { w.WritePoints(p); }); break; }
            case 2: k = "laz-packed-zero-count"; t = throws([&] { w.WritePointsCompressed(L::pack_chunk(to_raw(good, s.cfg.fmt), s.cfg.fmt, s.cfg.ebn), 0); }); break;
            case 3: k = "laz-packed-negative-count"; t = throws([&] { w.WritePointsCompressed(L::pack_chunk(to_raw(good, s.cfg.fmt), s.cfg.fmt, s.cfg.ebn), -(int)r.range(1, 1000)); }); break;
            case 4: { auto p = to_points(h, good); p[0]->Z((r.chance(50) ? 1e13 : -1e13) * s.cfg.scale.z + s.cfg.offset.z); k = "laz-coordinate-out-of-range"; t = throws([&] { w.WritePoints(p); }); break; }
            }
            H::count("rejections");
            H::note("rejection-kind", k);
            EXPECT(t, "accepted:" + k, k << " was not rejected");
            EXPECT(state() == before, "wrote:" + k, "rejected " << k << " changed the output");
        }
        if (r.chance(50))
        {
            w.Close();
            auto before = state();
            bool packed = r.chance(50);
            bool t = throws([&] { if (packed) w.WritePointsCompressed(L::pack_chunk(to_raw(good, s.cfg.fmt), s.cfg.fmt, s.cfg.ebn), 1); else w.WritePoints(to_points(h, good)); });
            EXPECT(t, "accepted:laz-write-after-close", "write to a closed LAZ writer was not rejected");
            EXPECT(state() == before, "wrote:laz-write-after-close", "write to a closed LAZ writer changed the finished file");
            H::note("rejection-kind", "laz-write-after-close");
        }
        else
            w.Close();
        for (auto &e : L::parse(ss.str(), false).err)
            H::violate("laz-file-damaged", e);
    }
    H::sig(H::hashs(R.image) ^ s.ops.size());
    std::ostringstream sm;
    sm << s.ops.size() << " operations, " << R.model.nodes.size() << " accepted nodes";
    H::sample(sm.str());
}

void run_case(uint64_t n, Rng &r)
{
    if (H::mode == "C01") case_c01(r);
    else if (H::mode == "C02") case_c02(r);
    else if (H::mode == "C04") case_c04(r);
    else if (H::mode == "C19") case_c19(r);
    else if (H::mode == "C01L") case_c01(r, (int)((n + H::seed) % 7));
    else if (H::mode == "C02L") case_c02(r, (int)((n + H::seed) % 7));
    else abort();
}
