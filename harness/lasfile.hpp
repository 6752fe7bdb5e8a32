// Independent reading and building of COPC/LAZ file images (shares nothing with the code under test except the
// laz-perf stand-in's record codecs in the builder).
#pragma once
#include "gen.hpp"
#include <lazperf/lazperf.hpp>

namespace L
{
using G::Bytes;
using G::KeyMap;
using copc::VoxelKey;

struct Rec
{
    uint64_t pos, payload, size;
    std::string user;
    uint16_t id;
    std::string desc;
    bool evlr;
};
struct Ent
{
    VoxelKey key;
    uint64_t offset;
    int32_t size, count;
};
struct Chunk
{
    uint64_t offset, size, count;
};
struct PageRec
{
    uint64_t offset;
    int64_t size;
    VoxelKey parent;
    std::vector<Ent> nodes, subs;
};

struct Parsed
{
    std::vector<std::string> err;
    std::string img;
    // header
    uint8_t major{}, minor{}, fmt{};
    uint16_t header_size{}, rec_len{}, encoding{}, source{}, day{}, year{};
    uint32_t point_offset{}, vlr_count{}, evlr_count{}, legacy_count{};
    uint32_t legacy_returns[5]{};
    uint64_t evlr_offset{}, count{}, returns[15]{};
    std::string guid, sys, gen;
    double scale[3]{}, off[3]{}, mx[3]{}, mn[3]{};
    std::vector<Rec> vlrs, evlrs;
    uint64_t chunk_table{};
    std::vector<Chunk> chunks;
    double info[5]{};
    uint64_t root_off{}, root_size{};
    double gps_min{}, gps_max{};
    KeyMap<PageRec> pages;
    KeyMap<Ent> nodes;
    KeyMap<VoxelKey> node_page;

    template <typename T> T at(uint64_t p) const
    {
        T t{};
        if (p + sizeof(T) <= img.size())
            memcpy(&t, img.data() + p, sizeof(T));
        return t;
    }
    std::string str(uint64_t p, size_t n) const
    {
        std::string s = p <= img.size() ? img.substr(p, n) : "";
        size_t e = s.find_last_not_of('\0');
        return e == std::string::npos ? "" : s.substr(0, e + 1);
    }
    const Rec *find(const std::string &u, uint16_t id) const
    {
        for (auto &v : vlrs)
            if (v.user == u && v.id == id)
                return &v;
        for (auto &v : evlrs)
            if (v.user == u && v.id == id)
                return &v;
        return nullptr;
    }
    std::vector<double> doubles(const Rec &r) const
    {
        std::vector<double> o;
        for (uint64_t i = 0; i + 8 <= r.size; i += 8)
            o.push_back(at<double>(r.payload + i));
        return o;
    }
};

#define BAD(m)                                                                                                         \
    do                                                                                                                 \
    {                                                                                                                  \
        std::ostringstream b_;                                                                                         \
        b_ << m;                                                                                                       \
        P.err.push_back(b_.str());                                                                                     \
    } while (0)

// Parses and checks everything that must hold of any finished LAZ 1.4 (and, if copc, COPC 1.0) file the library wrote.
inline Parsed parse(const std::string &img, bool copc_file)
{
    Parsed P;
    P.img = img;
    auto &I = P.img;
    if (I.size() < 375)
    {
        BAD("short-header: file has " << I.size() << " bytes");
        return P;
    }
    if (I.compare(0, 4, "LASF"))
        BAD("magic: not LASF");
    P.source = P.at<uint16_t>(4);
    P.encoding = P.at<uint16_t>(6);
    P.guid = P.str(8, 16);
    P.major = P.at<uint8_t>(24);
    P.minor = P.at<uint8_t>(25);
    P.sys = P.str(26, 32);
    P.gen = P.str(58, 32);
    P.day = P.at<uint16_t>(90);
    P.year = P.at<uint16_t>(92);
    P.header_size = P.at<uint16_t>(94);
    P.point_offset = P.at<uint32_t>(96);
    P.vlr_count = P.at<uint32_t>(100);
    P.fmt = P.at<uint8_t>(104);
    P.rec_len = P.at<uint16_t>(105);
    P.legacy_count = P.at<uint32_t>(107);
    for (int i = 0; i < 5; i++)
        P.legacy_returns[i] = P.at<uint32_t>(111 + 4 * i);
    for (int i = 0; i < 3; i++)
    {
        P.scale[i] = P.at<double>(131 + 8 * i);
        P.off[i] = P.at<double>(155 + 8 * i);
        P.mx[i] = P.at<double>(179 + 16 * i);
        P.mn[i] = P.at<double>(187 + 16 * i);
    }
    P.evlr_offset = P.at<uint64_t>(235);
    P.evlr_count = P.at<uint32_t>(243);
    P.count = P.at<uint64_t>(247);
    for (int i = 0; i < 15; i++)
        P.returns[i] = P.at<uint64_t>(255 + 8 * i);

    if (P.major != 1 || P.minor != 4)
        BAD("version: " << int(P.major) << "." << int(P.minor));
    if (P.header_size != 375)
        BAD("header-size: " << P.header_size);
    if (!(P.fmt & 0x80) || (P.fmt & 0x7f) < 6 || (P.fmt & 0x7f) > 8)
        BAD("format-byte: " << int(P.fmt));
    if (!(P.encoding & 16))
        BAD("wkt-bit: not set");
    if (P.point_offset > I.size() || P.point_offset < 375)
    {
        BAD("point-offset: " << P.point_offset << " in a file of " << I.size());
        return P;
    }

    // VLR chain
    uint64_t pos = 375;
    for (uint32_t i = 0; i < P.vlr_count; i++)
    {
        if (pos + 54 > P.point_offset)
        {
            BAD("vlr-chain: vlr " << i << " starts at " << pos << ", point data at " << P.point_offset);
            return P;
        }
        Rec v{pos, pos + 54, P.at<uint16_t>(pos + 20), P.str(pos + 2, 16), P.at<uint16_t>(pos + 18), P.str(pos + 22, 32), false};
        pos = v.payload + v.size;
        P.vlrs.push_back(v);
        if (pos > P.point_offset)
        {
            BAD("vlr-chain: vlr " << v.user << "/" << v.id << " runs into point data");
            return P;
        }
    }
    if (pos != P.point_offset)
        BAD("vlr-chain: VLRs end at " << pos << " but point data starts at " << P.point_offset);
    std::map<std::string, int> times;
    for (auto &v : P.vlrs)
        times[v.user + "/" + std::to_string(v.id)]++;
    for (auto &t : times)
        if (t.second > 1)
            BAD("vlr-duplicate: " << t.first);

    // LAZ VLR
    if (auto *v = P.find("laszip encoded", 22204))
    {
        if (v->evlr)
            BAD("laz-vlr: in EVLRs");
        int sum = 0, n = P.at<uint16_t>(v->payload + 32);
        if (v->size != 34u + 6u * n)
            BAD("laz-vlr: size " << v->size);
        for (int i = 0; i < n; i++)
            sum += P.at<uint16_t>(v->payload + 34 + 6 * i + 2);
        if (sum != P.rec_len)
            BAD("laz-vlr: item sizes sum to " << sum << ", record length is " << P.rec_len);
        if (P.at<uint32_t>(v->payload + 12) != 0xffffffffu)
            BAD("laz-vlr: chunk size is not variable");
    }
    else
        BAD("laz-vlr: missing");

    // extra bytes
    int eb = 0;
    if (auto *v = P.find("LASF_Spec", 4))
    {
        if (v->size % 192)
            BAD("eb-vlr: size " << v->size);
        for (uint64_t i = 0; i + 192 <= v->size; i += 192)
            eb += G::eb_type_size(P.at<uint8_t>(v->payload + i + 2), P.at<uint8_t>(v->payload + i + 3));
    }
    if (P.rec_len != G::base_size(P.fmt & 0x7f) + eb)
        BAD("record-length: " << P.rec_len << " but format " << int(P.fmt & 0x7f) << " plus described extra bytes is "
                              << G::base_size(P.fmt & 0x7f) + eb);

    // chunks
    P.chunk_table = P.at<uint64_t>(P.point_offset);
    if (P.chunk_table < P.point_offset + 8 || P.chunk_table + 8 > I.size())
        BAD("chunk-table-offset: " << P.chunk_table);
    else
    {
        uint32_t n = P.at<uint32_t>(P.chunk_table + 4);
        if (P.at<uint32_t>(P.chunk_table) != 0)
            BAD("chunk-table-version");
        std::istringstream in(I.substr(P.chunk_table + 8));
        lazperf::InFileStream s(in);
        uint64_t o = P.point_offset + 8, total = 0;
        try
        {
            if (n > I.size())
                throw lazperf::error("too many chunks");
            for (auto &c : lazperf::decompress_chunk_table(s.cb(), n, true))
            {
                P.chunks.push_back({o, c.offset, c.count});
                o += c.offset;
                total += c.count;
            }
        }
        catch (const std::exception &e)
        {
            BAD("chunk-table: " << e.what());
        }
        if (o != P.chunk_table)
            BAD("chunk-table: chunks end at " << o << " but the table is at " << P.chunk_table);
        if (total != P.count)
            BAD("point-count: header says " << P.count << ", chunks hold " << total);
    }
    uint32_t want_legacy = P.count > 0xffffffffull ? 0 : (uint32_t)P.count;
    if (P.legacy_count != want_legacy)
        BAD("legacy-count: " << P.legacy_count << " for " << P.count);
    for (int i = 0; i < 5; i++)
        if (P.legacy_returns[i])
            BAD("legacy-returns: non-zero");

    // EVLR chain
    pos = P.evlr_offset;
    if (P.evlr_count && (pos <= P.chunk_table || pos > I.size()))
        BAD("evlr-offset: " << pos);
    for (uint32_t i = 0; i < P.evlr_count; i++)
    {
        if (pos > I.size() || I.size() - pos < 60)
        {
            BAD("evlr-chain: evlr " << i << " of " << P.evlr_count << " starts at " << pos << " of " << I.size());
            break;
        }
        Rec v{pos, pos + 60, P.at<uint64_t>(pos + 20), P.str(pos + 2, 16), P.at<uint16_t>(pos + 18), P.str(pos + 28, 32), true};
        if (v.size > I.size() - v.payload)
        {
            BAD("evlr-chain: evlr " << v.user << "/" << v.id << " of " << v.size << " bytes runs past the end");
            break;
        }
        pos = v.payload + v.size;
        P.evlrs.push_back(v);
    }
    if (P.evlr_count && pos != I.size())
        BAD("evlr-chain: ends at " << pos << " of " << I.size());

    if (!copc_file)
    {
        if (P.find("copc", 1) || P.find("copc", 1000))
            BAD("copc-record-in-laz");
        return P;
    }

    // COPC info
    if (P.vlrs.empty() || P.vlrs[0].user != "copc" || P.vlrs[0].id != 1 || P.vlrs[0].size != 160)
        BAD("copc-info: is not the first VLR at 375");
    else
    {
        auto p = P.vlrs[0].payload;
        for (int i = 0; i < 5; i++)
            P.info[i] = P.at<double>(p + 8 * i);
        P.root_off = P.at<uint64_t>(p + 40);
        P.root_size = P.at<uint64_t>(p + 48);
        P.gps_min = P.at<double>(p + 56);
        P.gps_max = P.at<double>(p + 64);
        for (int i = 0; i < 11; i++)
            if (P.at<uint64_t>(p + 72 + 8 * i))
                BAD("copc-info: reserved not zero");
    }
    uint64_t nd = G::base_dims(P.fmt & 0x7f);
    if (auto *v = P.find("LASF_Spec", 4))
        nd += v->size / 192;
    if (auto *v = P.find("copc", 10000))
    {
        if (v->size != nd * 16)
            BAD("copc-extents: " << v->size << " bytes for " << nd << " dimensions");
    }
    else
        BAD("copc-extents: missing");
    if (auto *v = P.find("rock_robotic", 10001))
        if (v->size != nd * 16)
            BAD("extended-stats: " << v->size << " bytes for " << nd << " dimensions");

    // hierarchy
    std::map<uint64_t, uint64_t> payloads; // hierarchy EVLR payload extents
    size_t hier_evlrs = 0;
    for (auto &e : P.evlrs)
        if (e.user == "copc" && e.id == 1000)
            payloads[e.payload] = e.size, hier_evlrs++;
    std::vector<Ent> todo{{VoxelKey(0, 0, 0, 0), P.root_off, (int32_t)P.root_size, -1}};
    std::vector<VoxelKey> parents{VoxelKey()};
    for (size_t i = 0; i < todo.size(); i++)
    {
        Ent e = todo[i];
        if (P.pages.count(e.key))
        {
            BAD("page-duplicate: " << G::ks(e.key));
            continue;
        }
        PageRec pg{e.offset, e.size, parents[i], {}, {}};
        auto it = payloads.find(e.offset);
        if (it == payloads.end() || it->second != (uint64_t)e.size)
            BAD("page-extent: page " << G::ks(e.key) << " at " << e.offset << "+" << e.size
                                     << " is not the payload of a hierarchy EVLR");
        else if (e.size % 32)
            BAD("page-extent: size " << e.size);
        else
        {
            for (int64_t k = 0; k < e.size; k += 32)
            {
                uint64_t p = e.offset + k;
                Ent c{VoxelKey(P.at<int32_t>(p), P.at<int32_t>(p + 4), P.at<int32_t>(p + 8), P.at<int32_t>(p + 12)),
                      P.at<uint64_t>(p + 16), P.at<int32_t>(p + 24), P.at<int32_t>(p + 28)};
                if (c.key.d < 0 || !G::is_anc(e.key, c.key))
                    BAD("entry-key: " << G::ks(c.key) << " in page " << G::ks(e.key));
                if (c.count == -1)
                {
                    if (c.key == e.key)
                    {
                        BAD("page-self-reference: " << G::ks(c.key));
                        continue;
                    }
                    pg.subs.push_back(c);
                    todo.push_back(c);
                    parents.push_back(e.key);
                }
                else
                {
                    pg.nodes.push_back(c);
                    if (P.nodes.count(c.key))
                        BAD("node-duplicate: " << G::ks(c.key));
                    P.nodes[c.key] = c;
                    P.node_page[c.key] = e.key;
                }
            }
        }
        P.pages[e.key] = pg;
        if (todo.size() > 100000)
        {
            BAD("hierarchy: too many pages");
            break;
        }
    }
    if (P.pages.size() != hier_evlrs)
        BAD("hierarchy: " << hier_evlrs << " hierarchy EVLRs, " << P.pages.size() << " reachable pages");
    // every page hangs off its nearest ancestor page
    for (auto &p : P.pages)
    {
        if (p.first.d == 0)
            continue;
        VoxelKey k = G::up(p.first, 1);
        while (!P.pages.count(k) && k.d > 0)
            k = G::up(k, 1);
        if (!(k == p.second.parent))
            BAD("page-parent: " << G::ks(p.first) << " hangs off " << G::ks(p.second.parent) << ", nearest is " << G::ks(k));
    }
    // nodes <-> chunks
    std::map<uint64_t, const Chunk *> by;
    for (auto &c : P.chunks)
        by[c.offset] = &c;
    for (auto &n : P.nodes)
    {
        auto it = by.find(n.second.offset);
        if (it == by.end() || it->second->size != (uint64_t)n.second.size ||
            it->second->count != (uint64_t)n.second.count)
            BAD("node-chunk: node " << G::ks(n.first) << " (" << n.second.offset << "+" << n.second.size << ", "
                                    << n.second.count << " points) is not a chunk");
    }
    if (P.nodes.size() != P.chunks.size())
        BAD("node-chunk: " << P.nodes.size() << " nodes, " << P.chunks.size() << " chunks");
    return P;
}
#undef BAD

// ---------------------------------------------------------------- builder
struct BNode
{
    VoxelKey key, page;
    Bytes raw; // uncompressed records; empty => point_count 0 node without data
    Bytes packed;
    uint64_t offset{};
    int32_t count{};
};
struct Layout
{
    bool wkt_as_vlr{}, eb_as_evlr{}, no_extents{}, shuffle{}, one_evlr{}, unknown{}, evlr_before{}, gap{};
    size_t big_evlr{}, big_vlr{}, many{}; // sizes of unknown records, number of further ones
};
inline Bytes pack_chunk(const Bytes &raw, int fmt, int ebn)
{
    Bytes out;
    int sz = G::base_size(fmt) + ebn;
    auto c = lazperf::build_las_compressor([&](const unsigned char *p, size_t n) { out.insert(out.end(), p, p + n); }, fmt, ebn);
    for (size_t i = 0; i + sz <= raw.size(); i += sz)
        c->compress(raw.data() + i);
    c->done();
    return out;
}
inline void vput(std::string &o, const std::string &user, uint16_t id, const std::string &payload, bool evlr)
{
    std::ostringstream s;
    if (evlr)
        lazperf::evlr_header{0, user, id, payload.size(), "d"}.write(s);
    else
        lazperf::vlr_header{0, user, id, (uint16_t)payload.size(), "d"}.write(s);
    o += s.str() + payload;
}
inline void e32(std::string &o, const VoxelKey &k, uint64_t off, int32_t size, int32_t cnt)
{
    o.append((const char *)&k.d, 4);
    o.append((const char *)&k.x, 4);
    o.append((const char *)&k.y, 4);
    o.append((const char *)&k.z, 4);
    o.append((const char *)&off, 8);
    o.append((const char *)&size, 4);
    o.append((const char *)&cnt, 4);
}
// Builds a COPC file in one of many valid arrangements.
inline std::string build(Rng &r, const G::Cfg &c, const G::Meta &m, std::vector<BNode> &nodes, const G::KeySet &pages,
                         const Layout &lo)
{
    lazperf::header14 h;
    strncpy(h.guid, m.guid.c_str(), 16);
    strncpy(h.system_identifier, m.sys.c_str(), 32);
    strncpy(h.generating_software, m.gen.c_str(), 32);
    h.file_source_id = m.source;
    h.global_encoding = m.encoding | 16;
    h.creation.day = m.day;
    h.creation.year = m.year;
    h.point_format_id = c.fmt | 0x80;
    h.point_record_length = c.rec();
    h.scale = {c.scale.x, c.scale.y, c.scale.z};
    h.offset = {c.offset.x, c.offset.y, c.offset.z};
    h.minx = m.min.x, h.miny = m.min.y, h.minz = m.min.z;
    h.maxx = m.max.x, h.maxy = m.max.y, h.maxz = m.max.z;
    for (int i = 0; i < 15; i++)
        h.points_by_return_14[i] = m.by_return[i];

    std::string ebp, extp, statp, lazp, infop(160, 0);
    {
        std::ostringstream s;
        c.eb.write(s);
        ebp = s.str();
    }
    {
        std::ostringstream s;
        lazperf::laz_vlr(c.fmt, c.ebn, 0xffffffffu).write(s);
        lazp = s.str();
    }
    for (auto &e : m.ext)
    {
        extp.append((const char *)&e.minimum, 8);
        extp.append((const char *)&e.maximum, 8);
        statp.append((const char *)&e.mean, 8);
        statp.append((const char *)&e.var, 8);
    }
    struct V
    {
        std::string u;
        uint16_t id;
        std::string p;
    };
    std::vector<V> vl, ev;
    vl.push_back({"laszip encoded", 22204, lazp});
    if (!lo.no_extents)
    {
        vl.push_back({"copc", 10000, extp});
        if (c.ext_stats)
            vl.push_back({"rock_robotic", 10001, statp});
    }
    if (!c.eb.items.empty())
        (lo.eb_as_evlr ? ev : vl).push_back({"LASF_Spec", 4, ebp});
    if (!c.wkt.empty())
        (lo.wkt_as_vlr ? vl : ev).push_back({"LASF_Projection", 2112, c.wkt});
    if (lo.unknown)
    {
        vl.push_back({"somebody", 42, G::rand_text(r, 300)});
        vl.push_back({"LASF_Spec", 0, std::string(r.below(40), 'x')});
        ev.push_back({"somebody", 43, std::string(r.below(400), 'y')});
        ev.push_back({"copcx", 1, std::string(160, 'z')});
        vl.push_back({"LASF_Projection", 2111, ""});
    }
    if (lo.big_vlr)
        vl.push_back({"somebody", 7, std::string(lo.big_vlr, 'b')});
    if (lo.big_evlr)
        ev.insert(ev.begin(), {"somebody", 8, std::string(lo.big_evlr, 'e')});
    for (size_t i = 0; i < lo.many; i++)
        (i % 2 ? vl : ev).push_back({i % 3 ? "somebody" : "LASF_Spec", (uint16_t)(100 + i), std::string(r.below(20), 'm')});
    if (lo.shuffle)
        r.shuffle(vl);
    std::string vs;
    for (auto &v : vl)
        vput(vs, v.u, v.id, v.p, false);
    h.vlr_count = 1 + vl.size();
    h.point_offset = 375 + 54 + 160 + vs.size() + (lo.gap ? r.below(50) : 0);

    // point data
    std::string data;
    std::vector<size_t> order;
    for (size_t i = 0; i < nodes.size(); i++)
        order.push_back(i);
    if (lo.shuffle)
        r.shuffle(order);
    std::vector<lazperf::chunk> chunks;
    uint64_t total = 0;
    for (auto i : order)
    {
        auto &n = nodes[i];
        n.count = n.raw.size() / c.rec();
        if (n.raw.empty())
        {
            n.offset = 0;
            continue;
        }
        n.packed = pack_chunk(n.raw, c.fmt, c.ebn);
        n.offset = h.point_offset + 8 + data.size();
        data.append(n.packed.begin(), n.packed.end());
        chunks.push_back({(uint64_t)n.count, n.packed.size()});
        total += n.count;
    }
    h.point_count_14 = total;
    h.point_count = total;
    uint64_t table = h.point_offset + 8 + data.size();
    std::string tab(4, 0);
    uint32_t nc = chunks.size();
    tab.append((const char *)&nc, 4);
    lazperf::compress_chunk_table([&](const unsigned char *p, size_t n) { tab.append((const char *)p, n); }, chunks, true);

    // hierarchy: page payload sizes first, then places, then contents
    h.evlr_offset = table + tab.size() + (lo.gap ? r.below(20) : 0);
    auto parent_page = [&](VoxelKey k)
    {
        do
            k = G::up(k, 1);
        while (!pages.count(k));
        return k;
    };
    KeyMap<int> cnt;
    for (auto &p : pages)
        cnt[p];
    for (auto &n : nodes)
        cnt[n.page]++;
    for (auto &p : pages)
        if (p.d > 0)
            cnt[parent_page(p)]++;
    std::vector<VoxelKey> porder(pages.begin(), pages.end());
    if (lo.shuffle)
        r.shuffle(porder);
    std::string evs;
    auto emit_ev = [&](const V &v) { vput(evs, v.u, v.id, v.p, true); };
    size_t before = lo.evlr_before ? ev.size() : r.below(ev.size() + 1);
    for (size_t i = 0; i < before; i++)
        emit_ev(ev[i]);
    KeyMap<uint64_t> where;
    uint64_t pos = h.evlr_offset + evs.size();
    if (lo.one_evlr)
        pos += 60;
    for (auto &p : porder)
    {
        if (!lo.one_evlr)
            pos += 60;
        where[p] = pos;
        pos += 32 * cnt[p];
    }
    std::string all;
    for (auto &p : porder)
    {
        std::vector<std::string> ents;
        for (auto &n : nodes)
            if (n.page == p)
            {
                std::string e;
                e32(e, n.key, n.offset, (int32_t)n.packed.size(), n.count);
                ents.push_back(e);
            }
        for (auto &q : pages)
            if (q.d > 0 && parent_page(q) == p)
            {
                std::string e;
                e32(e, q, where[q], 32 * cnt[q], -1);
                ents.push_back(e);
            }
        if (lo.shuffle)
            r.shuffle(ents);
        std::string pl;
        for (auto &e : ents)
            pl += e;
        if (lo.one_evlr)
            all += pl;
        else
            emit_ev({"copc", 1000, pl});
    }
    if (lo.one_evlr)
        emit_ev({"copc", 1000, all});
    for (size_t i = before; i < ev.size(); i++)
        emit_ev(ev[i]);
    h.evlr_count = ev.size() + (lo.one_evlr ? 1 : pages.size());

    lazperf::copc_info_vlr info;
    info.center_x = m.cx, info.center_y = m.cy, info.center_z = m.cz, info.halfsize = m.half, info.spacing = m.spacing;
    info.root_hier_offset = where[VoxelKey(0, 0, 0, 0)];
    info.root_hier_size = 32 * cnt[VoxelKey(0, 0, 0, 0)];
    std::ostringstream s;
    h.write(s);
    info.header().write(s);
    info.write(s);
    std::string img = s.str() + vs;
    img.resize(h.point_offset, 0);
    img.append((const char *)&table, 8);
    img += data + tab;
    img.resize(h.evlr_offset, 0);
    img += evs;
    return img;
}
} // namespace L
