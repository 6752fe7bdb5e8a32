// Everything a user can ask of a file image, each question on its own guarded.  Also counts live heap bytes.
#pragma once
#include "filegen.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <new>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define BATTERY_HEAP 1
#endif
#endif

namespace B
{
using namespace G;
inline H_TLS int64_t live = 0, peak = 0, biggest = 0;
#ifdef BATTERY_HEAP
inline void on_malloc(const volatile void *, size_t n)
{
    live += n;
    if (live > peak)
        peak = live;
    if ((int64_t)n > biggest)
        biggest = n;
}
inline void on_free(const volatile void *p)
{
    if (p)
        live -= __sanitizer_get_allocated_size(const_cast<const void *>(p));
}
inline void watch_heap() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#else
inline void watch_heap() {}
#endif

struct Answers
{
    int worked{0}, refused{0};
    std::string last;
};
// f's outcome: works, or raises something derived from std::exception; heap use within the bound
template <typename F> void ask(Answers &a, const char *what, size_t size, bool whole, F &&f)
{
    int64_t before = live;
    peak = live;
    biggest = 0;
    bool ok = false;
    try
    {
        f();
        ok = true;
    }
    catch (const std::bad_alloc &e)
    {
        H::violate(std::string("memory:") + what, std::string(what) + " tried to allocate more than the limit for an input of " + std::to_string(size) + " bytes");
    }
    catch (const std::exception &e)
    {
        a.last = e.what();
    }
    catch (...)
    {
        H::violate(std::string("foreign-exception:") + what, std::string(what) + " raised something that is not a std::exception");
    }
    ok ? a.worked++ : a.refused++;
    H::note("outcome", std::string(what) + (ok ? " works" : " refuses"));
    // generous: a point object takes about ten times its record, a node a few hundred bytes for its 32 byte entry.
    // All points of a file may be in many nodes that share one chunk.
    double n = (double)size, bound = (2 << 20) + 2000.0 * n + (whole ? n * n / 4 : 0);
    if (peak - before > bound)
        H::violate(std::string("memory:") + what, std::string(what) + " took " + std::to_string(peak - before) + " bytes of heap for an input of " + std::to_string(size) + " bytes");
    if (biggest > (1 << 20) + 256 * (int64_t)size && !whole)
        H::violate(std::string("memory-block:") + what, std::string(what) + " took a block of " + std::to_string(biggest) + " bytes for an input of " + std::to_string(size) + " bytes");
}

inline Answers copc_all(Rng &r, const std::string &img)
{
    Answers a;
    size_t n = img.size();
    std::istringstream in(img);
    std::unique_ptr<copc::Reader> rd;
    ask(a, "Reader", n, false, [&] { rd = std::make_unique<copc::Reader>(&in); });
    if (!rd)
        return a;
    ask(a, "config", n, false, [&]
        {
            auto c = rd->CopcConfig();
            c.LasHeader().ToString();
            c.CopcInfo().ToString();
            c.CopcExtents().ToString();
            c.ExtraBytesVlr();
            c.LasHeader().Bounds();
        });
    std::vector<Node> nodes;
    std::vector<VoxelKey> pages;
    int order[] = {0, 1, 2};
    std::swap(order[0], order[r.below(3)]);
    for (int o : order)
        switch (o)
        {
        case 0: ask(a, "GetAllNodes", n, true, [&] { nodes = rd->GetAllNodes(); }); break;
        case 1: ask(a, "GetPageList", n, true, [&] { pages = rd->GetPageList(); }); break;
        default:
            for (int i = 0; i < 4; i++)
                ask(a, "FindNode", n, true, [&] { rd->FindNode(random_key(r, 6)); });
        }
    for (int i = 0; i < 6 && !nodes.empty(); i++)
    {
        Node k = r.pick(nodes);
        ask(a, "GetPointData", n, false, [&] { rd->GetPointData(k); });
        ask(a, "GetPointDataCompressed", n, false, [&] { rd->GetPointDataCompressed(k); });
        ask(a, "GetPoints", n, false, [&] { rd->GetPoints(k); });
        ask(a, "GetPoints by key", n, true, [&] { rd->GetPoints(k.key); });
        ask(a, "FindNode", n, true, [&] { rd->FindNode(k.key); });
        ask(a, "cube", n, false, [&]
            {
                auto h = rd->CopcConfig().LasHeader();
                copc::Box b(k.key, h);
                k.key.Within(h, b);
                k.key.Resolution(h, rd->CopcConfig().CopcInfo());
                if (k.key.d < 64)
                    k.key.GetParents(true), k.key.GetChildren();
            });
        ask(a, "GetAllChildrenOfPage", n, true, [&] { rd->GetAllChildrenOfPage(k.key); });
    }
    if (!pages.empty())
        ask(a, "GetAllChildrenOfPage", n, true, [&] { rd->GetAllChildrenOfPage(r.pick(pages)); });
    double res = r.oneof({0.0, 1.0, 1e-300, 1e300, -1.0});
    ask(a, "GetDepthAtResolution", n, true, [&] { rd->GetDepthAtResolution(res); });
    ask(a, "GetNodesAtResolution", n, true, [&] { rd->GetNodesAtResolution(res); });
    ask(a, "GetNodesWithinResolution", n, true, [&] { rd->GetNodesWithinResolution(res); });
    ask(a, "GetNodesWithinBox", n, true, [&] { rd->GetNodesWithinBox(copc::Box::MaxBox(), res); });
    ask(a, "GetNodesIntersectBox", n, true, [&] { rd->GetNodesIntersectBox(copc::Box(-10, -10, 100, 100), res); });
    ask(a, "GetPointsWithinBox", n, true, [&] { rd->GetPointsWithinBox(r.chance(50) ? copc::Box::MaxBox() : copc::Box(-10, -10, -10, 100, 100, 100), res); });
    ask(a, "ValidateSpatialBounds", n, true, [&] { rd->ValidateSpatialBounds(r.chance(50)); });
    ask(a, "GetAllPoints", n, true, [&] { rd->GetAllPoints(res); });
    ask(a, "derive writer", n, false, [&]
        {
            std::stringstream out;
            copc::CopcConfigWriter c(rd->CopcConfig());
            copc::Writer w(out, c);
            if (!nodes.empty())
            {
                auto &k = nodes[0];
                w.AddNodeCompressed(k.key, rd->GetPointDataCompressed(k), k.point_count);
            }
            w.Close();
        });
    return a;
}
inline Answers laz_all(Rng &r, const std::string &img)
{
    Answers a;
    size_t n = img.size();
    std::istringstream in(img);
    std::unique_ptr<copc::laz::LazReader> rd;
    ask(a, "LazReader", n, false, [&] { rd = std::make_unique<copc::laz::LazReader>(&in); });
    if (!rd)
        return a;
    ask(a, "laz config", n, false, [&]
        {
            auto c = rd->LazConfig();
            c.LasHeader().ToString();
            c.ExtraBytesVlr();
        });
    ask(a, "LazReader GetPointData", n, false, [&] { rd->GetPointData(); });
    ask(a, "LazReader GetPoints", n, false, [&] { rd->GetPoints(); });
    ask(a, "derive laz writer", n, false, [&]
        {
            std::stringstream out;
            copc::laz::LazWriter w(out, copc::las::LazConfigWriter(rd->LazConfig()));
            w.WritePoints(rd->GetPoints());
            w.Close();
        });
    return a;
}
} // namespace B
