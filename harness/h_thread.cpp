// C22: the cases of the other harnesses, each in a thread of its own and all at once (independent objects); const
// objects read by all threads at once; results handed from one thread to others while their source goes on working.
// Each case runs in a child process that has not used the library before, so that first uses meet in the threads.
// The verdict: the race detector, and what each thread observed compared with the same work done alone afterwards.
#define H_TLS thread_local
#define H_THREADS 1
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define OOM_OFF
#endif
#endif
#include "battery.hpp"
#include "common.hpp"
#include "filegen.hpp"
#include "hist.hpp"
#include "oom.hpp"
#include <atomic>
#include <condition_variable>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <deque>
#include <filesystem>
#include <mutex>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unordered_map>
#include <unordered_set>

namespace TW
{
#include "h_write.cpp"
}
namespace TR
{
#include "h_read.cpp"
}
namespace TL
{
#include "h_laz.cpp"
}
namespace TP
{
#include "h_point.cpp"
}
namespace TG
{
#include "h_geom.cpp"
}
namespace TC
{
#include "h_config.cpp"
}
namespace TH
{
#include "h_hostile.cpp"
}

using namespace W;
using FG::File;
using copc::las::LasHeader;
using copc::las::Point;
using copc::las::Points;
using copc::laz::LazReader;
using copc::laz::LazWriter;

// ---------------------------------------------------------------- one piece of work, on objects of its own
struct WorkKind
{
    const char *mode;
    void (*f)(uint64_t, Rng &);
};
static const WorkKind kinds[] = {
    {"C01", TW::run_case}, {"C02", TW::run_case}, {"C04", TW::run_case}, {"C19", TW::run_case}, {"C03", TR::run_case}, {"C13", TR::run_case},
    {"C14", TR::run_case}, {"C15", TR::run_case}, {"C26", TR::run_case}, {"C29", TR::run_case}, {"C05", TL::run_case}, {"C06", TL::run_case},
    {"C07", TP::run_case}, {"C08", TP::run_case}, {"C09", TP::run_case}, {"C10", TP::run_case}, {"C11", TG::run_case}, {"C12", TG::run_case},
    {"C16", TG::run_case}, {"C17", TG::run_case}, {"C18", TG::run_case}, {"C27", TC::run_case}, {"C20", TH::run_case}};
static const int N_KINDS = sizeof kinds / sizeof *kinds;

struct Seen
{
    std::map<std::string, std::string> violations;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::set<std::string>> seen;
    bool operator==(const Seen &o) const
    {
        if (violations.size() != o.violations.size() || counters != o.counters || seen != o.seen)
            return false;
        for (auto &v : violations)
            if (!o.violations.count(v.first))
                return false;
        return true;
    }
    std::string diff(const Seen &alone) const
    {
        for (auto &v : violations)
            if (!alone.violations.count(v.first))
                return "in the thread only: " + v.first + ": " + v.second;
        for (auto &v : alone.violations)
            if (!violations.count(v.first))
                return "alone only: " + v.first + ": " + v.second;
        for (auto &c : alone.counters)
        {
            auto f = counters.find(c.first);
            if (f == counters.end() || f->second != c.second)
                return c.first + " counted " + std::to_string(f == counters.end() ? 0 : f->second) + " in the thread and " + std::to_string(c.second) + " alone";
        }
        for (auto &s : alone.seen)
        {
            auto f = seen.find(s.first);
            for (auto &v : s.second)
                if (f == seen.end() || !f->second.count(v))
                    return s.first + " '" + v + "' seen alone only";
        }
        return "more was seen in the thread than alone";
    }
};
static Seen work(int kind, uint64_t seed, const std::string &dir)
{
    Seen s;
    H::mode = kinds[kind].mode;
    H::tmpdir = dir;
    H::counters.clear();
    H::seen.clear();
    H::per_key.clear();
    H::samples.clear();
    H::sigs.clear();
    H::caught = &s.violations;
    try
    {
        Rng r(seed);
        kinds[kind].f(seed, r);
    }
    catch (const std::exception &e)
    {
        s.violations.emplace("unexpected-exception", e.what());
    }
    H::caught = nullptr;
    // Sibling pages are written and read in the order of their addresses: which entry of a damaged hierarchy wins, and
    // which page a fault at a certain read hits, differs from run to run
    if (H::mode != "C20" && kinds[kind].f != TW::run_case && kinds[kind].f != TR::run_case)
        s.counters.swap(H::counters), s.seen.swap(H::seen);
    H::counters.clear();
    H::seen.clear();
    H::samples.clear();
    H::sigs.clear();
    return s;
}

// ---------------------------------------------------------------- pauses at random instructions
static thread_local uint64_t pause_state;
static thread_local int pause_max; // microseconds
static thread_local uint64_t pauses;
static void on_pause(int)
{
    int e = errno;
    pause_state = pause_state * 6364136223846793005ull + 1442695040888963407ull;
    timespec t = {0, (long)((pause_state >> 33) % (uint64_t)(pause_max + 1)) * 1000};
    if (t.tv_nsec)
        nanosleep(&t, nullptr);
    else
        sched_yield();
    pauses++;
    errno = e;
}
struct Pauses
{
    timer_t t{};
    bool on{false};
    Pauses(Rng &r, int every_us)
    {
        if (!every_us)
            return;
        pause_state = r.next();
        pause_max = (int)r.below(100);
        sigevent ev = {};
        ev.sigev_notify = SIGEV_THREAD_ID;
        ev.sigev_signo = SIGUSR1;
        ev._sigev_un._tid = (pid_t)syscall(SYS_gettid);
        if (timer_create(CLOCK_MONOTONIC, &ev, &t))
            return;
        on = true;
        itimerspec it = {{0, every_us * 1000L}, {0, every_us * 1000L}};
        timer_settime(t, 0, &it, nullptr);
    }
    ~Pauses()
    {
        if (on)
            timer_delete(t);
    }
};

// ---------------------------------------------------------------- when what ran, without ordering the threads
struct Moment
{
    uint64_t at;
    int thread, what;
    bool begin;
};
static std::atomic<uint64_t> clock_{0};
static std::atomic<int> ready_{0};
struct Log
{
    std::vector<Moment> m;
    int thread{0};
    void mark(int what, bool begin) { m.push_back({clock_.fetch_add(1, std::memory_order_relaxed), thread, what, begin}); }
};
static void meet(int n)
{
    ready_.fetch_add(1, std::memory_order_relaxed);
    while (ready_.load(std::memory_order_relaxed) < n)
        sched_yield();
}
// Pairs of pieces of work that overlapped in time; returns the shape of the interleaving
static uint64_t overlaps(const std::vector<Log> &logs, const std::function<void(int, int)> &pair)
{
    std::vector<Moment> all;
    for (auto &l : logs)
        all.insert(all.end(), l.m.begin(), l.m.end());
    std::sort(all.begin(), all.end(), [](const Moment &a, const Moment &b) { return a.at < b.at; });
    std::map<int, int> open;
    uint64_t h = 1469598103934665603ull;
    for (auto &m : all)
    {
        h = H::mix(h, (uint64_t)m.thread * 4096 + (uint64_t)m.what * 2 + m.begin);
        if (m.begin)
        {
            for (auto &o : open)
                pair(o.second, m.what);
            open[m.thread] = m.what;
        }
        else
            open.erase(m.thread);
    }
    return h;
}

struct Tmp
{
    std::string p;
    explicit Tmp(const std::string &s) : p(s) { std::filesystem::create_directories(p); }
    ~Tmp()
    {
        std::error_code e;
        std::filesystem::remove_all(p, e);
    }
};

// Each thread does its own list of works
static void private_phase(Rng &r, const std::string &base)
{
    int n = (int)r.range(2, r.chance(20) ? 8 : 4), len = (int)r.range(1, 4);
    std::vector<std::vector<std::pair<int, uint64_t>>> todo(n);
    for (int i = 0; i < len; i++)
    {
        int same = r.chance(60) ? (int)r.below(N_KINDS) : -1;
        uint64_t seed = r.next();
        bool twins = r.chance(25); // the very same work everywhere
        for (auto &t : todo)
            t.push_back({same >= 0 ? same : (int)r.below(N_KINDS), twins ? seed : r.next()});
    }
    std::vector<std::vector<Seen>> got(n);
    std::vector<Log> logs(n);
    std::vector<Rng> rngs;
    for (int i = 0; i < n; i++)
        rngs.emplace_back(r.next());
    int every = r.chance(60) ? (int)r.range(400, 4000) : 0;
    std::vector<uint64_t> stops(n);
    ready_ = 0;
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back(
            [&, i]
            {
                Tmp tmp(base + "/t" + std::to_string(i));
                logs[i].thread = i;
                Pauses p(rngs[i], every);
                meet(n);
                for (auto &w : todo[i])
                {
                    logs[i].mark(w.first, true);
                    got[i].push_back(work(w.first, w.second, tmp.p));
                    logs[i].mark(w.first, false);
                }
                stops[i] = pauses;
            });
    for (auto &t : ts)
        t.join();
    uint64_t shape = overlaps(logs, [&](int a, int b)
                              {
                                  H::count("overlaps");
                                  H::note("overlap", std::string(kinds[std::min(a, b)].mode) + "+" + kinds[std::max(a, b)].mode);
                              });
    H::sig(shape);
    std::map<std::string, uint64_t> counters;
    std::string sample = std::to_string(n) + " threads:";
    Tmp tmp(base + "/alone");
    for (int i = 0; i < n; i++)
        for (size_t k = 0; k < todo[i].size(); k++)
        {
            auto &w = todo[i][k];
            auto keep_c = H::counters;
            auto keep_s = H::seen;
            auto keep_g = H::sigs;
            auto keep_e = H::samples;
            auto mode = H::mode;
            auto dir = H::tmpdir;
            Seen alone = work(w.first, w.second, tmp.p);
            H::counters = keep_c, H::seen = keep_s, H::sigs = keep_g, H::samples = keep_e, H::mode = mode, H::tmpdir = dir;
            EXPECT(got[i][k] == alone, std::string("differs:") + kinds[w.first].mode,
                   kinds[w.first].mode << " work with seed " << w.second << " in thread " << i << " of " << n << ": " << got[i][k].diff(alone));
            H::count("works");
            H::note("work", kinds[w.first].mode);
            for (auto &c : alone.counters)
                H::count("observations", c.second);
            if (k == 0)
                sample += std::string(" ") + kinds[w.first].mode;
        }
    for (auto s : stops)
        H::count("pauses", s);
    H::note("threads", std::to_string(n));
    H::sample(sample);
}

// ---------------------------------------------------------------- objects all threads read
struct Shared
{
    File f;
    Script script;
    std::shared_ptr<const copc::CopcConfigWriter> cw;
    std::shared_ptr<const copc::las::LazConfigWriter> lw;
    std::shared_ptr<const copc::CopcConfig> cc;
    std::shared_ptr<const copc::las::LazConfig> lc;
    std::shared_ptr<const LasHeader> hd;
    std::shared_ptr<const copc::CopcInfo> info;
    std::shared_ptr<const copc::CopcExtents> ext;
    std::shared_ptr<const Points> pts;
    std::shared_ptr<const Point> pt;
    std::shared_ptr<const copc::Box> box;
    std::shared_ptr<const VoxelKey> key;
    std::shared_ptr<const copc::Node> node;
    std::shared_ptr<const copc::las::EbVlr> eb;
    std::shared_ptr<const copc::las::CopcExtentsVlr> evlr;
    std::shared_ptr<const Bytes> raw, packed;
    std::string path;
};
static Shared make_shared_things(uint64_t seed, const std::string &dir)
{
    Rng r(seed);
    Shared s;
    FG::Opt o;
    o.spatial = true;
    o.built = r.chance(50);
    o.maxn = 8;
    do
        s.f = FG::make(r, o);
    while (s.f.nodes.empty() || s.f.img.size() > 100000);
    s.path = dir + "/shared.copc.laz";
    FILE *fp = fopen(s.path.c_str(), "wb");
    fwrite(s.f.img.data(), 1, s.f.img.size(), fp);
    fclose(fp);
    auto &c = s.f.cfg;
    auto cw = std::make_shared<copc::CopcConfigWriter>(make_cfg(c));
    Meta m = rand_meta(r, cw->CopcExtents()->NumberOfExtents());
    set_meta(*cw, m);
    s.cw = cw;
    s.lw = std::make_shared<copc::las::LazConfigWriter>(c.fmt, c.scale, c.offset, c.wkt, c.eb);
    std::istringstream in(s.f.img), in2(s.f.img);
    copc::Reader rd(&in);
    LazReader lr(&in2);
    s.cc = std::make_shared<copc::CopcConfig>(rd.CopcConfig());
    s.lc = std::make_shared<copc::las::LazConfig>(lr.LazConfig());
    s.hd = std::make_shared<LasHeader>(static_cast<const copc::CopcConfigWriter &>(*cw).LasHeader());
    s.info = std::make_shared<copc::CopcInfo>(static_cast<const copc::CopcConfigWriter &>(*cw).CopcInfo());
    s.ext = std::make_shared<copc::CopcExtents>(static_cast<const copc::CopcConfigWriter &>(*cw).CopcExtents());
    s.eb = std::make_shared<copc::las::EbVlr>(static_cast<const copc::CopcConfigWriter &>(*cw).ExtraBytesVlr());
    s.evlr = std::make_shared<copc::las::CopcExtentsVlr>(s.ext->ToLazPerfExtended());
    std::vector<Raw> raws;
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; i++)
        raws.push_back(rand_raw(r, c.ebn));
    s.raw = std::make_shared<Bytes>(to_raw(raws, c.fmt));
    s.packed = std::make_shared<Bytes>(L::pack_chunk(*s.raw, c.fmt, c.ebn));
    s.pts = std::make_shared<Points>(to_points(*s.hd, raws));
    s.pt = (*s.pts)[r.below(n)];
    s.box = std::make_shared<copc::Box>(s.hd->Bounds());
    s.node = std::make_shared<copc::Node>(rd.FindNode(r.pick(s.f.nodes).key));
    s.key = std::make_shared<VoxelKey>(s.node->key);
    return s;
}
template <typename T> static std::string nums(const std::vector<T> &v)
{
    std::ostringstream o;
    o.precision(17);
    for (auto &x : v)
        o << +x << ',';
    return o.str();
}
static std::string vec(const Vector3 &v)
{
    char b[100];
    snprintf(b, sizeof b, "%a %a %a;", v.x, v.y, v.z);
    return b;
}
static std::string num(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%a;", d);
    return b;
}
static std::string of(const LasHeader &h)
{
    std::ostringstream o;
    o << h.ToString() << h.EbByteSize() << ' ' << (int)h.PointFormatId() << ' ' << h.PointRecordLength() << vec(h.Scale()) << vec(h.Offset()) << h.PointCount() << ' '
      << h.PointOffset() << ' ' << h.VlrCount() << ' ' << h.EvlrCount() << ' ' << h.EvlrOffset() << ' ' << h.IsCopc() << h.GUID() << h.SystemIdentifier()
      << h.GeneratingSoftware() << num(h.Span()) << vec(h.min) << vec(h.max) << h.Bounds().ToString();
    return o.str();
}
static std::string of(const copc::CopcExtents &e)
{
    std::ostringstream o;
    o << e.ToString() << e.NumberOfExtents() << (int)e.PointFormatId() << e.HasExtendedStats();
    for (auto &x : e.Extents())
        o << x.ToString() << num(x.minimum) << num(x.maximum) << num(x.mean) << num(x.var) << (x == x);
    return o.str();
}
static std::string of(const copc::las::EbVlr &e)
{
    std::ostringstream o;
    e.write(o);
    return o.str() + std::to_string(e.size());
}
static std::string of(const Points &p)
{
    return p.ToString() + nums(p.X()) + nums(p.Y()) + nums(p.Z()) + nums(p.Classification()) + nums(p.PointSourceId()) + std::to_string(p.Size()) + " " +
           std::to_string(p.PointRecordLength()) + " " + std::to_string(p.EbByteSize());
}
static std::string hex(const std::string &s) { return std::to_string(s.size()) + ":" + std::to_string(H::hashs(s)); }

struct SharedUse
{
    const char *name;
    std::string (*f)(const Shared &, Rng &);
};
static std::string drain(LazReader &rd) { return of(rd.GetPoints()); }
static const SharedUse uses[] = {
    {"header", [](const Shared &s, Rng &) { return of(*s.hd); }},
    {"header scaling",
     [](const Shared &s, Rng &r)
     {
         Vector3 v(r.range(-1000, 1000), r.range(-1000, 1000), r.range(-1000, 1000));
         Vector3 a = s.hd->ApplyScale(v);
         std::string o = vec(a) + vec(s.hd->ApplyInverseScale(a)) + num(s.hd->ApplyScaleX(3)) + num(s.hd->ApplyScaleY(3)) + num(s.hd->ApplyScaleZ(3));
         try { o += std::to_string(s.hd->RemoveScaleX(a.x)) + " " + std::to_string(s.hd->RemoveScaleY(a.y)) + " " + std::to_string(s.hd->RemoveScaleZ(a.z)); } catch (const std::exception &) { o += "refused"; }
         return o;
     }},
    {"header to record",
     [](const Shared &s, Rng &)
     {
         auto h = s.hd->ToLazPerf(0, 0, 0, 0, false, false);
         std::ostringstream o;
         h.write(o);
         return hex(o.str());
     }},
    {"info", [](const Shared &s, Rng &) { return s.info->ToString() + num(s.info->spacing); }},
    {"info to record",
     [](const Shared &s, Rng &)
     {
         auto v = s.info->ToLazPerf(*static_cast<const copc::CopcExtents &>(*s.ext).Extents().begin() == copc::CopcExtent() ? copc::CopcExtent() : s.ext->Extents()[0]);
         std::ostringstream o;
         v.write(o);
         return hex(o.str());
     }},
    {"extents", [](const Shared &s, Rng &) { return of(*s.ext); }},
    {"extents to record",
     [](const Shared &s, Rng &)
     {
         std::ostringstream o;
         auto e = s.ext->Extents();
         s.ext->ToLazPerf(e[0], e[1], e[2]).write(o);
         s.ext->ToLazPerfExtended().write(o);
         s.evlr->write(o);
         return hex(o.str()) + std::to_string(s.evlr->size());
     }},
    {"extra bytes", [](const Shared &s, Rng &) { return hex(of(*s.eb)); }},
    {"writer config",
     [](const Shared &s, Rng &) { return of(s.cw->LasHeader()) + s.cw->CopcInfo().ToString() + of(s.cw->CopcExtents()) + s.cw->Wkt() + hex(of(s.cw->ExtraBytesVlr())); }},
    {"reader config",
     [](const Shared &s, Rng &) { return of(s.cc->LasHeader()) + s.cc->CopcInfo().ToString() + of(s.cc->CopcExtents()) + s.cc->Wkt() + hex(of(s.cc->ExtraBytesVlr())); }},
    {"laz configs", [](const Shared &s, Rng &) { return of(s.lw->LasHeader()) + of(s.lc->LasHeader()) + s.lc->Wkt() + s.lw->Wkt() + hex(of(s.lc->ExtraBytesVlr())); }},
    {"copies of configs",
     [](const Shared &s, Rng &r)
     {
         copc::CopcConfigWriter a(*s.cw), b(*s.cc);
         copc::CopcConfig c(*s.cc), d(*s.cw);
         copc::las::LazConfig e(*s.lc), f(*s.cc);
         copc::las::LazConfigWriter g(*s.lc), h(*s.lw);
         // the copies are this thread's own
         a.LasHeader()->min = Vector3(1, 2, 3), b.LasHeader()->max = Vector3(4, 5, 6), g.LasHeader()->file_source_id = 7, h.LasHeader()->global_encoding = 17;
         a.CopcInfo()->spacing = 12, b.CopcInfo()->spacing = 13;
         a.CopcExtents()->Intensity()->var = 5, b.CopcExtents()->Intensity()->mean = 3;
         c = *s.cw, d = *s.cc, e = *s.lw, f = *s.lc;
         std::string o;
         for (auto *x : std::initializer_list<const copc::CopcConfig *>{&a, &b, &c, &d})
             o += hex(of(x->LasHeader()) + x->CopcInfo().ToString() + of(x->CopcExtents()) + x->Wkt());
         for (auto *x : std::initializer_list<const copc::las::LazConfig *>{&e, &f, &g, &h})
             o += hex(of(x->LasHeader()) + x->Wkt() + of(x->ExtraBytesVlr()));
         return o;
     }},
    {"points", [](const Shared &s, Rng &) { return of(*s.pts); }},
    {"pack",
     [](const Shared &s, Rng &)
     {
         Bytes a = s.pts->Pack(*s.hd), b = s.pts->Pack(s.hd->Scale(), s.hd->Offset());
         std::ostringstream o;
         s.pts->Pack(o, *s.hd);
         s.pt->Pack(o, s.hd->Scale(), s.hd->Offset());
         return hex(std::string(a.begin(), a.end())) + hex(std::string(b.begin(), b.end())) + hex(o.str());
     }},
    {"point",
     [](const Shared &s, Rng &)
     {
         auto &p = *s.pt;
         std::ostringstream o;
         o << p.ToString() << num(p.X()) << p.Intensity() << ' ' << +p.ReturnNumber() << +p.NumberOfReturns() << +p.Classification() << p.ScanAngle() << num(p.ScanAngleDegrees())
           << +p.UserData() << p.PointSourceId() << p.Synthetic() << p.KeyPoint() << p.Withheld() << p.Overlap() << +p.ScannerChannel() << p.ScanDirectionFlag()
           << p.EdgeOfFlightLineFlag() << num(p.GPSTime()) << nums(p.ExtraBytes()) << +p.ReturnsBitField() << +p.FlagsBitField() << p.HasRgb() << p.HasNir()
           << p.PointRecordLength() << +p.PointFormatId() << p.EbByteSize() << (p == *(*s.pts)[0]) << (p != *(*s.pts)[0]) << p.Within(*s.box);
         if (p.HasRgb())
             o << p.Red() << p.Green() << p.Blue();
         if (p.HasNir())
             o << p.Nir();
         Point q(p);
         q.ToPointFormat(q.PointFormatId() == 6 ? 8 : 6);
         o << q.ToString();
         return o.str();
     }},
    {"unpack",
     [](const Shared &s, Rng &)
     {
         auto c = s.f.cfg;
         return of(Points::Unpack(*s.raw, *s.hd)) + of(Points::Unpack(*s.raw, (int8_t)c.fmt, (uint16_t)c.ebn, c.scale, c.offset));
     }},
    {"codec",
     [](const Shared &s, Rng &)
     {
         Bytes a = copc::laz::Compressor::CompressBytes(*s.raw, (int8_t)s.f.cfg.fmt, (uint16_t)s.f.cfg.ebn);
         int n = (int)(s.raw->size() / (base_size(s.f.cfg.fmt) + s.f.cfg.ebn));
         Bytes b = copc::laz::Decompressor::DecompressBytes(*s.packed, *s.hd, n);
         return hex(std::string(a.begin(), a.end())) + (b == *s.raw ? "same" : "other");
     }},
    {"box",
     [](const Shared &s, Rng &)
     {
         std::ostringstream o;
         o << s.box->ToString() << s.box->Intersects(*s.box) << s.box->Contains(*s.box) << s.box->Contains(s.hd->min) << s.box->Within(*s.box);
         return o.str();
     }},
    {"key",
     [](const Shared &s, Rng &r)
     {
         auto &k = *s.key;
         std::ostringstream o;
         o << k.ToString() << k.IsValid() << k.Bisect(r.below(8)).ToString() << std::hash<VoxelKey>()(k) << (k == k) << k.ChildOf(VoxelKey::RootKey());
         for (auto &c : k.GetChildren())
             o << c.ToString();
         for (auto &c : k.GetParents(true))
             o << c.ToString() << c.Intersects(*s.hd, *s.box) << c.Contains(*s.hd, *s.box) << c.Contains(*s.hd, s.hd->min) << c.Within(*s.hd, *s.box) << c.Crosses(*s.hd, *s.box)
               << num(c.Resolution(*s.hd, *s.info)) << copc::Box(c, *s.hd).ToString();
         o << num(VoxelKey::GetResolutionAtDepth(3, *s.hd, *s.info));
         return o.str();
     }},
    {"node", [](const Shared &s, Rng &) { return s.node->ToString() + s.node->key.ToString() + s.node->page_key.ToString() + std::to_string(s.node->IsValid()) + std::to_string(s.node->IsPage()); }},
    {"copc writer",
     [](const Shared &s, Rng &r)
     {
         std::stringstream ss;
         std::string o;
         {
             copc::Writer w(ss, *s.cw);
             w.AddNode(VoxelKey::RootKey(), *s.pts);
             w.AddNode(VoxelKey(1, 0, 0, 1), *s.raw);
             w.AddNodeCompressed(VoxelKey(2, 0, 0, 3), *s.packed, (int)s.pts->Size(), VoxelKey(1, 0, 0, 1));
             w.CopcConfig()->LasHeader()->min = Vector3(-1e9, -1e9, -1e9 - (double)r.below(5)); // its own copy
             w.CopcConfig()->CopcInfo()->spacing = 3;
             w.CopcConfig()->CopcExtents()->Intensity()->mean = 77;
             w.Close();
         }
         copc::Reader rd(&ss);
         o = of(rd.CopcConfig().LasHeader()) + of(rd.CopcConfig().CopcExtents());
         for (auto k : {VoxelKey::RootKey(), VoxelKey(1, 0, 0, 1), VoxelKey(2, 0, 0, 3)})
             o += of(rd.GetPoints(k));
         return hex(o) + hex(ss.str());
     }},
    {"derived copc writer",
     [](const Shared &s, Rng &r)
     {
         std::stringstream ss;
         copc::Writer w(ss, *s.cc, (int8_t)r.range(6, 8), {}, {}, std::string("wkt"), {}, r.chance(50));
         w.Close();
         return hex(ss.str());
     }},
    {"laz writer",
     [](const Shared &s, Rng &)
     {
         std::stringstream ss;
         {
             LazWriter w(ss, *s.lw);
             w.WritePoints(*s.pts);
             w.WritePointsCompressed(*s.packed, (int)s.pts->Size());
             w.LazConfig()->LasHeader()->min = Vector3(-1e9, -1e9, -1e9);
             w.Close();
         }
         LazReader rd(&ss);
         return hex(drain(rd)) + hex(ss.str());
     }},
    {"one file by many readers",
     [](const Shared &s, Rng &r)
     {
         copc::FileReader rd(s.path);
         std::string o;
         for (int i = 0; i < 4; i++)
         {
             auto &n = r.pick(s.f.nodes);
             o += hex(of(rd.GetPoints(n.key)));
         }
         copc::laz::LazFileReader lr(s.path);
         return o + hex(drain(lr)) + (rd.ValidateSpatialBounds(false) ? "valid" : "invalid");
     }},
    {"list with shared points",
     [](const Shared &s, Rng &)
     {
         Points p(*s.hd);
         std::string o;
         for (auto &x : *s.pts)
             p.AddPoint(std::make_shared<Point>(*x));
         p.AddPoints(Points(*s.pts));
         o = of(p);
         for (size_t i = 0; i < s.pts->Size(); i++)
             p[i]->Intensity(5); // the copies only
         return hex(o) + of(p);
     }},
};
static const int N_USES = sizeof uses / sizeof *uses;

static std::string use(int k, const Shared &s, uint64_t seed)
{
    Rng r(seed);
    try
    {
        return uses[k].f(s, r);
    }
    catch (const std::exception &e)
    {
        return std::string("threw ") + e.what();
    }
}
static void shared_phase(Rng &r, const std::string &base)
{
    Tmp tmp(base + "/s");
    uint64_t world = r.next();
    Shared s = make_shared_things(world, tmp.p);
    int n = (int)r.range(2, r.chance(20) ? 8 : 4), len = (int)r.range(2, 10);
    std::vector<std::vector<std::pair<int, uint64_t>>> todo(n);
    for (int i = 0; i < len; i++)
    {
        int same = r.chance(60) ? (int)r.below(N_USES) : -1;
        for (auto &t : todo)
            t.push_back({same >= 0 ? same : (int)r.below(N_USES), r.next()});
    }
    std::vector<std::vector<std::string>> got(n);
    std::vector<Log> logs(n);
    std::vector<Rng> rngs;
    for (int i = 0; i < n; i++)
        rngs.emplace_back(r.next());
    int every = r.chance(60) ? (int)r.range(200, 1000) : 0;
    ready_ = 0;
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back(
            [&, i]
            {
                logs[i].thread = i;
                Pauses p(rngs[i], every);
                const Shared &mine = s;
                meet(n);
                for (auto &w : todo[i])
                {
                    logs[i].mark(w.first, true);
                    got[i].push_back(use(w.first, mine, w.second));
                    logs[i].mark(w.first, false);
                }
            });
    for (auto &t : ts)
        t.join();
    H::sig(overlaps(logs, [&](int a, int b)
                    {
                        H::count("shared-overlaps");
                        H::note("shared-overlap", std::string(uses[std::min(a, b)].name) + "+" + uses[std::max(a, b)].name);
                    }));
    Shared again = make_shared_things(world, tmp.p);
    for (int i = 0; i < n; i++)
        for (int k = 0; k < len; k++)
        {
            auto &w = todo[i][k];
            std::string alone = use(w.first, again, w.second);
            EXPECT(got[i][k] == alone, std::string("shared-differs:") + uses[w.first].name,
                   "'" << uses[w.first].name << "' in thread " << i << " of " << n << ": " << got[i][k].substr(0, 400) << "\nalone: " << alone.substr(0, 400));
            EXPECT(use(w.first, s, w.second) == alone, std::string("shared-changed:") + uses[w.first].name, "'" << uses[w.first].name << "' answers differently after the threads");
            H::count("shared-works");
            H::note("shared-work", uses[w.first].name);
            if (alone.compare(0, 5, "threw"))
                H::count("shared-answers");
        }
}

// ---------------------------------------------------------------- results change hands
static void handoff_phase(Rng &r, const std::string &base)
{
    FG::Opt o;
    o.spatial = true;
    o.built = r.chance(50);
    o.maxn = 12;
    File f;
    do
        f = FG::make(r, o);
    while (f.nodes.empty() || f.img.size() > 100000);
    struct Item
    {
        VoxelKey key;
        copc::Node node;
        std::shared_ptr<Points> pts;
        Bytes bytes;
        std::shared_ptr<copc::CopcConfigWriter> cfg;
    };
    std::mutex m;
    std::condition_variable cv;
    std::deque<Item> q;
    bool over = false;
    int n = (int)r.range(1, 3);
    std::vector<std::string> bad(n);
    std::vector<uint64_t> taken(n);
    std::vector<Rng> rngs;
    for (int i = 0; i < n; i++)
        rngs.emplace_back(r.next());
    std::map<std::string, Bytes> want;
    for (auto &x : f.nodes)
        want[ks(x.key)] = x.raw;
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back(
            [&, i]
            {
                Pauses p(rngs[i], 800);
                Rng &rr = rngs[i];
                while (true)
                {
                    Item it;
                    {
                        std::unique_lock<std::mutex> l(m);
                        cv.wait(l, [&] { return over || !q.empty(); });
                        if (q.empty())
                            return;
                        it = std::move(q.front());
                        q.pop_front();
                    }
                    try
                    {
                        taken[i]++;
                        auto h = static_cast<const copc::CopcConfigWriter &>(*it.cfg).LasHeader();
                        if (it.pts->Pack(h) != want[ks(it.key)] || it.bytes != want[ks(it.key)])
                            bad[i] = "the points of " + ks(it.key) + " are not those of the file";
                        for (auto &x : *it.pts)
                            x->Intensity((uint16_t)rr.below(65536)), x->Classification(3);
                        if (rr.chance(50))
                            it.pts->ToPointFormat((int8_t)rr.range(6, 8));
                        it.cfg->LasHeader()->min = Vector3(-9e9, -9e9, -9e9);
                        it.cfg->CopcExtents()->Intensity()->mean = (double)rr.below(100);
                        it.cfg->CopcInfo()->spacing = 4;
                        it.node.offset = 5;
                        std::stringstream ss;
                        copc::Writer w(ss, *it.cfg, it.pts->PointFormatId());
                        w.AddNode(it.key, *it.pts);
                        w.Close();
                        copc::Reader rd(&ss);
                        if (rd.GetPoints(it.key).Size() != it.pts->Size())
                            bad[i] = "points were lost on rewriting " + ks(it.key);
                    }
                    catch (const std::exception &e)
                    {
                        bad[i] = std::string("exception: ") + e.what();
                    }
                }
            });
    std::istringstream in(f.img);
    copc::Reader rd(&in);
    int rounds = (int)r.range(1, 3);
    std::string mine;
    for (int k = 0; k < rounds; k++)
        for (auto &x : f.nodes)
        {
            Item it;
            it.key = x.key;
            it.node = rd.FindNode(x.key);
            it.pts = std::make_shared<Points>(rd.GetPoints(it.node));
            it.bytes = rd.GetPointData(x.key);
            it.cfg = std::make_shared<copc::CopcConfigWriter>(rd.CopcConfig());
            if (r.chance(30) && rd.GetAllNodes().size() != f.nodes.size())
                mine = "the node list changed";
            if (r.chance(30))
                rd.GetPointsWithinBox(copc::Box::MaxBox());
            {
                std::lock_guard<std::mutex> l(m);
                q.push_back(std::move(it));
            }
            cv.notify_one();
        }
    {
        std::lock_guard<std::mutex> l(m);
        over = true;
    }
    cv.notify_all();
    for (auto &t : ts)
        t.join();
    for (int i = 0; i < n; i++)
    {
        EXPECT(bad[i].empty(), "handed-over", "thread " << i << " of " << n << ": " << bad[i]);
        H::count("handed-over", taken[i]);
    }
    EXPECT(mine.empty(), "handed-over", mine);
}

void once_begin()
{
    struct sigaction a = {};
    a.sa_handler = on_pause;
    a.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &a, nullptr);
}
static void child(Rng &r)
{
    std::string base = H::tmpdir + "/c" + std::to_string(getpid());
    Tmp tmp(base);
    private_phase(r, base);
    shared_phase(r, base);
    if (r.chance(50))
        handoff_phase(r, base);
}
void run_case(uint64_t, Rng &r)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        itimerval it = {};
        it.it_value.tv_sec = H::cpu_limit;
        setitimer(ITIMER_PROF, &it, nullptr);
        int rc = 0;
        try
        {
            child(r);
        }
        catch (const std::exception &e)
        {
            H::violate("unexpected-exception", e.what());
        }
        H::dump();
        fflush(H::out);
        _exit(rc);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFSIGNALED(st))
    {
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
    }
    if (WEXITSTATUS(st))
        _exit(WEXITSTATUS(st));
}
